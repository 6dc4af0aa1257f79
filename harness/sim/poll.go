package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"socketioverif/wire"
)

// Enc is the encoding a poll asks for.
type Enc int

// The encodings.
const (
	XHR2 Enc = iota
	B64
	JSONP
)

func (e Enc) String() string { return [...]string{"xhr2", "b64", "jsonp"}[e] }

// Query is what the encoding adds to the query string.
func (e Enc) Query(j string) string {
	switch e {
	case B64:
		return "&b64=1"
	case JSONP:
		if len(j) > 0 && j[len(j)-1]%2 == 1 { // as the JSONP transport of engine.io-client does
			return "&b64=1&j=" + j
		}
		return "&j=" + j
	}
	return ""
}

// DecodePoll checks and decodes the response to a poll.
func DecodePoll(c *Call, e Enc, j string) ([]wire.Pkt, error) {
	if v, st := c.Panic(); v != nil {
		return nil, fmt.Errorf("handler panicked: %v\n%s", v, st)
	}
	code, hdr, body := c.Result()
	if code != 200 {
		return nil, fmt.Errorf("status %d: %s", code, bytes.TrimSpace(body))
	}
	mt, par, err := mime.ParseMediaType(hdr.Get("Content-Type"))
	if err != nil {
		return nil, fmt.Errorf("content type %q: %v", hdr.Get("Content-Type"), err)
	}
	switch e {
	case XHR2:
		if mt != "application/octet-stream" {
			return nil, fmt.Errorf("binary payload labelled %q", hdr.Get("Content-Type"))
		}
		return wire.DecBin(body)
	case B64:
		if mt != "text/plain" || !strings.EqualFold(par["charset"], "utf-8") {
			return nil, fmt.Errorf("text payload labelled %q", hdr.Get("Content-Type"))
		}
		return wire.DecText(body)
	}
	if mt != "text/javascript" && mt != "application/javascript" {
		return nil, fmt.Errorf("JSONP response labelled %q", hdr.Get("Content-Type"))
	}
	s, err := ParseJSONP(body, j)
	if err != nil {
		return nil, err
	}
	return wire.DecText([]byte(s))
}

// jsString is a double-quoted JavaScript string literal without line terminators.
var jsStart = regexp.MustCompile(`^___eio\[(\d+)\]\(\s*"`)

// ParseJSONP parses ___eio[j]("..."); and returns the string.
func ParseJSONP(body []byte, j string) (string, error) {
	m := jsStart.FindSubmatch(body)
	if m == nil {
		return "", fmt.Errorf("not a JSONP call with a string: %.80q", body)
	}
	if string(m[1]) != j {
		return "", fmt.Errorf("JSONP index %q, want %q", m[1], j)
	}
	if !utf8.Valid(body) {
		return "", fmt.Errorf("JSONP response is not UTF-8")
	}
	rest := body[len(m[0]):]
	i := 0
	for i < len(rest) && rest[i] != '"' {
		if rest[i] == '\n' || rest[i] == '\r' {
			return "", fmt.Errorf("line break inside the JavaScript string")
		}
		if rest[i] == '\\' {
			i++
		}
		i++
	}
	if i >= len(rest) {
		return "", fmt.Errorf("unterminated JavaScript string")
	}
	lit := rest[:i]
	tail := strings.TrimSpace(string(rest[i+1:]))
	tail = strings.ReplaceAll(tail, " ", "")
	tail = strings.ReplaceAll(tail, "\n", "")
	if tail != ");" && tail != ")" {
		return "", fmt.Errorf("%.60q after the string argument", rest[i+1:])
	}
	// the literal uses JSON escapes, or is rejected
	var s string
	if err := json.Unmarshal([]byte(`"`+string(lit)+`"`), &s); err != nil {
		return "", fmt.Errorf("JavaScript string %.60q: %v", lit, err)
	}
	return s, nil
}

// Poll is a protocol-level polling client of one session (or of a handshake).
type Poll struct {
	H    http.Handler
	Addr string
	Hdr  http.Header
	Sid  string
	Enc  Enc
	J    string

	mu      sync.Mutex
	got     []wire.Pkt
	bad     error // first undecodable response
	last    *Call
	running bool
	stop    bool
	ended   bool // a poll was refused
	polls   int
	busy    bool // a poll of the loop is unanswered or its response not yet recorded
	cond    *sync.Cond
	limit   int // polls allowed (-1: no limit)
	onPkt   func(wire.Pkt)
}

// NewPoll makes a client.
func NewPoll(h http.Handler, addr string, hdr http.Header, e Enc) *Poll {
	p := &Poll{H: h, Addr: addr, Hdr: hdr, Enc: e, J: "0", limit: -1}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// Query builds the query string.
func (p *Poll) Query() string {
	q := "EIO=3&transport=polling"
	if p.Sid != "" {
		q += "&sid=" + p.Sid
	}
	return q
}

// Get starts a poll.
func (p *Poll) Get() *Call {
	return Do(p.H, Req("GET", p.Query()+p.Enc.Query(p.J), p.Addr, p.Hdr, nil))
}

// Post starts a post of packets in the client's encoding.
func (p *Poll) Post(pkts ...wire.Pkt) *Call {
	if p.Enc == XHR2 {
		return p.PostRaw(wire.EncBin(pkts), "application/octet-stream", nil)
	}
	return p.PostRaw(wire.EncText(pkts), "text/plain;charset=UTF-8", nil)
}

// PostRaw starts a post.
func (p *Poll) PostRaw(body []byte, ctype string, chunks []int) *Call {
	return p.PostBody(NewBody(body, chunks, nil), ctype)
}

// PostBody starts a post.
func (p *Poll) PostBody(body io.ReadCloser, ctype string) *Call {
	return p.PostBodyLen(body, -1, ctype)
}

// PostBodyLen is PostBody with a declared length (-1: none, a chunked request).
func (p *Poll) PostBodyLen(body io.ReadCloser, n int64, ctype string) *Call {
	h := http.Header{}
	for k, v := range p.Hdr {
		h[k] = v
	}
	h.Set("Content-Type", ctype)
	r := Req("POST", p.Query(), p.Addr, h, body)
	r.ContentLength = n
	if n >= 0 {
		r.Header.Set("Content-Length", strconv.FormatInt(n, 10))
	} else {
		r.TransferEncoding = []string{"chunked"}
	}
	return Do(p.H, r)
}

// Run polls until Stop, an undecodable response, or a refusal. allowed limits the number
// of polls (-1: no limit); Allow raises it.
func (p *Poll) Run(allowed int) {
	p.mu.Lock()
	if p.running {
		p.mu.Unlock()
		return
	}
	p.running, p.limit = true, allowed
	p.stop = false
	p.mu.Unlock()
	go func() {
		for {
			p.mu.Lock()
			for p.limit == 0 && !p.stop {
				p.cond.Wait()
			}
			if p.stop {
				p.running = false
				p.mu.Unlock()
				return
			}
			if p.limit > 0 {
				p.limit--
			}
			c := p.Get()
			p.last = c
			p.polls++
			p.busy = true
			p.mu.Unlock()
			<-c.done
			ok := p.take(c)
			p.mu.Lock()
			p.busy = false
			p.running = ok
			p.cond.Broadcast()
			p.mu.Unlock()
			if !ok {
				return
			}
			if p.onlyNoop(c) && !Virtual {
				time.Sleep(50 * time.Microsecond) // polls of a paused session return at once
			}
		}
	}()
}

func (p *Poll) onlyNoop(c *Call) bool {
	pk, err := DecodePoll(c, p.Enc, p.J)
	return err == nil && len(pk) == 1 && pk[0].Type == wire.ENoop
}

// Take records the response of a poll; false means polling is over.
func (p *Poll) take(c *Call) bool {
	code, _, body := c.Result()
	p.mu.Lock()
	if v, _ := c.Panic(); v == nil && code >= 400 && code < 500 {
		p.ended = true
		if !p.stop && p.bad == nil {
			p.bad = nil
		}
		_ = body
		p.mu.Unlock()
		return false
	}
	pkts, err := DecodePoll(c, p.Enc, p.J)
	if err != nil {
		if p.bad == nil {
			p.bad = err
		}
		p.mu.Unlock()
		return false
	}
	p.got = append(p.got, pkts...)
	f := p.onPkt
	p.mu.Unlock()
	if f != nil {
		for _, k := range pkts {
			f(k)
		}
	}
	return true
}

// Take records the response of an answered poll made with Get.
func (p *Poll) Take(c *Call) bool { return p.take(c) }

// Give records packets obtained by other means.
func (p *Poll) Give(pkts []wire.Pkt) {
	p.mu.Lock()
	p.got = append(p.got, pkts...)
	p.mu.Unlock()
}

// OnPkt registers a function to run for every packet received.
func (p *Poll) OnPkt(f func(wire.Pkt)) {
	p.mu.Lock()
	p.onPkt = f
	p.mu.Unlock()
}

// Allow permits n more polls (-1: any number).
func (p *Poll) Allow(n int) {
	p.mu.Lock()
	if n < 0 {
		p.limit = -1
	} else if p.limit >= 0 {
		p.limit += n
	}
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Hold forbids further polls.
func (p *Poll) Hold() {
	p.mu.Lock()
	p.limit = 0
	p.mu.Unlock()
}

// Stop ends polling after the poll in flight, which is aborted if abort is set.
func (p *Poll) Stop(abort bool) {
	p.mu.Lock()
	p.stop = true
	c := p.last
	p.cond.Broadcast()
	p.mu.Unlock()
	if abort && c != nil {
		c.Abort()
	}
}

// Running tells whether the polling loop is alive.
func (p *Poll) Running() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.running
}

// InFlight tells whether a poll of the loop is unanswered.
func (p *Poll) InFlight() bool {
	p.mu.Lock()
	c := p.last
	p.mu.Unlock()
	return c != nil && !c.Done()
}

// WaitIdle blocks until every poll of the loop is answered and its response recorded.
func (p *Poll) WaitIdle() {
	p.mu.Lock()
	for p.busy {
		p.cond.Wait()
	}
	p.mu.Unlock()
}

// Ended tells whether a poll was refused.
func (p *Poll) Ended() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended
}

// Got returns the packets received so far, and the first undecodable response.
func (p *Poll) Got() ([]wire.Pkt, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.got[:len(p.got):len(p.got)], p.bad
}

// N is the number of packets received.
func (p *Poll) N() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.got)
}

// Polls is the number of polls made by Run.
func (p *Poll) Polls() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.polls
}

// ParseOpen extracts the session parameters of an open packet.
func ParseOpen(k wire.Pkt) (sid string, upgrades []string, interval, timeout int, err error) {
	if k.Type != wire.EOpen || k.Bin {
		return "", nil, 0, 0, fmt.Errorf("first packet is %s, not open", k)
	}
	var o struct {
		SID          *string  `json:"sid"`
		Upgrades     []string `json:"upgrades"`
		PingInterval *int     `json:"pingInterval"`
		PingTimeout  *int     `json:"pingTimeout"`
	}
	if err = json.Unmarshal(k.Data, &o); err != nil {
		return
	}
	if o.SID == nil || *o.SID == "" || o.PingInterval == nil || o.PingTimeout == nil {
		return "", nil, 0, 0, fmt.Errorf("open packet %s lacks a field", k)
	}
	return *o.SID, o.Upgrades, *o.PingInterval, *o.PingTimeout, nil
}
