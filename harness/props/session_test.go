package props

import (
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C04: handshakes ----

type originSet []string

func (o originSet) CheckOrigin(r *http.Request) bool {
	for _, x := range o {
		if x == r.Header.Get("Origin") {
			return true
		}
	}
	return false
}

const okOrigin = "http://ok.example"

type c04Req struct {
	EIO    string  `json:"eio"`
	NoEIO  bool    `json:"noeio,omitempty"`
	Tr     string  `json:"transport"`
	Sid    int     `json:"sid"` // 0 none, 1 empty, 2 bogus, 3 of an ended session, 4 ended by the application, 5-9 like that of a live session, 10 of a live session
	Origin string  `json:"origin"`
	WS     int     `json:"ws"` // websocket handshake: 0 proper, else broken
	Enc    sim.Enc `json:"enc"`
	With   bool    `json:"with_previous"` // concurrently with the previous request
	Twice  bool    `json:"extra_params"`
}

type c04Plan struct {
	Interval int         `json:"interval_ms"`
	Timeout  int         `json:"timeout_ms"`
	Checkers []originSet `json:"checkers"`
	Greet    bool        `json:"greet"`
	Reqs     []c04Req    `json:"reqs"`
}

func (r c04Req) valid(cs []originSet) bool {
	if r.NoEIO || r.EIO != "3" || r.Tr != "polling" && r.Tr != "websocket" || r.Sid > 1 {
		return false
	}
	for _, o := range cs {
		if o == nil {
			continue
		}
		if !o.CheckOrigin(&http.Request{Header: http.Header{"Origin": {r.Origin}}}) {
			return false
		}
	}
	return r.Tr == "polling" || r.WS == 0
}

func genC04(t *rapid.T) c04Plan {
	p := c04Plan{Interval: rapid.IntRange(30000, 9000000).Draw(t, "interval"), Timeout: rapid.IntRange(30000, 9000000).Draw(t, "timeout"), Greet: rapid.Bool().Draw(t, "greet")}
	others := []string{"", "http://evil.example", "http://OK.example", "https://ok.example", "http://ok.example.evil", "null"}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "checkers"); i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "nilchecker") == 0 {
			p.Checkers = append(p.Checkers, nil)
			continue
		}
		o := originSet{okOrigin}
		for _, x := range others {
			if rapid.Bool().Draw(t, "accept") {
				o = append(o, x)
			}
		}
		p.Checkers = append(p.Checkers, o)
	}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "reqs"); i < n; i++ {
		r := c04Req{EIO: "3", Tr: rapid.SampledFrom([]string{"polling", "websocket"}).Draw(t, "tr"), Origin: okOrigin,
			Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, "enc")), With: rapid.Bool().Draw(t, "with"), Twice: rapid.IntRange(0, 5).Draw(t, "extra") == 0}
		if rapid.Bool().Draw(t, "other-origin") {
			r.Origin = rapid.SampledFrom(others).Draw(t, "origin")
		}
		switch rapid.IntRange(0, 9).Draw(t, "what") {
		case 0:
			r.EIO = rapid.SampledFrom([]string{"4", "2", "", "03", "3.0", "+3", "33", "three", "-3"}).Draw(t, "eio")
		case 1:
			r.NoEIO = true
		case 2, 3:
			r.Tr = rapid.SampledFrom([]string{"", "flashsocket", "Polling", "WEBSOCKET", "polling2", "jsonp", "web"}).Draw(t, "badtr")
		case 4, 5:
			r.Sid = rapid.IntRange(1, 9).Draw(t, "sid")
		case 8: // an upgrade of a live session, refused
			r.Tr = "websocket"
			if r.valid(p.Checkers) {
				r.WS = rapid.IntRange(1, 5).Draw(t, "brokenws")
			}
			r.Sid = 10
		case 6:
			if r.Tr == "websocket" {
				r.WS = rapid.IntRange(1, 5).Draw(t, "brokenws")
			}
		}
		p.Reqs = append(p.Reqs, r)
	}
	return p
}

func rawUpgrade(query, origin string, how int) []byte {
	h := []string{"Host: server.example", "Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}
	m := "GET"
	switch how {
	case 1: // a plain request
		h = h[:1]
	case 2:
		h = h[:4]
	case 3:
		h[3] = "Sec-WebSocket-Version: 12"
	case 4:
		h[2] = "Upgrade: h2c"
	case 5:
		m = "POST"
		h = append(h, "Content-Length: 0")
	}
	if origin != "" {
		h = append(h, "Origin: "+origin)
	}
	return []byte(m + " " + sim.Path + "?" + query + " HTTP/1.1\r\n" + strings.Join(h, "\r\n") + "\r\n\r\n")
}

func runC04(c *kit.C, p c04Plan) {
	var oc []engine.OriginChecker
	for _, o := range p.Checkers {
		if o == nil {
			oc = append(oc, nil)
		} else {
			oc = append(oc, o)
		}
	}
	ms := time.Millisecond
	s := newEngSrv(c, time.Duration(p.Interval)*ms, time.Duration(p.Timeout)*ms, oc...)
	var greeted notes
	if p.Greet {
		s.OnOpen = func(e *esess) {
			e.emit(Blob{Lit: []byte("hello")})
			greeted.add(e.Sid)
		}
	}
	okh := http.Header{"Origin": {okOrigin}}
	a := newPollPeer(c, s, "10.0.0.1:1", okh, sim.XHR2)
	b := newWSPeer(c, s, "10.0.0.2:1", okh)
	d := newPollPeer(c, s, "10.0.0.3:1", okh, sim.XHR2)
	d2 := newWSPeer(c, s, "10.0.0.4:1", okh)
	if p.Greet {
		c.Await(func() bool { return greeted.len() >= 4 }, "open callbacks")
		for _, q := range []*peer{a, b, d, d2} {
			q.emitted = append(q.emitted, Blob{Lit: []byte("hello")}.Msg())
		}
	}
	a.poll.Run(-1)
	d.poll.Run(-1)
	d.lenient()
	d.sendPkts([]wire.Pkt{{Type: wire.EClose}})
	c.Await(d.e.Closed, "end of a session whose client sent a close packet")
	go d2.e.Sock.Close()
	c.Await(d2.e.Closed, "end of a session the application closed")
	if strings.ToLower(a.sid) == a.sid {
		return
	}
	sids := map[string]bool{a.sid: true, b.sid: true, d.sid: true, d2.sid: true}
	if len(sids) != 4 {
		c.Failf("session ids repeat: %v", sids)
	}
	check := func(k wire.Pkt) {
		sid, ups, in, to, err := sim.ParseOpen(k)
		if err != nil {
			c.Failf("handshake: %v", err)
		}
		if sids[sid] {
			c.Failf("session id %s was handed out before", sid)
		}
		sids[sid] = true
		if in != p.Interval || to != p.Timeout {
			c.Failf("open packet announces interval %d and timeout %d, configured %d and %d", in, to, p.Interval, p.Timeout)
		}
		found := false
		for _, u := range ups {
			found = found || u == "websocket"
		}
		if !found {
			c.Failf("open packet offers upgrades %v", ups)
		}
	}
	opened := 4
	for i := 0; i < len(p.Reqs); {
		j := i + 1
		for j < len(p.Reqs) && p.Reqs[j].With {
			j++
		}
		var waits []func()
		for n, r := range p.Reqs[i:j] {
			r := r
			q := "EIO=" + r.EIO
			if r.NoEIO {
				q = "x=1"
			}
			q += "&transport=" + r.Tr
			q += [...]string{"", "&sid=", "&sid=bogus0123", "&sid=" + d.sid, "&sid=" + d2.sid,
				"&sid=" + strings.ToLower(a.sid), "&sid=" + a.sid[:len(a.sid)-1], "&sid=" + b.sid + "0", "&sid=%20" + b.sid, "&sid=" + a.sid + "%00", "&sid=" + a.sid}[r.Sid]
			if r.Twice {
				q = "t=abc%20d&" + q + "&x=%00;y"
				q = strings.ReplaceAll(q, ";", "%3B")
			}
			addr := fmt.Sprintf("10.1.%d.1:%d", i, 1000+n)
			hdr := http.Header{}
			if r.Origin != "" {
				hdr.Set("Origin", r.Origin)
			}
			valid := r.valid(p.Checkers)
			c.LabelIf(valid, "valid")
			c.LabelIf(!valid, "invalid")
			if valid {
				opened++
			}
			bad := func(code int) {
				if code < 400 || code > 499 {
					c.Failf("request %s (origin %q, handshake variant %d) answered with status %d, want 4xx", q, r.Origin, r.WS, code)
				}
			}
			switch {
			case r.Tr == "websocket" && r.WS > 0:
				rr := sim.RawRequest(s.S, addr, rawUpgrade(q, r.Origin, r.WS))
				c.Defer(func() { rr.Cli.Close() })
				waits = append(waits, func() {
					c.Await(rr.Done, "answer to %s", q)
					if call := rr.Call(); call != nil {
						noPanic(c, call)
					}
					bad(rr.Status())
				})
			case r.Tr == "websocket":
				w := sim.DialWS(s.S, q, addr, hdr, nil)
				c.Defer(w.Close)
				waits = append(waits, func() {
					if !valid {
						c.Await(w.HSDone, "answer to %s", q)
						if call := w.Call(); call != nil {
							noPanic(c, call)
						}
						bad(w.Status())
						return
					}
					c.Await(func() bool { return w.N() > 0 || w.Ended() != nil }, "open packet on %s", q)
					got, badf := w.Got()
					if len(got) == 0 || badf != nil {
						c.Failf("valid request %s (origin %q): %v %v", q, r.Origin, w.Ended(), badf)
					}
					check(got[0])
				})
			default:
				call := sim.Do(s.S, sim.Req("GET", q+r.Enc.Query("0"), addr, hdr, nil))
				c.Defer(call.Abort)
				waits = append(waits, func() {
					c.Await(call.Done, "answer to %s", q)
					noPanic(c, call)
					if !valid {
						code, _, _ := call.Result()
						bad(code)
						return
					}
					pk, err := sim.DecodePoll(call, r.Enc, "0")
					if err != nil || len(pk) == 0 {
						c.Failf("valid request %s (origin %q): %v", q, r.Origin, err)
					}
					check(pk[0])
				})
			}
		}
		for _, w := range waits {
			w()
		}
		i = j
	}
	bads := 0
	for _, r := range p.Reqs {
		if !r.valid(p.Checkers) {
			bads++
		}
	}
	c.NonTrivialIf(bads > 0 && bads < len(p.Reqs))
	count := func() (n int) {
		for _, e := range s.sessions() {
			o, _, _ := e.counts()
			n += o
		}
		return
	}
	c.Await(func() bool { return count() >= opened }, "open callbacks of %d sessions", opened)
	a.exchange("polling session after the requests")
	b.exchange("websocket session after the requests")
	c.Quiet()
	if n := count(); n != opened {
		c.Failf("%d sessions were opened by %d valid requests", n, opened)
	}
	for _, e := range s.sessions() {
		if _, n, _ := e.counts(); n > 0 && e != d.e && e != d2.e || n > 1 {
			c.Failf("close callback ran %d times for session %s", n, e.Sid)
		}
	}
}

func init() {
	kit.Add("C04", "handshakes", "lists of requests to a server with 0-3 origin checkers, some concurrent; non-trivial: both valid and invalid requests among them",
		12000, 120000, genC04, runC04)
}

// ---- C05: reliable ordered delivery ----

type c05Op struct {
	Kind  string `json:"kind"`
	Blobs []Blob `json:"blobs,omitempty"`
	N     int    `json:"n,omitempty"`
}

type c05Plan struct {
	WS   bool    `json:"ws"`
	Enc  sim.Enc `json:"enc"`
	Echo bool    `json:"echo"`
	Ops  []c05Op `json:"ops"`
	Frag []int   `json:"frag,omitempty"` // how the client splits its WebSocket messages
	Read int     `json:"read,omitempty"` // the server's reads return at most this much
}

func genBurst(t *rapid.T, label string) []Blob {
	var out []Blob
	if rapid.IntRange(0, 3).Draw(t, label+".burst") == 0 {
		n := rapid.IntRange(10, 60).Draw(t, label+".n")
		sd := rapid.IntRange(0, 1<<16).Draw(t, label+".seed")
		for i := 0; i < n; i++ {
			out = append(out, Blob{Bin: (sd>>(i%8))&1 == 1, Lit: []byte(fmt.Sprintf("%s%d/%d", "burst", sd, i))})
		}
		return out
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, label+".n"); i < n; i++ {
		out = append(out, genBlob(t, fmt.Sprintf("%s.%d", label, i), 20000))
	}
	return out
}

func genC05(t *rapid.T) c05Plan {
	p := c05Plan{WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Echo: rapid.IntRange(0, 3).Draw(t, "echo") == 0}
	for i, n := 0, rapid.IntRange(1, 10).Draw(t, "ops"); i < n; i++ {
		k := rapid.SampledFrom([]string{"emit", "emit", "emit", "send", "send", "send", "gate", "ungate", "flow", "hold", "allow", "quiet"}).Draw(t, "kind")
		o := c05Op{Kind: k}
		switch k {
		case "emit", "send":
			o.Blobs = genBurst(t, fmt.Sprint("op", i))
			o.N = rapid.IntRange(0, 4).Draw(t, "group")
		case "allow":
			o.N = rapid.IntRange(1, 12).Draw(t, "n")
		}
		p.Ops = append(p.Ops, o)
	}
	if p.WS {
		p.Frag, p.Read = genFrag(t)
	}
	return p
}

// genFrag draws how a client splits its WebSocket messages, and how the network does.
func genFrag(t *rapid.T) (frag []int, read int) {
	if rapid.IntRange(0, 2).Draw(t, "split") == 0 {
		frag = append(rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 100, 125, 126, 127, 4096, 65535, 65536}), 0, 4).Draw(t, "frames"), rapid.SampledFrom([]int{1 << 13, 1 << 12, 1 << 20}).Draw(t, "frame"))
	}
	if rapid.IntRange(0, 3).Draw(t, "reads") == 0 {
		read = rapid.SampledFrom([]int{1, 2, 7, 4095, 4096, 4097}).Draw(t, "read")
	}
	return
}

// gate blocks handlers.
type gate struct {
	mu sync.Mutex
	ch chan struct{}
}

func (g *gate) shut() {
	g.mu.Lock()
	if g.ch == nil {
		g.ch = make(chan struct{})
	}
	g.mu.Unlock()
}

func (g *gate) open() {
	g.mu.Lock()
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
	g.mu.Unlock()
}

func (g *gate) pass() {
	g.mu.Lock()
	ch := g.ch
	g.mu.Unlock()
	if ch != nil {
		<-ch
	}
}

func runC05(c *kit.C, p c05Plan) {
	s := newEngSrv(c, long, long)
	s.keep = true
	var g gate
	c.Defer(g.open)
	var pe *peer
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		g.pass()
		if p.Echo {
			pe.mu.Lock()
			pe.emitted = append(pe.emitted, k)
			pe.mu.Unlock()
			if err := e.emit(Blob{Bin: k.Bin, Lit: k.Data}); err != nil {
				c.Errorf("emit from a handler: %v", err)
			}
		}
	}
	pe = newPeer(c, s, p.WS, "10.0.0.1:1", nil, p.Enc)
	flow := func(on bool) {
		if p.WS {
			pe.ws.Srv.StallWrites(!on)
		} else if on {
			pe.poll.Allow(-1)
		} else {
			pe.poll.Hold()
		}
	}
	if !p.WS {
		pe.poll.Run(-1)
	} else {
		pe.ws.Frag(p.Frag)
		pe.ws.Srv.MaxRead(p.Read)
		c.LabelIf(len(p.Frag) > 0, "fragmented")
	}
	big, both := false, 0
	for _, o := range p.Ops {
		switch o.Kind {
		case "emit":
			if !p.Echo {
				pe.emit(o.Blobs)
				both |= 1
			}
			big = big || len(o.Blobs) > 16
		case "send":
			pe.send(o.Blobs, o.N)
			both |= 2
			big = big || len(o.Blobs) > 16
		case "gate":
			g.shut()
			c.Label("gated-handler")
		case "ungate":
			g.open()
		case "flow":
			flow(true)
		case "hold":
			flow(false)
			c.Label("client-not-reading")
		case "allow":
			if !p.WS {
				pe.poll.Allow(o.N)
			}
		case "quiet":
			c.Quiet()
		}
	}
	c.LabelIf(big, "burst")
	c.NonTrivialIf(big || both == 3)
	g.open()
	flow(true)
	pe.exchangeEcho(p.Echo)
	c.Quiet()
	pe.compare("after everything settled")
}

func (p *peer) exchangeEcho(echo bool) {
	p.send([]Blob{fence()}, 0)
	if !echo {
		p.emit([]Blob{fence()})
		p.finish("at the end")
		return
	}
	p.c.Reaches(func() bool { return p.e.Closed() || p.e.N() >= p.sentN() && len(p.got()) >= p.sentN() })
	p.compare("at the end")
}

type c05Stall struct {
	WS      bool  `json:"ws"`
	Timeout int   `json:"timeout_ms"`
	Before  int   `json:"before"`
	Taken   int   `json:"taken_while_stalled"`
	N       int   `json:"emits"`
	Gap     []int `json:"gaps_ms"`
	Stall   int   `json:"stall_ms"`
	After   int   `json:"after"`
}

func init() {
	kit.Add("C05", "flow", "emits, posts or frames, gated handlers, held polls and stalled connections on one session; non-trivial: a burst above 16 messages or traffic in both directions",
		12000, 120000, genC05, runC05)

	kit.Add("C05", "stall", "a client that stops taking messages for a drawn time while the server emits; non-trivial: stall longer than the timeout, or emits above 16",
		12000, 150000,
		func(t *rapid.T) c05Stall {
			p := c05Stall{WS: rapid.Bool().Draw(t, "ws"), Timeout: rapid.IntRange(500, 5000).Draw(t, "timeout"),
				Before: rapid.IntRange(0, 3).Draw(t, "before"), N: rapid.IntRange(0, 40).Draw(t, "n"), After: rapid.IntRange(0, 12).Draw(t, "after")}
			p.Stall = p.Timeout * rapid.IntRange(10, 300).Draw(t, "stall%") / 100
			if rapid.IntRange(0, 3).Draw(t, "exactly") == 0 { // the client takes a message at the very moment of the timeout
				p.Stall = p.Timeout * rapid.IntRange(1, 2).Draw(t, "timeouts")
			}
			p.Gap = rapid.SliceOfN(rapid.IntRange(0, 400), 1, 4).Draw(t, "gaps")
			if !p.WS {
				p.Taken = rapid.IntRange(0, 3).Draw(t, "taken")
			}
			return p
		}, runC05Stall).OnVirtualTime()
}

func runC05Stall(c *kit.C, p c05Stall) {
	to := time.Duration(p.Timeout) * time.Millisecond
	s := newEngSrv(c, 200*time.Millisecond, to)
	pe := newPeer(c, s, p.WS, "10.0.0.1:1", nil, sim.XHR2)
	pe.lenient()
	// the client stays alive by pinging
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
			}
			if p.WS {
				pe.ws.Send(wire.Pkt{Type: wire.ENoop})
			} else {
				call := pe.poll.Post(wire.Pkt{Type: wire.ENoop})
				select {
				case <-call.DoneChan():
				case <-stop:
					return
				}
			}
		}
	}()
	if !p.WS {
		pe.poll.Run(-1)
	}
	num := 0
	var oks []wire.Pkt
	var mu sync.Mutex
	emit := func(n int) {
		for i := 0; i < n; i++ {
			num++
			b := Blob{Bin: num%3 == 0, Lit: []byte(fmt.Sprint("m", num))}
			g := p.Gap[num%len(p.Gap)]
			pe.e.w.do(func() {
				if err := pe.e.emit(b); err == nil {
					mu.Lock()
					oks = append(oks, b.Msg())
					mu.Unlock()
				}
				time.Sleep(time.Duration(g) * time.Millisecond)
			})
		}
	}
	emit(p.Before)
	time.Sleep(time.Duration(p.Before*400+10) * time.Millisecond)
	c.Quiet()
	if p.WS {
		pe.ws.Srv.StallWrites(true)
	} else {
		pe.poll.Hold()
	}
	emit(p.N)
	if p.Taken > 0 {
		time.Sleep(time.Duration(p.Stall) * time.Millisecond / 2)
		pe.poll.Allow(p.Taken)
		time.Sleep(time.Duration(p.Stall) * time.Millisecond / 2)
	} else {
		time.Sleep(time.Duration(p.Stall) * time.Millisecond)
	}
	if p.WS {
		pe.ws.Srv.StallWrites(false)
	} else {
		pe.poll.Allow(-1)
	}
	emit(p.After)
	time.Sleep(time.Duration((p.N+p.After)*400+10) * time.Millisecond)
	c.Quiet()
	got := pe.got()
	c.Check()
	mu.Lock()
	want := append([]wire.Pkt(nil), oks...)
	mu.Unlock()
	closed := pe.e.Closed()
	c.LabelIf(closed, "closed")
	c.LabelIf(!closed, "survived")
	c.NonTrivialIf(p.Stall > p.Timeout || p.N > 16)
	if !closed {
		if err := samePkts(got, want); err != nil {
			c.Failf("session goes on after a stall of %d ms (timeout %d ms), but client received: %v", p.Stall, p.Timeout, err)
		}
		if len(want) != num {
			c.Failf("%d of %d emits failed on a session that goes on", num-len(want), num)
		}
	} else {
		if len(got) > len(want) {
			c.Failf("client received %d messages of %d emitted", len(got), len(want))
		}
		if err := samePkts(got, want[:len(got)]); err != nil {
			c.Failf("client of a session closed after a stall received: %v", err)
		}
		if p.Stall < p.Timeout {
			c.Failf("session closed after a stall of %d ms, timeout %d ms", p.Stall, p.Timeout)
		}
		if err := pe.e.emit(Blob{Lit: []byte("x")}); err == nil {
			c.Failf("emit on the closed session returned no error")
		}
	}
	if _, n, _ := pe.e.counts(); n > 1 {
		c.Failf("close callback ran %d times", n)
	}
}
