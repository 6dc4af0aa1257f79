package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C01: polling request bodies ----

type postPkt struct {
	Type byte `json:"type"`
	Blob Blob `json:"blob"`
}

func (p postPkt) pkt() wire.Pkt { k := p.Blob.Msg(); k.Type = p.Type; return k }

type postReq struct {
	Bin    bool      `json:"bin"`
	Pkts   []postPkt `json:"pkts"`
	Chunks []int     `json:"chunks"`
	CT     int       `json:"ct"`
}

func (r postReq) body() []byte {
	var ks []wire.Pkt
	for _, p := range r.Pkts {
		ks = append(ks, p.pkt())
	}
	if r.Bin {
		return wire.EncBin(ks)
	}
	return wire.EncText(ks)
}

var textCTs = []string{"text/plain;charset=UTF-8", "text/plain; charset=utf-8", "text/plain; charset=\"utf-8\"", "Text/Plain; Charset=UTF-8", "text/plain; format=flowed; charset=Utf-8", "TEXT/PLAIN;charset=uTf-8"}
var binCTs = []string{"application/octet-stream", "Application/Octet-Stream", "application/octet-stream; x=y"}

func (r postReq) ctype() string {
	if r.Bin {
		return binCTs[r.CT%len(binCTs)]
	}
	return textCTs[r.CT%len(textCTs)]
}

func genChunks(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 3).Draw(t, label+".chunking") {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return rapid.SliceOfN(rapid.IntRange(1, 16), 1, 4).Draw(t, label+".chunks")
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 100, 511, 512, 1024, 1460, 4095, 4096, 4097, 5000, 32768}), 1, 4).Draw(t, label+".chunks")
}

func genPost(t *rapid.T, label string, maxPk, maxN int) postReq {
	r := postReq{Bin: rapid.Bool().Draw(t, label+".enc"), CT: rapid.IntRange(0, 5).Draw(t, label+".ct")}
	n := rapid.IntRange(1, maxPk).Draw(t, label+".npkts")
	for i := 0; i < n; i++ {
		p := postPkt{Type: wire.EMessage, Blob: genBlob(t, fmt.Sprintf("%s.%d", label, i), maxN)}
		if rapid.IntRange(0, 7).Draw(t, "kind") == 0 {
			p.Type = rapid.SampledFrom([]byte{wire.EPing, wire.EPong, wire.ENoop}).Draw(t, "type")
		}
		r.Pkts = append(r.Pkts, p)
	}
	r.Chunks = genChunks(t, label)
	return r
}

type c01Plan struct {
	Posts []postReq `json:"posts"`
}

func init() {
	kit.Add("C01", "post", "packet lists posted to a live polling session; non-trivial: a body over one read buffer, or delivered in several reads, or with base64 padding, or several packets",
		12000, 200000,
		func(t *rapid.T) c01Plan {
			var p c01Plan
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "posts"); i < n; i++ {
				p.Posts = append(p.Posts, genPost(t, fmt.Sprint("post", i), 6, 140000))
			}
			return p
		},
		runC01)

	kit.Add("C01", "payload", "packet lists decoded by Payload.ReadFrom and encoded again, with split reads; non-trivial: more than one packet or a split read",
		80000, 1000000,
		func(t *rapid.T) postReq {
			r := genPost(t, "p", 5, 20000)
			r.Bin = false
			return r
		},
		func(c *kit.C, r postReq) {
			body := r.body()
			var pl engine.Payload
			n, err := pl.ReadFrom(sim.NewBody(body, r.Chunks, nil))
			if err != nil {
				c.Failf("ReadFrom of a valid payload: %v", err)
			}
			_ = n
			var out bytes.Buffer
			if _, err := pl.WriteTo(&out); err != nil {
				c.Failf("WriteTo: %v", err)
			}
			if !bytes.Equal(out.Bytes(), body) {
				a, e1 := wire.DecText(out.Bytes())
				b, _ := wire.DecText(body)
				if e1 != nil {
					c.Failf("payload written back is malformed: %v", e1)
				}
				if err := samePkts(a, b); err != nil {
					c.Failf("payload written back differs: %v", err)
				}
			}
			c.NonTrivialIf(len(r.Pkts) > 1 || len(r.Chunks) > 0)
		})
}

func runC01(c *kit.C, p c01Plan) {
	s := newEngSrv(c, long, long)
	cl := openPoll(c, s.S, "10.0.0.1:1", nil, sim.XHR2)
	cl.Run(-1)
	var want []wire.Pkt
	for i, r := range p.Posts {
		body := r.body()
		big := len(body) > 4096
		c.LabelIf(big, "over-4096")
		c.LabelIf(len(r.Chunks) > 0, "split")
		c.LabelIf(len(r.Pkts) > 1, "several-packets")
		c.NonTrivialIf(big || len(r.Chunks) > 0 || len(r.Pkts) > 1)
		for _, k := range r.Pkts {
			c.LabelIf(!r.Bin && k.Blob.Bin && len(k.Blob.Bytes())%3 != 0, "base64-padding")
			if k.Type == wire.EMessage {
				want = append(want, k.pkt())
			}
		}
		call := cl.PostRaw(body, r.ctype(), r.Chunks)
		c.Await(call.Done, "answer to post %d", i)
		noPanic(c, call)
		if code, _, b := call.Result(); code != 200 {
			c.Failf("post %d (%s, %d bytes) answered %d %q", i, r.ctype(), len(body), code, b)
		}
	}
	f := fence()
	want = append(want, f.Msg())
	c.Await(cl.Post(f.Msg()).Done, "answer to the last post")
	e := s.session(cl.Sid)
	c.Reaches(func() bool { return e.N() >= len(want) || e.Closed() })
	if err := samePkts(e.Received(), want); err != nil {
		c.Failf("application received: %v", err)
	}
}

// ---- C02: poll responses ----

type c02Msg struct {
	Blob Blob `json:"blob"`
	Via  int  `json:"via"` // 0 Emit bytes, 1 Emit string, 2 Send string
}

type c02Poll struct {
	Enc sim.Enc `json:"enc"`
	J   int     `json:"j"`
}

type c02Plan struct {
	HS    c02Poll   `json:"hs"`
	Msgs  []c02Msg  `json:"msgs"`
	Polls []c02Poll `json:"polls"`
}

func init() {
	kit.Add("C02", "poll", "messages emitted to a polling session and polled in drawn encodings; non-trivial: a poll in text or JSONP form, or a message needing escapes, or one over 1000 bytes",
		30000, 400000,
		func(t *rapid.T) c02Plan {
			gp := func(l string) c02Poll {
				return c02Poll{Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, l+".enc")), J: rapid.SampledFrom([]int{0, 1, 7, 12, 123}).Draw(t, l+".j")}
			}
			p := c02Plan{HS: gp("hs")}
			for i, n := 0, rapid.IntRange(1, 10).Draw(t, "msgs"); i < n; i++ {
				p.Msgs = append(p.Msgs, c02Msg{Blob: genBlob(t, fmt.Sprint("m", i), 140000), Via: rapid.IntRange(0, 2).Draw(t, "via")})
			}
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "polls"); i < n; i++ {
				p.Polls = append(p.Polls, gp(fmt.Sprint("p", i)))
			}
			return p
		},
		runC02)
}

func runC02(c *kit.C, p c02Plan) {
	s := newEngSrv(c, long, long)
	cl := sim.NewPoll(s.S, "10.0.0.1:1", nil, p.HS.Enc)
	cl.J = fmt.Sprint(p.HS.J)
	call := cl.Get()
	c.Await(call.Done, "answer to the handshake")
	pk, err := sim.DecodePoll(call, p.HS.Enc, cl.J)
	if err != nil {
		c.Failf("handshake response (%s): %v", p.HS.Enc, err)
	}
	sid, _, _, _, err := sim.ParseOpen(pk[0])
	if err != nil {
		c.Failf("handshake: %v", err)
	}
	cl.Sid = sid
	e := s.session(sid)
	var want []wire.Pkt
	for _, m := range p.Msgs {
		m := m
		if m.Blob.Bin {
			m.Via = 0
		}
		want = append(want, m.Blob.Msg())
		c.NonTrivialIf(m.Blob.N > 1000)
		e.w.do(func() {
			var err error
			switch m.Via {
			case 0:
				err = e.emit(m.Blob)
			case 1:
				err = e.Sock.Emit(engine.EventMessage, engine.MessageTypeString, string(m.Blob.Bytes()))
			default:
				err = e.Sock.Send(string(m.Blob.Bytes()))
			}
			if err != nil {
				c.Errorf("emit: %v", err)
			}
		})
	}
	var got []wire.Pkt
	for i := 0; len(got) < len(want); i++ {
		q := p.Polls[i%len(p.Polls)]
		cl.Enc, cl.J = q.Enc, fmt.Sprint(q.J)
		c.Label("poll-" + q.Enc.String())
		c.NonTrivialIf(q.Enc != sim.XHR2)
		call := cl.Get()
		c.Defer(call.Abort)
		if !c.Reaches(call.Done) {
			c.Failf("poll %d is not answered although messages were emitted: %v", i, samePkts(got, want))
		}
		pk, err := sim.DecodePoll(call, q.Enc, cl.J)
		if err != nil {
			c.Failf("poll %d (%s): %v; expected next %v", i, q.Enc, err, want[len(got)])
		}
		if len(pk) == 0 {
			c.Failf("poll %d (%s) answered with an empty payload", i, q.Enc)
		}
		for _, k := range pk {
			if k.Type == wire.ENoop {
				continue
			}
			if len(got) >= len(want) || !k.Eq(want[len(got)]) {
				c.Failf("poll %d (%s): %v", i, q.Enc, samePkts(append(got, k), want))
			}
			got = append(got, k)
		}
	}
}

// ---- C03: hostile input ----

type hostile struct {
	Base   postReq `json:"base"`
	Raw    []byte  `json:"raw,omitempty"`
	How    string  `json:"how"`
	At     int     `json:"at"`
	With   []byte  `json:"with,omitempty"`
	CT     string  `json:"ct"`
	Cut    bool    `json:"cut"` // the request body ends with an error
	Chunks []int   `json:"chunks"`
	Len    int64   `json:"len,omitempty"` // length declared for the body: less than 0 none, else what exceeds the real one
}

func (h hostile) bytes() []byte {
	if h.How == "raw" {
		return h.Raw
	}
	b := h.Base.body()
	if len(b) == 0 {
		return b
	}
	at := h.At % (len(b) + 1)
	switch h.How {
	case "truncate":
		return b[:at]
	case "insert":
		return append(append(append([]byte{}, b[:at]...), h.With...), b[at:]...)
	case "replace":
		out := append([]byte{}, b...)
		copy(out[at:], h.With)
		return out
	case "delete":
		if at == len(b) {
			at--
		}
		return append(append([]byte{}, b[:at]...), b[at+1:]...)
	case "append":
		return append(append([]byte{}, b...), h.With...)
	case "prepend":
		return append(append([]byte{}, h.With...), b...)
	}
	return b
}

var absurdText = []string{"0:4", "0:", ":4a", ":", "1:b", "2:b4=", "999999999:4a", "2147483648:4a", "99999999999:4a", "9223372036854775807:4", "9223372036854775808:4a",
	"18446744073709551616:4a", "18446744073709551617:4a", "99999999999999999999999:4a", "-1:4a", "+1:4", "5:4a", "1:", "3", "3:", "00:4", "1000000000:b4AAAA", "6:b4AAA=A", "6:b4A===",
	"6:b4!!!!", "4:b4AA", "5:b4AA=", "6:b4AA==", " 2:4a", "2 :4a", "2:4a ", "2:4a\n", "2;4a", "a:4a", "4611686018427387904:4a", "6:b4====", "10:b4AA==AA==", "2:4a2:4", "2:4\xff"}

var absurdBin = []string{"\x00\xff4", "\x00\x00\xff4", "\x01\x00\xff", "\x00\x09\x09\x09\x09\x09\x09\x09\x09\x09\xff4a", "\x01\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\x09\xff\x04a",
	"\x00\x01\x08\x04\x04\x06\x07\x04\x04\x00\x07\x03\x07\x00\x09\x05\x05\x01\x06\x01\x06\xff4a", "\x02\x02\xff4a", "\x00\x0a\xff4a", "\x00\x05\xff4a", "\x00", "\x00\x01", "\x00\x01\xff", "\x00\x02\xff4", "\x00\x02\xff4ab", "\x01\x02\xff\x04a\x00", "0:4a",
	"\x00\x09\x02\x02\x03\x03\x07\x02\x00\x03\x06\x08\x05\x04\x07\x07\x05\x08\x00\x07\xff4", "\x00\x09\x02\x02\x03\x03\x07\x02\x00\x03\x06\x08\x05\x04\x07\x07\x05\x08\x00\x08\xff4"}

func genHostile(t *rapid.T, label string) hostile {
	h := hostile{Base: genPost(t, label, 3, 6000)}
	h.Base.Chunks = nil
	h.CT = h.Base.ctype()
	switch rapid.IntRange(0, 11).Draw(t, label+".how") {
	case 0:
		h.How, h.Raw = "raw", rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, label+".raw")
	case 1, 2:
		h.How = "raw"
		if h.Base.Bin {
			h.Raw = []byte(rapid.SampledFrom(absurdBin).Draw(t, label+".raw"))
		} else {
			h.Raw = []byte(rapid.SampledFrom(absurdText).Draw(t, label+".raw"))
		}
	case 3:
		h.How = "raw"
		h.Raw = []byte(rapid.StringMatching(`([0-9]{0,4}:?b?[0-9]?[A-Za-z=+/]{0,6}){1,3}`).Draw(t, label+".raw"))
	case 4, 5, 6:
		h.How, h.At = "truncate", rapid.IntRange(0, 1<<16).Draw(t, label+".at")
	case 7:
		h.How, h.At = "insert", rapid.IntRange(0, 1<<16).Draw(t, label+".at")
		h.With = rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, label+".with")
	case 8:
		h.How, h.At = "replace", rapid.IntRange(0, 40).Draw(t, label+".at")
		h.With = rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, label+".with")
	case 9:
		h.How, h.At = "delete", rapid.IntRange(0, 40).Draw(t, label+".at")
	case 10:
		h.How = rapid.SampledFrom([]string{"append", "prepend"}).Draw(t, label+".pos")
		if h.Base.Bin {
			h.With = []byte(rapid.SampledFrom(absurdBin).Draw(t, label+".with"))
		} else {
			h.With = []byte(rapid.SampledFrom(absurdText).Draw(t, label+".with"))
		}
	case 11:
		h.How = "none"
		h.Cut = true
		h.At = 0
	}
	if rapid.IntRange(0, 9).Draw(t, label+".badct") == 0 {
		h.CT = rapid.SampledFrom([]string{"", "text/plain", "text/plain;charset=latin1", "text/html;charset=utf-8", "application/json", "multipart/form-data; boundary=x", "garbage;;;", "text/plain;charset"}).Draw(t, label+".ct")
	}
	h.Chunks = genChunks(t, label+".c")
	h.Len = -1
	if h.Cut {
		h.Len = rapid.SampledFrom([]int64{-1, -1, 1, 1000, 1 << 20, 1 << 30, 1 << 33, 1 << 40, 1<<63 - 1}).Draw(t, label+".len")
	} else if rapid.Bool().Draw(t, label+".declared") {
		h.Len = 0
	}
	return h
}

const (
	bodyOK = iota
	bodyBad
	bodyGray
)

// judge classifies a body: valid, surely malformed, or a matter of taste (unknown packet
// types, unusual but decodable base64 or length fields, an empty body).
func judge(h hostile) (verdict int, pkts []wire.Pkt) {
	b := h.bytes()
	if h.Cut {
		return bodyBad, nil
	}
	bin, ctok := false, false
	for _, x := range binCTs {
		if h.CT == x {
			bin, ctok = true, true
		}
	}
	for _, x := range textCTs {
		if h.CT == x {
			ctok = true
		}
	}
	if !ctok {
		return bodyBad, nil
	}
	if len(b) == 0 {
		return bodyGray, nil
	}
	var err error
	if bin {
		pkts, err = wire.DecBin(b)
	} else {
		pkts, err = wire.DecText(b)
	}
	if err == nil {
		for _, k := range pkts {
			if k.Type == wire.EClose {
				return bodyGray, nil
			}
		}
		if !bin && lenientText(b) {
			return bodyGray, nil
		}
		return bodyOK, pkts
	}
	if strings.Contains(err.Error(), "bad packet type") || !bin && lenientText(b) {
		// does anything else make it malformed?
		if surelyMalformed(b, bin) {
			return bodyBad, nil
		}
		return bodyGray, nil
	}
	if surelyMalformed(b, bin) {
		return bodyBad, nil
	}
	return bodyGray, nil
}

// surelyMalformed walks the framing ignoring types and length-field style.
func surelyMalformed(b []byte, bin bool) bool {
	for len(b) > 0 {
		n, i := 0, 0
		if bin {
			if b[0] > 1 {
				return true
			}
			kind := b[0]
			i = 1
			for i < len(b) && b[i] <= 9 {
				if n = n*10 + int(b[i]); n > len(b) {
					return true
				}
				i++
			}
			if i == 1 || i == len(b) || b[i] != 0xff || n < 1 || n > len(b)-i-1 {
				return true
			}
			_ = kind
			b = b[i+1+n:]
			continue
		}
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			if n = n*10 + int(b[i]-'0'); n > len(b) {
				return true
			}
			i++
		}
		if i == 0 || i == len(b) || b[i] != ':' || n < 1 || n > len(b)-i-1 {
			return true
		}
		body := b[i+1 : i+1+n]
		b = b[i+1+n:]
		if body[0] == 'b' {
			if len(body) < 2 {
				return true
			}
			if _, err := base64.StdEncoding.DecodeString(string(body[2:])); err != nil {
				if _, err := base64.RawStdEncoding.DecodeString(string(body[2:])); err == nil {
					continue // unpadded: a matter of taste
				}
				return true
			}
		}
	}
	return false
}

// lenientText: line breaks inside base64, which Go's decoder skips.
func lenientText(b []byte) bool {
	return bytes.ContainsAny(b, "\r\n") && bytes.Contains(b, []byte(":b"))
}

type c03Plan struct {
	Bodies []hostile `json:"bodies"`
	Text   bool      `json:"text"`
}

const allocSlack = 48 << 20

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func init() {
	kit.Add("C03", "body", "mutated, truncated, random and absurd-length bodies posted to a session beside a bystander session; non-trivial: the body is surely malformed",
		30000, 400000,
		func(t *rapid.T) c03Plan {
			var p c03Plan
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
				p.Bodies = append(p.Bodies, genHostile(t, fmt.Sprint("h", i)))
			}
			return p
		},
		func(c *kit.C, p c03Plan) {
			s := newEngSrv(c, long, long)
			cl := openPoll(c, s.S, "10.0.0.1:1", nil, sim.XHR2)
			by := openPoll(c, s.S, "10.0.0.2:1", nil, sim.B64)
			cl.Run(-1)
			by.Run(-1)
			var want, wantBy []wire.Pkt
			for i, h := range p.Bodies {
				body := h.bytes()
				v, pkts := judge(h)
				before := allocated()
				var rerr error
				if h.Cut {
					rerr = errors.New("unexpected EOF")
				}
				n := h.Len
				if n >= 0 && n+int64(len(body)) > n {
					n += int64(len(body))
				}
				call := cl.PostBodyLen(sim.NewBody(body, h.Chunks, rerr), n, h.CT)
				c.Await(call.Done, "answer to hostile post %d", i)
				noPanic(c, call)
				if d := allocated() - before; d > allocSlack+64*uint64(len(body)) {
					c.Failf("post %d of %d bytes made the server allocate %d bytes", i, len(body), d)
				}
				code, _, msg := call.Result()
				switch v {
				case bodyBad:
					c.Label("malformed")
					c.NonTrivial()
					if code < 400 {
						c.Failf("malformed body %d (%s, %.80q) answered %d %q", i, h.CT, body, code, msg)
					}
				case bodyOK:
					c.Label("valid")
					if code != 200 {
						c.Failf("valid body %d (%s, %.80q) answered %d %q", i, h.CT, body, code, msg)
					}
					want = append(want, onlyMsgs(pkts)...)
				case bodyGray:
					c.Label("gray")
				}
				e := s.session(cl.Sid)
				// both sessions go on
				f := fence()
				c.Await(cl.Post(f.Msg()).Done, "answer to a valid post after hostile post %d", i)
				if v == bodyGray {
					if e.Closed() { // a close packet in a body of dubious form
						return
					}
					if !c.Reaches(func() bool {
						r := e.Received()
						return e.Closed() || len(r) > 0 && r[len(r)-1].Eq(f.Msg())
					}) {
						c.Failf("a valid message after post %d (%.80q) is not delivered", i, body)
					}
					if e.Closed() {
						return
					}
					want = append([]wire.Pkt{}, e.Received()...)
				} else {
					want = append(want, f.Msg())
					c.Reaches(func() bool { return e.N() >= len(want) })
					if err := samePkts(e.Received(), want); err != nil {
						c.Failf("after post %d (verdict %d, %.80q answered %d): %v", i, v, body, code, err)
					}
				}
				wantBy = append(wantBy, f.Msg())
				c.Await(by.Post(f.Msg()).Done, "bystander's post")
			}
			b := s.session(by.Sid)
			c.Reaches(func() bool { return b.N() >= len(wantBy) })
			if err := samePkts(b.Received(), wantBy); err != nil {
				c.Failf("bystander session: %v", err)
			}
			// outbound too
			for _, x := range []*sim.Poll{cl, by} {
				x := x
				e := s.session(x.Sid)
				f := fence()
				n := x.N()
				e.w.do(func() { e.emit(f) })
				c.Await(func() bool { g, _ := x.Got(); return len(g) > n && g[len(g)-1].Eq(f.Msg()) }, "message emitted to session %s after the hostile posts", x.Sid)
			}
		})

	type wsHostile struct {
		Op  int    `json:"op"` // 0 packet frame, 1 text frame, 2 binary frame, 3 raw bytes on the wire, 4 the connection breaks in the middle of a message
		B   []byte `json:"b,omitempty"`
		Pkt Blob   `json:"pkt"`

		Frag int `json:"frag,omitempty"` // of op 4: frames but the last that were sent whole
	}
	type wsPlan struct {
		Frames []wsHostile `json:"frames"`
		End    int         `json:"end"`
	}
	rawFrames := []string{"\x81\x05hello", "\x83\x80\x00\x00\x00\x00", "\xff\xff\xff\xff\xff", "\x82\xff\x7f\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00abc",
		"\x82\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00", "\x81\xfe", "\x01\x80\x00\x00\x00\x00", "\x80\x80\x00\x00\x00\x00", "\x88\x80\x00\x00\x00\x00", "\x89\x80\x00\x00\x00\x00", "\x88\x81\x00\x00\x00\x00x", "\x89\xfe\x00\x80\x00\x00\x00\x00", "GET / HTTP/1.1\r\n\r\n",
		"\x82\xfe\xff\xff\x00\x00\x00\x00\x04", "\x01\x82\x00\x00\x00\x004a\x80\x81\x00\x00\x00\x00b", "\x01\x81\x00\x00\x00\x004\x01\x81\x00\x00\x00\x00b", "\x81\x82\x01\x02\x03\x04\x35\x63"}
	kit.Add("C03", "frames", "hostile WebSocket messages and raw bytes on one session beside a bystander; non-trivial: an empty message, an unknown type or raw bytes were sent",
		12000, 150000,
		func(t *rapid.T) wsPlan {
			var p wsPlan
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
				h := wsHostile{Op: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "op")}
				if i == n-1 && rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
					h.Op = 4
				}
				switch h.Op {
				case 4:
					h.Pkt = Blob{Bin: rapid.Bool().Draw(t, "bin"), Lit: rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(t, "body")}
					h.Frag = rapid.IntRange(0, 2).Draw(t, "frag")
					h.B = make([]byte, rapid.IntRange(1, len(h.Pkt.Lit)).Draw(t, "sent"))
				case 0:
					h.Pkt = genBlob(t, "pkt", 70000)
				case 3:
					if rapid.Bool().Draw(t, "canned") {
						h.B = []byte(rapid.SampledFrom(rawFrames).Draw(t, "raw"))
					} else {
						h.B = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "raw")
					}
				default:
					h.B = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "b")
				}
				p.Frames = append(p.Frames, h)
			}
			p.End = rapid.IntRange(0, 1).Draw(t, "end")
			return p
		},
		func(c *kit.C, p wsPlan) {
			s := newEngSrv(c, long, long)
			w, sid := openWS(c, s.S, "10.0.0.1:1", nil)
			by, bysid := openWS(c, s.S, "10.0.0.2:1", nil)
			before := allocated()
			sent := 0
			var want []wire.Pkt
			var most []wire.Pkt // with those that follow a message that is no packet
			pure := true        // nothing ill-formed so far
			whole := true       // only whole messages so far
			// a pong that cannot be written ends the session, whatever it has not read yet
			arrive := func() { c.Reaches(func() bool { return s.session(sid).N() >= len(want) }) }
			for _, f := range p.Frames {
				var err error
				switch f.Op {
				case 0:
					k := f.Pkt.Msg()
					err = w.Send(k)
					if pure {
						want = append(want, k)
					}
					most = append(most, k)
					sent += len(k.Data)
				case 4:
					c.NonTrivial()
					c.LabelIf(whole, "message cut")
					pure = false
					err = w.SendCut(f.Pkt.Bin, wire.EncFrame(f.Pkt.Msg()), f.Frag, len(f.B))
					sent += 400
					arrive()
					w.Close()
				case 1, 2:
					b := f.B
					err = w.SendRaw(f.Op == 1, b)
					sent += len(b)
					k, derr := wire.DecFrame(f.Op == 1, b)
					if derr != nil || k.Type == wire.EClose {
						pure = false
						c.NonTrivial()
					} else if k.Type == wire.EMessage {
						if pure {
							want = append(want, k)
						}
						most = append(most, k)
					}
				case 3:
					_, err = w.Cli.Write(f.B)
					sent += len(f.B)
					pure, whole = false, false
					c.NonTrivial()
				}
				if err != nil {
					break // the server hung up
				}
			}
			if p.End == 0 {
				arrive()
				w.Close()
			}
			f := fence()
			by.Send(f.Msg())
			b := s.session(bysid)
			c.Await(func() bool { return b.N() == 1 }, "bystander's message")
			b.w.do(func() { b.emit(f) })
			c.Await(func() bool { return by.N() == 2 }, "message to the bystander")
			if p.End == 0 {
				c.Await(func() bool { return s.Find(sid) != nil && s.Find(sid).Closed() }, "close event of the session after its connection was dropped")
			} else {
				c.Quiet()
			}
			if d := allocated() - before; d > allocSlack+64*uint64(sent) {
				c.Failf("%d bytes of frames made the server allocate %d bytes", sent, d)
			}
			e := s.session(sid)
			if pure {
				if err := samePkts(e.Received(), want); err != nil {
					c.Failf("only valid frames were sent, but: %v", err)
				}
			} else if r := e.Received(); len(r) < len(want) {
				c.Failf("valid frames before the bad one are lost: %v", samePkts(r, want))
			} else if err := samePkts(r[:len(want)], want); err != nil {
				c.Failf("before the bad frame: %v", err)
			} else if whole {
				if len(r) > len(most) {
					c.Failf("%d messages received, at most %d sent: %v", len(r), len(most), samePkts(r, most))
				} else if err := samePkts(r, most[:len(r)]); err != nil {
					c.Failf("what is no complete message reached the application: %v", err)
				}
			}
		})
}
