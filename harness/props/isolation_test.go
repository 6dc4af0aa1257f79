package props

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C10: isolation ----

type c10Cli struct {
	WS    bool    `json:"ws,omitempty"`
	Enc   sim.Enc `json:"enc,omitempty"`
	Stall string  `json:"stall,omitempty"`
	Late  bool    `json:"late,omitempty"` // connects when the others have stalled
	Emits int     `json:"emits,omitempty"`
}

type c10Op struct {
	K string `json:"k"` // ev, emit, join, leave, upgrade, quiet
	C int    `json:"c"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
}

type c10Plan struct {
	Msgp bool     `json:"msgp,omitempty"`
	Cli  []c10Cli `json:"cli"`
	Ops  []c10Op  `json:"ops"`
}

var c10Stalls = []string{"noread", "noread", "post", "partial", "connect", "connect", "joining", "event", "leaving", "ack", "probe", "pong", "get"}
var c10NSPs = []string{"/", "/a"}

func init() {
	kit.Add("C10", "stalls", "some client has stalled while others connect, and traffic of at least two of the others follows", 8000, 80000, func(t *rapid.T) c10Plan {
		p := c10Plan{Msgp: rapid.IntRange(0, 3).Draw(t, "msgp") == 0}
		n := rapid.IntRange(2, 7).Draw(t, "clients")
		for i := 0; i < n; i++ {
			l := fmt.Sprint("c", i)
			k := c10Cli{WS: rapid.Bool().Draw(t, l+".ws"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, l+".enc")), Late: rapid.Bool().Draw(t, l+".late")}
			if rapid.IntRange(0, 2).Draw(t, l+".stalls") == 0 && i > 0 {
				k.Stall = rapid.SampledFrom(c10Stalls).Draw(t, l+".stall")
				k.Emits = rapid.SampledFrom([]int{0, 1, 8, 9, 30}).Draw(t, l+".emits")
				k.Late = false
			}
			p.Cli = append(p.Cli, k)
		}
		for i, m := 0, rapid.IntRange(1, 16).Draw(t, "n"); i < m; i++ {
			o := c10Op{K: rapid.SampledFrom([]string{"ev", "ev", "ev", "emit", "emit", "emit", "join", "leave", "upgrade", "quiet"}).Draw(t, "k"), C: rapid.IntRange(0, n-1).Draw(t, "c"), N: rapid.IntRange(0, 1).Draw(t, "nsp")}
			o.M = rapid.SampledFrom([]int{1, 1, 3, 20}).Draw(t, "m")
			p.Ops = append(p.Ops, o)
		}
		return p
	}, runC10)
}

type c10Run struct {
	*sioCli
	e      *sioSess
	id     int
	joined map[string]bool
	log    []string
	events []string
	g      gate // what the stalled client's handler waits for
	free   []func()
	out    int
}

func runC10(c *kit.C, p c10Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	runs := make([]*c10Run, len(p.Cli))
	for i := range runs {
		runs[i] = &c10Run{id: i, joined: map[string]bool{"/": true}}
		c.Defer(runs[i].g.open)
	}
	of := func(so socketio.Socket) *c10Run {
		i, err := strconv.Atoi(so.GetHeader("X-Client"))
		if err != nil || i < 0 || i >= len(runs) {
			c.Errorf("a handler was given a socket whose X-Client header is %q", so.GetHeader("X-Client"))
			return nil
		}
		if host := fmt.Sprintf("10.0.0.%d:1", i+1); so.RemoteAddr().String() != host {
			c.Errorf("a handler was given a socket of client %s with remote address %s", host, so.RemoteAddr())
		}
		return runs[i]
	}
	block := func(so socketio.Socket, stall string) {
		if r := of(so); r != nil && p.Cli[r.id].Stall == stall {
			r.g.pass()
		}
	}
	s.OnConnect = func(e *sioSess, so socketio.Socket) {
		if so.Namespace() == "/" {
			block(so, "connect")
		} else {
			block(so, "joining")
		}
	}
	s.OnDisconnect = func(e *sioSess, so socketio.Socket) { block(so, "leaving") }
	for _, n := range c10NSPs {
		s.nsp(n)
		s.event(n, "ev", func(e *sioSess, so socketio.Socket, tag int) {
			r := of(so)
			if r == nil {
				return
			}
			if tag/100000 != r.id {
				c.Errorf("event %d of client %d was handled with the socket of client %d", tag, tag/100000, r.id)
			}
			if err := so.Emit("echo", tag); err != nil && !s.over(e) {
				c.Errorf("emit from a handler: %v", err)
			}
		})
		s.event(n, "block", func(e *sioSess, so socketio.Socket, tag int) { block(so, "event") })
	}
	tag := 0
	open := func(i int) {
		q, r := p.Cli[i], runs[i]
		if q.Stall != "" {
			r.g.shut()
		}
		hdr := http.Header{"X-Client": {strconv.Itoa(i)}}
		addr := fmt.Sprintf("10.0.0.%d:1", i+1)
		r.sioCli = &sioCli{link: newLink(c, s.S, q.WS, addr, hdr, q.Enc), msgp: p.Msgp}
		r.asm.msgp = p.Msgp
		if !q.WS && q.Stall != "get" {
			r.poll.Run(-1)
		}
		r.e = s.sess(r.sid)
		r.log = []string{"connect /"}
		c.Await(func() bool { return r.e.count("connect", "/") == 1 }, "connect handler of client %d (%s)", i, q.Stall)
		if q.Stall != "get" {
			c.Await(func() bool { return len(r.find(wire.SConnect, "/")) == 1 }, "connect packet of client %d (%s)", i, q.Stall)
		}
	}
	emit := func(r *c10Run, n string, m int) {
		so := r.e.socket(n)
		if so == nil || !r.joined[n] {
			return
		}
		for j := 0; j < m; j++ {
			tag++
			tg := tag + 100000*r.id
			r.events = append(r.events, evPkt(n, "out", intVal(int64(tg))).key())
			r.e.w.do(func() {
				if err := so.Emit("out", tg); err != nil {
					c.Errorf("emit to client %d: %v", r.id, err)
				}
			})
		}
	}
	stalled := func(i int) bool { return p.Cli[i].Stall != "" }
	nstalled := 0
	for i, q := range p.Cli {
		if q.Late {
			continue
		}
		open(i)
		r := runs[i]
		if q.Stall == "" {
			continue
		}
		nstalled++
		ws := q.WS
		stall := q.Stall
		// what a transport has no notion of becomes the like of it
		switch {
		case stall == "get" && ws:
			stall = "noread"
		case stall == "post" && ws:
			stall = "partial"
		case stall == "partial" && !ws:
			stall = "post"
		case (stall == "probe" || stall == "pong") && ws:
			stall = "noread"
		}
		switch stall {
		case "noread", "get":
			if ws {
				r.ws.Srv.StallWrites(true)
				r.free = append(r.free, func() { r.ws.Srv.StallWrites(false) })
			} else {
				r.poll.Hold()
				r.free = append(r.free, func() { r.poll.Run(-1); r.poll.Allow(-1) })
			}
		case "post":
			ch := make(chan struct{})
			tag++
			tg := tag + 100000*i
			fr := evPkt("/", "ev", intVal(int64(tg))).frames(p.Msgp)
			var ps []wire.Pkt
			for _, f := range fr {
				ps = append(ps, wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
			}
			body, ct := wire.EncBin(ps), "application/octet-stream"
			if q.Enc != sim.XHR2 {
				body, ct = wire.EncText(ps), "text/plain;charset=UTF-8"
			}
			call := r.poll.PostBody(sim.NewBody(body, []int{3}, nil).Gate(ch), ct)
			c.Defer(call.Abort)
			done := false
			free := func() {
				if !done {
					done = true
					close(ch)
				}
			}
			c.Defer(free)
			r.log = append(r.log, fmt.Sprintf("event / ev(%d)", tg))
			r.events = append(r.events, evPkt("/", "echo", intVal(int64(tg))).key())
			r.free = append(r.free, free)
		case "partial":
			tag++
			tg := tag + 100000*i
			fr := evPkt("/", "ev", intVal(int64(tg))).frames(p.Msgp)[0]
			raw := rawFrame(fr)
			cut := 1 + (tag*7)%(len(raw)-1)
			r.ws.Cli.Write(raw[:cut])
			r.log = append(r.log, fmt.Sprintf("event / ev(%d)", tg))
			r.events = append(r.events, evPkt("/", "echo", intVal(int64(tg))).key())
			r.free = append(r.free, func() { r.ws.Cli.Write(raw[cut:]) })
		case "joining":
			r.send(SP{Type: wire.SConnect, NSP: "/a"})
			r.log = append(r.log, "connect /a")
			r.joined["/a"] = true
		case "event":
			r.send(evPkt("/", "block", intVal(1)))
			r.log = append(r.log, "event / block(1)")
		case "leaving":
			r.send(SP{Type: wire.SConnect, NSP: "/a"}, SP{Type: wire.SDisconnect, NSP: "/a"})
			r.log = append(r.log, "connect /a", "disconnect /a")
		case "ack":
			so := r.e.socket("/")
			if err := so.Emit("q", func(so socketio.Socket) { r.g.pass() }); err != nil {
				c.Failf("emit with a callback: %v", err)
			}
			r.events = append(r.events, evPkt("/", "q").key())
			c.Await(func() bool { return len(r.find(wire.SEvent, "/")) > 0 }, "event with an ack id")
			r.send(ackPkt("/", *r.find(wire.SEvent, "/")[0].ID))
		case "probe", "pong":
			ws := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+r.sid, r.addr, r.hdr, nil)
			c.Defer(ws.Close)
			c.Await(ws.HSDone, "websocket handshake of an upgrade")
			if stall == "pong" {
				ws.OnPkt(func(wire.Pkt) { r.poll.Hold() })
				ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
				c.Await(func() bool { return ws.N() > 0 }, "pong to the probe")
			}
			r.free = append(r.free, func() { ws.Close(); r.poll.Allow(-1) })
		}
		r.free = append(r.free, r.g.open)
		emit(r, "/", q.Emits)
	}
	c.Quiet()
	for i, q := range p.Cli {
		if q.Late {
			open(i)
		}
	}
	busy := map[int]bool{}
	for _, o := range p.Ops {
		r := runs[o.C]
		n := c10NSPs[o.N]
		st := stalled(o.C)
		switch o.K {
		case "ev":
			if x := p.Cli[o.C].Stall; x == "partial" || x == "post" {
				continue // what it sends next belongs to the frame or body
			}
			for j := 0; j < o.M; j++ {
				tag++
				tg := tag + 100000*o.C
				r.send(evPkt(n, "ev", intVal(int64(tg))))
				if r.joined[n] {
					r.log = append(r.log, fmt.Sprintf("event %s ev(%d)", n, tg))
					r.events = append(r.events, evPkt(n, "echo", intVal(int64(tg))).key())
				}
			}
			busy[o.C] = busy[o.C] || !st
		case "emit":
			if !st {
				want := len(r.log)
				c.Await(func() bool { return len(noErrors(r.e.entries())) >= want }, "handlers of client %d: %v", o.C, r.log)
			}
			emit(r, n, o.M)
			busy[o.C] = busy[o.C] || !st
		case "join":
			if !st && !r.joined[n] {
				r.joined[n] = true
				r.log = append(r.log, "connect "+n)
				r.send(SP{Type: wire.SConnect, NSP: n})
			}
		case "leave":
			if !st && r.joined[n] && n != "/" {
				c.Reaches(func() bool { return len(r.events) <= len(r.sioCli.events()) && r.e.w.idle() })
				delete(r.joined, n)
				r.log = append(r.log, "disconnect "+n)
				r.send(SP{Type: wire.SDisconnect, NSP: n})
			}
		case "upgrade":
			if !st && !r.onWS {
				r.upgrade(nil)
			}
		case "quiet":
			c.Quiet()
		}
	}
	settled := func(r *c10Run) bool {
		return len(noErrors(r.e.entries())) >= len(r.log) && len(r.sioCli.events()) >= len(r.events) && r.w.idle()
	}
	compare := func(r *c10Run, when string) {
		if err := sameNotes(strs(r.e.entries()), r.log); err != nil {
			c.Failf("%s: handlers of client %d (%s): %v", when, r.id, p.Cli[r.id].Stall, err)
		}
		// echoes and emits come from different goroutines
		var got, want [2][]string
		for _, q := range r.sioCli.events() {
			q.ID = nil
			k := q.key()
			got[b2i(strings.Contains(k, `"echo"`))] = append(got[b2i(strings.Contains(k, `"echo"`))], k)
		}
		for _, k := range r.events {
			want[b2i(strings.Contains(k, `"echo"`))] = append(want[b2i(strings.Contains(k, `"echo"`))], k)
		}
		for j := range got {
			if err := sameNotes(got[j], want[j]); err != nil {
				c.Failf("%s: client %d (%s) received: %v", when, r.id, p.Cli[r.id].Stall, err)
			}
		}
	}
	c.Reaches(func() bool {
		for i, r := range runs {
			if !stalled(i) && !settled(r) {
				return false
			}
		}
		return true
	})
	c.Quiet()
	for i, r := range runs {
		if !stalled(i) {
			compare(r, fmt.Sprintf("while %d clients have stalled", nstalled))
		}
	}
	for _, r := range runs {
		for _, f := range r.free {
			f()
		}
	}
	c.Reaches(func() bool {
		for _, r := range runs {
			if !settled(r) {
				return false
			}
		}
		return true
	})
	c.Quiet()
	for _, r := range runs {
		compare(r, "at the end")
	}
	c.NonTrivialIf(nstalled > 0 && len(busy) > 1)
	for i := range p.Cli {
		if p.Cli[i].Stall != "" {
			c.Label("stalled: " + p.Cli[i].Stall)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// over tells whether a session has been told its end.
func (s *sioSrv) over(e *sioSess) bool { return e.count("disconnect", "/") > 0 }

// rawFrame is a masked WebSocket frame holding an engine message.
func rawFrame(f frame) []byte {
	data := wire.EncFrame(wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
	op := byte(0x81)
	if f.bin {
		op = 0x82
	}
	out := []byte{op}
	switch n := len(data); {
	case n < 126:
		out = append(out, 0x80|byte(n))
	default:
		out = append(out, 0x80|126, byte(n>>8), byte(n))
	}
	mask := []byte{1, 2, 3, 4}
	out = append(out, mask...)
	for i, b := range data {
		out = append(out, b^mask[i%4])
	}
	return out
}
