package props

import (
	"fmt"
	"strings"
	"sync"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

var c16NSPs = []string{"/", "/a", "/b", "/a/b", "/A"}
var c16Names = []string{"x", "y", "X", "connect", "x "}

type c16Op struct {
	K    string `json:"k"` // join, leave, ev, ack, err, emit, emiterr, answer
	C    int    `json:"c,omitempty"`
	N    int    `json:"n"`           // index of the namespace
	Name int    `json:"m,omitempty"` // index of the event name
	Ack  bool   `json:"ack,omitempty"`
	Bin  bool   `json:"bin,omitempty"`
}

type c16Plan struct {
	Msgp bool     `json:"msgp,omitempty"`
	WS   []bool   `json:"ws"`
	Enc  sim.Enc  `json:"enc,omitempty"`
	Has  []bool   `json:"has"`          // which namespaces the server has ("/" always)
	Reg  [][]bool `json:"reg"`          // which events each has
	Re   bool     `json:"re,omitempty"` // handlers replace others registered before
	Ops  []c16Op  `json:"ops"`
}

func genC16(t *rapid.T) c16Plan {
	p := c16Plan{Msgp: rapid.Bool().Draw(t, "msgp"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, "enc"))}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "clients"); i < n; i++ {
		p.WS = append(p.WS, rapid.Bool().Draw(t, "ws"))
	}
	for range c16NSPs {
		p.Has = append(p.Has, rapid.IntRange(0, 3).Draw(t, "has") > 0)
		var r []bool
		for range c16Names {
			r = append(r, rapid.Bool().Draw(t, "reg"))
		}
		p.Reg = append(p.Reg, r)
	}
	p.Re = rapid.IntRange(0, 2).Draw(t, "re") == 0
	kinds := []string{"join", "join", "join", "leave", "ev", "ev", "ev", "ev", "ack", "err", "err", "emit", "emit", "emiterr", "answer", "answer"}
	for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
		o := c16Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), C: rapid.IntRange(0, len(p.WS)-1).Draw(t, "c"), N: rapid.IntRange(0, len(c16NSPs)-1).Draw(t, "nsp")}
		switch o.K {
		case "ev":
			o.Name = rapid.IntRange(0, len(c16Names)-1).Draw(t, "name")
			o.Ack = rapid.Bool().Draw(t, "ack")
			o.Bin = rapid.Bool().Draw(t, "bin")
		case "ack":
			o.Bin = rapid.Bool().Draw(t, "bin")
		case "emit":
			o.Ack = rapid.Bool().Draw(t, "ack")
			o.Bin = rapid.Bool().Draw(t, "bin")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func init() {
	kit.Add("C16", "namespaces", "a namespace is joined and something is addressed to one that is not joined or that the server does not have", 30000, 300000, genC16, runC16)
}

type c16Cli struct {
	*sioCli
	e       *sioSess
	joined  map[string]bool
	log     []string // expected handler runs
	errs    []string // expected error handler runs
	welcome []string // expected connect packets and emits of connect handlers
	replies []string // expected packets but events
	events  []string // expected events
	last    map[string]socketio.Socket
	asked   []c16Ask // emits with a callback that are not answered
	called  notes    // callbacks that ran
	calls   []string // and are to
}

type c16Ask struct {
	nsp string
	op  int
}

func runC16(c *kit.C, p c16Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	p.Has[0] = true
	var mu sync.Mutex
	oops := map[string][]string{} // error handler runs for error packets, by session
	s.OnError = func(e *sioSess, so socketio.Socket, err []interface{}) {
		if len(err) != 1 {
			return
		}
		x, ok := err[0].(string)
		if b, is := err[0].([]byte); is {
			x, ok = strings.Trim(string(b), "\""), true
		}
		if ok {
			mu.Lock()
			oops[e.sid] = append(oops[e.sid], so.Namespace()+" "+x)
			mu.Unlock()
		}
	}
	s.OnConnect = func(e *sioSess, so socketio.Socket) {
		if err := so.Emit("hi"); err != nil {
			c.Errorf("emit in the connect handler of %s: %v", so.Namespace(), err)
		}
	}
	oopsOf := func(k *c16Cli) []string { mu.Lock(); defer mu.Unlock(); return oops[k.sid] }
	for i, n := range c16NSPs {
		if !p.Has[i] {
			continue
		}
		if p.Re {
			n := n
			stale := func(socketio.Socket) { c.Errorf("a handler of %s ran that was replaced before", n) }
			s.S.Namespace(n).OnConnect(stale).OnDisconnect(stale).OnError(func(socketio.Socket, ...interface{}) { stale(nil) })
		}
		s.nsp(n)
		for j, name := range c16Names {
			if p.Reg[i][j] {
				n, name := n, name
				if p.Re {
					s.S.Namespace(n).OnEvent(name, func() { c.Errorf("the handler of %q in %s ran that was replaced before", name, n) })
				}
				s.S.Namespace(n).OnEvent(name, func(so socketio.Socket, tag int) string {
					s.add(so, n, "event", name, fmt.Sprint(tag))
					return n + name
				})
			}
		}
	}
	var cli []*c16Cli
	for i, ws := range p.WS {
		k := &c16Cli{sioCli: newSioCli(c, s.S, p.Msgp, ws, fmt.Sprintf("10.0.0.%d:1", i+1), nil, p.Enc), joined: map[string]bool{"/": true}, last: map[string]socketio.Socket{}}
		s.join(k.sioCli, "/")
		k.e = s.sess(k.sid)
		k.last["/"] = k.e.socket("/")
		k.log = append(k.log, "connect /")
		k.replies = append(k.replies, SP{Type: wire.SConnect, NSP: "/"}.key())
		k.welcome = []string{"connect /", "hi /"}
		cli = append(cli, k)
	}
	foreign, joins := 0, 0
	bin := Val{K: "bin", X: []byte{1, 2}}
	for oi, o := range p.Ops {
		k, n := cli[o.C], c16NSPs[o.N]
		has := p.Has[o.N]
		if !k.joined[n] && o.K != "join" {
			foreign++
		}
		switch o.K {
		case "join":
			if !has || k.joined[n] {
				continue
			}
			joins++
			k.send(SP{Type: wire.SConnect, NSP: n})
			k.joined[n] = true
			k.log = append(k.log, "connect "+n)
			k.replies = append(k.replies, SP{Type: wire.SConnect, NSP: n}.key())
			k.welcome = append(k.welcome, "connect "+n, "hi "+n)
		case "leave":
			if n == "/" {
				continue
			}
			k.send(SP{Type: wire.SDisconnect, NSP: n})
			if k.joined[n] {
				k.log = append(k.log, "disconnect "+n)
			}
			delete(k.joined, n)
			var left []c16Ask // whether late answers count is not specified
			for _, a := range k.asked {
				if a.nsp != n {
					left = append(left, a)
				}
			}
			k.asked = left
		case "ev":
			name := c16Names[o.Name]
			runs := has && k.joined[n] && p.Reg[o.N][o.Name]
			q := evPkt(n, name, intVal(int64(oi)))
			if o.Bin {
				q = evPkt(n, name, intVal(int64(oi)), bin)
			}
			if o.Ack && (runs || !has || !k.joined[n]) { // acks of events without a handler are not specified
				q = q.withID(uint64(oi))
			}
			k.send(q)
			switch {
			case runs:
				k.log = append(k.log, fmt.Sprintf("event %s %s(%d)", n, name, oi))
				if o.Ack {
					k.replies = append(k.replies, ackPkt(n, uint64(oi), strVal(n+name)).key())
				}
			case !has:
				k.replies = append(k.replies, "error "+n)
			}
		case "err": // an error packet of the client
			if has && !k.joined[n] {
				continue // not specified
			}
			k.send(SP{Type: wire.SError, NSP: n, Data: fmt.Sprint("oops", oi)})
			if has {
				k.errs = append(k.errs, fmt.Sprint(n, " oops", oi))
				c.Label("error packet")
			} else {
				k.replies = append(k.replies, "error "+n)
			}
		case "ack":
			id := uint64(1000 + oi) // of no emit
			q := ackPkt(n, id)
			if o.Bin {
				q = ackPkt(n, id, bin)
			}
			k.send(q)
			if !has {
				k.replies = append(k.replies, "error "+n)
			}
		case "answer":
			if len(k.asked) == 0 {
				continue
			}
			at := o.N % len(k.asked)
			a := k.asked[at]
			k.asked = append(k.asked[:at:at], k.asked[at+1:]...)
			var id *uint64
			c.Await(func() bool {
				for _, q := range k.recv() {
					if q.Type == wire.SEvent && q.NSP == a.nsp && q.Args[0] == "out" && canon(q.Args[1]) == fmt.Sprint(a.op) {
						id = q.ID
						return true
					}
				}
				return false
			}, "the event of step %d at client %d", a.op, o.C)
			if id == nil {
				c.Failf("an event emitted with a callback carries no id")
			}
			k.send(ackPkt(a.nsp, *id, intVal(int64(oi))))
			k.calls = append(k.calls, fmt.Sprintf("%s %d %d", a.nsp, a.op, oi))
			k.events = append(k.events, evPkt(a.nsp, "more", intVal(int64(a.op))).key())
			c.Await(func() bool { return k.called.len() >= len(k.calls) }, "the callback of step %d of client %d", a.op, o.C)
			c.Await(func() bool {
				n := 0
				for _, q := range k.recv() {
					if q.Type == wire.SEvent && q.Args[0] == "more" {
						n++
					}
				}
				return n >= len(k.calls)
			}, "what the callback of step %d of client %d emits", a.op, o.C)
			c.Label("callback with a socket")
		case "emit", "emiterr":
			// through the socket the connect handler of the namespace was given
			c.Await(func() bool { return len(k.entries()) >= len(k.log) }, "handlers of client %d: %v", o.C, k.log)
			so := k.e.socket(n)
			if so == nil {
				continue
			}
			args := []interface{}{oi}
			want := []Val{intVal(int64(oi))}
			if o.Bin {
				args = append(args, bin.goArg(p.Msgp))
				want = append(want, bin)
			}
			if o.Ack {
				oi := oi
				args = append(args, func(so socketio.Socket, tag int) {
					k.called.add(fmt.Sprintf("%s %d %d", so.Namespace(), oi, tag))
					if err := so.Emit("more", oi); err != nil {
						c.Errorf("emit in a callback: %v", err)
					}
				})
			}
			if o.K == "emiterr" {
				if !k.joined[n] {
					continue
				}
				if err := so.EmitError("trouble"); err != nil {
					c.Failf("EmitError: %v", err)
				}
				k.events = append(k.events, "error "+n)
				continue
			}
			err := so.Emit("out", args...)
			if k.joined[n] {
				if err != nil {
					c.Failf("emit to %s: %v", n, err)
				}
				k.events = append(k.events, evPkt(n, "out", want...).key())
				if o.Ack {
					k.asked = append(k.asked, c16Ask{n, oi})
				}
			} else if err == nil {
				c.Failf("an emit to %s, which the client has left, returned no error", n)
			}
		}
	}
	settled := func() bool {
		for _, k := range cli {
			if len(k.entries()) < len(k.log) || len(oopsOf(k)) < len(k.errs) || len(k.recv()) < len(k.replies)+len(k.events)+len(k.welcome)/2 {
				return false
			}
		}
		return true
	}
	c.Reaches(settled)
	c.Quiet()
	for i, k := range cli {
		if err := sameNotes(k.entries(), k.log); err != nil {
			c.Failf("handlers of client %d: %v", i, err)
		}
		if err := sameNotes(oopsOf(k), k.errs); err != nil {
			c.Failf("error handlers of client %d: %v", i, err)
		}
		var replies, events, welcome []string
		for _, q := range k.recv() {
			switch {
			case q.Type == wire.SEvent && q.Args[0] == "hi":
				welcome = append(welcome, "hi "+q.NSP)
			case q.Type == wire.SEvent:
				q.ID = nil
				events = append(events, q.key())
			case q.Type == wire.SError && q.Data == "trouble":
				events = append(events, "error "+q.NSP)
			case q.Type == wire.SError:
				replies = append(replies, "error "+q.NSP)
			default:
				replies = append(replies, q.key())
				if q.Type == wire.SConnect {
					welcome = append(welcome, "connect "+q.NSP)
				}
			}
		}
		if err := sameNotes(welcome, k.welcome); err != nil { // a join is confirmed before its handler emits
			c.Failf("joins and emits of connect handlers received by client %d: %v", i, err)
		}
		if err := sameNotes(k.called.all(), k.calls); err != nil {
			c.Failf("callbacks of client %d: %v", i, err)
		}
		if err := sameNotes(events, k.events); err != nil {
			c.Failf("emits received by client %d: %v", i, err)
		}
		if err := sameNotes(replies, k.replies); err != nil {
			c.Failf("replies received by client %d: %v", i, err)
		}
	}
	c.NonTrivialIf(foreign > 0 && joins > 0)
	c.LabelIf(foreign > 0, "addressed to a namespace that is not joined")
	c.LabelIf(len(cli) > 1, "several clients")
	c.LabelIf(p.Msgp, "msgpack")
}

// entries are the handler runs of the session, errors left out.
func (k *c16Cli) entries() (out []string) {
	for _, x := range k.e.entries() {
		if x.Kind != "error" {
			out = append(out, x.String())
		}
	}
	return
}
