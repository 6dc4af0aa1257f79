package props

import (
	"errors"
	"fmt"
	"math"
	"strings"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// failing marshalers
type badBinary struct{}

func (badBinary) MarshalBinary() ([]byte, error)  { return nil, errors.New("cannot be encoded") }
func (*badBinary) UnmarshalBinary(b []byte) error { return nil }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be encoded") }

type ptrBinary struct{ b []byte }

func (p *ptrBinary) MarshalBinary() ([]byte, error) { return p.b, nil }

type valBinary struct{ b []byte }

func (p valBinary) MarshalBinary() ([]byte, error) { return p.b, nil }

// badArgs: arguments no parser of the kind can encode.
var badArgs = map[string]func() interface{}{
	"chan":      func() interface{} { return make(chan int) },
	"chanlist":  func() interface{} { return []interface{}{1, make(chan int)} },
	"funclist":  func() interface{} { return []interface{}{func() {}} },
	"chanmap":   func() interface{} { return map[string]interface{}{"a": make(chan int)} },
	"cbchan":    func() interface{} { return func(chan int) {} },
	"cbfunc":    func() interface{} { return func(int, func()) {} },
	"nan":       func() interface{} { return math.NaN() },
	"inf":       func() interface{} { return []float64{1, math.Inf(1)} },
	"complex":   func() interface{} { return complex(1, 2) },
	"binary":    func() interface{} { return badBinary{} },
	"pbinary":   func() interface{} { return &badBinary{} },
	"json":      func() interface{} { return badJSON{} },
	"jsonlist":  func() interface{} { return []interface{}{"a", badJSON{}} },
	"struct":    func() interface{} { return struct{ A int }{1} },
	"structmap": func() interface{} { return map[string]interface{}{"s": struct{ A int }{1}} },
}

var badDefault = []string{"chan", "chanlist", "funclist", "chanmap", "cbchan", "cbfunc", "nan", "inf", "complex", "binary", "pbinary", "json", "jsonlist"}
var badMsgp = []string{"chan", "chanlist", "funclist", "chanmap", "cbchan", "cbfunc", "struct", "structmap"}

// oddArgs: whether they can be encoded is not prescribed, but an emit must not panic, and
// must deliver a packet exactly if it returns no error.
var oddArgs = map[string]func() interface{}{
	"nil":       func() interface{} { return nil },
	"nilint":    func() interface{} { return (*int)(nil) },
	"nilbytes":  func() interface{} { return (*socketio.Bytes)(nil) },
	"nilptrbin": func() interface{} { return (*ptrBinary)(nil) },
	"nilvalbin": func() interface{} { return (*valBinary)(nil) },
	"nilbadbin": func() interface{} { return (*badBinary)(nil) },
	"nilfunc":   func() interface{} { return (func())(nil) },
	"nilslice":  func() interface{} { return []int(nil) },
	"nilbslice": func() interface{} { return []byte(nil) },
	"nilmap":    func() interface{} { return map[string]int(nil) },
	"nilerr":    func() interface{} { return (error)(nil) },
	"nilchan":   func() interface{} { return (chan int)(nil) },
	"nillist":   func() interface{} { return []interface{}{nil, (*int)(nil)} },
	"emptybin":  func() interface{} { return &socketio.Bytes{} },
	"valbin":    func() interface{} { return valBinary{[]byte("vb")} },
	"pvalbin":   func() interface{} { return &valBinary{[]byte("vb")} },
	"ptrbin":    func() interface{} { return &ptrBinary{} },
	"error":     func() interface{} { return errors.New("x") },
	"badutf8":   func() interface{} { return "a\xffb" },
	"array":     func() interface{} { return [2]int{1, 2} },
	"uint64":    func() interface{} { return uint64(math.MaxUint64) },
	"intmap":    func() interface{} { return map[int]string{1: "a"} },
	"ptrptr":    func() interface{} { i := 1; p := &i; return &p },
	"pnilstr":   func() interface{} { var p *string; return &p },
	"float32":   func() interface{} { return float32(0.5) },
	"rune":      func() interface{} { return 'x' },
}

var oddNames = func() (out []string) {
	for _, k := range []string{"nil", "nilint", "nilbytes", "nilptrbin", "nilvalbin", "nilbadbin", "nilfunc", "nilslice", "nilbslice", "nilmap", "nilerr", "nilchan", "nillist", "emptybin", "valbin", "pvalbin", "ptrbin", "error", "badutf8", "array", "uint64", "intmap", "ptrptr", "pnilstr", "float32", "rune"} {
		out = append(out, k)
	}
	return
}()

// C19A is one argument.
type C19A struct {
	V   *Val   `json:"v,omitempty"`
	Bad string `json:"bad,omitempty"`
	Odd string `json:"odd,omitempty"`
	CB  bool   `json:"cb,omitempty"`
}

type c19Op struct {
	K    string `json:"k"` // emit, emiterr, ev, evbad, leave, join, ack, ping
	NSP  string `json:"nsp"`
	Args []C19A `json:"args,omitempty"`
}

type c19Plan struct {
	Msgp bool    `json:"msgp,omitempty"`
	WS   bool    `json:"ws,omitempty"`
	Enc  sim.Enc `json:"enc,omitempty"`
	Ops  []c19Op `json:"ops"`
	End  string  `json:"end,omitempty"` // "", client, app, drop
}

func init() {
	kit.Add("C19", "emits", "an emit failed", 20000, 200000, func(t *rapid.T) c19Plan {
		p := c19Plan{Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0, WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		bad := badDefault
		if p.Msgp {
			bad = badMsgp
		}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("o", i)
			o := c19Op{K: rapid.SampledFrom([]string{"emit", "emit", "emit", "emit", "emit", "emiterr", "ev", "evbad", "leave", "join", "ack", "ping"}).Draw(t, l+".k"),
				NSP: rapid.SampledFrom([]string{"/", "/a"}).Draw(t, l+".nsp")}
			switch o.K {
			case "emit":
				for j, m := 0, rapid.IntRange(0, 4).Draw(t, l+".na"); j < m; j++ {
					var a C19A
					switch rapid.IntRange(0, 8).Draw(t, l+".cls") {
					case 0:
						a.Bad = rapid.SampledFrom(bad).Draw(t, l+".bad")
					case 1:
						a.Odd = rapid.SampledFrom(oddNames).Draw(t, l+".odd")
					case 2:
						a.CB = true
					default:
						v := genVal(t, l+".v", 1, true)
						a.V = &v
					}
					o.Args = append(o.Args, a)
				}
			case "emiterr":
				var a C19A
				switch rapid.IntRange(0, 3).Draw(t, l+".cls") {
				case 0:
					a.Bad = rapid.SampledFrom([]string{"chan", "chanlist", "chanmap", "json"}).Draw(t, l+".bad")
				case 1:
					a.Odd = rapid.SampledFrom(append([]string{"bytes"}, oddNames...)).Draw(t, l+".odd")
				default:
					v := strVal(genStr(t, l))
					a.V = &v
				}
				o.Args = []C19A{a}
			}
			p.Ops = append(p.Ops, o)
		}
		p.End = rapid.SampledFrom([]string{"", "client", "app", "drop"}).Draw(t, "end")
		return p
	}, runC19)
}

func runC19(c *kit.C, p c19Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	for _, n := range []string{"/", "/a"} {
		s.nsp(n)
		s.S.Namespace(n).OnEvent("ev", func(i int) int { return i })
		s.S.Namespace(n).OnEvent("evbad", func(i int) (interface{}, interface{}) {
			if p.Msgp {
				return []byte{1}, make(chan int)
			}
			if i%2 == 0 {
				return &socketio.Bytes{Data: []byte{1}}, &badBinary{}
			}
			return i, make(chan int)
		})
	}
	k := newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
	e := s.sess(k.sid)
	s.join(k, "/")
	s.join(k, "/a")
	joined := map[string]bool{"/": true, "/a": true}
	want := []string{"join /", "join /a"}
	var acks []string
	failed := 0
	pings := 0
	callbacks := map[string]bool{} // event names that carry an ack id
	called := &notes{}
	var wantCalled []string
	for oi, o := range p.Ops {
		so := e.socket(o.NSP)
		switch o.K {
		case "emit":
			name := fmt.Sprint("q", oi)
			args := []interface{}{}
			vals := []Val{}
			bad, odd, cb := false, false, false
			for _, a := range o.Args {
				switch {
				case a.Bad != "":
					bad = true
					args = append(args, badArgs[a.Bad]())
				case a.Odd != "":
					odd = true
					args = append(args, oddArgs[a.Odd]())
				case a.CB:
					if cb {
						continue
					}
					cb = true
					args = append(args, func(so socketio.Socket, n int) { called.add(fmt.Sprint(name, " ", n)) })
				default:
					args = append(args, a.V.goArg(p.Msgp))
					vals = append(vals, *a.V)
				}
			}
			err := so.Emit(name, args...)
			switch {
			case err != nil && joined[o.NSP] && !bad && !odd:
				c.Failf("emit %d failed: %v", oi, err)
			case err == nil && bad:
				c.Failf("emit %d of arguments that cannot be encoded returned no error", oi)
			case err == nil && !joined[o.NSP]:
				c.Failf("emit %d to %s, which is not joined, returned no error", oi, o.NSP)
			case err != nil:
				failed++
			case odd:
				want = append(want, fmt.Sprintf("%s %s?", o.NSP, name))
				callbacks[name] = cb
			default:
				want = append(want, evPkt(o.NSP, name, vals...).key())
				callbacks[name] = cb
			}
		case "emiterr":
			if !joined[o.NSP] {
				continue
			}
			var arg interface{}
			switch a := o.Args[0]; {
			case a.Bad != "":
				arg = badArgs[a.Bad]()
			case a.Odd != "": // within a list: it arrives in some form, or is refused
				var x interface{} = &socketio.Bytes{Data: []byte{1, 2}}
				if a.Odd != "bytes" {
					x = oddArgs[a.Odd]()
				}
				list := []interface{}{"x", x, 7}
				if err := so.EmitError(list); err == nil {
					want = append(want, fmt.Sprintf("error %s ?", o.NSP))
				} else {
					failed++
				}
				if len(list) != 3 || fmt.Sprintf("%T", list[1]) != fmt.Sprintf("%T", x) {
					c.Failf("EmitError changed its argument to %v", list)
				}
				c.Label("error with a list")
				continue
			default:
				arg = a.V.S
			}
			err := so.EmitError(arg)
			if (err != nil) != (o.Args[0].Bad != "") {
				c.Failf("EmitError(%v): %v", arg, err)
			}
			if err == nil {
				want = append(want, fmt.Sprintf("error %s %s", o.NSP, canon(arg)))
			} else {
				failed++
			}
		case "ev", "evbad":
			if !joined[o.NSP] {
				continue
			}
			k.send(evPkt(o.NSP, o.K, intVal(int64(oi))).withID(uint64(oi)))
			if o.K == "ev" {
				acks = append(acks, ackPkt(o.NSP, uint64(oi), intVal(int64(oi))).key())
			} else {
				failed++
				c.Label("handler result cannot be encoded")
			}
		case "ack": // of every emission so far that has an id, and of ids around them
			var last uint64
			for _, q := range k.recv() {
				name, _ := (append(q.Args, nil))[0].(string)
				if q.Type == wire.SEvent && q.ID != nil && callbacks[name] && joined[q.NSP] {
					k.send(ackPkt(q.NSP, *q.ID, intVal(9)))
					wantCalled = append(wantCalled, name+" 9")
					callbacks[name] = false
					last = *q.ID
				}
			}
			if last > 0 {
				k.send(ackPkt("/", last+100, intVal(1)))
			}
			k.w.do(func() {}) // keep order
			if !c.Reaches(func() bool { return called.len() >= len(wantCalled) }) {
				c.Failf("callbacks run: %v, want %v", called.all(), wantCalled)
			}
		case "leave":
			if o.NSP == "/" || !joined[o.NSP] {
				continue
			}
			n := e.count("disconnect", o.NSP)
			k.send(SP{Type: wire.SDisconnect, NSP: o.NSP})
			c.Await(func() bool { return e.count("disconnect", o.NSP) > n }, "disconnect handler")
			joined[o.NSP] = false
			for name, cb := range callbacks { // acks of a namespace that was left are not specified
				if cb {
					callbacks[name] = false
				}
			}
		case "join":
			if joined[o.NSP] {
				continue
			}
			n := e.count("connect", o.NSP)
			k.send(SP{Type: wire.SConnect, NSP: o.NSP})
			c.Await(func() bool { return e.count("connect", o.NSP) > n }, "connect handler")
			joined[o.NSP] = true
			want = append(want, "join "+o.NSP)
		case "ping":
			pings++
			k.raw(wire.Pkt{Type: wire.EPing, Data: []byte("x")})
		}
		c.Check()
	}
	want = append(want, evPkt("/", "last", intVal(1)).key())
	if err := e.socket("/").Emit("last", 1); err != nil {
		c.Failf("the last emit failed: %v", err)
	}
	recv := func() (other, ack []string, withID map[string]bool) {
		withID = map[string]bool{}
		for _, q := range k.recv() {
			switch q.Type {
			case wire.SConnect:
				other = append(other, "join "+q.NSP)
			case wire.SError:
				other = append(other, fmt.Sprintf("error %s %s", q.NSP, canon(q.Data)))
			case wire.SAck:
				ack = append(ack, q.key())
			default:
				if q.ID != nil {
					withID[fmt.Sprint((append(q.Args, nil))[0])] = true
				}
				q.ID = nil
				other = append(other, q.key())
			}
		}
		return
	}
	c.Reaches(func() bool { o, a, _ := recv(); return len(o) >= len(want) && len(a) >= len(acks) })
	c.Quiet()
	other, ack, withID := recv()
	for i := range want {
		// arguments of odd emits are not prescribed
		if strings.HasSuffix(want[i], "?") && i < len(other) {
			if strings.HasPrefix(want[i], "error ") {
				if strings.HasPrefix(other[i], strings.TrimSuffix(want[i], "?")) {
					other[i] = want[i]
				}
				continue
			}
			f := strings.Fields(strings.TrimSuffix(want[i], "?"))
			if strings.HasPrefix(other[i], fmt.Sprintf("%d %s - %q", wire.SEvent, f[0], f[1])) {
				other[i] = want[i]
			}
		}
	}
	if err := sameNotes(other, want); err != nil {
		c.Failf("client received: %v", err)
	}
	if err := sameNotes(ack, acks); err != nil {
		c.Failf("acks: %v", err)
	}
	for name := range withID {
		if _, ok := callbacks[name]; !ok {
			c.Failf("event %s carries an ack id", name)
		}
	}
	if err := sameNotes(called.all(), wantCalled); err != nil {
		c.Failf("ack callbacks: %v", err)
	}
	pongs := 0
	for _, q := range k.all() {
		if q.Type == wire.EPong {
			pongs++
		}
	}
	if pongs != pings {
		c.Failf("%d pings, %d pongs", pings, pongs)
	}
	// a closed session
	n := len(k.got())
	switch p.End {
	case "client":
		k.raw(wire.Pkt{Type: wire.EClose})
	case "drop":
		if !p.WS {
			k.raw(wire.Pkt{Type: wire.EClose})
		} else {
			k.ws.Close()
		}
	case "app":
		e.socket("/").Close()
	}
	if p.End != "" {
		k.lenient()
		c.Await(func() bool { return e.count("disconnect", "/") > 0 }, "disconnect handler at the end (%s)", p.End)
		for _, nsp := range []string{"/", "/a"} {
			for _, args := range [][]interface{}{{1}, {func() {}}, {&socketio.Bytes{Data: []byte{1}}, func() {}}, {make(chan int)}, {nil}} {
				if p.Msgp {
					if _, ok := args[0].(*socketio.Bytes); ok {
						continue
					}
				}
				if err := e.socket(nsp).Emit("late", args...); err == nil {
					c.Failf("emit to %s after the end of the session (%s) returned no error", nsp, p.End)
				}
			}
		}
		c.Quiet()
		for _, m := range k.got()[n:] {
			c.Failf("the client received %s after the end of the session", m)
		}
	}
	c.NonTrivialIf(failed > 0)
	c.LabelIf(failed > 0, "failed emits")
	c.LabelIf(p.End != "", "closed at the end")
	c.LabelIf(p.Msgp, "msgpack")
}

// ---- the engine's own emits

type c19EngOp struct {
	A string `json:"a"`
	B Blob   `json:"b,omitempty"`
}

type c19EngPlan struct {
	WS  bool       `json:"ws,omitempty"`
	Enc sim.Enc    `json:"enc,omitempty"`
	Ops []c19EngOp `json:"ops"`
}

func init() {
	kit.Add("C19", "engine", "an emit failed", 12000, 120000, func(t *rapid.T) c19EngPlan {
		p := c19EngPlan{WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, "enc"))}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			o := c19EngOp{A: rapid.SampledFrom([]string{"blob", "blob", "string", "json", "chan", "nan", "badjson", "send", "sendbad", "nil"}).Draw(t, "a")}
			o.B = genSmall(t, "b")
			p.Ops = append(p.Ops, o)
		}
		return p
	}, func(c *kit.C, p c19EngPlan) {
		s := newEngSrv(c, long, long)
		q := newPeer(c, s, p.WS, "10.0.0.1:1", nil, p.Enc)
		if !p.WS {
			q.poll.Run(-1)
		}
		var want []wire.Pkt
		fails := 0
		for i, o := range p.Ops {
			t := engine.MessageTypeString
			if o.B.Bin {
				t = engine.MessageTypeBinary
			}
			var err error
			k := o.B.Msg()
			bad := false
			switch o.A {
			case "blob":
				err = q.e.Sock.Emit(engine.EventMessage, t, o.B.Bytes())
			case "string":
				err = q.e.Sock.Emit(engine.EventMessage, t, string(o.B.Bytes()))
			case "json":
				err = q.e.Sock.Emit(engine.EventMessage, engine.MessageTypeString, map[string]interface{}{"i": i})
				k = wire.Pkt{Type: wire.EMessage, Data: []byte(fmt.Sprintf(`{"i":%d}`, i))}
			case "nil":
				err = q.e.Sock.Emit(engine.EventMessage, engine.MessageTypeString, nil)
				k = wire.Pkt{Type: wire.EMessage, Data: []byte("null")}
			case "send":
				err = q.e.Sock.Send([]int{i})
				k = wire.Pkt{Type: wire.EMessage, Data: []byte(fmt.Sprintf("[%d]", i))}
			case "chan":
				err, bad = q.e.Sock.Emit(engine.EventMessage, t, make(chan int)), true
			case "nan":
				err, bad = q.e.Sock.Emit(engine.EventMessage, t, math.NaN()), true
			case "badjson":
				err, bad = q.e.Sock.Emit(engine.EventMessage, t, badJSON{}), true
			case "sendbad":
				err, bad = q.e.Sock.Send([]interface{}{1, func() {}}), true
			}
			if (err != nil) != bad {
				c.Failf("emit %d (%s): %v", i, o.A, err)
			}
			if bad {
				fails++
			} else {
				want = append(want, k)
			}
		}
		c.Reaches(func() bool { return len(q.got()) >= len(want) })
		c.Quiet()
		if err := samePkts(q.got(), want); err != nil {
			c.Failf("client received: %v", err)
		}
		q.emitted = want
		q.exchange("after the failed emits")
		c.NonTrivialIf(fails > 0)
		c.LabelIf(p.WS, "websocket")
	})
}
