package props

import (
	"fmt"
	"math"
	"sync"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

type c15Op struct {
	K    string  `json:"k"` // emit, ack, ev, leave, join, burst, plain
	S    int     `json:"s,omitempty"`
	NSP  string  `json:"nsp,omitempty"`
	E    int     `json:"e,omitempty"`    // ack: which emission (counted back from the last)
	Mode string  `json:"mode,omitempty"` // ack: right, othernsp, othersess, badid
	ID   *uint64 `json:"id,omitempty"`   // ev
	Ret  string  `json:"ret,omitempty"`  // ev
	N    int     `json:"n,omitempty"`    // burst: goroutines
	M    int     `json:"m,omitempty"`    // burst: emits of each
	V    *Val    `json:"v,omitempty"`
	X    []byte  `json:"x,omitempty"`
}

type c15Plan struct {
	Msgp bool    `json:"msgp,omitempty"`
	WS   []bool  `json:"ws"`
	Enc  sim.Enc `json:"enc,omitempty"`
	Ops  []c15Op `json:"ops"`
}

var c15Rets = []string{"none", "int", "two", "bin", "binmid", "list", "map", "nil", "nilptr", "false", "zero", "empty", "mixed0"}

// c15Ret is what a handler returns and the ack that must answer it.
func c15Ret(kind string, msgp bool, tag int) (fn interface{}, want []Val) {
	b := []byte{byte(tag), 0, 255}
	bin := func() interface{} {
		if msgp {
			return append([]byte{}, b...)
		}
		return &socketio.Bytes{Data: append([]byte{}, b...)}
	}
	bv := Val{K: "bin", X: b}
	switch kind {
	case "int":
		return func(t int) int { return t }, []Val{intVal(int64(tag))}
	case "two":
		return func(t int) (string, int) { return "r,\"", t }, []Val{strVal("r,\""), intVal(int64(tag))}
	case "bin":
		return func(t int) interface{} { return bin() }, []Val{bv}
	case "binmid":
		return func(t int) (int, interface{}, string, interface{}) { return t, bin(), "s", bin() }, []Val{intVal(int64(tag)), bv, strVal("s"), bv}
	case "list":
		return func(t int) []string { return []string{"a", "]"} }, []Val{{K: "list", L: []Val{strVal("a"), strVal("]")}}}
	case "map":
		return func(t int) map[string]interface{} { return map[string]interface{}{"t": t} }, []Val{{K: "map", M: map[string]Val{"t": intVal(int64(tag))}}}
	case "nil":
		return func(t int) interface{} { return nil }, []Val{{K: "nil"}}
	case "false":
		return func(t int) bool { return false }, []Val{{K: "bool"}}
	case "zero":
		return func(t int) int { return 0 }, []Val{intVal(0)}
	case "empty":
		return func(t int) string { return "" }, []Val{strVal("")}
	case "mixed0":
		return func(t int) (bool, int, string, []int, bool) { return false, 0, "", []int{}, true }, []Val{{K: "bool"}, intVal(0), strVal(""), {K: "list"}, {K: "bool", B: true}}
	case "nilptr":
		return func(t int) (*int, int) { return nil, t }, []Val{{K: "nil"}, intVal(int64(tag))}
	}
	return func(t int) {}, nil
}

func init() {
	kit.Add("C15", "acks", "at least one emission is acknowledged and one wrong or repeated acknowledgement is sent, or an event is answered", 25000, 250000, func(t *rapid.T) c15Plan {
		p := c15Plan{Msgp: rapid.Bool().Draw(t, "msgp"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "sess"); i < n; i++ {
			p.WS = append(p.WS, rapid.IntRange(0, 3).Draw(t, "ws") > 0)
		}
		kinds := []string{"emit", "emit", "emit", "ack", "ack", "ack", "ack", "ev", "ev", "leave", "join", "rejoin", "rejoin", "again", "burst", "plain", "fail"}
		for i, n := 0, rapid.IntRange(1, 14).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("o", i)
			o := c15Op{K: rapid.SampledFrom(kinds).Draw(t, l+".k"), S: rapid.IntRange(0, len(p.WS)-1).Draw(t, l+".s"), NSP: rapid.SampledFrom([]string{"/", "/a", "/b"}).Draw(t, l+".nsp")}
			switch o.K {
			case "emit":
				v := genVal(t, l+".v", 1, false)
				o.V = &v
				o.X = rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, l+".x")
			case "ack":
				o.E = rapid.IntRange(0, 4).Draw(t, l+".e")
				o.Mode = rapid.SampledFrom([]string{"right", "right", "right", "othernsp", "othersess", "badid"}).Draw(t, l+".mode")
				o.N = rapid.IntRange(0, 5).Draw(t, l+".off")
			case "ev":
				id := rapid.SampledFrom(idPool).Draw(t, l+".id")
				o.ID = &id
				o.Ret = rapid.SampledFrom(c15Rets).Draw(t, l+".ret")
			case "burst":
				o.N = rapid.IntRange(1, 4).Draw(t, l+".g")
				o.M = rapid.IntRange(1, 6).Draw(t, l+".m")
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}, runC15)
}

// c15Em is one emission with a callback.
type c15Em struct {
	sess     int
	nsp      string
	id       uint64
	v        Val
	x        []byte
	state    int // 0 pending, 1 acknowledged, 2 its namespace was left, 3 it failed
	tag      int // of the acknowledgement that counts
	calls    notes
	optional bool
}

func runC15(c *kit.C, p c15Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	nsps := []string{"/", "/a", "/b"}
	s.OnError = func(e *sioSess, so socketio.Socket, err []interface{}) {
		c.Errorf("error handler of %s: %v", so.Namespace(), err)
	}
	for _, n := range nsps {
		s.nsp(n)
		for _, r := range c15Rets {
			fn, _ := c15Ret(r, p.Msgp, 7)
			s.S.Namespace(n).OnEvent("ret-"+r, fn)
		}
	}
	s.event("/", "sync", nil)
	var cli []*sioCli
	joined := make([]map[string]bool, len(p.WS))
	for i, ws := range p.WS {
		k := newSioCli(c, s.S, p.Msgp, ws, fmt.Sprintf("10.0.0.%d:1", i+1), nil, p.Enc)
		cli = append(cli, k)
		joined[i] = map[string]bool{}
		for _, n := range nsps {
			s.join(k, n)
			joined[i][n] = true
		}
	}
	var ems []*c15Em
	wantAcks := make([][]string, len(cli))
	nburst, tag := 0, 0
	wrong, right := 0, 0
	var failed []*c15Em
	leave := func(i int, nsp string) {
		if nsp == "/" || !joined[i][nsp] {
			return
		}
		e := s.sess(cli[i].sid)
		n := e.count("disconnect", nsp)
		cli[i].send(SP{Type: wire.SDisconnect, NSP: nsp})
		c.Await(func() bool { return e.count("disconnect", nsp) > n }, "disconnect handler of %s", nsp)
		joined[i][nsp] = false
		for _, f := range ems {
			if f.sess == i && f.nsp == nsp && f.state == 0 {
				f.state = 2
			}
		}
	}
	join := func(i int, nsp string) {
		if joined[i][nsp] {
			return
		}
		e := s.sess(cli[i].sid)
		n := e.count("connect", nsp)
		cli[i].send(SP{Type: wire.SConnect, NSP: nsp})
		c.Await(func() bool { return e.count("connect", nsp) > n }, "connect handler of %s", nsp)
		joined[i][nsp] = true
	}
	sync := func(i int, after string) {
		tag++
		t := tag
		cli[i].send(evPkt("/", "sync", intVal(int64(t))))
		f := s.sess(cli[i].sid)
		c.Await(func() bool {
			for _, x := range f.entries() {
				if x.Kind == "event" && x.Name == "sync" && x.Args == fmt.Sprint(t) {
					return true
				}
			}
			return false
		}, "event after %s", after)
	}
	for oi, o := range p.Ops {
		k := cli[o.S]
		e := s.sess(k.sid)
		switch o.K {
		case "emit":
			if !joined[o.S][o.NSP] {
				continue
			}
			em := &c15Em{sess: o.S, nsp: o.NSP, v: *o.V, x: o.X}
			name := fmt.Sprint("q", oi)
			var cb interface{} = func(so socketio.Socket, tag int, v interface{}, b socketio.Bytes, more int) {
				em.check(c, so, k.sid)
				em.calls.add(fmt.Sprint(tag, " ", canon(v), " ", canon(b.Data), " ", more))
			}
			if p.Msgp {
				cb = func(tag int, so socketio.Socket, v interface{}, b []byte, more int) {
					em.check(c, so, k.sid)
					em.calls.add(fmt.Sprint(tag, " ", canon(v), " ", canon(b), " ", more))
				}
			}
			if err := e.socket(o.NSP).Emit(name, "x", cb, 2); err != nil {
				c.Failf("emit: %v", err)
			}
			var q *SP
			c.Await(func() bool {
				for _, r := range k.recv() {
					if r.Type == wire.SEvent && r.Args[0] == name {
						r := r
						q = &r
						return true
					}
				}
				return false
			}, "event %s at the client", name)
			if q.ID == nil || q.NSP != o.NSP || canonArgs(q.Args) != fmt.Sprintf("%q \"x\" 2", name) {
				c.Failf("an emit with a callback arrived as %s", q)
			}
			em.id = *q.ID
			for _, f := range ems {
				if f.sess == em.sess && f.nsp == em.nsp && f.id == em.id && f.state == 0 {
					c.Failf("two emissions of %s wait for an acknowledgement with id %d", em.nsp, em.id)
				}
			}
			ems = append(ems, em)
		case "ack":
			if len(ems) == 0 {
				continue
			}
			em := ems[max(0, len(ems)-1-o.E)]
			sess, nsp, id := em.sess, em.nsp, em.id
			switch o.Mode {
			case "othernsp":
				nsp = o.NSP
			case "othersess":
				sess = o.S
			case "badid":
				id = []uint64{0, id + 1000, math.MaxUint64, id + 7, id - 1, id + 1}[o.N]
			}
			tag++
			// whom does it acknowledge?
			var hit *c15Em
			for _, f := range ems {
				if f.sess == sess && f.nsp == nsp && f.id == id {
					if o.Mode == "right" && f != em {
						continue // the ack is that of em, whatever ids there are
					}
					switch {
					case f.state == 0 && joined[sess][nsp]:
						hit = f
					case f.state == 2:
						f.optional = true
						f.tag = tag // a late one: if at all, once
					}
				}
			}
			v, x := em.v, em.x
			if hit != nil {
				hit.state, hit.tag, hit.optional = 1, tag, false
				v, x = hit.v, hit.x
				right++
			} else {
				wrong++
				c.Label("wrong ack " + o.Mode)
			}
			cli[sess].send(ackPkt(nsp, id, intVal(int64(tag)), v, Val{K: "bin", X: x}, intVal(5)))
			if hit == nil { // it must not meet a later emission
				sync(sess, "a wrong acknowledgement")
			}
		case "ev":
			if !joined[o.S][o.NSP] {
				continue
			}
			_, want := c15Ret(o.Ret, p.Msgp, 7)
			k.send(evPkt(o.NSP, "ret-"+o.Ret, intVal(7)).withID(*o.ID))
			wantAcks[o.S] = append(wantAcks[o.S], ackPkt(o.NSP, *o.ID, want...).key())
			c.NonTrivial()
			c.Label("returns " + o.Ret)
		case "fail": // an emit that returns an error: nothing acknowledges it
			if !joined[o.S][o.NSP] {
				continue
			}
			em := &c15Em{sess: o.S, nsp: o.NSP, state: 3}
			if err := e.socket(o.NSP).Emit("q", make(chan int), func(so socketio.Socket) { em.calls.add("called") }); err == nil {
				c.Failf("an emit of a channel returned no error")
			}
			failed = append(failed, em)
			c.Label("failed emit")
		case "leave":
			leave(o.S, o.NSP)
		case "join":
			join(o.S, o.NSP)
		case "again": // a connect packet for a namespace the client is in: what is awaited still is
			if joined[o.S][o.NSP] {
				k.send(SP{Type: wire.SConnect, NSP: o.NSP})
				sync(o.S, "a second connect packet")
				c.Label("connect packet repeated")
			}
		case "rejoin":
			leave(o.S, o.NSP)
			join(o.S, o.NSP)
		case "plain":
			if joined[o.S][o.NSP] {
				if err := e.socket(o.NSP).Emit("plain", oi); err != nil {
					c.Failf("emit: %v", err)
				}
			}
		case "burst":
			if !joined[o.S][o.NSP] {
				continue
			}
			nburst++
			runBurst(c, k, e, o, oi)
		}
		c.Check()
	}
	c.Reaches(func() bool {
		for i, k := range cli {
			n := 0
			for _, q := range k.recv() {
				if q.Type == wire.SAck {
					n++
				}
			}
			if n < len(wantAcks[i]) {
				return false
			}
		}
		for _, em := range ems {
			if em.state == 1 && em.calls.len() == 0 {
				return false
			}
		}
		return true
	})
	c.Quiet()
	for _, em := range failed {
		if calls := em.calls.all(); len(calls) > 0 {
			c.Failf("the callback of an emit in %s of session %d that failed ran %d times", em.nsp, em.sess, len(calls))
		}
	}
	for _, em := range ems {
		calls := em.calls.all()
		w := fmt.Sprint(em.tag, " ", canon(em.v.generic()), " ", canon(append([]byte{}, em.x...)), " 5")
		switch {
		case em.state == 1 && len(calls) != 1:
			c.Failf("the callback of emission id %d in %s of session %d ran %d times: %v", em.id, em.nsp, em.sess, len(calls), calls)
		case em.state == 1 && calls[0] != w:
			c.Failf("the callback of emission id %d in %s got\n%s, want\n%s", em.id, em.nsp, clipS(calls[0]), clipS(w))
		case em.state != 1 && len(calls) > 0 && !(em.optional && len(calls) == 1):
			c.Failf("the callback of emission id %d in %s of session %d, which was never acknowledged, ran: %v", em.id, em.nsp, em.sess, calls)
		}
	}
	for i, k := range cli {
		var got []string
		for _, q := range k.recv() {
			if q.Type == wire.SAck {
				got = append(got, q.key())
			}
		}
		if err := sameNotes(got, wantAcks[i]); err != nil {
			c.Failf("acks received by client %d: %v", i, err)
		}
	}
	c.NonTrivialIf(right > 0 && wrong > 0)
	c.LabelIf(right > 0, "right acks")
	c.LabelIf(nburst > 0, "burst")
	c.LabelIf(p.Msgp, "msgpack")
}

func (em *c15Em) check(c *kit.C, so socketio.Socket, sid string) {
	if so == nil || so.Namespace() != em.nsp || so.Sid() != sid {
		c.Errorf("the callback of an emission in %s was given a foreign socket", em.nsp)
	}
}

// runBurst emits from several goroutines while the client answers at once.
func runBurst(c *kit.C, k *sioCli, e *sioSess, o c15Op, oi int) {
	stop := make(chan struct{})
	finished := make(chan struct{})
	prefix := fmt.Sprint("burst", oi, "-")
	var nudge = make(chan struct{}, 1)
	poke := func(wire.Pkt) {
		select {
		case nudge <- struct{}{}:
		default:
		}
	}
	if k.poll != nil {
		k.poll.OnPkt(poke)
	}
	if k.ws != nil {
		k.ws.OnPkt(poke)
	}
	go func() {
		defer close(finished)
		done := 0
		for {
			g := k.recv()
			for ; done < len(g); done++ {
				q := g[done]
				if name, _ := (append(q.Args, nil))[0].(string); q.Type == wire.SEvent && len(name) > len(prefix) && name[:len(prefix)] == prefix && q.ID != nil {
					k.send(ackPkt(q.NSP, *q.ID, strVal(name)))
				}
			}
			select {
			case <-nudge:
			case <-stop:
				return
			}
		}
	}()
	var mu sync.Mutex
	ran := map[string][]string{}
	total := o.N * o.M
	count := func() (n int) {
		mu.Lock()
		defer mu.Unlock()
		for _, v := range ran {
			n += len(v)
		}
		return
	}
	so := e.socket(o.NSP)
	for g := 0; g < o.N; g++ {
		g := g
		go func() {
			for m := 0; m < o.M; m++ {
				name := fmt.Sprint(prefix, g, "-", m)
				if err := so.Emit(name, func(s string) {
					mu.Lock()
					ran[name] = append(ran[name], s)
					mu.Unlock()
				}); err != nil {
					c.Errorf("emit: %v", err)
				}
			}
		}()
	}
	c.Reaches(func() bool { return count() >= total })
	close(stop)
	<-finished
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for name, v := range ran {
		n++
		if len(v) != 1 || v[0] != name {
			c.Failf("the callback of %s got %v", name, v)
		}
	}
	if n != total {
		c.Failf("%d emissions were acknowledged, %d callbacks ran", total, n)
	}
}
