package props

import (
	"fmt"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C06 with the socket.io layer: namespaces, attachments and acks across an upgrade ----

type c06SioOp struct {
	K    string `json:"k"` // ev, emit, join, leave, yield, gate, ungate
	N    int    `json:"n,omitempty"`
	Bins int    `json:"bins,omitempty"`
	Rep  int    `json:"rep,omitempty"`
	Ack  bool   `json:"ack,omitempty"`
}

type c06SioPlan struct {
	Msgp bool          `json:"msgp,omitempty"`
	Enc  sim.Enc       `json:"enc,omitempty"`
	Segs [6][]c06SioOp `json:"segs"`
}

var c06NSPs = []string{"/", "/a", "/b"}

func init() {
	kit.Add("C06", "sio", "packets with attachments cross the upgrade in both directions, in at least two namespaces", 10000, 100000, func(t *rapid.T) c06SioPlan {
		p := c06SioPlan{Msgp: rapid.IntRange(0, 3).Draw(t, "msgp") == 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		for i := range p.Segs {
			l := fmt.Sprint("seg", i)
			for j, n := 0, rapid.IntRange(0, 4).Draw(t, l+".n"); j < n; j++ {
				o := c06SioOp{K: rapid.SampledFrom([]string{"ev", "ev", "ev", "emit", "emit", "emit", "join", "leave", "yield", "gate", "ungate"}).Draw(t, l+".k"), N: rapid.IntRange(0, 2).Draw(t, l+".nsp")}
				switch o.K {
				case "ev", "emit":
					o.Bins = rapid.IntRange(0, 3).Draw(t, l+".bins")
					o.Rep = rapid.SampledFrom([]int{1, 1, 2, 5, 12}).Draw(t, l+".rep")
					o.Ack = rapid.IntRange(0, 2).Draw(t, l+".ack") == 0
				case "yield":
					o.Rep = rapid.IntRange(1, 60).Draw(t, l+".rep")
				case "leave":
					o.N = rapid.IntRange(1, 2).Draw(t, l+".lnsp")
				}
				p.Segs[i] = append(p.Segs[i], o)
			}
		}
		return p
	}, runC06Sio)
}

func runC06Sio(c *kit.C, p c06SioPlan) {
	s := newSioSrv(c, p.Msgp, long, long)
	var g gate
	c.Defer(g.open)
	for _, n := range c06NSPs {
		n := n
		s.nsp(n)
		rec := func(so socketio.Socket, tag int, bs ...[]byte) string {
			e := s.add(so, n, "event", "ev", fmt.Sprintf("%d %x", tag, bs))
			s.enter(e, "event handler of "+n)
			g.pass()
			s.leave(e)
			return n
		}
		names := []string{"ev0", "ev1", "ev2", "ev3"}
		if p.Msgp {
			s.S.Namespace(n).OnEvent(names[0], func(so socketio.Socket, tag int) string { return rec(so, tag) })
			s.S.Namespace(n).OnEvent(names[1], func(so socketio.Socket, tag int, a []byte) string { return rec(so, tag, a) })
			s.S.Namespace(n).OnEvent(names[2], func(so socketio.Socket, tag int, a, b []byte) string { return rec(so, tag, a, b) })
			s.S.Namespace(n).OnEvent(names[3], func(so socketio.Socket, tag int, a, b, d []byte) string { return rec(so, tag, a, b, d) })
		} else {
			s.S.Namespace(n).OnEvent(names[0], func(so socketio.Socket, tag int) string { return rec(so, tag) })
			s.S.Namespace(n).OnEvent(names[1], func(so socketio.Socket, tag int, a *socketio.Bytes) string { return rec(so, tag, a.Data) })
			s.S.Namespace(n).OnEvent(names[2], func(so socketio.Socket, tag int, a, b *socketio.Bytes) string { return rec(so, tag, a.Data, b.Data) })
			s.S.Namespace(n).OnEvent(names[3], func(so socketio.Socket, tag int, a, b, d *socketio.Bytes) string {
				return rec(so, tag, a.Data, b.Data, d.Data)
			})
		}
	}
	k := newSioCli(c, s.S, p.Msgp, false, "10.0.0.1:1", nil, p.Enc)
	e := s.sess(k.sid)
	for _, n := range c06NSPs {
		s.join(k, n)
	}
	joined := map[string]bool{"/": true, "/a": true, "/b": true}
	var log []string // handler runs expected
	for _, x := range e.entries() {
		log = append(log, x.String())
	}
	replies := map[string]int{} // connect packets and acks expected
	for _, n := range c06NSPs {
		replies[SP{Type: wire.SConnect, NSP: n}.key()]++
	}
	var events []string // events the client is to receive
	socks := map[string]socketio.Socket{}
	for _, n := range c06NSPs {
		socks[n] = e.socket(n)
	}
	called := &notes{}
	var wantCalled []string
	tag := 0
	bins, nsps := [2]int{}, map[string]bool{}
	run := func(seg int, ops []c06SioOp) {
		for _, o := range ops {
			n := c06NSPs[o.N]
			switch o.K {
			case "join":
				if !joined[n] { // one at a time: the socket of the namespace changes
					joined[n] = true
					log = append(log, "connect "+n)
					replies[SP{Type: wire.SConnect, NSP: n}.key()]++
					k.send(SP{Type: wire.SConnect, NSP: n})
				}
			case "leave":
				if joined[n] && seg == 5 {
					joined[n] = false
					log = append(log, "disconnect "+n)
					k.send(SP{Type: wire.SDisconnect, NSP: n})
				}
			case "ev":
				for i := 0; i < o.Rep; i++ {
					tag++
					args := []Val{intVal(int64(tag))}
					var bs [][]byte
					for j := 0; j < o.Bins; j++ {
						b := []byte(fmt.Sprint(tag, ".", j))
						bs = append(bs, b)
						args = append(args, Val{K: "bin", X: b})
					}
					q := evPkt(n, fmt.Sprint("ev", o.Bins), args...)
					if o.Ack && joined[n] {
						q = q.withID(uint64(tag))
						replies[ackPkt(n, uint64(tag), strVal(n)).key()]++
					}
					if joined[n] {
						log = append(log, sioEntry{Kind: "event", NSP: n, Name: "ev", Args: fmt.Sprintf("%d %x", tag, bs)}.String())
					}
					k.send(q)
					if seg >= 1 && seg <= 4 {
						bins[0] += o.Bins
						nsps[n] = true
					}
				}
			case "emit":
				if seg == 5 {
					continue
				}
				for i := 0; i < o.Rep; i++ {
					tag++
					tg := tag
					args := []interface{}{tg}
					vals := []Val{intVal(int64(tg))}
					for j := 0; j < o.Bins; j++ {
						v := Val{K: "bin", X: []byte(fmt.Sprint(tg, ".", j))}
						vals = append(vals, v)
						args = append(args, v.goArg(p.Msgp))
					}
					if o.Ack {
						args = append(args, func(v int) { called.add(fmt.Sprint(tg, " ", v)) })
						wantCalled = append(wantCalled, fmt.Sprint(tg, " ", tg))
					}
					events = append(events, evPkt(n, "out", vals...).key())
					so := socks[n]
					e.w.do(func() {
						if err := so.Emit("out", args...); err != nil {
							c.Errorf("emit to %s: %v", so.Namespace(), err)
						}
					})
					if seg >= 1 && seg <= 4 {
						bins[1] += o.Bins
						nsps[n] = true
					}
				}
			case "yield":
				yield(o.Rep)
			case "gate":
				g.shut()
			case "ungate":
				g.open()
			}
		}
	}
	run(0, p.Segs[0])
	k.upgrade(func(st int) { run(1+st, p.Segs[1+st]) })
	g.open()
	nrep := func() (n int) {
		for _, m := range replies {
			n += m
		}
		return
	}
	c.Reaches(func() bool { return len(k.events()) >= len(events) && e.w.idle() && k.w.idle() })
	// acknowledge everything
	for _, q := range k.events() {
		if q.ID != nil {
			tg, _ := genericInt(q.Args[1])
			k.send(ackPkt(q.NSP, *q.ID, intVal(tg)))
		}
	}
	c.Reaches(func() bool { return called.len() >= len(wantCalled) && k.w.idle() })
	run(5, p.Segs[5])
	g.open()
	c.Reaches(func() bool {
		return len(k.recv()) >= len(events)+nrep() && len(noErrors(e.entries())) >= len(log) && k.w.idle()
	})
	c.Quiet()
	if err := sameNotes(strs(noErrors(e.entries())), clip200(log)); err != nil {
		c.Failf("handlers: %v", err)
	}
	var got []string
	rep := map[string]int{}
	for _, q := range k.recv() {
		if q.Type == wire.SEvent {
			q.ID = nil
			got = append(got, q.key())
		} else {
			rep[q.key()]++
		}
	}
	if err := sameNotes(got, events); err != nil {
		c.Failf("events the client received: %v", err)
	}
	for key, n := range replies {
		if rep[key] != n {
			c.Failf("client received %d times %s, want %d", rep[key], key, n)
		}
		delete(rep, key)
	}
	for key, n := range rep {
		c.Failf("client received %d times %s, want none", n, key)
	}
	if err := sameNotes(called.all(), wantCalled); err != nil {
		c.Failf("ack callbacks: %v", err)
	}
	for n, so := range socks {
		if so.Sid() != k.sid || so.Namespace() != n {
			c.Failf("socket of %s now has namespace %s and id %s, want %s", n, so.Namespace(), so.Sid(), k.sid)
		}
	}
	if n := s.errors(); n != 0 {
		c.Failf("%d errors reported", n)
	}
	c.NonTrivialIf(bins[0] > 0 && bins[1] > 0 && len(nsps) > 1)
	c.LabelIf(len(wantCalled) > 0, "acks")
	c.LabelIf(p.Msgp, "msgpack")
}

func clip200(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		out[i] = s
	}
	return out
}

// genericInt is the integer a generic value holds.
func genericInt(v interface{}) (int64, bool) {
	var n int64
	_, err := fmt.Sscan(canon(v), &n)
	return n, err == nil
}
