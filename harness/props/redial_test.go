package props

import (
	"errors"
	"fmt"
	"sort"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C20: a client dialed again after its session has ended

type c20Life struct {
	Msgp  bool   `json:"msgp,omitempty"`
	Poll  bool   `json:"poll,omitempty"`
	Fail  string `json:"fail,omitempty"` // how the handshake fails
	Join  []int  `json:"join,omitempty"`
	Leave int    `json:"leave,omitempty"`
	Evs   []int  `json:"evs,omitempty"` // namespaces the server sends an event to
	Ask   int    `json:"ask,omitempty"` // emits with a callback
	Reply int    `json:"reply,omitempty"`
	Part  bool   `json:"part,omitempty"` // an incomplete packet at the end
	End   string `json:"end,omitempty"`
}

type c20Redial struct {
	Lives []c20Life `json:"lives"`
}

func init() {
	kit.Add("C20", "redial", "at least two sessions of one client that join a namespace", 4000, 60000, func(t *rapid.T) c20Redial {
		var p c20Redial
		for i, n := 0, rapid.IntRange(2, 4).Draw(t, "lives"); i < n; i++ {
			l := fmt.Sprint("l", i)
			x := c20Life{Msgp: rapid.IntRange(0, 2).Draw(t, l+".msgp") == 0, Poll: rapid.IntRange(0, 3).Draw(t, l+".poll") == 0}
			if rapid.IntRange(0, 4).Draw(t, l+".fails") == 0 {
				x.Fail = rapid.SampledFrom([]string{"dialerr", "other", "badjson"}).Draw(t, l+".fail")
				p.Lives = append(p.Lives, x)
				continue
			}
			x.Join = rapid.SliceOfNDistinct(rapid.IntRange(0, 2), 0, 3, func(i int) int { return i }).Draw(t, l+".join")
			x.Leave = rapid.IntRange(0, len(x.Join)).Draw(t, l+".leave")
			x.Evs = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 5).Draw(t, l+".evs")
			x.Ask = rapid.IntRange(0, 2).Draw(t, l+".ask")
			x.Reply = rapid.IntRange(0, x.Ask).Draw(t, l+".reply")
			x.Part = rapid.IntRange(0, 2).Draw(t, l+".part") == 0
			ends := []string{"close", "app"}
			if !x.Poll {
				ends = append(ends, "drop", "closeframe", "garbage")
			}
			x.End = rapid.SampledFrom(ends).Draw(t, l+".end")
			p.Lives = append(p.Lives, x)
		}
		return p
	}, runC20Redial)
}

func runC20Redial(c *kit.C, p c20Redial) {
	r := newRec(c, false)
	var log []string
	var stale []socketio.Socket
	called := &notes{}
	var wantCalled []string
	seen, lives := 0, 0
	tag := 0
	for i, x := range p.Lives {
		k, conn := newFake(c, x.Msgp, x.Poll)
		d := &oneConn{conn: conn}
		if x.Fail != "" {
			k.lenient()
		}
		switch x.Fail {
		case "dialerr":
			d.err = errors.New("no route")
		case "other":
			k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("0")})
		case "badjson":
			k.raw(wire.Pkt{Type: wire.EOpen, Data: []byte("{")})
		default:
			k.raw(openPkt(fmt.Sprint("sid", i), 3600000, 3600000))
		}
		done := make(chan error, 1)
		go func() { done <- r.C.Dial("ws://h/", nil, d, parserOf(x.Msgp)) }()
		c.Await(func() bool { return len(done) > 0 }, "return of Dial %d", i)
		if err := <-done; (err == nil) != (x.Fail == "") {
			c.Failf("Dial %d (%s): %v", i, x.Fail, err)
		}
		if x.Fail == "dialerr" {
			conn.Close()
		}
		if x.Fail != "" {
			continue
		}
		if r.C.Sid() != fmt.Sprint("sid", i) {
			c.Failf("session id after Dial %d is %q", i, r.C.Sid())
		}
		joined := map[string]bool{}
		var want []string // packets of this session
		settle := func(when string) {
			c.Reaches(func() bool {
				return len(r.entries()) >= len(log) && len(k.recv()) >= len(want) && k.w.idle()
			})
			c.Quiet()
			got := strs(r.entries())
			if err := sameNotes(got, log); err != nil {
				c.Failf("session %d, %s: handlers: %v", i, when, err)
			}
			var ps []string
			for _, q := range k.recv() {
				if q.Type == wire.SEvent {
					q.ID = nil
				}
				ps = append(ps, q.key())
			}
			w := append([]string{}, want...)
			sort.Strings(ps)
			sort.Strings(w)
			if err := sameNotes(ps, w); err != nil {
				c.Failf("session %d, %s: packets of the client: %v", i, when, err)
			}
			c.Check()
		}
		// before any namespace is joined, and whatever has been joined in earlier sessions
		for _, n := range c20NSPs {
			if r.C.Emit(n, "early", i) == nil {
				c.Failf("session %d: an emit to %s, which is not joined, returned no error", i, n)
			}
		}
		for j, so := range stale {
			for try := 0; try < 3; try++ {
				if so.Emit("stale", j) == nil {
					c.Failf("session %d: an emit on the socket of an ended session returned no error", i)
				}
			}
			if so.Sid() == r.C.Sid() {
				c.Failf("session %d: the socket of an ended session changed its id", i)
			}
		}
		for _, j := range x.Join {
			n := c20NSPs[j]
			k.send(SP{Type: wire.SConnect, NSP: n})
			joined[n] = true
			log = append(log, "connect "+n)
			want = append(want, evPkt(n, "joined", intVal(1)).key())
		}
		settle("joined")
		for _, j := range x.Join[:x.Leave] {
			n := c20NSPs[j]
			stale = append(stale, r.socket(n))
			k.send(SP{Type: wire.SDisconnect, NSP: n})
			delete(joined, n)
			log = append(log, "disconnect "+n)
		}
		for _, j := range x.Evs {
			n := c20NSPs[j]
			tag++
			k.send(evPkt(n, "y", intVal(int64(tag))).withID(uint64(tag)))
			if joined[n] {
				log = append(log, fmt.Sprintf("event %s y(%d)", n, tag))
				want = append(want, ackPkt(n, uint64(tag), strVal(n+"y")).key())
			}
		}
		settle("events")
		for n := range joined {
			for a := 0; a < x.Ask; a++ {
				tag++
				tg := tag
				if err := r.C.Emit(n, "ask", tg, func(so socketio.Socket, s string) { called.add(fmt.Sprint(tg, so.Sid(), so.Namespace(), s)) }); err != nil {
					c.Failf("emit: %v", err)
				}
				want = append(want, evPkt(n, "ask", intVal(int64(tg))).key())
				find := func() *uint64 {
					for _, q := range k.events() {
						if q.ID != nil && len(q.Args) > 1 && canon(q.Args[1]) == fmt.Sprint(tg) {
							return q.ID
						}
					}
					return nil
				}
				c.Await(func() bool { return find() != nil }, "event %d with an ack id", tg)
				if a < x.Reply {
					k.send(ackPkt(n, *find(), strVal("re")))
					wantCalled = append(wantCalled, fmt.Sprint(tg, r.C.Sid(), n, "re"))
					c.Await(func() bool { return called.len() >= len(wantCalled) }, "ack callback")
				}
			}
		}
		settle("asks")
		if x.Part && !x.Msgp {
			k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte(`51-["y",{"_placeholder":true,"num":0}]`)})
			c.Quiet()
		}
		for n := range joined {
			stale = append(stale, r.socket(n))
		}
		k.lenient()
		switch x.End {
		case "close":
			k.raw(wire.Pkt{Type: wire.EClose})
		case "drop":
			k.ws.Close()
		case "closeframe":
			k.ws.CloseFrame()
		case "garbage":
			k.ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4})
		case "app":
			go r.C.Close()
		}
		c.Reaches(func() bool { return len(r.entries()) >= len(log)+len(joined) })
		c.Quiet()
		tail := strs(r.entries())
		if len(tail) < len(log) {
			c.Failf("session %d: handler runs vanished", i)
		}
		tail = append([]string(nil), tail[len(log):]...)
		sort.Strings(tail)
		var still []string
		for n := range joined {
			still = append(still, "disconnect "+n)
		}
		sort.Strings(still)
		if err := sameNotes(tail, still); err != nil {
			c.Failf("session %d: handlers at the end (%s): %v", i, x.End, err)
		}
		log = strs(r.entries())
		if len(x.Join) > 0 {
			lives++
		}
		seen++
		c.Label("end: " + x.End)
		if !x.Poll && !k.ws.Srv.Closed() {
			c.Reaches(func() bool { return k.ws.Srv.Closed() })
			if !k.ws.Srv.Closed() {
				c.Failf("session %d: the client's connection stays open after the end (%s)", i, x.End)
			}
		}
	}
	if err := sameNotes(called.all(), wantCalled); err != nil {
		c.Failf("ack callbacks: %v", err)
	}
	if seen > 0 {
		fin := make(chan struct{})
		go func() { r.C.Close(); close(fin) }()
		c.Await(func() bool {
			select {
			case <-fin:
				return true
			default:
				return false
			}
		}, "return of Close after the end")
	}
	c.Quiet()
	for _, g := range sim.LibGoroutines() {
		c.Failf("goroutine left behind by the client:\n%s", g.Stack)
	}
	c.NonTrivialIf(lives > 1)
}
