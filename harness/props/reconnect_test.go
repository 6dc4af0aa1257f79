package props

import (
	"fmt"
	"sort"
	"sync"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C20: a client dialed again while the end of its last session is not yet processed: its
// application reconnects at once, from a handler, or while a handler is still busy

type c20Link struct {
	Poll bool   `json:"poll,omitempty"`
	Join []int  `json:"join"`
	Evs  int    `json:"evs,omitempty"`
	Held bool   `json:"held,omitempty"` // the last event's handler is held until the next session works
	End  string `json:"end"`            // app, drop, close
	When string `json:"when"`           // once: as soon as the end is under way; leave: in a disconnect handler; event: in an event handler, which closes the client itself
}

type c20Chain struct {
	Msgp  bool      `json:"msgp,omitempty"`
	Links []c20Link `json:"links"`
}

func init() {
	kit.Add("C20", "reconnect", "a session that joined a namespace ends after, or while, the next one is dialed", 1600, 30000, func(t *rapid.T) c20Chain {
		p := c20Chain{Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0}
		for i, n := 0, rapid.IntRange(2, 4).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("l", i)
			x := c20Link{Poll: rapid.IntRange(0, 4).Draw(t, l+".poll") == 0, Evs: rapid.IntRange(0, 3).Draw(t, l+".evs")}
			x.Join = rapid.SliceOfNDistinct(rapid.IntRange(0, 2), 0, 3, func(i int) int { return i }).Draw(t, l+".join")
			x.When = rapid.SampledFrom([]string{"once", "leave", "event"}).Draw(t, l+".when")
			x.Held = rapid.Bool().Draw(t, l+".held")
			x.End = rapid.SampledFrom([]string{"app", "app", "close", "drop"}).Draw(t, l+".end")
			if len(x.Join) == 0 {
				x.Evs, x.When = 0, "once"
			}
			switch x.When {
			case "event":
				x.Held, x.End = false, "app"
			case "leave":
				x.Held = false
			}
			if x.Held = x.Held && x.Evs > 0; !x.Held && x.When == "once" || x.Poll && x.End == "drop" {
				x.End = "app"
			}
			p.Links = append(p.Links, x)
		}
		return p
	}, runC20Reconnect)
}

func runC20Reconnect(c *kit.C, p c20Chain) {
	C := socketio.NewClient()
	log, called := &notes{}, &notes{}
	var mu sync.Mutex
	socks := map[string]socketio.Socket{}
	onLeave, onEvent := map[string]func(){}, map[string]func(){} // by session id, each run once
	take := func(m map[string]func(), k string) func() {
		mu.Lock()
		defer mu.Unlock()
		f := m[k]
		delete(m, k)
		return f
	}
	for _, n := range c20NSPs[:3] {
		n := n
		ns := C.Namespace(n)
		ns.OnConnect(func(so socketio.Socket) {
			mu.Lock()
			socks[so.Sid()+n] = so
			mu.Unlock()
			log.add("connect " + n + " of " + so.Sid())
		})
		ns.OnDisconnect(func(so socketio.Socket) {
			log.add("disconnect " + n + " of " + so.Sid())
			if so.Emit("bye", 1) == nil {
				c.Errorf("an emit in the disconnect handler of %s of %s returned no error", n, so.Sid())
			}
			if f := take(onLeave, so.Sid()); f != nil {
				f()
			}
		})
		ns.OnEvent("x", func(so socketio.Socket, tag string) string {
			log.add("event " + tag + " in " + n + " of " + so.Sid())
			if f := take(onEvent, tag); f != nil {
				f()
			}
			return tag
		})
	}
	type session struct {
		k    *sioCli
		d    *oneConn
		want []string // packets of the client
		log  []string // of its handlers
	}
	var ss []*session
	for i, x := range p.Links {
		k, conn := newFake(c, p.Msgp, x.Poll)
		k.raw(openPkt(fmt.Sprint("s", i), 3600000, 3600000))
		ss = append(ss, &session{k: k, d: &oneConn{conn: conn}})
	}
	dials := make(chan int, len(ss)) // sessions whose Dial has returned
	dial := func(i int) {
		if err := C.Dial("ws://h/", nil, ss[i].d, parserOf(p.Msgp)); err != nil {
			c.Errorf("Dial %d: %v", i, err)
		}
		dials <- i
	}
	// of what the handlers did, the part that belongs to session i, in order
	of := func(i int) (out []string) {
		suffix := fmt.Sprint(" of s", i)
		for _, s := range log.all() {
			if len(s) > len(suffix) && s[len(s)-len(suffix):] == suffix {
				out = append(out, s)
			}
		}
		return
	}
	settle := func(i int, when string) {
		s := ss[i]
		c.Reaches(func() bool { return len(of(i)) >= len(s.log) && len(s.k.recv()) >= len(s.want) && s.k.w.idle() })
		c.Quiet()
		if err := sameNotes(of(i), s.log); err != nil {
			c.Failf("session %d, %s: handlers: %v", i, when, err)
		}
		var got []string
		for _, q := range s.k.recv() {
			if q.Type == wire.SEvent {
				q.ID = nil
			}
			got = append(got, q.key())
		}
		if err := sameNotes(got, s.want); err != nil {
			c.Failf("session %d, %s: packets of the client: %v", i, when, err)
		}
		c.Check()
	}
	tag := 0
	ask := func(i int, n string) {
		s := ss[i]
		tag++
		tg, before := fmt.Sprint("t", tag), called.len()
		if err := C.Emit(n, "ask", tg, func(so socketio.Socket, a string) { called.add(tg + so.Sid() + n + a) }); err != nil {
			c.Failf("session %d: emit to %s: %v", i, n, err)
		}
		s.want = append(s.want, evPkt(n, "ask", strVal(tg)).key())
		settle(i, "emit")
		evs := s.k.events()
		q := evs[len(evs)-1]
		if q.ID == nil {
			c.Failf("session %d: an emit with a callback has no ack id", i)
		}
		s.k.send(ackPkt(n, *q.ID, strVal("re")))
		c.Await(func() bool { return called.len() > before }, "callback of the ack in session %d", i)
		if got, want := called.all()[before], fmt.Sprint(tg, "s", i, n, "re"); got != want {
			c.Failf("session %d: ack callback run with %s, not %s", i, got, want)
		}
	}
	event := func(i int, n string, answered bool) string {
		tag++
		tg := fmt.Sprint("t", tag)
		ss[i].log = append(ss[i].log, fmt.Sprint("event ", tg, " in ", n, " of s", i))
		if answered {
			ss[i].want = append(ss[i].want, ackPkt(n, uint64(tag), strVal(tg)).key())
		}
		return tg
	}
	deliver := func(i int, n, tg string) { ss[i].k.send(evPkt(n, "x", strVal(tg)).withID(uint64(tag))) }
	overlaps := false
	var release []func() // handlers of earlier sessions that are held
	c.Defer(func() {
		for _, f := range release {
			f()
		}
	})
	go dial(0)
	for i, x := range p.Links {
		s := ss[i]
		c.Await(func() bool { return len(dials) > 0 }, "return of Dial %d", i)
		<-dials
		c.Check()
		if got := C.Sid(); got != fmt.Sprint("s", i) {
			c.Failf("the session id after Dial %d is %q", i, got)
		}
		joined := map[string]bool{}
		for _, n := range c20NSPs {
			if C.Emit(n, "early", i) == nil {
				c.Failf("session %d: an emit to %s, which is not joined, returned no error", i, n)
			}
		}
		for _, j := range x.Join {
			n := c20NSPs[j]
			joined[n] = true
			s.k.send(SP{Type: wire.SConnect, NSP: n})
			s.log = append(s.log, fmt.Sprint("connect ", n, " of s", i))
		}
		settle(i, "joined")
		for e := 0; e < x.Evs; e++ {
			n := c20NSPs[x.Join[e%len(x.Join)]]
			held := x.Held && e == x.Evs-1 && i+1 < len(ss)
			tg := event(i, n, !held)
			if held {
				gate := make(chan struct{})
				var once sync.Once
				release = append(release, func() { once.Do(func() { close(gate) }) })
				mu.Lock()
				onEvent[tg] = func() { <-gate }
				mu.Unlock()
			}
			deliver(i, n, tg)
		}
		settle(i, "events")
		for _, j := range x.Join {
			if !(x.Held && i+1 < len(ss)) { // a held handler holds the acks as well
				ask(i, c20NSPs[j])
			}
		}
		// the end of the session before this one is processed now, if it was not before
		if i > 0 {
			prev, px := ss[i-1], p.Links[i-1]
			if px.Held && len(release) > 0 {
				r := release[0]
				release = release[1:]
				r()
			}
			checkEnd(c, of, i-1, prev.log, px.Join)
			if got := fmt.Sprint("s", i); C.Sid() != got {
				c.Failf("the session id of session %d changed to %q when the one before it ended", i, C.Sid())
			}
			for _, j := range px.Join {
				mu.Lock()
				so := socks[fmt.Sprint("s", i-1, c20NSPs[j])]
				mu.Unlock()
				if so.Emit("stale", 1) == nil {
					c.Failf("an emit on a socket of session %d, which has ended, returned no error", i-1)
				}
			}
			settle(i, "after the end of the one before")
			if !(x.Held && i+1 < len(ss)) {
				for _, j := range x.Join {
					n := c20NSPs[j]
					ask(i, n)
					deliver(i, n, event(i, n, true))
					settle(i, "still works")
				}
			} else {
				for _, j := range x.Join {
					if err := C.Emit(c20NSPs[j], "still", i); err != nil {
						c.Failf("session %d: emit after the end of the one before it: %v", i, err)
					}
					s.want = append(s.want, evPkt(c20NSPs[j], "still", intVal(int64(i))).key())
					settle(i, "still emits")
				}
			}
			if len(px.Join) > 0 && (px.Held || px.When != "once") {
				overlaps = true
				c.Label("overlap: " + px.When)
			}
		}
		s.k.lenient()
		if i+1 == len(ss) {
			fin := make(chan struct{})
			go func() { C.Close(); close(fin) }()
			c.Await(func() bool {
				select {
				case <-fin:
					return true
				default:
					return false
				}
			}, "return of Close")
			checkEnd(c, of, i, s.log, x.Join)
			break
		}
		i := i
		switch x.When {
		case "leave":
			mu.Lock()
			onLeave[fmt.Sprint("s", i)] = func() { dial(i + 1) }
			mu.Unlock()
		case "event":
			n := c20NSPs[x.Join[0]]
			tg := event(i, n, false)
			mu.Lock()
			onEvent[tg] = func() { C.Close(); dial(i + 1) }
			mu.Unlock()
			deliver(i, n, tg)
			continue
		}
		switch x.End {
		case "app":
			if x.When == "once" {
				go func() { C.Close(); dial(i + 1) }()
				continue
			}
			C.Close()
		case "close":
			if x.Held { // an event that is processed when the next session is there
				n := c20NSPs[x.Join[0]]
				deliver(i, n, event(i, n, false))
			}
			s.k.raw(wire.Pkt{Type: wire.EClose})
		case "drop":
			s.k.ws.Close()
		}
		if x.When == "once" {
			go dial(i + 1)
		}
	}
	c.Quiet()
	for i := range ss {
		checkEnd(c, of, i, ss[i].log, p.Links[i].Join)
	}
	for _, g := range sim.LibGoroutines() {
		c.Failf("goroutine left behind by the client:\n%s", g.Stack)
	}
	c.NonTrivialIf(overlaps)
}

// checkEnd waits for the end of session i: after what it did before, the disconnect handler of every
// namespace it had joined runs, once.
func checkEnd(c *kit.C, of func(int) []string, i int, log []string, join []int) {
	c.Reaches(func() bool { return len(of(i)) >= len(log)+len(join) })
	c.Quiet()
	got := of(i)
	var want []string
	for _, j := range join {
		want = append(want, fmt.Sprint("disconnect ", c20NSPs[j], " of s", i))
	}
	sort.Strings(want)
	if len(got) > len(log) {
		sort.Strings(got[len(log):])
	}
	if err := sameNotes(got, append(log[:len(log):len(log)], want...)); err != nil {
		c.Failf("session %d: handlers, at its end: %v", i, err)
	}
	c.Check()
}
