package props

import (
	"fmt"
	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C22: what an ended session leaves behind ----

type c22Sess struct {
	WS    bool     `json:"ws,omitempty"`
	Up    bool     `json:"up,omitempty"`
	Enc   sim.Enc  `json:"enc,omitempty"`
	Gate  bool     `json:"gate,omitempty"`  // the message handler is still running when the session ends
	Post  int      `json:"post,omitempty"`  // messages of the last post (or frames): more than fit are blocked
	Poll  int      `json:"poll,omitempty"`  // polls in flight
	Emits int      `json:"emits,omitempty"` // emits of an application goroutine: more than fit are blocked
	Half  int      `json:"half"`            // stage of an upgrade attempt in progress (-1: none)
	Two   bool     `json:"two,omitempty"`   // another attempt at the same time
	Ref   []int    `json:"ref,omitempty"`   // upgrade attempts that fail before: see refused
	Ends  []string `json:"ends"`
	Cut   int      `json:"cut"` // the handshake response breaks off after so many bytes (-1: never)
}

type c22Plan struct {
	Short    int       `json:"short_ms,omitempty"` // ping interval and timeout, instead of for ever
	Sess     []c22Sess `json:"sess"`
	Keep     bool      `json:"keep,omitempty"`     // a further session outlives them
	SrvClose int       `json:"srvclose,omitempty"` // 1 before, 2 with, 3 after the endings
	New      int       `json:"new,omitempty"`      // handshakes while the server is closed
}

func genC22(short bool) func(t *rapid.T) c22Plan {
	return func(t *rapid.T) c22Plan {
		p := c22Plan{SrvClose: rapid.IntRange(0, 3).Draw(t, "srvclose"), New: rapid.IntRange(0, 3).Draw(t, "new")}
		ends := []string{"closepkt", "app", "app", "drop", "closeframe", "garbage", "inopen", "inmsg"}
		if short {
			p.Short = rapid.SampledFrom([]int{3, 10, 30}).Draw(t, "short")
			ends = append(ends, "silence", "silence", "silence", "silence", "app")
		} else {
			p.Keep = rapid.Bool().Draw(t, "keep")
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "sessions"); i < n; i++ {
			l := fmt.Sprint("s", i)
			s := c22Sess{WS: rapid.IntRange(0, 2).Draw(t, l+".ws") == 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, l+".enc")), Half: -1, Cut: -1}
			if s.WS && rapid.IntRange(0, 4).Draw(t, l+".broken") == 0 {
				s.Cut = rapid.IntRange(0, 300).Draw(t, l+".cut")
				p.Sess = append(p.Sess, s)
				continue
			}
			if !s.WS {
				switch rapid.IntRange(0, 3).Draw(t, l+".up") {
				case 0:
					s.Up = true
				case 1, 2:
					s.Half = rapid.IntRange(0, 4).Draw(t, l+".half")
					s.Two = rapid.IntRange(0, 3).Draw(t, l+".two") == 0
				}
			}
			if !s.WS {
				for j, m := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, l+".refs"); j < m; j++ {
					s.Ref = append(s.Ref, rapid.IntRange(0, 6).Draw(t, l+".ref"))
				}
			}
			s.Gate = rapid.Bool().Draw(t, l+".gate")
			s.Post = rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, l+".post")
			s.Poll = rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, l+".poll")
			s.Emits = rapid.SampledFrom([]int{0, 0, 3, 40}).Draw(t, l+".emits")
			for j, m := 0, rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, l+".ends"); j < m; j++ {
				s.Ends = append(s.Ends, rapid.SampledFrom(ends).Draw(t, l+".end"))
			}
			p.Sess = append(p.Sess, s)
		}
		return p
	}
}

func init() {
	kit.Add("C22", "endings", "a request was pending when its session ended, or the session ended during its handshake or an upgrade", 10000, 120000, genC22(false), runC22)
	kit.Add("C22", "silence", "a request was pending when its session ended, or the session ended during its handshake or an upgrade", 2400, 40000, genC22(true), runC22)
}

func runC22(c *kit.C, p c22Plan) {
	before := map[string]bool{}
	for _, g := range sim.LibGoroutines() {
		before[g.ID] = true // of earlier cases
	}
	period := long
	if p.Short > 0 {
		period = time.Duration(p.Short) * time.Millisecond
		old := sim.StuckAfter
		sim.StuckAfter = 3 * time.Second
		defer func() { sim.StuckAfter = old }()
	}
	s := newEngSrv(c, period, period)
	gate := make(chan struct{})
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	c.Defer(open)
	of := func(e *esess) *c22Sess {
		i, err := strconv.Atoi(e.Sock.GetHeader("X-Client"))
		if err != nil || i >= len(p.Sess) {
			return nil
		}
		return &p.Sess[i]
	}
	has := func(q *c22Sess, end string) bool {
		for _, x := range q.Ends {
			if x == end {
				return true
			}
		}
		return false
	}
	s.OnOpen = func(e *esess) {
		if q := of(e); q != nil && has(q, "inopen") {
			e.Sock.Close()
		}
	}
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		q := of(e)
		if q != nil && q.Gate && string(k.Data) == "gate" {
			<-gate
		}
		if string(k.Data) == "close" {
			e.Sock.Close()
		}
	}
	type cs struct {
		*peer
		q     c22Sess
		conns []*sim.WS
		calls []*sim.Call
		what  []string
	}
	var all []*cs
	var cuts []*sim.WS
	var keep *peer
	if p.Keep {
		keep = newPeer(c, s, len(p.Sess)%2 == 0, "10.0.9.9:1", nil, sim.XHR2)
		if keep.poll != nil {
			keep.poll.Run(-1)
		}
	}
	interesting := false
	for i, q := range p.Sess {
		id := strconv.Itoa(i)
		hdr := http.Header{"X-Client": {id}}
		addr := fmt.Sprintf("10.0.0.%d:1", i+1)
		if q.Cut >= 0 {
			interesting = true
			w := sim.DialWS(s.S, "EIO=3&transport=websocket", addr, hdr, func(cli, srv *sim.Conn) { srv.CutWritesAfter(q.Cut) })
			c.Defer(w.Close)
			cuts = append(cuts, w)
			continue
		}
		var sidOf func() string
		if has(&q, "inopen") || p.Short > 0 {
			sidOf = func() string { return s.byHeader("X-Client", id) }
		}
		if p.Short > 0 && q.WS {
			w := sim.DialWS(s.S, "EIO=3&transport=websocket", addr, hdr, nil)
			c.Defer(w.Close)
			c.Await(func() bool { return w.HSDone() && sidOf() != "" }, "open callback of a WebSocket session")
			l := &link{c: c, h: s.S, addr: addr, hdr: hdr, w: newWorker(), ws: w, onWS: true, sid: sidOf(), nochk: true}
			c.Defer(l.w.stop)
			all = append(all, &cs{peer: &peer{link: l, s: s, e: s.session(l.sid)}, q: q, conns: []*sim.WS{w}})
			continue
		}
		x := &cs{peer: newPeerMay(c, s, q.WS, addr, hdr, q.Enc, sidOf), q: q}
		if q.WS {
			x.conns = append(x.conns, x.ws)
		}
		all = append(all, x)
	}
	// the situation they end in
	for _, x := range all {
		q := x.q
		ended := has(&q, "inopen")
		interesting = interesting || ended
		x.lenient()
		if ended {
			continue
		}
		for _, ref := range q.Ref {
			ws := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+x.sid, x.addr, x.hdr, nil)
			c.Defer(ws.Close)
			c.Await(ws.HSDone, "answer to the handshake of an upgrade")
			x.conns = append(x.conns, ws)
			c.Label("failed upgrade")
			switch ref {
			case 0:
				ws.Send(wire.Pkt{Type: wire.EMessage, Data: []byte("early")})
			case 1:
				ws.Send(wire.Pkt{Type: wire.EPong, Data: []byte("probe")})
			case 2:
				ws.Send(wire.Pkt{Type: wire.EUpgrade})
			case 3:
				ws.Close()
			case 4:
				ws.CloseFrame()
			default:
				ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
				c.Await(func() bool { return ws.N() > 0 || ws.Ended() != nil }, "pong to the probe, or the end of the connection")
				if ref == 5 {
					ws.Send(wire.Pkt{Type: wire.EMessage, Data: []byte("early")})
				} else {
					ws.Close()
				}
				// the polling transport is in use again when it has ended
				c.Await(ws.Srv.Closed, "the end of the connection of a failed upgrade")
			}
		}
		if q.Up {
			if p.Short > 0 {
				k := &sioCli{link: x.link}
				if ws := k.halfUpgrade(4); ws != nil {
					x.conns = append(x.conns, ws)
					x.mu.Lock()
					x.ws, x.onWS = ws, true
					x.mu.Unlock()
				}
			} else {
				x.poll.Run(-1)
				x.upgrade(nil)
				x.conns = append(x.conns, x.ws)
				c.Await(func() bool { _, _, n := x.e.counts(); return n == 1 }, "upgrade event")
			}
		}
		if q.Emits > 0 {
			x.e.w.do(func() {
				for j := 0; j < q.Emits; j++ {
					if x.e.emit(Blob{Lit: []byte(fmt.Sprint("e", j))}) != nil {
						return
					}
				}
			})
			interesting = interesting || q.Emits > 20 && !x.onWS && q.Poll == 0
		}
		if x.poll != nil && !x.onWS {
			for j := 0; j < q.Poll; j++ {
				x.calls = append(x.calls, x.poll.Get())
				x.what = append(x.what, "a poll")
				interesting = true
			}
		}
		if q.Gate || q.Post > 0 {
			ms := []wire.Pkt{}
			if q.Gate {
				ms = append(ms, wire.Pkt{Type: wire.EMessage, Data: []byte("gate")})
			}
			for j := 0; j < q.Post; j++ {
				ms = append(ms, wire.Pkt{Type: wire.EMessage, Data: []byte(fmt.Sprint("m", j))})
			}
			if x.onWS {
				x.sendPkts(ms)
			} else {
				x.calls = append(x.calls, x.poll.Post(ms...))
				x.what = append(x.what, fmt.Sprintf("a post of %d messages", len(ms)))
				interesting = interesting || q.Gate
			}
		}
		if q.Half >= 0 {
			interesting = true
			n := 1
			if q.Two {
				n = 2
			}
			for j := 0; j < n; j++ {
				st := q.Half
				if j == 1 {
					st = min(st, 1) // only one attempt can get beyond the probe's answer
				}
				ws := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+x.sid, x.addr, x.hdr, nil)
				c.Defer(ws.Close)
				c.Await(ws.HSDone, "answer to the handshake of an upgrade")
				x.conns = append(x.conns, ws)
				if st >= 1 {
					ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
				}
				if st >= 2 {
					if p.Short == 0 {
						c.Await(func() bool { return ws.N() > 0 }, "pong to the probe")
					} else {
						c.Await(func() bool { return ws.N() > 0 || ws.Ended() != nil }, "pong to the probe, or the end of the connection")
					}
				}
				if st >= 3 {
					x.cross()
					ws.Send(wire.Pkt{Type: wire.EUpgrade})
				}
				if st >= 4 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
	}
	closeServer := func() {
		if err := s.S.Close(); err != nil {
			c.Errorf("Close of the server: %v", err)
		}
	}
	if p.SrvClose == 1 {
		closeServer()
	}
	var late []*sim.Call
	var lateWS []*sim.WS
	handshakes := func(n int) {
		for j := 0; j < n; j++ {
			if j%2 == 0 {
				late = append(late, sim.NewPoll(s.S, fmt.Sprintf("10.0.1.%d:1", j), nil, sim.XHR2).Get())
			} else {
				w := sim.DialWS(s.S, "EIO=3&transport=websocket", fmt.Sprintf("10.0.1.%d:1", j), nil, nil)
				c.Defer(w.Close)
				lateWS = append(lateWS, w)
			}
		}
	}
	// the endings, at once
	var ending atomic.Int64
	run := func(f func()) {
		ending.Add(1)
		go func() { defer ending.Add(-1); defer recoverSentinel(); f() }()
	}
	if p.SrvClose == 2 {
		handshakes(p.New)
		run(closeServer)
	}
	for _, x := range all {
		x, q := x, x.q
		ends := q.Ends
		sure := false // some ending ends the session without waiting for packets to be sent
		for _, e := range ends {
			sure = sure || e != "app" && e != "silence" && e != "inmsg"
		}
		if p.Short == 0 && !sure && (q.Emits > 0 && !x.onWS || q.Half >= 0) {
			ends = append(append([]string{}, ends...), "closepkt")
		}
		x.mu.Lock()
		on := x.onWS
		x.mu.Unlock()
		ws := x.ws
		close := func() {
			if on {
				ws.Send(wire.Pkt{Type: wire.EClose})
				return
			}
			x.calls = append(x.calls, x.poll.Post(wire.Pkt{Type: wire.EClose}))
			x.what = append(x.what, "the post of a close packet")
		}
		if q.Half >= 3 && p.Short == 0 && len(x.conns) > 0 { // nobody can tell which transport counts
			w := x.conns[len(x.conns)-1]
			if q.Two {
				w = x.conns[len(x.conns)-2]
			}
			run(func() { w.Send(wire.Pkt{Type: wire.EClose}) })
		}
		for _, end := range ends {
			if !on && (end == "drop" || end == "closeframe" || end == "garbage") {
				end = "closepkt"
			}
			switch end {
			case "closepkt":
				close()
				if q.Half >= 1 && p.Short == 0 { // the attempt may have to give up before
					w := x.conns
					run(func() {
						time.Sleep(20 * time.Microsecond)
						for _, w := range w {
							w.Close()
						}
					})
				}
			case "app":
				run(func() { x.e.Sock.Close() })
			case "drop":
				run(ws.Close)
			case "closeframe":
				run(ws.CloseFrame)
			case "garbage":
				run(func() { ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4}) })
			case "inmsg":
				if p.Short == 0 && x.poll != nil {
					x.poll.Run(-1) // a close in a handler waits for what is to be sent
				}
				if on {
					x.sendPkts([]wire.Pkt{{Type: wire.EMessage, Data: []byte("close")}})
				} else {
					x.calls = append(x.calls, x.poll.Post(wire.Pkt{Type: wire.EMessage, Data: []byte("close")}))
					x.what = append(x.what, "a post")
				}
			}
		}
	}
	yield(20)
	open()
	over := func() bool {
		for _, x := range all {
			if !x.e.Closed() || !x.e.w.idle() {
				return false
			}
			for _, k := range x.calls {
				if !k.Done() {
					return false
				}
			}
			for _, w := range x.conns {
				if !w.Srv.Closed() {
					return false
				}
			}
		}
		return ending.Load() == 0
	}
	c.Reaches(over)
	c.Quiet()
	for i, x := range all {
		where := fmt.Sprintf("session %d (endings %v)", i, x.q.Ends)
		if !x.e.Closed() {
			c.Failf("%s never ends", where)
		}
		for j, k := range x.calls {
			if !k.Done() {
				c.Failf("%s has ended, but %s is still not answered", where, x.what[j])
			}
			noPanic(c, k)
		}
		for j, w := range x.conns {
			if !w.Srv.Closed() {
				c.Failf("%s has ended, but connection %d of it is open", where, j)
			}
		}
		if !x.e.w.idle() {
			c.Failf("%s has ended, but an emit does not return", where)
		}
	}
	if ending.Load() > 0 {
		c.Failf("closing a session or the server does not return")
	}
	// its id is unknown
	for i, x := range all {
		where := fmt.Sprintf("session %d has ended (endings %v)", i, x.q.Ends)
		pc := sim.NewPoll(s.S, x.addr, x.hdr, sim.XHR2)
		pc.Sid = x.sid
		get, post := pc.Get(), pc.Post(wire.Pkt{Type: wire.EMessage, Data: []byte("late")})
		w := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+x.sid, x.addr, x.hdr, nil)
		c.Defer(w.Close)
		c.Await(func() bool { return get.Done() && post.Done() && w.HSDone() }, "answers to requests that name the id of an ended session")
		for _, k := range []*sim.Call{get, post} {
			noPanic(c, k)
			if code, _, body := k.Result(); code < 400 || code > 499 {
				c.Failf("%s: a %s request naming it was answered %d %q", where, k.Req.Method, code, body)
			}
		}
		if _, err := w.Handshaken(); err == nil {
			c.Failf("%s: a WebSocket request naming it was accepted", where)
		}
		if st := w.Status(); st < 400 || st > 499 {
			c.Failf("%s: a WebSocket request naming it was answered %d", where, st)
		}
	}
	if keep != nil {
		keep.exchange("the session that stays")
	}
	if p.SrvClose == 3 {
		closeServer()
	}
	if p.SrvClose > 0 {
		n := len(s.sessions())
		was := len(late) + len(lateWS)
		c.Reaches(func() bool {
			for _, k := range late {
				if !k.Done() {
					return false
				}
			}
			for _, w := range lateWS {
				if !w.HSDone() || w.Status() == 101 && w.N() == 0 && w.Ended() == nil {
					return false
				}
			}
			return true
		})
		c.Quiet()
		for _, k := range late {
			if !k.Done() {
				c.Failf("a handshake made while the server was closed is never answered")
			}
			noPanic(c, k)
		}
		n = len(s.sessions())
		first := len(late)
		firstWS := len(lateWS)
		handshakes(2 + p.New)
		if p.SrvClose == 1 && was > 0 {
			c.Broken("handshakes before the time")
		}
		c.Await(func() bool {
			for _, k := range late[first:] {
				if !k.Done() {
					return false
				}
			}
			for _, w := range lateWS[firstWS:] {
				if !w.HSDone() {
					return false
				}
			}
			return true
		}, "answers to handshakes of a closed server")
		c.Quiet()
		for _, k := range late[first:] {
			if code, _, body := k.Result(); code < 400 {
				c.Failf("a closed server answered a polling handshake with %d %q", code, body)
			}
		}
		for _, w := range lateWS[firstWS:] {
			if _, err := w.Handshaken(); err == nil || w.Status() < 400 {
				c.Failf("a closed server accepted a WebSocket handshake (status %d)", w.Status())
			}
		}
		if m := len(s.sessions()); m != n {
			c.Failf("a closed server opened %d sessions", m-n)
		}
	}
	// the sessions that are left end, too
	for _, e := range s.sessions() {
		if !e.Closed() {
			if keep == nil || e != keep.e {
				e := e
				run(func() { e.Sock.Close() })
			}
		}
	}
	if keep != nil {
		keep.lenient()
		keep.sendPkts([]wire.Pkt{{Type: wire.EClose}})
	}
	gone := func() (left []sim.Goroutine) {
		for _, g := range sim.LibGoroutines() {
			if !before[g.ID] {
				left = append(left, g)
			}
		}
		return
	}
	c.Reaches(func() bool {
		for _, e := range s.sessions() {
			if !e.Closed() {
				return false
			}
		}
		for _, w := range cuts {
			if !w.Srv.Closed() {
				return false
			}
		}
		return ending.Load() == 0 && len(gone()) == 0
	})
	c.Quiet()
	for _, w := range cuts {
		if !w.Srv.Closed() {
			c.Failf("the connection of a broken handshake stays open")
		}
	}
	if g := gone(); len(g) > 0 {
		c.Failf("all sessions have ended, but %d goroutines are left, for example\n%s", len(g), g[0].Stack)
	}
	c.NonTrivialIf(interesting)
	c.LabelIf(p.SrvClose > 0, "server closed")
	for _, x := range all {
		c.LabelIf(x.q.Half >= 0, "upgrade in progress")
		c.LabelIf(x.q.Half >= 2, "upgrade in progress, polling paused")
		c.LabelIf(x.q.Gate && x.q.Post > 8 && !x.q.WS && !x.q.Up, "blocked post")
	}
}
