package props

import (
	"fmt"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C18: concurrent use (run under the race detector) ----

// c18Act is what an application goroutine does, or (K: ev, evack, evbin, ack, ping, join,
// leave, bad) what the client does.
type c18Act struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"` // namespace
	M int    `json:"m,omitempty"` // repetitions
}

type c18Sess struct {
	WS  bool       `json:"ws,omitempty"`
	Enc sim.Enc    `json:"enc,omitempty"`
	Up  bool       `json:"up,omitempty"`
	St  int        `json:"st,omitempty"` // stage of the upgrade at which a session ends
	G   [][]c18Act `json:"g"`
	Cli []c18Act   `json:"cli"`
	End []string   `json:"end,omitempty"` // at once; none: the session survives
}

type c18Plan struct {
	Msgp     bool      `json:"msgp,omitempty"`
	Sess     []c18Sess `json:"sess"`
	New      int       `json:"new,omitempty"` // handshakes meanwhile
	SrvClose int       `json:"srvclose,omitempty"`
	Spawn    int       `json:"spawn,omitempty"` // emits of a goroutine each handler starts
}

var c18NSPs = []string{"/", "/a", "/b"}

func genC18(app, cli, ends []string, mostSess int) func(t *rapid.T) c18Plan {
	return func(t *rapid.T) c18Plan {
		p := c18Plan{Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0, New: rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "new"),
			SrvClose: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "srvclose"), Spawn: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "spawn")}
		acts := func(l string, from []string, most int) (out []c18Act) {
			for i, n := 0, rapid.IntRange(1, most).Draw(t, l+".n"); i < n; i++ {
				out = append(out, c18Act{K: rapid.SampledFrom(from).Draw(t, l+".k"), N: rapid.IntRange(0, 2).Draw(t, l+".nsp"), M: rapid.SampledFrom([]int{1, 1, 2, 8}).Draw(t, l+".m")})
			}
			return
		}
		for i, n := 0, rapid.IntRange(1, mostSess).Draw(t, "sessions"); i < n; i++ {
			l := fmt.Sprint("s", i)
			s := c18Sess{WS: rapid.Bool().Draw(t, l+".ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, l+".enc")), St: rapid.IntRange(0, 4).Draw(t, l+".st")}
			s.Up = !s.WS && rapid.Bool().Draw(t, l+".up")
			for g, m := 0, rapid.IntRange(1, 4).Draw(t, l+".g"); g < m; g++ {
				s.G = append(s.G, acts(fmt.Sprint(l, "g", g), app, 6))
			}
			s.Cli = acts(l+".cli", cli, 8)
			for j, m := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, l+".ends"); j < m; j++ {
				s.End = append(s.End, rapid.SampledFrom(ends).Draw(t, l+".end"))
			}
			p.Sess = append(p.Sess, s)
		}
		return p
	}
}

// group counts goroutines of the harness; Wait would hide what blocks them.
type group struct {
	left  atomic.Int64
	start chan struct{}
}

func newGroup() *group { return &group{start: make(chan struct{})} }

func (g *group) run(f func()) {
	g.left.Add(1)
	go func() {
		defer g.left.Add(-1)
		defer recoverSentinel()
		<-g.start
		f()
	}()
}

func (g *group) done() bool { return g.left.Load() == 0 }

// tally counts messages by tag.
type tally struct {
	mu sync.Mutex
	m  map[string]int
}

func (t *tally) add(s string) {
	t.mu.Lock()
	if t.m == nil {
		t.m = map[string]int{}
	}
	t.m[s]++
	t.mu.Unlock()
}

func (t *tally) total() (n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, v := range t.m {
		n += v
	}
	return
}

func (t *tally) same(o *tally) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	o.mu.Lock()
	defer o.mu.Unlock()
	for k, v := range t.m {
		if o.m[k] != v {
			return fmt.Errorf("%s: %d times, want %d", k, v, o.m[k])
		}
	}
	for k, v := range o.m {
		if t.m[k] != v {
			return fmt.Errorf("%s: %d times, want %d", k, t.m[k], v)
		}
	}
	return nil
}

// useAddr reads everything a socket tells about itself.
func useAddr(c *kit.C, so interface {
	Sid() string
}, sid string) {
	if so.Sid() != sid {
		c.Errorf("a socket's session id is %q, want %q", so.Sid(), sid)
	}
}

func init() {
	kit.Add("C18", "sockets", "at least two goroutines use one session while it is upgraded or ended, or while acks arrive", 10000, 100000,
		genC18([]string{"emit", "emit", "emitcb", "emitbin", "err", "hdrset", "hdrget", "addr", "all", "yield"},
			[]string{"ev", "ev", "evack", "evbin", "ack", "ack", "ping", "rejoin", "bad", "yield"},
			[]string{"app", "app", "appns", "closepkt", "drop", "evclose", "midupgrade"}, 3), runC18)
	kit.Add("C18", "engine", "at least two goroutines use one session while it is upgraded, polled twice at once or ended", 8000, 80000,
		genC18([]string{"emit", "emit", "emitbin", "ping", "hdrset", "hdrget", "addr", "all", "yield"},
			[]string{"ev", "ev", "evbin", "ping", "post2", "poll2", "yield"},
			[]string{"app", "app", "closepkt", "drop", "evclose", "midupgrade"}, 3), runC18Engine)
	kit.Add("C18", "client", "at least two goroutines use one client while acks arrive or while it is closed", 8000, 80000,
		genC18([]string{"emit", "emit", "emitcb", "emitbin", "err", "hdrset", "hdrget", "addr", "all", "yield"},
			[]string{"ev", "ev", "evack", "evbin", "ack", "ack", "rejoin", "bad", "yield"},
			[]string{"app", "appns", "closepkt", "drop", "evclose"}, 2), runC18Client)
}

// acker acknowledges what the client received; only from the client's worker.
type acker struct {
	k    *sioCli
	done int
}

func (a *acker) run() {
	yield(30)
	var out []wire.Pkt
	got := a.k.recv()
	for ; a.done < len(got); a.done++ {
		q := got[a.done]
		if q.Type == wire.SEvent && q.ID != nil {
			for _, f := range ackPkt(q.NSP, *q.ID, intVal(7)).frames(a.k.msgp) {
				out = append(out, wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
			}
		}
	}
	if len(out) > 0 {
		a.k.sendNow(out)
	}
}

// c18Emit makes one emit of an application goroutine; it reports what was sent.
func c18Emit(so socketio.Socket, msgp bool, kind, tag string, called *atomic.Int64) error {
	switch kind {
	case "emitcb":
		return so.Emit("out", tag, func(n int) { called.Add(1) })
	case "emitbin":
		if msgp {
			return so.Emit("out", tag, []byte("bin"), []byte(tag))
		}
		return so.Emit("out", tag, &socketio.Bytes{Data: []byte("bin")}, &socketio.Bytes{Data: []byte(tag)})
	}
	return so.Emit("out", tag)
}

func outTags(k *sioCli) *tally {
	t := &tally{}
	for _, q := range k.recv() {
		if q.Type == wire.SEvent && len(q.Args) > 1 {
			tag, _ := q.Args[1].(string)
			t.add(q.NSP + " " + tag)
		}
	}
	return t
}

func runC18(c *kit.C, p c18Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	gs := newGroup()
	var seq, called atomic.Int64
	type cs struct {
		*sioCli
		e        *sioSess
		want     *tally // emitted without an error
		evs      *tally // events sent
		handled  *tally
		survives bool
	}
	var mu sync.Mutex
	bySid := map[string]*cs{}
	find := func(so socketio.Socket) *cs {
		mu.Lock()
		defer mu.Unlock()
		return bySid[so.Sid()]
	}
	emit := func(q *cs, so socketio.Socket, kind string) {
		tag := fmt.Sprint(seq.Add(1))
		if err := c18Emit(so, p.Msgp, kind, tag, &called); err == nil {
			q.want.add(so.Namespace() + " " + tag)
		} else if q.survives {
			c.Errorf("%s on a healthy session: %v", kind, err)
		}
	}
	spawn := func(so socketio.Socket) {
		q := find(so)
		if q == nil || p.Spawn == 0 {
			return
		}
		gs.run(func() {
			for i := 0; i < p.Spawn; i++ {
				emit(q, so, "emitcb")
				so.SetHeader("X-T", "spawn")
				_ = so.GetHeader("X-T")
				if so.RemoteAddr() == nil || so.LocalAddr() == nil {
					c.Errorf("socket without an address")
				}
			}
		})
	}
	for _, n := range c18NSPs {
		n := n
		s.nsp(n)
		ns := s.S.Namespace(n)
		note := func(so socketio.Socket, tag int) {
			if q := find(so); q != nil {
				q.handled.add(fmt.Sprint(n, tag))
			}
			spawn(so)
		}
		ns.OnEvent("ev", func(so socketio.Socket, tag int) int { note(so, tag); return tag })
		if p.Msgp {
			ns.OnEvent("evbin", func(so socketio.Socket, tag int, b []byte) []byte { note(so, tag); return b })
		} else {
			ns.OnEvent("evbin", func(so socketio.Socket, tag int, b *socketio.Bytes) *socketio.Bytes { note(so, tag); return b })
		}
		ns.OnEvent("close", func(so socketio.Socket, tag int) { so.Close() })
	}
	var all []*cs
	for i, q := range p.Sess {
		k := newSioCli(c, s.S, p.Msgp, q.WS, fmt.Sprintf("10.0.0.%d:1", i+1), http.Header{"X-T": {"0"}}, q.Enc)
		x := &cs{sioCli: k, e: s.sess(k.sid), want: &tally{}, evs: &tally{}, handled: &tally{}, survives: len(q.End) == 0}
		all = append(all, x)
		mu.Lock()
		bySid[k.sid] = x
		mu.Unlock()
		for _, n := range c18NSPs {
			s.join(k, n)
		}
		if !x.survives {
			k.lenient()
		}
	}
	busy := false
	for i, q := range p.Sess {
		x, q := all[i], q
		// "/b" comes and goes when the client rejoins it
		left := false
		for _, a := range q.Cli {
			left = left || a.K == "rejoin"
		}
		for g, acts := range q.G {
			g, acts := g, acts
			gs.run(func() {
				for _, a := range acts {
					n := c18NSPs[a.N]
					if left && n == "/b" {
						n = "/a"
					}
					so := x.e.socket(n)
					for m := 0; m < a.M; m++ {
						switch a.K {
						case "emit", "emitcb", "emitbin":
							emit(x, so, a.K)
						case "err":
							so.EmitError(fmt.Sprint("error", g))
						case "hdrset":
							so.SetHeader("X-T", fmt.Sprint(g, m))
						case "hdrget":
							_ = so.GetHeader("X-T")
						case "addr":
							useAddr(c, so, x.sid)
							if so.RemoteAddr().String() == "" || so.LocalAddr() == nil {
								c.Errorf("socket without an address")
							}
						case "all":
							for _, y := range all {
								emit(y, y.e.socket("/"), "emit")
							}
						case "yield":
							runtime.Gosched()
						}
					}
				}
			})
		}
		busy = busy || (len(q.G) > 1 || p.Spawn > 0) && (q.Up || len(q.End) > 0 || p.Spawn > 0)
	}
	for i := 0; i < p.New; i++ {
		i := i
		gs.run(func() {
			if i%2 == 0 {
				w := sim.DialWS(s.S, "EIO=3&transport=websocket", fmt.Sprintf("10.2.0.%d:1", i), nil, nil)
				c.Defer(w.Close)
				return
			}
			call := sim.Do(s.S, sim.Req("GET", "EIO=3&transport=polling", fmt.Sprintf("10.2.0.%d:1", i), nil, nil))
			<-call.DoneChan()
			noPanicE(c, call)
		})
	}
	for i := 0; i < p.SrvClose; i++ {
		gs.run(func() { s.S.Close() })
	}
	// the endings race with everything else
	for i, q := range p.Sess {
		x, q := all[i], q
		for _, end := range q.End {
			end := end
			gs.run(func() {
				yield(3 * q.St)
				switch {
				case end == "app":
					x.e.socket("/").Close()
				case end == "appns":
					so := x.e.socket("/a")
					so.Close()
					so.Emit("late", 1)
				case end == "drop" && q.WS:
					x.ws.Close()
				case end == "evclose":
					x.send(evPkt("/a", "close", intVal(0)))
				case end == "midupgrade" && !q.WS && !q.Up:
					x.halfUpgradeE(q.St)
					x.raw(wire.Pkt{Type: wire.EClose})
				default:
					x.raw(wire.Pkt{Type: wire.EClose})
				}
			})
		}
	}
	tag := 0
	close(gs.start)
	for i, q := range p.Sess {
		x := all[i]
		ak := &acker{k: x.sioCli}
		for _, a := range q.Cli {
			n := c18NSPs[a.N%2]
			for m := 0; m < a.M; m++ {
				tag++
				switch a.K {
				case "ev", "evack":
					k := evPkt(n, "ev", intVal(int64(tag)))
					if a.K == "evack" {
						k = k.withID(uint64(tag))
					}
					x.evs.add(fmt.Sprint(n, tag))
					x.send(k)
				case "evbin":
					x.evs.add(fmt.Sprint(n, tag))
					x.send(evPkt(n, "evbin", intVal(int64(tag)), Val{K: "bin", X: []byte("abc")}).withID(uint64(tag)))
				case "ack":
					x.w.do(ak.run)
				case "ping":
					x.raw(wire.Pkt{Type: wire.EPing, Data: []byte("p")})
				case "rejoin":
					x.send(SP{Type: wire.SDisconnect, NSP: "/b"}, SP{Type: wire.SConnect, NSP: "/b"})
				case "bad":
					x.send(evPkt(n, "ev", strVal("no integer")))
				case "yield":
					runtime.Gosched()
				}
			}
		}
		x.w.do(ak.run)
	}
	for i, q := range p.Sess {
		if !q.Up {
			continue
		}
		if all[i].survives {
			all[i].upgrade(nil)
		} else {
			all[i].halfUpgradeE(4)
		}
	}
	c.Await(gs.done, "return of the calls application goroutines made (%d are blocked)", gs.left.Load())
	for i, x := range all {
		x := x
		if len(p.Sess[i].End) > 0 {
			c.Await(func() bool { return over(x.e) && x.w.idle() }, "disconnect handlers of a session that ended")
			continue
		}
		c.Reaches(func() bool {
			return outTags(x.sioCli).total() >= x.want.total() && x.handled.total() >= x.evs.total() && x.w.idle()
		})
	}
	c.Quiet()
	c.Await(gs.done, "return of the calls application goroutines made")
	for i, x := range all {
		x := x
		if !x.survives {
			if n := x.e.count("disconnect", "/"); n != 1 {
				c.Failf("disconnect handler of / ran %d times for session %d", n, i)
			}
			if err := x.e.socket("/").Emit("late", 1); err == nil {
				c.Failf("emit on an ended session returned no error")
			}
			continue
		}
		c.Reaches(func() bool { return outTags(x.sioCli).total() >= x.want.total() })
		if err := outTags(x.sioCli).same(x.want); err != nil {
			c.Failf("session %d: emits received: %v", i, err)
		}
		if err := x.handled.same(x.evs); err != nil {
			c.Failf("session %d: events handled: %v", i, err)
		}
	}
	c.NonTrivialIf(busy)
	for _, q := range p.Sess {
		c.LabelIf(q.Up, "upgrade")
		c.LabelIf(len(q.End) > 0, "ended")
	}
	c.LabelIf(called.Load() > 0, "acks")
	c.LabelIf(p.SrvClose > 0, "server closed")
}

// noPanicE is noPanic for any goroutine.
func noPanicE(c *kit.C, call *sim.Call) {
	if v, st := call.Panic(); v != nil {
		c.Errorf("request handler panicked: %v\n%s", v, st)
	}
}

// halfUpgradeE is halfUpgrade for any goroutine, on a session that may end at any moment.
func (p *link) halfUpgradeE(st int) {
	ws := sim.DialWS(p.h, "EIO=3&transport=websocket&sid="+p.sid, p.addr, p.upHdr(), nil)
	p.c.Defer(ws.Close)
	wait := func(f func() bool) {
		for i := 0; i < 2000 && !f(); i++ {
			runtime.Gosched()
			if i > 200 {
				time.Sleep(50 * time.Microsecond)
			}
		}
	}
	wait(func() bool { return ws.HSDone() })
	if done, err := ws.Handshaken(); !done || err != nil {
		return
	}
	if st >= 1 {
		ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
	}
	if st >= 2 {
		wait(func() bool { return ws.N() > 0 || ws.Ended() != nil })
	}
	if st >= 3 {
		p.cross()
		ws.Send(wire.Pkt{Type: wire.EUpgrade})
		// the session may end on either transport
		ws.Send(wire.Pkt{Type: wire.EClose})
		return
	}
	ws.Close()
}

func runC18Engine(c *kit.C, p c18Plan) {
	s := newEngSrv(c, long, long)
	gs := newGroup()
	var seq atomic.Int64
	type cs struct {
		*peer
		want     *tally
		evs      *tally
		handled  *tally
		survives bool
	}
	var mu sync.Mutex
	bySid := map[string]*cs{}
	emit := func(q *cs, kind string) {
		tag := fmt.Sprint(seq.Add(1))
		t := engine.MessageTypeString
		if kind == "emitbin" {
			t = engine.MessageTypeBinary
		}
		if err := q.e.Sock.Emit(engine.EventMessage, t, []byte(tag)); err == nil {
			q.want.add(tag)
		} else if q.survives {
			c.Errorf("emit on a healthy session: %v", err)
		}
	}
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		mu.Lock()
		q := bySid[e.Sid]
		mu.Unlock()
		if q == nil {
			return
		}
		if string(k.Data) == "close" {
			e.Sock.Close()
			return
		}
		q.handled.add(string(k.Data))
		if p.Spawn > 0 {
			gs.run(func() {
				for i := 0; i < p.Spawn; i++ {
					emit(q, "emit")
					e.Sock.SetHeader("X-T", "spawn")
					_ = e.Sock.GetHeader("X-T")
				}
			})
		}
	}
	var all []*cs
	twice := make([]bool, len(p.Sess))
	for i, q := range p.Sess {
		x := &cs{peer: newPeer(c, s, q.WS, fmt.Sprintf("10.0.0.%d:1", i+1), http.Header{"X-T": {"0"}}, q.Enc), want: &tally{}, evs: &tally{}, handled: &tally{}, survives: len(q.End) == 0}
		all = append(all, x)
		mu.Lock()
		bySid[x.sid] = x
		mu.Unlock()
		if !x.survives {
			x.lenient()
		}
		for _, a := range q.Cli {
			twice[i] = twice[i] || !q.WS && (a.K == "post2" || a.K == "poll2")
		}
		if x.poll != nil {
			x.poll.Run(-1)
		}
	}
	busy := false
	for i, q := range p.Sess {
		x, q := all[i], q
		for g, acts := range q.G {
			g, acts := g, acts
			gs.run(func() {
				so := x.e.Sock
				for _, a := range acts {
					for m := 0; m < a.M; m++ {
						switch a.K {
						case "emit", "emitbin":
							emit(x, a.K)
						case "ping":
							so.Emit(engine.EventPing, engine.MessageTypeString, fmt.Sprint("g", g))
						case "hdrset":
							so.SetHeader("X-T", fmt.Sprint(g, m))
						case "hdrget":
							_ = so.GetHeader("X-T")
						case "addr":
							useAddr(c, so, x.sid)
							if so.RemoteAddr() == nil || so.LocalAddr() == nil {
								c.Errorf("socket without an address")
							}
						case "all":
							for _, y := range all {
								emit(y, "emit")
							}
						case "yield":
							runtime.Gosched()
						}
					}
				}
			})
		}
		busy = busy || (len(q.G) > 1 || p.Spawn > 0) && (q.Up || len(q.End) > 0 || twice[i])
	}
	for i := 0; i < p.New; i++ {
		i := i
		gs.run(func() {
			if i%2 == 0 {
				w := sim.DialWS(s.S, "EIO=3&transport=websocket", fmt.Sprintf("10.2.0.%d:1", i), nil, nil)
				c.Defer(w.Close)
				return
			}
			call := sim.Do(s.S, sim.Req("GET", "EIO=3&transport=polling", fmt.Sprintf("10.2.0.%d:1", i), nil, nil))
			<-call.DoneChan()
			noPanicE(c, call)
		})
	}
	for i := 0; i < p.SrvClose; i++ {
		gs.run(func() { s.S.Close() })
	}
	tag := 0
	for i, q := range p.Sess {
		x, q := all[i], q
		for _, end := range q.End {
			end := end
			gs.run(func() {
				yield(3 * q.St)
				switch {
				case end == "app":
					x.e.Sock.Close()
				case end == "drop" && q.WS:
					x.ws.Close()
				case end == "evclose":
					x.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("close")})
				case end == "midupgrade" && !q.WS && !q.Up:
					x.halfUpgradeE(q.St)
					x.raw(wire.Pkt{Type: wire.EClose})
				default:
					x.raw(wire.Pkt{Type: wire.EClose})
				}
			})
		}
		// requests beside the orderly ones: only until the upgrade
		if q.WS || q.Up {
			continue
		}
		for _, a := range q.Cli {
			a := a
			switch a.K {
			case "post2":
				var ms []wire.Pkt
				for m := 0; m < a.M; m++ {
					tag++
					b := Blob{Lit: []byte(fmt.Sprint("p", tag))}
					x.evs.add(string(b.Lit))
					ms = append(ms, b.Msg())
				}
				gs.run(func() {
					call := x.poll.Post(ms...)
					<-call.DoneChan()
					noPanicE(c, call)
					if code, _, b := call.Result(); code != 200 && x.survives {
						c.Errorf("post answered %d %q", code, b)
					}
				})
			case "poll2":
				gs.run(func() {
					for m := 0; m < a.M; m++ {
						call := x.poll.Get()
						c.Defer(call.Abort)
						go func() {
							<-call.DoneChan()
							noPanicE(c, call)
							if code, _, _ := call.Result(); code == 200 {
								x.poll.Take(call)
							}
						}()
					}
				})
			}
		}
	}
	close(gs.start)
	for i, q := range p.Sess {
		x := all[i]
		for _, a := range q.Cli {
			for m := 0; m < a.M; m++ {
				switch a.K {
				case "ev", "evbin":
					tag++
					b := Blob{Lit: []byte(fmt.Sprint("c", tag)), Bin: a.K == "evbin"}
					x.evs.add(string(b.Lit))
					x.raw(b.Msg())
				case "ping":
					x.raw(wire.Pkt{Type: wire.EPing, Data: []byte("p")})
				case "yield":
					runtime.Gosched()
				}
			}
		}
	}
	for i, q := range p.Sess {
		if !q.Up {
			continue
		}
		if all[i].survives {
			all[i].upgrade(nil)
		} else {
			all[i].halfUpgradeE(4)
		}
	}
	got := func(x *cs) *tally {
		t := &tally{}
		for _, k := range x.got() {
			t.add(string(k.Data))
		}
		return t
	}
	c.Await(gs.done, "return of the calls application goroutines made")
	for i, x := range all {
		x := x
		if len(p.Sess[i].End) > 0 {
			c.Await(func() bool { return x.e.Closed() && x.w.idle() }, "close callback of a session that ended")
			continue
		}
		c.Reaches(func() bool {
			return got(x).total() >= x.want.total() && x.handled.total() >= x.evs.total() && x.w.idle()
		})
	}
	c.Quiet()
	c.Await(gs.done, "return of the calls application goroutines made")
	for i, x := range all {
		x := x
		if !x.survives {
			if _, n, _ := x.e.counts(); n != 1 {
				c.Failf("close callback ran %d times for session %d", n, i)
			}
			if err := x.e.emit(fence()); err == nil {
				c.Failf("emit on an ended session returned no error")
			}
			continue
		}
		c.Reaches(func() bool { return got(x).total() >= x.want.total() })
		if err := got(x).same(x.want); err != nil {
			c.Failf("session %d: messages the client received: %v", i, err)
		}
		if err := x.handled.same(x.evs); err != nil {
			c.Failf("session %d: messages handled: %v", i, err)
		}
	}
	c.NonTrivialIf(busy)
	for i, q := range p.Sess {
		c.LabelIf(q.Up, "upgrade")
		c.LabelIf(len(q.End) > 0, "ended")
		c.LabelIf(twice[i], "requests beside the orderly ones")
	}
}

var acceptOnce sync.Once

func runC18Client(c *kit.C, p c18Plan) {
	acceptOnce.Do(func() { newFake(c, false, false) }) // the first use of the transport
	gs := newGroup()
	var seq, called atomic.Int64
	type cs struct {
		*sioCli
		C        *socketio.Client
		mu       sync.Mutex
		sock     map[string]socketio.Socket
		disc     map[string]int
		want     *tally
		evs      *tally
		handled  *tally
		survives bool
	}
	emit := func(x *cs, nsp, kind string) {
		tag := fmt.Sprint(seq.Add(1))
		x.mu.Lock()
		so := x.sock[nsp]
		x.mu.Unlock()
		var err error
		if kind == "emit" && seq.Load()%2 == 0 {
			err = x.C.Emit(nsp, "out", tag)
		} else {
			err = c18Emit(so, p.Msgp, kind, tag, &called)
		}
		if err == nil {
			x.want.add(nsp + " " + tag)
		} else if x.survives {
			c.Errorf("%s on a healthy client: %v", kind, err)
		}
	}
	var all []*cs
	for _, q := range p.Sess {
		q := q
		k, conn := newFake(c, p.Msgp, !q.WS)
		x := &cs{sioCli: k, C: socketio.NewClient(), sock: map[string]socketio.Socket{}, disc: map[string]int{}, want: &tally{}, evs: &tally{}, handled: &tally{}, survives: len(q.End) == 0}
		all = append(all, x)
		for _, n := range c18NSPs {
			n := n
			ns := x.C.Namespace(n)
			ns.OnConnect(func(so socketio.Socket) { x.mu.Lock(); x.sock[n] = so; x.mu.Unlock() })
			ns.OnDisconnect(func(so socketio.Socket) { x.mu.Lock(); x.disc[n]++; x.mu.Unlock() })
			ns.OnError(func(so socketio.Socket, err ...interface{}) {})
			note := func(so socketio.Socket, tag int) {
				x.handled.add(fmt.Sprint(n, tag))
				if p.Spawn > 0 {
					gs.run(func() {
						for i := 0; i < p.Spawn; i++ {
							emit(x, n, "emitcb")
							so.SetHeader("X-T", "spawn")
							_ = so.GetHeader("X-T")
						}
					})
				}
			}
			ns.OnEvent("ev", func(so socketio.Socket, tag int) int { note(so, tag); return tag })
			if p.Msgp {
				ns.OnEvent("evbin", func(so socketio.Socket, tag int, b []byte) []byte { note(so, tag); return b })
			} else {
				ns.OnEvent("evbin", func(so socketio.Socket, tag int, b *socketio.Bytes) *socketio.Bytes { note(so, tag); return b })
			}
			ns.OnEvent("close", func(so socketio.Socket, tag int) { so.Close() })
		}
		interval := 3600000
		if q.Up {
			interval = 2 // pings all the time
		}
		k.raw(openPkt("the-sid", interval, 3600000))
		for _, n := range c18NSPs {
			k.send(SP{Type: wire.SConnect, NSP: n})
		}
		done := make(chan error, 1)
		go func() {
			done <- x.C.Dial("ws://server.example/socket.io/", http.Header{"X-T": {"0"}}, &oneConn{conn: conn}, parserOf(p.Msgp))
		}()
		c.Await(func() bool { return len(done) > 0 }, "return of Dial")
		if err := <-done; err != nil {
			c.Failf("Dial: %v", err)
		}
		c.Defer(func() { go x.C.Close() })
		c.Await(func() bool { x.mu.Lock(); defer x.mu.Unlock(); return len(x.sock) == len(c18NSPs) }, "connect handlers of the client")
		if !x.survives {
			k.lenient()
		}
	}
	busy := false
	for i, q := range p.Sess {
		x, q := all[i], q
		left := false
		for _, a := range q.Cli {
			left = left || a.K == "rejoin"
		}
		socket := func(n string) socketio.Socket { x.mu.Lock(); defer x.mu.Unlock(); return x.sock[n] }
		for g, acts := range q.G {
			g, acts := g, acts
			gs.run(func() {
				for _, a := range acts {
					n := c18NSPs[a.N]
					if left && n == "/b" {
						n = "/a"
					}
					so := socket(n)
					for m := 0; m < a.M; m++ {
						switch a.K {
						case "emit", "emitcb", "emitbin":
							emit(x, n, a.K)
						case "err":
							so.EmitError(fmt.Sprint("error", g))
							x.C.EmitError("x")
						case "hdrset":
							so.SetHeader("X-T", fmt.Sprint(g, m))
							x.C.SetHeader("X-T", "1")
						case "hdrget":
							_ = so.GetHeader("X-T")
							_ = x.C.GetHeader("X-T")
						case "addr":
							useAddr(c, so, "the-sid")
							useAddr(c, x.C, "the-sid")
							if so.RemoteAddr() == nil || x.C.LocalAddr() == nil {
								c.Errorf("socket without an address")
							}
						case "all":
							for _, y := range all {
								emit(y, "/", "emit")
							}
						case "yield":
							runtime.Gosched()
						}
					}
				}
			})
		}
		for _, end := range q.End {
			end := end
			gs.run(func() {
				yield(3 * q.St)
				switch {
				case end == "app":
					x.C.Close()
				case end == "appns":
					so := socket("/a")
					so.Close()
					so.Emit("late", 1)
				case end == "drop" && q.WS:
					x.ws.Close()
				case end == "evclose":
					x.send(evPkt("/a", "close", intVal(0)))
				default:
					x.raw(wire.Pkt{Type: wire.EClose})
				}
			})
		}
		busy = busy || (len(q.G) > 1 || p.Spawn > 0) && (len(q.End) > 0 || p.Spawn > 0)
	}
	tag := 0
	close(gs.start)
	for i, q := range p.Sess {
		x := all[i]
		ak := &acker{k: x.sioCli}
		for _, a := range q.Cli {
			n := c18NSPs[a.N%2]
			for m := 0; m < a.M; m++ {
				tag++
				switch a.K {
				case "ev", "evack":
					k := evPkt(n, "ev", intVal(int64(tag)))
					if a.K == "evack" {
						k = k.withID(uint64(tag))
					}
					x.evs.add(fmt.Sprint(n, tag))
					x.send(k)
				case "evbin":
					x.evs.add(fmt.Sprint(n, tag))
					x.send(evPkt(n, "evbin", intVal(int64(tag)), Val{K: "bin", X: []byte("abc")}).withID(uint64(tag)))
				case "ack":
					x.w.do(ak.run)
				case "rejoin":
					x.send(SP{Type: wire.SDisconnect, NSP: "/b"}, SP{Type: wire.SConnect, NSP: "/b"})
				case "bad":
					x.send(evPkt(n, "ev", strVal("no integer")))
				case "yield":
					runtime.Gosched()
				}
			}
		}
		x.w.do(ak.run)
	}
	gone := func(x *cs) bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.disc["/"] > 0 && x.disc["/a"] > 0
	}
	c.Await(gs.done, "return of the calls application goroutines made")
	for i, x := range all {
		x := x
		if len(p.Sess[i].End) > 0 {
			c.Await(func() bool { return gone(x) && x.w.idle() }, "disconnect handlers of a client that ended")
			continue
		}
		c.Reaches(func() bool {
			return outTags(x.sioCli).total() >= x.want.total() && x.handled.total() >= x.evs.total() && x.w.idle()
		})
	}
	ticking := false
	for i := range p.Sess {
		ticking = ticking || p.Sess[i].Up && all[i].survives
	}
	if !ticking {
		c.Quiet()
	}
	c.Await(gs.done, "return of the calls application goroutines made")
	for i, x := range all {
		x := x
		if !x.survives {
			x.mu.Lock()
			n := x.disc["/"]
			x.mu.Unlock()
			if n != 1 {
				c.Failf("disconnect handler of / ran %d times for client %d", n, i)
			}
			if err := x.C.Emit("/", "late", 1); err == nil {
				c.Failf("emit of an ended client returned no error")
			}
			continue
		}
		c.Reaches(func() bool { return outTags(x.sioCli).total() >= x.want.total() })
		if err := outTags(x.sioCli).same(x.want); err != nil {
			c.Failf("client %d: emits received: %v", i, err)
		}
		if err := x.handled.same(x.evs); err != nil {
			c.Failf("client %d: events handled: %v", i, err)
		}
	}
	c.NonTrivialIf(busy)
	for _, q := range p.Sess {
		c.LabelIf(len(q.End) > 0, "ended")
	}
	c.LabelIf(called.Load() > 0, "acks")
}
