package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C06: upgrades ----

type c06Op struct {
	Kind string `json:"kind"`
	K    int    `json:"k,omitempty"` // number of messages, polls, or pauses
	Big  int    `json:"big,omitempty"`
	Grp  int    `json:"grp,omitempty"`
	Seed int    `json:"seed,omitempty"`
	None int    `json:"none,omitempty"` // every None-th message is empty
}

type c06Plan struct {
	Enc   sim.Enc    `json:"enc"`
	Polls int        `json:"polls"` // allowed from the beginning (-1: any)
	Segs  [6][]c06Op `json:"segs"`
}

// blobs makes k numbered messages.
func (o c06Op) blobs(tag string, n *int) []Blob {
	var out []Blob
	for i := 0; i < o.K; i++ {
		*n++
		b := Blob{Bin: (o.Seed>>(i%9))&1 == 1, Lit: []byte(fmt.Sprintf("%s%d", tag, *n))}
		if o.Big > 0 && i == o.K/2 {
			b.Lit = append(b.Lit, bytes.Repeat([]byte{'x'}, o.Big)...)
		} else if o.None > 0 && *n%o.None == 0 {
			b.Lit = nil
		}
		out = append(out, b)
	}
	return out
}

func genSeg(t *rapid.T, label string, kinds []string, most int) []c06Op {
	var out []c06Op
	for i, n := 0, rapid.IntRange(0, most).Draw(t, label+".ops"); i < n; i++ {
		o := c06Op{Kind: rapid.SampledFrom(kinds).Draw(t, label+".kind")}
		switch o.Kind {
		case "emit", "send", "ping":
			o.K = rapid.SampledFrom([]int{1, 1, 2, 3, 8, 9, 17, 40}).Draw(t, label+".k")
			o.Seed = rapid.IntRange(0, 511).Draw(t, label+".seed")
			o.Grp = rapid.IntRange(0, 3).Draw(t, label+".grp")
			if rapid.IntRange(0, 4).Draw(t, label+".empty") == 0 {
				o.None = rapid.IntRange(1, 3).Draw(t, label+".none")
			}
			if rapid.IntRange(0, 9).Draw(t, label+".large") == 0 {
				o.Big = rapid.SampledFrom([]int{1000, 5000, 70000}).Draw(t, label+".big")
			}
		case "allow":
			o.K = rapid.IntRange(1, 6).Draw(t, label+".k")
		case "yield":
			o.K = rapid.IntRange(1, 60).Draw(t, label+".k")
		}
		out = append(out, o)
	}
	return out
}

func genC06(t *rapid.T) c06Plan { return genC06K(t, "emit", "emit", "send", "send") }

func genC06K(t *rapid.T, traffic ...string) c06Plan {
	p := c06Plan{Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Polls: rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 3}).Draw(t, "polls")}
	for i := range p.Segs {
		kinds := append([]string{"gate", "ungate", "yield"}, traffic...)
		if i == 0 {
			kinds = append(kinds, "quiet", "allow")
		}
		if i >= 3 {
			kinds = append(kinds, "stall", "unstall")
		}
		if i == 0 || i == 5 {
			kinds = append(kinds, "stray")
		}
		p.Segs[i] = genSeg(t, fmt.Sprint("seg", i), kinds, 3)
	}
	return p
}

func yield(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
	if n > 20 {
		time.Sleep(time.Duration(n) * 2 * time.Microsecond)
	}
}

type segRunner struct {
	c    *kit.C
	pe   *peer
	g    *gate
	n, m int
	p    int
	out  int

	pings []wire.Pkt // sent
}

func (r *segRunner) run(ops []c06Op) {
	for _, o := range ops {
		switch o.Kind {
		case "emit":
			r.pe.emit(o.blobs("s", &r.n))
			r.out |= 1
		case "send":
			r.pe.send(o.blobs("c", &r.m), o.Grp)
			r.out |= 2
		case "ping":
			var ps []wire.Pkt
			for _, b := range o.blobs("p", &r.p) {
				k := b.Msg()
				k.Type = wire.EPing
				if k.Bin && r.pe.poll != nil && o.Grp == 2 {
					k.Data = append(k.Data, 0, 0xff)
				}
				ps = append(ps, k)
				r.pings = append(r.pings, k)
				if o.Grp == 1 {
					r.m++
					ps = append(ps, Blob{Lit: []byte(fmt.Sprint("c", r.m))}.Msg())
				}
			}
			if o.Grp == 3 {
				for i := range ps {
					r.pe.sendPkts(ps[i : i+1])
				}
			} else {
				r.pe.sendPkts(ps)
			}
			r.out |= 4
		case "gate":
			r.g.shut()
		case "ungate":
			r.g.open()
		case "allow":
			r.pe.poll.Allow(o.K)
		case "yield":
			yield(o.K)
		case "quiet":
			r.c.Quiet()
		case "stray": // an upgrade packet that confirms nothing
			r.pe.sendPkts([]wire.Pkt{{Type: wire.EUpgrade}})
			r.c.Label("stray upgrade packet")
		case "stall":
			r.pe.ws.Srv.StallWrites(true)
		case "unstall":
			r.pe.ws.Srv.StallWrites(false)
		}
	}
}

func runC06(c *kit.C, p c06Plan) {
	s := newEngSrv(c, long, long)
	s.keep = true
	var g gate
	c.Defer(g.open)
	s.OnMsg = func(*esess, int, wire.Pkt) { g.pass() }
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	pe.poll.Run(p.Polls)
	r := &segRunner{c: c, pe: pe, g: &g}
	r.run(p.Segs[0])
	moved := r.out
	r.out = 0
	pe.upgrade(func(st int) { r.run(p.Segs[1+st]) })
	c.LabelIf(r.out != 0, "traffic-during")
	c.LabelIf(moved != 0, "traffic-before")
	c.NonTrivialIf(r.out != 0 || moved != 0)
	r.run(p.Segs[5])
	g.open()
	pe.ws.Srv.StallWrites(false)
	pe.exchange("after the upgrade")
	c.Await(func() bool { _, _, n := pe.e.counts(); return n > 0 }, "announcement of the upgrade")
	c.Quiet()
	pe.compare("when everything settled")
	pe.upgradeChecks()
}

// runC08Up checks that pings sent about an upgrade are answered, each once and in order.
func runC08Up(c *kit.C, p c06Plan) {
	s := newEngSrv(c, long, long)
	s.keep = true
	var g gate
	c.Defer(g.open)
	s.OnMsg = func(*esess, int, wire.Pkt) { g.pass() }
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	pe.poll.Run(p.Polls)
	r := &segRunner{c: c, pe: pe, g: &g}
	r.run(p.Segs[0])
	before := len(r.pings)
	pe.upgrade(func(st int) { r.run(p.Segs[1+st]) })
	r.run(p.Segs[5])
	g.open()
	pe.ws.Srv.StallWrites(false)
	r.run([]c06Op{{Kind: "ping", K: 1}})
	pongs := func() (out []wire.Pkt) {
		for _, k := range c08Got(pe) {
			if k.Type == wire.EPong {
				k.Type = wire.EPing
				out = append(out, k)
			}
		}
		return
	}
	pe.finish("after the upgrade")
	c.Reaches(func() bool { return len(pongs()) >= len(r.pings) })
	c.Quiet()
	pe.compare("when everything settled")
	if err := samePkts(pongs(), r.pings); err != nil {
		c.Failf("pings sent and answers received: %v", err)
	}
	pe.e.mu.Lock()
	err := samePkts(pe.e.Pings, r.pings)
	pe.e.mu.Unlock()
	if err != nil {
		c.Failf("ping callback: %v", err)
	}
	c.NonTrivialIf(len(r.pings) > 1)
	c.LabelIf(before > 0, "pings before")
	c.LabelIf(p.Polls == 0, "nobody polls")
}

// ---- C07: abandoned upgrades ----

type c07Try struct {
	Stage  int     `json:"stage"` // reached: 0 connected, 1 probe sent, 2 pong received
	End    string  `json:"end"`
	Pkt    int     `json:"pkt,omitempty"`
	Cut    int     `json:"cut,omitempty"`
	Linger bool    `json:"linger,omitempty"` // abandoned only after the next step has begun
	Ops    []c06Op `json:"ops,omitempty"`
	After  []c06Op `json:"after,omitempty"`
	Settle bool    `json:"settle,omitempty"`
}

type c07Plan struct {
	Enc   sim.Enc  `json:"enc"`
	Pre   []c06Op  `json:"pre"`
	Tries []c07Try `json:"tries"`
	Final bool     `json:"final"`
}

var wrongFirst = []wire.Pkt{
	{Type: wire.EMessage, Data: []byte("x")}, {Type: wire.EUpgrade}, {Type: wire.EClose}, {Type: wire.EPong, Data: []byte("probe")},
	{Type: wire.ENoop}, {Type: wire.EOpen}, {Bin: true, Type: wire.EMessage, Data: []byte("y")}}

var wrongSecond = []wire.Pkt{
	{Type: wire.EMessage, Data: []byte("x")}, {Type: wire.EPing, Data: []byte("probe")}, {Type: wire.EClose}, {Type: wire.EPong},
	{Type: wire.ENoop}, {Type: wire.EOpen}, {Bin: true, Type: wire.EMessage, Data: []byte("y")}}

func genC07(t *rapid.T) c07Plan {
	kinds := []string{"emit", "emit", "send", "send", "gate", "ungate", "yield"}
	p := c07Plan{Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Pre: genSeg(t, "pre", kinds, 2), Final: rapid.IntRange(0, 2).Draw(t, "final") > 0}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "tries"); i < n; i++ {
		l := fmt.Sprint("try", i)
		y := c07Try{Stage: rapid.IntRange(0, 2).Draw(t, l+".stage"), End: rapid.SampledFrom([]string{"drop", "drop", "closeframe", "wrong", "wrong", "garbage", "cut", "plain", "transport"}).Draw(t, l+".end"),
			Pkt: rapid.IntRange(0, 6).Draw(t, l+".pkt"), Cut: rapid.SampledFrom([]int{0, 1, 20, 100, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137}).Draw(t, l+".cut"),
			Linger: rapid.IntRange(0, 3).Draw(t, l+".linger") == 0, Ops: genSeg(t, l+".ops", kinds, 2), After: genSeg(t, l+".after", kinds, 2),
			Settle: rapid.Bool().Draw(t, l+".settle")}
		p.Tries = append(p.Tries, y)
	}
	return p
}

func runC07(c *kit.C, p c07Plan) {
	s := newEngSrv(c, long, long)
	s.keep = true
	var g gate
	c.Defer(g.open)
	s.OnMsg = func(*esess, int, wire.Pkt) { g.pass() }
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	pe.poll.Run(-1)
	r := &segRunner{c: c, pe: pe, g: &g}
	r.run(p.Pre)
	q := "EIO=3&transport=websocket&sid=" + pe.sid
	var pending func() func() // ends the lingering attempt, and returns what to wait for then
	endAll := func(fs []func() func()) {
		var waits []func()
		for _, f := range fs {
			if w := f(); w != nil {
				waits = append(waits, w)
			}
		}
		for _, w := range waits {
			w()
		}
	}
	finish := func() {
		if pending != nil {
			f := pending
			pending = nil
			endAll([]func() func(){f})
		}
	}
	var failed []*sim.WS
	for i, y := range p.Tries {
		y := y
		c.Label("end-" + y.End)
		c.LabelIf(y.Stage == 2, "after-pong")
		switch y.End {
		case "plain":
			call := sim.Do(s.S, sim.Req("GET", q, pe.addr, nil, nil))
			c.Await(call.Done, "answer to a plain request naming transport websocket")
			noPanic(c, call)
			if code, _, _ := call.Result(); code < 400 || code > 499 && code != 500 {
				c.Failf("plain request naming transport websocket answered %d", code)
			}
			r.run(y.Ops)
		case "transport":
			tr := []string{"", "flashsocket", "WebSocket", "none", "polling2", "jsonp", "web"}[y.Pkt]
			call := sim.Do(s.S, sim.Req("GET", "EIO=3&transport="+tr+"&sid="+pe.sid, pe.addr, nil, nil))
			c.Await(call.Done, "answer to a request naming transport %q", tr)
			noPanic(c, call)
			if code, _, _ := call.Result(); code < 400 || code > 499 {
				c.Failf("request naming transport %q answered %d", tr, code)
			}
			r.run(y.Ops)
		default:
			w := sim.DialWS(s.S, q, pe.addr, nil, func(cli, srv *sim.Conn) {
				if y.End == "cut" {
					srv.CutWritesAfter(y.Cut)
				}
			})
			c.Defer(w.Close)
			failed = append(failed, w)
			pong := make(chan struct{})
			var once sync.Once
			w.OnPkt(func(k wire.Pkt) {
				if k.Type == wire.EPong {
					once.Do(func() { pe.poll.Hold(); close(pong) })
				}
			})
			c.Await(func() bool { return w.HSDone() }, "websocket handshake of attempt %d", i)
			stage := y.Stage
			if y.End == "wrong" && stage == 1 {
				stage = 2
			}
			if y.End == "cut" {
				stage = 1
			}
			if stage > 0 {
				w.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
			}
			if stage > 1 {
				pe.await(pong, "pong to the probe of an attempt")
			}
			r.run(y.Ops)
			end := func() func() {
				once.Do(func() {}) // no holding of polls from now on
				switch y.End {
				case "wrong":
					k := wrongFirst[y.Pkt]
					if stage > 0 {
						k = wrongSecond[y.Pkt]
					}
					w.Send(k)
					return func() {
						c.Await(func() bool { return w.Ended() != nil }, "end of an upgrade attempt on which the peer sent %s (stage %d)", k, stage)
					}
				case "closeframe":
					w.CloseFrame()
					return func() {
						c.Await(func() bool { return w.Ended() != nil }, "end of an upgrade attempt the peer closed (stage %d)", stage)
					}
				case "garbage":
					w.Cli.Write([]byte{0xff, 0xff, 0xff, 0, 1, 2, 3})
					return func() {
						c.Await(func() bool { return w.Ended() != nil }, "end of an upgrade attempt with a garbage frame (stage %d)", stage)
					}
				case "cut":
					c.Await(func() bool { return w.Ended() != nil || w.N() > 0 }, "end of an upgrade attempt whose connection broke")
				}
				w.Close()
				return nil
			}
			// one lingering attempt at a time; a second one after the pong waits for the first
			if y.Linger && pending == nil {
				pending = end
				r.run(y.After)
				continue
			}
			var ends []func() func()
			if pending != nil {
				c.Label("overlapping-attempts")
				ends, pending = append(ends, pending), nil
			}
			endAll(append(ends, end))
			pe.poll.Allow(-1)
		}
		if pending == nil || i%2 == 0 {
			finish()
			pe.poll.Allow(-1)
		}
		r.run(y.After)
		if y.Settle && pending == nil {
			g.open()
			pe.exchange(fmt.Sprintf("after attempt %d", i))
		}
	}
	c.NonTrivialIf(r.out != 0)
	if p.Final {
		later := func() {}
		pe.upgrade(func(st int) {
			if st == 1 && pending != nil {
				// either attempt may be the one that waits for the other
				if w := pending(); w != nil {
					later = w
				}
				pending = nil
			}
		})
		later()
		g.open()
		pe.exchange("after the final upgrade")
		c.Await(func() bool { _, _, n := pe.e.counts(); return n > 0 }, "announcement of the final upgrade")
		// the session is on WebSocket now: it cannot be polled
		call := sim.Do(s.S, sim.Req("GET", "EIO=3&transport=polling&sid="+pe.sid, pe.addr, nil, nil))
		c.Defer(call.Abort)
		c.Await(call.Done, "answer to a poll of an upgraded session")
		if code, _, _ := call.Result(); code < 400 || code > 499 {
			c.Failf("poll of an upgraded session answered %d", code)
		}
		pe.exchange("after polling an upgraded session")
		c.Quiet()
		pe.compare("when everything settled")
		pe.upgradeChecks()
	} else {
		finish()
		pe.poll.Allow(-1)
		g.open()
		pe.exchange("after the attempts")
		c.Quiet()
		pe.compare("when everything settled")
		if _, _, n := pe.e.counts(); n != 0 {
			c.Failf("an upgrade was announced %d times although none succeeded", n)
		}
	}
	for _, w := range failed {
		got, _ := w.Got()
		for _, k := range got {
			if k.Type == wire.EMessage {
				c.Failf("message %s was sent on an abandoned upgrade", k)
			}
		}
	}
}

// ---- C08: pings and expiry ----

type c08Op struct {
	Gap  int    `json:"gap"` // permille of interval+timeout
	What string `json:"what"`
	Blob Blob   `json:"blob"`
	K    int    `json:"k"`
}

type c08Plan struct {
	WS       bool    `json:"ws"`
	Enc      sim.Enc `json:"enc"`
	Interval int     `json:"interval_ms"`
	Timeout  int     `json:"timeout_ms"`
	Ops      []c08Op `json:"ops"`
	Last     int     `json:"last_gap"`
}

func genC08(t *rapid.T) c08Plan {
	p := c08Plan{WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Interval: rapid.IntRange(50, 30000).Draw(t, "interval"), Timeout: rapid.IntRange(50, 20000).Draw(t, "timeout")}
	up := false
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "ops"); i < n; i++ {
		o := c08Op{Gap: rapid.SampledFrom([]int{0, 0, 1, 100, 400, 500, 501, 700, 900, 990, 999, 1001, 1010, 1100, 2000}).Draw(t, "gap")}
		if o.Gap > 1000 && rapid.Bool().Draw(t, "spare") {
			o.Gap = 995
		}
		k := []string{"ping", "ping", "ping", "msg", "noop", "pong", "mixed"}
		if !p.WS && !up {
			k = append(k, "upgrade")
		}
		o.What = rapid.SampledFrom(k).Draw(t, "what")
		up = up || o.What == "upgrade"
		o.Blob = genSmall(t, fmt.Sprint("blob", i))
		o.K = rapid.IntRange(1, 5).Draw(t, "k")
		p.Ops = append(p.Ops, o)
	}
	p.Last = rapid.SampledFrom([]int{999, 1001, 1500, 3000}).Draw(t, "last")
	return p
}

func runC08(c *kit.C, p c08Plan) {
	s := newEngSrv(c, time.Duration(p.Interval)*time.Millisecond, time.Duration(p.Timeout)*time.Millisecond)
	period := time.Duration(p.Interval+p.Timeout) * time.Millisecond
	var endedAt time.Time
	s.OnEnd = func(e *esess) { endedAt = time.Now() }
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		if err := e.emit(Blob{Bin: k.Bin, Lit: k.Data}); err != nil {
			c.Errorf("emit from a handler: %v", err)
		}
	}
	pe := newPeer(c, s, p.WS, "10.0.0.1:1", nil, p.Enc)
	last := time.Now()
	if !p.WS {
		pe.poll.Run(-1)
	}
	var want, pings []wire.Pkt
	step := func(gap time.Duration) bool {
		// keep clear of the boundary itself
		if d := gap - period; d > -2*time.Millisecond && d < 2*time.Millisecond {
			if d < 0 {
				gap = period - 2*time.Millisecond
			} else {
				gap = period + 2*time.Millisecond
			}
		}
		until := last.Add(gap)
		time.Sleep(time.Until(until))
		sim.Wait(func() bool { return true })
		c.Check()
		if gap < period {
			if pe.e.Closed() {
				c.Failf("session closed after %v of silence, interval+timeout is %v", endedAt.Sub(last), period)
			}
			return true
		}
		if !pe.e.Closed() {
			c.Failf("session still open after %v of silence, interval+timeout is %v", gap, period)
		}
		if d := endedAt.Sub(last) - period; d < -time.Millisecond || d > time.Millisecond {
			c.Failf("session closed after %v of silence, interval+timeout is %v", endedAt.Sub(last), period)
		}
		return false
	}
	alive := true
	for _, o := range p.Ops {
		if alive = step(period * time.Duration(o.Gap) / 1000); !alive {
			c.Label("expired")
			break
		}
		var ks []wire.Pkt
		one := func(t byte) {
			k := o.Blob.Msg()
			k.Type = t
			ks = append(ks, k)
		}
		switch o.What {
		case "ping":
			for i := 0; i < o.K; i++ {
				one(wire.EPing)
				ks[i].Data = append(ks[i].Data, fmt.Sprint(i)...)
			}
		case "msg":
			one(wire.EMessage)
		case "noop":
			one(wire.ENoop)
		case "pong":
			one(wire.EPong)
		case "mixed":
			one(wire.EMessage)
			one(wire.EPing)
			one(wire.EMessage)
			one(wire.EPing)
		case "upgrade":
			c.Label("upgraded")
			pe.upgrade(nil)
		}
		for _, k := range ks {
			switch k.Type {
			case wire.EPing:
				pings = append(pings, k)
				k.Type = wire.EPong
				want = append(want, k)
				c.NonTrivial()
			case wire.EMessage:
				want = append(want, k)
			}
		}
		if len(ks) > 0 {
			pe.sendPkts(ks)
		}
		last = time.Now()
		c.Quiet()
		if err := samePkts(c08Got(pe), want); err != nil {
			c.Failf("pongs and echoes received: %v", err)
		}
		c.Check()
		pe.e.mu.Lock()
		err := samePkts(pe.e.Pings, pings)
		pe.e.mu.Unlock()
		if err != nil {
			c.Failf("ping callback: %v", err)
		}
	}
	if alive {
		alive = step(period * time.Duration(p.Last) / 1000)
		c.LabelIf(!alive, "expired")
	}
	if !alive {
		c.NonTrivial()
		if err := pe.e.emit(Blob{}); err == nil {
			c.Failf("emit on an expired session returned no error")
		}
		c.Quiet()
		if pe.ws != nil && pe.ws.Ended() == nil {
			c.Failf("connection of an expired session still open")
		}
		if _, n, _ := pe.e.counts(); n != 1 {
			c.Failf("close callback ran %d times", n)
		}
	}
	if err := samePkts(c08Got(pe), want); err != nil {
		c.Failf("pongs and echoes received in the end: %v", err)
	}
}

// c08Got returns messages and pongs other than the probe's.
func c08Got(pe *peer) (out []wire.Pkt) {
	if pe.poll != nil {
		g, bad := pe.poll.Got()
		if bad != nil {
			pe.c.Errorf("%v", bad)
		}
		for _, k := range g {
			if k.Type == wire.EMessage || k.Type == wire.EPong {
				out = append(out, k)
			}
		}
	}
	if pe.ws != nil {
		g, bad := pe.ws.Got()
		if bad != nil {
			pe.c.Errorf("%v", bad)
		}
		for i, k := range g {
			if k.Type == wire.EMessage || k.Type == wire.EPong && !(pe.poll != nil && i == 0 && string(k.Data) == "probe") {
				out = append(out, k)
			}
		}
	}
	return
}

func init() {
	_ = rand.Int
	kit.Add("C06", "upgrade", "traffic in both directions before, between and after the steps of an upgrade, with gated handlers and stalled connections; non-trivial: messages queued before or during the upgrade",
		8000, 80000, genC06, runC06).Repeat(2)
	kit.Add("C07", "attempts", "failing upgrade attempts of drawn stage and ending, overlapping or not, with traffic, then sometimes a good upgrade; non-trivial: traffic among the attempts",
		9000, 90000, genC07, runC07).Repeat(2)
	kit.Add("C08", "upgrade", "pings and messages before, between and after the steps of an upgrade; non-trivial: a ping among them",
		6000, 80000, func(t *rapid.T) c06Plan { return genC06K(t, "ping", "ping", "ping", "send", "emit") }, runC08Up).Repeat(2)
	kit.Add("C08", "silence", "packets with drawn gaps around interval+timeout on virtual time; non-trivial: a ping answered or an expiry observed",
		30000, 400000, genC08, runC08).OnVirtualTime()
}
