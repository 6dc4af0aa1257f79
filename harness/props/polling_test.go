package props

import (
	"bytes"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C23: one polling connection ----

type c23Act struct {
	K string `json:"k"` // read write poll post flushin flushout rdl wdl pause resume close abort
	B []Blob `json:"b,omitempty"`
	D int    `json:"d,omitempty"` // deadline in ms from now (0: none, <0: in the past)
	E int    `json:"e,omitempty"` // encoding of a poll or post
	Y int    `json:"y,omitempty"` // yields before the action
}

// c23Step is a burst of actions without waiting between them, then a settled state.
type c23Step struct {
	A  []c23Act `json:"a"`
	Ms int      `json:"ms,omitempty"` // time passing afterwards
}

type c23Plan struct {
	Steps []c23Step `json:"steps"`
}

func genC23(t *rapid.T) c23Plan {
	var p c23Plan
	mode := rapid.IntRange(0, 3).Draw(t, "mode") // biases towards a full out-, full in-queue, or pauses
	for i, n := 0, rapid.IntRange(1, 30).Draw(t, "steps"); i < n; i++ {
		s := c23Step{Ms: rapid.SampledFrom([]int{0, 0, 0, 1, 5, 20, 100, 1000}).Draw(t, "ms")}
		for j, m := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4}).Draw(t, "burst"); j < m; j++ {
			kinds := []string{"read", "write", "poll", "post", "rdl", "wdl", "pause", "resume", "read", "write", "poll", "post", "flushin", "flushout", "abort"}
			switch mode {
			case 1:
				kinds = append(kinds, "write", "write", "write", "write")
			case 2:
				kinds = append(kinds, "post", "post", "post")
			case 3:
				kinds = append(kinds, "pause", "resume", "pause", "resume")
			}
			a := c23Act{K: rapid.SampledFrom(kinds).Draw(t, "k"), Y: rapid.IntRange(0, 3).Draw(t, "y")}
			if i > n/2 && rapid.IntRange(0, 29).Draw(t, "end") == 0 {
				a.K = "close"
			}
			switch a.K {
			case "write", "post":
				for k, x := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3, 9, 12}).Draw(t, "n"); k < x; k++ {
					a.B = append(a.B, Blob{Bin: rapid.Bool().Draw(t, "bin")})
				}
				a.E = rapid.IntRange(0, 1).Draw(t, "enc")
			case "poll":
				a.E = rapid.IntRange(0, 2).Draw(t, "enc")
			case "rdl", "wdl":
				a.D = rapid.SampledFrom([]int{0, 0, -5, 1, 3, 10, 50, 500}).Draw(t, "d")
			}
			s.A = append(s.A, a)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func init() {
	kit.Add("C23", "conn", "an operation was left blocked by one step and released by a later one", 100000, 1500000, genC23, runC23).OnVirtualTime()
}

// toPkt turns an engine packet into the reference representation.
func toPkt(p *engine.Packet) (wire.Pkt, error) {
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil {
		return wire.Pkt{}, err
	}
	ps, err := wire.DecText(b.Bytes())
	if err != nil || len(ps) != 1 {
		return wire.Pkt{}, fmt.Errorf("packet written as %q: %v", b.Bytes(), err)
	}
	return ps[0], nil
}

type pollConn interface {
	engine.Conn
	http.Handler
}

func newPollConn(c *kit.C) pollConn {
	r := sim.Req("GET", "EIO=3&transport=polling", "10.0.0.1:1", nil, nil)
	conn, err := engine.PollingAcceptor.Accept(nil, r)
	if err != nil {
		c.Failf("Accept: %v", err)
	}
	pc, ok := conn.(pollConn)
	if !ok {
		c.Broken("a polling connection does not serve HTTP")
	}
	return pc
}

// mint makes an engine packet, the only way the package offers: by receiving it.
func mint(c *kit.C, conn pollConn, p wire.Pkt) *engine.Packet {
	pc := sim.NewPoll(conn, "10.0.0.1:2", nil, sim.XHR2)
	call := pc.Post(p)
	q, err := conn.ReadPacket()
	if err != nil {
		c.Failf("reading a posted packet: %v", err)
	}
	<-call.DoneChan()
	return q
}

// c23Caps is how much a polling connection queues in each direction, measured.
var c23Caps [2]int
var c23Once sync.Once

func measureCaps(c *kit.C) {
	out := newPollConn(c)
	src := newPollConn(c)
	pk := mint(c, src, wire.Pkt{Type: wire.EMessage, Data: []byte("x")})
	n := 0
	out.SetWriteDeadline(time.Now().Add(time.Second))
	for n < 100 && out.WritePacket(pk) == nil {
		n++
	}
	c23Caps[0] = n
	n = 0
	for n < 100 {
		call := sim.NewPoll(out, "10.0.0.1:2", nil, sim.XHR2).Post(wire.Pkt{Type: wire.EMessage, Data: []byte("x")})
		if !c.Reaches(call.Done) {
			break
		}
		n++
	}
	c23Caps[1] = n
	out.Close()
	src.Close()
	sim.Wait(func() bool { return false })
}

// c23Op is an operation in progress.
type c23Op struct {
	kind     string
	since    time.Time
	step     int
	dls      []time.Time // deadlines in force since it began (zero: none)
	enc      sim.Enc
	call     *sim.Call
	aborted  bool
	pkts     []wire.Pkt // of a write or post
	done     bool
	at       time.Time
	err      error
	got      *wire.Pkt
	mayPause bool // the connection was paused at some moment since it began
	mayClose bool
	n        int // write: how many of pkts were accepted
}

func runC23(c *kit.C, p c23Plan) {
	c23Once.Do(func() { measureCaps(c) })
	conn := newPollConn(c)
	src := newPollConn(c)
	var mu sync.Mutex // guards op results
	var ops []*c23Op  // in progress
	c.Defer(func() {
		conn.Close()
		src.Close()
	})
	var outQ, inQ []wire.Pkt // accepted (or, for inQ, on their way) and not taken
	sure := 0                // how many of inQ are accepted for certain once the connection is closed
	var rdl, wdl time.Time
	paused, closed := false, false
	tag := 0
	find := func(kind string) *c23Op {
		for _, o := range ops {
			if o.kind == kind {
				return o
			}
		}
		return nil
	}
	count := func(kind string) (n int) {
		for _, o := range ops {
			if o.kind == kind {
				n++
			}
		}
		return
	}
	type drain struct {
		got  []wire.Pkt
		what string
	}
	released, full := false, false
	for si, s := range p.Steps {
		var outTaken, inTaken []drain
		var written []wire.Pkt
		desc := ""
		for _, a := range s.A {
			for i := 0; i < a.Y; i++ {
				yield(1)
			}
			what := fmt.Sprintf("step %d, %s", si, a.K)
			desc += " " + a.K
			op := &c23Op{kind: a.K, since: time.Now(), step: si, mayPause: paused, mayClose: closed}
			finish := func(f func()) {
				mu.Lock()
				f()
				op.done, op.at = true, time.Now()
				mu.Unlock()
			}
			switch a.K {
			case "read":
				if count("read") >= 2 {
					continue
				}
				op.dls = []time.Time{rdl}
				ops = append(ops, op)
				go func() {
					pk, err := conn.ReadPacket()
					finish(func() {
						op.err = err
						if err == nil {
							k, e := toPkt(pk)
							if e != nil {
								c.Errorf("%s: %v", what, e)
							}
							op.got = &k
						} else if pk != nil {
							c.Errorf("%s: ReadPacket returned a packet and the error %v", what, err)
						}
					})
				}()
			case "write":
				if find("write") != nil {
					continue
				}
				var eps []*engine.Packet
				for _, b := range a.B {
					tag++
					k := wire.Pkt{Bin: b.Bin, Type: wire.EMessage, Data: []byte(fmt.Sprint("w", tag))}
					op.pkts = append(op.pkts, k)
					eps = append(eps, mint(c, src, k))
				}
				op.dls = []time.Time{wdl}
				ops = append(ops, op)
				go func() {
					for _, ep := range eps {
						if err := conn.WritePacket(ep); err != nil {
							finish(func() { op.err = err })
							return
						}
						mu.Lock()
						op.n++
						mu.Unlock()
					}
					finish(func() {})
				}()
			case "poll":
				if count("poll") >= 2 {
					continue
				}
				op.enc = sim.Enc(a.E)
				op.call = sim.NewPoll(conn, "10.0.0.1:1", nil, op.enc).Get()
				ops = append(ops, op)
				go func() {
					<-op.call.DoneChan()
					finish(func() {})
				}()
			case "post":
				if find("post") != nil {
					continue
				}
				for _, b := range a.B {
					tag++
					op.pkts = append(op.pkts, wire.Pkt{Bin: b.Bin, Type: wire.EMessage, Data: []byte(fmt.Sprint("p", tag))})
				}
				op.call = sim.NewPoll(conn, "10.0.0.1:1", nil, sim.Enc(a.E)).Post(op.pkts...)
				ops = append(ops, op)
				go func() {
					<-op.call.DoneChan()
					finish(func() {})
				}()
				inQ = append(inQ, op.pkts...)
			case "flushin", "flushout":
				var ps []*engine.Packet
				if a.K == "flushin" {
					ps = conn.FlushIn()
				} else {
					ps = conn.FlushOut()
				}
				d := drain{what: what}
				for _, ep := range ps {
					k, err := toPkt(ep)
					if err != nil {
						c.Failf("%s: %v", what, err)
					}
					d.got = append(d.got, k)
				}
				if a.K == "flushin" {
					inTaken = append(inTaken, d)
				} else {
					outTaken = append(outTaken, d)
				}
			case "rdl", "wdl":
				var t time.Time
				if a.D != 0 {
					t = time.Now().Add(time.Duration(a.D) * time.Millisecond)
				}
				kind := "read"
				set := conn.SetReadDeadline
				if a.K == "wdl" {
					kind, set = "write", conn.SetWriteDeadline
				}
				switch err := set(t); {
				case err == nil:
					if a.K == "rdl" {
						rdl = t
					} else {
						wdl = t
					}
					for _, o := range ops {
						if o.kind == kind {
							o.dls = append(o.dls, t)
						}
					}
				case err == engine.ErrPollingConnPaused && paused, err == engine.ErrPollingConnClosed && closed:
				default:
					c.Failf("%s (paused: %v, closed: %v): %v", what, paused, closed, err)
				}
			case "pause":
				if paused || closed {
					continue
				}
				if err := conn.Pause(); err != nil {
					c.Failf("%s: %v", what, err)
				}
				paused = true
			case "resume":
				if !paused || closed {
					continue
				}
				if err := conn.Resume(); err != nil {
					c.Failf("%s: %v", what, err)
				}
				paused = false
			case "close":
				if closed {
					continue
				}
				conn.Close()
				closed = true
			case "abort":
				if o := find("poll"); o != nil && o.step < si {
					o.aborted = true
					o.call.Abort()
				}
			}
			for _, o := range ops {
				o.mayPause = o.mayPause || paused
				o.mayClose = o.mayClose || closed
			}
			c.Check()
		}
		// everything that can happen now happens; then time passes
		for pass := 0; pass < 2; pass++ {
			if pass == 1 {
				if s.Ms == 0 {
					break
				}
				time.Sleep(time.Duration(s.Ms) * time.Millisecond)
			}
			c.Quiet()
			now := time.Now()
			where := fmt.Sprintf("step %d (%s)", si, desc)
			if pass == 1 {
				where += fmt.Sprintf(" and %d ms later", s.Ms)
			}
			mu.Lock()
			var left []*c23Op
			// what the writer got accepted comes first: it can be polled in the same step
			for _, o := range ops {
				if o.kind == "write" {
					written = append(written, o.pkts[:o.n]...)
					o.pkts, o.n = o.pkts[o.n:], 0
				}
			}
			for _, o := range ops {
				if !o.done {
					left = append(left, o)
					continue
				}
				released = released || o.step < si
				name := fmt.Sprintf("%s: a %s started in step %d", where, o.kind, o.step)
				switch o.kind {
				case "read", "write":
					timeouts, closedErr := engine.ErrPollingConnReadTimeout, engine.ErrPollingConnClosed
					if o.kind == "write" {
						timeouts = engine.ErrPollingConnWriteTimeout
					}
					switch {
					case o.err == nil && o.kind == "read":
						inTaken = append(inTaken, drain{[]wire.Pkt{*o.got}, name})
					case o.err == nil:
						if len(o.pkts) > 0 {
							c.Errorf("%s reported success too early", name)
						}
					case o.err == timeouts:
						ok := false
						for _, d := range o.dls {
							if !d.IsZero() && !o.at.Before(d) {
								ok = true
							}
						}
						if !ok {
							c.Errorf("%s reported a timeout after %v, with the deadline %s", name, o.at.Sub(o.since), dlStr(o.dls, o.since))
						}
					case o.err == engine.ErrPollingConnPaused:
						if !o.mayPause {
							c.Errorf("%s reported a pause, but the connection was not paused meanwhile", name)
						}
					case o.err == closedErr:
						if !o.mayClose {
							c.Errorf("%s reported a closed connection, but it was not closed", name)
						}
					default:
						c.Errorf("%s failed: %v", name, o.err)
					}
				case "poll":
					code, _, body := o.call.Result()
					if code != 200 {
						if v, st := o.call.Panic(); v != nil {
							c.Errorf("%s panicked: %v\n%s", name, v, st)
						} else if !o.mayClose && !o.aborted {
							c.Errorf("%s was answered %d %q, but the connection was not closed", name, code, body)
						}
						break
					}
					ps, err := sim.DecodePoll(o.call, o.enc, "0")
					if err != nil {
						c.Errorf("%s: %v", name, err)
						break
					}
					for _, k := range ps {
						if k.Type == wire.ENoop {
							if !o.mayPause {
								c.Errorf("%s was answered with a noop, but the connection was not paused meanwhile", name)
							}
							continue
						}
						outTaken = append(outTaken, drain{[]wire.Pkt{k}, name})
					}
					if len(ps) == 0 {
						c.Errorf("%s was answered with an empty payload", name)
					}
				case "post":
					code, _, body := o.call.Result()
					if v, st := o.call.Panic(); v != nil {
						c.Errorf("%s panicked: %v\n%s", name, v, st)
					} else if code != 200 && !o.mayClose {
						c.Errorf("%s was answered %d %q, but the connection was not closed", name, code, body)
					}
				}
			}
			ops = left
			mu.Unlock()
			c.Check()
			// packets leave in order, each once
			take := func(q []wire.Pkt, ds []drain, dir string) []wire.Pkt {
				idx := map[string]int{}
				for i, k := range q {
					idx[k.String()] = i
				}
				n := 0
				seen := map[int]string{}
				for _, d := range ds {
					last := -1
					for _, k := range d.got {
						i, ok := idx[k.String()]
						if !ok {
							c.Failf("%s: %s produced %s, which is not queued (%s): %s", where, d.what, k, dir, show(q))
						}
						if w, dup := seen[i]; dup {
							c.Failf("%s: %s came out twice: %s and %s", where, k, w, d.what)
						}
						seen[i] = d.what
						if i < last {
							c.Failf("%s: %s produced packets out of order: %s", where, d.what, show(d.got))
						}
						last = i
						n++
					}
				}
				for i := 0; i < n; i++ {
					if _, ok := seen[i]; !ok {
						c.Failf("%s: %s was passed over (%s): %d packets behind it came out", where, q[i], dir, n-i)
					}
				}
				return q[n:]
			}
			full = full || len(outQ)+len(written) > c23Caps[0] || len(inQ) > c23Caps[1]
			outQ = take(append(outQ, written...), outTaken, "written")
			nIn := len(inQ)
			inQ = take(inQ, inTaken, "posted")
			nIn -= len(inQ)
			// what is certain to be queued once closed: everything posted by completed posts
			if closed {
				if po := find("post"); po != nil {
					c.Failf("%s: a post is pending on a closed connection", where)
				}
				for _, d := range inTaken {
					if len(d.what) > 0 && len(d.got) == 0 && sure > 0 {
						break
					}
				}
				sure = max(0, sure-nIn)
			} else {
				sure = len(inQ)
				if po := find("post"); po != nil {
					sure -= min(len(inQ), len(po.pkts))
				}
			}
			written, outTaken, inTaken = nil, nil, nil
			// nothing stays blocked with a reason to go on
			for _, o := range ops {
				name := fmt.Sprintf("%s: a %s started in step %d is still blocked, although", where, o.kind, o.step)
				if closed {
					c.Failf("%s the connection is closed", name)
				}
				if o.aborted {
					c.Failf("%s its client went away", name)
				}
				if paused && o.kind != "post" {
					c.Failf("%s the connection is paused", name)
				}
				if o.kind == "read" || o.kind == "write" {
					late := true
					for _, d := range o.dls {
						if d.IsZero() || now.Before(d.Add(10*time.Millisecond)) {
							late = false
						}
					}
					if late {
						c.Failf("%s its deadline passed: %s", name, dlStr(o.dls, o.since))
					}
				}
				switch o.kind {
				case "read":
					if len(inQ) > 0 {
						c.Failf("%s %d packets are there to be read", name, len(inQ))
					}
				case "poll":
					if len(outQ) > 0 {
						c.Failf("%s %d packets are there to be polled", name, len(outQ))
					}
				case "write":
					if len(outQ) < c23Caps[0] {
						c.Failf("%s only %d packets are queued, and there is room for %d", name, len(outQ), c23Caps[0])
					}
				case "post":
					if len(inQ) <= c23Caps[1] {
						c.Failf("%s only %d packets are queued, its own included, and there is room for %d", name, len(inQ), c23Caps[1])
					}
				}
			}
		}
	}
	// what is queued comes out, paused or closed
	drainAll := func(what string, ps []*engine.Packet) (out []wire.Pkt) {
		for _, ep := range ps {
			k, err := toPkt(ep)
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			out = append(out, k)
		}
		return
	}
	if paused && !closed {
		conn.Resume()
	}
	conn.SetReadDeadline(time.Time{})
	conn.SetWriteDeadline(time.Time{})
	var out []wire.Pkt
	for {
		got := drainAll("the last drain", conn.FlushOut())
		out = append(out, got...)
		c.Quiet()
		if len(got) == 0 {
			break
		}
	}
	mu.Lock()
	if o := find("write"); o != nil {
		outQ = append(outQ, o.pkts[:o.n]...)
	}
	mu.Unlock()
	if err := samePkts(out, outQ); err != nil {
		c.Failf("the last drain of written packets: %v", err)
	}
	var in []wire.Pkt
	rd := count("read")
	for {
		got := drainAll("the last drain", conn.FlushIn())
		in = append(in, got...)
		c.Quiet()
		if len(got) == 0 {
			break
		}
	}
	if rd == 0 {
		if !closed {
			sure = len(inQ)
		}
		if len(in) < sure || len(in) > len(inQ) {
			c.Failf("the last drain of posted packets: got %d, want %d to %d: %s", len(in), sure, len(inQ), show(in))
		}
		if err := samePkts(in, inQ[:len(in)]); err != nil {
			c.Failf("the last drain of posted packets: %v", err)
		}
	}
	c.NonTrivialIf(released)
	c.LabelIf(full, "a queue was full")
	c.LabelIf(closed, "closed")
}

func dlStr(ds []time.Time, since time.Time) string {
	s := ""
	for i, d := range ds {
		if i > 0 {
			s += ", then "
		}
		if d.IsZero() {
			s += "none"
		} else {
			s += d.Sub(since).String()
		}
	}
	return s
}

// ---- C23: everything at once ----

type c23Storm struct {
	In     []int `json:"in"`     // posters: packets of each body
	Out    []int `json:"out"`    // writers: packets of each
	Read   []int `json:"read"`   // readers: how many packets each takes at most (then it stops)
	Poll   []int `json:"poll"`   // polling clients: encoding of each
	InDr   []int `json:"indr"`   // drains of posted packets: repetitions of each
	OutDr  []int `json:"outdr"`  // drains of written packets
	Pauses int   `json:"pauses"` // by one goroutine
	Pre    int   `json:"pre"`    // packets queued in each direction beforehand
	Early  bool  `json:"early"`  // closed while all this goes on
}

func genC23Storm(t *rapid.T) c23Storm {
	list := func(label string, lo, hi, vlo, vhi int) (l []int) {
		for i, n := 0, rapid.IntRange(lo, hi).Draw(t, label); i < n; i++ {
			l = append(l, rapid.IntRange(vlo, vhi).Draw(t, label+"n"))
		}
		return
	}
	p := c23Storm{In: list("in", 0, 3, 1, 12), Out: list("out", 0, 3, 1, 12), Read: list("read", 0, 3, 1, 12), Poll: list("poll", 0, 3, 0, 2),
		InDr: list("indr", 0, 2, 1, 12), OutDr: list("outdr", 0, 2, 1, 12), Pre: rapid.IntRange(0, 8).Draw(t, "pre"), Early: rapid.IntRange(0, 4).Draw(t, "early") == 0}
	if rapid.Bool().Draw(t, "pausing") {
		p.Pauses = rapid.IntRange(1, 6).Draw(t, "pauses")
	}
	return p
}

func init() {
	kit.Add("C23", "storm", "at least two kinds of operation took packets of the same queue", 30000, 600000, genC23Storm, runC23Storm).OnVirtualTime()
}

func runC23Storm(c *kit.C, p c23Storm) {
	c23Once.Do(func() { measureCaps(c) })
	conn := newPollConn(c)
	src := newPollConn(c)
	c.Defer(func() {
		conn.Close()
		src.Close()
	})
	pk := func(dir string, who, n int) wire.Pkt {
		return wire.Pkt{Bin: n%2 == 1, Type: wire.EMessage, Data: []byte(fmt.Sprintf("%s%d.%d", dir, who, n))}
	}
	pre := min(p.Pre, c23Caps[0], c23Caps[1])
	var mu sync.Mutex
	accepted := map[string]bool{} // for certain
	offered := map[string]bool{}
	type taking struct {
		what string
		got  []wire.Pkt
	}
	var took []*taking
	taker := func(what string) *taking {
		x := &taking{what: what}
		took = append(took, x)
		return x
	}
	offer := func(ks ...wire.Pkt) {
		for _, k := range ks {
			offered[string(k.Data)] = true
		}
	}
	accept := func(ks ...wire.Pkt) {
		mu.Lock()
		for _, k := range ks {
			accepted[string(k.Data)] = true
		}
		mu.Unlock()
	}
	for i := 0; i < pre; i++ {
		k := pk("i", 9, i)
		offer(k)
		call := sim.NewPoll(conn, "10.0.0.1:1", nil, sim.B64).Post(k)
		c.Await(call.Done, "a post with room in the queue returns")
		accept(k)
		k = pk("o", 9, i)
		offer(k)
		if err := conn.WritePacket(mint(c, src, k)); err != nil {
			c.Failf("writing to an idle connection: %v", err)
		}
		accept(k)
	}
	var bounded sync.WaitGroup // operations that must end by themselves
	var rest sync.WaitGroup
	start := make(chan struct{})
	early := p.Early
	stop := make(chan struct{})
	run := func(wg *sync.WaitGroup, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	transient := func(err error) bool { return err == engine.ErrPollingConnPaused }
	for w, n := range p.In {
		var ks []wire.Pkt
		for i := 0; i < n; i++ {
			ks = append(ks, pk("i", w, i))
		}
		offer(ks...)
		run(&rest, func() {
			call := sim.NewPoll(conn, "10.0.0.1:1", nil, sim.B64).Post(ks...)
			<-call.DoneChan()
			if v, st := call.Panic(); v != nil {
				c.Errorf("a post panicked: %v\n%s", v, st)
			}
			if code, _, body := call.Result(); code == 200 {
				accept(ks...)
			} else {
				select {
				case <-stop:
				default:
					c.Errorf("a post was answered %d %q, but the connection was not closed", code, body)
				}
			}
		})
	}
	for w, n := range p.Out {
		var ks []wire.Pkt
		var eps []*engine.Packet
		for i := 0; i < n; i++ {
			ks = append(ks, pk("o", w, i))
			eps = append(eps, mint(c, src, ks[i]))
		}
		offer(ks...)
		run(&rest, func() {
			for i := 0; i < len(eps); {
				err := conn.WritePacket(eps[i])
				switch {
				case err == nil:
					accept(ks[i])
					i++
				case transient(err):
					yield(1)
				default:
					select {
					case <-stop:
					default:
						c.Errorf("a write failed: %v", err)
					}
					return
				}
			}
		})
	}
	for w, n := range p.Read {
		x := taker(fmt.Sprint("reader ", w))
		run(&rest, func() {
			for i := 0; i < n; {
				ep, err := conn.ReadPacket()
				switch {
				case err == nil:
					k, e := toPkt(ep)
					if e != nil {
						c.Errorf("%v", e)
					}
					x.got = append(x.got, k)
					i++
				case transient(err):
					yield(1)
				default:
					return
				}
			}
		})
	}
	for w, e := range p.Poll {
		x := taker(fmt.Sprint("client ", w))
		run(&rest, func() {
			for {
				call := sim.NewPoll(conn, "10.0.0.1:1", nil, sim.Enc(e)).Get()
				<-call.DoneChan()
				if code, _, _ := call.Result(); code != 200 {
					return
				}
				ks, err := sim.DecodePoll(call, sim.Enc(e), "0")
				if err != nil {
					c.Errorf("poll: %v", err)
					return
				}
				for _, k := range ks {
					if k.Type == wire.ENoop {
						yield(1)
						continue
					}
					x.got = append(x.got, k)
				}
			}
		})
	}
	drain := func(what string, n int, f func() []*engine.Packet) {
		x := taker(what)
		run(&bounded, func() {
			for i := 0; i < n; i++ {
				for _, ep := range f() {
					k, e := toPkt(ep)
					if e != nil {
						c.Errorf("%v", e)
					}
					x.got = append(x.got, k)
				}
			}
		})
	}
	for w, n := range p.InDr {
		drain(fmt.Sprint("drain of posted packets ", w), n, conn.FlushIn)
	}
	for w, n := range p.OutDr {
		drain(fmt.Sprint("drain of written packets ", w), n, conn.FlushOut)
	}
	if p.Pauses > 0 {
		run(&bounded, func() {
			for i := 0; i < p.Pauses; i++ {
				conn.Pause()
				yield(3)
				conn.Resume()
				yield(2)
			}
		})
	}
	if early {
		run(&bounded, func() {
			yield(5)
			close(stop)
			conn.Close()
		})
	}
	close(start)
	var ended bool
	go func() {
		bounded.Wait()
		mu.Lock()
		ended = true
		mu.Unlock()
	}()
	c.Await(func() bool { mu.Lock(); defer mu.Unlock(); return ended }, "drains, pauses and the close return while reads, polls, posts and writes go on")
	c.Quiet()
	// whatever is still queued or waiting for room comes out
	last := taker("the last drains")
	for {
		got := append(conn.FlushIn(), conn.FlushOut()...)
		for _, ep := range got {
			k, err := toPkt(ep)
			if err != nil {
				c.Failf("%v", err)
			}
			last.got = append(last.got, k)
		}
		c.Quiet()
		if len(got) == 0 {
			break
		}
	}
	if !early {
		close(stop)
		conn.Close()
	}
	done := make(chan struct{})
	go func() {
		rest.Wait()
		close(done)
	}()
	c.Await(func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}, "reads, polls, posts and writes return once the connection is closed")
	by := map[string]string{}
	kinds := map[byte]int{}
	for _, x := range took {
		next := map[string]int{} // by producer
		var dirs [2]bool
		for _, k := range x.got {
			id := string(k.Data)
			if !offered[id] {
				c.Failf("%s took %s, which nobody sent", x.what, k)
			}
			if w, dup := by[id]; dup {
				c.Failf("%s came out twice: from %s and %s", k, w, x.what)
			}
			by[id] = x.what
			var n int
			who := id[:2]
			fmt.Sscanf(id[3:], "%d", &n)
			if k.Bin != (n%2 == 1) || k.Type != wire.EMessage {
				c.Failf("%s came out as %s", id, k)
			}
			if n < next[who] {
				c.Failf("%s took the packets of one sender out of order: %s", x.what, show(x.got))
			}
			next[who] = n + 1
			dirs[map[byte]int{'i': 0, 'o': 1}[id[0]]] = true
		}
		for i, d := range dirs {
			if d {
				kinds["io"[i]]++
			}
		}
	}
	if !early {
		for id := range accepted {
			if by[id] == "" {
				c.Failf("%s was accepted and never came out", id)
			}
		}
	}
	c.NonTrivialIf(kinds['i'] > 1 || kinds['o'] > 1)
	c.LabelIf(p.Pauses > 0, "pauses")
	c.LabelIf(early, "closed early")
}
