package props

import (
	"net/http"
	"sync"

	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// link is a protocol-level client of one session, on either transport.
type link struct {
	c    *kit.C
	h    http.Handler
	addr string
	hdr  http.Header
	sid  string
	poll *sim.Poll
	w    *worker // client sends, in order

	mu    sync.Mutex
	ws    *sim.WS
	onWS  bool
	nochk bool // send failures are expected
	mixed bool // see crossed

	upgradeHdr http.Header // of the upgrade request, if not hdr
}

func newLink(c *kit.C, h http.Handler, ws bool, addr string, hdr http.Header, enc sim.Enc) *link {
	return newLinkMay(c, h, ws, addr, hdr, enc, nil)
}

// newLinkMay is newLink of a session that the application may end at once, if sidOf is
// set: it tells the session's id if the handshake is refused.
func newLinkMay(c *kit.C, h http.Handler, ws bool, addr string, hdr http.Header, enc sim.Enc, sidOf func() string) *link {
	l := &link{c: c, h: h, addr: addr, hdr: hdr, w: newWorker(), nochk: sidOf != nil}
	if ws {
		l.ws, l.sid = openWS(c, h, addr, hdr)
		l.onWS = true
	} else {
		l.poll = openPollMay(c, h, addr, hdr, enc, sidOf != nil)
		if l.poll.Sid == "" {
			c.Await(func() bool { return sidOf() != "" }, "open callback of a session whose handshake was refused")
			l.poll.Sid = sidOf()
		}
		l.sid = l.poll.Sid
	}
	c.Defer(l.w.stop)
	return l
}

// lenient makes failing sends no violation from now on.
func (p *link) lenient() { p.mu.Lock(); p.nochk = true; p.mu.Unlock() }

func (p *link) strict() bool { p.mu.Lock(); defer p.mu.Unlock(); return !p.nochk }

// crossed tells whether an upgrade was confirmed while polls went on: then nothing is known
// about what those polls return, nor about the order of what arrived on the two transports.
func (p *link) crossed() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.mixed }

func (p *link) cross() { p.mu.Lock(); p.mixed = true; p.mu.Unlock() }

func (p *link) sendNow(pkts []wire.Pkt) {
	p.mu.Lock()
	on, ws := p.onWS, p.ws
	p.mu.Unlock()
	if on {
		for _, k := range pkts {
			if err := ws.Send(k); err != nil && p.strict() {
				p.c.Errorf("client could not send on its WebSocket: %v (reading: %v)", err, ws.Ended())
			}
		}
		return
	}
	call := p.poll.Post(pkts...)
	<-call.DoneChan()
	if v, st := call.Panic(); v != nil {
		p.c.Errorf("post handler panicked: %v\n%s", v, st)
		return
	}
	if code, _, b := call.Result(); code != 200 && p.strict() {
		p.c.Errorf("post answered %d %q", code, b)
	}
}

// raw queues engine packets.
func (p *link) raw(ps ...wire.Pkt) { p.w.do(func() { p.sendNow(ps) }) }

// all returns everything the client received, polls first.
func (p *link) all() (out []wire.Pkt) {
	if p.poll != nil {
		g, bad := p.poll.Got()
		if bad != nil && !p.crossed() {
			p.c.Errorf("poll response: %v", bad)
		}
		out = append(out, g...)
	}
	p.mu.Lock()
	ws := p.ws
	p.mu.Unlock()
	if ws != nil {
		g, bad := ws.Got()
		if bad != nil {
			p.c.Errorf("%v", bad)
		}
		out = append(out, g...)
	}
	return out
}

// got returns the messages the client received.
func (p *link) got() []wire.Pkt { return onlyMsgs(p.all()) }

// ended tells whether the client noticed the end of the session.
func (p *link) ended() bool {
	p.mu.Lock()
	on, ws := p.onWS, p.ws
	p.mu.Unlock()
	if on {
		return ws.Ended() != nil
	}
	return p.poll.Ended()
}

// peer is a link with what both sides of an engine session sent.
type peer struct {
	*link
	s       *engSrv
	e       *esess
	sent    []wire.Pkt
	emitted []wire.Pkt
}

func newPollPeer(c *kit.C, s *engSrv, addr string, hdr http.Header, enc sim.Enc) *peer {
	return newPeer(c, s, false, addr, hdr, enc)
}

func newWSPeer(c *kit.C, s *engSrv, addr string, hdr http.Header) *peer {
	return newPeer(c, s, true, addr, hdr, sim.XHR2)
}

func newPeer(c *kit.C, s *engSrv, ws bool, addr string, hdr http.Header, enc sim.Enc) *peer {
	return newPeerMay(c, s, ws, addr, hdr, enc, nil)
}

func newPeerMay(c *kit.C, s *engSrv, ws bool, addr string, hdr http.Header, enc sim.Enc, sidOf func() string) *peer {
	p := &peer{link: newLinkMay(c, s.S, ws, addr, hdr, enc, sidOf), s: s}
	p.e = s.session(p.sid)
	return p
}

// sendPkts queues packets for sending: one post, or one frame each.
func (p *peer) sendPkts(pkts []wire.Pkt) {
	p.mu.Lock()
	for _, k := range pkts {
		if k.Type == wire.EMessage {
			p.sent = append(p.sent, k)
		}
	}
	p.mu.Unlock()
	p.w.do(func() { p.sendNow(pkts) })
}

func blobMsgs(bs []Blob) []wire.Pkt {
	out := make([]wire.Pkt, len(bs))
	for i, b := range bs {
		out[i] = b.Msg()
	}
	return out
}

// send queues messages for sending, n at a time (0: all at once).
func (p *peer) send(bs []Blob, n int) {
	ms := blobMsgs(bs)
	if n <= 0 {
		n = len(ms)
	}
	for len(ms) > 0 {
		k := min(n, len(ms))
		p.sendPkts(ms[:k])
		ms = ms[k:]
	}
}

// emit queues messages for emission by the application.
func (p *peer) emit(bs []Blob) {
	for _, b := range bs {
		b := b
		p.mu.Lock()
		p.emitted = append(p.emitted, b.Msg())
		p.mu.Unlock()
		p.e.w.do(func() {
			if err := p.e.emit(b); err != nil && p.strict() {
				p.c.Errorf("emit on a healthy session: %v", err)
			}
		})
	}
}

func (p *peer) sentN() int    { p.mu.Lock(); defer p.mu.Unlock(); return len(p.sent) }
func (p *peer) emittedN() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.emitted) }

func (p *peer) settled() bool {
	return p.e.Closed() || p.e.N() >= p.sentN() && len(p.got()) >= p.emittedN() && p.w.idle() && p.e.w.idle()
}

// compare checks both directions against what was sent.
func (p *peer) compare(when string) {
	p.mu.Lock()
	sent, emitted := p.sent, p.emitted
	p.mu.Unlock()
	if p.e.Closed() {
		p.c.Errorf("%s: the session was closed", when)
	}
	if err := samePkts(p.e.Received(), sent); err != nil {
		p.c.Errorf("%s: application received (client to server): %v", when, err)
	}
	if err := samePkts(p.got(), emitted); err != nil {
		p.c.Errorf("%s: client received (server to client): %v", when, err)
	}
	p.c.Check()
}

// finish waits for all traffic to arrive and compares, then again when nothing moves.
func (p *peer) finish(when string) {
	p.c.Reaches(p.settled)
	p.compare(when)
}

// exchange passes one message each way and compares everything.
func (p *peer) exchange(when string) {
	p.send([]Blob{fence()}, 0)
	p.emit([]Blob{fence()})
	p.finish(when)
}

// upgrade performs a correct upgrade. hook is called at each stage:
// 0 connected, 1 probe sent, 2 pong received and polling suspended, 3 confirmation queued.
// It returns once the confirmation was sent.
func (p *link) upgrade(hook func(stage int)) {
	if hook == nil {
		hook = func(int) {}
	}
	ws := sim.DialWS(p.h, "EIO=3&transport=websocket&sid="+p.sid, p.addr, p.upHdr(), nil)
	p.c.Defer(ws.Close)
	pong := make(chan struct{})
	var once sync.Once
	ws.OnPkt(func(k wire.Pkt) {
		if k.Type == wire.EPong && string(k.Data) == "probe" {
			once.Do(func() { p.poll.Hold(); close(pong) })
		}
	})
	p.c.Await(ws.HSDone, "websocket handshake of an upgrade")
	if _, err := ws.Handshaken(); err != nil {
		p.c.Failf("websocket handshake of an upgrade: %v (status %d)", err, ws.Status())
	}
	p.mu.Lock()
	p.ws = ws
	p.mu.Unlock()
	hook(0)
	ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
	hook(1)
	p.await(pong, "pong to the probe")
	hook(2)
	p.await(p.pollsDone(), "answer to the poll in flight when the upgrade began")
	if p.poll.Ended() && p.strict() {
		p.c.Errorf("the poll in flight when the upgrade began was refused")
	}
	sent := make(chan struct{})
	p.w.do(func() {
		p.mu.Lock()
		p.onWS = true
		p.mu.Unlock()
		if err := ws.Send(wire.Pkt{Type: wire.EUpgrade}); err != nil {
			p.c.Errorf("client could not send the upgrade confirmation: %v", err)
		}
		close(sent)
	})
	hook(3)
	p.await(sent, "answers to the posts that precede the confirmation")
}

func (p *link) upHdr() http.Header {
	if p.upgradeHdr != nil {
		return p.upgradeHdr
	}
	return p.hdr
}

// await waits for ch; on virtual time without looking at other goroutines, because an
// upgrade in progress holds locks.
func (p *link) await(ch <-chan struct{}, what string) {
	if sim.Virtual {
		<-ch
		return
	}
	p.c.Await(func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}, "%s", what)
}

func (p *link) pollsDone() <-chan struct{} {
	done := make(chan struct{})
	go func() {
		p.poll.WaitIdle()
		close(done)
	}()
	return done
}

// upgradeChecks verifies what an upgrade leaves behind.
func (p *peer) upgradeChecks() {
	got, _ := p.ws.Got()
	probes := 0
	for _, k := range got {
		switch k.Type {
		case wire.EPong:
			probes++
			if k.Bin || string(k.Data) != "probe" {
				p.c.Failf("probe answered with %s", k)
			}
		case wire.EMessage, wire.ENoop:
		default:
			p.c.Failf("packet %s on the upgraded connection", k)
		}
	}
	if probes != 1 {
		p.c.Failf("probe answered %d times", probes)
	}
	if _, _, n := p.e.counts(); n != 1 {
		p.c.Failf("upgrade announced %d times", n)
	}
	if p.e.Sock.Sid() != p.sid {
		p.c.Failf("session id changed from %s to %s", p.sid, p.e.Sock.Sid())
	}
}
