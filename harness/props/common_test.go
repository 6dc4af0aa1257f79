package props

import (
	"bytes"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// long is a period no case on real time ever waits for.
const long = time.Hour

// Blob is message content, written compactly: N pseudo-random bytes if N>0, else Lit.
type Blob struct {
	Bin  bool   `json:"bin,omitempty"`
	Lit  []byte `json:"lit,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint32 `json:"seed,omitempty"`
}

const textAlphabet = "abcxyz0129 :;,.[]{}\"'\\/<>&\n\t\r-_%é語\u2028😀b4"

var textRunes = []rune(textAlphabet)

// Bytes expands the blob.
func (b Blob) Bytes() []byte {
	if b.N <= 0 {
		return append([]byte{}, b.Lit...)
	}
	s := b.Seed*2654435761 + 12345
	next := func() uint32 {
		s ^= s << 13
		s ^= s >> 17
		s ^= s << 5
		return s
	}
	if s == 0 {
		s = 1
	}
	out := make([]byte, 0, b.N+4)
	for len(out) < b.N {
		if b.Bin {
			out = append(out, byte(next()>>11))
			continue
		}
		r := []byte(string(textRunes[int(next()>>9)%len(textRunes)]))
		if len(out)+len(r) > b.N {
			r = []byte{'x'}
		}
		out = append(out, r...)
	}
	return out[:b.N]
}

// Msg is the engine message packet holding the blob.
func (b Blob) Msg() wire.Pkt { return wire.Pkt{Bin: b.Bin, Type: wire.EMessage, Data: b.Bytes()} }

var trickyText = []string{"", "a", "4", "b4", "\"", "\\", "\n", "a\"b\\c\nd\r\t", "</script><!--", "\u2028\u2029", "0:", "3:4ab",
	"é", "語語語", "😀", "{\"a\":1}", "probe", "\x00", "&<>'", "\xef\xbb\xbf", "%25%0a", "___eio[0](\"\");"}

// genBlob draws message content; size classes cross every buffer boundary in the library.
func genBlob(t *rapid.T, label string, maxN int) Blob {
	b := Blob{Bin: rapid.Bool().Draw(t, label+".bin")}
	switch rapid.IntRange(0, 9).Draw(t, label+".class") {
	case 0, 1, 2, 3:
		if b.Bin {
			b.Lit = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, label+".lit")
		} else {
			b.Lit = []byte(rapid.SampledFrom(trickyText).Draw(t, label+".lit"))
		}
	case 4, 5:
		if b.Bin {
			b.Lit = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, label+".lit")
		} else {
			b.Lit = []byte(rapid.StringN(0, 40, -1).Draw(t, label+".lit"))
		}
	case 6, 7:
		b.N = rapid.IntRange(1, min(maxN, 1200)).Draw(t, label+".n")
		b.Seed = uint32(rapid.IntRange(0, 1<<20).Draw(t, label+".seed"))
	default:
		base := rapid.SampledFrom([]int{98, 255, 510, 765, 1022, 2046, 3070, 4094, 6141, 8190, 16380, 65530, 131070}).Draw(t, label+".base")
		b.N = min(max(1, base+rapid.IntRange(-4, 8).Draw(t, label+".off")), maxN)
		b.Seed = uint32(rapid.IntRange(0, 1<<20).Draw(t, label+".seed"))
	}
	return b
}

// genSmall draws short message content.
func genSmall(t *rapid.T, label string) Blob { return genBlob(t, label, 300) }

// esess is what the application side of an engine server saw of one session.
type esess struct {
	srv   *engSrv
	Sock  *engine.Socket
	Sid   string
	mu    sync.Mutex
	Msgs  []wire.Pkt
	kept  [][]byte // the very bytes the handler was given
	Pings []wire.Pkt
	Pongs int
	Opens, Closes, Upgrades,
	AfterClose int
	in int
	w  *worker
}

// engSrv is an engine server with a recording application.
type engSrv struct {
	c     *kit.C
	S     *engine.Server
	mu    sync.Mutex
	bySid map[string]*esess
	All   []*esess
	keep  bool // what handlers were given must not change afterwards
	// hooks
	OnOpen func(*esess)
	OnMsg  func(e *esess, n int, p wire.Pkt)
	OnEnd  func(e *esess)
	OnUp   func(e *esess)
}

func newEngSrv(c *kit.C, interval, timeout time.Duration, oc ...engine.OriginChecker) *engSrv {
	s := &engSrv{c: c, bySid: map[string]*esess{}}
	var err error
	s.S, err = engine.NewServer(interval, timeout, func(so *engine.Socket) {
		e := s.get(so)
		e.mu.Lock()
		e.Opens++
		if e.Opens > 1 {
			c.Errorf("open callback ran %d times for session %s", e.Opens, e.Sid)
		}
		e.mu.Unlock()
		if f := s.OnOpen; f != nil {
			f(e)
		}
	}, oc...)
	if err != nil {
		c.Failf("NewServer: %v", err)
	}
	pk := func(t engine.MessageType, ty byte, data []byte) wire.Pkt {
		if t != engine.MessageTypeString && t != engine.MessageTypeBinary {
			c.Errorf("handler called with message type %d", t)
		}
		return wire.Pkt{Bin: t == engine.MessageTypeBinary, Type: ty, Data: append([]byte{}, data...)}
	}
	s.S.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		e := s.get(so)
		e.enter("message")
		p := pk(t, wire.EMessage, data)
		e.mu.Lock()
		n := len(e.Msgs)
		e.Msgs = append(e.Msgs, p)
		if s.keep {
			e.kept = append(e.kept, data)
		}
		if e.Closes > 0 {
			e.AfterClose++
		}
		e.mu.Unlock()
		if f := s.OnMsg; f != nil {
			f(e, n, p)
		}
		e.leave()
	}))
	s.S.On(engine.EventPing, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		e := s.get(so)
		e.enter("ping")
		e.mu.Lock()
		e.Pings = append(e.Pings, pk(t, wire.EPing, data))
		e.mu.Unlock()
		e.leave()
	}))
	s.S.On(engine.EventPong, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		e := s.get(so)
		e.mu.Lock()
		e.Pongs++
		e.mu.Unlock()
	}))
	s.S.On(engine.EventClose, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		e := s.get(so)
		e.mu.Lock()
		e.Closes++
		e.mu.Unlock()
		if f := s.OnEnd; f != nil {
			f(e)
		}
	}))
	s.S.On(engine.EventUpgrade, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		e := s.get(so)
		e.mu.Lock()
		e.Upgrades++
		e.mu.Unlock()
		if f := s.OnUp; f != nil {
			f(e)
		}
	}))
	c.Defer(s.shutdown)
	return s
}

func (e *esess) enter(what string) {
	e.mu.Lock()
	e.in++
	if e.in > 1 {
		e.srv.c.Errorf("session %s: a %s handler started while another handler of the session was running", e.Sid, what)
	}
	e.mu.Unlock()
}

func (e *esess) leave() { e.mu.Lock(); e.in--; e.mu.Unlock() }

func (s *engSrv) get(so *engine.Socket) *esess {
	sid := so.Sid()
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.bySid[sid]
	if e == nil {
		e = &esess{srv: s, Sock: so, Sid: sid, w: newWorker()}
		s.bySid[sid] = e
		s.All = append(s.All, e)
	} else if e.Sock != so {
		s.c.Errorf("two sockets with session id %s", sid)
	}
	return e
}

// Find returns the session once its open callback ran.
func (s *engSrv) Find(sid string) *esess {
	s.mu.Lock()
	e := s.bySid[sid]
	s.mu.Unlock()
	if e == nil {
		return nil
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.Opens == 0 {
		return nil
	}
	return e
}

func (s *engSrv) sessions() []*esess {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*esess(nil), s.All...)
}

// byHeader is the id of the session whose handshake had a header (empty: none yet).
func (s *engSrv) byHeader(key, val string) string {
	for _, e := range s.sessions() {
		if e.Sock.GetHeader(key) == val {
			return e.Sid
		}
	}
	return ""
}

func (s *engSrv) shutdown() {
	s.S.Close()
	for _, e := range s.sessions() {
		e.mu.Lock()
		for i, b := range e.kept {
			if !bytes.Equal(b, e.Msgs[i].Data) {
				s.c.Errorf("message %d of a session changed after its handler was given it: %s", i, diffAt(b, e.Msgs[i].Data))
				break
			}
		}
		e.mu.Unlock()
		e.w.stop()
		go e.Sock.Close()
	}
}

// session waits for the open callback of a session.
func (s *engSrv) session(sid string) *esess {
	s.c.Await(func() bool { return s.Find(sid) != nil }, "open callback of session %s", sid)
	return s.Find(sid)
}

// N is the number of messages the application has received.
func (e *esess) N() int { e.mu.Lock(); defer e.mu.Unlock(); return len(e.Msgs) }

// Received returns the messages.
func (e *esess) Received() []wire.Pkt {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.Msgs[:len(e.Msgs):len(e.Msgs)]
}

// Closed tells whether the close event ran.
func (e *esess) Closed() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.Closes > 0 }

func (e *esess) counts() (opens, closes, upgrades int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.Opens, e.Closes, e.Upgrades
}

// emit sends a message from the application, on the calling goroutine.
func (e *esess) emit(b Blob) error {
	t := engine.MessageTypeString
	if b.Bin {
		t = engine.MessageTypeBinary
	}
	return e.Sock.Emit(engine.EventMessage, t, b.Bytes())
}

// worker runs queued functions on one goroutine of its own.
type worker struct {
	mu      sync.Mutex
	cond    *sync.Cond
	q       []func()
	pending int
	quit    bool
}

func newWorker() *worker {
	w := &worker{}
	w.cond = sync.NewCond(&w.mu)
	return w
}

func (w *worker) do(f func()) {
	w.mu.Lock()
	w.pending++
	w.q = append(w.q, f)
	if w.pending == 1 {
		go w.loop()
	}
	w.mu.Unlock()
}

// loop lives while there is work, so that an idle worker leaves no goroutine.
func (w *worker) loop() {
	for {
		w.mu.Lock()
		if len(w.q) == 0 || w.quit {
			w.mu.Unlock()
			return
		}
		f := w.q[0]
		w.q = w.q[1:]
		w.mu.Unlock()
		f()
		w.mu.Lock()
		w.pending--
		last := w.pending == 0
		w.mu.Unlock()
		if last {
			return
		}
	}
}

func (w *worker) idle() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.pending == 0 }

func (w *worker) stop() { w.mu.Lock(); w.quit = true; w.mu.Unlock() }

// openPoll opens a polling session.
func openPoll(c *kit.C, h http.Handler, addr string, hdr http.Header, e sim.Enc) *sim.Poll {
	return openPollMay(c, h, addr, hdr, e, false)
}

// openPollMay is openPoll of a session that the application may end at once: then its
// handshake may be refused, and the result has no session id.
func openPollMay(c *kit.C, h http.Handler, addr string, hdr http.Header, e sim.Enc, may bool) *sim.Poll {
	p := sim.NewPoll(h, addr, hdr, e)
	call := p.Get()
	c.Await(call.Done, "answer to a polling handshake")
	if code, _, _ := call.Result(); may && code >= 400 && code < 500 {
		p.Take(call)
		return p
	}
	pkts, err := sim.DecodePoll(call, e, p.J)
	if err != nil {
		c.Failf("polling handshake (%s): %v", e, err)
	}
	if len(pkts) == 0 {
		c.Failf("polling handshake answered with an empty payload")
	}
	sid, _, _, _, err := sim.ParseOpen(pkts[0])
	if err != nil {
		c.Failf("polling handshake: %v", err)
	}
	p.Sid = sid
	p.Give(pkts[1:])
	c.Defer(func() { p.Stop(true) })
	return p
}

// openWS opens a WebSocket session.
func openWS(c *kit.C, h http.Handler, addr string, hdr http.Header) (*sim.WS, string) {
	w := sim.DialWS(h, "EIO=3&transport=websocket", addr, hdr, nil)
	c.Defer(w.Close)
	c.Await(func() bool { return w.N() > 0 || w.Ended() != nil }, "open packet on a WebSocket session")
	got, bad := w.Got()
	if bad != nil || len(got) == 0 {
		c.Failf("WebSocket handshake: %v %v", w.Ended(), bad)
	}
	sid, _, _, _, err := sim.ParseOpen(got[0])
	if err != nil {
		c.Failf("WebSocket handshake: %v", err)
	}
	return w, sid
}

func show(ps []wire.Pkt) string {
	var b bytes.Buffer
	for i, p := range ps {
		if i > 0 {
			b.WriteString(" ")
		}
		if i >= 40 {
			fmt.Fprintf(&b, "... (%d)", len(ps))
			break
		}
		b.WriteString(p.String())
	}
	return b.String()
}

// samePkts compares two packet sequences and describes the first difference.
func samePkts(got, want []wire.Pkt) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("packet %d of %d is missing: %s", i+1, len(want), want[i])
		case i >= len(want):
			return fmt.Errorf("packet %d is one too many: %s", i+1, got[i])
		case !got[i].Eq(want[i]):
			return fmt.Errorf("packet %d is %s, want %s%s", i+1, got[i], want[i], diffAt(got[i].Data, want[i].Data))
		}
	}
	return nil
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf(" (%d and %d bytes, first difference at %d)", len(a), len(b), i)
}

// noPanic fails the case if the handler of a call panicked.
func noPanic(c *kit.C, call *sim.Call) {
	if v, st := call.Panic(); v != nil {
		c.Failf("request handler panicked: %v\n%s", v, st)
	}
}

// onlyMsgs drops everything but messages.
func onlyMsgs(ps []wire.Pkt) (out []wire.Pkt) {
	for _, p := range ps {
		if p.Type == wire.EMessage {
			out = append(out, p)
		}
	}
	return
}

var fenceCount int

// fence is a message unlike any generated one.
func fence() Blob {
	fenceCount++
	return Blob{Lit: []byte(fmt.Sprintf("--fence-%d--", fenceCount))}
}
