package props

import (
	"fmt"
	"net/http"
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"
	"weak"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C22: the memory of an ended session is given back while its server goes on

type c22MemSess struct {
	WS    bool    `json:"ws,omitempty"`
	Enc   sim.Enc `json:"enc,omitempty"`
	Up    bool    `json:"up,omitempty"`
	Half  int     `json:"half"` // stage of an upgrade attempt in progress (-1: none)
	Join  int     `json:"join,omitempty"`
	Leave int     `json:"leave,omitempty"`
	Root  bool    `json:"root,omitempty"`  // "/" is left as well, once all else has been done
	Asks  int     `json:"asks,omitempty"`  // emits whose acknowledgement never comes
	Reply int     `json:"reply,omitempty"` // emits acknowledged
	Sends int     `json:"sends,omitempty"` // events (messages) the client sends
	Part  bool    `json:"part,omitempty"`  // an incomplete packet
	Queue int     `json:"queue,omitempty"` // emits nobody polls for
	Set   bool    `json:"set,omitempty"`   // the application sets a header
	End   string  `json:"end"`
}

type c22Mem struct {
	Sio   bool         `json:"sio,omitempty"`
	Msgp  bool         `json:"msgp,omitempty"`
	Sess  []c22MemSess `json:"sess"`
	Keep  []int        `json:"keep,omitempty"` // sessions opened that stay
	Again bool         `json:"again,omitempty"`
}

func init() {
	kit.Add("C22", "memory", "a session with an upgrade, a namespace, an unanswered emit or an incomplete packet ended", 1600, 20000, func(t *rapid.T) c22Mem {
		p := c22Mem{Sio: rapid.IntRange(0, 2).Draw(t, "sio") > 0, Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0, Again: rapid.Bool().Draw(t, "again")}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "sessions"); i < n; i++ {
			l := fmt.Sprint("s", i)
			s := c22MemSess{WS: rapid.Bool().Draw(t, l+".ws"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, l+".enc")), Half: -1}
			ends := []string{"closepkt", "app", "app2", "inmsg"}
			if !s.WS {
				switch rapid.IntRange(0, 2).Draw(t, l+".up") {
				case 0:
					s.Up = true
				case 1:
					s.Half = rapid.IntRange(0, 2).Draw(t, l+".half")
				}
			}
			if s.WS || s.Up {
				ends = append(ends, "drop", "closeframe", "garbage")
			}
			if p.Sio {
				s.Join = rapid.IntRange(0, 3).Draw(t, l+".join")
				s.Leave = rapid.IntRange(0, s.Join).Draw(t, l+".leave")
				s.Root = s.Join > s.Leave && rapid.IntRange(0, 2).Draw(t, l+".root") == 0
				s.Asks = rapid.SampledFrom([]int{0, 1, 5}).Draw(t, l+".asks")
				s.Reply = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, l+".reply")
				s.Part = !s.Root && rapid.Bool().Draw(t, l+".part")
			}
			s.Sends = rapid.SampledFrom([]int{0, 1, 5}).Draw(t, l+".sends")
			s.Queue = rapid.SampledFrom([]int{0, 0, 2, 8}).Draw(t, l+".queue")
			s.Set = rapid.Bool().Draw(t, l+".set")
			s.End = rapid.SampledFrom(ends).Draw(t, l+".end")
			p.Sess = append(p.Sess, s)
		}
		p.Keep = rapid.SliceOfN(rapid.IntRange(0, 1), 0, 2).Draw(t, "keep")
		return p
	}, runC22Mem)
}

// mem follows objects without keeping them.
type mem struct {
	mu   sync.Mutex
	weak map[string][]weak.Pointer[byte] // by session
	eng  map[string]*engine.Socket       // of live sessions
	sio  map[string]socketio.Socket
	ends map[string]int
	last map[string]string // namespace whose disconnect handler tells the end of the session
	n    map[string]int
	acks int
}

// follow records the object x points to. The cast is only to name its address: weak
// pointers work by address, and these objects are no tiny allocations.
func (m *mem) follow(sid string, x interface{}) {
	p := weak.Make((*byte)(unsafe.Pointer(reflect.ValueOf(x).Pointer())))
	m.mu.Lock()
	m.weak[sid] = append(m.weak[sid], p)
	m.mu.Unlock()
}

func (m *mem) alive(sid string) (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, p := range m.weak[sid] {
		if p.Value() != nil {
			n++
		}
	}
	return
}

func (m *mem) end(sid, nsp string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if l := m.last[sid]; l != nsp && (l != "" || nsp != "/") {
		return
	}
	m.ends[sid]++
	delete(m.eng, sid)
	delete(m.sio, sid)
}

func (m *mem) get(sid string) (*engine.Socket, socketio.Socket) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.eng[sid], m.sio[sid]
}

func (m *mem) came(sid string) { m.mu.Lock(); m.n[sid]++; m.mu.Unlock() }

func (m *mem) count(sid string) int { m.mu.Lock(); defer m.mu.Unlock(); return m.n[sid] }

var memNSPs = []string{"/a", "/b", "/a/c"}

func (m *mem) server(c *kit.C, p c22Mem) http.Handler {
	if !p.Sio {
		s, err := engine.NewServer(long, long, func(so *engine.Socket) {
			m.follow(so.Sid(), so)
			m.mu.Lock()
			m.eng[so.Sid()] = so
			m.mu.Unlock()
		})
		if err != nil {
			c.Failf("NewServer: %v", err)
		}
		s.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, _ engine.MessageType, data []byte) {
			m.came(so.Sid())
			if string(data) == "close" {
				so.Close()
			}
		}))
		s.On(engine.EventClose, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) { m.end(so.Sid(), "/") }))
		c.Defer(func() { s.Close() })
		return s
	}
	s, err := socketio.NewServer(long, long, parserOf(p.Msgp))
	if err != nil {
		c.Failf("NewServer: %v", err)
	}
	for _, n := range append([]string{"/"}, memNSPs...) {
		n := n
		ns := s.Namespace(n)
		ns.OnConnect(func(so socketio.Socket) {
			m.follow(so.Sid(), so)
			if n == "/" {
				m.mu.Lock()
				m.sio[so.Sid()] = so
				m.mu.Unlock()
			}
			m.came(so.Sid())
		})
		ns.OnDisconnect(func(so socketio.Socket) {
			m.came(so.Sid())
			m.end(so.Sid(), n)
		})
		ns.OnEvent("x", func(so socketio.Socket, x string) {
			m.follow(so.Sid(), so)
			m.came(so.Sid())
			if x == "close" {
				so.Close()
			}
		})
	}
	c.Defer(func() { s.Close() })
	return s
}

func (m *mem) emit(sid string, i int) error {
	e, s := m.get(sid)
	if e != nil {
		return e.Emit(engine.EventMessage, engine.MessageTypeString, fmt.Sprint("q", i))
	}
	if s != nil {
		return s.Emit("q", i)
	}
	return nil
}

// ask emits with a callback that holds memory of its own.
func (m *mem) ask(sid, name string, i int) error {
	big := new([64]*int)
	m.follow(sid, big)
	_, s := m.get(sid)
	return s.Emit(name, i, func(so socketio.Socket, x int) {
		m.mu.Lock()
		defer m.mu.Unlock()
		m.acks++
		if big[0] != nil {
			m.acks = -1 << 30
		}
	})
}

// run lives one session to its end.
func (m *mem) run(c *kit.C, h http.Handler, p c22Mem, q c22MemSess, addr string) string {
	l := newLink(c, h, q.WS, addr, http.Header{"X-Client": {addr}}, q.Enc)
	k := &sioCli{link: l, msgp: p.Msgp}
	k.asm.msgp = p.Msgp
	sid := l.sid
	l.lenient()
	c.Await(func() bool { e, s := m.get(sid); return e != nil || s != nil }, "open callback")
	if n := m.alive(sid); n == 0 {
		c.Broken("the socket of a live session cannot be followed")
	}
	want := 0
	if p.Sio {
		want++
	}
	wait := func(what string) {
		c.Await(func() bool { return m.count(sid) >= want }, "%s", what)
	}
	if q.Set {
		if e, s := m.get(sid); e != nil {
			e.SetHeader("X-Set", addr)
		} else {
			s.SetHeader("X-Set", addr)
		}
	}
	polling := false
	poll := func() {
		if l.poll != nil && !polling && !l.onWS {
			polling = true
			l.poll.Run(-1)
		}
	}
	if q.Join+q.Reply > 0 || q.Up {
		poll()
	}
	for i := 0; i < q.Join; i++ {
		k.send(SP{Type: wire.SConnect, NSP: memNSPs[i]})
		want++
	}
	wait("connect handlers")
	for i := 0; i < q.Leave; i++ {
		k.send(SP{Type: wire.SDisconnect, NSP: memNSPs[i]})
		want++
	}
	for i := 0; i < q.Reply; i++ {
		if err := m.ask(sid, "reply", i); err != nil {
			c.Failf("emit: %v", err)
		}
		find := func() *uint64 {
			for _, x := range k.events() {
				if x.ID != nil && canon(x.Args[0]) == `"reply"` && canon(x.Args[1]) == fmt.Sprint(i) {
					return x.ID
				}
			}
			return nil
		}
		c.Await(func() bool { return find() != nil }, "an event that asks for an acknowledgement")
		m.mu.Lock()
		n := m.acks
		m.mu.Unlock()
		k.send(ackPkt("/", *find(), intVal(int64(i))))
		c.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.acks > n }, "ack callback")
	}
	if q.Up {
		u := &peer{link: l}
		u.upgrade(nil)
	}
	for i := 0; i < q.Sends; i++ {
		if p.Sio {
			k.send(evPkt("/", "x", strVal("open")))
		} else {
			k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("m")})
		}
		want++
	}
	wait("handlers")
	if q.Part && !p.Msgp {
		k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte(`52-["x",{"_placeholder":true,"num":0}]`)}, wire.Pkt{Bin: true, Type: wire.EMessage, Data: make([]byte, 2000)})
	} else if q.Part {
		k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("{")})
	}
	for i := 0; i < q.Asks; i++ {
		if err := m.ask(sid, "ask", i); err != nil {
			c.Failf("emit: %v", err)
		}
	}
	for i := 0; i < q.Queue; i++ {
		if err := m.emit(sid, i); err != nil {
			c.Failf("emit: %v", err)
		}
	}
	if q.Root {
		m.mu.Lock()
		m.last[sid] = memNSPs[q.Join-1]
		m.mu.Unlock()
		k.send(SP{Type: wire.SDisconnect, NSP: "/"})
		want++
		wait("disconnect handler")
	}
	var half *sim.WS
	if q.Half >= 0 {
		half = k.halfUpgrade(q.Half)
	}
	end := q.End
	l.mu.Lock()
	ws, on := l.ws, l.onWS
	l.mu.Unlock()
	if !on && end != "closepkt" {
		poll() // a close of the application waits for what is to be sent
	}
	switch end {
	case "closepkt":
		k.raw(wire.Pkt{Type: wire.EClose})
	case "app", "app2":
		for i := 0; i < len(end)-2; i++ {
			go func() {
				if e, s := m.get(sid); e != nil {
					e.Close()
				} else if s != nil {
					s.Close()
				}
			}()
		}
	case "inmsg":
		if p.Sio {
			n := "/"
			if q.Root {
				n = memNSPs[q.Join-1]
			}
			k.send(evPkt(n, "x", strVal("close")))
		} else {
			k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("close")})
		}
	case "drop":
		ws.Close()
	case "closeframe":
		ws.CloseFrame()
	case "garbage":
		ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4})
	}
	if half != nil && end != "app" && end != "app2" { // what is posted meanwhile waits for the end of the attempt
		time.Sleep(20 * time.Microsecond)
		half.Close()
	}
	return sid
}

func runC22Mem(c *kit.C, p c22Mem) {
	m := &mem{weak: map[string][]weak.Pointer[byte]{}, eng: map[string]*engine.Socket{}, sio: map[string]socketio.Socket{}, ends: map[string]int{}, last: map[string]string{}, n: map[string]int{}}
	h := m.server(c, p)
	var kept []string
	for i, k := range p.Keep {
		l := newLink(c, h, k == 1, fmt.Sprintf("10.9.0.%d:1", i+1), nil, sim.XHR2)
		l.lenient()
		kept = append(kept, l.sid)
	}
	var sids []string
	rounds := 1
	if p.Again {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		for i, q := range p.Sess {
			sids = append(sids, m.run(c, h, p, q, fmt.Sprintf("10.0.%d.%d:1", r, i+1)))
		}
	}
	c.Await(func() bool {
		m.mu.Lock()
		defer m.mu.Unlock()
		for _, s := range sids {
			if m.ends[s] == 0 {
				return false
			}
		}
		return true
	}, "ends of the sessions")
	c.Quiet()
	left := func() (bad []string) {
		for i, s := range sids {
			if n := m.alive(s); n > 0 {
				bad = append(bad, fmt.Sprintf("session %d (end %s): %d of %d objects", i%len(p.Sess), p.Sess[i%len(p.Sess)].End, n, len(m.weak[s])))
			}
		}
		return
	}
	for i := 0; i < 12 && len(left()) > 0; i++ {
		runtime.GC()
		if i > 1 {
			c.Quiet()
			time.Sleep(time.Duration(i) * time.Millisecond)
		}
	}
	if bad := left(); len(bad) > 0 {
		c.Failf("sessions have ended, but the server keeps them in memory: %v", bad)
	}
	for i, s := range kept {
		if m.alive(s) == 0 {
			c.Failf("session %d is alive, but the server has forgotten it", i)
		}
	}
	runtime.KeepAlive(h)
	for _, q := range p.Sess {
		c.NonTrivialIf(q.Up || q.Half >= 0 || q.Join > 0 || q.Asks > 0 || q.Part)
		c.Label("end: " + q.End)
	}
	for _, q := range p.Sess {
		c.LabelIf(q.Root, "left the root namespace")
	}
	c.LabelIf(p.Sio, "socket.io")
}
