package props

import (
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C20: the client ----

// oneConn is a dialer whose connection is already there.
type oneConn struct {
	conn engine.Conn
	err  error
	url  string
	hdr  http.Header
}

func (d *oneConn) Dial(rawurl string, h http.Header) (engine.Conn, error) {
	d.url, d.hdr = rawurl, h
	if d.err != nil {
		return nil, d.err
	}
	return d.conn, nil
}

// newFake makes a connection for a client and the other end of it: a reference server,
// which is a sioCli with the roles exchanged.
func newFake(c *kit.C, msgp, poll bool) (*sioCli, engine.Conn) {
	var conn engine.Conn
	var err error
	l := &link{c: c, addr: "10.9.0.1:80", sid: "x", w: newWorker()}
	c.Defer(l.w.stop)
	if poll {
		conn, err = engine.PollingAcceptor.Accept(nil, sim.Req("GET", "EIO=3&transport=polling", l.addr, nil, nil))
		if err != nil {
			c.Failf("PollingAcceptor: %v", err)
		}
		c.Defer(func() { conn.Close() })
		l.h = conn.(http.Handler)
		l.poll = sim.NewPoll(l.h, l.addr, nil, sim.XHR2)
		l.poll.Sid = "x"
		l.poll.Run(-1)
		c.Defer(func() { l.poll.Stop(true) })
	} else {
		l.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			conn, err = engine.WebsocketTransport.Accept(w, r)
		})
		l.ws = sim.DialWS(l.h, "EIO=3&transport=websocket", l.addr, nil, nil)
		c.Defer(l.ws.Close)
		l.onWS = true
		c.Await(func() bool { call := l.ws.Call(); return call != nil && call.Done() && l.ws.HSDone() }, "websocket handshake")
		if err != nil || conn == nil {
			c.Failf("WebsocketTransport.Accept: %v", err)
		}
	}
	k := &sioCli{link: l, msgp: msgp}
	k.asm.msgp = msgp
	return k, conn
}

func openPkt(sid string, interval, timeout int) wire.Pkt {
	return wire.Pkt{Type: wire.EOpen, Data: []byte(fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":%d,"pingTimeout":%d}`, sid, interval, timeout))}
}

// rec is a recording client application.
type rec struct {
	c    *kit.C
	C    *socketio.Client
	mu   sync.Mutex
	log  []sioEntry
	sock map[string]socketio.Socket
	in   int
	errs int
}

func (r *rec) add(kind, nsp, name, args string, so socketio.Socket) {
	if so == nil {
		r.c.Errorf("%s handler of %s called without a socket", kind, nsp)
	} else if so.Namespace() != nsp {
		r.c.Errorf("%s handler of %s given a socket of namespace %q", kind, nsp, so.Namespace())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.log = append(r.log, sioEntry{Kind: kind, NSP: nsp, Name: name, Args: args})
	if kind == "connect" {
		r.sock[nsp] = so
	}
}

func (r *rec) entries() []sioEntry {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.log[:len(r.log):len(r.log)]
}

func (r *rec) count(kind, nsp string) (n int) {
	for _, x := range r.entries() {
		if x.Kind == kind && (nsp == "*" || x.NSP == nsp) {
			n++
		}
	}
	return
}

func (r *rec) socket(nsp string) socketio.Socket {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sock[nsp]
}

var c20NSPs = []string{"/", "/a", "/a/b", "/zz"} // the last one is unknown to the client

func newRec(c *kit.C, msgp bool) *rec {
	r := &rec{c: c, C: socketio.NewClient(), sock: map[string]socketio.Socket{}}
	r.C.OnError(func(interface{}) { r.mu.Lock(); r.errs++; r.mu.Unlock() })
	for _, n := range c20NSPs[:3] {
		n := n
		ns := r.C.Namespace(n)
		ns.OnConnect(func(so socketio.Socket) {
			r.add("connect", n, "", "", so)
			if err := so.Emit("joined", 1); err != nil {
				c.Errorf("emit in the connect handler of %s: %v", n, err)
			}
		})
		ns.OnDisconnect(func(so socketio.Socket) {
			r.add("disconnect", n, "", "", so)
			if err := so.Emit("bye", 1); err == nil {
				c.Errorf("an emit in the disconnect handler of %s returned no error", n)
			}
		})
		ns.OnError(func(so socketio.Socket, err ...interface{}) {
			s := "other"
			if len(err) == 1 {
				if x, ok := err[0].(string); ok {
					s = x
				} else if x, ok := err[0].([]byte); ok {
					s = strings.Trim(string(x), "\"")
				}
			}
			r.add("error", n, "", s, so)
		})
		for _, ev := range []string{"x", "y"} {
			ev := ev
			ns.OnEvent(ev, func(so socketio.Socket, tag int) string {
				r.add("event", n, ev, fmt.Sprint(tag), so)
				return n + ev
			})
		}
		if msgp {
			ns.OnEvent("bin", func(so socketio.Socket, b []byte, tag int, d []byte) ([]byte, int) {
				r.add("event", n, "bin", fmt.Sprintf("%x %d %x", b, tag, d), so)
				return d, tag
			})
		} else {
			ns.OnEvent("bin", func(so socketio.Socket, b *socketio.Bytes, tag int, d *socketio.Bytes) (*socketio.Bytes, int) {
				r.add("event", n, "bin", fmt.Sprintf("%x %d %x", b.Data, tag, d.Data), so)
				return d, tag
			})
		}
	}
	return r
}

type c20Op struct {
	K    string `json:"k"` // connect, disconnect, ev, bin, bad, unknown, error, emit, emiterr, reply, badreply, ping, quiet, garbage
	N    int    `json:"n,omitempty"`
	Ack  bool   `json:"ack,omitempty"`
	Bin  bool   `json:"bin,omitempty"`
	Sock bool   `json:"sock,omitempty"` // through the handler's socket
	Name int    `json:"name,omitempty"`
	M    int    `json:"m,omitempty"`
}

type c20Plan struct {
	Msgp  bool    `json:"msgp,omitempty"`
	Poll  bool    `json:"poll,omitempty"`
	Early int     `json:"early"` // operations the server performs before Dial returns
	Ops   []c20Op `json:"ops"`
	End   string  `json:"end"`
}

var c20Ends = []string{"close", "close", "closedata", "drop", "closeframe", "app", "appsock", "garbage"}

func init() {
	kit.Add("C20", "protocol", "the client joins, is addressed in a namespace it has not joined, and acks travel, or packets follow the handshake at once", 16000, 160000, func(t *rapid.T) c20Plan {
		p := c20Plan{Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0, Poll: rapid.IntRange(0, 4).Draw(t, "poll") == 0, Early: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 20}).Draw(t, "early"), End: rapid.SampledFrom(c20Ends).Draw(t, "end")}
		kinds := []string{"connect", "connect", "connect", "disconnect", "ev", "ev", "ev", "bin", "bad", "unknown", "error", "emit", "emit", "emit", "emiterr", "reply", "reply", "badreply", "ping", "quiet", "garbage"}
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
			o := c20Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), N: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "nsp")}
			switch o.K {
			case "ev", "bin", "bad":
				o.Ack = rapid.Bool().Draw(t, "ack")
				o.Name = rapid.IntRange(0, 1).Draw(t, "name")
				o.M = rapid.SampledFrom([]int{1, 1, 1, 12}).Draw(t, "m")
			case "emit":
				o.Ack, o.Bin, o.Sock = rapid.Bool().Draw(t, "ack"), rapid.Bool().Draw(t, "bin"), rapid.Bool().Draw(t, "sock")
				o.M = rapid.SampledFrom([]int{1, 1, 1, 12}).Draw(t, "m")
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}, runC20)
}

func runC20(c *kit.C, p c20Plan) {
	k, conn := newFake(c, p.Msgp, p.Poll)
	r := newRec(c, p.Msgp)
	joined := map[string]bool{}
	var log []string     // handler runs expected
	var packets []string // packets expected from the client, but the emits of connect handlers
	type out struct {
		nsp string
		id  uint64
		tag int
	}
	var outstanding []out
	called := &notes{}
	var wantCalled []string
	joins := map[string]int{}
	foreign, acks, early := 0, 0, 0
	dialed := false
	dial := func() {
		if dialed {
			return
		}
		dialed = true
		d := &oneConn{conn: conn}
		hdr := http.Header{"X-Test": {"1"}}
		done := make(chan error, 1)
		go func() { done <- r.C.Dial("ws://server.example/socket.io/", hdr, d, parserOf(p.Msgp)) }()
		c.Await(func() bool { return len(done) > 0 }, "return of Dial")
		if err := <-done; err != nil {
			c.Failf("Dial: %v", err)
		}
		c.Defer(func() { go r.C.Close() })
		if r.C.Sid() != "the-sid" {
			c.Failf("client's session id is %q, the server's is the-sid", r.C.Sid())
		}
		if d.url != "ws://server.example/socket.io/" || d.hdr.Get("X-Test") != "1" {
			c.Failf("dialer was given %q, %v", d.url, d.hdr)
		}
	}
	k.raw(openPkt("the-sid", 3600000, 3600000))
	catchUp := func() {
		dial()
		c.Await(func() bool { return len(r.entries()) >= len(log) }, "handlers of the client: %v\n(so far %v)", log, strs(r.entries()))
	}
	tag := 0
	for oi, o := range p.Ops {
		if oi >= p.Early {
			dial()
		}
		n := c20NSPs[o.N]
		known := o.N < 3
		if known && !joined[n] && o.K != "connect" {
			foreign++
		}
		if !dialed {
			early++
		}
		switch o.K {
		case "connect":
			k.send(SP{Type: wire.SConnect, NSP: n})
			if known && !joined[n] {
				joined[n] = true
				joins[n]++
				log = append(log, "connect "+n)
			}
		case "disconnect":
			k.send(SP{Type: wire.SDisconnect, NSP: n})
			if joined[n] {
				catchUp() // the emit of the connect handler precedes
				delete(joined, n)
				log = append(log, "disconnect "+n)
				var rest []out // an ack of a namespace left since is not judged
				for _, x := range outstanding {
					if x.nsp != n {
						rest = append(rest, x)
					}
				}
				outstanding = rest
			}
		case "ev":
			for i := 0; i < o.M; i++ {
				tag++
				q := evPkt(n, []string{"x", "y"}[o.Name], intVal(int64(tag)))
				if o.Ack {
					q = q.withID(uint64(tag))
				}
				k.send(q)
				if joined[n] {
					log = append(log, fmt.Sprintf("event %s %s(%d)", n, []string{"x", "y"}[o.Name], tag))
					if o.Ack {
						packets = append(packets, ackPkt(n, uint64(tag), strVal(n+[]string{"x", "y"}[o.Name])).key())
						acks++
					}
				}
			}
		case "bin":
			tag++
			b, d := []byte(fmt.Sprint("b", tag)), []byte(strings.Repeat("d", tag%40))
			q := evPkt(n, "bin", Val{K: "bin", X: b}, intVal(int64(tag)), Val{K: "bin", X: d})
			if o.Ack {
				q = q.withID(uint64(tag))
			}
			k.send(q)
			if joined[n] {
				log = append(log, fmt.Sprintf("event %s bin(%x %d %x)", n, b, tag, d))
				if o.Ack {
					packets = append(packets, ackPkt(n, uint64(tag), Val{K: "bin", X: d}, intVal(int64(tag))).key())
					acks++
				}
			}
		case "bad":
			tag++
			q := evPkt(n, "x", strVal("no integer"))
			if o.Ack {
				q = q.withID(uint64(tag))
			}
			k.send(q)
			if joined[n] {
				log = append(log, "error "+n+": other")
			}
		case "unknown":
			k.send(evPkt(n, "nobody's", intVal(1)))
		case "error":
			if joined[n] || !known {
				tag++
				k.send(SP{Type: wire.SError, NSP: n, Data: fmt.Sprint("trouble", tag)})
				if joined[n] {
					log = append(log, "error "+n+": "+fmt.Sprint("trouble", tag))
				}
			}
		case "emit":
			catchUp()
			for i := 0; i < o.M; i++ {
				tag++
				tg := tag
				args := []interface{}{tg}
				vals := []Val{intVal(int64(tg))}
				if o.Bin {
					v := Val{K: "bin", X: []byte{1, byte(tg)}}
					args = append(args, v.goArg(p.Msgp))
					vals = append(vals, v)
				}
				if o.Ack {
					args = append(args, func(so socketio.Socket, s string) { called.add(fmt.Sprint(tg, so.Namespace(), s)) })
				}
				var err error
				if so := r.socket(n); so != nil && o.Sock {
					err = so.Emit("out", args...)
				} else {
					err = r.C.Emit(n, "out", args...)
				}
				if joined[n] != (err == nil) {
					c.Failf("emit to %s (joined: %v): %v", n, joined[n], err)
				}
				if joined[n] {
					packets = append(packets, evPkt(n, "out", vals...).key())
					if o.Ack {
						outstanding = append(outstanding, out{n, 0, tg})
					}
				}
			}
		case "emiterr":
			catchUp()
			if so := r.socket(n); so != nil && joined[n] {
				tag++
				if err := so.EmitError(fmt.Sprint("e", tag)); err != nil {
					c.Failf("EmitError: %v", err)
				}
				packets = append(packets, SP{Type: wire.SError, NSP: n}.key())
			}
		case "reply", "badreply":
			// the oldest emission of the namespace that asks for an ack
			oldest := -1
			for i := range outstanding {
				if outstanding[i].nsp == n {
					oldest = i
					break
				}
			}
			if oldest < 0 || !joined[n] {
				continue
			}
			x := outstanding[oldest]
			find := func() (id uint64, ok bool) {
				for _, q := range k.events() {
					if q.NSP == n && q.ID != nil && len(q.Args) > 1 && canon(q.Args[1]) == fmt.Sprint(x.tag) {
						return *q.ID, true
					}
				}
				return 0, false
			}
			c.Await(func() bool { _, ok := find(); return ok }, "event %d with an ack id", x.tag)
			id, _ := find()
			if o.K == "badreply" {
				k.send(ackPkt(n, id+1000, strVal("wrong")))
				k.send(ackPkt(c20NSPs[(o.N+1)%3], id, strVal("wrong namespace")))
				continue
			}
			outstanding = append(outstanding[:oldest:oldest], outstanding[oldest+1:]...)
			k.send(ackPkt(n, id, strVal("re")))
			k.send(ackPkt(n, id, strVal("again")))
			wantCalled = append(wantCalled, fmt.Sprint(x.tag, n, "re"))
			acks++
			c.Await(func() bool { return called.len() >= len(wantCalled) }, "ack callbacks %v", wantCalled)
		case "ping":
			k.raw(wire.Pkt{Type: wire.EPong, Data: []byte("null")}, wire.Pkt{Type: wire.ENoop}, wire.Pkt{Type: wire.EPing})
		case "quiet":
			dial()
			c.Quiet()
		case "garbage":
			dial()
			if !p.Msgp {
				k.raw(wire.Pkt{Type: wire.EMessage, Data: []byte("9nonsense")})
			} else {
				k.raw(wire.Pkt{Bin: true, Type: wire.EMessage, Data: []byte{0xc1}})
			}
		}
	}
	dial()
	nj := 0
	for _, m := range joins {
		nj += m
	}
	c.Reaches(func() bool {
		return len(r.entries()) >= len(log) && len(k.recv()) >= len(packets)+nj && k.w.idle()
	})
	c.Quiet()
	compare := func(when string) {
		if err := sameNotes(strs(r.entries()), log); err != nil {
			c.Failf("%s: handlers of the client: %v", when, err)
		}
		// acks are sent by the reading goroutine, emits by ours
		var got, want [2][]string
		js := map[string]int{}
		for _, q := range k.recv() {
			if q.Type == wire.SEvent && canon(q.Args[0]) == `"joined"` {
				js[q.NSP]++
				continue
			}
			isAck := q.Type == wire.SAck
			if !isAck {
				q.ID = nil
			}
			got[b2i(isAck)] = append(got[b2i(isAck)], q.key())
		}
		for _, x := range packets {
			i := b2i(strings.HasPrefix(x, fmt.Sprint(wire.SAck, " ")))
			want[i] = append(want[i], x)
		}
		for i := range got {
			if err := sameNotes(got[i], want[i]); err != nil {
				c.Failf("%s: packets of the client: %v", when, err)
			}
		}
		if fmt.Sprint(js) != fmt.Sprint(joins) {
			c.Failf("%s: emits of connect handlers: %v, want %v", when, js, joins)
		}
		if err := sameNotes(called.all(), wantCalled); err != nil {
			c.Failf("%s: ack callbacks: %v", when, err)
		}
	}
	compare("before the end")
	// the end
	k.lenient()
	end := p.End
	if p.Poll && (end == "drop" || end == "closeframe" || end == "garbage") {
		end = "close"
	}
	var still []string
	for n := range joined {
		still = append(still, "disconnect "+n)
	}
	sort.Strings(still)
	switch end {
	case "close":
		k.raw(wire.Pkt{Type: wire.EClose})
	case "closedata": // a close packet that carries something
		k.raw(wire.Pkt{Type: wire.EClose, Data: []byte("bye")})
	case "drop":
		k.ws.Close()
	case "closeframe":
		k.ws.CloseFrame()
	case "garbage":
		k.ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4})
	case "app":
		go r.C.Close()
	case "appsock":
		if so := r.socket("/"); so != nil {
			go so.Close()
		} else {
			go r.C.Close()
		}
	}
	c.Reaches(func() bool { return len(r.entries()) >= len(log)+len(still) })
	c.Quiet()
	tail := strs(r.entries())
	if len(tail) < len(log) {
		c.Failf("handler runs vanished")
	}
	if err := sameNotes(tail[:len(log)], log); err != nil {
		c.Failf("handlers: %v", err)
	}
	tail = append([]string(nil), tail[len(log):]...)
	sort.Strings(tail)
	if err := sameNotes(tail, still); err != nil {
		c.Failf("handlers at the end (%s): %v", end, err)
	}
	for _, n := range c20NSPs {
		for i := 0; i < 12; i++ {
			if err := r.C.Emit(n, "late", 1); err == nil {
				c.Failf("emit to %s after the end (%s) returned no error", n, end)
			}
		}
		if so := r.socket(n); so != nil {
			if so.Emit("late") == nil || so.EmitError("late") == nil {
				c.Failf("emit to %s after the end (%s) returned no error", n, end)
			}
		}
	}
	fin := make(chan struct{})
	go func() { r.C.Close(); close(fin) }()
	c.Await(func() bool {
		select {
		case <-fin:
			return true
		default:
			return false
		}
	}, "return of Close after the end")
	if !p.Poll && !k.ws.Srv.Closed() {
		c.Failf("the client's connection stays open after the end (%s)", end)
	}
	c.Quiet()
	for _, g := range sim.LibGoroutines() {
		c.Failf("goroutine left behind by the client:\n%s", g.Stack)
	}
	c.NonTrivialIf(nj > 0 && foreign > 0 && acks > 0 || early > 0 && nj > 0)
	c.LabelIf(early > 0, "packets right behind the open packet")
	c.LabelIf(acks > 0, "acks")
	c.LabelIf(p.Poll, "polling conn")
	c.Label("end: " + end)
}

// ---- handshakes that fail

type c20HS struct {
	Msgp  bool   `json:"msgp,omitempty"`
	Poll  bool   `json:"poll,omitempty"`
	First string `json:"first"`
	Data  []byte `json:"data,omitempty"`
	Bin   bool   `json:"bin,omitempty"`
	Type  int    `json:"type,omitempty"`
}

func init() {
	kit.Add("C20", "handshake", "the first packet is not a valid open packet", 12000, 100000, func(t *rapid.T) c20HS {
		p := c20HS{Msgp: rapid.Bool().Draw(t, "msgp"), Poll: rapid.IntRange(0, 3).Draw(t, "poll") == 0,
			First: rapid.SampledFrom([]string{"other", "other", "badjson", "drop", "dialerr", "frame", "ok"}).Draw(t, "first")}
		p.Type = rapid.IntRange(1, 6).Draw(t, "type")
		p.Bin = rapid.Bool().Draw(t, "bin")
		p.Data = []byte(rapid.SampledFrom([]string{"", "{}", "[]", "{\"sid\":1}", "probe", "0/", "{\"sid\":\"x\",\"pingInterval\":1000,\"pingTimeout\":1000}", "nul"}).Draw(t, "data"))
		if p.First == "badjson" {
			p.Data = []byte(rapid.SampledFrom([]string{"", "{", "[]", "\"x\"", "{\"sid\":1}", "{\"pingInterval\":\"x\"}", "{\"sid\":\"x\"} trailing"}).Draw(t, "json"))
		}
		return p
	}, func(c *kit.C, p c20HS) {
		k, conn := newFake(c, p.Msgp, p.Poll)
		k.lenient()
		r := newRec(c, p.Msgp)
		d := &oneConn{conn: conn}
		first := p.First
		if p.Poll && (first == "drop" || first == "frame") {
			first = "other"
		}
		switch first {
		case "other":
			k.raw(wire.Pkt{Type: byte(p.Type), Bin: p.Bin, Data: p.Data})
		case "badjson":
			k.raw(wire.Pkt{Type: wire.EOpen, Data: p.Data})
		case "drop":
			k.ws.Close()
		case "dialerr":
			d.err = errors.New("no route")
		case "frame":
			k.ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4})
		case "ok":
			k.raw(openPkt("s1", 100000, 100000))
		}
		// what follows must not matter
		if first != "drop" && first != "frame" {
			k.send(SP{Type: wire.SConnect, NSP: "/"})
			k.send(evPkt("/", "x", intVal(1)))
		}
		done := make(chan error, 1)
		go func() { done <- r.C.Dial("ws://h/", nil, d, parserOf(p.Msgp)) }()
		c.Await(func() bool { return len(done) > 0 }, "return of Dial")
		err := <-done
		c.Quiet()
		if first == "ok" {
			if err != nil || r.C.Sid() != "s1" {
				c.Failf("Dial: %v, session id %q", err, r.C.Sid())
			}
			if len(r.entries()) != 2 {
				c.Failf("handlers after Dial: %v", strs(r.entries()))
			}
			r.C.Close()
			return
		}
		if err == nil {
			c.Failf("Dial succeeded although the first packet was no open packet (%s)", first)
		}
		if first == "dialerr" && err != d.err {
			c.Failf("Dial returned %v, the dialer %v", err, d.err)
		}
		if len(r.entries()) > 0 {
			c.Failf("handlers ran although Dial failed: %v", strs(r.entries()))
		}
		if first != "dialerr" {
			if !p.Poll && !k.ws.Srv.Closed() {
				c.Failf("Dial failed (%s) but its connection stays open", first)
			}
			for _, g := range sim.LibGoroutines() {
				if !strings.Contains(g.Stack, "polling") {
					c.Failf("goroutine left behind by a failed Dial (%s):\n%s", first, g.Stack)
				}
			}
		}
		c.NonTrivial()
		c.Label(first)
	})
}

// ---- pings and silence, on virtual time

type c20Ping struct {
	Msgp     bool   `json:"msgp,omitempty"`
	Interval int    `json:"interval_ms"`
	Timeout  int    `json:"timeout_ms"`
	Gaps     []int  `json:"gaps_pm"` // between packets of the server, in thousandths of the period
	Kinds    []int  `json:"kinds"`
	Join     int    `json:"join"`
	Emits    []int  `json:"emits"`
	End      string `json:"end"` // silence, close, drop, app
}

func init() {
	kit.Add("C20", "pings", "the client lives for several ping intervals, or the server falls silent", 30000, 400000, func(t *rapid.T) c20Ping {
		return c20Ping{Msgp: rapid.Bool().Draw(t, "msgp"), Interval: rapid.IntRange(20, 20000).Draw(t, "interval"), Timeout: rapid.IntRange(20, 20000).Draw(t, "timeout"),
			Gaps: rapid.SliceOfN(rapid.IntRange(0, 995), 0, 10).Draw(t, "gaps"), Kinds: rapid.SliceOfN(rapid.IntRange(0, 3), 1, 4).Draw(t, "kinds"),
			Join: rapid.IntRange(0, 3).Draw(t, "join"), Emits: rapid.SliceOfN(rapid.IntRange(0, 3), 1, 4).Draw(t, "emits"),
			End: rapid.SampledFrom([]string{"silence", "silence", "close", "drop", "app"}).Draw(t, "end")}
	}, runC20Ping).OnVirtualTime()
}

func runC20Ping(c *kit.C, p c20Ping) {
	ms := time.Millisecond
	k, conn := newFake(c, p.Msgp, false)
	r := newRec(c, p.Msgp)
	var mu sync.Mutex
	var pings []time.Time
	k.ws.OnPkt(func(q wire.Pkt) {
		if q.Type == wire.EPing {
			mu.Lock()
			pings = append(pings, time.Now())
			mu.Unlock()
		}
	})
	k.raw(openPkt("sid", p.Interval, p.Timeout))
	if err := r.C.Dial("ws://h/", nil, &oneConn{conn: conn}, parserOf(p.Msgp)); err != nil {
		c.Failf("Dial: %v", err)
	}
	c.Defer(func() { r.C.Close() })
	start := time.Now()
	period := time.Duration(p.Interval+p.Timeout) * ms
	for i := 0; i < p.Join; i++ {
		k.send(SP{Type: wire.SConnect, NSP: c20NSPs[i]})
	}
	c.Quiet()
	last := time.Now()
	for i, g := range p.Gaps {
		time.Sleep(period * time.Duration(g) / 1000)
		for j := 0; j < p.Emits[i%len(p.Emits)] && p.Join > 0; j++ {
			if err := r.C.Emit("/", "out", i); err != nil {
				c.Failf("emit while the server is alive: %v", err)
			}
		}
		switch p.Kinds[i%len(p.Kinds)] {
		case 0:
			k.raw(wire.Pkt{Type: wire.EPong})
		case 1:
			k.send(evPkt("/", "x", intVal(int64(i))))
		case 2:
			k.raw(wire.Pkt{Type: wire.ENoop})
		case 3:
			k.send(evPkt("/zz", "x", intVal(int64(i))))
		}
		c.Quiet()
		last = time.Now()
	}
	if n := r.count("disconnect", "*"); n > 0 {
		c.Failf("%d disconnect handlers ran while the server is alive", n)
	}
	check := func(until time.Time) {
		mu.Lock()
		defer mu.Unlock()
		for i, t := range pings {
			if want := start.Add(time.Duration(i+1) * time.Duration(p.Interval) * ms); !t.Equal(want) {
				c.Failf("ping %d sent %v after the handshake, interval %d ms", i+1, t.Sub(start), p.Interval)
			}
		}
		// a ping that falls on the very end may or may not be sent
		d := until.Sub(start)
		lo, hi := int((d-1)/(time.Duration(p.Interval)*ms)), int(d/(time.Duration(p.Interval)*ms))
		if len(pings) < lo || len(pings) > hi {
			c.Failf("%d pings in %v, interval %d ms", len(pings), d, p.Interval)
		}
	}
	k.lenient()
	var at time.Time
	switch p.End {
	case "silence":
		at = last.Add(period)
		time.Sleep(time.Until(at) - ms)
		c.Quiet()
		if n := r.count("disconnect", "*"); n > 0 {
			c.Failf("the client gave up %d ms before the server had been silent for interval plus timeout", 1)
		}
		if p.Join > 0 {
			if err := r.C.Emit("/", "out", 0); err != nil {
				c.Failf("emit before the silence is long enough: %v", err)
			}
		}
		time.Sleep(ms)
	case "close":
		k.raw(wire.Pkt{Type: wire.EClose})
		at = time.Now()
	case "drop":
		k.ws.Close()
		at = time.Now()
	case "app":
		r.C.Close()
		at = time.Now()
	}
	c.Quiet()
	check(at)
	for i := 0; i < p.Join; i++ {
		if n := r.count("disconnect", c20NSPs[i]); n != 1 {
			c.Failf("disconnect handler of %s ran %d times at the end (%s)", c20NSPs[i], n, p.End)
		}
	}
	for _, n := range c20NSPs[:3] {
		if err := r.C.Emit(n, "late"); err == nil {
			c.Failf("emit to %s after the end (%s) returned no error", n, p.End)
		}
	}
	time.Sleep(3 * period)
	c.Quiet()
	check(at)
	if n := r.count("disconnect", "*"); n != p.Join {
		c.Failf("%d disconnect handlers ran, %d namespaces were joined", n, p.Join)
	}
	mu.Lock()
	n := len(pings)
	mu.Unlock()
	c.NonTrivialIf(n > 1 || p.End == "silence")
	c.Label("end: " + p.End)
	c.LabelIf(n > 1, "several pings")
}
