package props

import (
	"fmt"
	"net"
	"net/http"
	"reflect"
	"sync"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C21: headers and addresses ----

type c21Op struct {
	K   string `json:"k"` // set, get, msg, upgrade, half, end, quiet
	S   int    `json:"s,omitempty"`
	N   int    `json:"n,omitempty"` // namespace of the socket used
	Key string `json:"key,omitempty"`
	Val string `json:"val,omitempty"`
	St  int    `json:"st,omitempty"`
}

type c21Sess struct {
	WS   bool                `json:"ws,omitempty"`
	Enc  sim.Enc             `json:"enc,omitempty"`
	Hdr  map[string][]string `json:"hdr,omitempty"`  // of the handshake
	Hdr2 map[string][]string `json:"hdr2,omitempty"` // of the requests that follow: same keys
	At   [5][]c21Op          `json:"at"`             // during the upgrade
}

type c21Plan struct {
	Sio  bool      `json:"sio,omitempty"`
	Msgp bool      `json:"msgp,omitempty"`
	Conn []c21Op   `json:"conn,omitempty"` // run by the connect handler
	Sess []c21Sess `json:"sess"`
	Ops  []c21Op   `json:"ops"`
}

var c21Keys = []string{"X-Token", "Authorization", "Cookie", "User-Agent", "X-A", "X-B", "Accept-Language"}
var c21Look = append([]string{"x-token", "X-TOKEN", "authorization", "cOOKIE", "x-absent", "Host", "X_token"}, c21Keys...)
var c21Vals = []string{"", "a", "b", "Bearer x.y-z", "a=1; b=2", "été", " padded ", "1,2", "x\ty"}

func genC21(t *rapid.T) c21Plan {
	p := c21Plan{Sio: rapid.Bool().Draw(t, "sio"), Msgp: rapid.IntRange(0, 3).Draw(t, "msgp") == 0}
	sg := func(l string) c21Op {
		return c21Op{K: rapid.SampledFrom([]string{"set", "get", "get"}).Draw(t, l+".k"), N: rapid.IntRange(0, 1).Draw(t, l+".nsp"),
			Key: rapid.SampledFrom(c21Look).Draw(t, l+".key"), Val: rapid.SampledFrom(c21Vals).Draw(t, l+".val")}
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "conn"); i < n; i++ {
		p.Conn = append(p.Conn, sg("conn"))
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "sessions"); i < n; i++ {
		l := fmt.Sprint("s", i)
		s := c21Sess{WS: rapid.IntRange(0, 2).Draw(t, l+".ws") == 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, l+".enc")), Hdr: map[string][]string{}, Hdr2: map[string][]string{}}
		for _, k := range c21Keys {
			if !rapid.Bool().Draw(t, l+".has") {
				continue
			}
			s.Hdr[k] = []string{rapid.SampledFrom([]string{"v1", "v2", "v 3", "a=1; b=2"}).Draw(t, l+".v")}
			if rapid.IntRange(0, 4).Draw(t, l+".multi") == 0 {
				s.Hdr[k] = append(s.Hdr[k], "second")
			}
			if rapid.Bool().Draw(t, l+".other") {
				s.Hdr2[k] = []string{"other"}
			}
		}
		if !s.WS && rapid.Bool().Draw(t, l+".conn") {
			s.Hdr["Connection"] = []string{"keep-alive"}
		}
		if !s.WS {
			for j := range s.At {
				for x, m := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, l+".at"); x < m; x++ {
					s.At[j] = append(s.At[j], sg(l+".up"))
				}
			}
		}
		p.Sess = append(p.Sess, s)
	}
	for i, n := 0, rapid.IntRange(1, 24).Draw(t, "ops"); i < n; i++ {
		o := sg("op")
		o.S = rapid.IntRange(0, len(p.Sess)-1).Draw(t, "op.s")
		if x := rapid.IntRange(0, 11).Draw(t, "op.what"); x < 5 {
			o = c21Op{K: []string{"msg", "upgrade", "half", "end", "quiet"}[x], S: o.S, N: o.N, St: rapid.IntRange(0, 2).Draw(t, "op.st")}
			if o.K == "end" && rapid.Bool().Draw(t, "op.noend") {
				o.K = "msg"
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type hdrSock interface {
	GetHeader(string) string
	SetHeader(string, string)
	LocalAddr() net.Addr
	RemoteAddr() net.Addr
	Sid() string
}

// hdrModel is what the headers of a session must be.
type hdrModel struct {
	mu  sync.Mutex
	m   map[string]string
	bad map[string]bool // not in the handshake, but in a later request
}

func (m *hdrModel) do(c *kit.C, so hdrSock, o c21Op, where string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	k := http.CanonicalHeaderKey(o.Key)
	if o.K == "set" {
		so.SetHeader(o.Key, o.Val)
		m.m[k] = o.Val
	}
	if got := so.GetHeader(o.Key); got != m.m[k] {
		c.Errorf("%s: GetHeader(%q) = %q, want %q", where, o.Key, got, m.m[k])
	}
}

func init() {
	kit.Add("C21", "headers", "several sessions carry or set the same key with different values, or values are set before or during an upgrade", 8000, 80000, genC21, runC21)
}

func runC21(c *kit.C, p c21Plan) {
	type snap struct {
		r *http.Request
		h http.Header
	}
	type cs struct {
		*link
		k     *sioCli
		m     *hdrModel
		sock  func(n int) hdrSock
		addr  string
		ended bool
		up    bool
		over  func() bool
	}
	var mu sync.Mutex
	var snaps []snap
	models := map[string]*hdrModel{} // by client
	var inner http.Handler
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		snaps = append(snaps, snap{r, r.Header.Clone()})
		mu.Unlock()
		inner.ServeHTTP(w, r)
	})
	modelOf := func(addr string) *hdrModel { mu.Lock(); defer mu.Unlock(); return models[addr] }
	check := func(so hdrSock, where string) {
		m := modelOf(so.RemoteAddr().String())
		if m == nil {
			c.Errorf("%s: remote address %s is no client's", where, so.RemoteAddr())
			return
		}
		for _, k := range c21Keys {
			m.do(c, so, c21Op{K: "get", Key: k}, where)
		}
	}
	connect := func(so hdrSock) {
		m := modelOf(so.RemoteAddr().String())
		if m == nil {
			c.Errorf("connect handler: remote address %s is no client's", so.RemoteAddr())
			return
		}
		check(so, "connect handler")
		for _, o := range p.Conn {
			m.do(c, so, o, "connect handler")
		}
	}
	var es *engSrv
	var ss *sioSrv
	if p.Sio {
		ss = newSioSrv(c, p.Msgp, long, long)
		inner = ss.S
		ss.OnConnect = func(e *sioSess, so socketio.Socket) {
			if so.Namespace() == "/" {
				connect(so)
			} else {
				check(so, "connect handler of "+so.Namespace())
			}
		}
		ss.OnDisconnect = func(e *sioSess, so socketio.Socket) { check(so, "disconnect handler of "+so.Namespace()) }
		for _, n := range []string{"/", "/a"} {
			ss.nsp(n)
			ss.event(n, "ev", func(e *sioSess, so socketio.Socket, tag int) { check(so, "event handler of "+so.Namespace()) })
		}
	} else {
		es = newEngSrv(c, long, long)
		inner = es.S
		es.OnOpen = func(e *esess) { connect(e.Sock) }
		es.OnMsg = func(e *esess, n int, k wire.Pkt) { check(e.Sock, "message handler") }
		es.OnEnd = func(e *esess) { check(e.Sock, "close handler") }
	}
	var all []*cs
	shared := map[string]int{}
	for i, q := range p.Sess {
		x := &cs{addr: fmt.Sprintf("10.0.0.%d:%d", i+1, 1000+i), m: &hdrModel{m: map[string]string{}}}
		hdr := http.Header{}
		for k, v := range q.Hdr {
			hdr[k] = v
			x.m.m[k] = v[0]
			shared[k]++
		}
		if q.WS { // set by the WebSocket client itself
			x.m.m["Connection"] = "Upgrade"
		}
		if hdr["User-Agent"] == nil { // likewise, so that it is in every request
			hdr["User-Agent"] = []string{"Go-http-client/1.1"}
			x.m.m["User-Agent"] = "Go-http-client/1.1"
		}
		mu.Lock()
		models[x.addr] = x.m
		mu.Unlock()
		if p.Sio {
			x.k = newSioCli(c, h, p.Msgp, q.WS, x.addr, hdr, q.Enc)
			x.link = x.k.link
			e := ss.sess(x.sid)
			ss.join(x.k, "/")
			ss.join(x.k, "/a")
			x.sock = func(n int) hdrSock { return e.socket([]string{"/", "/a"}[n]) }
			x.over = func() bool { return over(e) }
		} else {
			x.link = newLink(c, h, q.WS, x.addr, hdr, q.Enc)
			e := es.session(x.sid)
			x.sock = func(int) hdrSock { return e.Sock }
			x.over = e.Closed
			if x.poll != nil {
				x.poll.Run(-1)
			}
		}
		if x.poll != nil && len(q.Hdr2) > 0 {
			x.poll.Stop(false)
			for _, n := range []int{0} { // releases the poll in flight
				if p.Sio {
					ss.sess(x.sid).socket("/").Emit("x", n)
				} else {
					es.Find(x.sid).emit(fence())
				}
			}
			c.Await(func() bool { return !x.poll.Running() }, "answer to a poll")
			h2 := http.Header{}
			for k, v := range hdr {
				h2[k] = v
			}
			for k, v := range q.Hdr2 {
				h2[k] = v
			}
			x.poll.Hdr = h2
			x.upgradeHdr = h2.Clone()
			x.poll.Run(-1)
		}
		if x.upgradeHdr == nil && x.poll != nil {
			x.upgradeHdr = hdr.Clone()
		}
		if x.poll != nil {
			x.upgradeHdr.Del("Connection") // the WebSocket client writes its own
		}
		all = append(all, x)
	}
	interesting := false
	overwritten := map[int]bool{}
	look := func(i int, where string) {
		x := all[i]
		for n := 0; n < 2; n++ {
			so := x.sock(n)
			for _, k := range append([]string{"Connection"}, c21Keys...) {
				if k == "Connection" && p.Sess[i].Hdr[k] == nil && x.up {
					continue // not in the handshake, but in the upgrade request
				}
				x.m.do(c, so, c21Op{K: "get", Key: k}, where)
			}
			if so.Sid() != x.sid {
				c.Failf("%s: session id %q, want %q", where, so.Sid(), x.sid)
			}
			r, l := so.RemoteAddr(), so.LocalAddr()
			if r == nil || r.String() != x.addr || r.Network() != "tcp" {
				c.Failf("%s: remote address %v, want %s", where, r, x.addr)
			}
			if l == nil || l.String() != "server.example:80" || l.Network() != "tcp" {
				c.Failf("%s: local address %v, want server.example:80", where, l)
			}
		}
		c.Check()
	}
	set := func(i int, o c21Op, where string) {
		x := all[i]
		if x.up && o.K == "get" {
			return // looked up with everything else
		}
		x.m.do(c, x.sock(o.N), o, where)
		if o.K == "set" {
			overwritten[i] = true
			if shared[http.CanonicalHeaderKey(o.Key)] > 1 {
				interesting = true
			}
		}
		c.Check()
	}
	for i := range all {
		look(i, fmt.Sprintf("session %d after its handshake", i))
	}
	tag := 0
	for oi, o := range p.Ops {
		x, q := all[o.S], p.Sess[o.S]
		where := fmt.Sprintf("session %d, operation %d", o.S, oi)
		switch o.K {
		case "set", "get":
			set(o.S, o, where)
		case "msg":
			if x.ended {
				continue
			}
			tag++
			if p.Sio {
				x.k.send(evPkt([]string{"/", "/a"}[o.N], "ev", intVal(int64(tag))))
			} else {
				x.raw(wire.Pkt{Type: wire.EMessage, Data: []byte(fmt.Sprint("m", tag))})
			}
			c.Quiet()
		case "half":
			if !q.WS && !x.up && !x.ended {
				x.halfUpgradeE(o.St)
				c.Quiet()
			}
		case "upgrade":
			if q.WS || x.up || x.ended {
				continue
			}
			interesting = interesting || overwritten[o.S] || len(q.Hdr2) > 0
			// the address changes at a moment nobody can tell
			na := fmt.Sprintf("10.0.1.%d:%d", o.S+1, 2000+o.S)
			mu.Lock()
			models[na] = x.m
			mu.Unlock()
			x.link.addr = na
			x.upgrade(func(st int) {
				for _, a := range q.At[st] {
					set(o.S, a, fmt.Sprintf("session %d during its upgrade (stage %d)", o.S, st))
				}
			})
			c.Quiet()
			x.addr, x.up = na, true
			for _, a := range q.At[4] {
				set(o.S, a, where+" (just upgraded)")
			}
		case "end":
			if x.ended {
				continue
			}
			x.ended = true
			x.lenient()
			x.raw(wire.Pkt{Type: wire.EClose})
			c.Await(func() bool { return x.over() }, "end of a session")
		case "quiet":
			c.Quiet()
		}
		c.Check()
		for i := range all {
			look(i, fmt.Sprintf("session %d after operation %d (%s on session %d)", i, oi, o.K, o.S))
		}
	}
	c.Quiet()
	mu.Lock()
	defer mu.Unlock()
	for _, s := range snaps {
		if !reflect.DeepEqual(s.r.Header, s.h) {
			c.Failf("the header of request %s became %v, it was %v", s.r.RequestURI, s.r.Header, s.h)
		}
	}
	c.NonTrivialIf(interesting)
	c.LabelIf(p.Sio, "socket.io")
	for _, x := range all {
		c.LabelIf(x.up, "upgraded")
	}
}
