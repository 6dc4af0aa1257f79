package props

import (
	"fmt"
	"net"
	"net/http"
	"reflect"
	"sync"
	"time"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
)

// ---- C20: the client and the server of the library, over real connections

type tcpCall struct {
	Cli  int  `json:"cli"`
	Up   bool `json:"up,omitempty"` // from the client
	Ack  bool `json:"ack,omitempty"`
	Sig  Sig  `json:"sig"`
	Wait bool `json:"wait,omitempty"` // until everything so far has arrived
}

type tcpPlan struct {
	Msgp    bool      `json:"msgp,omitempty"`
	Clients int       `json:"clients"`
	Path    string    `json:"path"`
	Hdr     []int     `json:"hdr"`
	Conc    bool      `json:"conc,omitempty"` // clients dial at the same time
	Calls   []tcpCall `json:"calls"`
	Ends    []string  `json:"ends"`
}

var tcpPaths = []string{"/", "/socket.io/", "/socket.io/?token=a%20b", "/x?EIO=2&transport=polling", "/x/y?q=%26&q=2&sid="}

func init() {
	kit.Add("C20", "tcp", "two or more calls, both from a client and to it", 3000, 30000, func(t *rapid.T) tcpPlan {
		p := tcpPlan{Msgp: rapid.Bool().Draw(t, "msgp"), Clients: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "clients"),
			Path: rapid.SampledFrom(tcpPaths).Draw(t, "path"), Conc: rapid.Bool().Draw(t, "conc")}
		for i := 0; i < p.Clients; i++ {
			p.Hdr = append(p.Hdr, rapid.IntRange(0, 2).Draw(t, "hdr"))
			p.Ends = append(p.Ends, rapid.SampledFrom([]string{"client", "server", "socket", "cut", "cutserver"}).Draw(t, "end"))
		}
		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("c", i)
			p.Calls = append(p.Calls, tcpCall{Cli: rapid.IntRange(0, p.Clients-1).Draw(t, l+".cli"), Up: rapid.Bool().Draw(t, l+".up"), Ack: rapid.Bool().Draw(t, l+".ack"),
				Sig: genSig(t, l, p.Msgp), Wait: rapid.IntRange(0, 3).Draw(t, l+".wait") == 0})
		}
		return p
	}, runTCP)
}

// tcpNet listens on the loopback network and keeps the server's connections.
type tcpNet struct {
	net.Listener
	mu    sync.Mutex
	conns map[string]net.Conn // by the client's address
}

func (l *tcpNet) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.conns[c.RemoteAddr().String()] = c
		l.mu.Unlock()
	}
	return c, err
}

func (l *tcpNet) conn(addr string) net.Conn { l.mu.Lock(); defer l.mu.Unlock(); return l.conns[addr] }

// tcpQuiet waits until nothing moves, the kernel included.
func tcpQuiet(c *kit.C) {
	for i := 0; i < 3; i++ {
		c.Quiet()
		time.Sleep(4 * time.Millisecond)
	}
	c.Quiet()
}

func runTCP(c *kit.C, p tcpPlan) {
	after := sim.StuckAfter
	sim.IOBlocked, sim.StuckAfter = true, 2*time.Second
	c.Defer(func() { sim.IOBlocked, sim.StuckAfter = false, after })
	s := newSioSrv(c, p.Msgp, long, long)
	var mu sync.Mutex
	logs := map[string]*notes{} // "up 0", "down 0", "ack up 0", ...
	log := func(k string) *notes {
		mu.Lock()
		defer mu.Unlock()
		if logs[k] == nil {
			logs[k] = &notes{}
		}
		return logs[k]
	}
	want := map[string][]string{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Broken("listen: %v", err)
	}
	tn := &tcpNet{Listener: ln, conns: map[string]net.Conn{}}
	urls := make(chan string, 16)
	web := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		urls <- r.URL.Path + " " + r.URL.Query().Encode()
		s.S.ServeHTTP(w, r)
	})}
	go web.Serve(tn)
	c.Defer(func() {
		web.Close()
		tn.mu.Lock()
		defer tn.mu.Unlock()
		for _, x := range tn.conns {
			x.Close()
		}
	})
	s.OnError = func(e *sioSess, so socketio.Socket, err []interface{}) {
		log("up " + so.GetHeader("X-Client")).add("error")
	}
	s.nsp("/")
	type cli struct {
		C    *socketio.Client
		so   socketio.Socket
		srv  socketio.Socket
		left notes
		hdr  http.Header
		err  error
	}
	clis := make([]*cli, p.Clients)
	for i := range clis {
		i := i
		k := &cli{C: socketio.NewClient(), hdr: http.Header{"X-Client": {fmt.Sprint(i)}}}
		for j := 0; j < p.Hdr[i]; j++ {
			k.hdr.Add(fmt.Sprint("X-H", j), fmt.Sprint("v", i, j))
		}
		clis[i] = k
		k.C.Namespace("/").OnConnect(func(so socketio.Socket) {
			mu.Lock()
			if k.so != nil {
				c.Errorf("the connect handler of client %d runs again", i)
			}
			k.so = so
			mu.Unlock()
		}).OnDisconnect(func(so socketio.Socket) { k.left.add("/") }).OnError(func(so socketio.Socket, err ...interface{}) {
			log(fmt.Sprint("down ", i)).add("error")
		})
	}
	for n, call := range p.Calls {
		n, call := n, call
		outs := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf("")}
		fn := func(side string) interface{} {
			return call.Sig.fn(outs, func(args string, socks []socketio.Socket) []reflect.Value {
				log(fmt.Sprint(side, " ", call.Cli)).add(fmt.Sprint(n, " ", args))
				for _, so := range socks {
					if so == nil {
						c.Errorf("call %d was given no socket", n)
						continue
					}
					if so.Namespace() != "/" || side == "up" && so.GetHeader("X-Client") != fmt.Sprint(call.Cli) {
						c.Errorf("call %d of client %d was given another one's socket", n, call.Cli)
					}
				}
				return []reflect.Value{reflect.ValueOf(n), reflect.ValueOf("re")}
			})
		}
		if call.Up {
			s.S.Namespace("/").OnEvent(fmt.Sprint("f", n), fn("up"))
		} else {
			clis[call.Cli].C.Namespace("/").OnEvent(fmt.Sprint("f", n), fn("down"))
		}
	}
	// dial
	var wg sync.WaitGroup
	for i, k := range clis {
		i, k := i, k
		wg.Add(1)
		dial := func() {
			defer wg.Done()
			k.err = k.C.Dial("ws://"+ln.Addr().String()+p.Path, k.hdr, socketio.WebsocketTransport, parserOf(p.Msgp))
		}
		done := make(chan struct{})
		go func() { dial(); close(done) }()
		if !p.Conc {
			c.Await(func() bool {
				select {
				case <-done:
					return true
				default:
					return false
				}
			}, "return of Dial %d", i)
		}
		c.Defer(func() {
			if k.err == nil {
				go k.C.Close()
			}
		})
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	c.Await(func() bool {
		select {
		case <-all:
			return true
		default:
			return false
		}
	}, "return of all Dials")
	u := tcpURL(p.Path)
	for i, k := range clis {
		if k.err != nil {
			c.Failf("Dial %d: %v", i, k.err)
		}
		if got := <-urls; got != u {
			c.Failf("dialed %q; the server was asked for %q, not %q", p.Path, got, u)
		}
	}
	for i, k := range clis {
		sid := k.C.Sid()
		c.Await(func() bool {
			mu.Lock()
			defer mu.Unlock()
			e := s.sess(sid)
			k.srv = e.socket("/")
			return k.so != nil && k.srv != nil
		}, "connect handlers of client %d (%s) on both sides", i, sid)
		type id interface {
			Sid() string
			LocalAddr() net.Addr
			RemoteAddr() net.Addr
		}
		for _, so := range []id{k.C, k.so} {
			if so.Sid() != k.srv.Sid() || so.LocalAddr().String() != k.srv.RemoteAddr().String() || so.RemoteAddr().String() != k.srv.LocalAddr().String() {
				c.Failf("client %s %v-%v, server %s %v-%v", so.Sid(), so.LocalAddr(), so.RemoteAddr(), k.srv.Sid(), k.srv.RemoteAddr(), k.srv.LocalAddr())
			}
		}
		for key, v := range k.hdr {
			if k.srv.GetHeader(key) != v[0] || k.so.GetHeader(key) != v[0] || k.C.GetHeader(key) != v[0] {
				c.Failf("header %s of client %d: %q on the server, %q on the client; dialed with %q", key, i, k.srv.GetHeader(key), k.so.GetHeader(key), v[0])
			}
		}
		k.so.SetHeader("X-Own", fmt.Sprint("mine", i))
		if k.C.GetHeader("X-Own") != fmt.Sprint("mine", i) || k.srv.GetHeader("X-Own") != "" || k.hdr.Get("X-Own") != "" {
			c.Failf("header set on client %d: %q there, %q on the server, %q in the map it was dialed with", i, k.C.GetHeader("X-Own"), k.srv.GetHeader("X-Own"), k.hdr.Get("X-Own"))
		}
		if i > 0 && clis[i-1].C.GetHeader("X-Own") == k.C.GetHeader("X-Own") {
			c.Failf("clients share their header values")
		}
	}
	arrived := func() bool {
		for k, w := range want {
			if log(k).len() < len(w) {
				return false
			}
		}
		return true
	}
	ups, downs := 0, 0
	for n, call := range p.Calls {
		n := n
		side, to := "down", "down"
		emit := clis[call.Cli].srv.Emit
		if call.Up {
			side, to = "up", "up"
			emit = func(ev string, args ...interface{}) error { return clis[call.Cli].C.Emit("/", ev, args...) }
			ups++
		} else {
			downs++
		}
		key := fmt.Sprint(to, " ", call.Cli)
		var args []interface{}
		for _, a := range call.Sig.Args {
			args = append(args, a.goArg(p.Msgp))
		}
		if call.Sig.Bad {
			want[key] = append(want[key], "error")
		} else {
			want[key] = append(want[key], fmt.Sprint(n, " ", call.Sig.want()))
		}
		if call.Ack {
			ak := fmt.Sprint("ack ", side, " ", call.Cli)
			args = append(args, func(so socketio.Socket, i int, s string) { log(ak).add(fmt.Sprint(n, i, s, so.Namespace())) })
			if !call.Sig.Bad {
				want[ak] = append(want[ak], fmt.Sprint(n, n, "re", "/"))
			}
		}
		if err := emit(fmt.Sprint("f", n), args...); err != nil {
			c.Failf("emit %d: %v", n, err)
		}
		if call.Wait {
			c.Await(arrived, "all of %v", want)
		}
	}
	c.Reaches(arrived)
	tcpQuiet(c)
	mu.Lock()
	for k := range logs {
		if want[k] == nil {
			want[k] = []string{}
		}
	}
	mu.Unlock()
	for k, w := range want {
		if err := sameNotes(log(k).all(), w); err != nil {
			c.Failf("%s: %v", k, err)
		}
	}
	// the ends, one client after the other
	for i, k := range clis {
		addr := k.C.LocalAddr().String()
		e := s.sess(k.C.Sid())
		switch p.Ends[i] {
		case "client":
			go k.C.Close()
		case "server":
			go k.srv.Close()
		case "socket":
			go k.so.Close()
		default:
			conn := tn.conn(addr)
			if conn == nil {
				c.Failf("client %d says its address is %s, which the server does not know", i, addr)
			}
			if p.Ends[i] == "cut" {
				conn.(*net.TCPConn).SetLinger(0)
			}
			conn.Close()
		}
		c.Await(func() bool { return k.left.len() >= 1 && e.count("disconnect", "/") >= 1 }, "disconnect handlers of client %d on both sides (end: %s)", i, p.Ends[i])
		c.Label("end: " + p.Ends[i])
		for j, o := range clis {
			if j > i && o.left.len()+s.sess(o.C.Sid()).count("disconnect", "/") > 0 {
				c.Failf("client %d is disconnected by the end of client %d", j, i)
			}
		}
		c.Await(func() bool { return k.C.Emit("/", "late") != nil && k.srv.Emit("late") != nil }, "errors of emits after the end")
	}
	tcpQuiet(c)
	for i, k := range clis {
		if n, m := k.left.len(), s.sess(k.C.Sid()).count("disconnect", "/"); n != 1 || m != 1 {
			c.Failf("client %d: %d disconnect handler runs on the client, %d on the server", i, n, m)
		}
	}
	c.NonTrivialIf(ups > 0 && downs > 0)
	c.LabelIf(p.Msgp, "msgpack")
	c.LabelIf(p.Clients > 1, "several clients")
}

// tcpURL is what a server must be asked for when path is dialed.
func tcpURL(path string) string {
	r := sim.Req("GET", "", "x", nil, nil)
	u, err := r.URL.Parse(path)
	if err != nil {
		panic("socketioverif: " + err.Error())
	}
	q := u.Query()
	q.Set("EIO", "3")
	q.Set("transport", "websocket")
	return u.Path + " " + q.Encode()
}
