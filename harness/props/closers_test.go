package props

import (
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C18: the same thing closed by several goroutines at one instant ----

type c18Close struct {
	Kind   string `json:"kind"`
	N      int    `json:"goroutines"`
	Rounds int    `json:"rounds"`
	Use    bool   `json:"use,omitempty"` // another goroutine uses it meanwhile
}

func init() {
	kit.Add("C18", "closers", "every case: one server, connection, session or client is closed by several goroutines at one instant", 4000, 60000, func(t *rapid.T) c18Close {
		p := c18Close{Kind: rapid.SampledFrom([]string{"server", "sioserver", "conn", "session", "socket", "client", "sioclient"}).Draw(t, "kind"),
			N: rapid.IntRange(2, 6).Draw(t, "goroutines"), Use: rapid.Bool().Draw(t, "use")}
		most := 12
		if p.Kind == "server" || p.Kind == "sioserver" || p.Kind == "conn" {
			most = 150
		}
		p.Rounds = rapid.IntRange(1, most).Draw(t, "rounds")
		return p
	}, runC18Close)
}

// atOnce runs f in n goroutines at one instant, with what may panic reported.
func atOnce(c *kit.C, what string, n int, fs ...func()) {
	var ready, left atomic.Int64
	total := int64(n + len(fs) - 1)
	left.Store(total)
	run := func(f func()) {
		defer left.Add(-1)
		defer func() {
			if v := recover(); v != nil {
				c.Errorf("%s panicked: %v", what, v)
			}
		}()
		ready.Add(1)
		for i := 0; ready.Load() < total && i < 1000000; i++ {
			if i%1000 == 999 {
				runtime.Gosched()
			}
		}
		f()
	}
	for i := 0; i < n; i++ {
		go run(fs[0])
	}
	for _, f := range fs[1:] {
		go run(f)
	}
	c.Await(func() bool { return left.Load() == 0 }, "return of %s, called by several goroutines", what)
}

func runC18Close(c *kit.C, p c18Close) {
	c.NonTrivial()
	c.Label(p.Kind)
	for r := 0; r < p.Rounds; r++ {
		c18CloseRound(c, p)
	}
	c.Check()
}

func c18CloseRound(c *kit.C, p c18Close) {
	var fs []func()
	use := func(f func()) {
		if p.Use {
			fs = append(fs, f)
		}
	}
	switch p.Kind {
	case "server", "sioserver":
		var h http.Handler
		var cl func() error
		var opened atomic.Int64
		if p.Kind == "server" {
			s, err := engine.NewServer(long, long, func(*engine.Socket) { opened.Add(1) })
			if err != nil {
				c.Failf("NewServer: %v", err)
			}
			h, cl = s, s.Close
		} else {
			s, err := socketio.NewServer(long, long, socketio.DefaultParser)
			if err != nil {
				c.Failf("NewServer: %v", err)
			}
			s.Namespace("/").OnConnect(func(socketio.Socket) { opened.Add(1) })
			h, cl = s, s.Close
		}
		fs = []func(){func() { cl() }}
		atOnce(c, "Close of a "+p.Kind, p.N, fs...)
		call := sim.Do(h, sim.Req("GET", "EIO=3&transport=polling", "10.0.0.1:1", nil, nil))
		c.Await(call.Done, "answer to a handshake with a closed server")
		noPanic(c, call)
		if code, _, _ := call.Result(); code < 400 || opened.Load() != 0 {
			c.Failf("handshake with a closed server answered %d", code)
		}
	case "conn":
		conn, err := engine.PollingAcceptor.Accept(nil, sim.Req("GET", "EIO=3&transport=polling", "10.0.0.1:1", nil, nil))
		if err != nil {
			c.Failf("PollingAcceptor: %v", err)
		}
		fs = []func(){func() { conn.Close() }}
		use(func() { conn.ReadPacket() })
		atOnce(c, "Close of a polling connection", p.N, fs...)
		if _, err := conn.ReadPacket(); err == nil {
			c.Failf("read of a closed connection returned no error")
		}
	case "session", "socket":
		var closed atomic.Int64
		sock := make(chan *engine.Socket, 1)
		ssock := make(chan socketio.Socket, 1)
		var h http.Handler
		if p.Kind == "session" {
			s, err := engine.NewServer(long, long, func(so *engine.Socket) { sock <- so })
			if err != nil {
				c.Failf("NewServer: %v", err)
			}
			s.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { closed.Add(1) }))
			h = s
		} else {
			s, err := socketio.NewServer(long, long, socketio.DefaultParser)
			if err != nil {
				c.Failf("NewServer: %v", err)
			}
			s.Namespace("/").OnConnect(func(so socketio.Socket) { ssock <- so }).OnDisconnect(func(socketio.Socket) { closed.Add(1) })
			h = s
		}
		po := sim.NewPoll(h, "10.0.0.1:1", nil, sim.XHR2)
		call := po.Get()
		c.Await(call.Done, "handshake")
		var cl func() error
		var emit func() error
		if p.Kind == "session" {
			so := <-sock
			cl, emit = so.Close, func() error { return so.Send("x") }
		} else {
			so := <-ssock
			cl, emit = so.Close, func() error { return so.Emit("x") }
		}
		fs = []func(){func() { cl() }}
		use(func() { emit() })
		atOnce(c, "Close of a "+p.Kind, p.N, fs...)
		if emit() == nil {
			c.Failf("emit on a closed %s returned no error", p.Kind)
		}
		c.Await(func() bool { return closed.Load() > 0 }, "close callback of a %s", p.Kind)
		if n := closed.Load(); n != 1 {
			c.Failf("close callback of a %s ran %d times", p.Kind, n)
		}
	default:
		conn, err := engine.PollingAcceptor.Accept(nil, sim.Req("GET", "EIO=3&transport=polling", "10.9.0.1:1", nil, nil))
		if err != nil {
			c.Failf("PollingAcceptor: %v", err)
		}
		po := sim.NewPoll(conn.(http.Handler), "10.9.0.1:1", nil, sim.XHR2)
		call := po.Post(openPkt("x", 25000, 20000))
		var closed atomic.Int64
		var cl, emit func() error
		d := &oneConn{conn: conn}
		var once sync.Once
		if p.Kind == "client" {
			cli, err := engine.Dial("http://10.9.0.1/", nil, d)
			if err != nil {
				c.Failf("Dial: %v", err)
			}
			cli.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { closed.Add(1) }))
			cl, emit = cli.Close, func() error { return cli.Send("x") }
		} else {
			cli := socketio.NewClient()
			joined := make(chan struct{})
			cli.Namespace("/").OnConnect(func(socketio.Socket) { once.Do(func() { close(joined) }) }).OnDisconnect(func(socketio.Socket) { closed.Add(1) })
			if err := cli.Dial("http://10.9.0.1/", nil, d, socketio.DefaultParser); err != nil {
				c.Failf("Dial: %v", err)
			}
			po.Post(wire.Pkt{Type: wire.EMessage, Data: []byte("0")})
			c.Await(func() bool {
				select {
				case <-joined:
					return true
				default:
					return false
				}
			}, "connect handler of the client")
			cl, emit = cli.Close, func() error { return cli.Emit("/", "x") }
		}
		c.Await(call.Done, "post of the open packet")
		fs = []func(){func() { cl() }}
		use(func() { emit() })
		atOnce(c, "Close of a "+p.Kind, p.N, fs...)
		if emit() == nil {
			c.Failf("emit on a closed %s returned no error", p.Kind)
		}
		c.Await(func() bool { return closed.Load() > 0 }, "close callback of a %s", p.Kind)
		if n := closed.Load(); n != 1 {
			c.Failf("close callback of a %s ran %d times", p.Kind, n)
		}
	}
}
