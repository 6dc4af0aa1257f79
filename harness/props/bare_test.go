package props

import (
	"bytes"
	"fmt"
	"sync"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- garbage at an application that registered few handlers, or none, on the server
// and on the client

type c13Bare struct {
	Msgp   bool    `json:"msgp,omitempty"`
	WS     bool    `json:"ws,omitempty"`
	Client bool    `json:"client,omitempty"`
	Enc    sim.Enc `json:"enc,omitempty"`
	OnErr  bool    `json:"onerr,omitempty"`  // error handlers, of the namespaces too
	OnConn bool    `json:"onconn,omitempty"` // connect and disconnect handlers
	Errs   []int   `json:"errs"`             // error packets among the garbage
	In     []C13F  `json:"in"`
}

func genC13Bare(client bool) func(t *rapid.T) c13Bare {
	return func(t *rapid.T) c13Bare {
		p := c13Bare{Client: client, Msgp: rapid.Bool().Draw(t, "msgp"), WS: rapid.IntRange(0, 3).Draw(t, "ws") > 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		p.OnErr = rapid.IntRange(0, 2).Draw(t, "onerr") > 0
		p.OnConn = rapid.Bool().Draw(t, "onconn")
		if !client {
			p.OnErr = rapid.IntRange(0, 3).Draw(t, "onerr2") == 0 // facet "server" has the rest
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			p.In = append(p.In, genC13F(t, fmt.Sprint("f", i), p.Msgp))
			p.Errs = append(p.Errs, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, fmt.Sprint("e", i)))
		}
		return p
	}
}

func init() {
	const rule = "the garbage holds a frame that is certainly malformed"
	kit.Add("C13", "client", rule, 9000, 100000, genC13Bare(true), runC13Bare)
	kit.Add("C13", "bare", rule, 6000, 60000, genC13Bare(false), runC13Bare)
}

// app is a socket.io application end: the library's server or client.
type app interface {
	Namespace(string) socketio.Namespace
}

func runC13Bare(c *kit.C, p c13Bare) {
	const home = "/home-of-the-check"
	var mu sync.Mutex
	errs, nspErrs, connects := 0, 0, map[string]int{}
	handled := make(chan int, 100)
	register := func(a app) {
		for _, n := range []string{"/", "/a", home} {
			n := n
			ns := a.Namespace(n)
			if p.OnConn {
				ns.OnConnect(func(so socketio.Socket) { mu.Lock(); connects[n]++; mu.Unlock() })
				ns.OnDisconnect(func(so socketio.Socket) { mu.Lock(); connects["-"+n]++; mu.Unlock() })
			}
			if p.OnErr {
				ns.OnError(func(so socketio.Socket, err ...interface{}) {
					if so == nil || so.Namespace() != n || len(err) == 0 {
						c.Errorf("error handler of %s called with %v, %v", n, so, err)
					}
					mu.Lock()
					nspErrs++
					mu.Unlock()
				})
			}
		}
		a.Namespace(home).OnEvent("ok", func(so socketio.Socket, tag int) {
			handled <- tag
			if err := so.Emit("ok", tag); err != nil {
				c.Errorf("emit in a handler: %v", err)
			}
		})
		a.Namespace("/").OnEvent("a", func(a int, b string) int { return a })
		a.Namespace("/a").OnEvent("a", func(a interface{}, b []interface{}) int { return 1 })
	}
	var k *sioCli
	if p.Client {
		var conn *oneConn
		kk, cn := newFake(c, p.Msgp, !p.WS)
		k, conn = kk, &oneConn{conn: cn}
		cl := socketio.NewClient()
		if p.OnErr {
			cl.OnError(func(err interface{}) {
				if err == nil {
					c.Errorf("the client's error handler was given nil")
				}
				mu.Lock()
				errs++
				mu.Unlock()
			})
		}
		register(cl)
		k.raw(openPkt("the-sid", 3600000, 3600000))
		if err := cl.Dial("ws://server.example/socket.io/", nil, conn, parserOf(p.Msgp)); err != nil {
			c.Failf("Dial: %v", err)
		}
		c.Defer(func() { go cl.Close() })
		k.send(SP{Type: wire.SConnect, NSP: "/"})
	} else {
		s := newSioSrv(c, p.Msgp, long, long)
		s.S.OnError(nil)
		if p.OnErr {
			s.S.OnError(func(err error) {
				if err == nil {
					c.Errorf("the server's error handler was given nil")
				}
				mu.Lock()
				errs++
				mu.Unlock()
			})
		}
		register(s.S)
		k = newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
	}
	k.send(SP{Type: wire.SConnect, NSP: home})
	k.send(evPkt(home, "ok", Val{K: "int", I: 1}))
	bad, perr := 0, 0
	for i, in := range p.In {
		for _, f := range in.expand(p.Msgp) {
			if bytes.Contains(f.data, []byte(home)) {
				continue
			}
			if surelyBad(f, p.Msgp) {
				bad++
			}
			k.raw(wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
		}
		for j := 0; j < p.Errs[i%len(p.Errs)]; j++ {
			k.send(SP{Type: wire.SError, NSP: home, Data: "trouble"})
			perr++
		}
	}
	k.send(evPkt(home, "ok", Val{K: "int", I: 2}), evPkt(home, "ok", Val{K: "int", I: 3}))
	c.Await(func() bool {
		n := 0
		for _, q := range k.lenientRecv() {
			if q.Type == wire.SEvent && q.NSP == home {
				n++
			}
		}
		return n >= 3
	}, "answers to the events that surround the garbage")
	for i := 1; i <= 3; i++ {
		if got := <-handled; got != i {
			c.Failf("event %d of %s handled in place of %d", got, home, i)
		}
	}
	c.Quiet()
	mu.Lock()
	defer mu.Unlock()
	if p.OnConn && (connects[home] != 1 || connects["-"+home] != 0) {
		c.Failf("%s: connect handler ran %d times, disconnect handler %d times", home, connects[home], connects["-"+home])
	}
	if len(handled) > 0 {
		c.Failf("an event ran twice")
	}
	if p.OnErr && errs < bad {
		c.Failf("%d malformed frames, %d errors reported", bad, errs)
	}
	if p.OnErr && nspErrs < perr {
		c.Failf("%d error packets, %d runs of namespace error handlers", perr, nspErrs)
	}
	c.NonTrivialIf(bad > 0)
	c.LabelIf(p.Msgp, "msgpack")
	c.LabelIf(p.WS, "websocket")
	c.LabelIf(p.OnErr, "error handlers")
	c.LabelIf(!p.OnErr && !p.OnConn, "no handlers but for events")
}
