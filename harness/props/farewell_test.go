package props

import (
	"fmt"
	"time"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C05: what was emitted before the application closes a session on WebSocket arrives

type c05Bye struct {
	Who   string `json:"who"`          // server, upgraded, client: the end that closes
	In    bool   `json:"in,omitempty"` // from within a message handler
	Stall bool   `json:"stall,omitempty"`
	Late  bool   `json:"late,omitempty"` // the stall ends only after the close began
	Pause int    `json:"pause,omitempty"`
	Up    []Blob `json:"up,omitempty"` // what the other end sends meanwhile
	Blobs []Blob `json:"blobs"`
	Twice bool   `json:"twice,omitempty"`
}

func init() {
	kit.Add("C05", "farewell", "several messages emitted, then the session closed by the application, on a WebSocket that is stalled or not", 4000, 60000, func(t *rapid.T) c05Bye {
		p := c05Bye{Who: rapid.SampledFrom([]string{"server", "server", "upgraded", "client"}).Draw(t, "who"), In: rapid.Bool().Draw(t, "in"),
			Stall: rapid.Bool().Draw(t, "stall"), Late: rapid.Bool().Draw(t, "late"), Pause: rapid.IntRange(0, 60).Draw(t, "pause"), Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0}
		p.Blobs = genBurst(t, "down")
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			p.Up = genBurst(t, "up")
		}
		return p
	}, runC05Bye)
}

func runC05Bye(c *kit.C, p c05Bye) {
	c.Label(p.Who)
	c.LabelIf(p.Stall, "stalled")
	c.NonTrivialIf(len(p.Blobs) > 1)
	if p.Who == "client" {
		runC05ByeClient(c, p)
		return
	}
	s := newEngSrv(c, long, long)
	s.keep = true
	var pe *peer
	done := make(chan struct{}, 2)
	bye := func() {
		for _, b := range p.Blobs {
			if err := pe.e.emit(b); err != nil {
				c.Errorf("emit on a healthy session: %v", err)
			}
		}
		if p.Twice {
			go pe.e.Sock.Close()
		}
		pe.e.Sock.Close()
		if err := pe.e.emit(fence()); err == nil {
			c.Errorf("emit on a session the application has closed returned no error")
		}
		done <- struct{}{}
	}
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		if p.In && string(k.Data) == "go" {
			bye()
		}
	}
	pe = newPeer(c, s, p.Who == "server", "10.0.0.1:1", nil, sim.XHR2)
	if p.Who == "upgraded" {
		pe.poll.Run(-1)
		pe.upgrade(nil)
		pe.exchange("after the upgrade")
	}
	pe.lenient()
	c.Quiet()
	pe.mu.Lock()
	before := len(pe.emitted)
	pe.mu.Unlock()
	pe.ws.Srv.StallWrites(p.Stall)
	if p.In {
		pe.sendPkts([]wire.Pkt{{Type: wire.EMessage, Data: []byte("go")}})
	} else {
		go bye()
	}
	pe.send(p.Up, 1)
	yield(p.Pause)
	if p.Late {
		time.Sleep(time.Duration(p.Pause) * 10 * time.Microsecond)
	}
	pe.ws.Srv.StallWrites(false)
	c.Await(func() bool { return len(done) > 0 && pe.ws.Ended() != nil && pe.e.Closed() }, "close of the session")
	c.Quiet()
	got := pe.got()
	if len(got) < before {
		c.Failf("client lost messages of before: %d of %d", len(got), before)
	}
	if err := samePkts(got[before:], blobMsgs(p.Blobs)); err != nil {
		c.Failf("messages emitted before the application closed the session: %v", err)
	}
}

func runC05ByeClient(c *kit.C, p c05Bye) {
	k, conn := newFake(c, false, false)
	cl := socketio.NewClient()
	var ended notes
	socks := make(chan socketio.Socket, 1)
	closed := make(chan struct{})
	bye := func(so socketio.Socket) {
		for i, b := range p.Blobs {
			if err := so.Emit("b", i, fmt.Sprintf("%x", b.Msg().Data)); err != nil {
				c.Errorf("emit on a healthy session: %v", err)
			}
		}
		if p.Twice {
			go cl.Close()
		}
		cl.Close()
		close(closed)
	}
	cl.Namespace("/").OnConnect(func(so socketio.Socket) { socks <- so }).OnDisconnect(func(so socketio.Socket) { ended.add("x") }).OnEvent("go", func(so socketio.Socket) {
		if p.In {
			bye(so)
		}
	})
	k.raw(openPkt("the-sid", 3600000, 3600000))
	k.send(SP{Type: wire.SConnect, NSP: "/"})
	dialed := make(chan error, 1)
	go func() { dialed <- cl.Dial("ws://server.example/", nil, &oneConn{conn: conn}, socketio.DefaultParser) }()
	c.Await(func() bool { return len(dialed) > 0 && len(socks) > 0 }, "return of Dial, and the connect handler")
	if err := <-dialed; err != nil {
		c.Failf("Dial: %v", err)
	}
	c.Defer(func() { go cl.Close() })
	so := <-socks
	k.lenient()
	k.ws.Srv.StallWrites(p.Stall)
	if p.In {
		k.send(evPkt("/", "go"))
	} else {
		go bye(so)
	}
	for i := range p.Up {
		k.send(evPkt("/", "nobody", intVal(int64(i))))
	}
	yield(p.Pause)
	if p.Late {
		time.Sleep(time.Duration(p.Pause) * 10 * time.Microsecond)
	}
	k.ws.Srv.StallWrites(false)
	c.Await(func() bool {
		select {
		case <-closed:
		default:
			return false
		}
		return k.ws.Ended() != nil && ended.len() > 0
	}, "close of the client")
	c.Quiet()
	n := 0
	for _, q := range k.recv() {
		if q.Type != wire.SEvent {
			continue
		}
		if n >= len(p.Blobs) {
			c.Failf("server received %s", q)
		}
		if want := evPkt("/", "b", intVal(int64(n)), strVal(fmt.Sprintf("%x", p.Blobs[n].Msg().Data))).key(); q.key() != want {
			c.Failf("server received %s, not %s", clipS(q.key()), clipS(want))
		}
		n++
	}
	if n < len(p.Blobs) {
		c.Failf("server received %d of %d events emitted before the client was closed", n, len(p.Blobs))
	}
}
