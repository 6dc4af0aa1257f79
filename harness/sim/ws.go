package sim

import (
	"bufio"
	"fmt"
	"net/http"
	"net/url"
	"sync"

	"github.com/gorilla/websocket"
	"socketioverif/wire"
)

// WS is a protocol-level WebSocket client.
type WS struct {
	Cli, Srv *Conn

	mu      sync.Mutex
	c       *websocket.Conn
	resp    *http.Response
	hserr   error
	hsdone  bool
	call    *Call
	got     []wire.Pkt
	bad     error // a frame that is no engine.io packet
	end     error // why reading ended
	wmu     sync.Mutex
	readOff bool
	cond    *sync.Cond
	onPkt   func(wire.Pkt)
	frag    []int
	fragN   int
}

// DialWS starts a WebSocket handshake and, when it succeeds, reads frames for ever.
// cut>=0 breaks the server's writes after that many bytes.
func DialWS(h http.Handler, query, addr string, hdr http.Header, prep func(cli, srv *Conn)) *WS {
	cli, srv := Pipe(addr, "server.example:80")
	w := &WS{Cli: cli, Srv: srv}
	w.cond = sync.NewCond(&w.mu)
	if prep != nil {
		prep(cli, srv)
	}
	go serveConn(h, srv, func(c *Call) {
		w.mu.Lock()
		w.call = c
		w.mu.Unlock()
	})
	go func() {
		u := &url.URL{Scheme: "ws", Host: "server.example", Path: Path, RawQuery: query}
		c, resp, err := websocket.NewClient(cli, u, hdr, 4096, 4096)
		w.mu.Lock()
		w.c, w.resp, w.hserr, w.hsdone = c, resp, err, true
		w.mu.Unlock()
		if err != nil {
			cli.Close()
			return
		}
		for {
			w.mu.Lock()
			for w.readOff {
				w.cond.Wait()
			}
			w.mu.Unlock()
			t, b, err := c.ReadMessage()
			w.mu.Lock()
			if err != nil {
				w.end = err
				w.mu.Unlock()
				return
			}
			p, err := wire.DecFrame(t == websocket.TextMessage, b)
			if err != nil && w.bad == nil {
				w.bad = fmt.Errorf("frame %q: %v", b, err)
			}
			if err == nil {
				w.got = append(w.got, p)
			}
			f := w.onPkt
			w.mu.Unlock()
			if err == nil && f != nil {
				f(p)
			}
		}
	}()
	return w
}

// OnPkt registers a function to run for every packet received from now on, in the reading
// goroutine.
func (w *WS) OnPkt(f func(wire.Pkt)) {
	w.mu.Lock()
	w.onPkt = f
	w.mu.Unlock()
}

// Handshaken tells whether the handshake has ended, and how.
func (w *WS) Handshaken() (done bool, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hsdone, w.hserr
}

// HSDone tells whether the handshake has ended.
func (w *WS) HSDone() bool { d, _ := w.Handshaken(); return d }

// Status is the HTTP status of the handshake response (0: none).
func (w *WS) Status() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.resp == nil {
		return 0
	}
	return w.resp.StatusCode
}

// Call is the server side of the handshake request (nil if it never arrived).
func (w *WS) Call() *Call {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.call
}

// Got returns the packets received so far, and the first frame that was no packet.
func (w *WS) Got() ([]wire.Pkt, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.got[:len(w.got):len(w.got)], w.bad
}

// N is the number of packets received.
func (w *WS) N() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.got)
}

// Ended returns why reading ended (nil: it has not).
func (w *WS) Ended() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.hsdone && w.hserr != nil {
		return w.hserr
	}
	return w.end
}

// Send writes one packet.
func (w *WS) Send(p wire.Pkt) error { return w.SendRaw(!p.Bin, wire.EncFrame(p)) }

// SendRaw writes one message.
func (w *WS) SendRaw(text bool, b []byte) error {
	w.mu.Lock()
	c := w.c
	w.mu.Unlock()
	if c == nil {
		return errRefused
	}
	t := websocket.BinaryMessage
	if text {
		t = websocket.TextMessage
	}
	w.wmu.Lock()
	defer w.wmu.Unlock()
	if len(w.frag) > 0 {
		return w.sendFrags(t, b)
	}
	return c.WriteMessage(t, b)
}

// Frag makes messages sent from now on go out in frames of the given sizes, in turn (none:
// one frame each); after a frame of size 0 a WebSocket ping is sent as well.
func (w *WS) Frag(sizes []int) {
	w.wmu.Lock()
	w.frag = sizes
	w.wmu.Unlock()
}

// sendFrags writes one message in several frames.
func (w *WS) sendFrags(op int, b []byte) error {
	for {
		n := w.frag[w.fragN%len(w.frag)]
		w.fragN++
		if n > len(b) || w.fragN > 1<<20 {
			n = len(b)
		}
		last := n == len(b)
		f := []byte{byte(op)}
		if last {
			f[0] |= 0x80
		}
		switch {
		case n < 126:
			f = append(f, 0x80|byte(n))
		case n < 1<<16:
			f = append(f, 0x80|126, byte(n>>8), byte(n))
		default:
			f = append(f, 0x80|127)
			for i := 56; i >= 0; i -= 8 {
				f = append(f, byte(n>>i))
			}
		}
		key := [4]byte{0x5a, byte(w.fragN), 0xff, 0x01}
		f = append(f, key[:]...)
		at := len(f)
		f = append(f, b[:n]...)
		for i := range b[:n] {
			f[at+i] ^= key[i&3]
		}
		if n == 0 && !last {
			f = append(f, 0x89, 0x81, 0, 0, 0, 0, 'p')
		}
		if _, err := w.Cli.Write(f); err != nil {
			return err
		}
		if last {
			return nil
		}
		b, op = b[n:], 0
	}
}

// SendCut writes part of a message: frags frames of it, and a last frame that breaks off.
// At most n bytes of the message are sent, and never all of it.
func (w *WS) SendCut(bin bool, b []byte, frags, n int) error {
	if n >= len(b) {
		n = len(b) - 1
	}
	op := byte(1)
	if bin {
		op = 2
	}
	var out []byte
	for i := 0; i < frags; i++ {
		k := n / frags
		if k > 125 {
			k = 125
		}
		out = append(out, op, 0x80|byte(k), 0, 0, 0, 0)
		out = append(out, b[:k]...)
		b, n, op = b[k:], n-k, 0
	}
	m := len(b)
	if m > 125 {
		m = 125
	}
	if n >= m {
		n = m - 1
	}
	if n > 0 {
		out = append(out, 0x80|op, 0x80|byte(m), 0, 0, 0, 0)
		out = append(out, b[:n]...)
	}
	w.wmu.Lock()
	defer w.wmu.Unlock()
	_, err := w.Cli.Write(out)
	return err
}

// Close drops the connection without a closing handshake.
func (w *WS) Close() { w.Cli.Close() }

// CloseFrame performs the client's half of the closing handshake.
func (w *WS) CloseFrame() {
	w.mu.Lock()
	c := w.c
	w.mu.Unlock()
	if c == nil {
		return
	}
	w.wmu.Lock()
	defer w.wmu.Unlock()
	c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
}

// Raw is a request written as it is to a connection of its own.
type Raw struct {
	mu   sync.Mutex
	resp *http.Response
	err  error
	done bool
	Cli  *Conn
	call *Call
}

// RawRequest sends bytes to a server and reads one response.
func RawRequest(h http.Handler, addr string, req []byte) *Raw {
	cli, srv := Pipe(addr, "server.example:80")
	r := &Raw{Cli: cli}
	go serveConn(h, srv, func(c *Call) {
		r.mu.Lock()
		r.call = c
		r.mu.Unlock()
	})
	go func() {
		cli.Write(req)
		resp, err := http.ReadResponse(bufio.NewReader(cli), nil)
		r.mu.Lock()
		r.resp, r.err, r.done = resp, err, true
		r.mu.Unlock()
	}()
	return r
}

// Done tells whether a response came, or none will.
func (r *Raw) Done() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.done }

// Status is the status of the response (0: none).
func (r *Raw) Status() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.resp == nil {
		return 0
	}
	return r.resp.StatusCode
}

// Call is the server side of the request.
func (r *Raw) Call() *Call { r.mu.Lock(); defer r.mu.Unlock(); return r.call }
