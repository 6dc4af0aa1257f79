package sim

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
)

// Call is one HTTP request in flight: it behaves like net/http's server side (header
// snapshot, implicit 200, content sniffing, hijacking) without a network.
type Call struct {
	Req  *http.Request
	done chan struct{}

	mu       sync.Mutex
	hdr      http.Header
	sent     http.Header
	code     int
	body     bytes.Buffer
	writes   int
	conn     net.Conn
	hijacked bool
	cancel   context.CancelFunc
	panicVal interface{}
	panicStk string
}

// Panics counts panics that escaped from handlers.
var Panics atomic.Int64

// Header implements http.ResponseWriter.
func (c *Call) Header() http.Header { return c.hdr }

// WriteHeader implements http.ResponseWriter.
func (c *Call) WriteHeader(code int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.code == 0 && !c.hijacked {
		c.code = code
		c.sent = c.hdr.Clone()
	}
}

func (c *Call) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.hijacked {
		return 0, http.ErrHijacked
	}
	if c.code == 0 {
		c.code = 200
		c.sent = c.hdr.Clone()
	}
	c.writes++
	return c.body.Write(b)
}

// hijackable adds http.Hijacker.
type hijackable struct{ *Call }

// Hijack implements http.Hijacker.
func (h hijackable) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	c := h.Call
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.hijacked {
		return nil, nil, http.ErrHijacked
	}
	c.hijacked = true
	return c.conn, bufio.NewReadWriter(bufio.NewReader(c.conn), bufio.NewWriter(c.conn)), nil
}

// Do serves a request in a goroutine of its own.
func Do(h http.Handler, r *http.Request) *Call { return do(h, r, nil) }

func do(h http.Handler, r *http.Request, conn net.Conn) *Call {
	ctx, cancel := context.WithCancel(context.Background())
	c := &Call{Req: r.WithContext(ctx), done: make(chan struct{}), hdr: http.Header{}, conn: conn, cancel: cancel}
	go func() {
		defer close(c.done)
		defer cancel()
		defer func() {
			if v := recover(); v != nil {
				c.mu.Lock()
				c.panicVal, c.panicStk = v, string(debug.Stack())
				c.mu.Unlock()
				Panics.Add(1)
			}
		}()
		var w http.ResponseWriter = c
		if conn != nil {
			w = hijackable{c}
		}
		h.ServeHTTP(w, c.Req)
	}()
	return c
}

// Done tells whether the request was answered.
func (c *Call) Done() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// DoneChan is closed when the request was answered.
func (c *Call) DoneChan() <-chan struct{} { return c.done }

// Abort is the client going away.
func (c *Call) Abort() { c.cancel() }

// Panic reports a panic of the handler.
func (c *Call) Panic() (interface{}, string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.panicVal, c.panicStk
}

// Hijacked tells whether the connection was taken over.
func (c *Call) Hijacked() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.hijacked
}

// Result is what the client receives, for an answered request.
func (c *Call) Result() (code int, hdr http.Header, body []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	code, hdr = c.code, c.sent
	if code == 0 {
		code = 200
		hdr = c.hdr.Clone()
	}
	if _, ok := hdr["Content-Type"]; !ok && c.body.Len() > 0 {
		hdr.Set("Content-Type", http.DetectContentType(c.body.Bytes()))
	}
	return code, hdr, c.body.Bytes()
}

// Body is a request body delivered in the given pieces (the last one repeats), with an
// optional error instead of EOF.
type Body struct {
	data   []byte
	chunks []int
	i      int
	err    error
	gate   chan struct{} // if set, EOF only after it is closed
}

// NewBody makes a request body.
func NewBody(data []byte, chunks []int, err error) *Body {
	return &Body{data: data, chunks: chunks, err: err}
}

// Gate makes the end of the body wait for ch.
func (b *Body) Gate(ch chan struct{}) *Body { b.gate = ch; return b }

func (b *Body) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.gate != nil {
			<-b.gate
		}
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(b.data)
	if len(b.chunks) > 0 {
		n = b.chunks[b.i%len(b.chunks)]
		b.i++
		if n < 1 {
			n = 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(b.data) {
		n = len(b.data)
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

// Close implements io.Closer.
func (b *Body) Close() error { return nil }

// Path is where servers are mounted.
const Path = "/socket.io/"

// Req builds a request as the server would see it.
func Req(method, query, remote string, hdr http.Header, body io.ReadCloser) *http.Request {
	u, err := url.Parse("http://server.example:80" + Path + "?" + query)
	if err != nil {
		u = &url.URL{Path: Path, RawQuery: query}
	}
	if body == nil {
		body = http.NoBody
	}
	h := http.Header{}
	for k, v := range hdr {
		h[k] = append([]string(nil), v...)
	}
	return &http.Request{Method: method, URL: &url.URL{Path: Path, RawQuery: query}, Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body, Host: u.Host, RemoteAddr: remote,
		RequestURI: Path + "?" + query, ContentLength: -1}
}

// errRefused is returned for a WebSocket handshake the server refused.
var errRefused = errors.New("websocket handshake refused")

func serveConn(h http.Handler, srv *Conn, onCall func(*Call)) {
	br := bufio.NewReader(srv)
	r, err := http.ReadRequest(br)
	if err != nil {
		srv.Close()
		return
	}
	r.RemoteAddr = srv.RemoteAddr().String()
	c := do(h, r, srv)
	onCall(c)
	<-c.done
	if c.Hijacked() {
		return
	}
	code, hdr, body := c.Result()
	if v, _ := c.Panic(); v != nil {
		srv.Close()
		return
	}
	fmt.Fprintf(srv, "HTTP/1.1 %d %s\r\n", code, http.StatusText(code))
	hdr.Set("Content-Length", fmt.Sprint(len(body)))
	hdr.Write(srv)
	io.Copy(srv, io.MultiReader(strings.NewReader("\r\n"), bytes.NewReader(body)))
	srv.Close()
}
