// Package sim is the simulated world around the library: in-memory network, HTTP
// request driver, protocol-level clients, and the quiescence detector.
package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

type half struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	wclosed  bool // writer closed: EOF after buf
	rclosed  bool // reader closed: writes fail
	stalled  bool // writes block
	maxRead  int  // at most this many bytes per Read (0: no limit)
	cutAfter int  // break the connection after this many more bytes (-1: never)
	rdl, wdl time.Time
	rt, wt   *time.Timer
	total    int
}

func newHalf() *half {
	h := &half{cutAfter: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// Addr is a net.Addr.
type Addr string

// Network implements net.Addr.
func (Addr) Network() string  { return "tcp" }
func (a Addr) String() string { return string(a) }

// Conn is one end of an in-memory connection without hidden buffering or timing.
type Conn struct {
	r, w          *half
	local, remote Addr
	once          sync.Once
}

// Pipe returns the two ends (client, server).
func Pipe(clientAddr, serverAddr string) (*Conn, *Conn) {
	a, b := newHalf(), newHalf()
	return &Conn{r: a, w: b, local: Addr(clientAddr), remote: Addr(serverAddr)},
		&Conn{r: b, w: a, local: Addr(serverAddr), remote: Addr(clientAddr)}
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	h := c.r
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rclosed {
			return 0, net.ErrClosed
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			n := len(p)
			if h.maxRead > 0 && n > h.maxRead {
				n = h.maxRead
			}
			n = copy(p[:n], h.buf)
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		}
		if h.wclosed {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

var errBroken = errors.New("write: broken pipe")

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	h := c.w
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.wclosed {
			return 0, net.ErrClosed
		}
		if h.rclosed {
			return 0, errBroken
		}
		if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if !h.stalled {
			break
		}
		h.cond.Wait()
	}
	n := len(p)
	if h.cutAfter >= 0 && n >= h.cutAfter {
		n = h.cutAfter
		h.buf = append(h.buf, p[:n]...)
		h.total += n
		h.cutAfter = 0
		h.wclosed = true
		h.cond.Broadcast()
		return n, errBroken
	}
	if h.cutAfter >= 0 {
		h.cutAfter -= n
	}
	h.buf = append(h.buf, p...)
	h.total += n
	h.cond.Broadcast()
	return n, nil
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.once.Do(func() {
		c.w.mu.Lock()
		c.w.wclosed = true
		if c.w.wt != nil {
			c.w.wt.Stop()
		}
		c.w.cond.Broadcast()
		c.w.mu.Unlock()
		c.r.mu.Lock()
		c.r.rclosed = true
		if c.r.rt != nil {
			c.r.rt.Stop()
		}
		c.r.cond.Broadcast()
		c.r.mu.Unlock()
	})
	return nil
}

// Closed tells whether this end was closed by its owner.
func (c *Conn) Closed() bool {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	return c.r.rclosed
}

// StallWrites makes writes on this end block (the peer stopped reading).
func (c *Conn) StallWrites(on bool) {
	c.w.mu.Lock()
	c.w.stalled = on
	c.w.cond.Broadcast()
	c.w.mu.Unlock()
}

// CutWritesAfter breaks the connection after n more bytes written on this end.
func (c *Conn) CutWritesAfter(n int) {
	c.w.mu.Lock()
	c.w.cutAfter = n
	c.w.mu.Unlock()
}

// MaxRead limits reads on this end to n bytes each.
func (c *Conn) MaxRead(n int) {
	c.r.mu.Lock()
	c.r.maxRead = n
	c.r.mu.Unlock()
}

// Unread is the number of bytes written to this end and not yet read.
func (c *Conn) Unread() int {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	return len(c.r.buf)
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return c.local }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (h *half) arm(slot **time.Timer, t time.Time) {
	if *slot != nil {
		(*slot).Stop()
		*slot = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			*slot = time.AfterFunc(d, func() {
				h.mu.Lock()
				h.cond.Broadcast()
				h.mu.Unlock()
			})
		}
	}
	h.cond.Broadcast()
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if c.r.rclosed {
		return net.ErrClosed
	}
	c.r.rdl = t
	c.r.arm(&c.r.rt, t)
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.wclosed {
		return net.ErrClosed
	}
	c.w.wdl = t
	c.w.arm(&c.w.wt, t)
	return nil
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
