package harness

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// memConn is one end of an in-memory connection whose buffers take everything (limit 0) or limit bytes.
type memConn struct {
	rd, wr *memBuf
	name   string
}

type memBuf struct {
	mu       sync.Mutex
	data     []byte
	limit    int
	wclosed  bool // no more data will come
	rclosed  bool // nobody reads any more
	change   chan struct{}
	rdl, wdl time.Time
}

func newMemBuf(limit int) *memBuf { return &memBuf{limit: limit, change: make(chan struct{})} }

func (b *memBuf) notify() { close(b.change); b.change = make(chan struct{}) }

func memPipe(limit int) (*memConn, *memConn) {
	x, y := newMemBuf(limit), newMemBuf(limit)
	return &memConn{x, y, "client"}, &memConn{y, x, "server"}
}

func wait(ch chan struct{}, dl time.Time) bool {
	if dl.IsZero() {
		<-ch
		return true
	}
	d := time.Until(dl)
	if d <= 0 {
		return false
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

func (c *memConn) Read(p []byte) (int, error) {
	b := c.rd
	for {
		b.mu.Lock()
		if b.rclosed {
			b.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(b.data) > 0 {
			n := copy(p, b.data)
			b.data = b.data[n:]
			b.notify()
			b.mu.Unlock()
			return n, nil
		}
		if b.wclosed {
			b.mu.Unlock()
			return 0, io.EOF
		}
		ch, dl := b.change, b.rdl
		b.mu.Unlock()
		if !wait(ch, dl) {
			b.mu.Lock()
			expired := !b.rdl.IsZero() && !time.Now().Before(b.rdl)
			b.mu.Unlock()
			if expired {
				return 0, os.ErrDeadlineExceeded
			}
		}
	}
}

func (c *memConn) Write(p []byte) (n int, err error) {
	b := c.wr
	for {
		b.mu.Lock()
		if b.wclosed {
			b.mu.Unlock()
			return n, net.ErrClosed
		}
		if b.rclosed {
			b.mu.Unlock()
			return n, io.ErrClosedPipe
		}
		room := len(p)
		if b.limit > 0 && b.limit-len(b.data) < room {
			room = b.limit - len(b.data)
		}
		if room > 0 || len(p) == 0 {
			b.data = append(b.data, p[:room]...)
			n += room
			p = p[room:]
			b.notify()
			if len(p) == 0 {
				b.mu.Unlock()
				return n, nil
			}
		}
		ch, dl := b.change, b.wdl
		b.mu.Unlock()
		if !wait(ch, dl) {
			b.mu.Lock()
			expired := !b.wdl.IsZero() && !time.Now().Before(b.wdl)
			b.mu.Unlock()
			if expired {
				return n, os.ErrDeadlineExceeded
			}
		}
	}
}

func (c *memConn) Close() error {
	c.wr.mu.Lock()
	c.wr.wclosed = true
	c.wr.notify()
	c.wr.mu.Unlock()
	c.rd.mu.Lock()
	c.rd.rclosed = true
	c.rd.notify()
	c.rd.mu.Unlock()
	return nil
}

type memAddr string

func (memAddr) Network() string  { return "mem" }
func (a memAddr) String() string { return string(a) }

func (c *memConn) LocalAddr() net.Addr  { return memAddr(c.name) }
func (c *memConn) RemoteAddr() net.Addr { return memAddr("peer of " + c.name) }
func (c *memConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.rd.mu.Lock()
	c.rd.rdl = t
	c.rd.notify()
	c.rd.mu.Unlock()
	return nil
}
func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.wr.mu.Lock()
	c.wr.wdl = t
	c.wr.notify()
	c.wr.mu.Unlock()
	return nil
}
