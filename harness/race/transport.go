// Package race looks for data races in the library. It is built with the race
// detector, which judges; this package provides concurrent use of clients over
// a network that adds no synchronisation of its own: connections are byte rings
// that are read and written behind the race detector's back, so that only what
// the library does itself orders its memory accesses.
package race

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"
)

// ring carries bytes from one goroutine to another. Plain loads and stores are
// enough on the machines this runs on (total store order), as the functions
// that do them are not inlined.
type ring struct {
	buf  [1 << 15]byte
	r, w uint64
}

//go:norace
//go:noinline
func (b *ring) put(p []byte) int {
	n := 0
	for n < len(p) && b.w-b.r < uint64(len(b.buf)) {
		b.buf[b.w%uint64(len(b.buf))] = p[n]
		b.w++
		n++
	}
	return n
}

//go:norace
//go:noinline
func (b *ring) get(p []byte) int {
	n := 0
	for n < len(p) && b.r < b.w {
		p[n] = b.buf[b.r%uint64(len(b.buf))]
		b.r++
		n++
	}
	return n
}

// flag is a value that is read and written behind the race detector's back.
type flag struct{ v int64 }

//go:norace
//go:noinline
func (f *flag) set(v int64) { f.v = v }

//go:norace
//go:noinline
func (f *flag) get() int64 { return f.v }

//go:norace
//go:noinline
func (f *flag) next() int64 {
	f.v++
	return f.v - 1
}

// pause lets others run.
func pause(n int) {
	if n < 20 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(min(n, 200)) * time.Microsecond)
}

// conn is the client's end of a connection.
type conn struct {
	in, out  ring
	closed   flag
	eof      flag // the server ended the stream
	reset    flag
	rdl, wdl flag
	writable flag // how much more the client may write before it fails, if limited
	limited  bool
	over     *flag
}

var _ net.Conn = (*conn)(nil)

func late(f *flag) bool {
	t := f.get()
	return t != 0 && time.Now().UnixNano() >= t
}

// Read implements net.Conn.
func (c *conn) Read(p []byte) (int, error) {
	scratch := make([]byte, min(len(p), 4096))
	for i := 0; ; i++ {
		if c.closed.get() != 0 {
			return 0, net.ErrClosed
		}
		if late(&c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if c.reset.get() != 0 {
			return 0, syscall.ECONNRESET
		}
		end := c.eof.get() != 0
		if n := c.in.get(scratch); n > 0 {
			return copy(p, scratch[:n]), nil // the race detector sees this write
		}
		if end || c.over.get() != 0 {
			return 0, io.EOF
		}
		pause(i)
	}
}

// Write implements net.Conn.
func (c *conn) Write(p []byte) (int, error) {
	scratch := append([]byte(nil), p...) // the race detector sees this read
	n := 0
	for i := 0; ; i++ {
		if c.closed.get() != 0 {
			return n, net.ErrClosed
		}
		if late(&c.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		if c.reset.get() != 0 || c.over.get() != 0 {
			return n, syscall.EPIPE
		}
		rest := scratch[n:]
		if c.limited {
			left := int(c.writable.get())
			if left == 0 {
				return n, syscall.ECONNRESET
			}
			rest = rest[:min(len(rest), left)]
		}
		k := c.out.put(rest)
		n += k
		if c.limited {
			c.writable.set(c.writable.get() - int64(k))
		}
		if n == len(scratch) {
			// p is still the writer's to read until Write returns
			for i := range p {
				if p[i] != scratch[i] {
					return n, errors.New("race: the bytes changed while they were being written")
				}
			}
			return n, nil
		}
		if k == 0 {
			pause(i)
		}
	}
}

// Close implements net.Conn.
func (c *conn) Close() error {
	c.closed.set(1)
	return nil
}

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// LocalAddr implements net.Conn.
func (c *conn) LocalAddr() net.Addr { return addr{} }

// RemoteAddr implements net.Conn.
func (c *conn) RemoteAddr() net.Addr { return addr{} }

func nanos(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}

// SetDeadline implements net.Conn.
func (c *conn) SetDeadline(t time.Time) error {
	c.rdl.set(nanos(t))
	c.wdl.set(nanos(t))
	return nil
}

// SetReadDeadline implements net.Conn.
func (c *conn) SetReadDeadline(t time.Time) error {
	c.rdl.set(nanos(t))
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.wdl.set(nanos(t))
	return nil
}
