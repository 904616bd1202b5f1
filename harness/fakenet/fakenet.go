// Package fakenet is an in-memory net.Conn whose timing, segmentation and
// failures are controlled by a plan. It is made for use inside a
// testing/synctest bubble: all waiting is durably blocking and all time is the
// bubble's virtual time.
package fakenet

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// Fault is what happens when a stream reaches its cut.
type Fault string

// The faults.
const (
	FaultNone  Fault = ""
	FaultEOF   Fault = "eof"   // orderly end of stream (read side only)
	FaultReset Fault = "reset" // connection reset by peer
	FaultStall Fault = "stall" // nothing more ever moves
	FaultPause Fault = "pause" // nothing moves for a while, then all is well
)

// Plan controls one connection.
type Plan struct {
	ReadChunks []int `json:",omitempty"` // sizes of successive reads, cyclic; empty: whatever is there
	ReadCut    int   `json:",omitempty"` // with ReadFault: bytes delivered to the client before the fault
	ReadFault  Fault `json:",omitempty"`
	EOFData    bool  `json:",omitempty"` // deliver the last bytes together with the error

	WriteCut   int   `json:",omitempty"` // with WriteFault: bytes accepted from the client before the fault
	WriteFault Fault `json:",omitempty"`
	WriteLine  bool  `json:",omitempty"` // the cut is moved to the next end of a line
	Window     int   `json:",omitempty"` // bytes in flight to the server, 0: unlimited
	WriteDelay int64 `json:",omitempty"` // ns each Write takes

	ReadPause  int64   `json:",omitempty"` // ns a pause of the read side lasts
	WritePause int64   `json:",omitempty"` // ns a pause of the write side lasts
	WriteGaps  []int64 `json:",omitempty"` // ns successive Writes wait before anything is accepted, cyclic

	Error    string `json:",omitempty"` // key of Errors: what failing reads and writes return instead of the usual error
	ReadDLs  int    `json:",omitempty"` // only that many SetReadDeadline calls succeed, 0: all
	WriteDLs int    `json:",omitempty"` // only that many SetWriteDeadline calls succeed, 0: all
	CloseErr bool   `json:",omitempty"` // Close returns an error, too
	Named    bool   `json:",omitempty"` // errors are wrapped in a ConnError
}

// ConnError says which connection an error is from.
type ConnError struct {
	Conn int
	Op   string
	Own  bool // the client has closed the connection
	Err  error
}

func (e *ConnError) Error() string { return fmt.Sprintf("connection %d: %s: %v", e.Conn, e.Op, e.Err) }

// Unwrap returns the error.
func (e *ConnError) Unwrap() error { return e.Err }

// named wraps the error if the plan says so; the lock is held.
func (c *Conn) named(op string, err error) error {
	if err == nil || !c.Plan.Named {
		return err
	}
	return &ConnError{c.ID, op, c.closed, err}
}

// Errors are errors that a connection may return.
var Errors = map[string]error{
	"eof":      io.EOF,
	"closed":   net.ErrClosed,
	"deadline": oddError{"deadline"},
	"odd":      oddError{"a", "b"},
}

// oddError can not be compared, and claims to be temporary.
type oddError []string

func (e oddError) Error() string   { return "odd error" }
func (e oddError) Temporary() bool { return true }
func (e oddError) Timeout() bool   { return len(e) == 1 }

func (c *Conn) errOr(err error) error {
	if e := Errors[c.Plan.Error]; e != nil {
		return e
	}
	return err
}

// Write is one Write call of the client.
type Write struct {
	At  time.Time
	N   int
	Err error
}

// Conn is the client's end.
type Conn struct {
	ID   int
	Plan Plan

	mu   sync.Mutex
	cond *sync.Cond

	in      []byte // to the client
	inEOF   bool
	reset   bool
	readIdx int
	nRead   int
	nReadOK int // delivered without an error

	out      []byte // to the server
	nWritten int

	closed     bool
	closeCount int
	ClosedAt   time.Time
	OpenedAt   time.Time

	rdl, wdl   time.Time
	rtim, wtim *time.Timer

	rpause, wpause bool // the pause has begun
	gapIdx         int
	rdls, wdls     int // calls of SetReadDeadline and SetWriteDeadline

	Writes []Write
	// Reads counts Read calls that returned data.
	Reads int
	// FailedAt is when the client first saw an error on the connection.
	FailedAt time.Time
	failed   bool
	FailErr  error
	// Delivered is a log of read progress: virtual time and total bytes.
	Delivered []Progress
}

// Progress is a point in the history of bytes delivered to the client.
type Progress struct {
	At time.Time
	N  int
}

var _ net.Conn = (*Conn)(nil)

// New makes a connection.
func New(id int, plan Plan) *Conn {
	c := &Conn{ID: id, Plan: plan, OpenedAt: time.Now()}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) fail(err error) {
	if !c.failed {
		c.failed = true
		c.FailedAt = time.Now()
		c.FailErr = err
	}
}

// Failed reports whether the client has seen an error on the connection.
func (c *Conn) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.failed
}

// Closed reports whether the client has closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// CloseCount reports how often the client closed the connection.
func (c *Conn) CloseCount() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closeCount
}

// NRead is the number of bytes delivered to the client.
func (c *Conn) NRead() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nRead
}

// NReadOK is the number of bytes delivered to the client by reads that returned
// no error.
func (c *Conn) NReadOK() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nReadOK
}

// NWritten is the number of bytes accepted from the client.
func (c *Conn) NWritten() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nWritten
}

func expired(t time.Time) bool {
	return !t.IsZero() && !time.Now().Before(t)
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n, err := c.read(p)
	if n > 0 {
		if err == nil {
			c.nReadOK += n
		}
		c.Reads++
		c.nRead += n
		c.Delivered = append(c.Delivered, Progress{time.Now(), c.nRead})
		c.cond.Broadcast()
	}
	if err != nil {
		c.fail(err)
	}
	return n, c.named("read", err)
}

func (c *Conn) read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if expired(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		avail := len(c.in)
		atCut := false
		if c.Plan.ReadFault != FaultNone && c.nRead+avail >= c.Plan.ReadCut {
			avail = max(0, c.Plan.ReadCut-c.nRead)
			atCut = true
		}
		if avail > 0 {
			n := min(avail, len(p))
			if k := len(c.Plan.ReadChunks); k > 0 {
				n = max(1, min(n, c.Plan.ReadChunks[c.readIdx%k]))
				c.readIdx++
			}
			copy(p, c.in[:n])
			c.in = c.in[n:]
			if c.Plan.EOFData && n == avail {
				if atCut && c.Plan.ReadFault == FaultEOF || !atCut && c.inEOF {
					return n, c.errOr(io.EOF)
				}
			}
			return n, nil
		}
		if atCut {
			switch c.Plan.ReadFault {
			case FaultEOF:
				return 0, c.errOr(io.EOF)
			case FaultReset:
				return 0, c.errOr(syscall.ECONNRESET)
			}
			if c.Plan.ReadFault == FaultPause && !c.rpause {
				c.rpause = true
				c.after(c.Plan.ReadPause, func() { c.Plan.ReadFault = FaultNone })
			}
			// FaultStall: wait for the deadline or Close
		} else {
			if c.reset {
				return 0, c.errOr(syscall.ECONNRESET)
			}
			if c.inEOF {
				return 0, c.errOr(io.EOF)
			}
		}
		c.cond.Wait()
	}
}

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	if c.Plan.WriteDelay > 0 {
		time.Sleep(time.Duration(c.Plan.WriteDelay))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	n, err := c.write(p)
	c.Writes = append(c.Writes, Write{time.Now(), n, err})
	if err != nil {
		c.fail(err)
	}
	return n, c.named("write", err)
}

// after runs f with the lock held when the time has passed.
func (c *Conn) after(ns int64, f func()) {
	time.AfterFunc(time.Duration(ns), func() {
		c.mu.Lock()
		f()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
}

func (c *Conn) write(p []byte) (int, error) {
	n := 0
	gap := false
	if k := len(c.Plan.WriteGaps); k > 0 {
		if d := c.Plan.WriteGaps[c.gapIdx%k]; d > 0 {
			gap = true
			c.after(d, func() { gap = false })
		}
		c.gapIdx++
	}
	if c.Plan.WriteLine && c.Plan.WriteFault != FaultNone && c.nWritten+len(p) >= c.Plan.WriteCut {
		from := max(0, c.Plan.WriteCut-c.nWritten)
		if i := bytes.IndexByte(p[from:], '\n'); i >= 0 {
			c.Plan.WriteCut = c.nWritten + from + i + 1
			c.Plan.WriteLine = false
		} else {
			c.Plan.WriteCut = c.nWritten + len(p) + 1
		}
	}
	for {
		if c.closed {
			return n, net.ErrClosed
		}
		if expired(c.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		if c.reset {
			return n, c.errOr(syscall.EPIPE)
		}
		if gap {
			c.cond.Wait()
			continue
		}
		room := len(p) - n
		atCut := false
		if c.Plan.WriteFault != FaultNone && c.nWritten+room >= c.Plan.WriteCut {
			if r := max(0, c.Plan.WriteCut-c.nWritten); r < room {
				room = r
				atCut = true
			}
		}
		if w := c.Plan.Window; w > 0 {
			if r := max(0, w-len(c.out)); r < room {
				room = r
				atCut = false
			}
		}
		if room > 0 {
			c.out = append(c.out, p[n:n+room]...)
			c.nWritten += room
			n += room
			c.cond.Broadcast()
		}
		if n == len(p) {
			return n, nil
		}
		if atCut && c.Plan.WriteFault == FaultReset {
			return n, c.errOr(syscall.ECONNRESET)
		}
		if room > 0 {
			continue
		}
		if atCut && c.Plan.WriteFault == FaultPause && !c.wpause {
			c.wpause = true
			c.after(c.Plan.WritePause, func() { c.Plan.WriteFault = FaultNone })
		}
		c.cond.Wait()
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closeCount++
	if c.closed {
		return errors.New("fakenet: close of closed connection")
	}
	c.closed = true
	c.ClosedAt = time.Now()
	if c.rtim != nil {
		c.rtim.Stop()
	}
	if c.wtim != nil {
		c.wtim.Stop()
	}
	c.cond.Broadcast()
	if c.Plan.CloseErr {
		return c.errOr(syscall.EIO)
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr{} }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

func (c *Conn) arm(tim **time.Timer, t time.Time) {
	if *tim != nil {
		(*tim).Stop()
		*tim = nil
	}
	if !t.IsZero() {
		*tim = time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.named("set deadline", net.ErrClosed)
	}
	if c.rdls++; c.Plan.ReadDLs > 0 && c.rdls > c.Plan.ReadDLs && !t.IsZero() {
		err := c.errOr(syscall.EINVAL)
		c.fail(err)
		return c.named("set deadline", err)
	}
	c.rdl = t
	c.arm(&c.rtim, t)
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.named("set deadline", net.ErrClosed)
	}
	if c.wdls++; c.Plan.WriteDLs > 0 && c.wdls > c.Plan.WriteDLs && !t.IsZero() {
		err := c.errOr(syscall.EINVAL)
		c.fail(err)
		return c.named("set deadline", err)
	}
	c.wdl = t
	c.arm(&c.wtim, t)
	return nil
}

// ------------------------------------------------------------------
// the server's end
// ------------------------------------------------------------------

// ServerRead returns bytes the client wrote; ok is false when the client is
// gone and everything was read, or the connection was reset.
func (c *Conn) ServerRead(maxN int) (data []byte, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.reset {
			return nil, false
		}
		if len(c.out) > 0 {
			n := len(c.out)
			if maxN > 0 {
				n = min(n, maxN)
			}
			data = c.out[:n:n]
			c.out = c.out[n:]
			c.cond.Broadcast()
			return data, true
		}
		if c.closed {
			return nil, false
		}
		c.cond.Wait()
	}
}

// ServerWrite sends bytes to the client.
func (c *Conn) ServerWrite(data []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed || c.reset || c.inEOF {
		return
	}
	c.in = append(c.in, data...)
	c.cond.Broadcast()
}

// ServerEOF ends the stream to the client in an orderly way.
func (c *Conn) ServerEOF() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inEOF = true
	c.cond.Broadcast()
}

// ServerStall lets nothing more through to the client.
func (c *Conn) ServerStall() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Plan.ReadFault = FaultStall
	c.Plan.ReadCut = c.nRead
}

// ServerReset resets the connection.
func (c *Conn) ServerReset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reset = true
	c.in = nil
	c.cond.Broadcast()
}

// WaitClosed blocks until the client closed the connection or it was reset.
func (c *Conn) WaitClosed() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for !c.closed && !c.reset {
		c.cond.Wait()
	}
}

// Leftover is what the client wrote and the server has not read.
func (c *Conn) Leftover() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.out)
}

// Forget drops the record of reads and writes.
func (c *Conn) Forget() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Writes, c.Delivered = nil, nil
	c.in = append([]byte(nil), c.in...)
	c.out = append([]byte(nil), c.out...)
}
