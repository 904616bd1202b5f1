package sim

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"

	"verif/fakenet"
	"verif/mc"
)

// Rec is one request received by the server.
type Rec struct {
	Seq   int // global order of arrival
	Conn  int
	Idx   int // on the connection
	At    time.Time
	Stamp uint64
	Req   mc.Request
	Reply mc.Reply
	// Start and End are the offsets of the reply in the stream to the client,
	// -1 while it was not sent.
	Start, End int
	// Seen is how many bytes the client had been given on the connection when
	// the request arrived.
	Seen int
}

// DialRec is one dial.
type DialRec struct {
	At      time.Time
	EndAt   time.Time
	Timeout time.Duration
	Err     error
	Conn    int
	Late    bool // after Close had returned
}

type opRef struct {
	op *Op
	k  int
}

func init() {
	fakenet.Errors["connclosed"] = memcache.ErrConnClosed
	fakenet.Errors["wrapclosed"] = fmt.Errorf("behind the proxy: %w", memcache.ErrConnClosed)
	fakenet.Errors["broken"] = memcache.ErrBrokenPipe{}
}

type errDial struct{ n int }

func (e errDial) Error() string { return "fake dial error" }

// DialError says which dial an error is from.
type DialError struct {
	N   int
	Err error
}

func (e *DialError) Error() string { return fmt.Sprintf("dial %d: %v", e.N, e.Err) }

// Unwrap returns the error.
func (e *DialError) Unwrap() error { return e.Err }

// Server is the fake memcached.
type Server struct {
	sc      *Scenario
	ops     map[string]opRef
	mu      sync.Mutex
	cond    *sync.Cond
	conns   []*fakenet.Conn
	parse   []*mc.Parser
	sent    []int // bytes of replies sent per connection
	recs    []*Rec
	dials   []*DialRec
	down    bool
	errs    []string
	logged  []error
	stamp   *atomic.Uint64
	ended   atomic.Bool
	wg      sync.WaitGroup
	release bool // holds are lifted
	auths   []string
	began   time.Time
	unkeyed int // version and flush_all requests so far
}

func newServer(sc *Scenario, stamp *atomic.Uint64) *Server {
	s := &Server{sc: sc, ops: map[string]opRef{}, stamp: stamp, began: time.Now()}
	s.cond = sync.NewCond(&s.mu)
	for _, w := range sc.Workers {
		for _, p := range w.Pipes {
			for i := range p.Ops {
				op := &p.Ops[i]
				if op.Key != "" {
					if op.Rep > 0 {
						for k := 0; k < op.Rep; k++ {
							s.ops[RepKey(op.Key, k)] = opRef{op, k}
						}
					} else {
						s.ops[op.Key] = opRef{op, 0}
					}
				}
			}
		}
	}
	return s
}

// RepKey is the key of a repeated op.
func RepKey(key string, k int) string { return fmt.Sprintf("%s.%d", key, k) }

func (s *Server) dial(_, _ string, timeout time.Duration) (net.Conn, error) {
	s.mu.Lock()
	n := len(s.dials)
	d := &DialRec{At: time.Now(), Timeout: timeout, Conn: -1, Late: s.ended.Load()}
	s.dials = append(s.dials, d)
	var plan DialPlan
	if n < len(s.sc.Dials) {
		plan = s.sc.Dials[n]
	}
	tooMany := n > 20000
	s.mu.Unlock()
	if tooMany {
		time.Sleep(time.Hour) // slow down a runaway loop
	}
	if plan.Delay > 0 {
		time.Sleep(time.Duration(plan.Delay))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	d.EndAt = time.Now()
	if plan.Fail || s.down {
		d.Err = errDial{n}
		kind := plan.Error
		if s.down && kind == "" {
			kind = s.sc.Default.Net.Error
		}
		if e := fakenet.Errors[kind]; e != nil {
			d.Err = e
		}
		if s.sc.Named {
			d.Err = &DialError{n, d.Err}
		}
		return nil, d.Err
	}
	id := len(s.conns)
	d.Conn = id
	cp := s.planOf(id)
	cp.Net.Named = s.sc.Named
	c := fakenet.New(id, cp.Net)
	s.conns = append(s.conns, c)
	s.parse = append(s.parse, &mc.Parser{})
	s.sent = append(s.sent, 0)
	s.wg.Add(1)
	go s.serve(c, cp)
	return c, nil
}

func (s *Server) planOf(id int) ConnPlan {
	if id < len(s.sc.Plans) {
		return s.sc.Plans[id]
	}
	return s.sc.Default
}

func (s *Server) logDialError(err error) {
	s.mu.Lock()
	s.logged = append(s.logged, err)
	s.mu.Unlock()
}

func (s *Server) fault(format string, a ...any) {
	s.errs = append(s.errs, fmt.Sprintf(format, a...))
}

func (s *Server) defaultReply(verb string, seq int) mc.Reply {
	switch verb {
	case "mg":
		return mc.Reply{Code: "EN"}
	case "ms", "md":
		return mc.Reply{Code: "HD"}
	case "version":
		return mc.Reply{Code: "VERSION", Msg: fmt.Sprintf("1.%d", seq)}
	}
	if seq%2 == 0 {
		return mc.Reply{Code: "OK"}
	}
	return mc.Reply{Code: "SERVER_ERROR", Msg: fmt.Sprintf("fa%d", seq)}
}

func (s *Server) handshake(c *fakenet.Conn) (ok bool, rest []byte) {
	a := s.sc.Auth
	want := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", len(a.User)+len(a.Pass)+1, a.User, a.Pass)
	var got []byte
	for len(got) < len(want) {
		data, alive := c.ServerRead(0)
		if !alive {
			return false, nil
		}
		got = append(got, data...)
	}
	s.mu.Lock()
	s.auths = append(s.auths, string(got))
	if string(got[:len(want)]) != want {
		s.fault("connection %d: authentication request %q, want %q", c.ID, got, want)
	}
	if len(got) > len(want) {
		s.fault("connection %d: bytes after the authentication request before the answer: %q", c.ID, got[len(want):])
	}
	s.mu.Unlock()
	ans := []byte("STORED\r\n")
	if c.ID < len(a.Answers) {
		ans = a.Answers[c.ID]
	}
	c.ServerWrite(ans)
	s.mu.Lock()
	s.sent[c.ID] += len(ans)
	s.mu.Unlock()
	if !strings.HasPrefix(string(ans), "STORED\r\n") {
		if c.ID < len(a.Stall) && !a.Stall[c.ID] {
			c.ServerEOF()
		}
		data, _ := c.ServerRead(0)
		if len(data) > 0 {
			s.mu.Lock()
			s.fault("connection %d: %q sent although authentication was answered with %q", c.ID, data, ans)
			s.mu.Unlock()
		}
		return false, nil
	}
	return true, nil
}

func (s *Server) serve(c *fakenet.Conn, cp ConnPlan) {
	defer s.wg.Done()
	if s.sc.Auth != nil {
		ok, _ := s.handshake(c)
		if !ok {
			c.WaitClosed()
			return
		}
	}
	var queue []*Rec
	done := false
	if len(cp.Eager) > 0 {
		c.ServerWrite(cp.Eager)
		s.sent[c.ID] += len(cp.Eager)
	}
	s.wg.Add(1)
	go func() { // reply writer
		defer s.wg.Done()
		n, replied := 0, 0
		for {
			s.mu.Lock()
			for !done && (len(queue) == 0 || replied == 0 && len(queue) < cp.Hold && !s.release) {
				s.cond.Wait()
			}
			if len(queue) == 0 || (done && replied == 0 && len(queue) < cp.Hold && !s.release) {
				s.mu.Unlock()
				return
			}
			s.mu.Unlock()
			var p Pace
			if len(cp.Pace) > 0 {
				p = cp.Pace[n%len(cp.Pace)]
				n++
			}
			if p.Delay > 0 {
				time.Sleep(time.Duration(p.Delay))
			}
			if s.sc.SlowAt > 0 && time.Since(s.began) >= time.Duration(s.sc.SlowAt) {
				time.Sleep(time.Duration(s.sc.SlowBy))
			}
			s.mu.Lock()
			k := len(queue)
			if p.Max > 0 {
				k = min(k, p.Max)
			}
			var buf []byte
			end := ""
			for _, r := range queue[:k] {
				if len(cp.Script) > 0 && r.Idx >= len(cp.Script) && cp.ScriptEnd != "" {
					end = cp.ScriptEnd
					break
				}
				b := r.Reply.Encode()
				r.Start = s.sent[c.ID]
				s.sent[c.ID] += len(b)
				r.End = s.sent[c.ID]
				buf = append(buf, b...)
				replied++
			}
			if len(cp.Script) > 0 && end == "" && replied >= len(cp.Script) && cp.ScriptEnd != "" {
				end = cp.ScriptEnd
			}
			queue = queue[k:]
			s.mu.Unlock()
			c.ServerWrite(buf)
			switch end {
			case "eof":
				c.ServerEOF()
				return
			case "reset":
				c.ServerReset()
				return
			case "stall":
				return
			}
		}
	}()
	idx := 0
	for {
		data, ok := c.ServerRead(cp.RecvMax)
		if !ok {
			break
		}
		s.mu.Lock()
		ps := s.parse[c.ID]
		for _, req := range ps.Feed(data) {
			r := &Rec{Seq: len(s.recs), Conn: c.ID, Idx: idx, At: time.Now(), Stamp: s.stamp.Add(1), Req: req, Start: -1, End: -1, Seen: c.NRead()}
			switch op := s.ops[req.Key]; {
			case idx < len(cp.Script):
				r.Reply = cp.Script[idx]
			case op.op != nil && op.op.Reply.Code != "" && op.op.Verb() == req.Verb:
				r.Reply = op.op.ReplyFor(op.k)
			default:
				r.Reply = s.defaultReply(req.Verb, r.Seq)
				if req.Key == "" {
					if s.unkeyed < len(s.sc.Unkeyed) && s.sc.Unkeyed[s.unkeyed].Code != "" {
						r.Reply = s.sc.Unkeyed[s.unkeyed]
					}
					s.unkeyed++
				}
			}
			idx++
			s.recs = append(s.recs, r)
			queue = append(queue, r)
		}
		bad := ps.Err
		s.cond.Broadcast()
		s.mu.Unlock()
		if bad != nil {
			s.mu.Lock()
			s.fault("connection %d: %v", c.ID, bad)
			s.mu.Unlock()
			c.ServerReset()
			break
		}
		if cp.RecvDelay > 0 {
			time.Sleep(time.Duration(cp.RecvDelay))
		}
	}
	s.mu.Lock()
	done = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *Server) event(kind string) {
	s.mu.Lock()
	switch kind {
	case "down":
		s.down = true
	case "up":
		s.down = false
	case "release":
		s.release = true
		s.cond.Broadcast()
	}
	conns := append([]*fakenet.Conn(nil), s.conns...)
	s.mu.Unlock()
	for _, c := range conns {
		switch kind {
		case "killall":
			c.ServerReset()
		case "eofall":
			c.ServerEOF()
		case "stallall":
			c.ServerStall()
		}
	}
}

// ByKey indexes the received requests with keys.
func (t *Trace) ByKey() map[string][]*Rec {
	if t.byKey == nil {
		t.byKey = map[string][]*Rec{}
		for _, r := range t.Recs {
			if r.Req.Key != "" {
				t.byKey[r.Req.Key] = append(t.byKey[r.Req.Key], r)
			}
		}
	}
	return t.byKey
}

var errReset = syscall.ECONNRESET

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func sortedFlags(f []string) []string {
	sort.Strings(f)
	return f
}
