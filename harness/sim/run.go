package sim

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verif/fakenet"
	"verif/mc"
	"verif/vsync"
)

// Cmd is one issued command and what came of it.
type Cmd struct {
	W, P, I int  // worker, pipe, index among the pipe's commands
	K       int  // index in a repeated op
	Issued  bool // accepted
	Op      *Op
	Key     string
	Session int // flush round in the pipe
	Pos     int // position in the session

	IssuedAt   uint64 // stamps
	FlushStart uint64 // 0: never flushed
	FlushEnd   uint64
	FlushTime  time.Time
	Pushed     time.Time // when the flushing call (Execute) returned
	DoneTime   time.Time
	DoneStamp  uint64
	Called     bool
	Returned   bool
	PreClose   bool // pushed before Close was called
	PostClose  bool // flushed after Close had returned

	Get  memcache.MGetResponse
	Copy []byte // copy of Get.Data taken when it was returned
	Held bool   // value not released yet
	Kept []byte // what the held value must contain
	Set  memcache.MSetResponse
	Del  memcache.MDelResponse
	Ver  memcache.VersionResponse
	Err  error

	Again    []error  // errors of further calls
	AgainBad []string // non-zero responses of further calls
	Panic    string

	data   []byte // the slice passed to MSet
	want   []byte // its content at the call
	around []byte // the larger slice that it is a part of
	call   func()
	fast   memcache.MGetResult
}

// Trace is everything observed in a run.
type Trace struct {
	Sc       *Scenario
	Cmds     []*Cmd
	Recs     []*Rec
	Conns    []*fakenet.Conn
	Pending  []int // unparsed bytes per connection
	Dials    []*DialRec
	Logged   []error
	Wire     []string // protocol violations seen by the server
	Auths    []string
	NewErr   error
	Began    time.Time
	DialsNew int // dials made when New returned
	CloseAt  time.Time
	CloseEnd time.Time
	CloseErr []error
	LateDial int
	Open     []int // connections not closed by the client in the end
	Leak     string
	Remains  string // goroutines of the library after Close
	Hang     string
	Mutated  []string // ownership violations
	Slept    uint64
	Visited  uint64
	Elapsed  time.Duration // virtual
	Panics   []string

	Calls []Call

	Others []*Trace // of the other clients

	CloseCalls []CloseCall

	byKey map[string][]*Rec
	byVer map[string]*Rec
}

// Call is an API call of a worker that let virtual time pass.
type Call struct {
	What      string
	Cmd       *Cmd // if it belongs to one
	At        time.Time
	Dur       time.Duration
	PreClose  bool // ended before Close was called
	PostClose bool // began after Close had returned
}

// OnHang is called inside the bubble when a run hangs; it must not return.
var OnHang func(tr *Trace)

// HangAfter is the virtual time after which a run counts as hanging.
const HangAfter = 2 * time.Hour

type runner struct {
	alone       bool             // no other client in the process
	common      []netconn.Option // given to all clients of the process
	donated     []donation
	sc          *Scenario
	tr          *Trace
	srv         *Server
	client      *memcache.Client
	stamp       atomic.Uint64
	mu          sync.Mutex
	closeCalled atomic.Bool
	closeDone   atomic.Bool
}

// Options builds the client options of a scenario.
func Options(sc *Scenario, srv *Server, common []netconn.Option) []memcache.Option {
	c := sc.Cfg
	var dial netconn.DialFunc = srv.dial
	if sc.Auth != nil {
		a, err := netconn.NewPasswordAuth(sc.Auth.User, sc.Auth.Pass)
		if err != nil {
			panic(err)
		}
		dial = a.GetDialFunc(dial)
	}
	opts := ClientOptions(c, dial, srv.logDialError)
	if len(common) > 0 {
		opts = append([]memcache.Option{memcache.WithNetConnOptions(common...)}, opts...)
	}
	return opts
}

// ClientOptions builds client options.
func ClientOptions(c Config, dial netconn.DialFunc, logger func(error)) []memcache.Option {
	opts := []memcache.Option{memcache.WithDialFunc(dial), memcache.WithDialErrorLogger(logger)}
	if c.MaxBatch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(c.MaxBatch))
	}
	if c.WriteLimit > 0 {
		opts = append(opts, memcache.WithWriteLimit(c.WriteLimit))
	}
	if c.BufSize > 0 {
		opts = append(opts, memcache.WithBufferSize(c.BufSize))
	}
	if c.ReadTimeout > 0 {
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithReadTimeout(time.Duration(c.ReadTimeout))))
	}
	if c.WriteTimeout > 0 {
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithWriteTimeout(time.Duration(c.WriteTimeout))))
	}
	if c.Retry > 0 {
		opts = append(opts, memcache.WithRetryDuration(time.Duration(c.Retry)))
	}
	if c.Health > 0 {
		opts = append(opts, memcache.WithHealthCheckDuration(time.Duration(c.Health)))
	}
	return opts
}

// Run runs a scenario in a bubble.
func Run(t *testing.T, sc *Scenario) (tr *Trace) {
	tr = &Trace{Sc: sc}
	defer func() {
		vsync.Disable()
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.Contains(msg, "deadlock") {
				tr.Leak = msg
				return
			}
			panic(r)
		}
	}()
	rs := []*runner{{sc: sc, tr: tr, alone: len(sc.Others) == 0}}
	if len(sc.Others) > 0 {
		// what the clients have in common is given to all of them as one list
		rs[0].common = append(make([]netconn.Option, 0, 8), netconn.WithTCPKeepAliveDuration(time.Hour))
	}
	for _, o := range sc.Others {
		o.Sched = sc.Sched
		r := &runner{sc: &o, tr: &Trace{Sc: &o}, common: rs[0].common}
		rs = append(rs, r)
		tr.Others = append(tr.Others, r.tr)
	}
	synctest.Test(t, func(*testing.T) {
		vsync.Start()
		vsync.Configure(sc.Sched)
		var wg sync.WaitGroup
		for _, r := range rs[1:] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.live()
			}()
		}
		rs[0].live()
		wg.Wait()
		vsync.Disable()
		time.Sleep(time.Duration(sc.Sched.Max)) // scheduling points that sleep
		synctest.Wait()
		for _, r := range rs {
			r.over()
		}
		if left := ownGoroutines(); len(left) > 0 {
			tr.Remains = fmt.Sprintf("%d goroutines, one of them is %s", len(left), left[0])
		}
		time.Sleep(20 * time.Minute)
		for _, r := range rs {
			r.clear()
		}
	})
	return tr
}

// ownGoroutines returns the stacks of goroutines that the library started.
func ownGoroutines() (out []string) {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 4*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "\ncreated by github.com/QuangTung97/go-memcache/") {
			out = append(out, g)
		}
	}
	return out
}

// waiting tells whether a goroutine waits for something other than the
// scheduling points of the harness.
func waiting(g string) bool {
	head, _, _ := strings.Cut(g, "\n")
	return (strings.Contains(head, "(durable)") || strings.Contains(head, "[sleep")) && !strings.Contains(g, "verif/vsync.")
}

func (r *runner) snapshot() {
	tr, s := r.tr, r.srv
	s.mu.Lock()
	defer s.mu.Unlock()
	tr.Recs = append([]*Rec(nil), s.recs...)
	tr.Conns = append([]*fakenet.Conn(nil), s.conns...)
	tr.Pending = nil
	for _, p := range s.parse {
		tr.Pending = append(tr.Pending, p.Pending())
	}
	tr.Dials = append([]*DialRec(nil), s.dials...)
	tr.Logged = append([]error(nil), s.logged...)
	tr.Wire = append([]string(nil), s.errs...)
	tr.Auths = append([]string(nil), s.auths...)
	for _, c := range tr.Cmds { // the flush happens at once, whatever it then waits for
		if c.FlushStart != 0 && !tr.CloseAt.IsZero() && c.FlushTime.Add(tr.Slack()).Before(tr.CloseAt) {
			c.PreClose = true
		}
	}
	tr.Slept, tr.Visited = vsync.Slept(), vsync.Visited()
	tr.Elapsed = time.Since(tr.Began)
}

func (r *runner) hang(what string) {
	buf := make([]byte, 1<<20)
	r.tr.Hang = what + "\n" + string(buf[:runtime.Stack(buf, true)])
	r.snapshot()
	if OnHang != nil {
		OnHang(r.tr)
	}
	panic("hang: " + what)
}

// wait runs f and reports whether it ended within d of virtual time.
func wait(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
		return false
	}
}

// live is the life of a client, from New to the last Close.
func (r *runner) live() {
	sc, tr := r.sc, r.tr
	if sc.Begin > 0 {
		time.Sleep(time.Duration(sc.Begin))
	}
	tr.Began = time.Now()
	r.srv = newServer(sc, &r.stamp)
	n := sc.Cfg.Conns
	if n == 0 {
		n = 1
	} else if n < 0 { // -1 asks for 0, -2 for -1, ...
		n++
	}
	if !wait(HangAfter, func() { r.client, tr.NewErr = memcache.New("fake:11211", n, Options(sc, r.srv, r.common)...) }) {
		r.hang("New does not return")
	}
	r.srv.mu.Lock()
	tr.DialsNew = len(r.srv.dials)
	r.srv.mu.Unlock()
	if tr.NewErr != nil {
		return
	}
	var wg sync.WaitGroup
	for _, ev := range sc.Events {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(ev.At))
			if ev.Kind == "close" {
				r.close()
				return
			}
			r.srv.event(ev.Kind)
		}()
	}
	for w := range sc.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker(w)
		}()
	}
	if !wait(HangAfter+sc.span(), wg.Wait) {
		r.hang("commands or Close do not complete")
	}
	if sc.Tail > 0 {
		time.Sleep(time.Duration(sc.Tail))
	}
	r.checkOwnership("at the end")
	if !r.closeCalled.Load() {
		if !wait(HangAfter, r.close) {
			r.hang("Close does not return")
		}
	}
	for range sc.Closes {
		if !wait(HangAfter, r.close) {
			r.hang("repeated Close does not return")
		}
	}
}

// over looks at what the client left, when nothing moves any more.
func (r *runner) over() {
	r.srv.ended.Store(true)
	r.srv.mu.Lock()
	defer r.srv.mu.Unlock()
	for _, c := range r.srv.conns {
		if !c.Closed() {
			r.tr.Open = append(r.tr.Open, c.ID)
		}
	}
	r.tr.LateDial = -len(r.srv.dials)
}

// clear takes the record and removes the server.
func (r *runner) clear() {
	tr := r.tr
	r.srv.mu.Lock()
	tr.LateDial += len(r.srv.dials)
	r.srv.mu.Unlock()
	r.snapshot()
	for _, c := range tr.Conns {
		c.ServerReset()
	}
	r.srv.event("release")
	r.srv.wg.Wait()
}

func (r *runner) close() {
	r.mu.Lock()
	if r.tr.CloseAt.IsZero() {
		r.tr.CloseAt = time.Now()
	}
	r.mu.Unlock()
	r.closeCalled.Store(true)
	at := time.Now()
	err := r.client.Close()
	if r.alone {
		for _, g := range ownGoroutines() {
			if waiting(g) {
				r.mu.Lock()
				r.tr.Remains = "when Close returns there is " + g
				r.mu.Unlock()
			}
		}
	}
	r.mu.Lock()
	r.tr.CloseErr = append(r.tr.CloseErr, err)
	r.tr.CloseEnd = time.Now()
	r.tr.CloseCalls = append(r.tr.CloseCalls, CloseCall{at, r.tr.CloseEnd})
	r.mu.Unlock()
	r.closeDone.Store(true)
}

// CloseCall is a call of Close.
type CloseCall struct{ At, End time.Time }

// donation is a part of a slice that was given to the client.
type donation struct {
	all      []byte
	from, to int
}

func (r *runner) checkOwnership(when string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range r.donated {
		d := &r.donated[i]
		for j, b := range d.all {
			if b != 0xE7 && (j < d.from || j >= d.to) {
				r.tr.Mutated = append(r.tr.Mutated, fmt.Sprintf("memory outside of a released slice of capacity %d was changed, at %d (%s)", d.to-d.from, j-d.from, when))
				d.all = nil
				break
			}
		}
	}
	for _, c := range r.tr.Cmds {
		if c.Held && !bytes.Equal(c.Get.Data, c.Kept) {
			r.tr.Mutated = append(r.tr.Mutated, fmt.Sprintf("value of %s changed while held (%s)", c.Key, when))
			c.Held = false
		}
		if c.trespassed() {
			r.tr.Mutated = append(r.tr.Mutated, fmt.Sprintf("the memory around the value given to %s was changed (%s)", c.Key, when))
			c.around = nil
		}
	}
}

func (r *runner) worker(w int) {
	wk := r.sc.Workers[w]
	if wk.Start > 0 {
		time.Sleep(time.Duration(wk.Start))
	}
	for p := range wk.Pipes {
		r.pipe(w, p)
	}
}

func (r *runner) guard(c *Cmd, f func()) { r.timed("call", c, f) }

func (r *runner) timed(what string, c *Cmd, f func()) {
	at, post := time.Now(), r.closeDone.Load()
	defer func() {
		if d := time.Since(at); d > 0 {
			if c != nil {
				what += " of " + c.String()
			}
			r.mu.Lock()
			r.tr.Calls = append(r.tr.Calls, Call{what, c, at, d, !r.closeCalled.Load(), post})
			r.mu.Unlock()
		}
	}()
	r.protect(c, f)
}

func (r *runner) protect(c *Cmd, f func()) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<14)
			msg := fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
			r.mu.Lock()
			r.tr.Panics = append(r.tr.Panics, msg)
			if c != nil {
				c.Panic = msg
			}
			r.mu.Unlock()
		}
	}()
	f()
}

func (r *runner) pipe(w, pi int) {
	ps := r.sc.Workers[w].Pipes[pi]
	var pipe *memcache.Pipeline
	r.timed("Pipeline()", nil, func() { pipe = r.client.Pipeline() })
	if pipe == nil {
		return
	}
	var cmds []*Cmd
	session, pos := 0, 0
	published := false // the current session was executed
	flushing := func() uint64 {
		st := r.stamp.Add(1)
		return st
	}
	markFlush := func(st uint64, pre, post bool) {
		now := time.Now()
		for _, c := range cmds {
			if c.Session == session && c.FlushStart == 0 && c.Issued {
				c.FlushStart = st
				c.FlushTime = now
				c.PostClose = post
				_ = pre
			}
		}
	}
	endFlush := func() {
		now := time.Now()
		st := r.stamp.Add(1)
		pre := !r.closeCalled.Load()
		for _, c := range cmds {
			if c.FlushStart != 0 && c.FlushEnd == 0 {
				c.FlushEnd = st
				c.Pushed = now
				c.PreClose = pre
			}
		}
	}
	newSession := func() {
		session++
		pos = 0
		published = false
	}
	add := func(op *Op, key string, k int) {
		c := &Cmd{W: w, P: pi, I: len(cmds), Op: op, Key: key, K: k}
		if published && c.Valid() {
			// adding a command first completes what was executed
			newSession()
		}
		c.Session, c.Pos = session, pos
		c.IssuedAt = r.stamp.Add(1)
		what := "adding"
		if session > 0 || published {
			what = "adding later" // may have to wait for what was flushed before
		}
		r.timed(what, c, func() { r.issue(pipe, c) })
		if c.call != nil && c.Valid() {
			c.Issued = true
			pos++
		}
		cmds = append(cmds, c)
		r.mu.Lock()
		r.tr.Cmds = append(r.tr.Cmds, c)
		r.mu.Unlock()
	}
	flushNow := func(f func(), final bool) {
		post := r.closeDone.Load()
		st := flushing()
		markFlush(st, false, post)
		f()
		endFlush()
		if final {
			newSession()
		}
	}
	call := func(c *Cmd) {
		if c.call == nil {
			return
		}
		if !c.Called && c.Session == session && c.Issued {
			flushNow(func() { r.invoke(c) }, true)
			return
		}
		r.invoke(c)
	}
	for i := range ps.Ops {
		op := &ps.Ops[i]
		switch op.K {
		case "exec":
			had := pos > 0
			flushNow(func() { r.timed("Execute", nil, pipe.Execute) }, false)
			if had {
				published = true
			}
		case "finish":
			flushNow(func() { r.timed("Finish", nil, pipe.Finish) }, true)
		case "sleep":
			time.Sleep(time.Duration(op.Arg))
		case "call":
			if len(cmds) > 0 {
				call(cmds[int(op.Arg)%len(cmds)])
			}
		case "release":
			if len(cmds) > 0 {
				c := cmds[int(op.Arg)%len(cmds)]
				if c.Held {
					r.mu.Lock()
					if !bytes.Equal(c.Get.Data, c.Kept) {
						r.tr.Mutated = append(r.tr.Mutated, fmt.Sprintf("value of %s changed while held", c.Key))
					}
					c.Held = false
					r.mu.Unlock()
					memcache.ReleaseGetResponseData(c.Get.Data)
					c.Get.Data = nil
				}
				if op.I && c.Op.K == "getfast" && c.Called && c.Valid() && c.call != nil {
					memcache.ReleaseMGetResult(c.fast)
					c.call = nil
				}
			}
		case "donate": // a slice of the caller's, which the client may use from now on
			n, size := int(op.Arg), int(op.N)
			all := bytes.Repeat([]byte{0xE7}, guard+size+size+64)
			memcache.ReleaseGetResponseData(all[guard : guard+n : guard+size])
			r.mu.Lock()
			r.donated = append(r.donated, donation{all, guard, guard + size})
			r.mu.Unlock()
		case "scribble": // the owner may write to the value
			if len(cmds) > 0 {
				c := cmds[int(op.Arg)%len(cmds)]
				if c.Held {
					r.mu.Lock()
					for i := range c.Get.Data {
						c.Get.Data[i] ^= 0x5A
					}
					c.Kept = append([]byte(nil), c.Get.Data...)
					r.mu.Unlock()
				}
			}
		case "mutate":
			if len(cmds) > 0 {
				c := cmds[int(op.Arg)%len(cmds)]
				for i := range c.data {
					c.data[i] ^= 0xA5
				}
			}
		default:
			if op.Rep > 0 {
				for k := 0; k < op.Rep; k++ {
					add(op, RepKey(op.Key, k), k)
				}
			} else {
				add(op, op.Key, 0)
			}
		}
	}
	if !ps.NoFinish {
		flushNow(func() { r.timed("Finish", nil, pipe.Finish) }, true)
		for _, c := range cmds {
			if !c.Called {
				call(c)
			}
		}
	}
}

func (r *runner) issue(pipe *memcache.Pipeline, c *Cmd) {
	op := c.Op
	switch op.K {
	case "get":
		fn := pipe.MGet(c.Key, memcache.MGetOptions{N: op.N, CAS: op.Cas})
		c.call = func() {
			resp, err := fn()
			r.got(c, err, resp.Type == 0 && resp.Data == nil && resp.Flags == 0 && resp.CAS == 0, func() { c.setGet(resp) })
		}
	case "getfast":
		res, err := pipe.MGetFast(c.Key, memcache.MGetOptions{N: op.N, CAS: op.Cas})
		c.fast = res
		if err != nil {
			c.call = func() { r.got(c, err, true, func() {}) }
			return
		}
		c.call = func() {
			resp, err := res.Result()
			r.got(c, err, resp.Type == 0 && resp.Data == nil && resp.Flags == 0 && resp.CAS == 0, func() { c.setGet(resp) })
		}
	case "set":
		c.want = op.ValueFor(c.K).Bytes()
		// a part of a larger slice of the caller's
		n := len(c.want)
		c.around = bytes.Repeat([]byte{0xE7}, n+2*guard)
		c.data = c.around[guard : guard+n]
		copy(c.data, c.want)
		fn := pipe.MSet(c.Key, c.data, memcache.MSetOptions{CAS: op.CasV, TTL: op.TTL})
		c.call = func() {
			resp, err := fn()
			r.got(c, err, resp == memcache.MSetResponse{}, func() { c.Set = resp })
		}
	case "del":
		fn := pipe.MDel(c.Key, memcache.MDelOptions{CAS: op.CasV, I: op.I, TTL: op.TTL})
		c.call = func() {
			resp, err := fn()
			r.got(c, err, resp == memcache.MDelResponse{}, func() { c.Del = resp })
		}
	case "ver":
		fn := pipe.Version()
		c.call = func() {
			resp, err := fn()
			r.got(c, err, resp == memcache.VersionResponse{}, func() { c.Ver = resp })
		}
	case "flush":
		fn := pipe.FlushAll()
		c.call = func() {
			err := fn()
			r.got(c, err, true, func() {})
		}
	default:
		panic("unknown op " + op.K)
	}
}

func (c *Cmd) setGet(resp memcache.MGetResponse) {
	c.Get = resp
	c.Copy = append([]byte(nil), resp.Data...)
	c.Kept = c.Copy
	c.Held = true
}

// got records the outcome of a call of the result function.
func (r *runner) got(c *Cmd, err error, zero bool, set func()) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.Returned {
		c.Again = append(c.Again, err)
		if !zero {
			c.AgainBad = append(c.AgainBad, "further call returned a response")
		}
		return
	}
	c.Returned = true
	c.Err = err
	c.DoneTime = time.Now()
	c.DoneStamp = r.stamp.Add(1)
	set()
}

func (r *runner) invoke(c *Cmd) {
	c.Called = true
	r.guard(c, c.call)
}

// guard is how much of the caller's slice lies before and after a value.
const guard = 8

// trespassed reports whether the caller's slice was changed around the value.
func (c *Cmd) trespassed() bool {
	if c.around == nil {
		return false
	}
	for i := 0; i < guard; i++ {
		if c.around[i] != 0xE7 || c.around[len(c.around)-1-i] != 0xE7 {
			return true
		}
	}
	return false
}

// Want is the request the command must have produced.
func (c *Cmd) Want() mc.Request {
	op := c.Op
	q := mc.Request{Verb: op.Verb(), Key: c.Key, Data: c.want}
	switch op.K {
	case "get", "getfast":
		q.Flags = append(q.Flags, "v")
		if op.Cas {
			q.Flags = append(q.Flags, "c")
		}
		if op.N > 0 {
			q.Flags = append(q.Flags, fmt.Sprintf("N%d", op.N))
		}
	case "set":
		if op.CasV > 0 {
			q.Flags = append(q.Flags, fmt.Sprintf("C%d", op.CasV))
		}
		if op.TTL > 0 {
			q.Flags = append(q.Flags, fmt.Sprintf("T%d", op.TTL))
		}
	case "del":
		if op.CasV > 0 {
			q.Flags = append(q.Flags, fmt.Sprintf("C%d", op.CasV))
		}
		if op.I {
			q.Flags = append(q.Flags, "I")
			if op.TTL > 0 {
				q.Flags = append(q.Flags, fmt.Sprintf("T%d", op.TTL))
			}
		}
	}
	sortedFlags(q.Flags)
	return q
}

// ErrAlreadyGotten is re-exported for oracles.
var ErrAlreadyGotten = memcache.ErrAlreadyGotten

var _ = errors.Is
