package props

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
	"verif/vsync"
)

// OptCase is a list of options and what is done with the client made from it.
type OptCase struct {
	Mode    string // "client", "stats", "tcp"
	Addr    string
	Conns   int
	Opts    []Opt
	Fails   int   `json:",omitempty"` // dials that fail in the beginning
	Cmds    int   `json:",omitempty"`
	Slow    int64 `json:",omitempty"` // how long a dial takes that fails later on, ns
	SameErr bool  `json:",omitempty"` // all failed dials have the same message
	Share   bool  `json:",omitempty"` // the first of the options is given to another client, too
}

// Opt is an option. Kinds: dial, logger (V tells several apart), rto, wto, buf,
// keep (network options, V in ns or bytes), nbuf (buffer size of the network
// option), retry, health, limit, batch, and group (WithNetConnOptions).
type Opt struct {
	K     string
	V     int64
	Group []Opt `json:",omitempty"`
}

func init() {
	register("C30", 3000, "option",
		"lists of options in any order, repeated and grouped, for clients, statistics clients and clients over real TCP sockets; who is dialled with which arguments, the deadline in force at every read and write, the keep-alive settings of the socket, the times of redials and probes, the errors given to the logger, and the number of unanswered commands are compared with the last value given for each option, or the default. Non-trivial: at least two options",
		genOptions, runOptions)
}

func genNetOpt(t *rapid.T) Opt {
	switch k := pick(t, "netopt", "rto", "wto", "rto", "wto", "nbuf", "keep", "dial"); k {
	case "rto", "wto":
		return Opt{K: k, V: int64(pick(t, "to", 20*us, 500*us, 7200*sec, 360000*sec, 1*ms, 40*ms, 700*ms, sec, 3*sec, 90*sec, int(between(t, "tous", 1000, 1<<22))*us))}
	case "nbuf":
		return Opt{K: k, V: int64(pick(t, "nb", 1, 16, 300, 4096))}
	case "keep":
		return Opt{K: k, V: genKeep(t)}
	default:
		return Opt{K: k, V: int64(between(t, "who", 1, 3))}
	}
}

// genKeep draws a keep-alive period, sometimes one that no socket accepts.
func genKeep(t *rapid.T) int64 {
	if chance(t, "kalong", 12) {
		return int64(pick(t, "kabig", 32768, 40000, 86400, 1000000)) * sec
	}
	return int64(between(t, "ka", 1, 500)) * sec
}

func genOptions(t *rapid.T) *OptCase {
	c := &OptCase{Mode: pick(t, "mode", "client", "client", "client", "client", "client", "client", "stats", "tcp")}
	c.Addr = pick(t, "addr", "localhost:11211", "10.1.2.3:11211", "[::1]:5", "mc.example.org:11212", "fake", "Cache-01.Example.ORG:11211", "user@host:1", " spaced:1 ", "[fe80::1%eth0]:11211", "h:0011211", "/run/mc.sock", "h:", "ünï:7")
	c.Conns = pick(t, "conns", 1, 1, 2, 3, 7)
	if c.Mode == "client" && chance(t, "noconns", 4) {
		c.Conns = pick(t, "badconns", 0, -1, -5)
	}
	c.Cmds = pick(t, "ncmds", 0, 0, 3, 40, 300, 1200)
	c.Fails = pick(t, "fails", 0, 0, 0, 1, 2, 4)
	c.SameErr = chance(t, "sameerr", 50)
	if c.Fails > 0 && c.Mode == "client" && chance(t, "slow", 40) {
		c.Slow = int64(pick(t, "slowdial", 1, 30*ms, sec, 9*sec))
	}
	for n := between(t, "nopts", 0, 8); n > 0; n-- {
		var o Opt
		switch k := pick(t, "opt", "net", "net", "group", "retry", "health", "limit", "limit", "batch", "batch", "buf", "logger", "keep"); k {
		case "net":
			o = genNetOpt(t)
		case "group":
			o.K = k
			for m := between(t, "ngroup", 0, 4); m > 0; m-- {
				o.Group = append(o.Group, genNetOpt(t))
			}
		case "retry":
			o = Opt{K: k, V: int64(pick(t, "retry", ms, 50*ms, sec, 7*sec, 25*sec))}
		case "health":
			o = Opt{K: k, V: int64(pick(t, "health", 500*ms, 2*sec, 40*sec, 300*sec))}
		case "limit":
			o = Opt{K: k, V: int64(pick(t, "limit", 1, 2, 10, 64, 100, 250))}
		case "batch":
			o = Opt{K: k, V: int64(pick(t, "batch", 1, 2, 5, 10, 32, 100))}
		case "buf":
			o = Opt{K: k, V: int64(genBuf(t))}
		case "keep":
			o = Opt{K: k, V: genKeep(t)}
		case "logger":
			o = Opt{K: k, V: int64(between(t, "who", 1, 3))}
		}
		c.Opts = append(c.Opts, o)
	}
	c.Share = c.Mode == "client" && chance(t, "share", 35)
	return c
}

// effective is what a list of options amounts to.
type effective struct {
	dial, logger, rto, wto, keep, retry, health, limit, batch int64
}

func (c *OptCase) effective() effective {
	e := effective{rto: sec, wto: sec, keep: 30 * sec, retry: 10 * sec, health: 15 * sec, limit: 500, batch: 100}
	var apply func(os []Opt)
	apply = func(os []Opt) {
		for _, o := range os {
			switch o.K {
			case "dial":
				e.dial = o.V
			case "logger":
				e.logger = o.V
			case "rto":
				e.rto = o.V
			case "wto":
				e.wto = o.V
			case "keep":
				e.keep = o.V
			case "retry":
				e.retry = o.V
			case "health":
				e.health = o.V
			case "limit":
				e.limit = o.V
			case "batch":
				e.batch = o.V
			case "group":
				apply(o.Group)
			}
		}
	}
	apply(c.Opts)
	return e
}

// optRun is what happened.
type optRun struct {
	mu     sync.Mutex
	c      *OptCase
	e      effective
	o      *Outcome
	dials  []optDial
	logged []error
	failed []error
	conns  []*optConn
	tcp    []*net.TCPConn
	fails  int // dials that are still to fail
	hold   bool
	wg     sync.WaitGroup
	reqs   []optReq
	down   bool
}

type optDial struct {
	at  time.Time
	err error
}

type optReq struct {
	at   time.Time
	conn int
	verb string
}

func (r *optRun) add(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.o.add("option", format, a...)
}

// optConn checks the deadlines.
type optConn struct {
	*fakenet.Conn
	r        *optRun
	id       int
	rdl, wdl time.Time
}

func (x *optConn) SetDeadline(t time.Time) error {
	x.r.mu.Lock()
	x.rdl, x.wdl = t, t
	x.r.mu.Unlock()
	return x.Conn.SetDeadline(t)
}

func (x *optConn) SetReadDeadline(t time.Time) error {
	x.r.mu.Lock()
	x.rdl = t
	x.r.mu.Unlock()
	return x.Conn.SetReadDeadline(t)
}

func (x *optConn) SetWriteDeadline(t time.Time) error {
	x.r.mu.Lock()
	x.wdl = t
	x.r.mu.Unlock()
	return x.Conn.SetWriteDeadline(t)
}

func (x *optConn) in(what string, dl time.Time, want int64) {
	if dl.IsZero() {
		x.r.add("a %s without a deadline, the %s timeout is %v", what, what, time.Duration(want))
	} else if d := time.Until(dl); d != time.Duration(want) {
		x.r.add("a %s that times out after %v, the %s timeout is %v", what, d, what, time.Duration(want))
	}
}

func (x *optConn) Read(p []byte) (int, error) {
	x.r.mu.Lock()
	dl := x.rdl
	x.r.mu.Unlock()
	x.in("read", dl, x.r.e.rto)
	return x.Conn.Read(p)
}

func (x *optConn) Write(p []byte) (int, error) {
	x.r.mu.Lock()
	dl := x.wdl
	x.r.mu.Unlock()
	x.in("write", dl, x.r.e.wto)
	return x.Conn.Write(p)
}

func (r *optRun) dialFunc(who int64) netconn.DialFunc {
	return func(network, address string, timeout time.Duration) (net.Conn, error) {
		if who != r.e.dial {
			r.add("dial function %d was used, the one given last is %d", who, r.e.dial)
		}
		if network != "tcp" || address != r.c.Addr || timeout != 10*time.Second {
			r.add("dialled (%q, %q, %v), want (tcp, %q, 10s)", network, address, timeout, r.c.Addr)
		}
		if r.c.Mode == "tcp" {
			nc, err := net.DialTimeout(network, address, time.Minute)
			if err == nil {
				r.mu.Lock()
				r.tcp = append(r.tcp, nc.(*net.TCPConn))
				r.mu.Unlock()
			}
			return nc, err
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		d := optDial{at: time.Now()}
		if r.down && r.c.Slow > 0 {
			r.mu.Unlock()
			time.Sleep(time.Duration(r.c.Slow))
			r.mu.Lock()
		}
		if r.fails > 0 || r.down {
			r.fails--
			d.err = fmt.Errorf("dial %d failed", len(r.dials))
			if r.c.SameErr {
				d.err = errors.New("connection refused")
			}
			r.dials = append(r.dials, d)
			r.failed = append(r.failed, d.err)
			return nil, d.err
		}
		r.dials = append(r.dials, d)
		x := &optConn{Conn: fakenet.New(len(r.conns), fakenet.Plan{}), r: r, id: len(r.conns)}
		r.conns = append(r.conns, x)
		r.wg.Add(1)
		go r.serve(x)
		return x, nil
	}
}

func (r *optRun) serve(x *optConn) {
	defer r.wg.Done()
	type answers struct {
		due  time.Time
		data []byte
	}
	ch := make(chan answers, 4096)
	defer close(ch)
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		for a := range ch {
			time.Sleep(time.Until(a.due))
			x.ServerWrite(a.data)
		}
	}()
	var ps mc.Parser
	for {
		data, ok := x.ServerRead(0)
		if !ok {
			return
		}
		a := answers{due: time.Now()}
		r.mu.Lock()
		if r.hold {
			a.due = a.due.Add(r.answerAfter())
		}
		if bytes.HasPrefix(data, []byte("stats")) {
			a.data = []byte("STAT pid 7\r\nEND\r\n")
		} else {
			for _, q := range ps.Feed(data) {
				r.reqs = append(r.reqs, optReq{time.Now(), x.id, q.Verb})
				a.data = append(a.data, answer(q)...)
			}
		}
		r.mu.Unlock()
		if ps.Err != nil {
			r.add("request: %v", ps.Err)
			x.ServerReset()
			return
		}
		ch <- a
	}
}

// answerAfter is how long the server takes for its answers while it is slow.
func (r *optRun) answerAfter() time.Duration {
	return time.Duration(min(r.e.rto, r.e.wto, 200*sec) / 2)
}

func answer(q mc.Request) []byte {
	switch q.Verb {
	case "mg":
		return []byte("VA 3 c5\r\nabc\r\n")
	case "version":
		return []byte("VERSION 1\r\n")
	case "flush_all":
		return []byte("OK\r\n")
	}
	return []byte("HD\r\n")
}

func (r *optRun) logFunc(who int64) func(error) {
	return func(err error) {
		if who != r.e.logger {
			r.add("logger %d was used, the one given last is %d", who, r.e.logger)
		}
		r.mu.Lock()
		r.logged = append(r.logged, err)
		r.mu.Unlock()
	}
}

func (r *optRun) netOption(o Opt) netconn.Option {
	switch o.K {
	case "dial":
		return netconn.WithDialFunc(r.dialFunc(o.V))
	case "rto":
		return netconn.WithReadTimeout(time.Duration(o.V))
	case "wto":
		return netconn.WithWriteTimeout(time.Duration(o.V))
	case "nbuf":
		return netconn.WithBufferSize(int(o.V))
	case "keep":
		return netconn.WithTCPKeepAliveDuration(time.Duration(o.V))
	}
	panic("no network option: " + o.K)
}

// netOptions and options leave room in their lists, as lists often have that
// were put together by append.
func (r *optRun) netOptions(os []Opt) []netconn.Option {
	out := make([]netconn.Option, 0, len(os)+4)
	for _, o := range os {
		out = append(out, r.netOption(o))
	}
	return out
}

func (r *optRun) options() []memcache.Option {
	out := make([]memcache.Option, 0, len(r.c.Opts)+8)
	for _, o := range r.c.Opts {
		switch o.K {
		case "dial":
			out = append(out, memcache.WithDialFunc(r.dialFunc(o.V)))
		case "logger":
			out = append(out, memcache.WithDialErrorLogger(r.logFunc(o.V)))
		case "retry":
			out = append(out, memcache.WithRetryDuration(time.Duration(o.V)))
		case "health":
			out = append(out, memcache.WithHealthCheckDuration(time.Duration(o.V)))
		case "limit":
			out = append(out, memcache.WithWriteLimit(int(o.V)))
		case "batch":
			out = append(out, memcache.WithMaxCommandsPerBatch(int(o.V)))
		case "buf":
			out = append(out, memcache.WithBufferSize(int(o.V)))
		case "keep":
			out = append(out, memcache.WithTCPKeepAliveDuration(time.Duration(o.V)))
		case "group":
			out = append(out, memcache.WithNetConnOptions(r.netOptions(o.Group)...))
		default:
			out = append(out, memcache.WithNetConnOptions(r.netOption(o)))
		}
	}
	return out
}

func runOptions(t *testing.T, c *OptCase) (o Outcome) {
	vsync.Disable()
	o.Notes = map[string]int{}
	o.Trivial = len(c.Opts) < 2
	o.Notes["options"] = len(c.Opts)
	o.class("mode "+c.Mode, true)
	// everything needs a dial function and a logger of ours
	cc := *c
	if c.Mode != "tcp" {
		first := Opt{K: "dial", V: 9}
		if c.Share {
			first = Opt{K: "group", Group: []Opt{first}}
		}
		cc.Opts = append([]Opt{first, {K: "logger", V: 9}}, c.Opts...)
	} else {
		var os []Opt
		for _, o := range c.Opts { // real time: no short timeouts
			if o.K == "rto" || o.K == "wto" || o.K == "group" {
				continue
			}
			os = append(os, o)
		}
		cc.Opts = append([]Opt{{K: "rto", V: 60 * sec}, {K: "wto", V: 60 * sec}, {K: "logger", V: 9}}, os...)
	}
	r := &optRun{c: &cc, e: cc.effective(), o: &o, fails: c.Fails}
	switch c.Mode {
	case "tcp":
		vsync.Start()
		r.runTCP()
		return o
	}
	defer func() {
		if x := recover(); x != nil {
			if msg := fmt.Sprint(x); strings.Contains(msg, "deadlock") {
				o.add("hang", "%s", msg)
				return
			}
			panic(x)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		vsync.Start()
		done := make(chan struct{})
		go func() {
			defer close(done)
			if c.Mode == "stats" {
				r.runStats()
			} else {
				r.runClient()
			}
		}()
		select {
		case <-done:
		case <-time.After(sim.HangAfter):
			sim.OnHang(&sim.Trace{Sc: &sim.Scenario{}, Hang: "a call does not end"})
		}
		for _, x := range r.conns {
			x.ServerReset()
		}
		r.wg.Wait()
	})
	o.Notes["dials"] = len(r.dials)
	o.Notes["requests"] = len(r.reqs)
	o.class("dials failed", len(r.failed) > 0)
	return o
}

func (r *optRun) checkLogged() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.logged) != len(r.failed) {
		r.o.add("option", "%d dials failed, the logger got %d errors", len(r.failed), len(r.logged))
		return
	}
	for i, err := range r.failed {
		if !errors.Is(r.logged[i], err) {
			r.o.add("option", "the dial failed with %q, the logger got %q", err, r.logged[i])
		}
	}
}

func (r *optRun) runStats() {
	var opts []stats.Option
	var all []Opt
	for _, o := range r.c.Opts {
		switch o.K {
		case "logger":
			opts = append(opts, stats.WithErrorLogger(r.logFunc(o.V)))
		case "group":
			all = append(all, o.Group...)
		case "dial", "rto", "wto", "nbuf", "keep":
			all = append(all, o)
		}
	}
	opts = append(opts, stats.WithNetConnOptions(r.netOptions(all)...))
	x := stats.New(r.c.Addr, opts...)
	if len(r.dials) != 1 {
		r.add("%d dials for a statistics client", len(r.dials))
	}
	s, err := x.GetGeneralStats()
	if r.c.Fails == 0 && (err != nil || s.PID != 7) {
		r.add("statistics %+v, error %v", s, err)
	}
	if r.c.Fails > 0 && err == nil {
		r.add("statistics without a connection: %+v", s)
	}
	_ = x.Close()
	r.checkLogged()
}

func (r *optRun) runClient() {
	began := time.Now()
	opts := r.options()
	client, err := memcache.New(r.c.Addr, r.c.Conns, opts...)
	if r.c.Conns <= 0 {
		if err == nil {
			r.add("New with %d connections succeeded", r.c.Conns)
			_ = client.Close()
		} else if len(r.dials) > 0 {
			r.add("New failed (%v) after %d dials", err, len(r.dials))
		}
		return
	}
	if err != nil {
		r.add("New: %v", err)
		return
	}
	if len(r.dials) != r.c.Conns {
		r.add("%d dials for %d connections", len(r.dials), r.c.Conns)
	}
	r.checkLogged()
	if r.c.Share {
		defer r.another(opts)()
	}
	e := r.e
	if r.c.Cmds > 0 && r.c.Fails == 0 {
		r.burst(client)
		began = time.Time{}
	}
	if r.c.Cmds == 0 && r.c.Fails == 0 {
		// idle: every connection is probed once per interval
		time.Sleep(time.Duration(e.health) - 1 - time.Since(began))
		synctestWait()
		if len(r.reqs) > 0 {
			r.add("%d probes before the health check interval of %v", len(r.reqs), time.Duration(e.health))
		}
		time.Sleep(1 + time.Duration(min(e.rto, e.health-1)))
		seen := map[int]bool{}
		for _, q := range r.reqs {
			if q.at.Sub(began) == time.Duration(e.health) {
				seen[q.conn] = true
			}
		}
		// probes of different connections are made one after the other
		if len(r.reqs) == 0 || len(seen) == 0 {
			r.add("no probe after the health check interval of %v", time.Duration(e.health))
		}
	}
	if r.c.Fails > 0 {
		r.redials(client)
	}
	_ = client.Close()
	r.checkLogged()
}

var synctestWait = func() { synctest.Wait() }

// redials looks at the times of dials while no dial succeeds.
func (r *optRun) redials(client *memcache.Client) {
	r.mu.Lock()
	r.down = true
	n := len(r.dials)
	for _, x := range r.conns {
		x.ServerReset()
	}
	r.mu.Unlock()
	p := client.Pipeline()
	_, _ = p.MGet("a", memcache.MGetOptions{})()
	round := time.Duration(r.e.retry + r.c.Slow)
	time.Sleep(4*round + 1)
	r.mu.Lock()
	ds := append([]optDial(nil), r.dials[n:]...)
	r.mu.Unlock()
	if r.c.Conns > 1 {
		return // several connections redial side by side
	}
	if len(ds) < 4 {
		r.add("%d dials in 4 retry intervals of %v", len(ds), time.Duration(r.e.retry))
		return
	}
	for i := 1; i < len(ds); i++ {
		if d := ds[i].at.Sub(ds[i-1].at); d != round {
			r.add("a dial that failed after %v was repeated after %v, the retry interval is %v", time.Duration(r.c.Slow), d-time.Duration(r.c.Slow), time.Duration(r.e.retry))
		}
	}
}

// another makes a client with the first of the options and others of its own. It
// has no connections and nothing to do.
func (r *optRun) another(opts []memcache.Option) (end func()) {
	dials := 0
	dial := func(network, address string, timeout time.Duration) (net.Conn, error) {
		r.mu.Lock()
		defer r.mu.Unlock()
		dials++
		return nil, errors.New("dial of the other client")
	}
	x, err := memcache.New("other:1", 2, append(opts[:1:1],
		memcache.WithHealthCheckDuration(100000*time.Hour),
		memcache.WithRetryDuration(100000*time.Hour),
		memcache.WithDialErrorLogger(func(error) {}),
		memcache.WithNetConnOptions(netconn.WithReadTimeout(77*time.Hour), netconn.WithWriteTimeout(78*time.Hour)),
		memcache.WithDialFunc(dial))...)
	if err != nil {
		r.add("New of another client: %v", err)
		return func() {}
	}
	return func() {
		_ = x.Close()
		if dials != 2 {
			r.add("%d dials by the dial function of another client with 2 connections", dials)
		}
	}
}

// burst counts the unanswered commands on a slow server.
func (r *optRun) burst(client *memcache.Client) {
	r.mu.Lock()
	r.hold = true
	r.mu.Unlock()
	p := client.Pipeline()
	var fns []func() (memcache.MGetResponse, error)
	for i := range r.c.Cmds {
		fns = append(fns, p.MGet(fmt.Sprintf("k%d", i), memcache.MGetOptions{}))
	}
	at := time.Now()
	p.Execute()
	time.Sleep(1)
	r.mu.Lock()
	n := int64(0)
	for _, q := range r.reqs {
		if !q.at.Before(at) && q.verb == "mg" {
			n++
		}
	}
	r.mu.Unlock()
	e := r.e
	total := int64(r.c.Cmds)
	if e.batch <= e.limit {
		if n > e.limit {
			r.add("%d unanswered commands, the write limit is %d", n, e.limit)
		}
		if want := min(total, e.limit-e.batch+1, 200*e.batch); n < want {
			r.add("%d of %d commands sent at once, the write limit is %d and the batch size %d", n, total, e.limit, e.batch)
		}
	}
	if e.batch > e.limit && n < min(total, e.batch) {
		r.add("%d of %d commands sent at once, the batch size is %d", n, total, e.batch)
	}
	r.mu.Lock()
	r.hold = false
	r.mu.Unlock()
	for i, fn := range fns {
		resp, err := fn()
		if err != nil || string(resp.Data) != "abc" {
			r.add("command %d: %+v %v", i, resp, err)
			return
		}
	}
}

// ---------------------------------------------------------------- TCP

// noNetwork reports whether dials fail that have to fail.
func (r *optRun) noNetwork() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.logged) == 0 {
		return false
	}
	nc, err := net.DialTimeout("tcp", r.c.Addr, time.Minute)
	if err == nil {
		nc.Close()
		r.o.add("option", "a dial that can succeed failed: %v", r.logged[0])
		return false
	}
	r.o.Incomplete = "dials over TCP fail: " + err.Error()
	return true
}

func (r *optRun) runTCP() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.o.Incomplete = "no loopback network: " + err.Error()
		return
	}
	defer ln.Close()
	r.c.Addr = ln.Addr().String()
	accepted := 0
	var cs []net.Conn
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			accepted++
			cs = append(cs, nc)
			r.mu.Unlock()
			r.wg.Add(1)
			go func() {
				defer r.wg.Done()
				defer nc.Close()
				var ps mc.Parser
				buf := make([]byte, 1<<14)
				for {
					n, err := nc.Read(buf)
					if err != nil {
						return
					}
					var out []byte
					for _, q := range ps.Feed(append([]byte(nil), buf[:n]...)) {
						out = append(out, answer(q)...)
					}
					if ps.Err != nil {
						r.add("request: %v", ps.Err)
						return
					}
					if _, err := nc.Write(out); err != nil {
						return
					}
				}
			}()
		}
	}()
	client, err := memcache.New(r.c.Addr, r.c.Conns, r.options()...)
	if err != nil {
		r.add("New: %v", err)
		return
	}
	if r.e.keep > 32767*sec {
		r.refusedKeepAlive(client)
		return
	}
	if r.noNetwork() {
		_ = client.Close()
		return
	}
	for range r.c.Conns {
		p := client.Pipeline()
		a := p.MSet("k", []byte("abc"), memcache.MSetOptions{})
		b := p.MGet("k", memcache.MGetOptions{CAS: true})
		if _, err := a(); err != nil {
			r.add("set over TCP: %v", err)
		}
		if resp, err := b(); err != nil || string(resp.Data) != "abc" || resp.CAS != 5 {
			r.add("get over TCP: %+v %v", resp, err)
		}
	}
	for _, nc := range r.tcp {
		raw, err := nc.SyscallConn()
		if err != nil {
			continue
		}
		on, idle := 0, 0
		_ = raw.Control(func(fd uintptr) {
			on, _ = syscall.GetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_KEEPALIVE)
			idle, _ = syscall.GetsockoptInt(int(fd), syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE)
		})
		if on != 1 || int64(idle) != r.e.keep/sec {
			r.add("keep-alive %d with a period of %d s, want 1 and %d s", on, idle, r.e.keep/sec)
		}
	}
	if r.e.dial != 0 && len(r.tcp) != r.c.Conns {
		r.add("%d dials for %d connections", len(r.tcp), r.c.Conns)
	}
	_ = client.Close()
	_ = ln.Close()
	r.checkTCPClosed("after Close")
	r.mu.Lock()
	if accepted != r.c.Conns {
		r.o.add("option", "%d TCP connections for %d", accepted, r.c.Conns)
	}
	r.mu.Unlock()
	ended := make(chan struct{})
	go func() { r.wg.Wait(); close(ended) }()
	select { // the client has closed its connections, so that all servers end
	case <-ended:
	case <-time.After(30 * time.Second):
		for _, nc := range cs {
			nc.Close()
		}
		r.o.Incomplete = "TCP connections did not end within 30 s"
	}
	r.o.Notes["TCP connections"] = accepted
}

// refusedKeepAlive looks at a client whose keep-alive period no socket
// accepts: all dials fail, and must not leave anything behind.
func (r *optRun) refusedKeepAlive(client *memcache.Client) {
	defer client.Close()
	r.mu.Lock()
	n := len(r.logged)
	r.mu.Unlock()
	if n < r.c.Conns {
		r.o.Incomplete = "the system accepts any keep-alive period"
		return
	}
	r.checkTCPClosed("after a dial that failed because the keep-alive period can not be set")
	for range r.c.Conns {
		p := client.Pipeline()
		if _, err := p.MSet("k", []byte("abc"), memcache.MSetOptions{})(); err == nil {
			r.add("a command succeeded without a connection")
		}
	}
	_ = client.Close()
	r.checkTCPClosed("after Close")
	r.o.Notes["TCP connections refused"] = len(r.tcp)
}

// checkTCPClosed looks at the client's ends that the dial function returned.
func (r *optRun) checkTCPClosed(when string) {
	n, open := 0, 0
	for try := 0; try < 150; try++ { // a dial may be under way
		if n, open = r.openTCP(); open == 0 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.add("%d of %d TCP connections are still open %s", open, n, when)
}

func (r *optRun) openTCP() (n, open int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, nc := range r.tcp {
		raw, err := nc.SyscallConn()
		if err == nil && raw.Control(func(uintptr) {}) == nil {
			open++
		}
	}
	return len(r.tcp), open
}
