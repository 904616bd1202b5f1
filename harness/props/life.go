package props

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
	"verif/vsync"
)

// LifeCase is a cycle of steps which a client goes through again and again.
type LifeCase struct {
	Cfg    sim.Config
	Auth   bool `json:",omitempty"`
	Steps  []LifeStep
	Cycles int // per phase
}

// LifeStep is one step of a cycle.
//
// Kinds: pipes (Par goroutines with one pipeline of Cmds commands each), eof,
// reset, stall (of all connections, then two commands), refuse (the next Cmds
// dials fail), idle (two health check intervals), client (another client of
// Cmds connections is opened, used and closed), stats (a statistics client).
type LifeStep struct {
	K      string
	Par    int    `json:",omitempty"`
	Cmds   int    `json:",omitempty"`
	Mix    string `json:",omitempty"` // the commands, cyclic: g get, f getfast, s set, d del, v version, e get with a server error, c get with a client error, b bad key, a flush_all
	Size   int    `json:",omitempty"` // of values
	KeyLen int    `json:",omitempty"` // length of the keys
	Exec   int    `json:",omitempty"` // Execute after that many commands
	Drop   bool   `json:",omitempty"` // neither Finish nor results are asked for
	Skip   int    `json:",omitempty"` // results not asked for: one in that many
	Keep   bool   `json:",omitempty"` // values are not released
	Twice  bool   `json:",omitempty"` // results are asked for twice
	Long   bool   `json:",omitempty"` // a pipeline that lives as long as the client
}

func init() {
	register("C29", 90, "grow",
		"a cycle of commands (also abandoned ones, unread results, errors), failing connections, refused dials, idle times, further clients and statistics clients is repeated in several phases of equal work; after each of them, with everything idle, the goroutines of the library, the open connections and the live heap are counted. Non-trivial: a cycle has at least 20 commands or a lost connection",
		genLife, runLife)
}

func genLife(t *rapid.T) *LifeCase {
	c := &LifeCase{Cfg: genConfig(t)}
	c.Cfg.Conns = pick(t, "conns", 1, 1, 2, 3)
	c.Cfg.Retry = int64(pick(t, "retry", ms, 100*ms, 0))
	c.Cfg.Health = int64(pick(t, "health", 36000*sec, 36000*sec, 0, 2*sec))
	c.Cfg.ReadTimeout = int64(pick(t, "rto", 0, 50*ms))
	c.Auth = chance(t, "auth", 15)
	c.Cycles = pick(t, "cycles", 8, 12, 20)
	cmds := 0
	for n := between(t, "nsteps", 1, 4); n > 0; n-- {
		var s LifeStep
		s.K = pick(t, "step", "pipes", "pipes", "pipes", "pipes", "eof", "reset", "stall", "refuse", "idle", "client", "stats")
		switch s.K {
		case "pipes":
			s.Par = pick(t, "par", 1, 1, 2, 4)
			s.Cmds = pick(t, "ncmds", 1, 3, 10, 30, 120)
			if cmds > 300 {
				s.Cmds = min(s.Cmds, 10)
			}
			cmds += s.Par * s.Cmds
			for i := between(t, "nmix", 1, 6); i > 0; i-- {
				s.Mix += pick(t, "mix", "g", "f", "s", "d", "v", "e", "b", "a", "g", "s", "c")
			}
			s.Size = pick(t, "size", 0, 5, 64, 100, 1000, 9000)
			if cmds > 60 {
				s.Size = min(s.Size, 1000)
			}
			s.KeyLen = pick(t, "keylen", 0, 0, 40, 100, 250)
			s.Exec = pick(t, "exec", 0, 0, 1, 3, 10)
			s.Drop = chance(t, "drop", 25)
			s.Skip = pick(t, "skip", 0, 0, 1, 2)
			s.Keep = chance(t, "keep", 30)
			s.Twice = chance(t, "twice", 15)
			s.Long = !s.Drop && chance(t, "long", 40)
		case "refuse", "client":
			s.Cmds = between(t, "n", 1, 4)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// lifeServer is a server that remembers nothing.
type lifeServer struct {
	mu     sync.Mutex
	conns  map[*fakenet.Conn]bool
	refuse int
	auth   bool
	wg     sync.WaitGroup
	seq    atomic.Int64 // for messages that differ
	dials  int
}

func (s *lifeServer) dial(_, _ string, _ time.Duration) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dials++
	if s.refuse > 0 {
		s.refuse--
		return nil, fmt.Errorf("dial %d refused", s.dials)
	}
	c := fakenet.New(s.dials, fakenet.Plan{})
	s.conns[c] = true
	s.wg.Add(1)
	go s.serve(c)
	return c, nil
}

func (s *lifeServer) serve(c *fakenet.Conn) {
	defer s.wg.Done()
	var ps mc.Parser
	authed := !s.auth
	var line []byte
	for {
		data, ok := c.ServerRead(0)
		if !ok {
			break
		}
		if !authed {
			line = append(line, data...)
			if strings.Count(string(line), "\n") < 2 {
				continue
			}
			authed = true
			c.ServerWrite([]byte("STORED\r\n"))
			continue
		}
		if strings.HasPrefix(string(data), "stats") || strings.HasPrefix(string(data), "lru_") {
			switch {
			case strings.HasPrefix(string(data), "stats\r"):
				c.ServerWrite([]byte("STAT pid 5\r\nSTAT uptime 100\r\nEND\r\n"))
			case strings.HasPrefix(string(data), "stats slabs"):
				c.ServerWrite([]byte("STAT 1:chunk_size 96\r\nSTAT active_slabs 1\r\nEND\r\n"))
			case strings.HasPrefix(string(data), "lru_"):
				c.ServerWrite([]byte("key=a exp=-1 la=1 cas=1 fetch=no cls=1 size=60\r\nEND\r\n"))
			default:
				c.ServerWrite([]byte("ERROR\r\n"))
			}
			continue
		}
		var out []byte
		for _, q := range ps.Feed(data) {
			var r mc.Reply
			switch q.Verb {
			case "mg":
				size, _, _ := strings.Cut(q.Key[1:], ".")
				n, _ := strconv.Atoi(size)
				switch q.Key[0] {
				case 'e':
					r = mc.Reply{Code: "SERVER_ERROR", Msg: fmt.Sprintf("out of memory %d", s.seq.Add(1))}
				case 'c':
					r = mc.Reply{Code: "CLIENT_ERROR", Msg: fmt.Sprintf("bad %d", s.seq.Add(1))}
				default:
					r = mc.Reply{Code: "EN"}
					if n > 0 {
						r = mc.Reply{Code: "VA", Value: mc.Value{Len: n}}
					}
				}
			case "version":
				r = mc.Reply{Code: "VERSION", Msg: fmt.Sprintf("1.6.%d", s.seq.Add(1))}
			case "flush_all":
				r = mc.Reply{Code: "OK"}
			default:
				r = mc.Reply{Code: "HD"}
			}
			out = append(out, r.Encode()...)
		}
		c.ServerWrite(out)
	}
}

// all are the connections the client has not closed.
func (s *lifeServer) all() []*fakenet.Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*fakenet.Conn
	for c := range s.conns {
		if c.Closed() {
			delete(s.conns, c)
		} else {
			out = append(out, c)
		}
	}
	return out
}

// Footprint is what a client takes at an idle moment.
type Footprint struct {
	Goroutines int // with a frame of the library
	Conns      int
	Heap       int64
	Objects    int64
}

func libGoroutines() int {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "QuangTung97/go-memcache/") {
			n++
		}
	}
	return n
}

// runCycle goes once through the steps; it reports results that fail although
// nothing is wrong.
func (c *LifeCase) runCycle(s *lifeServer, client *memcache.Client, long []*memcache.Pipeline, opts []memcache.Option) {
	settle := func() {
		time.Sleep(time.Duration(c.Cfg.Retry) + 10*time.Second + time.Millisecond)
		time.Sleep(durOr(c.Cfg.ReadTimeout, sec))
	}
	for i, st := range c.Steps {
		switch st.K {
		case "pipes":
			var wg sync.WaitGroup
			for n := range st.Par {
				p := long[i]
				if n > 0 || !st.Long {
					p = client.Pipeline()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					lifePipe(p, st)
				}()
			}
			wg.Wait()
			if strings.Contains(st.Mix, "c") || st.Drop {
				settle()
			}
		case "eof", "reset", "stall":
			for _, x := range s.all() {
				switch st.K {
				case "eof":
					x.ServerEOF()
				case "reset":
					x.ServerReset()
				case "stall":
					x.ServerStall()
				}
			}
			if st.K == "stall" {
				for range max(1, c.Cfg.Conns) {
					lifePipe(client.Pipeline(), LifeStep{Cmds: 2, Mix: "gs"})
				}
			}
			settle()
		case "refuse":
			s.mu.Lock()
			s.refuse = st.Cmds
			s.mu.Unlock()
			for _, x := range s.all() {
				x.ServerReset()
			}
			settle()
			for range st.Cmds {
				settle()
			}
			s.mu.Lock()
			s.refuse = 0
			s.mu.Unlock()
		case "idle":
			time.Sleep(2 * min(durOr(c.Cfg.Health, 15*sec), time.Minute))
			settle()
		case "client":
			x, err := memcache.New("fake:11211", st.Cmds, opts...)
			if err == nil {
				lifePipe(x.Pipeline(), LifeStep{Cmds: 3, Mix: "gsd", Size: 10})
				_ = x.Close()
			}
		case "stats":
			x := stats.New("fake:11211", stats.WithNetConnOptions(netconn.WithDialFunc(c.dialFunc(s))))
			_, _ = x.GetGeneralStats()
			_, _ = x.GetSlabsStats()
			_, _ = x.GetSlabItemsStats()
			_ = x.MetaDumpAll(func(stats.MetaDumpKey) {})
			_ = x.Close()
		}
	}
	settle()
}

func durOr(ns int64, d int64) time.Duration {
	if ns > 0 {
		return time.Duration(ns)
	}
	return time.Duration(d)
}

var lifeKeys atomic.Int64

// newKey makes a key that was not used before, of the length n (at least 24).
func newKey(pre string, n int) string {
	num := strconv.FormatInt(lifeKeys.Add(1), 10)
	return pre + "." + strings.Repeat("0", max(24, n)-len(pre)-1-len(num)) + num
}

func lifePipe(p *memcache.Pipeline, st LifeStep) {
	var results []func()
	release := func(d []byte) {
		if !st.Keep {
			memcache.ReleaseGetResponseData(d)
		}
	}
	data := make([]byte, st.Size)
	for i := range st.Cmds {
		kind := st.Mix[i%len(st.Mix)]
		var fn func()
		switch kind {
		case 'g', 'e', 'c', 'b':
			key := newKey(string(kind)+strconv.Itoa(st.Size), st.KeyLen)
			if kind == 'b' {
				key = newKey("bad key", st.KeyLen)
			}
			f := p.MGet(key, memcache.MGetOptions{CAS: true})
			fn = func() {
				r, _ := f()
				release(r.Data)
			}
		case 'f':
			f, err := p.MGetFast(newKey("g"+strconv.Itoa(st.Size), st.KeyLen), memcache.MGetOptions{N: 10})
			if err != nil {
				continue
			}
			n := 0
			fn = func() {
				r, _ := f.Result()
				release(r.Data)
				if n++; !st.Twice || n == 2 {
					memcache.ReleaseMGetResult(f)
				}
			}
		case 's':
			f := p.MSet(newKey("s", st.KeyLen), data, memcache.MSetOptions{TTL: 3})
			fn = func() { _, _ = f() }
		case 'd':
			f := p.MDel(newKey("d", st.KeyLen), memcache.MDelOptions{})
			fn = func() { _, _ = f() }
		case 'v':
			f := p.Version()
			fn = func() { _, _ = f() }
		case 'a':
			f := p.FlushAll()
			fn = func() { _ = f() }
		}
		results = append(results, fn)
		if st.Exec > 0 && (i+1)%st.Exec == 0 {
			p.Execute()
		}
	}
	if st.Drop {
		return
	}
	for i, fn := range results {
		if st.Skip == 1 || st.Skip > 1 && i%st.Skip == 0 {
			continue
		}
		fn()
		if st.Twice {
			fn()
		}
	}
	p.Finish()
}

func (c *LifeCase) dialFunc(s *lifeServer) netconn.DialFunc {
	if !c.Auth {
		return s.dial
	}
	a, err := netconn.NewPasswordAuth("user", "secret")
	if err != nil {
		panic(err)
	}
	return a.GetDialFunc(s.dial)
}

const (
	lifePhases = 4
	lifeMore   = 10 // phases if something seems to grow
)

func runLife(t *testing.T, c *LifeCase) (o Outcome) {
	vsync.Disable()
	o.Notes = map[string]int{}
	var marks []Footprint
	s := &lifeServer{conns: map[*fakenet.Conn]bool{}, auth: c.Auth}
	defer func() {
		if r := recover(); r != nil {
			if msg := fmt.Sprint(r); strings.Contains(msg, "deadlock") {
				o.add("hang", "%s", msg)
				return
			}
			panic(r)
		}
	}()
	n := max(1, c.Cfg.Conns)
	synctest.Test(t, func(*testing.T) {
		vsync.Start()
		cfg := c.Cfg
		opts := sim.ClientOptions(cfg, c.dialFunc(s), func(error) {})
		client, err := memcache.New("fake:11211", n, opts...)
		if err != nil {
			o.Incomplete = "New: " + err.Error()
			return
		}
		mark := func() {
			synctest.Wait()
			for _, x := range s.all() {
				x.Forget()
			}
			var m Footprint
			m.Goroutines = libGoroutines()
			m.Conns = len(s.all())
			var st runtime.MemStats
			for range 3 {
				runtime.GC()
			}
			runtime.ReadMemStats(&st)
			m.Heap, m.Objects = int64(st.HeapAlloc), int64(st.HeapObjects)
			marks = append(marks, m)
		}
		var long []*memcache.Pipeline
		for range c.Steps {
			long = append(long, client.Pipeline())
		}
		marks = make([]Footprint, 0, 2*lifeMore)
		phase := func() {
			for range c.Cycles {
				done := make(chan struct{})
				go func() {
					defer close(done)
					c.runCycle(s, client, long, opts)
				}()
				select {
				case <-done:
				case <-time.After(sim.HangAfter):
					sim.OnHang(&sim.Trace{Sc: &sim.Scenario{}, Hang: "a cycle does not end"})
				}
			}
		}
		for range lifePhases {
			phase()
			mark()
		}
		for len(marks) < lifeMore && c.growing(marks) {
			phase()
			mark()
		}
		_ = client.Close()
		time.Sleep(time.Hour)
		for _, x := range s.all() {
			x.ServerReset()
		}
		s.wg.Wait()
	})
	last := marks[len(marks)-1]
	if os.Getenv("VP_DEBUG") != "" {
		for _, m := range marks {
			fmt.Printf("%+v\n", m)
		}
	}
	if last.Conns > n {
		o.add("grow", "%d connections are open at an idle moment, the client has %d", last.Conns, n)
	}
	if len(marks) >= lifeMore && c.growing(marks) {
		o.add("grow", "after each phase of the same work more is in use: %+v", marks)
	}
	lost, cmds := 0, 0
	for _, st := range c.Steps {
		switch st.K {
		case "pipes":
			cmds += st.Par * st.Cmds
			if strings.Contains(st.Mix, "c") {
				lost++
			}
			o.class("abandoned pipelines", st.Drop)
			o.class("a long-lived pipeline", st.Long)
			o.class("unread results", st.Skip > 0)
		case "eof", "reset", "stall", "refuse":
			lost++
			o.class("lost connections", true)
		default:
			o.class(st.K, true)
		}
	}
	o.Trivial = lost == 0 && cmds < 20
	o.Notes["cycles"] = c.Cycles * len(marks)
	o.Notes["commands"] = c.Cycles * len(marks) * cmds
	o.Notes["dials"] = s.dials
	return o
}

// growing reports whether each phase after the first left more than the one
// before.
func (c *LifeCase) growing(ms []Footprint) bool {
	gor, obj := true, true
	for i := 2; i < len(ms); i++ {
		a, b := ms[i-1], ms[i]
		gor = gor && b.Goroutines > a.Goroutines
		obj = obj && b.Objects-a.Objects >= int64(c.Cycles)/2 && b.Heap-a.Heap >= int64(c.Cycles)*8
	}
	return gor || obj
}
