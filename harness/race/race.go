package race

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verif/mc"
	"verif/props"
	"verif/vsync"
)

// Op is a step on a pipeline.
type Op struct {
	K     string // get getfast set del ver flush exec finish call release mutate sleep
	N     int    `json:",omitempty"` // repetitions, index of the command, microseconds
	Len   int    `json:",omitempty"` // of the value
	Reply string `json:",omitempty"` // what the server answers instead of the usual
}

// Worker is a goroutine with its pipelines.
type Worker struct {
	Start int `json:",omitempty"` // microseconds
	Pipes [][]Op
}

// Link is how one connection behaves.
type Link struct {
	Fail  bool   `json:",omitempty"` // the dial fails
	Cut   int    `json:",omitempty"` // bytes of replies before End
	End   string `json:",omitempty"` // eof reset stall junk
	WCut  int    `json:",omitempty"` // bytes of requests before writing fails
	Delay int    `json:",omitempty"` // microseconds per burst of replies
	Burst int    `json:",omitempty"` // bytes per burst
}

// Case is one concurrent use of a client.
type Case struct {
	Conns, Batch, Limit, Buf       int `json:",omitempty"`
	Health, Retry, ReadTO, WriteTO int `json:",omitempty"` // microseconds
	Points                         vsync.Plan
	Workers                        []Worker
	Links                          []Link `json:",omitempty"`
	Kills                          []int  `json:",omitempty"` // microseconds
	Closes                         []int  `json:",omitempty"` // concurrent Close calls
	Twins                          int    `json:",omitempty"` // further clients made and used at the same time
	Auth                           bool   `json:",omitempty"` // the dial function authenticates
}

type world struct {
	c     *Case
	over  flag
	dials flag
	conns [256]*conn

	dialer netconn.DialFunc
}

//go:norace
//go:noinline
func (w *world) store(i int64, c *conn) { w.conns[i%256] = c }

//go:norace
//go:noinline
func (w *world) load(i int) *conn { return w.conns[i] }

func (w *world) dial(_, _ string, _ time.Duration) (net.Conn, error) {
	i := w.dials.next()
	var l Link
	if int(i) < len(w.c.Links) {
		l = w.c.Links[i]
	}
	if l.Fail {
		return nil, errors.New("refused")
	}
	c := &conn{over: &w.over, limited: l.WCut > 0}
	c.writable.set(int64(l.WCut))
	w.store(i, c)
	go w.serve(c, l)
	return c, nil
}

func reply(q *mc.Request) string {
	h := uint32(2166136261)
	for i := 0; i < len(q.Key); i++ {
		h = (h ^ uint32(q.Key[i])) * 16777619
	}
	switch q.Verb {
	case "version":
		return "VERSION 1.6.18\r\n"
	case "flush_all":
		return "OK\r\n"
	case "ms":
		return [...]string{"HD\r\n", "HD\r\n", "NS\r\n", "EX\r\n", "SERVER_ERROR out of memory\r\n"}[h>>7%5]
	case "md":
		return [...]string{"HD\r\n", "NF\r\n"}[h>>7%2]
	}
	if h>>7%8 == 0 {
		return "EN\r\n"
	}
	if h>>7%8 == 1 {
		return "CLIENT_ERROR bad\r\n"
	}
	n := int(h >> 11 % 70)
	if h>>7%8 == 2 {
		n = 3000
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(h) + byte(i)
	}
	return fmt.Sprintf("VA %d W c%d\r\n%s\r\n", n, h, b)
}

// serve is the server's end of a connection.
func (w *world) serve(c *conn, l Link) {
	p := &mc.Parser{}
	buf := make([]byte, 4096)
	sent := 0
	var login []byte
	for i := 0; ; i++ {
		n := c.out.get(buf)
		if n == 0 {
			if c.closed.get() != 0 || w.over.get() != 0 || c.reset.get() != 0 {
				return
			}
			pause(i)
			continue
		}
		i = 0
		var out []byte
		data := append([]byte(nil), buf[:n]...)
		if w.c.Auth && len(login) < len(loginRequest) {
			k := min(len(data), len(loginRequest)-len(login))
			login = append(login, data[:k]...)
			data = data[k:]
			if len(login) == len(loginRequest) {
				c.in.put([]byte("STORED\r\n"))
			}
		}
		for _, q := range p.Feed(data) {
			out = append(out, reply(&q)...)
		}
		for len(out) > 0 {
			part := out
			if l.Burst > 0 {
				part = part[:min(len(part), l.Burst)]
			}
			if l.End != "" {
				part = part[:min(len(part), l.Cut-sent)]
			}
			if l.Delay > 0 {
				time.Sleep(time.Duration(l.Delay) * time.Microsecond)
			}
			for k := 0; len(part) > 0; k++ {
				m := c.in.put(part)
				sent += m
				part, out = part[m:], out[m:]
				if c.closed.get() != 0 || w.over.get() != 0 {
					return
				}
				if len(part) > 0 {
					pause(k)
				}
			}
			if l.End != "" && sent >= l.Cut {
				switch l.End {
				case "eof":
					c.eof.set(1)
				case "reset":
					c.reset.set(1)
				case "junk":
					c.in.put([]byte("JUNK 1\r\nVA 7\r\n"))
				}
				return // stall: nothing more
			}
		}
	}
}

const loginRequest = "set memcached_auth 0 0 11\r\nuser secret\r\n"

type command struct {
	call func() (data []byte, ok bool)
	data []byte // of a set
	got  []byte
	have bool
	fast memcache.MGetResult
	kind string
	done bool
}

var sink byte

func useBytes(b []byte) byte {
	s := byte(0)
	for _, x := range b {
		s += x
	}
	return s
}

func (w *world) worker(client *memcache.Client, id int, wk *Worker) {
	if wk.Start > 0 {
		time.Sleep(time.Duration(wk.Start) * time.Microsecond)
	}
	seq := 0
	for _, ops := range wk.Pipes {
		pipe := client.Pipeline()
		var cmds []*command
		call := func(c *command) {
			if c.done || c.call == nil {
				return
			}
			c.done = true
			c.got, c.have = c.call()
			useBytes(c.got)
		}
		for i := range ops {
			op := &ops[i]
			switch op.K {
			case "exec":
				pipe.Execute()
			case "finish":
				pipe.Finish()
			case "sleep":
				time.Sleep(time.Duration(op.N) * time.Microsecond)
			case "call":
				if len(cmds) > 0 {
					call(cmds[op.N%len(cmds)])
				}
			case "release":
				if len(cmds) > 0 {
					c := cmds[op.N%len(cmds)]
					if c.have {
						c.have = false
						memcache.ReleaseGetResponseData(c.got)
						c.got = nil
						if c.kind == "getfast" && op.Len > 0 {
							memcache.ReleaseMGetResult(c.fast)
							c.call = nil
						}
					}
				}
			case "mutate":
				if len(cmds) > 0 {
					c := cmds[op.N%len(cmds)]
					for i := range c.data {
						c.data[i] ^= 1
					}
					if c.have {
						for i := range c.got {
							c.got[i] ^= 1
						}
					}
				}
			default:
				for k := 0; k < max(1, op.N); k++ {
					seq++
					c := &command{kind: op.K}
					key := fmt.Sprintf("w%dk%d", id, seq)
					switch op.K {
					case "get":
						f := pipe.MGet(key, memcache.MGetOptions{CAS: true})
						c.call = func() ([]byte, bool) {
							r, err := f()
							return r.Data, err == nil && r.Type == memcache.MGetResponseTypeVA
						}
					case "getfast":
						f, err := pipe.MGetFast(key, memcache.MGetOptions{N: 3})
						c.fast = f
						if err == nil {
							c.call = func() ([]byte, bool) {
								r, err := f.Result()
								return r.Data, err == nil && r.Type == memcache.MGetResponseTypeVA
							}
						}
					case "set":
						c.data = make([]byte, op.Len)
						f := pipe.MSet(key, c.data, memcache.MSetOptions{TTL: 5})
						c.call = func() ([]byte, bool) { _, _ = f(); return nil, false }
					case "del":
						f := pipe.MDel(key, memcache.MDelOptions{})
						c.call = func() ([]byte, bool) { _, _ = f(); return nil, false }
					case "ver":
						f := pipe.Version()
						c.call = func() ([]byte, bool) { _, _ = f(); return nil, false }
					case "flush":
						f := pipe.FlushAll()
						c.call = func() ([]byte, bool) { _ = f(); return nil, false }
					}
					cmds = append(cmds, c)
				}
			}
		}
		pipe.Finish()
		for _, c := range cmds {
			call(c)
		}
	}
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// live makes client n of the process and uses it.
func (w *world) live(n int) {
	c := w.c
	opts := []memcache.Option{memcache.WithDialFunc(w.dialer), memcache.WithDialErrorLogger(func(error) {}),
		memcache.WithRetryDuration(us(max(1, c.Retry))), memcache.WithHealthCheckDuration(us(max(1, c.Health)))}
	if c.Batch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(c.Batch+n))
	}
	if c.Limit > 0 {
		opts = append(opts, memcache.WithWriteLimit(c.Limit))
	}
	if c.Buf > 0 {
		opts = append(opts, memcache.WithBufferSize(c.Buf))
	}
	if c.ReadTO > 0 {
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithReadTimeout(us(c.ReadTO))))
	}
	if c.WriteTO > 0 {
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithWriteTimeout(us(c.WriteTO))))
	}
	client, err := memcache.New("fake:1", max(1, c.Conns), opts...)
	if err != nil {
		return
	}
	var wg sync.WaitGroup
	for i := range c.Workers {
		if i%(1+c.Twins) != n {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.worker(client, i, &c.Workers[i])
		}()
	}
	for _, at := range c.Kills {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(us(at))
			for i := range w.conns {
				if x := w.load(i); x != nil {
					x.reset.set(1)
				}
			}
		}()
	}
	for _, at := range c.Closes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(us(at))
			_ = client.Close()
		}()
	}
	wg.Wait()
	_ = client.Close()
}

// run executes a case; the race detector ends the process if it sees a race.
func run(_ *testing.T, c *Case) (o props.Outcome) {
	o.Notes = map[string]int{}
	vsync.Configure(c.Points)
	defer vsync.Disable()
	auth, err := netconn.NewPasswordAuth("user", "secret")
	if err != nil {
		o.Incomplete = err.Error()
		return o
	}
	var ws []*world
	for range 1 + c.Twins {
		w := &world{c: c}
		ws = append(ws, w)
		w.dialer = w.dial
		if c.Auth {
			w.dialer = auth.GetDialFunc(w.dial)
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		var wg sync.WaitGroup
		for i, w := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.live(i)
			}()
		}
		wg.Wait()
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		// no verdict: whether it completes is decided by other properties
		fmt.Println("race: a case did not end within 30 s")
		o.Incomplete = "a case did not end within 30 s"
		stuck = true
	}
	nd := 0
	for _, w := range ws {
		w.over.set(1)
		nd += int(w.dials.get())
	}
	cmds := 0
	for _, wk := range c.Workers {
		for _, p := range wk.Pipes {
			for _, op := range p {
				switch op.K {
				case "get", "getfast", "set", "del", "ver", "flush":
					cmds += max(1, op.N)
				}
			}
		}
	}
	o.Notes["commands"] = cmds
	o.Notes["dials"] = nd
	o.Notes["points passed"] = int(vsync.Visited())
	o.Notes["points that paused"] = int(vsync.Slept())
	o.Trivial = len(c.Workers) < 2 || cmds < 10
	if nd > max(1, c.Conns)*len(ws) {
		o.Classes = append(o.Classes, "reconnected")
	}
	if c.Twins > 0 {
		o.Classes = append(o.Classes, "several clients")
	}
	if len(c.Closes) > 0 {
		o.Classes = append(o.Classes, "closed while in use")
	}
	return o
}

var stuck bool

func gen(t *rapid.T) *Case {
	n := func(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }
	pick := func(label string, xs ...int) int { return rapid.SampledFrom(xs).Draw(t, label) }
	pct := func(label string, p int) bool { return n(label, 0, 99) < p }
	c := &Case{
		Conns: pick("conns", 1, 1, 2, 3), Batch: pick("batch", 0, 1, 2, 5), Limit: pick("limit", 0, 1, 3, 10, 1000),
		Buf: pick("buf", 0, 16, 100, 4096), Health: pick("health", 300, 1000, 5000, 1000000), Retry: pick("retry", 50, 500, 3000),
		ReadTO: pick("rto", 0, 2000, 10000), WriteTO: pick("wto", 0, 2000, 10000),
	}
	if pct("twins", 25) {
		c.Twins = n("ntwins", 1, 2)
	}
	c.Auth = pct("auth", 15)
	if pct("points", 70) {
		c.Points = vsync.Plan{Seed: uint64(n("seed", 1, 1<<30)), OneIn: pick("onein", 3, 10, 40), Max: pick("max", 1, 1, 30000, 200000), Limit: pick("plimit", 20, 100, 1000), Focus: pick("focus", 1, 4, 30), Sync: pct("sync", 25)}
	}
	for i := n("workers", 2, 6); i > 0; i-- {
		wk := Worker{Start: pick("start", 0, 0, 100, 1500)}
		for j := n("pipes", 1, 5); j > 0; j-- {
			var ops []Op
			for k := n("ops", 1, 8); k > 0; k-- {
				kind := rapid.SampledFrom([]string{"get", "get", "getfast", "set", "del", "ver", "flush", "exec", "finish", "call", "call", "release", "release", "mutate", "sleep"}).Draw(t, "op")
				op := Op{K: kind}
				switch kind {
				case "sleep":
					op.N = pick("sleep", 1, 50, 400, 2000)
				case "call", "release", "mutate":
					op.N, op.Len = n("index", 0, 20), n("x", 0, 1)
				case "set":
					op.Len = pick("len", 0, 10, 100, 1000, 3000)
					op.N = pick("rep", 1, 1, 2, 7)
				default:
					op.N = pick("rep", 1, 1, 2, 7, 40)
				}
				ops = append(ops, op)
			}
			wk.Pipes = append(wk.Pipes, ops)
		}
		c.Workers = append(c.Workers, wk)
	}
	for i := n("links", 0, 8); i > 0; i-- {
		l := Link{Fail: pct("fail", 15)}
		if pct("cut", 50) {
			l.Cut, l.End = pick("cutat", 0, 1, 10, 100, 1000, 5000), rapid.SampledFrom([]string{"eof", "reset", "junk", "stall"}).Draw(t, "end")
			if l.End == "stall" && c.ReadTO == 0 {
				l.End = "eof"
			}
		}
		if pct("wcut", 20) {
			l.WCut = pick("wcutat", 1, 20, 200, 3000)
		}
		if pct("slow", 30) {
			l.Delay, l.Burst = pick("delay", 1, 50, 500), pick("burst", 10, 100, 1000)
		}
		c.Links = append(c.Links, l)
	}
	for i := pick("kills", 0, 0, 1, 3); i > 0; i-- {
		c.Kills = append(c.Kills, n("killat", 0, 5000))
	}
	for i := pick("closes", 0, 0, 1, 2); i > 0; i-- {
		c.Closes = append(c.Closes, n("closeat", 0, 6000))
	}
	return c
}

func init() {
	props.Only("C27", 500, "-",
		"concurrent workers with their own pipelines, connections that fail, time out, are killed and redialled, frequent health checks, Close during all that (also twice), over a transport without synchronisation of its own, with pauses and yields at generated places of the library; built with the race detector, which decides. Non-trivial: at least 2 workers and 10 commands",
		gen, run)
}
