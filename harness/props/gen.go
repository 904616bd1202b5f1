// Package props has the generators and the properties.
package props

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
)

const (
	us  = 1_000
	ms  = 1_000_000
	sec = 1_000_000_000
)

var boolGen = rapid.Bool()

// uni draws uniformly from 0 to n-1. (rapid's integers prefer small numbers, which
// is right for sizes but not for choices.)
func uni(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 2
	u := 0
	for i := 0; i < k; i++ {
		u <<= 1
		if boolGen.Draw(t, label) {
			u |= 1
		}
	}
	return u * n >> k
}

// pick draws one of the values; the first ones are where shrinking goes.
func pick[T any](t *rapid.T, label string, vals ...T) T {
	return vals[uni(t, label, len(vals))]
}

// weighted draws an index with the given weights.
func weighted(t *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := uni(t, label, sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func chance(t *rapid.T, label string, pct int) bool {
	return uni(t, label, 100) >= 100-pct
}

func between(t *rapid.T, label string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	if uni(t, label+"?", 4) == 0 { // prefer the ends
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
	if hi-lo < 1<<12 {
		return lo + uni(t, label, hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// keyGen makes unique keys.
type keyGen struct{ n int }

// keySpace is part of all keys; it tells several clients apart.
var keySpace = ""

const keyChars = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcvxyz{|}~"

func (k *keyGen) next(t *rapid.T) string {
	k.n++
	base := keySpace + "k" + strconv.FormatInt(int64(k.n), 36)
	switch weighted(t, "keyform", 12, 3, 2, 1) {
	case 0:
		return base + "."
	case 1: // random tail
		n := between(t, "keytail", 1, 12)
		var b strings.Builder
		b.WriteString(base)
		b.WriteByte(':')
		for i := 0; i < n; i++ {
			b.WriteByte(keyChars[between(t, "kc", 0, len(keyChars)-1)])
		}
		return b.String()
	case 2: // longest
		n := pick(t, "keylen", 250, 249, 128, 100)
		return base + "=" + strings.Repeat("v", n-len(base)-1)
	default: // looks like protocol
		return pick(t, "keylook", "VA", "HD", "mg", "N5", "c7", "ms", "END", "0") + base + "/"
	}
}

func genCas(t *rapid.T) uint64 {
	switch weighted(t, "casform", 3, 2, 2) {
	case 0:
		return rapid.Uint64Range(1, 1000).Draw(t, "cas")
	case 1:
		return pick(t, "casx", uint64(1), 9, 10, 99, 100, 1<<31, 1<<32-1, 1<<32, 1<<63-1, 1<<63, math.MaxUint64-1, math.MaxUint64, 10_000_000_000_000_000_000)
	}
	return rapid.Uint64Min(1).Draw(t, "cas64")
}

func genU32(t *rapid.T, label string) uint32 {
	switch weighted(t, label+"form", 3, 1, 1) {
	case 0:
		return uint32(between(t, label, 1, 1000))
	case 1:
		return pick(t, label+"x", uint32(1), 9, 10, 99, 100, 1<<16, 1<<31, math.MaxUint32)
	}
	return rapid.Uint32Min(1).Draw(t, label+"32")
}

// valueBudget bounds the total size of the values in a scenario.
type valueBudget struct{ left int }

func (v *valueBudget) length(t *rapid.T, bufSize int) int {
	n := 0
	switch weighted(t, "lenform", 10, 7, 3, 1) {
	case 0:
		n = between(t, "len", 0, 40)
	case 1:
		n = mc.InterestingLens[between(t, "leni", 0, len(mc.InterestingLens)-1)]
	case 2:
		n = max(0, bufSize*between(t, "lenmul", 1, 3)+between(t, "lend", -40, 3))
		if n > 1<<17 {
			n = 1 << 17
		}
	case 3:
		p := between(t, "lenpow", 16, 21)
		n = 1<<p + between(t, "lend", -3, 3)
	}
	if n > v.left {
		n = between(t, "lensmall", 0, 20)
	}
	v.left -= n
	return n
}

func (v *valueBudget) value(t *rapid.T, bufSize int) mc.Value {
	n := v.length(t, bufSize)
	return mc.Value{Len: n, Kind: between(t, "vkind", 0, 4), Seed: uint32(between(t, "vseed", 0, 1<<20))}
}

func genMsg(t *rapid.T, v *valueBudget) string {
	switch weighted(t, "msgform", 4, 4, 1, 1) {
	case 0:
		return pick(t, "msg", "out of memory storing object", "object too large for cache", "bad data chunk", "VA 3", "HD", "SERVER_ERROR x", "CLIENT_ERROR y", "0", "line too long")
	case 1:
		n := between(t, "msglen", 1, 30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(between(t, "mc", 0x20, 0xff))
		}
		return string(b)
	case 2:
		n := between(t, "msglong", 31, 6000)
		return strings.Repeat("m", n)
	}
	return ""
}

func genToks(t *rapid.T) []string {
	var out []string
	for _, k := range []string{"W", "X", "Z"} {
		if chance(t, "tok"+k, 30) {
			out = append(out, k)
		}
	}
	if chance(t, "tokc", 50) {
		cas := genCas(t)
		if chance(t, "cas0", 6) { // a server that keeps none
			cas = 0
		}
		out = append(out, fmt.Sprintf("c%d", cas))
	}
	if len(out) > 1 {
		out = rapid.Permutation(out).Draw(t, "tokorder")
	}
	return out
}

// genReply draws a valid reply to the verb (never CLIENT_ERROR).
func genReply(t *rapid.T, verb string, v *valueBudget, bufSize int, serverErrors bool) mc.Reply {
	if serverErrors && chance(t, "serr", 8) {
		return mc.Reply{Code: "SERVER_ERROR", Msg: genMsg(t, v)}
	}
	switch verb {
	case "mg":
		switch weighted(t, "mgrep", 6, 2, 2) {
		case 0:
			return mc.Reply{Code: "VA", Value: v.value(t, bufSize), Toks: genToks(t)}
		case 1:
			return mc.Reply{Code: "EN"}
		default:
			return mc.Reply{Code: "HD", Toks: genToks(t)}
		}
	case "ms":
		return mc.Reply{Code: pick(t, "msrep", "HD", "NS", "EX", "NF")}
	case "md":
		return mc.Reply{Code: pick(t, "mdrep", "HD", "NF", "EX")}
	}
	return mc.Reply{}
}

// genCmd draws a command with its reply.
func genCmd(t *rapid.T, k *keyGen, v *valueBudget, bufSize int, unkeyed, serverErrors bool) sim.Op {
	w := []int{4, 2, 4, 2, 0, 0}
	if unkeyed {
		w[4], w[5] = 1, 1
	}
	var op sim.Op
	switch weighted(t, "cmd", w...) {
	case 0, 1:
		op.K = "get"
		if chance(t, "fast", 40) {
			op.K = "getfast"
		}
		op.Cas = rapid.Bool().Draw(t, "wantcas")
		if chance(t, "n", 40) {
			op.N = genU32(t, "N")
		}
	case 2:
		op.K = "set"
		op.Value = v.value(t, bufSize)
		if chance(t, "cas", 40) {
			op.CasV = genCas(t)
		}
		if chance(t, "ttl", 40) {
			op.TTL = genU32(t, "T")
		}
	case 3:
		op.K = "del"
		if chance(t, "cas", 40) {
			op.CasV = genCas(t)
		}
		op.I = rapid.Bool().Draw(t, "I")
		if chance(t, "ttl", 40) {
			op.TTL = genU32(t, "T")
		}
	case 4:
		return sim.Op{K: "ver"}
	case 5:
		return sim.Op{K: "flush"}
	}
	op.Key = k.next(t)
	op.Reply = genReply(t, op.Verb(), v, bufSize, serverErrors)
	return op
}

// genRepCmd draws a command repeated n times.
func genRepCmd(t *rapid.T, k *keyGen, n int) sim.Op {
	v := &valueBudget{left: 0}
	op := sim.Op{Rep: n}
	k.n++
	op.Key = keySpace + "r" + strconv.FormatInt(int64(k.n), 36)
	maxLen := 20
	if n < 200 {
		maxLen = 300
	}
	switch weighted(t, "repcmd", 4, 2, 1) {
	case 0:
		op.K = "get"
		if chance(t, "fast", 30) {
			op.K = "getfast"
		}
		op.Reply = genReply(t, "mg", v, 0, false)
		if op.Reply.Code == "VA" {
			op.Reply.Value = mc.Value{Len: between(t, "replen", 0, maxLen), Kind: pick(t, "repkind", 4, 0), Seed: uint32(between(t, "repseed", 0, 1<<20))}
		}
		if len(op.Reply.Toks) == 0 && op.Reply.Code != "EN" {
			op.Reply.Toks = []string{"c1000"}
		}
	case 1:
		op.K = "set"
		op.Value = mc.Value{Len: between(t, "replen", 0, maxLen), Kind: pick(t, "repkind", 4, 1, 0), Seed: uint32(between(t, "repseed", 0, 1<<20))}
		op.Reply = genReply(t, "ms", v, 0, false)
	case 2:
		op.K = "del"
		op.Reply = genReply(t, "md", v, 0, false)
	}
	return op
}

func genSched(t *rapid.T) sim.Sched {
	switch weighted(t, "sched", 2, 4, 3, 2, 3) {
	case 0:
		return sim.Sched{}
	case 4:
		return genSyncSched(t)
	case 1: // everywhere
		return sim.Sched{
			Seed:  uint64(between(t, "schedseed", 1, 1<<30)),
			OneIn: pick(t, "onein", 100, 30, 10, 3),
			Max:   pick(t, "schedmax", 2, 100, 2000, 20000),
			Limit: pick(t, "schedlimit", 50, 200, 400),
		}
	case 2: // always at some places
		return sim.Sched{
			Seed:  uint64(between(t, "schedseed", 1, 1<<30)),
			OneIn: pick(t, "onein", 4, 2, 1),
			Max:   pick(t, "schedmax", 2, 1000, 20000),
			Limit: pick(t, "schedlimit", 50, 200, 400),
			Focus: pick(t, "schedfocus", 8, 32, 128),
		}
	}
	return sim.Sched{ // few long delays
		Seed:  uint64(between(t, "schedseed", 1, 1<<30)),
		OneIn: pick(t, "onein", 300, 50, 10, 2),
		Max:   pick(t, "schedmax", 200*us, ms),
		Limit: pick(t, "schedlimit", 3, 10, 20),
		Focus: pick(t, "schedfocus", 1, 8, 64),
	}
}

// genSyncSched draws pauses around operations that synchronize.
func genSyncSched(t *rapid.T) sim.Sched {
	s := sim.Sched{
		Seed:  uint64(between(t, "schedseed", 1, 1<<30)),
		OneIn: pick(t, "onein", 10, 3, 1, 1),
		Max:   pick(t, "schedmax", 100, 5000, 20000, 20000, 200*us, ms),
		Limit: pick(t, "schedlimit", 50, 200, 400),
		Focus: pick(t, "schedfocus", 1, 8, 16, 32, 32, 64),
		Sync:  true,
	}
	if s.Max > 20000 {
		s.Limit = pick(t, "schedfew", 3, 10, 20)
	}
	return s
}

func genConfig(t *rapid.T) sim.Config {
	c := sim.Config{Conns: 1}
	switch weighted(t, "conns", 5, 3) {
	case 1:
		c.Conns = between(t, "nconns", 2, 5)
	}
	if chance(t, "setbatch", 75) {
		c.MaxBatch = pick(t, "batch", 1, 2, 3, 4, 5, 7, 8, 16, 100, 128, 512, 513, 1000)
	}
	if chance(t, "setlimit", 75) {
		c.WriteLimit = pick(t, "limit", 1, 2, 3, 5, 8, 10, 50, 500, 1000, 5000)
	}
	if chance(t, "setbuf", 75) {
		c.BufSize = genBuf(t)
	}
	c.Health = 3600 * sec * 10
	return c
}

func genBuf(t *rapid.T) int {
	switch weighted(t, "bufform", 3, 2) {
	case 0:
		return between(t, "buf", 1, 64)
	}
	return pick(t, "bufx", 100, 512, 1024, 4096, 16384, 65536)
}

// genPace draws how the server paces replies: delays of some microseconds.
func genPace(t *rapid.T) []sim.Pace {
	n := between(t, "npace", 0, 4)
	var out []sim.Pace
	for i := 0; i < n; i++ {
		out = append(out, sim.Pace{
			Delay: int64(pick(t, "pdelay", 0, 1, 100, 3*us, 50*us)),
			Max:   pick(t, "pmax", 0, 1, 2, 5, 50),
		})
	}
	return out
}

func genChunks(t *rapid.T) []int {
	n := between(t, "nchunks", 0, 6)
	var out []int
	for i := 0; i < n; i++ {
		if chance(t, "chunkbig", 30) {
			out = append(out, pick(t, "chunkx", 1<<20, 4096, 1000, 100))
		} else {
			out = append(out, between(t, "chunk", 1, 12))
		}
	}
	return out
}

// genCleanPlan draws a connection on which nothing goes wrong.
func genCleanPlan(t *rapid.T, bytes int) sim.ConnPlan {
	var p sim.ConnPlan
	p.Pace = genPace(t)
	p.Net.ReadChunks = genChunks(t)
	if bytes > 200_000 { // keep it fast
		for i := range p.Net.ReadChunks {
			p.Net.ReadChunks[i] = max(p.Net.ReadChunks[i], 509)
		}
	}
	if chance(t, "window", 30) {
		p.Net.Window = max(pick(t, "windowx", 1<<16, 4096, 100, 7, 1), bytes/20000)
	}
	if chance(t, "recvmax", 30) {
		p.RecvMax = max(between(t, "recvmaxx", 1, 200), bytes/20000)
	}
	return p
}

// scale makes sure that the pacing of a scenario cannot come near the timeouts.
func boundPace(ps []sim.Pace, cmds int) {
	for i := range ps {
		if ps[i].Delay > 0 && cmds > 2000 {
			ps[i].Delay = min(ps[i].Delay, 100)
		}
	}
}

// Shape says how much of what a generated clean scenario has.
type Shape struct {
	Workers, Pipes, Ops int
	Reps                bool // repeated ops (large pipelines)
	Unkeyed             bool
	InvalidKeys         bool
	ServerErrors        bool
	Control             int // percentage of exec/finish/call/sleep steps
	Own                 bool
	NoFinish            bool
	Values              int // byte budget
}

// genVisible draws n bytes allowed in keys: mostly one of them, others at both
// ends and at some places between.
func genVisible(t *rapid.T, n int) []byte {
	char := func() byte { return byte(between(t, "char", 0x21, 0x7e)) }
	b := []byte(strings.Repeat(string(char()), n))
	b[0], b[n-1] = char(), char()
	for i := between(t, "others", 0, 5); i > 0; i-- {
		b[between(t, "other", 0, n-1)] = char()
	}
	return b
}

func genInvalidKey(t *rapid.T) string {
	switch weighted(t, "badkey", 2, 4, 3, 3) {
	case 0:
		return ""
	case 1: // a forbidden byte somewhere
		bad := pick(t, "badbyte", ' ', '\r', '\n', '\t', 0, 0x1f, 0x7f, 0x80, 0x85, 0xa0, 0xff, '\v', '\f', 0x0e)
		b := genVisible(t, pick(t, "badlen", 1, 2, 3, 10, 249, 250, 251, between(t, "badlenany", 1, 300)))
		n := len(b)
		b[between(t, "badpos", 0, n-1)] = byte(bad)
		return string(b)
	case 2: // too long
		return string(genVisible(t, pick(t, "longlen", 251, 252, 256, 300, 1000, 70000, between(t, "longlenany", 251, 600))))
	}
	return "k" + pick(t, "uni", "é", "Ā", "€", "\u2028", "\u00a0", "世界", "\U0001F600", "a\r\nflush_all", "a b", "\xc3\x28", "\xf0\x9f") + "z"
}

func countCmds(ws []sim.Worker) (cmds, bytes int) {
	for _, w := range ws {
		for _, p := range w.Pipes {
			for i := range p.Ops {
				o := &p.Ops[i]
				if !o.IsCmd() {
					continue
				}
				n := max(1, o.Rep)
				cmds += n
				bytes += n * (40 + o.Value.Len + o.Reply.Value.Len + len(o.Reply.Msg))
			}
		}
	}
	return
}

// genPipe draws the use of a pipeline.
func genPipe(t *rapid.T, sh Shape, k *keyGen, v *valueBudget, cfg sim.Config) sim.Pipe {
	var p sim.Pipe
	n := between(t, "nops", 1, sh.Ops)
	buf := cfg.BufSize
	if buf == 0 {
		buf = 16384
	}
	for i := 0; i < n; i++ {
		if len(p.Ops) > 0 && chance(t, "control", sh.Control) {
			w := []int{3, 2, 4, 1, 0, 0, 0, 0}
			if sh.Own {
				w[4], w[5], w[6], w[7] = 4, 3, 2, 1
			}
			switch weighted(t, "ctl", w...) {
			case 0:
				p.Ops = append(p.Ops, sim.Op{K: "exec"})
			case 1:
				p.Ops = append(p.Ops, sim.Op{K: "finish"})
			case 2:
				p.Ops = append(p.Ops, sim.Op{K: "call", Arg: int64(between(t, "callidx", 0, 60))})
			case 3:
				p.Ops = append(p.Ops, sim.Op{K: "sleep", Arg: int64(pick(t, "pause", 1, 1000, 20*us, ms))})
			case 4:
				p.Ops = append(p.Ops, sim.Op{K: "release", Arg: int64(between(t, "relidx", 0, 60)), I: rapid.Bool().Draw(t, "relres")})
			case 7:
				size := pick(t, "doncap", 0, 1, 2, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 1000, 5000, 1<<17+1)
				p.Ops = append(p.Ops, sim.Op{K: "donate", N: uint32(size), Arg: int64(pick(t, "donlen", size, 0, min(1, size), size/2))})
			case 6:
				p.Ops = append(p.Ops, sim.Op{K: "scribble", Arg: int64(between(t, "scridx", 0, 60))})
			case 5:
				p.Ops = append(p.Ops, sim.Op{K: "mutate", Arg: int64(between(t, "mutidx", 0, 60))})
			}
			continue
		}
		switch {
		case sh.InvalidKeys && chance(t, "invalid", 30):
			op := genCmd(t, k, v, buf, false, false)
			op.Key = genInvalidKey(t)
			op.Value.Len = min(op.Value.Len, 100)
			p.Ops = append(p.Ops, op)
		case sh.Reps && chance(t, "rep", 25):
			var reps int
			switch weighted(t, "repn", 4, 3, 2, 1) {
			case 0:
				reps = between(t, "reps", 2, 12)
			case 1:
				reps = between(t, "reps2", 10, 150)
			case 2:
				reps = max(2, cfg.MaxBatch*between(t, "repmul", 1, 4)+between(t, "repd", -2, 2))
				reps = min(reps, 1200)
			case 3:
				reps = between(t, "reps3", 150, 1200)
			}
			p.Ops = append(p.Ops, genRepCmd(t, k, reps))
		default:
			p.Ops = append(p.Ops, genCmd(t, k, v, buf, sh.Unkeyed, sh.ServerErrors))
		}
	}
	if sh.NoFinish && chance(t, "nofinish", 40) {
		p.NoFinish = true
	}
	return p
}

func genWorkers(t *rapid.T, sh Shape, k *keyGen, v *valueBudget, cfg sim.Config) []sim.Worker {
	var out []sim.Worker
	nw := between(t, "nworkers", 1, sh.Workers)
	for w := 0; w < nw; w++ {
		var wk sim.Worker
		if w > 0 && chance(t, "late", 50) {
			wk.Start = int64(pick(t, "start", 1, 500, 5*us, 100*us, ms))
		}
		np := between(t, "npipes", 1, sh.Pipes)
		for i := 0; i < np; i++ {
			wk.Pipes = append(wk.Pipes, genPipe(t, sh, k, v, cfg))
		}
		out = append(out, wk)
	}
	return out
}

// genClean draws a scenario in which nothing goes wrong.
func genClean(t *rapid.T, sh Shape) *sim.Scenario {
	sc := &sim.Scenario{Clean: true, Cfg: genConfig(t)}
	// one-second timeouts are far beyond everything below
	k := &keyGen{}
	v := &valueBudget{left: sh.Values}
	sc.Workers = genWorkers(t, sh, k, v, sc.Cfg)
	cmds, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	if sc.Cfg.Conns > 1 && chance(t, "plans", 50) {
		for i := 0; i < sc.Cfg.Conns; i++ {
			p := genCleanPlan(t, bytes)
			boundPace(p.Pace, cmds)
			sc.Plans = append(sc.Plans, p)
		}
	}
	if bytes > 500_000 && sc.Cfg.BufSize > 0 && sc.Cfg.BufSize < 512 {
		sc.Cfg.BufSize = 512
	}
	sc.Sched = genSched(t)
	return sc
}

var _ = fakenet.FaultNone

// rarely draws whether this is one of the few cases which take long.
func rarely(t *rapid.T, label string, oneIn int) bool {
	return uni(t, label, oneIn) == oneIn-1
}

// genMarathon draws a connection on which more than 1<<16 commands are sent.
func genMarathon(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true}
	sc.Cfg.Conns = 1
	sc.Cfg.Health = 36000 * sec
	sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = 600*sec, 600*sec
	sc.Cfg.WriteLimit = pick(t, "mlimit", 0, 7, 100, 5000, 100_000)
	limit := sc.Cfg.WriteLimit
	if limit == 0 {
		limit = 500
	}
	sc.Cfg.MaxBatch = pick(t, "mbatch", limit, limit, between(t, "mbatch2", max(1, limit/20), limit))
	sc.Cfg.BufSize = pick(t, "mbuf", 0, 100_000)
	k := &keyGen{}
	left := 1<<16 + between(t, "more", 1, 4000)
	n := between(t, "mworkers", 1, 3)
	for w := 0; w < n; w++ {
		var wk sim.Worker
		one := pick(t, "mpipes", false, false, true) // one large one, or a number of them
		for mine := left / n; mine > 0; {
			reps := mine
			if !one {
				reps = min(mine, between(t, "mreps", 2000, 40_000))
			}
			mine -= reps
			wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{genRepCmd(t, k, reps)}})
		}
		sc.Workers = append(sc.Workers, wk)
	}
	sc.Default.Pace = []sim.Pace{{Delay: int64(pick(t, "mpace", 0, 0, us, 20*us)), Max: 0}}
	// in the end, exactly the limit
	last := sim.Worker{Start: 100 * sec}
	for i := between(t, "mlast", 1, 3); i > 0; i-- {
		last.Pipes = append(last.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: 12 * sec}, genRepCmd(t, k, min(limit, 6000))}})
	}
	sc.Workers = append(sc.Workers, last)
	sc.SlowAt, sc.SlowBy = last.Start, 2*ms
	return sc
}

// genAbandoned draws thousands of pipelines that are flushed but never waited
// for, or dropped before they are flushed, and then some that must work.
func genAbandoned(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 3)
	sc.Cfg.MaxBatch = pick(t, "mb", 0, 1, 2)
	sc.Cfg.Health = 36000 * sec
	k := &keyGen{}
	n := between(t, "n", 1000, 5000)
	unflushed := pick(t, "unflushed", 0, 20, 100)
	var w sim.Worker
	one := genCmd(t, k, &valueBudget{left: 30}, 30, false, false)
	for i := 0; i < n; i++ {
		o := one
		o.Key = fmt.Sprintf("ab%d", i)
		p := sim.Pipe{Ops: []sim.Op{o}, NoFinish: true}
		if i*37%100 >= unflushed {
			p.Ops = append(p.Ops, sim.Op{K: "exec"})
		}
		w.Pipes = append(w.Pipes, p)
	}
	for i := 0; i < 3; i++ {
		w.Pipes = append(w.Pipes, sim.Pipe{Ops: []sim.Op{genRepCmd(t, k, between(t, "reps", 1, 50))}})
	}
	sc.Workers = append(sc.Workers, w)
	return sc
}

// genHuge draws a few commands whose values are very large.
func genHuge(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 2)
	sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = 600*sec, 600*sec
	sc.Cfg.Health = 36000 * sec
	sc.Cfg.BufSize = pick(t, "buf", 0, 100_000, 1<<20)
	k := &keyGen{}
	left := 48 << 20
	for w := between(t, "workers", 1, 2); w > 0; w-- {
		var wk sim.Worker
		for p := between(t, "pipes", 1, 3); p > 0; p-- {
			var pipe sim.Pipe
			for i := between(t, "ops", 1, 3); i > 0; i-- {
				v := mc.Value{Len: 1<<between(t, "pow", 20, 25) + between(t, "d", -2, 2), Kind: between(t, "vkind", 0, 4), Seed: uint32(between(t, "vseed", 0, 1000))}
				if v.Len > left {
					v.Len = 10
				}
				left -= v.Len
				o := genCmd(t, k, &valueBudget{left: 30}, 30, false, false)
				switch {
				case o.K == "set":
					o.Value = v
				case o.Reply.Code == "VA":
					o.Reply.Value = v
				default:
					left += v.Len
				}
				pipe.Ops = append(pipe.Ops, o)
				if chance(t, "ctl", 30) {
					pipe.Ops = append(pipe.Ops, sim.Op{K: pick(t, "ctlk", "exec", "call", "release", "mutate", "scribble"), Arg: int64(between(t, "arg", 0, 9))})
				}
			}
			wk.Pipes = append(wk.Pipes, pipe)
		}
		sc.Workers = append(sc.Workers, wk)
	}
	return sc
}
