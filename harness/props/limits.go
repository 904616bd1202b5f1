package props

import (
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
)

func totalSlack(s sim.Sched) int64 { return int64(s.Limit)*int64(s.Max) + ms }

// batches is the number of batches of n commands.
func batches(n, size int) int { return (n + size - 1) / size }

func init() {
	// ---------------------------------------------------------------- C12
	register("C12", 900, "late err attr drop keep conn once",
		"a server that stalls (stops replying, or stops accepting data) at a chosen byte with generated timeouts, or one that is slow but always within the timeouts, or long idle periods; the virtual time of every result is compared with the configured timeouts. Non-trivial: a timeout struck, or the gaps of a slow server summed up to more than the timeouts",
		genStall, runStall)

	// ---------------------------------------------------------------- C14
	register("C14", 1050, "limit capacity",
		"many more commands than the write limit, slow servers, failing connections, then a pipeline of exactly the write limit: never more unanswered commands than the limit when a command of a batch arrives that is not larger than it (some have larger batches, too), and all of that pipeline sent at once. Non-trivial: the limit was reached",
		genLimit,
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			most, _ := tr.MaxOutstanding()
			top := 0
			for _, m := range most {
				top = max(top, m)
			}
			o.Trivial = top <= max(0, tr.WriteLimit()-tr.MaxBatch())
			o.class("after failures", failures(&o))
			o.class("batches larger than the limit", tr.MaxBatch() > tr.WriteLimit())
			checkAtOnce(tr, &o, "capacity", len(sc.Workers)-1)
			return o
		})

	// ---------------------------------------------------------------- C15
	register("C15", 600, "starve turn",
		"one to three large pipelines (many times the write limit) in progress on one connection with a slow server, and small pipelines flushed at random moments; the large pipelines' commands that arrive between the flush and the arrival of a small one are counted, as is the lead of one large pipeline over another. Non-trivial: a small pipeline was flushed with more than five times the bound of commands still to be sent",
		genStarve, runStarve)

	// ---------------------------------------------------------------- C16
	register("C16", 1500, "hang",
		"hundreds of batches outstanding, tiny and huge limits and batches, servers that hold all replies, connections that fail or stall at such moments, reconnects, close; many small pipelines at moments close to each other; every flushed command must complete. Non-trivial: at least 100 batches, or a failure, or 10 batches with perturbed scheduling",
		genCrowd,
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			n := map[[4]int]bool{}
			for _, c := range tr.Cmds {
				n[[4]int{c.W, c.P, c.Session, c.Pos / tr.MaxBatch()}] = true
			}
			o.Notes["batches"] = len(n)
			o.class("more than 384 batches", len(n) > 384)
			o.class("many small pipelines", sc.Phase == "small")
			o.Trivial = len(n) < 100 && !failures(&o)
			if sc.Phase == "small" && len(n) >= 10 && sc.Sched.Limit > 0 {
				o.Trivial = false
			}
			return o
		})

	// ---------------------------------------------------------------- C17
	register("C17", 1200, "pipelined writes",
		"pipelines of up to the write limit on an idle connection, and pipelines flushed while the connection is busy writing; the server delays its first reply, counts what arrived before it and how many network writes it took. Non-trivial: at least 2 commands in at least 2 batches or pipelines",
		genTogether, runTogether)
}

// ---------------------------------------------------------------- C12

func genStall(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Phase = pick(t, "phase", "stall", "stall", "stall", "slow", "slowwrite", "idle")
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 2)
	sc.Cfg.WriteLimit = 5000
	sc.Cfg.MaxBatch = pick(t, "mb", 0, 1000, 100, 20)
	sc.Cfg.ReadTimeout = int64(pick(t, "rto", 20*ms, 200*ms, sec, 4*sec, 0))
	sc.Cfg.WriteTimeout = int64(pick(t, "wto", 20*ms, 200*ms, sec, 4*sec, 0))
	sc.Cfg.Retry = int64(pick(t, "retry", 100*ms, sec, 0))
	rto, wto := sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout
	if rto == 0 {
		rto = sec
	}
	if wto == 0 {
		wto = sec
	}
	k, v := &keyGen{}, &valueBudget{left: 1 << 16}
	unit := rto
	if sc.Phase == "slowwrite" {
		v.left = 1 << 11
		unit = wto
		rto = 600 * sec
		sc.Cfg.ReadTimeout = rto
		sc.Cfg.BufSize = pick(t, "bufsw", 64, 256, 0)
	}
	nw := between(t, "nworkers", 1, 4)
	for i := 0; i < nw; i++ {
		w := sim.Worker{Start: int64(between(t, "wstart", 0, 1000)) * (unit / 500)}
		np := between(t, "npipes", 1, 4)
		for j := 0; j < np; j++ {
			p := genPipe(t, Shape{Ops: 8, Control: 10, ServerErrors: true}, k, v, sc.Cfg)
			var ops []sim.Op
			if j > 0 {
				pause := int64(between(t, "pause", 0, 1000)) * (unit / 300)
				if sc.Phase == "idle" {
					pause = (rto + wto) * int64(between(t, "idle", 1, 20))
				}
				ops = append(ops, sim.Op{K: "sleep", Arg: pause})
			}
			p.Ops = append(ops, p.Ops...)
			w.Pipes = append(w.Pipes, p)
		}
		sc.Workers = append(sc.Workers, w)
	}
	_, bytes := countCmds(sc.Workers)
	sc.Sched = genSched(t)
	slack := totalSlack(sc.Sched)
	for slack > min(rto, wto)/4 {
		sc.Sched.Max /= 2
		sc.Sched.Limit = sc.Sched.Limit*3/4 + 1
		slack = totalSlack(sc.Sched)
		if sc.Sched.Max == 0 {
			sc.Sched = sim.Sched{}
			break
		}
	}
	hi := 70
	if (sc.Phase == "slow" || sc.Phase == "slowwrite") && chance(t, "brink", 40) {
		// just within the timeout
		hi, sc.Sched = 99, sim.Sched{}
	}
	switch sc.Phase {
	case "slow":
		sc.Clean = true
		var p sim.ConnPlan
		n := between(t, "npace", 1, 4)
		for i := 0; i < n; i++ {
			gap := between(t, "gap", 10, 70)
			if hi > 70 {
				gap = pick(t, "brinkgap", 1, 5, 10, 30, 86, 95, hi)
			}
			p.Pace = append(p.Pace, sim.Pace{Delay: rto * int64(gap) / 100, Max: between(t, "burst", 1, 4)})
		}
		p.Net.ReadChunks = genChunks(t)
		sc.Default = p
	case "slowwrite":
		sc.Clean = true
		for i := between(t, "ngaps", 1, 5); i > 0; i-- {
			gap := between(t, "wgap", 0, 70)
			if hi > 70 {
				gap = pick(t, "brinkwgap", 0, 1, 5, 10, 30, 86, 95, hi)
			}
			sc.Default.Net.WriteGaps = append(sc.Default.Net.WriteGaps, wto*int64(gap)/100)
		}
	case "idle":
		sc.Clean = true
		sc.Default.Net.ReadChunks = genChunks(t)
		sc.Tail = (rto + wto) * int64(between(t, "idle", 1, 20))
	default:
		if chance(t, "trickle", 20) {
			// replies stop, but requests are still accepted, a few at a time
			sc.Cfg.MaxBatch = between(t, "tmb", 1, 2)
			sc.Cfg.BufSize = 64
			p := sim.ConnPlan{RecvMax: between(t, "trecv", 30, 100), RecvDelay: wto * int64(between(t, "tdelay", 5, 40)) / 100}
			p.Net.Window = p.RecvMax
			p.Net.ReadFault = "stall"
			p.Net.ReadCut = between(t, "tcut", 0, 200)
			sc.Plans = append(sc.Plans, p)
			sc.Workers[0].Pipes = append(sc.Workers[0].Pipes, sim.Pipe{Ops: []sim.Op{genRepCmd(t, k, between(t, "tn", 5, 60))}})
		}
		n := between(t, "nplans", 1, 4)
		for i := 0; i < n; i++ {
			var p sim.ConnPlan
			p.Net.ReadChunks = genChunks(t)
			side := weighted(t, "side", 4, 2, 1, 1)
			if side == 0 || side == 2 {
				p.Net.ReadFault = "stall"
				p.Net.ReadCut = between(t, "rcut", 0, max(60, bytes/2))
			}
			if side == 1 || side == 2 {
				p.Net.WriteFault = "stall"
				p.Net.WriteCut = between(t, "wcut", 0, max(60, bytes/2))
			}
			sc.Plans = append(sc.Plans, p)
		}
		last := sim.Worker{Start: 100*(rto+wto) + 60*sec}
		for i := 0; i < 2*sc.Cfg.Conns*5; i++ {
			last.Pipes = append(last.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: 11 * sec}, genCmd(t, k, &valueBudget{left: 50}, 64, false, false)}})
		}
		sc.Workers = append(sc.Workers, last)
	}
	return sc
}

func runStall(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	rto, wto, slack := tr.ReadTimeout(), tr.WriteTimeout(), tr.Slack()
	switch sc.Phase {
	case "slow":
		o.Trivial = tr.CloseAt.Sub(tr.Began) < rto
		return o
	case "slowwrite":
		o.Trivial = true
		for _, c := range tr.Conns {
			n := len(c.Writes)
			if n > 1 && c.Writes[n-1].At.Sub(c.Writes[0].At) > wto {
				o.Trivial = false
			}
		}
		return o
	case "idle":
		o.Trivial = len(tr.Recs) == 0
		return o
	}
	writeStall := false
	for _, p := range sc.Plans {
		writeStall = writeStall || p.Net.WriteFault != "" || p.RecvDelay > 0
	}
	bound := rto + slack
	if writeStall {
		bound = 2*max(rto, wto) + slack
	}
	to := 0
	for _, c := range tr.Cmds {
		if c.Err != nil && c.Valid() {
			to++
		}
	}
	trickle := false
	for _, p := range sc.Plans {
		trickle = trickle || p.RecvDelay > 0
	}
	for _, c := range tr.Calls {
		d := c.Dur
		if trickle {
			// a server that accepts slowly but keeps replying has not stalled yet:
			// count from the last reply that came
			end := c.At.Add(c.Dur)
			for _, cn := range tr.Conns {
				for _, x := range cn.Delivered {
					if x.At.Before(end) && end.Sub(x.At) < d {
						d = end.Sub(x.At)
					}
				}
			}
		}
		if d > bound {
			o.add("late", "%s took %v with read timeout %v and write timeout %v (bound %v)", c.What, c.Dur, rto, wto, bound)
		}
	}
	// in the end the connections are replaced by working ones
	if len(tr.Conns) > 0 {
		last := len(sc.Workers) - 1
		n := len(sc.Workers[last].Pipes)
		for _, c := range tr.Cmds {
			if c.W == last && c.P >= n-2*tr.NConns() && c.Err != nil && len(tr.Conns) <= len(sc.Plans) {
				// every stalled connection takes one failing command to be noticed
				continue
			}
			if c.W == last && c.P == n-1 && c.Err != nil && c.DecodeMismatch(c.Op.Reply) != "" && allFresh(tr, len(sc.Plans), c.FlushTime) {
				o.add("late", "%s failed with %v although all connections had been replaced", c, c.Err)
			}
		}
	}
	o.class("write side stalled", writeStall)
	o.class("timed out", timedOut(tr))
	o.Trivial = to == 0
	return o
}

// allFresh reports whether all connections that were open at t0 have numbers
// from first on.
func allFresh(tr *sim.Trace, first int, t0 time.Time) bool {
	n := 0
	for _, c := range tr.Conns {
		if !c.OpenedAt.Add(tr.Slack()).Before(t0) {
			continue
		}
		if c.Closed() && c.ClosedAt.Before(t0) {
			continue
		}
		if c.ID < first {
			return false
		}
		n++
	}
	return n == tr.NConns()
}

// ---------------------------------------------------------------- C14

func genLimit(t *rapid.T) *sim.Scenario {
	if rarely(t, "marathon", 700) {
		return genMarathon(t)
	}
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 2)
	sc.Cfg.WriteLimit = pick(t, "limit", 1, 2, 3, 4, 5, 7, 10, 16, 30, 100)
	sc.Cfg.MaxBatch = between(t, "mb", 1, min(sc.Cfg.WriteLimit, 12))
	if chance(t, "mbfull", 15) {
		sc.Cfg.MaxBatch = sc.Cfg.WriteLimit
	}
	if chance(t, "mblarge", 20) { // batches that the limit does not hold up, next to ones that it does
		sc.Cfg.MaxBatch = sc.Cfg.WriteLimit + between(t, "over", 1, 3*sc.Cfg.WriteLimit)
	}
	sc.Cfg.Retry = int64(pick(t, "retry", ms, 50*ms, sec))
	k, v := &keyGen{}, &valueBudget{left: 1 << 12}
	nw := between(t, "nworkers", 1, 4)
	for i := 0; i < nw; i++ {
		w := sim.Worker{Start: int64(between(t, "wstart", 0, 300)) * 10 * us}
		for j := between(t, "npipes", 1, 3); j > 0; j-- {
			var p sim.Pipe
			for x := between(t, "nops", 1, 4); x > 0; x-- {
				if chance(t, "ctl", 20) {
					p.Ops = append(p.Ops, sim.Op{K: pick(t, "ctlk", "exec", "finish")})
					continue
				}
				op := genRepCmd(t, k, between(t, "n", 1, pick(t, "upto", min(400, 6*sc.Cfg.WriteLimit+3), min(400, 6*sc.Cfg.WriteLimit+3), sc.Cfg.WriteLimit)))
				p.Ops = append(p.Ops, op)
			}
			w.Pipes = append(w.Pipes, p)
		}
		sc.Workers = append(sc.Workers, w)
	}
	if chance(t, "ce", 20) {
		addClientErrors(t, sc.Workers, 10, v)
	}
	cmds, bytes := countCmds(sc.Workers)
	pace := func() []sim.Pace {
		return []sim.Pace{{Delay: int64(pick(t, "pd", 50*us, 300*us, us, 0)), Max: pick(t, "pm", 1, 2, 5, 0)}, {Delay: int64(pick(t, "pd2", 0, 100*us)), Max: pick(t, "pm2", 3, 1, 0)}}
	}
	_ = cmds
	if chance(t, "faults", 60) {
		for i := between(t, "nplans", 1, 4); i > 0; i-- {
			var p sim.ConnPlan
			p.Net.ReadChunks = genChunks(t)
			p.Pace = pace()
			if chance(t, "cut", 80) {
				genFault(t, &p.Net, bytes/2, chance(t, "stall", 15), sc.Cfg)
			}
			sc.Plans = append(sc.Plans, p)
		}
	}
	sc.Default.Pace = pace()
	sc.Default.Net.ReadChunks = genChunks(t)
	sc.Sched = genSched(t)
	// the last worker: notice failures, then exactly the limit
	last := sim.Worker{Start: 100 * sec}
	for i := 0; i < 6*sc.Cfg.Conns; i++ {
		last.Pipes = append(last.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: 12 * sec}, genCmd(t, k, &valueBudget{left: 10}, 64, false, false)}})
	}
	for i := 0; i < sc.Cfg.Conns; i++ {
		last.Pipes = append(last.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: 12 * sec}, genRepCmd(t, k, sc.Cfg.WriteLimit)}})
	}
	sc.Workers = append(sc.Workers, last)
	// scheduling delays must not let a reply overtake the sender
	sc.SlowAt, sc.SlowBy = last.Start, int64(sc.Sched.Limit*sc.Sched.Max)+2*ms
	genOddErrors(t, sc)
	return sc
}

// checkAtOnce checks that each of the last pipelines of the worker (those after
// its warm-up) was sent without waiting for a reply.
func checkAtOnce(tr *sim.Trace, o *Outcome, tag string, worker int) {
	if tr.Hang != "" || tr.NewErr != nil {
		return
	}
	np := len(tr.Sc.Workers[worker].Pipes)
	for p := np - tr.NConns(); p < np; p++ {
		var recs []*sim.Rec
		ok := true
		n := 0
		for _, c := range tr.Cmds {
			if c.W != worker || c.P != p {
				continue
			}
			n++
			r := tr.Matched(c)
			if r == nil || c.Err != nil && len(recs) > 0 && recs[0].Conn < len(tr.Sc.Plans) {
				ok = false
				break
			}
			recs = append(recs, r)
		}
		if !ok || len(recs) == 0 || recs[0].Conn < len(tr.Sc.Plans) {
			continue // still on a connection with a fault
		}
		o.Notes["pipelines of the write limit measured"]++
		sort.Slice(recs, func(i, j int) bool { return recs[i].Idx < recs[j].Idx })
		for i, r := range recs {
			if recs[0].Start >= 0 && r.Seen > recs[0].Start {
				o.add(tag, "of %d commands (write limit %d, batch %d) only %d were sent before the first reply", n, tr.WriteLimit(), tr.MaxBatch(), i)
				break
			}
		}
	}
}

// preface adds a worker whose commands fail on a first connection before
// everything else begins.
func preface(t *rapid.T, sc *sim.Scenario, k *keyGen, most int) {
	sc.Clean = false
	for i := range sc.Workers {
		sc.Workers[i].Start += sec
	}
	sc.Workers = append(sc.Workers, sim.Worker{Pipes: []sim.Pipe{{Ops: []sim.Op{genRepCmd(t, k, between(t, "nbefore", 1, most))}}}})
	var p sim.ConnPlan
	p.Net.ReadFault, p.Net.ReadCut = pick(t, "beforefault", fakenet.FaultEOF, fakenet.FaultReset), between(t, "beforecut", 0, 1)
	sc.Plans = []sim.ConnPlan{p}
	sc.Phase += "+"
}

func prefaced(sc *sim.Scenario) bool { return strings.HasSuffix(sc.Phase, "+") }

// ---------------------------------------------------------------- C15

func genStarve(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true, Cfg: sim.Config{Conns: 1, Health: 36000 * sec}}
	sc.Cfg.WriteLimit = between(t, "limit", 1, 20)
	sc.Cfg.MaxBatch = between(t, "mb", 1, sc.Cfg.WriteLimit)
	w, b := sc.Cfg.WriteLimit, sc.Cfg.MaxBatch
	k := &keyGen{}
	nl := between(t, "nlarge", 1, 3)
	n := (2*w + 8*b) * between(t, "mult", 4, 12)
	n = min(n, 1500)
	for i := 0; i < nl; i++ {
		op := genRepCmd(t, k, n+between(t, "extra", 0, b))
		op.Value.Len, op.Reply.Value.Len = min(op.Value.Len, 10), min(op.Reply.Value.Len, 10)
		sc.Workers = append(sc.Workers, sim.Worker{Start: int64(between(t, "lstart", 0, 5)) * 100 * us, Pipes: []sim.Pipe{{Ops: []sim.Op{op, {K: "exec"}}}}})
	}
	per := int64(pick(t, "per", 10*us, 100*us)) // time per reply segment
	burst := pick(t, "burst", 1, 2, 5)
	total := per * int64(n*nl/burst)
	sc.Default.Pace = []sim.Pace{{Delay: per, Max: burst}}
	for i := between(t, "nsmall", 1, 4); i > 0; i-- {
		op := genRepCmd(t, k, between(t, "smalln", 1, b))
		wk := sim.Worker{Start: total * int64(between(t, "sstart", 1, 80)) / 100}
		wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{op, {K: "exec"}}})
		if chance(t, "twice", 40) {
			op2 := genRepCmd(t, k, between(t, "smalln", 1, b))
			wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{op2, {K: "exec"}}})
		}
		sc.Workers = append(sc.Workers, wk)
	}
	sc.Phase = string(rune('0' + nl))
	sc.Sched = genSched(t)
	if chance(t, "before", 20) {
		preface(t, sc, k, 3*w)
	}
	return sc
}

func runStarve(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	o.Trivial = true
	w, b := tr.WriteLimit(), tr.MaxBatch()
	nl := int(sc.Phase[0] - '0')
	nw := len(sc.Workers)
	if prefaced(sc) {
		nw--
		o.class("after a failure", true)
	}
	bound := 2*w + (3+nw-nl)*b
	// the large pipelines' arrivals by stamp
	large := make([][]uint64, nl)
	pushed := make([]uint64, nl)
	type small struct {
		push, arrive uint64
		c            *sim.Cmd
	}
	smalls := map[[2]int]*small{}
	for _, c := range tr.Cmds {
		r := tr.Matched(c)
		if r == nil || c.W >= nw {
			continue
		}
		if c.W < nl {
			large[c.W] = append(large[c.W], r.Stamp)
			pushed[c.W] = c.FlushEnd
			continue
		}
		k := [2]int{c.W, c.P}
		if s := smalls[k]; s == nil || r.Stamp > s.arrive {
			smalls[k] = &small{c.FlushEnd, r.Stamp, c}
		}
	}
	for i := range large {
		sort.Slice(large[i], func(a, b int) bool { return large[i][a] < large[i][b] })
	}
	for _, s := range smalls {
		between, after := 0, 0
		for i := range large {
			for _, st := range large[i] {
				if st > s.push {
					after++
					if st < s.arrive {
						between++
					}
				}
			}
		}
		if after > 3*bound {
			o.Trivial = false
		}
		o.Notes["small pipelines measured"]++
		if between > bound {
			o.add("starve", "%d commands of the large pipelines were sent between the flush of %s and its arrival (write limit %d, batch %d, bound %d)", between, s.c, w, b, bound)
		}
	}
	// turns: from the time both are flushed until one is completely sent
	for i := 0; i < nl; i++ {
		for j := i + 1; j < nl; j++ {
			from := max(pushed[i], pushed[j])
			ni, nj := 0, 0
			a, c := 0, 0
			for a < len(large[i]) && large[i][a] < from {
				a++
			}
			for c < len(large[j]) && large[j][c] < from {
				c++
			}
			lead := 0
			for a < len(large[i]) && c < len(large[j]) {
				if large[i][a] < large[j][c] {
					ni++
					a++
				} else {
					nj++
					c++
				}
				lead = max(lead, ni-nj, nj-ni)
			}
			o.Notes["pairs of large pipelines measured"]++
			if tb := 2*w + (4+nw)*b; lead > tb {
				o.add("turn", "one of two large pipelines was %d commands ahead of the other (write limit %d, batch %d, bound %d)", lead, w, b, tb)
			}
		}
	}
	return o
}

// ---------------------------------------------------------------- C16

func genCrowd(t *rapid.T) *sim.Scenario {
	if rarely(t, "marathon", 1500) {
		return genMarathon(t)
	}
	if rarely(t, "abandoned", 100) {
		return genAbandoned(t)
	}
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 1, 2)
	sc.Cfg.MaxBatch = pick(t, "mb", 1, 1, 1, 2, 3, 50)
	sc.Cfg.WriteLimit = pick(t, "wl", 5000, 1, 2, 100, 129, 256, 300, 385, 512, 1000)
	// batches that need nearly all of the write limit
	tight := chance(t, "tight", 25)
	if tight {
		sc.Cfg.WriteLimit = between(t, "wlt", 2, 150)
		sc.Cfg.MaxBatch = max(1, sc.Cfg.WriteLimit-pick(t, "wlless", 0, 0, 1, 5, sc.Cfg.WriteLimit/2))
	}
	sc.Cfg.Retry = int64(pick(t, "retry", ms, 100*ms, sec))
	sc.Cfg.ReadTimeout = int64(pick(t, "rto", 20*ms, 0))
	sc.Cfg.WriteTimeout = int64(pick(t, "wto", 20*ms, 0))
	if chance(t, "health", 30) {
		sc.Cfg.Health = int64(pick(t, "healthd", 5*ms, 100*ms, sec))
	}
	k := &keyGen{}
	nw := between(t, "nworkers", 1, 8)
	left := 1800
	small := chance(t, "small", 45) // many small pipelines at moments close to each other
	if small {
		for i := 0; i < min(nw, 4); i++ {
			w := sim.Worker{Start: int64(pick(t, "ws", 0, 0, 10*us))}
			for j := between(t, "nsmall", 4, 40); j > 0; j-- {
				var p sim.Pipe
				for x := between(t, "nsmallops", 1, 3); x > 0; x-- {
					p.Ops = append(p.Ops, genCmd(t, k, &valueBudget{left: 30}, 30, false, false))
				}
				if d := pick(t, "smallpause", 0, 0, 1, 1000, 20*us); d > 0 {
					p.Ops = append(p.Ops, sim.Op{K: "sleep", Arg: int64(d)})
				}
				w.Pipes = append(w.Pipes, p)
			}
			sc.Workers = append(sc.Workers, w)
		}
		nw = 0
	}
	for i := 0; i < nw; i++ {
		w := sim.Worker{Start: int64(pick(t, "ws", 0, 0, 10*us, 5*ms, 30*ms))}
		for j := between(t, "npipes", 1, 3); j > 0 && left > 0; j-- {
			var p sim.Pipe
			n := pick(t, "n", 1, 10, 100, 128, 129, 256, 257, 384, 385, 386, 400, 513, 700)
			if tight {
				n = between(t, "nt", 1, 2*sc.Cfg.WriteLimit)
				if rapid.Bool().Draw(t, "ntsmall") {
					n = between(t, "nts", 1, 8)
				}
			}
			n = min(n, left)
			left -= n
			op := genRepCmd(t, k, n)
			op.Value.Len = min(op.Value.Len, 30)
			op.Reply.Value.Len = min(op.Reply.Value.Len, 30)
			p.Ops = append(p.Ops, op)
			if chance(t, "more", 30) {
				p.Ops = append(p.Ops, sim.Op{K: "exec"}, genRepCmd(t, k, between(t, "n2", 1, 20)))
			}
			w.Pipes = append(w.Pipes, p)
		}
		if len(w.Pipes) > 0 {
			sc.Workers = append(sc.Workers, w)
		}
	}
	if chance(t, "ce", 20) {
		v := &valueBudget{left: 100}
		sc.Workers[0].Pipes[0].Ops = append(sc.Workers[0].Pipes[0].Ops, genCmd(t, k, v, 64, false, false))
		addClientErrors(t, sc.Workers, 50, v)
	}
	cmds, bytes := countCmds(sc.Workers)
	for i := between(t, "nplans", 0, 3); i > 0; i-- {
		p := genCleanPlan(t, bytes)
		boundPace(p.Pace, cmds)
		if chance(t, "hold", 60) {
			p.Hold = pick(t, "holdn", 10, 128, 256, 300, 384, 385, 500, cmds, cmds+5)
		}
		if chance(t, "cut", 60) {
			genFault(t, &p.Net, bytes, true, sc.Cfg)
		}
		if chance(t, "window", 30) {
			p.Net.Window = pick(t, "windowx", 1, 50, 2000)
			p.Net.Window = max(p.Net.Window, bytes/20000)
		}
		if chance(t, "slowrecv", 20) {
			p.RecvMax = max(100, bytes/3000)
			p.RecvDelay = int64(pick(t, "recvdelay", 1, us, 100*us))
		}
		sc.Plans = append(sc.Plans, p)
	}
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	for i := between(t, "nevents", 0, 3); i > 0; i-- {
		sc.Events = append(sc.Events, sim.Event{At: int64(pick(t, "evat", 1, 10*us, ms, 6*ms, 25*ms)) + int64(between(t, "evplus", 0, 20*us)), Kind: pick(t, "ev", "killall", "eofall", "killall", "close")})
	}
	sc.Sched = genSched(t)
	if small {
		sc.Phase = "small"
		if chance(t, "dialfails", 40) {
			for i := between(t, "ndials", 1, 6); i > 0; i-- {
				sc.Dials = append(sc.Dials, sim.DialPlan{Fail: chance(t, "dfail", 65), Delay: int64(pick(t, "ddelay", 0, 0, 1, 100*us, ms))})
			}
		}
		if chance(t, "syncs", 60) {
			sc.Sched = genSyncSched(t)
		}
	}
	genOddErrors(t, sc)
	return sc
}

// ---------------------------------------------------------------- C17

func genTogether(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true, Cfg: genConfig(t)}
	sc.Cfg.Conns = 1
	sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = 100*sec, 100*sec
	if sc.Cfg.WriteLimit == 0 || chance(t, "wl", 60) {
		sc.Cfg.WriteLimit = pick(t, "wlx", 0, 1, 5, 50, 500, 1000, 3000)
	}
	limit := sc.Cfg.WriteLimit
	if limit == 0 {
		limit = 500
	}
	mb := sc.Cfg.MaxBatch
	if mb == 0 {
		mb = 100
	}
	if mb > limit {
		mb = between(t, "mb2", 1, limit)
		sc.Cfg.MaxBatch = mb
	}
	k := &keyGen{}
	sc.Sched = genSched(t)
	slack := totalSlack(sc.Sched)
	step := 10*slack + 10*ms
	maxCmds := min(limit, 256*mb)
	sc.Phase = pick(t, "phase", "one", "one", "queue")
	fill := func(n int) sim.Pipe {
		var p sim.Pipe
		for n > 0 {
			m := n
			if chance(t, "part", 50) {
				m = between(t, "partn", 1, n)
			}
			op := genRepCmd(t, k, m)
			if m < 6 && chance(t, "big", 20) {
				op.Value.Len = pick(t, "biglen", 1000, 5000, 17000)
			}
			p.Ops = append(p.Ops, op)
			n -= m
		}
		return p
	}
	amount := func(hi int) int {
		if chance(t, "all", 40) {
			return hi
		}
		return between(t, "amount", 1, hi)
	}
	if sc.Phase == "one" {
		var w sim.Worker
		np := between(t, "np", 1, 3)
		for i := 0; i < np; i++ {
			p := fill(amount(maxCmds))
			p.Ops = append([]sim.Op{{K: "sleep", Arg: 2 * step}}, p.Ops...)
			w.Pipes = append(w.Pipes, p)
		}
		sc.Workers = []sim.Worker{w}
		sc.Default.Pace = []sim.Pace{{Delay: step}}
	} else {
		left, nb := limit, 100
		n := min(amount(min(max(1, limit/2), 20)), limit)
		sc.Workers = append(sc.Workers, sim.Worker{Start: step, Pipes: []sim.Pipe{fill(n)}})
		left -= n
		nb -= batches(n, mb)
		for i := between(t, "nq", 1, 6); i > 0 && left > 0 && nb > 0; i-- {
			m := min(amount(left), nb*mb)
			left -= m
			nb -= batches(m, mb)
			sc.Workers = append(sc.Workers, sim.Worker{Start: step + 2*slack + int64(between(t, "qat", 0, 1000))*(step/4000), Pipes: []sim.Pipe{fill(m)}})
		}
		sc.Default.Net.WriteDelay = step
		// the first reply comes after all writes, however small the buffer is
		sc.Default.Pace = []sim.Pace{{Delay: int64(20+3*(limit-left)) * step}}
		sc.Cfg.ReadTimeout = 100 * sc.Default.Pace[0].Delay
	}
	if chance(t, "bufbig", 60) {
		sc.Cfg.BufSize = pick(t, "bufb", 4096, 65536, 1<<20, 0)
	}
	if chance(t, "before", 25) {
		preface(t, sc, k, min(maxCmds, 50))
	}
	return sc
}

func runTogether(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	buf := sc.Cfg.BufSize
	if buf == 0 {
		buf = 16384
	}
	mb := tr.MaxBatch()
	pre, id := len(sc.Workers), 0 // the worker whose commands came before, the connection that is measured
	if prefaced(sc) {
		pre, id = pre-1, 1
		o.class("after a failure", true)
		if len(tr.Conns) < 2 {
			return o // reported elsewhere
		}
	}
	phase := strings.TrimSuffix(sc.Phase, "+")
	conn := tr.Conns[id]
	size := func(c *sim.Cmd) int { return c.Want().Len() }
	o.Trivial = true
	type group struct {
		cmds           []*sim.Cmd
		bytes, batches int
	}
	groups := map[int]*group{}
	perPipe := map[[2]int]int{}
	// where each request is in the stream to the server
	span := map[*sim.Rec][2]int{}
	recs := slices.DeleteFunc(append([]*sim.Rec(nil), tr.Recs...), func(r *sim.Rec) bool { return r.Conn != id })
	sort.Slice(recs, func(i, j int) bool { return recs[i].Idx < recs[j].Idx })
	pos := 0
	for _, r := range recs {
		n := r.Req.Len()
		span[r] = [2]int{pos, pos + n}
		pos += n
	}
	for _, c := range tr.Cmds {
		if c.W == pre {
			continue
		}
		g := 0
		if phase == "one" {
			g = c.P
		} else if c.W > 0 {
			g = 1
		}
		if groups[g] == nil {
			groups[g] = &group{}
		}
		groups[g].cmds = append(groups[g].cmds, c)
		groups[g].bytes += size(c)
		perPipe[[2]int{c.W, c.P}]++
	}
	for g, gr := range groups {
		for pp, n := range perPipe {
			if phase == "one" && pp[1] == g || phase == "queue" && (pp[0] > 0) == (g == 1) {
				gr.batches += batches(n, mb)
			}
		}
		var first *sim.Rec
		for _, c := range gr.cmds {
			r := tr.Matched(c)
			if r == nil || r.Conn != id {
				return o // reported elsewhere
			}
			if first == nil || r.Idx < first.Idx {
				first = r
			}
		}
		early := 0
		for _, c := range gr.cmds {
			r := tr.Matched(c)
			if first.Start < 0 || r.Seen <= first.Start {
				early++
			}
		}
		o.Notes["commands measured"] += len(gr.cmds)
		if early < len(gr.cmds) {
			o.add("pipelined", "only %d of %d commands were sent before the first reply (write limit %d, batch %d)", early, len(gr.cmds), tr.WriteLimit(), mb)
		}
		// the network writes that carry the bytes of the group
		lo, hi := -1, 0
		for _, c := range gr.cmds {
			sp := span[tr.Matched(c)]
			if lo < 0 || sp[0] < lo {
				lo = sp[0]
			}
			hi = max(hi, sp[1])
		}
		writes, off := 0, 0
		for _, w := range conn.Writes {
			if w.N > 0 && off < hi && off+w.N > lo {
				writes++
			}
			off += w.N
		}
		if gr.bytes <= buf && gr.batches <= 128 && writes != 1 {
			o.add("writes", "%d commands of %d bytes in %d batches took %d writes (buffer %d)", len(gr.cmds), gr.bytes, gr.batches, writes, buf)
		}
		if gr.bytes <= buf && gr.batches <= 128 {
			o.Notes["single writes measured"]++
		}
		if len(gr.cmds) > 1 && (gr.batches > 1 || len(perPipe) > 1) {
			o.Trivial = false
		}
	}
	return o
}

var _ = mc.Reply{}
