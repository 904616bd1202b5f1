package props

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"pgregory.net/rapid"

	"verif/mc"
	"verif/sim"
)

func (o *Outcome) add(tag, format string, a ...any) {
	if len(o.Findings) < 40 {
		o.Findings = append(o.Findings, sim.Finding{Tag: tag, Msg: fmt.Sprintf(format, a...)})
	}
}

func init() {
	register("C09", 850, "attr err once order wire lost drop keep",
		"scenarios in which connections fail at a chosen byte of either direction (EOF, reset, write error, stall) or at a chosen time, with several connections, pipelines and schedules; a result without error must be the complete reply of the server to that command, an error needs a failure of that command's connection. Non-trivial: a connection failed and a command on it was in flight or answered",
		func(t *rapid.T) *sim.Scenario {
			return genFaulty(t, FaultShape{Shape: Shape{Workers: 4, Pipes: 3, Ops: 10, Reps: true, Unkeyed: chance(t, "unkeyed", 30), ServerErrors: true, Control: 20, Own: chance(t, "own", 30), Values: 1 << 18},
				Cuts: 75, Stalls: true, Timeouts: true, DialFails: true, Events: true})
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			o.Trivial = !failures(&o) || len(tr.Recs) == 0
			half := 0
			for _, r := range tr.Recs {
				if n := tr.Conns[r.Conn].NRead(); r.Start >= 0 && r.Start < n && r.End > n {
					half++
				}
			}
			o.class("a reply was cut in two", half > 0)
			o.class("stall", timedOut(tr))
			return o
		})

	register("C10", 1400, "stale wire once order",
		"connections that leave junk behind (several replies for one, half a reply, half a value, replies to commands whose write failed) and then fail, followed by clean ones; the commands sent on the clean connections must get exactly their own replies. Non-trivial: a dropped connection had delivered more bytes than the replies its commands consumed, or ended inside a reply, and a command was answered on a later connection",
		func(t *rapid.T) *sim.Scenario { return genPoison(t, false) },
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			if tr.Hang != "" || tr.NewErr != nil {
				return o
			}
			judgeFresh(tr, &o, len(sc.Plans))
			for _, c := range tr.WronglyDropped() {
				if c.ID >= len(sc.Plans) {
					o.add("stale", "the fresh connection %d was dropped although nothing was wrong with it", c.ID)
				}
			}
			junk, after := 0, 0
			for _, c := range tr.Conns[:min(len(tr.Conns), len(sc.Plans))] {
				if c.NRead() > 0 && (c.Failed() || c.Closed()) {
					junk++
				}
			}
			for _, r := range tr.Recs {
				if r.Conn >= len(sc.Plans) && r.End >= 0 {
					after++
				}
			}
			o.Notes["poisoned connections"] = junk
			o.Notes["replies on fresh connections"] = after
			o.Trivial = junk == 0 || after == 0
			return o
		})

	register("C11", 6000, "dial cadence prompt err once attr",
		"servers that go down and come back, dials that fail or are slow, from the start or later, with commands at many moments; the times of all dials are compared with the rule (at once after the failure was noticed, then once per retry interval). Non-trivial: at least one redial was due",
		genDown, runDown)
}

func timedOut(tr *sim.Trace) bool {
	for _, c := range tr.Conns {
		if c.Failed() && c.FailErr != nil && c.FailErr.Error() == "i/o timeout" {
			return true
		}
	}
	return false
}

// judgeFresh compares the results of the commands sent on connections from
// number first on with what the server sent to them there.
func judgeFresh(tr *sim.Trace, o *Outcome, first int) {
	for _, c := range tr.Cmds {
		r := tr.Matched(c)
		if r == nil || r.Conn < first || !c.Returned || !c.Keyed() {
			continue
		}
		x := tr.Conns[r.Conn]
		if r.End >= 0 && r.End <= x.NRead() && c.DecodeMismatch(r.Reply) == "" {
			continue
		}
		if c.Err != nil && !memcache.IsServerError(c.Err) {
			at, ok := tr.GoneAt(x)
			if !ok || at.After(c.DoneTime.Add(tr.Slack())) {
				o.add("stale", "%s failed with %v on the fresh connection %d", c, c.Err, r.Conn)
			}
			continue
		}
		o.add("stale", "%s on the fresh connection %d: %s (reply at %d..%d of %d bytes)", c, r.Conn, c.DecodeMismatch(r.Reply), r.Start, r.End, x.NRead())
	}
}

// genPoison draws scenarios whose first connections leave junk behind; own adds
// larger values, which are held and released.
func genPoison(t *rapid.T, own bool) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 2)
	sc.Cfg.Retry = int64(pick(t, "retry", ms, 100*ms, sec))
	sc.Cfg.ReadTimeout = int64(pick(t, "rto", 50*ms, 300*ms, 0))
	k, v := &keyGen{}, &valueBudget{left: 1 << 16}
	sc.Workers = genWorkers(t, Shape{Workers: 3, Pipes: 5, Ops: 8, Reps: chance(t, "reps", 20), Control: 15, Values: 1 << 16}, k, v, sc.Cfg)
	if own {
		sc.Workers = genWorkers(t, Shape{Workers: 3, Pipes: 5, Ops: 10, Control: 30, Own: true, Values: 1 << 16}, k, v, sc.Cfg)
	}
	if chance(t, "ce", 30) {
		addClientErrors(t, sc.Workers, 5, v)
	}
	spread(t, sc.Workers, 1, 20*us, 2*ms, 150*ms, 400*ms)
	cmds, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	n := between(t, "npoison", 1, 3)
	for i := 0; i < n; i++ {
		p := genCleanPlan(t, bytes)
		boundPace(p.Pace, cmds)
		if chance(t, "hold", 30) {
			p.Hold = between(t, "holdn", 1, 20)
		}
		m := between(t, "nscript", 1, 12)
		for j := 0; j < m; j++ {
			p.Script = append(p.Script, mc.Reply{Code: "RAW", Raw: genJunk(t, v, own), Msg: "lenient"})
		}
		p.ScriptEnd = pick(t, "end", "reset", "eof", "stall", "reset")
		switch weighted(t, "cutalso", 3, 1, 1) {
		case 1:
			genFault(t, &p.Net, min(bytes, 2000), true, sc.Cfg)
		case 2: // writes fail while replies are still being read
			p.Net.WriteFault = "reset"
			p.Net.WriteCut = between(t, "wcut", 20, 400)
		}
		sc.Plans = append(sc.Plans, p)
	}
	sc.Sched = genSched(t)
	genOddErrors(t, sc)
	return sc
}

// genJunk draws a reply with something behind it, or the first part of one.
func genJunk(t *rapid.T, v *valueBudget, large bool) []byte {
	one := func() []byte {
		if large {
			return genReplyTo(t, pick(t, "jverb", "mg", "ms", "md", "mg"), &valueBudget{left: 600}, 600, 0).Encode()
		}
		return genReplyTo(t, pick(t, "jverb", "mg", "ms", "md", "mg"), &valueBudget{left: 60}, 64, 0).Encode()
	}
	b := one()
	switch weighted(t, "junk", 3, 5, 2, 1) {
	case 1:
		for n := between(t, "extra", 1, 6); n > 0; n-- {
			b = append(b, one()...)
		}
	case 2:
		x := one()
		b = append(b, x[:between(t, "part", 0, len(x))]...)
	case 3:
		b = b[:between(t, "short", 0, len(b))]
	}
	return b
}

// ---------------------------------------------------------------- C11

func genDown(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Conns = pick(t, "conns", 1, 1, 2, 3)
	sc.Cfg.Retry = int64(pick(t, "retry", 20*ms, 300*ms, sec, 3*sec, 0))
	sc.Cfg.ReadTimeout = int64(pick(t, "rto", 50*ms, 0))
	if chance(t, "health", 40) {
		sc.Cfg.Health = int64(pick(t, "healthd", 500*ms, 3*sec, 0))
	}
	r := sc.Cfg.Retry
	if r == 0 {
		r = 10 * sec
	}
	k, v := &keyGen{}, &valueBudget{left: 1 << 12}
	nw := between(t, "nworkers", 1, 3)
	storm := chance(t, "storm", 35) // connections that fail as soon as they are there, under a stream of commands
	for i := 0; i < nw; i++ {
		var w sim.Worker
		np := between(t, "npipes", 2, 10)
		if storm {
			np = between(t, "nmany", 10, 40)
		}
		for j := 0; j < np; j++ {
			p := sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: int64(between(t, "pausex", 1, 1000)) * (r / 400)}}}
			if storm {
				p.Ops[0].Arg = int64(pick(t, "stormpause", 1, 1, 1000, 20*us, 20*us, 300*us))
			}
			n := between(t, "nops", 1, 4)
			for x := 0; x < n; x++ {
				p.Ops = append(p.Ops, genCmd(t, k, v, 64, false, true))
			}
			w.Pipes = append(w.Pipes, p)
		}
		sc.Workers = append(sc.Workers, w)
	}
	cmds, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	for i := between(t, "nplans", 0, 4); i > 0; i-- {
		p := genCleanPlan(t, bytes)
		boundPace(p.Pace, cmds)
		if chance(t, "cut", 60) {
			genFault(t, &p.Net, 200, true, sc.Cfg)
		}
		sc.Plans = append(sc.Plans, p)
	}
	if storm {
		for i := between(t, "nstorm", 2, 25); i > 0; i-- {
			p := genCleanPlan(t, bytes)
			boundPace(p.Pace, cmds)
			genFault(t, &p.Net, 60, false, sc.Cfg)
			if p.Net.ReadFault != "" && chance(t, "atonce", 60) {
				p.Net.ReadCut = 0
			}
			sc.Plans = append(sc.Plans, p)
		}
	}
	for i := between(t, "ndials", 0, 10); i > 0; i-- {
		sc.Dials = append(sc.Dials, sim.DialPlan{
			Fail:  chance(t, "dfail", 55),
			Delay: pick(t, "ddelay", 0, 0, 0, 1, ms, r/3, r+r/5, 9*sec),
		})
	}
	if chance(t, "failfirst", 25) {
		for i := 0; i < sc.Cfg.Conns && i < len(sc.Dials); i++ {
			sc.Dials[i].Fail = true
		}
	}
	at := int64(0)
	for i := between(t, "nevents", 0, 3); i > 0; i-- {
		at += int64(between(t, "evat", 1, 1000)) * (r / 300)
		sc.Events = append(sc.Events, sim.Event{At: at, Kind: "down"}, sim.Event{At: at + 1, Kind: pick(t, "kill", "killall", "eofall")})
		at += int64(between(t, "evup", 1, 1000)) * (r / 300)
		sc.Events = append(sc.Events, sim.Event{At: at, Kind: "up"})
	}
	if chance(t, "long", 20) { // an outage of many retry intervals
		at += int64(between(t, "longat", 1, 1000)) * (r / 300)
		end := at + int64(between(t, "longfor", 1000, pick(t, "longest", 80000, 80000, 80000, 80000, 1000000)))*(r/1000)
		sc.Events = append(sc.Events, sim.Event{At: at, Kind: "down"}, sim.Event{At: at + 1, Kind: pick(t, "longkill", "killall", "eofall")}, sim.Event{At: end, Kind: "up"})
		var w sim.Worker
		last := int64(0)
		for _, f := range []int64{at + r/3, end - r/2, end + 2*r} {
			w.Pipes = append(w.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: max(1, f-last)}, genCmd(t, k, v, 64, false, true)}})
			last = f
		}
		sc.Workers = append(sc.Workers, w)
	}
	sc.Tail = pick(t, "tail", 0, r/2, 5*r)
	sc.Sched = genSched(t)
	if storm && chance(t, "syncs", 75) {
		sc.Sched = genSyncSched(t)
	}
	genOddErrors(t, sc)
	return sc
}

func runDown(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	slack := tr.Slack()
	R := tr.Retry()
	n := tr.NConns()
	// what makes a dial due, in order
	type due struct {
		at   time.Time
		why  string
		late time.Duration // how much later it may come
		opt  bool          // it need not come at all
		seen bool
	}
	var dues []due
	nearEnd := func(at time.Time) bool {
		return !tr.CloseAt.IsZero() && !at.Add(slack+time.Millisecond).Before(tr.CloseAt)
	}
	for _, c := range tr.Conns {
		at, ok := c.FailedAt, c.Failed()
		if c.Closed() && (!ok || c.ClosedAt.Before(at)) {
			at, ok = c.ClosedAt, true
		}
		if !ok || !tr.CloseAt.IsZero() && at.After(tr.CloseAt) {
			continue
		}
		// the client may be waiting for the other direction before it drops it
		late := time.Duration(0)
		if c.Closed() && c.ClosedAt.After(at) {
			late = c.ClosedAt.Sub(at)
			if late > tr.WriteTimeout()+slack {
				late = tr.WriteTimeout() + slack
			}
		}
		dues = append(dues, due{at: at, why: fmt.Sprintf("connection %d failed", c.ID), late: late, opt: nearEnd(at.Add(late))})
	}
	var lateInit []time.Time // initial dials that failed: due when first used or probed
	for i, d := range tr.Dials {
		if d.Err == nil {
			continue
		}
		if i < n {
			lateInit = append(lateInit, d.EndAt)
			continue
		}
		dues = append(dues, due{at: d.EndAt.Add(R), why: fmt.Sprintf("dial %d failed and the retry interval passed", i), opt: nearEnd(d.EndAt.Add(R))})
		if !tr.CloseAt.IsZero() && d.EndAt.Add(R).After(tr.CloseAt) {
			dues = dues[:len(dues)-1]
		}
	}
	redials := tr.Dials[min(n, len(tr.Dials)):]
	for i, d := range redials {
		if !tr.CloseAt.IsZero() && !d.At.Before(tr.CloseAt) { // not the business of this property
			redials = redials[:i]
			break
		}
	}
	sort.SliceStable(dues, func(i, j int) bool { return dues[i].at.Before(dues[j].at) })
	if len(tr.Dials) < n {
		o.add("cadence", "New made %d dials for %d connections", len(tr.Dials), n)
	}
	// every redial must have been due, each due dial must come
	used := make([]bool, len(dues))
	free := 0
	for i, d := range redials {
		best := -1
		for j := range dues {
			if used[j] || dues[j].at.After(d.At) || d.At.After(dues[j].at.Add(dues[j].late+slack)) {
				continue
			}
			if best < 0 || dues[j].at.Add(dues[j].late).Before(dues[best].at.Add(dues[best].late)) {
				best = j
			}
		}
		if best >= 0 {
			used[best] = true
			continue
		}
		free++
		if free > len(lateInit) {
			o.add("cadence", "dial %d at %v was not due (retry interval %v)", n+i, d.At.Sub(tr.Began), R)
		}
	}
	nopt := 0
	for j, d := range dues {
		if !used[j] && !d.opt {
			o.add("cadence", "%s at %v, but no dial followed within %v", d.why, d.at.Sub(tr.Began), d.late+slack)
		}
		if d.opt {
			nopt++
		}
	}
	// initial dials that failed are retried when the connection is used
	if n == 1 && len(lateInit) == 1 {
		var first time.Time
		for _, c := range tr.Cmds {
			if c.Flushed() && c.Valid() && (first.IsZero() || c.FlushTime.Before(first)) {
				first = c.FlushTime
			}
		}
		limit := first.Add(slack)
		if !first.IsZero() && !nearEnd(limit) {
			if len(redials) == 0 || redials[0].At.After(limit) {
				o.add("cadence", "the dial in New failed; the connection was used at %v but not dialled again at once", first.Sub(tr.Began))
			}
		}
	}
	if len(lateInit) > 0 && n > 1 && !tr.CloseAt.IsZero() {
		// by the health check at the latest
		h := tr.Health()
		made := tr.Began // by New
		for _, d := range tr.Dials[:min(n, len(tr.Dials))] {
			if d.EndAt.After(made) {
				made = d.EndAt
			}
		}
		limit := made.Add(2*h + time.Duration(n)*(tr.ReadTimeout()+tr.WriteTimeout())*2 + slack + 10*time.Second)
		if limit.Before(tr.CloseAt) && free < len(lateInit) {
			o.add("cadence", "%d of %d initial dials that failed were not repeated until %v", len(lateInit)-free, len(lateInit), tr.CloseAt.Sub(tr.Began))
		}
	}
	// while the only connection is down, commands fail promptly
	if n == 1 {
		type span struct{ a, b time.Time }
		var down []span
		var cur time.Time
		if len(lateInit) > 0 {
			cur = tr.Dials[0].EndAt
		}
		i := 0
		for id := 0; ; id++ {
			if !cur.IsZero() {
				end := tr.CloseAt
				if id < len(tr.Conns) {
					end = tr.Conns[id].OpenedAt
				}
				down = append(down, span{cur, end})
			}
			if id >= len(tr.Conns) {
				break
			}
			c := tr.Conns[id]
			at, ok := tr.DropAt(c)
			if !ok {
				break
			}
			if c.Closed() && c.ClosedAt.After(at) {
				at = c.ClosedAt
			}
			cur = at
			i++
		}
		nd := 0
		for _, c := range tr.Cmds {
			if !c.Flushed() || !c.Issued || !c.Returned {
				continue
			}
			for _, s := range down {
				// a command that is delayed until the next connection is up may have to wait for it
				if c.FlushTime.After(s.a.Add(slack)) && c.FlushTime.Add(slack).Before(s.b) {
					nd++
					if d := c.DoneTime.Sub(c.FlushTime); d > slack {
						o.add("prompt", "%s was flushed while the connection was down and took %v", c, d)
					}
				}
			}
		}
		o.Notes["commands while down"] = nd
	}
	o.Notes["redials"] = len(redials)
	o.class("a dial failed in New", len(lateInit) > 0)
	o.class("several connections", n > 1)
	o.Trivial = len(redials) == 0
	return o
}
