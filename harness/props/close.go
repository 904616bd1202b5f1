package props

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/sim"
)

func init() {
	register("C13", 1400, "leak close err conn late drop once order attr lost",
		"Close at a generated moment (also several times and concurrently) while pipelines of any length are flushed before, during and after it, with slow, failing, stalled and unreachable servers, huge retry and health-check intervals, slow dials and probes in progress; what Close and every call took is compared with what the server did. Non-trivial: commands were outstanding or a connection was down when Close was called, or commands were flushed after it",
		genClose, runClose)
}

func genClose(t *rapid.T) *sim.Scenario {
	var sc *sim.Scenario
	phase := pick(t, "phase", "drain", "drain", "fault", "down", "drain", "fault")
	sh := Shape{Workers: 4, Pipes: 3, Ops: 8, Reps: true, ServerErrors: true, Control: 35, Own: chance(t, "own", 25), Values: 1 << 16}
	spanAll := int64(0)
	switch phase {
	case "drain":
		sc = genClean(t, sh)
		cmds, _ := countCmds(sc.Workers)
		for i := range sc.Default.Pace {
			if cmds < 2000 && chance(t, "slowpace", 60) {
				sc.Default.Pace[i].Delay = int64(pick(t, "slow", 100*us, ms, 10*ms, 200*ms))
			}
		}
		if chance(t, "hold", 20) {
			sc.Default.Pace = append(sc.Default.Pace, sim.Pace{Delay: int64(pick(t, "long", 300*ms, 800*ms))})
		}
		spanAll = 20 * ms
	case "fault":
		sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true, DialFails: true, Events: true})
		spanAll = 3 * sec
	case "down":
		sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 20, Timeouts: true})
		sc.Events = []sim.Event{{At: int64(pick(t, "downat", 1, ms, 100*ms)), Kind: "down"}, {At: int64(pick(t, "killat", 2*ms, 150*ms)), Kind: "killall"}}
		if chance(t, "back", 20) {
			sc.Events = append(sc.Events, sim.Event{At: int64(pick(t, "upat", 200*ms, sec, 40*sec)), Kind: "up"})
		}
		for i := between(t, "slowdials", 0, 6); i > 0; i-- {
			sc.Dials = append(sc.Dials, sim.DialPlan{Delay: int64(pick(t, "dd", 0, 0, ms, 500*ms, 3*sec)), Fail: chance(t, "df", 30)})
		}
		spanAll = 4 * sec
	}
	sc.Phase = phase
	sc.Cfg.Retry = int64(pick(t, "retry", 900*sec, 50000*sec, 0, ms, 100*ms))
	sc.Cfg.Health = int64(pick(t, "health", 3600*sec, 86400*sec, 900*sec, 0, 20*ms, 300*ms))
	if phase == "drain" {
		// probes must not change the number of requests that are expected
		if sc.Cfg.Health < 900*sec {
			sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = 60*sec, 60*sec
		}
		sc.Cfg.ReadTimeout = 60 * sec
	}
	// the workers go on for a while
	spread(t, sc.Workers, 20*us, ms, 30*ms, spanAll/2)
	at := func() int64 {
		switch weighted(t, "closeform", 2, 2, 1) {
		case 0:
			return int64(between(t, "closeus", 1, 300)) * us / 3
		case 1:
			return spanAll * int64(between(t, "closefrac", 0, 1000)) / 1000
		}
		return int64(pick(t, "closeat", 1, ms, 30*ms, sec, 20*sec))
	}
	if chance(t, "early", 85) {
		first := at()
		sc.Events = append(sc.Events, sim.Event{At: first, Kind: "close"})
		for i := weighted(t, "more", 4, 2, 1); i > 0; i-- {
			a := at()
			if chance(t, "same", 40) {
				a = first + int64(between(t, "delta", 0, 20))
			}
			sc.Events = append(sc.Events, sim.Event{At: a, Kind: "close"})
		}
		// and some commands come after that
		k := &keyGen{n: 10000}
		for i := between(t, "afters", 0, 2); i > 0; i-- {
			w := sim.Worker{Start: first + int64(pick(t, "after", 0, 1, 10*us, sec, 100*sec))}
			p := sim.Pipe{Ops: []sim.Op{genRepCmd(t, k, between(t, "nafter", 1, 3*max(1, min(sc.Cfg.MaxBatch, 100))+1))}}
			if chance(t, "exec", 30) {
				p.Ops = append(p.Ops, sim.Op{K: "exec"}, genCmd(t, k, &valueBudget{left: 50}, 64, false, false))
			}
			w.Pipes = append(w.Pipes, p, sim.Pipe{Ops: []sim.Op{genCmd(t, k, &valueBudget{left: 50}, 64, false, false)}})
			sc.Workers = append(sc.Workers, w)
		}
	}
	sc.Closes = weighted(t, "closes", 3, 1, 1)
	return sc
}

func runClose(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	slack, n := tr.Slack(), tr.NConns()
	// how long things may take without any visible progress
	bound := slack
	if sc.Phase != "drain" {
		bound += time.Duration(n+2) * 2 * max(tr.ReadTimeout(), tr.WriteTimeout())
	}
	// when the network last moved before the moment
	progress := func(limit time.Time) time.Time {
		last := tr.Began
		see := func(at time.Time) {
			if at.After(last) && !at.After(limit) {
				last = at
			}
		}
		for _, c := range tr.Conns {
			for _, d := range c.Delivered {
				see(d.At)
			}
			for _, w := range c.Writes {
				see(w.At)
			}
			if c.Failed() {
				see(c.FailedAt)
			}
		}
		for _, d := range tr.Dials {
			see(d.EndAt)
		}
		return last
	}
	for i, c := range tr.CloseCalls {
		from := c.At
		if p := progress(c.End); p.After(from) {
			from = p
		}
		if d := c.End.Sub(from); d > bound {
			o.add("late", "Close %d called at %v returned at %v, %v after the last event on the network (bound %v; retry %v, health check %v)", i, c.At.Sub(tr.Began), c.End.Sub(tr.Began), d, bound, tr.Retry(), tr.Health())
		}
	}
	for i, cl := range tr.CloseCalls {
		for _, c := range tr.Conns {
			if !c.Closed() || c.ClosedAt.After(cl.End) {
				o.add("leak", "connection %d is open when Close %d returns", c.ID, i)
			}
		}
		for k, d := range tr.Dials {
			if d.At.After(cl.End) || d.EndAt.After(cl.End) {
				o.add("leak", "dial %d at %v..%v, Close %d had returned at %v", k, d.At.Sub(tr.Began), d.EndAt.Sub(tr.Began), i, cl.End.Sub(tr.Began))
			}
		}
	}
	// a dial while closing needs a connection that failed then
	budget, extra := 0, 0
	for i, d := range tr.Dials {
		if i < n && d.Err != nil {
			budget++ // noticed when first used
		}
	}
	for _, c := range tr.Conns {
		at := c.ClosedAt
		if c.Failed() && c.FailedAt.Before(at) {
			at = c.FailedAt
		}
		if at.Add(slack + tr.WriteTimeout()).After(tr.CloseAt) {
			budget++
		}
	}
	for i, d := range tr.Dials {
		if i < n || !d.At.After(tr.CloseAt) {
			continue
		}
		due := false
		for _, e := range tr.Dials[:i] {
			at := e.EndAt.Add(tr.Retry())
			due = due || e.Err != nil && !at.After(d.At) && at.Add(slack).After(d.At)
		}
		if !due {
			extra++
		}
	}
	if extra > budget {
		o.add("close", "%d dials after Close was called, %d connections failed then", extra, budget)
	}
	if sc.Phase == "drain" && len(tr.Dials) != n {
		o.add("conn", "%d dials for %d connections that work", len(tr.Dials), n)
	}
	after := 0
	for _, c := range tr.Calls {
		switch {
		case c.PostClose && c.Dur > slack:
			o.add("late", "%s took %v after Close", c.What, c.Dur)
		case !c.PreClose:
			end := c.At.Add(c.Dur)
			if c.At.Before(tr.CloseEnd) && end.After(tr.CloseEnd.Add(slack)) {
				o.add("close", "%s still waited %v after Close had returned", c.What, end.Sub(tr.CloseEnd))
			}
			from := c.At
			if p := progress(end); p.After(from) {
				from = p
			}
			if d := end.Sub(from); d > bound {
				o.add("late", "%s during Close took %v, %v after the last event on the network", c.What, c.Dur, d)
			}
		}
	}
	pre, during := 0, 0
	for _, c := range tr.Cmds {
		if !c.Flushed() || !c.Issued {
			continue
		}
		switch {
		case c.PostClose:
			after++
			if c.Returned && c.Err == nil {
				o.add("close", "%s was flushed after Close and did not fail", c)
			}
		case c.PreClose && !c.DoneTime.Before(tr.CloseAt):
			pre++
		case !c.PreClose:
			during++
		}
	}
	down := false
	for _, c := range tr.Conns {
		if c.Failed() && c.FailedAt.Before(tr.CloseAt) {
			down = true
		}
	}
	o.Notes["flushed before, completed after the call of Close"] = pre
	o.Notes["flushed while closing or just before"] = during
	o.Notes["flushed after Close"] = after
	o.class("commands outstanding at Close", pre > 0)
	o.class("commands flushed while closing", during > 0)
	o.class("commands flushed after Close", after > 0)
	o.class("several Close calls", len(tr.CloseCalls) > 1)
	o.class("phase "+sc.Phase, true)
	o.Trivial = pre+during+after == 0 && !down
	return o
}
