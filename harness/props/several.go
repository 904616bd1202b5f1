package props

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/sim"
)

func init() {
	register("C28", 700, "*",
		"two to four clients in one process, each with its own options, server, commands and fate (nothing goes wrong; at the write limit; idle; connections fail, also of several at the same moment; junk on dropped connections; closed at some moment; begun while or after the others ran), whose values are released, kept and overwritten; every client is judged by itself, against its own server; busy and idle ones are also compared with themselves alone (latencies, health checks). Non-trivial: at least two of the servers received at least 3 requests",
		genSeveral,
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			o.Findings = ownKind(sc.Phase, o.Findings)
			busy := 0
			if len(tr.Recs) >= 3 {
				busy++
			}
			kinds := map[string]bool{sc.Phase: true}
			sizes := map[int]bool{tr.MaxBatch(): true}
			for i, x := range tr.Others {
				for _, f := range ownKind(x.Sc.Phase, x.Check()) {
					o.add(f.Tag, "client %d: %s", i+2, f.Msg)
				}
				o.Notes["commands"] += len(x.Cmds)
				o.Notes["requests"] += len(x.Recs)
				if len(x.Recs) >= 3 {
					busy++
				}
				kinds[x.Sc.Phase] = true
				sizes[x.MaxBatch()] = true
			}
			if sc.Sched.Limit == 0 {
				interference(t, tr, &o)
			}
			o.Trivial = busy < 2
			o.Notes["clients"] = 1 + len(tr.Others)
			for k := range kinds {
				o.class("a client of the kind "+k, true)
			}
			o.class("different batch sizes", len(sizes) > 1)
			return o
		})
}

// ownKind keeps the findings that mean something for the kind of scenario.
func ownKind(kind string, fs sim.Findings) sim.Findings {
	if kind != "junk" {
		return fs
	}
	var out sim.Findings
	for _, f := range fs {
		switch f.Tag {
		case "attr", "limit", "err", "lost", "drop": // replies are not given one for one
		default:
			out = append(out, f)
		}
	}
	return out
}

// interference compares each client with itself when it is alone.
func interference(t *testing.T, tr *sim.Trace, o *Outcome) {
	for i, x := range append([]*sim.Trace{tr}, tr.Others...) {
		if x.Sc.Phase != "tight" && x.Sc.Phase != "idle" {
			continue
		}
		sc := *x.Sc
		sc.Others, sc.Begin = nil, 0
		alone := sim.Run(t, &sc)
		if alone.Hang != "" {
			continue // not because of others
		}
		o.class("compared with itself alone", true)
		var pace time.Duration
		for _, p := range sc.Default.Pace {
			pace = max(pace, time.Duration(p.Delay))
		}
		a, b := slowest(alone), slowest(x)
		if b > 2*a+10*pace+time.Millisecond {
			o.add("slow", "client %d: a command takes %v next to other clients, at most %v when it is alone", i+1, b, a)
		}
		n, m := probes(alone), probes(x)
		if d := n - m; x.Sc.Phase == "idle" && (d > 2+n/4 || -d > 2+n/4) {
			o.add("probe", "client %d: %d health checks next to other clients, %d when it is alone", i+1, m, n)
		}
	}
}

func slowest(tr *sim.Trace) (d time.Duration) {
	for _, c := range tr.Cmds {
		if c.Returned && c.Flushed() {
			d = max(d, c.DoneTime.Sub(c.FlushTime))
		}
	}
	return d
}

func probes(tr *sim.Trace) (n int) {
	for _, r := range tr.Recs {
		if r.Req.Verb == "version" {
			n++
		}
	}
	return n
}

// genTight is a client that waits for its write limit most of the time.
func genTight(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true}
	sc.Cfg.Conns = between(t, "conns", 1, 2)
	sc.Cfg.WriteLimit = between(t, "limit", 1, 4)
	sc.Cfg.MaxBatch = between(t, "batch", 1, sc.Cfg.WriteLimit)
	sc.Cfg.ReadTimeout = 1000 * sec
	sc.Cfg.Health = 36000 * sec
	sc.Default.Pace = []sim.Pace{{Delay: int64(pick(t, "tpace", 20*us, ms, 300*ms, 20*sec)), Max: 1}}
	k := &keyGen{}
	for w := between(t, "tw", 1, 3); w > 0; w-- {
		var wk sim.Worker
		wk.Start = int64(pick(t, "tstart", 0, 0, ms, sec))
		for p := between(t, "tp", 1, 2); p > 0; p-- {
			var pipe sim.Pipe
			for n := between(t, "tn", 1, 10); n > 0; n-- {
				pipe.Ops = append(pipe.Ops, genCmd(t, k, &valueBudget{left: 40}, 64, false, true))
			}
			wk.Pipes = append(wk.Pipes, pipe)
		}
		sc.Workers = append(sc.Workers, wk)
	}
	return sc
}

// genIdle is a client that does nothing most of the time.
func genIdle(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Clean: true}
	sc.Cfg.Conns = between(t, "conns", 1, 3)
	H := int64(pick(t, "h", 100*ms, sec, 7*sec, 0))
	sc.Cfg.Health = H
	if H == 0 {
		H = 15 * sec
	}
	if chance(t, "acommand", 50) {
		k := &keyGen{}
		sc.Workers = []sim.Worker{{Pipes: []sim.Pipe{{Ops: []sim.Op{genCmd(t, k, &valueBudget{left: 40}, 64, false, true)}}}}}
	}
	sc.Tail = int64(between(t, "ticks", 2, 10))*H + H/3
	return sc
}

// genSeveral draws the lives of several clients.
func genSeveral(t *rapid.T) *sim.Scenario {
	defer func() { keySpace = "" }()
	n := between(t, "nclients", 2, 4)
	var all []sim.Scenario
	for i := 0; i < n; i++ {
		keySpace = fmt.Sprintf("%c", 'a'+i)
		sh := Shape{Workers: 3, Pipes: 3, Ops: 8, Reps: chance(t, "reps", 40), Unkeyed: chance(t, "unkeyed", 40), InvalidKeys: chance(t, "inv", 20), ServerErrors: true, Control: 35, Own: true, Values: 1 << 14}
		var sc *sim.Scenario
		kind := pick(t, "kind", "clean", "clean", "faulty", "faulty", "closing", "junk", "tight", "tight", "idle")
		switch kind {
		case "clean":
			sc = genClean(t, sh)
		case "tight":
			sc = genTight(t)
		case "idle":
			sc = genIdle(t)
		case "faulty":
			sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true, DialFails: true, Events: true})
		case "closing":
			sc = genClose(t)
		case "junk":
			sc = genPoison(t, false)
		}
		if chance(t, "later", 40) {
			sc.Begin = int64(pick(t, "begin", 1, 20*us, ms, 300*ms, 5*sec, 100*sec))
		}
		if kind == "clean" {
			spread(t, sc.Workers, 20*us, ms, 100*ms, 3*sec)
		}
		sc.Phase = kind
		all = append(all, *sc)
	}
	if chance(t, "disaster", 40) {
		// the servers of several clients break at the same moment
		at := int64(pick(t, "dat", 5*us, 100*us, 2*ms, 300*ms, 5*sec)) + int64(between(t, "dplus", 0, 60*us))
		for i := range all {
			if x := &all[i]; x.Phase == "faulty" && x.Begin < at {
				x.Events = append(x.Events, sim.Event{At: at - x.Begin, Kind: pick(t, "dkind", "killall", "eofall", "stallall")})
				sort.SliceStable(x.Events, func(i, j int) bool { return x.Events[i].At < x.Events[j].At })
			}
		}
	}
	sc := all[0]
	sc.Others = all[1:]
	var sched sim.Sched
	if chance(t, "perturbed", 60) {
		sched = genSched(t)
	}
	sc.Sched = sched
	for i := range sc.Others {
		sc.Others[i].Sched = sim.Sched{}
	}
	return &sc
}
