package props

import (
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
)

func init() {
	register("C31", 900, "indep",
		"clients of two to eight connections, some of which are sick from the start or after a while (stalled in either direction, slow, failing, answering with junk or client errors, their queues full, dials that fail or take long, health checks that hang) while the others have a prompt server; many small and some larger pipelines. Every command on a well connection must be sent and answered within the time the scheduling points add. Non-trivial: a command ran on a well connection while a command was waiting on another one, or another one was being dialled or was down",
		genSick, runSick)
}

// wellPlan reports whether the connection has a prompt server.
func wellPlan(sc *sim.Scenario, id int) bool {
	return id >= len(sc.Plans) || !sc.Plans[id].Ill
}

func genSick(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	n := between(t, "conns", 2, 8)
	sc.Cfg.Conns = n
	sc.Cfg.Retry = int64(pick(t, "retry", ms, 100*ms, sec, 0))
	sc.Cfg.ReadTimeout = genTimeout(t, "rto")
	sc.Cfg.WriteTimeout = genTimeout(t, "wto")
	if chance(t, "limits", 60) {
		sc.Cfg.WriteLimit = pick(t, "limit", 1, 2, 4, 8, 30)
		sc.Cfg.MaxBatch = between(t, "batch", 1, sc.Cfg.WriteLimit)
	}
	if chance(t, "health", 40) {
		sc.Cfg.Health = int64(pick(t, "healthd", 20*ms, 300*ms, 2*sec))
	}
	k, v := &keyGen{}, &valueBudget{left: 1 << 13}
	gap := pick(t, "gap", []int64{0, 1, 20 * us}, []int64{0, 20 * us, ms, 20 * ms}, []int64{ms, 100 * ms, 700 * ms}, []int64{0, 0, sec, 3 * sec})
	room := 600
	for w := between(t, "workers", 2, 8); w > 0; w-- {
		var wk sim.Worker
		wk.Start = pick(t, "start", gap...)
		for p := between(t, "pipes", 1, 12); p > 0; p-- {
			var pipe sim.Pipe
			if s := pick(t, "sleep", gap...); s > 0 {
				pipe.Ops = append(pipe.Ops, sim.Op{K: "sleep", Arg: s})
			}
			for i := between(t, "cmds", 1, 4); i > 0; i-- {
				if room > 100 && chance(t, "rep", 8) {
					o := genRepCmd(t, k, between(t, "reps", 2, 90))
					room -= o.Rep
					pipe.Ops = append(pipe.Ops, o)
				} else {
					pipe.Ops = append(pipe.Ops, genCmd(t, k, v, 64, false, true))
				}
				if chance(t, "exec", 15) {
					pipe.Ops = append(pipe.Ops, sim.Op{K: "exec"})
				}
			}
			pipe.NoFinish = chance(t, "nofinish", 20)
			wk.Pipes = append(wk.Pipes, pipe)
		}
		sc.Workers = append(sc.Workers, wk)
	}
	cmds, bytes := countCmds(sc.Workers)
	ill := 0
	epidemic := sim.ConnPlan{Ill: true} // all sick ones have the same
	genSickness(t, &epidemic, sc.Cfg, cmds, bytes)
	same, often := chance(t, "same", 40), pick(t, "often", 40, 60, 100)
	for i := 0; i < n; i++ {
		var p sim.ConnPlan
		if ill < n-1 && (i == n-1 && ill == 0 || chance(t, "ill", often)) {
			ill++
			if p = epidemic; !same {
				p = sim.ConnPlan{Ill: true}
				genSickness(t, &p, sc.Cfg, cmds, bytes)
			}
		}
		sc.Plans = append(sc.Plans, p)
	}
	for i := between(t, "again", 0, 3); i > 0 && chance(t, "illagain", 50); i-- {
		p := epidemic
		if !same {
			p = sim.ConnPlan{Ill: true}
			genSickness(t, &p, sc.Cfg, cmds, bytes)
		}
		sc.Plans = append(sc.Plans, p)
	}
	if chance(t, "slowdials", 70) {
		for i := 0; i < n; i++ { // by New
			sc.Dials = append(sc.Dials, sim.DialPlan{Fail: chance(t, "nofirst", 6)})
		}
		for i := between(t, "ndials", 1, 8); i > 0; i-- {
			sc.Dials = append(sc.Dials, sim.DialPlan{
				Fail:  chance(t, "dfail", 40),
				Delay: int64(pick(t, "ddelay", 0, ms, 300*ms, 4*sec, 9*sec)),
			})
		}
	}
	if chance(t, "perturbed", 50) {
		sc.Sched = genSched(t)
	}
	genOddErrors(t, sc)
	return sc
}

// genSickness draws what is wrong with a connection.
func genSickness(t *rapid.T, p *sim.ConnPlan, cfg sim.Config, cmds, bytes int) {
	switch weighted(t, "sickness", 4, 3, 2, 2, 2, 2) {
	case 0: // fails or stalls in the middle
		genFault(t, &p.Net, min(bytes, 600), true, cfg)
	case 1: // stalls at once or soon
		if chance(t, "towrite", 40) {
			p.Net.WriteFault, p.Net.WriteCut = fakenet.FaultStall, between(t, "wcut", 0, 200)
		} else {
			p.Net.ReadFault, p.Net.ReadCut = fakenet.FaultStall, between(t, "rcut", 0, 100)
		}
	case 2: // slow to answer
		p.Pace = []sim.Pace{{Delay: int64(pick(t, "slow", ms, 40*ms, 900*ms)), Max: between(t, "slowmax", 1, 4)}}
		boundPace(p.Pace, cmds)
		p.Hold = pick(t, "hold", 0, 0, 1, 3, 20)
	case 3: // slow to read
		p.RecvMax = between(t, "recvmax", 1, 60)
		p.RecvDelay = int64(pick(t, "recvdelay", ms, 30*ms, 500*ms))
		if bytes > 4000 {
			p.RecvMax += 200
		}
		p.Net.Window = between(t, "window", 1, 300)
	case 4: // writes take long
		p.Net.WriteGaps = []int64{int64(pick(t, "wgap", ms, 40*ms, 800*ms))}
		if chance(t, "wgap0", 40) {
			p.Net.WriteGaps = append(p.Net.WriteGaps, 0, 0)
		}
	case 5: // nonsense
		for i := between(t, "nscript", 0, 6); i > 0; i-- {
			p.Script = append(p.Script, mc.Reply{Code: "RAW", Raw: genJunk(t, &valueBudget{left: 100}, false), Msg: "lenient"})
		}
		p.ScriptEnd = pick(t, "end", "reset", "eof", "stall", "")
		if p.ScriptEnd == "" {
			p.Script = append(p.Script, mc.Reply{Code: "CLIENT_ERROR", Msg: "bad"})
		}
	}
}

func runSick(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	o.Trivial = true
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	slack := 2 * tr.Slack()
	// when something was wrong
	type span struct{ from, to time.Time }
	var wrong []span
	for _, d := range tr.Dials {
		if d.EndAt.After(d.At) {
			wrong = append(wrong, span{d.At, d.EndAt})
		}
	}
	down := 0
	for _, c := range tr.Conns {
		if at, ok := tr.DropAt(c); ok {
			to := tr.CloseAt
			for _, x := range tr.Conns {
				if x.OpenedAt.After(at) && x.OpenedAt.Before(to) {
					to = x.OpenedAt
				}
			}
			if to.Sub(at) > slack {
				wrong = append(wrong, span{at, to})
				down++
			}
		}
	}
	for _, c := range tr.Cmds {
		if c.Flushed() && c.Returned && c.DoneTime.Sub(c.FlushTime) > slack {
			if r := tr.Matched(c); r == nil || !wellPlan(sc, r.Conn) {
				wrong = append(wrong, span{c.FlushTime, c.DoneTime})
			}
		}
	}
	judged, amid := 0, 0
	of := map[[2]int]*sim.Rec{} // a request of that pipeline on a well connection
	for _, c := range tr.Cmds {
		if r := tr.Matched(c); r != nil && wellPlan(sc, r.Conn) {
			of[[2]int{c.W, c.P}] = r
		}
	}
	for _, c := range tr.Cmds {
		r := tr.Matched(c)
		if x := of[[2]int{c.W, c.P}]; r == nil && x != nil && c.Keyed() && c.Issued && c.Flushed() && c.Returned &&
			c.FlushTime.After(tr.Conns[x.Conn].OpenedAt.Add(slack)) && (tr.CloseAt.IsZero() || c.DoneTime.Add(slack).Before(tr.CloseAt)) {
			o.add("indep", "%s of a pipeline on the well connection %d was not sent: %v", c, x.Conn, c.Err)
		}
		if r == nil || !c.Returned || !wellPlan(sc, r.Conn) {
			continue
		}
		x := tr.Conns[r.Conn]
		if c.FlushTime.Before(x.OpenedAt.Add(slack)) {
			continue // waited for that connection
		}
		if !tr.CloseAt.IsZero() && !c.DoneTime.Add(slack).Before(tr.CloseAt) {
			continue
		}
		judged++
		for _, s := range wrong {
			if !c.FlushTime.Before(s.from) && c.FlushTime.Add(slack).Before(s.to) {
				amid++
				break
			}
		}
		if d := r.At.Sub(c.FlushTime); d > slack {
			o.add("indep", "%s was sent on the well connection %d only %v after it was flushed", c, r.Conn, d)
		} else if d := c.DoneTime.Sub(c.FlushTime); d > slack {
			o.add("indep", "%s on the well connection %d took %v", c, r.Conn, d)
		}
		if at, gone := tr.GoneAt(x); c.Err != nil && c.DecodeMismatch(r.Reply) != "" {
			o.add("indep", "%s on the well connection %d failed with %v (connection gone: %v at %v)", c, r.Conn, c.Err, gone, at.Sub(tr.Began))
		}
	}
	for _, c := range tr.Calls {
		if (c.What == "Pipeline()" || strings.HasPrefix(c.What, "adding of ")) && c.Dur > slack {
			o.add("indep", "%s took %v", c.What, c.Dur)
		}
	}
	o.Trivial = amid == 0
	o.Notes["commands judged"] = judged
	o.Notes["commands on well connections while something was wrong"] = amid
	o.class("a connection was down for a while", down > 0)
	o.class("a dial took time or failed", len(tr.Dials) > 0 && len(wrong) > 0 && tr.Dials[len(tr.Dials)-1].EndAt.After(tr.Dials[len(tr.Dials)-1].At))
	o.class("health checks ran", probes(tr) > 0)
	return o
}
