package props

import (
	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
)

// FaultShape says what may go wrong.
type FaultShape struct {
	Shape
	Cuts         int // percentage of connections that fail at some byte
	Stalls       bool
	Timeouts     bool // vary the configured timeouts
	DialFails    bool
	Events       bool
	ClientErrors int // percentage of replies
	NoSched      bool
}

func genTimeout(t *rapid.T, label string) int64 {
	return int64(pick(t, label, 0, 5*ms, 50*ms, 300*ms, sec, 5*sec))
}

// genPause draws how long a connection does not move: mostly somewhere around
// the timeout.
func genPause(t *rapid.T, timeout int64) int64 {
	if timeout == 0 {
		timeout = sec
	}
	if chance(t, "pauseany", 20) {
		timeout = int64(pick(t, "pause", 5*ms, 50*ms, 300*ms, sec, 5*sec))
	}
	return timeout * int64(between(t, "pausepct", 30, 190)) / 100
}

// genFault draws where and how a connection fails.
func genFault(t *rapid.T, n *fakenet.Plan, bytes int, stalls bool, cfg sim.Config) {
	cut := func(label string) int {
		switch weighted(t, label+"form", 2, 2, 1) {
		case 0:
			return between(t, label, 0, 40)
		case 1:
			return between(t, label+"b", 0, max(1, bytes))
		}
		return between(t, label+"c", 0, max(1, min(bytes, 600)))
	}
	kinds := []fakenet.Fault{fakenet.FaultEOF, fakenet.FaultReset}
	if stalls {
		kinds = append(kinds, fakenet.FaultStall, fakenet.FaultPause)
	}
	w := weighted(t, "side", 5, 2, 1)
	if w != 1 {
		n.ReadFault = pick(t, "rfault", kinds...)
		n.ReadCut = cut("rcut")
		n.EOFData = chance(t, "eofdata", 20)
		if n.ReadFault == fakenet.FaultPause {
			n.ReadPause = genPause(t, cfg.ReadTimeout)
		}
	}
	if w != 0 {
		n.WriteFault = fakenet.FaultReset
		if stalls && rapid.Bool().Draw(t, "wstall") {
			n.WriteFault = fakenet.FaultStall
			if rapid.Bool().Draw(t, "wpause") {
				n.WriteFault = fakenet.FaultPause
				n.WritePause = genPause(t, cfg.WriteTimeout)
			}
		}
		n.WriteCut = cut("wcut")
		n.WriteLine = chance(t, "wline", 35)
	}
}

// genOddErrors varies how the failures of a scenario look like to the client.
func genOddErrors(t *rapid.T, sc *sim.Scenario) {
	if !chance(t, "odderrors", 30) {
		return
	}
	kinds := []string{"eof", "closed", "deadline", "odd", "connclosed", "wrapclosed", "broken"}
	plan := func(p *sim.ConnPlan) {
		if chance(t, "odderr", 60) {
			p.Net.Error = pick(t, "error", kinds...)
		}
		if p.Net.ReadFault != fakenet.FaultNone && chance(t, "rdls", 20) {
			p.Net.ReadDLs = between(t, "rdl", 1, 6)
		}
		if p.Net.WriteFault != fakenet.FaultNone && chance(t, "wdls", 20) {
			p.Net.WriteDLs = between(t, "wdl", 1, 6)
		}
		p.Net.CloseErr = chance(t, "closeerr", 20)
	}
	plan(&sc.Default)
	for i := range sc.Plans {
		plan(&sc.Plans[i])
	}
	for i := range sc.Dials {
		if chance(t, "odddial", 60) {
			sc.Dials[i].Error = pick(t, "error", kinds...)
		}
	}
}

// addClientErrors turns some replies into client errors.
func addClientErrors(t *rapid.T, ws []sim.Worker, pct int, v *valueBudget) int {
	n := 0
	for w := range ws {
		for p := range ws[w].Pipes {
			for i := range ws[w].Pipes[p].Ops {
				o := &ws[w].Pipes[p].Ops[i]
				if o.IsCmd() && o.Key != "" && o.Rep < 30 && chance(t, "cerr", pct) {
					o.Reply = mc.Reply{Code: "CLIENT_ERROR", Msg: genMsg(t, v)}
					n++
				}
			}
		}
	}
	return n
}

// spread puts pauses between the pipes of the workers so that recovery can be
// seen.
func spread(t *rapid.T, ws []sim.Worker, durs ...int64) {
	for w := range ws {
		for p := range ws[w].Pipes {
			if chance(t, "pausebefore", 50) {
				ops := ws[w].Pipes[p].Ops
				ws[w].Pipes[p].Ops = append([]sim.Op{{K: "sleep", Arg: pick(t, "pausefor", durs...)}}, ops...)
			}
		}
	}
}

// genFaulty draws a scenario in which connections fail.
func genFaulty(t *rapid.T, fs FaultShape) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Retry = int64(pick(t, "retry", ms, 100*ms, sec, 0))
	if fs.Timeouts {
		sc.Cfg.ReadTimeout = genTimeout(t, "rto")
		sc.Cfg.WriteTimeout = genTimeout(t, "wto")
		switch weighted(t, "apart", 5, 1, 1) {
		case 1:
			sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = 5*sec, int64(pick(t, "wshort", 5*ms, 50*ms, 300*ms))
		case 2:
			sc.Cfg.ReadTimeout, sc.Cfg.WriteTimeout = int64(pick(t, "rshort", 5*ms, 50*ms, 300*ms)), 5*sec
		}
	}
	k := &keyGen{}
	v := &valueBudget{left: fs.Values}
	sc.Workers = genWorkers(t, fs.Shape, k, v, sc.Cfg)
	if fs.ClientErrors > 0 {
		addClientErrors(t, sc.Workers, fs.ClientErrors, v)
	}
	spread(t, sc.Workers, 20*us, 2*ms, 150*ms, 3*sec, 12*sec)
	cmds, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	nplans := between(t, "nplans", 1, 2+sc.Cfg.Conns)
	for i := 0; i < nplans; i++ {
		p := genCleanPlan(t, bytes)
		boundPace(p.Pace, cmds)
		if chance(t, "cut", fs.Cuts) {
			genFault(t, &p.Net, bytes/max(1, sc.Cfg.Conns), fs.Stalls, sc.Cfg)
		}
		if chance(t, "hold", 20) {
			p.Hold = between(t, "holdn", 1, max(1, min(cmds, 600)))
		}
		sc.Plans = append(sc.Plans, p)
	}
	if bytes > 500_000 && sc.Cfg.BufSize > 0 && sc.Cfg.BufSize < 512 {
		sc.Cfg.BufSize = 512
	}
	if fs.DialFails && chance(t, "dialfails", 60) {
		n := between(t, "ndials", 1, 8)
		for i := 0; i < n; i++ {
			sc.Dials = append(sc.Dials, sim.DialPlan{
				Fail:  chance(t, "dfail", 45),
				Delay: int64(pick(t, "ddelay", 0, 0, 1, 100*us, 10*ms, 2*sec)),
			})
		}
	}
	if fs.Events && chance(t, "events", 60) {
		n := between(t, "nevents", 1, 4)
		at := int64(0)
		down := false
		for i := 0; i < n; i++ {
			at += int64(pick(t, "evat", 1, 30*us, ms, 200*ms, 5*sec)) + int64(between(t, "evplus", 0, 50*us))
			kind := pick(t, "ev", "killall", "eofall", "downkill")
			if down {
				kind = "up"
			}
			if kind == "downkill" {
				down = true
				sc.Events = append(sc.Events, sim.Event{At: at, Kind: "down"})
				kind = "killall"
			} else if kind == "up" {
				down = false
			}
			sc.Events = append(sc.Events, sim.Event{At: at, Kind: kind})
		}
		if down {
			sc.Events = append(sc.Events, sim.Event{At: at + int64(pick(t, "upafter", ms, sec, 30*sec)), Kind: "up"})
		}
	}
	if !fs.NoSched {
		sc.Sched = genSched(t)
	}
	genOddErrors(t, sc)
	return sc
}
