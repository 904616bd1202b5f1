package props

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/mc"
	"verif/sim"
)

func init() {
	// ---------------------------------------------------------------- C20
	register("C20", 500, "local conn err attr again drop keep order once",
		"SERVER_ERROR and CLIENT_ERROR replies with arbitrary messages at any place of batches and pipelines, with other commands on the same connections, arbitrary segmentation and pacing. Non-trivial: an error reply and another command of the same pipeline, or a client error followed by later commands",
		genServerErrors, runServerErrors)

	// ---------------------------------------------------------------- C21
	register("C21", 1750, "spread order conn",
		"clients with 1 to 12 (sometimes 70, rarely up to 600) connections and sequences of up to 700 (rarely more than 65536) pipelines (empty, with invalid keys only, small and large, flushed once or several times), created by one or several goroutines; the connection that each pipeline used is observed at the server. Non-trivial: at least as many issuing pipelines as connections, and at least 2 connections",
		genSpread, runSpread)

	// ---------------------------------------------------------------- C22
	register("C22", 1600, "probe conn err attr once",
		"idle, partly used and busy clients over many health-check intervals with slow servers, and connections that die unnoticed (reset, EOF, black hole) while idle; virtual time. Non-trivial: at least 3 intervals and 2 connections, or a connection died",
		genHealth, runHealth)
}

func genServerErrors(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t), Clean: true}
	k := &keyGen{}
	v := &valueBudget{left: 1 << 16}
	sh := Shape{Workers: 4, Pipes: 4, Ops: 10, Reps: true, ServerErrors: true, Control: 25, Own: chance(t, "own", 25)}
	sh.Unkeyed = chance(t, "unkeyed", 60)
	sc.Workers = genWorkers(t, sh, k, v, sc.Cfg)
	sc.Phase = pick(t, "phase", "server", "client", "client")
	pct := pick(t, "pct", 10, 30, 80)
	for w := range sc.Workers {
		for p := range sc.Workers[w].Pipes {
			ops := sc.Workers[w].Pipes[p].Ops
			for i := range ops {
				o := &ops[i]
				if o.IsCmd() && o.Key != "" && chance(t, "serr", pct) {
					o.Reply = mc.Reply{Code: "SERVER_ERROR", Msg: genMsg(t, v)}
				}
			}
		}
	}
	if sc.Phase == "client" {
		addClientErrors(t, sc.Workers, pick(t, "cpct", 5, 15, 50), v)
		sc.Clean = false
		spread(t, sc.Workers, us, 30*us, 5*ms, sec)
	}
	if sh.Unkeyed {
		for i := between(t, "nunkeyed", 0, 12); i > 0; i-- {
			var r mc.Reply
			if chance(t, "uerr", pct) {
				r = mc.Reply{Code: "SERVER_ERROR", Msg: fmt.Sprintf("%s u%d", genMsg(t, v), i)}
				if sc.Phase == "client" && chance(t, "uclient", 50) {
					r.Code = "CLIENT_ERROR"
				}
			}
			sc.Unkeyed = append(sc.Unkeyed, r)
		}
	}
	cmds, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	boundPace(sc.Default.Pace, cmds)
	sc.Sched = genSched(t)
	return sc
}

// errorMatcher matches commands to their requests: as Trace.Matched does, and
// commands without keys by a command with a key in the same batch (batches are
// contiguous on the wire), or else by an error message that only one command
// got and only one request was answered with.
func errorMatcher(tr *sim.Trace) func(c *sim.Cmd) *sim.Rec {
	type place struct{ conn, idx int }
	at := map[place]*sim.Rec{}
	for _, r := range tr.Recs {
		at[place{r.Conn, r.Idx}] = r
	}
	anchor := map[batchKey]*sim.Cmd{}
	for _, c := range tr.Cmds {
		if c.Keyed() && c.Issued && c.Flushed() && tr.Matched(c) != nil {
			anchor[batchOf(tr, c)] = c
		}
	}
	found := map[*sim.Cmd]*sim.Rec{}
	for _, c := range tr.Cmds {
		if r := tr.Matched(c); r != nil {
			found[c] = r
			continue
		}
		if c.Keyed() || !c.Issued || !c.Flushed() {
			continue
		}
		if k := anchor[batchOf(tr, c)]; k != nil {
			r := tr.Matched(k)
			if x := at[place{r.Conn, r.Idx + c.Pos - k.Pos}]; x != nil && x.Req.Verb == c.Op.Verb() {
				found[c] = x
			}
			continue
		}
		if !c.Returned || c.Err == nil {
			continue
		}
		same := 0
		for _, x := range tr.Cmds {
			if x.Returned && x.Err != nil && x.Err.Error() == c.Err.Error() {
				same++
			}
		}
		if same > 1 {
			continue
		}
		n := 0
		for _, r := range tr.Recs {
			if r.Req.Verb == c.Op.Verb() && (r.Reply.Code == "SERVER_ERROR" || r.Reply.Code == "CLIENT_ERROR") && c.DecodeMismatch(r.Reply) == "" {
				n++
				found[c] = r
			}
		}
		if n > 1 {
			delete(found, c)
		}
	}
	return func(c *sim.Cmd) *sim.Rec { return found[c] }
}

type batchKey struct{ w, p, s, b int }

func batchOf(tr *sim.Trace, c *sim.Cmd) batchKey {
	return batchKey{c.W, c.P, c.Session, c.Pos / tr.MaxBatch()}
}

func runServerErrors(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	slack := tr.Slack()
	errorOf := errorMatcher(tr)
	nse, nce := 0, 0
	inBatch := map[batchKey][]*sim.Cmd{}
	perPipe := map[[2]int]int{}
	errPipe := map[[2]int]bool{}
	for _, c := range tr.Cmds {
		if !c.Issued || !c.Flushed() {
			continue
		}
		inBatch[batchOf(tr, c)] = append(inBatch[batchOf(tr, c)], c)
		perPipe[[2]int{c.W, c.P}]++
		if r := errorOf(c); r != nil && r.End >= 0 {
			switch r.Reply.Code {
			case "SERVER_ERROR":
				nse++
				errPipe[[2]int{c.W, c.P}] = true
			case "CLIENT_ERROR":
				nce++
				errPipe[[2]int{c.W, c.P}] = true
			}
		}
	}
	o.Trivial = true
	for p := range errPipe {
		if perPipe[p] > 1 {
			o.Trivial = false
		}
	}
	// the first client error on each connection, in the order of the stream
	first := map[int]*sim.Rec{}
	type said struct {
		conn int
		msg  string
	}
	ces := map[said]int{} // a client error says where it comes from if no other has its words
	for _, r := range tr.Recs {
		if r.Reply.Code == "CLIENT_ERROR" {
			ces[said{r.Conn, r.Reply.Msg}]++
		}
		if r.Reply.Code == "CLIENT_ERROR" && (first[r.Conn] == nil || r.Idx < first[r.Conn].Idx) {
			first[r.Conn] = r
		}
	}
	own := func(c *sim.Cmd, why string) {
		r := errorOf(c)
		if r == nil || !c.Returned {
			return
		}
		if m := c.DecodeMismatch(r.Reply); m != "" {
			o.add("local", "%s (%s): %s", c, why, m)
		}
	}
	for _, cs := range inBatch {
		batchCE, batchFirst := false, false
		last := 0
		conn := -1
		for _, c := range cs {
			r := errorOf(c)
			if r == nil {
				continue
			}
			conn = r.Conn
			last = max(last, r.Idx)
			if r.Reply.Code == "CLIENT_ERROR" {
				if first[r.Conn] == r {
					batchFirst = true
				}
				if c.Returned && c.DecodeMismatch(r.Reply) == "" && ces[said{r.Conn, r.Reply.Msg}] == 1 {
					batchCE = true
				}
			}
		}
		switch {
		case conn < 0:
		case batchFirst:
			for _, c := range cs {
				own(c, "in the batch with the first client error of its connection")
			}
		case first[conn] != nil && last < first[conn].Idx:
			for _, c := range cs {
				own(c, "before the first client error of its connection")
			}
		case batchCE:
			for _, c := range cs {
				own(c, "in a batch with a client error that was returned")
			}
		case first[conn] == nil && sc.Phase == "client":
			for _, c := range cs {
				own(c, "on a connection without client errors")
			}
		}
	}
	// a connection is not used any more after a client error
	later := 0
	for conn, ce := range first {
		var c *sim.Cmd
		for _, x := range tr.Cmds {
			if errorOf(x) == ce && x.Returned {
				c = x
			}
		}
		if c == nil || c.DecodeMismatch(ce.Reply) != "" {
			continue
		}
		x := tr.Conns[conn]
		if c.DoneTime.Add(slack).Before(tr.CloseAt) && (!x.Closed() || x.ClosedAt.After(c.DoneTime.Add(slack))) {
			o.add("local", "%s returned a client error, but connection %d was not closed", c, conn)
		}
		for _, y := range tr.Cmds {
			if !y.Flushed() || y.FlushStart <= c.DoneStamp {
				continue
			}
			later++
			if r := errorOf(y); r != nil && r.Conn == conn {
				o.add("local", "%s was sent on connection %d after %s had returned a client error", y, conn, c)
			}
		}
	}
	if len(tr.Dials) > tr.NConns()+len(first) {
		o.add("local", "%d dials for %d connections and %d client errors", len(tr.Dials), tr.NConns(), len(first))
	}
	if nce > 0 && later > 0 {
		o.Trivial = false
	}
	o.Notes["server errors"] = nse
	o.Notes["client errors"] = nce
	o.Notes["commands after a client error"] = later
	o.class("client errors", nce > 0)
	o.class("server and client errors", nce > 0 && nse > 0)
	return o
}

// ---------------------------------------------------------------- C21

func genSpread(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t), Clean: true}
	sc.Phase = pick(t, "phase", "seq", "conc", "seq", "conc", "new", "seq")
	sc.Cfg.Conns = between(t, "conns", 1, 12)
	if chance(t, "manyconns", 4) {
		sc.Cfg.Conns = between(t, "nconns", 13, 70)
	}
	if rarely(t, "verymany", 400) {
		sc.Cfg.Conns = between(t, "nnconns", 200, 600)
	}
	n := sc.Cfg.Conns
	long := 0 // pipelines of one command
	if chance(t, "long", 3) {
		long = between(t, "nlong", 100, 700)
	}
	if rarely(t, "marathon", 1500) {
		long = 1<<16 + between(t, "nverylong", 1, 500)
	}
	k := &keyGen{}
	v := &valueBudget{left: 4000}
	if sc.Phase == "new" {
		sc.Clean = false
		if chance(t, "bad", 50) {
			sc.Cfg.Conns = -between(t, "below", 1, 5)
			return sc
		}
		for i := between(t, "ndials", 0, n+2); i > 0; i-- {
			sc.Dials = append(sc.Dials, sim.DialPlan{Fail: chance(t, "fail", 50), Delay: int64(pick(t, "ddelay", 0, 1, sec))})
		}
		sc.Sched = genSched(t)
		return sc
	}
	nw := 1
	if sc.Phase == "conc" {
		nw = between(t, "nw", 2, 8)
	}
	for w := 0; w < nw; w++ {
		var wk sim.Worker
		for i := 0; i < long/nw; i++ {
			wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{{K: "get", Key: fmt.Sprintf("l%d.%d", w, i), Reply: mc.Reply{Code: "EN"}}}})
		}
		for i := between(t, "npipes", 1, min(3*n+2, 100)); i > 0; i-- {
			var p sim.Pipe
			switch weighted(t, "pipekind", 5, 3, 1, 1, 1) {
			case 0:
				p.Ops = []sim.Op{genCmd(t, k, v, 64, false, true)}
			case 1:
				p = genPipe(t, Shape{Ops: 5, Reps: chance(t, "reps", 20), InvalidKeys: true, Control: 40}, k, v, sc.Cfg)
			case 2: // nothing
				if chance(t, "flushes", 50) {
					p.Ops = []sim.Op{{K: "exec"}, {K: "finish"}}
				}
			case 3: // only invalid keys
				for j := between(t, "ninvalid", 1, 3); j > 0; j-- {
					op := genCmd(t, k, v, 64, false, false)
					op.Key = genInvalidKey(t)
					p.Ops = append(p.Ops, op)
				}
			case 4:
				p.Ops = []sim.Op{genRepCmd(t, k, between(t, "rep", 2, 40))}
			}
			wk.Pipes = append(wk.Pipes, p)
		}
		if w > 0 && chance(t, "late", 40) {
			wk.Start = int64(pick(t, "start", 1, 500, 5*us, 100*us))
		}
		sc.Workers = append(sc.Workers, wk)
	}
	_, bytes := countCmds(sc.Workers)
	sc.Default = genCleanPlan(t, bytes)
	sc.Sched = genSched(t)
	return sc
}

func runSpread(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" {
		return o
	}
	if sc.Cfg.Conns < 0 {
		if tr.NewErr == nil {
			o.add("spread", "New with %d connections returned no error", sc.Cfg.Conns+1)
		}
		if len(tr.Dials) > 0 {
			o.add("spread", "New with %d connections dialled", sc.Cfg.Conns+1)
		}
		o.class("New with an invalid number", true)
		return o
	}
	n := tr.NConns()
	if tr.NewErr != nil {
		o.add("spread", "New with %d connections: %v", n, tr.NewErr)
		return o
	}
	if tr.DialsNew != n {
		o.add("spread", "New made %d dials for %d connections", tr.DialsNew, n)
	}
	if sc.Phase == "new" {
		o.class("New with failing dials", len(sc.Dials) > 0)
		o.Trivial = n < 2
		return o
	}
	used := map[[2]int]int{}
	var order [][2]int
	for _, c := range tr.Cmds {
		r := tr.Matched(c)
		if r == nil {
			continue
		}
		id := [2]int{c.W, c.P}
		if x, ok := used[id]; !ok {
			used[id] = r.Conn
			order = append(order, id)
		} else if x != r.Conn {
			o.add("spread", "the commands of pipeline %v went to connections %d and %d", id, x, r.Conn)
		}
	}
	if sc.Phase == "seq" {
		for i := range order {
			seen := map[int]int{}
			for j := i; j < min(i+n, len(order)); j++ {
				c := used[order[j]]
				if k, ok := seen[c]; ok {
					o.add("spread", "pipelines %d and %d of %d connections both used connection %d", k, j, n, c)
				}
				seen[c] = j
			}
			if len(o.Findings) > 5 {
				break
			}
		}
	}
	count := make([]int, n)
	for _, c := range used {
		if c < n {
			count[c]++
		}
	}
	lo, hi := len(order), 0
	for _, c := range count {
		lo, hi = min(lo, c), max(hi, c)
	}
	if hi-lo > 1 {
		o.add("spread", "%d pipelines on %d connections: %v", len(order), n, count)
	}
	o.Notes["issuing pipelines"] = len(order)
	o.class("phase "+sc.Phase, true)
	o.Trivial = n < 2 || len(order) < n
	return o
}

// ---------------------------------------------------------------- C22

func genHealth(t *rapid.T) *sim.Scenario {
	sc := &sim.Scenario{Cfg: genConfig(t)}
	sc.Cfg.Conns = between(t, "conns", 1, 6)
	n := sc.Cfg.Conns
	H := int64(pick(t, "h", sec, 100*ms, 15*sec, 0))
	sc.Cfg.Health = H
	if H == 0 {
		H = 15 * sec
	}
	sc.Phase = pick(t, "phase", "idle", "some", "busy", "dead", "dead", "some")
	sc.Sched = genSched(t)
	for totalSlack(sc.Sched) > H/20 {
		sc.Sched.Max /= 2
		sc.Sched.Limit = sc.Sched.Limit*3/4 + 1
		if sc.Sched.Max == 0 {
			sc.Sched = sim.Sched{}
			break
		}
	}
	k := &keyGen{}
	small := func() sim.Op { return genCmd(t, k, &valueBudget{left: 40}, 64, false, true) }
	ticks := int64(between(t, "ticks", 3, 12))
	switch sc.Phase {
	case "idle":
		sc.Clean = true
		sc.Tail = ticks*H + H/3
	case "some": // users at any time
		sc.Clean = true
		for w := between(t, "nw", 1, 4); w > 0; w-- {
			wk := sim.Worker{Start: int64(between(t, "start", 0, 2000)) * H / 1000}
			for i := between(t, "np", 1, 10); i > 0; i-- {
				wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{small()}})
				gap := int64(between(t, "gap", 0, 1500)) * H / 1000
				wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: gap}}})
			}
			sc.Workers = append(sc.Workers, wk)
		}
		sc.Tail = int64(between(t, "tail", 0, 3000)) * H / 1000
	case "busy": // one worker rotates over all connections in every interval
		sc.Clean = true
		var wk sim.Worker
		at := int64(0)
		for i := int64(0); i < ticks; i++ {
			m := n + pick(t, "extra", 0, 0, 1, n, 2*n+1)
			for j := 0; j < m; j++ {
				// between 0.1 H and 0.85 H after the tick
				when := i*H + H/10 + int64(j)*(H*3/4)/int64(m)
				var ops []sim.Op
				if when > at {
					ops = append(ops, sim.Op{K: "sleep", Arg: when - at})
					at = when
				}
				wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: append(ops, small())})
			}
		}
		sc.Workers = []sim.Worker{wk}
	case "dead":
		sc.Cfg.ReadTimeout = H / int64(pick(t, "rdiv", 10, 3, 1))
		sc.Cfg.WriteTimeout = H / 10
		sc.Cfg.Retry = H * 50
		if chance(t, "use", 50) {
			wk := sim.Worker{}
			for i := between(t, "np", 1, 2*n); i > 0; i-- {
				wk.Pipes = append(wk.Pipes, sim.Pipe{Ops: []sim.Op{small()}})
			}
			sc.Workers = append(sc.Workers, wk)
		}
		sc.Events = []sim.Event{{At: H/50 + int64(between(t, "when", 0, 3000))*H/1000, Kind: pick(t, "how", "killall", "eofall", "stallall")}}
		sc.Tail = (20+10*int64(n))*H + 3*H
	}
	sc.Default.Net.ReadChunks = genChunks(t)
	if sc.Phase != "busy" && chance(t, "slowreply", 40) {
		sc.Default.Pace = []sim.Pace{{Delay: min(H/50, int64(pick(t, "rdelay", 1, 50*us, ms, 10*ms)))}}
	}
	return sc
}

func runHealth(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	H, slack, n := tr.Health(), tr.Slack(), tr.NConns()
	R, W := tr.ReadTimeout(), tr.WriteTimeout()
	lat := time.Duration(0)
	for _, p := range sc.Default.Pace {
		lat += time.Duration(p.Delay)
	}
	sweep := time.Duration(n) * (lat + time.Microsecond) // a round of probes
	elapsed := tr.CloseAt.Sub(tr.Began)
	by := map[int][]time.Time{}
	probes := 0
	for _, r := range tr.Recs {
		by[r.Conn] = append(by[r.Conn], r.At)
		if r.Req.Verb == "version" {
			probes++
		}
	}
	o.Notes["probes"] = probes
	o.Notes["intervals"] = int(elapsed / H)
	if m := (int(elapsed/H) + 1) * n; probes > m {
		o.add("probe", "%d probes in %v with interval %v and %d connections", probes, elapsed, H, n)
	}
	if sc.Phase == "busy" && probes > 0 {
		o.add("probe", "%d probes although user pipelines rotated over all %d connections in each interval of %v", probes, n, H)
	}
	for _, c := range tr.Conns {
		from, to := c.OpenedAt, tr.CloseAt
		if c.Failed() && c.FailedAt.Before(to) {
			to = c.FailedAt
		}
		if c.Closed() && c.ClosedAt.Before(to) {
			to = c.ClosedAt
		}
		bound := 2*H + sweep + slack
		if sc.Phase == "dead" { // probes of other connections may time out first
			bound += time.Duration(n) * (R + W)
		}
		last := from
		for _, at := range append(by[c.ID], to) {
			if at.After(to) {
				at = to
			}
			if d := at.Sub(last); d > bound {
				o.add("probe", "connection %d carried nothing for %v (from %v; interval %v, bound %v)", c.ID, d, last.Sub(tr.Began), H, bound)
			}
			last = at
		}
	}
	if sc.Phase == "idle" {
		// exactly the connections that were not used are probed, one by one
		for k := 1; time.Duration(k)*(H+sweep)+sweep+slack < elapsed; k++ {
			for id := range tr.Conns {
				m := 0
				for _, at := range by[id] {
					if !at.After(tr.Began.Add(time.Duration(k)*(H+sweep) + sweep + slack)) {
						m++
					}
				}
				if m < k {
					o.add("probe", "connection %d was probed %d times in %d intervals", id, m, k)
				}
			}
		}
	}
	if sc.Phase == "dead" {
		ev := tr.Began.Add(time.Duration(sc.Events[0].At))
		limit := ev.Add(2*H + 2*time.Duration(n)*(R+W) + sweep + slack)
		if limit.Before(tr.CloseAt) {
			for _, c := range tr.Conns {
				if c.OpenedAt.Before(ev) && (!c.Closed() || c.ClosedAt.After(limit)) {
					o.add("probe", "connection %d died at %v (%s) and was not dropped until %v", c.ID, ev.Sub(tr.Began), sc.Events[0].Kind, limit.Sub(tr.Began))
				}
			}
			alive := 0
			for _, c := range tr.Conns {
				if c.ID >= n && !c.OpenedAt.Before(ev) && !c.OpenedAt.After(limit) {
					alive++
				}
			}
			if alive != n {
				o.add("probe", "%d connections died at %v, %d were replaced until %v", n, ev.Sub(tr.Began), alive, limit.Sub(tr.Began))
			}
		}
	}
	o.class("phase "+sc.Phase, true)
	o.Trivial = sc.Phase != "dead" && (elapsed < 3*H || n < 2)
	return o
}
