package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/mc"
	"verif/sim"
)

// genReplyTo draws a valid reply to any verb.
func genReplyTo(t *rapid.T, verb string, v *valueBudget, buf, clientErrPct int) mc.Reply {
	if chance(t, "ce", clientErrPct) {
		return mc.Reply{Code: "CLIENT_ERROR", Msg: genMsg(t, v)}
	}
	switch verb {
	case "version":
		if chance(t, "serr", 8) {
			return mc.Reply{Code: "SERVER_ERROR", Msg: genMsg(t, v)}
		}
		return mc.Reply{Code: "VERSION", Msg: genVersion(t)}
	case "flush_all":
		if chance(t, "serr", 20) {
			return mc.Reply{Code: "SERVER_ERROR", Msg: genMsg(t, v)}
		}
		return mc.Reply{Code: "OK"}
	}
	return genReply(t, verb, v, buf, true)
}

func genVersion(t *rapid.T) string {
	n := between(t, "vlen", 1, 20)
	if chance(t, "vlong", 5) {
		n = between(t, "vlonglen", 20, 5000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(between(t, "vc", 0x21, 0x7e))
		if i > 0 && i < n-1 && chance(t, "vsp", 10) {
			b[i] = ' '
		}
	}
	return string(b)
}

var oddLines = []string{
	"ERROR\r\n", "ERROR locked try again later\r\n", "ERROR x\r\n", "ENDED\r\n", "\r\n", "H\r\n", "HD\r\n", "EN\r\n", "NS\r\n", "EX\r\n", "NF\r\n", "OK\r\n", "END\r\n", "STORED\r\n", "MN\r\n", "HDD\r\n",
	"VA\r\n", "VA \r\n", "VA x\r\n", "VA -1\r\n", "VA 5\r\n", "VA 5\r\nab\r\nHD\r\n", "VA 5\r\nabcdefg\r\n", "VA 0\r\n\r\n", "VA 0\r\nHD\r\n", "VA 5 \r\nhello\r\n", "VA5\r\nhello\r\n",
	"VA 3\r\nabc\n\r", "VA 3\r\nabcd\r\n", "VA 2\r\na\r\nHD\r\n",
	"VA 000000000000000000000003\r\nabc\r\n", "VA 0000000000000000000000000000000000000000000000000000000000000000000012\r\nabcdefghijkl\r\n", "VA  3\r\nabc\r\n", "VA 3  W\r\nabc\r\n", "HD c00000000000000000000000000000007\r\n",
	"VA 99999999999999999999\r\n", "VA 18446744073709551615\r\n", "VA 18446744073709551614\r\nHD\r\n", "VA 18446744073709551616\r\n\r\n", "VA 9223372036854775807\r\nx", "VA 4294967296000000\r\n", "VA 1099511627776\r\n",
	"SERVER_ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR \r\n", "SERVER_ERR x\r\n", "CLIENT_ERRORS y\r\n", "SE\r\n", "CL\r\n",
	"HD c\r\n", "HD W c\r\n", "HD cx\r\n", "HD c18446744073709551616\r\n", "HD c99999999999999999999999\r\n", "VA 2 c\r\nhi\r\n", "HD c5 c6\r\n", "HD foo\r\n", "HD  W\r\n", "HD \r\n",
	"HD\rX\n", "HD\r\r\n", "\rHD\r\n", "HD\n", "\n", "VA 3\r\r\nabc\r\n", "VA 3\nabc\r\n",
	"VERSION\r\n", "VERSION \r\n", "VER\r\n", "V\r\n", "VB 5\r\n", "O\r\n", "0\r\n", "E\r\n", "N\r\n", " \r\n", "  HD\r\n",
	"mg k v\r\n", "\x00\r\n", "\xff\xfe\r\n",
}

// mangle changes the bytes of a reply.
func mangle(t *rapid.T, raw []byte, verb string, v *valueBudget) []byte {
	b := append([]byte(nil), raw...)
	interesting := []byte("\r\n VAHDENSXFOKcWXZ0159-\x00\xff")
	switch weighted(t, "mangle", 5, 3, 3, 2, 2, 2, 2, 2, 2) {
	case 8: // a word like a known one, and text
		word := pick(t, "word", "HD", "VA", "EN", "NS", "EX", "NF", "OK", "ERROR", "ER", "END", "CLIENT_ERROR", "SERVER_ERROR", "VERSION", "STORED", "MN", "BUSY", "E", "Z")
		if chance(t, "glued", 40) {
			word += rapid.StringOfN(rapid.SampledFrom([]rune("ADENRSVZ01_")), 1, 8, -1).Draw(t, "glue")
		}
		if chance(t, "text", 70) {
			word += " " + pick(t, "says", "locked try again later", "c5", "W", "0", "3", "x", "out of memory", "ERROR", "")
		}
		return []byte(word + "\r\n")
	case 0:
		return []byte(pick(t, "oddline", oddLines...))
	case 1: // a byte changed
		if len(b) > 0 {
			i := between(t, "at", 0, min(len(b)-1, 60))
			if chance(t, "tail", 30) {
				i = len(b) - 1 - between(t, "attail", 0, min(len(b)-1, 5))
			}
			b[i] = interesting[between(t, "with", 0, len(interesting)-1)]
		}
	case 2: // a byte removed
		if len(b) > 0 {
			i := between(t, "at", 0, min(len(b)-1, 60))
			if chance(t, "tail", 40) {
				i = len(b) - 1 - between(t, "attail", 0, min(len(b)-1, 5))
			}
			b = append(b[:i], b[i+1:]...)
		}
	case 3: // a byte added
		i := between(t, "at", 0, min(len(b), 60))
		if chance(t, "tail", 40) {
			i = len(b) - between(t, "attail", 0, min(len(b), 5))
		}
		c := interesting[between(t, "with", 0, len(interesting)-1)]
		b = append(b[:i], append([]byte{c}, b[i:]...)...)
	case 4: // valid, for another verb
		return genReplyTo(t, pick(t, "otherverb", "mg", "ms", "md", "version", "flush_all"), v, 64, 5).Encode()
	case 5: // twice
		b = append(b, b...)
	case 7: // a run of one byte
		i := between(t, "at", 0, min(len(b), 40))
		if j := strings.IndexAny(string(b), " c"); j >= 0 && chance(t, "number", 60) {
			i = j + 1
		}
		c := pick(t, "run", byte('0'), '0', '0', ' ', '9', 'W')
		b = append(b[:i:i], append(bytes.Repeat([]byte{c}, pick(t, "runlen", 2, 19, 20, 21, 30, 70, 300, 5000)), b[i:]...)...)
	case 6: // cut short
		if len(b) > 0 {
			b = b[:between(t, "cutat", 0, min(len(b)-1, 100))]
		}
	}
	return b
}

// rawScript draws a script of replies to the verbs, some of them mangled.
func rawScript(t *rapid.T, verbs []string, v *valueBudget, buf, pct int) ([]mc.Reply, int) {
	var out []mc.Reply
	n := 0
	for _, verb := range verbs {
		raw := genReplyTo(t, verb, v, buf, 0).Encode()
		if chance(t, "mangled", pct) {
			raw = mangle(t, raw, verb, v)
			n++
		}
		out = append(out, mc.Reply{Code: "RAW", Raw: raw})
	}
	return out, n
}

// verbsOf lists the verbs of the valid commands of a pipe in order.
func verbsOf(p *sim.Pipe) []string {
	var out []string
	for i := range p.Ops {
		o := &p.Ops[i]
		if !o.IsCmd() || o.Key == "" && o.Verb()[0] == 'm' {
			continue
		}
		for n := 0; n < max(1, o.Rep); n++ {
			out = append(out, o.Verb())
		}
	}
	return out
}

func result(c *sim.Cmd) string {
	if !c.Returned {
		return "did not return"
	}
	e := "nil"
	if c.Err != nil {
		e = fmt.Sprintf("%T %v", c.Err, c.Err)
	}
	return fmt.Sprintf("%s get{%d %q flags %d cas %d} set %d del %d version %q err %s", c, c.Get.Type, c.Copy, c.Get.Flags, c.Get.CAS, c.Set.Type, c.Del.Type, c.Ver.Version, e)
}

// ---------------------------------------------------------------- C06

type chunkCase struct {
	Base   sim.Scenario
	Chunks []int // of the second run
	Buf    int
	Net    []sim.Pace
}

func byProgram(tr *sim.Trace) []*sim.Cmd {
	cs := append([]*sim.Cmd(nil), tr.Cmds...)
	sort.SliceStable(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		if a.W != b.W {
			return a.W < b.W
		}
		if a.P != b.P {
			return a.P < b.P
		}
		return a.I < b.I
	})
	return cs
}

func genChunkCase(t *rapid.T) *chunkCase {
	c := &chunkCase{}
	sc := &c.Base
	sc.Cfg = sim.Config{Conns: 1, WriteLimit: 5000, BufSize: genBuf(t), Health: 36000 * sec}
	k, v := &keyGen{}, &valueBudget{left: 1 << 17}
	rounds := between(t, "rounds", 1, 3)
	maxOps := 25
	if rounds == 1 && chance(t, "small", 60) {
		sc.Cfg.MaxBatch = between(t, "mb", 1, 4)
	}
	var w sim.Worker
	var verbs []string
	for r := 0; r < rounds; r++ {
		var p sim.Pipe
		if r > 0 {
			p.Ops = append(p.Ops, sim.Op{K: "sleep", Arg: 20 * ms})
		}
		n := between(t, "nops", 1, maxOps)
		for i := 0; i < n; i++ {
			op := genCmd(t, k, v, sc.Cfg.BufSize, true, false)
			op.Reply = mc.Reply{}
			op.Value.Len = min(op.Value.Len, 20)
			p.Ops = append(p.Ops, op)
		}
		w.Pipes = append(w.Pipes, p)
		verbs = append(verbs, verbsOf(&p)...)
	}
	sc.Workers = []sim.Worker{w}
	var plan sim.ConnPlan
	pct := pick(t, "manglepct", 0, 4, 15)
	plan.Script, _ = rawScript(t, verbs, v, sc.Cfg.BufSize, pct)
	if rarely(t, "long", 40) { // lines of many KiB, also behind each other
		for i := range plan.Script {
			if chance(t, "longline", 30) {
				code := pick(t, "longcode", "SERVER_ERROR", "SERVER_ERROR", "VERSION", "CLIENT_ERROR")
				plan.Script[i].Raw = []byte(code + " " + strings.Repeat("m", between(t, "longlen", 1, 20000)) + "\r\n")
			}
		}
	}
	plan.ScriptEnd = pick(t, "end", "eof", "reset", "")
	if plan.ScriptEnd == "reset" { // without losing what is under way
		plan.ScriptEnd = "stall"
		plan.Net.ReadFault = fakenet.FaultReset
		for _, r := range plan.Script {
			plan.Net.ReadCut += len(r.Encode())
		}
	}
	plan.Hold = len(verbsOf(&w.Pipes[0]))
	plan.Net.ReadChunks = genChunks(t)
	sc.Plans = []sim.ConnPlan{plan}
	c.Chunks = genChunks(t)
	if chance(t, "ones", 30) {
		c.Chunks = []int{1}
	}
	c.Buf = genBuf(t)
	return c
}

func init() {
	register("C06", 1400, "",
		"a reply stream (valid, or with mangled replies, then EOF) is given twice to the same commands, cut differently and with different buffer sizes; the results must be equal. Non-trivial: at least 2 commands and the segmentations differ",
		genChunkCase,
		func(t *testing.T, c *chunkCase) Outcome {
			a, o := runScenario(t, &c.Base)
			b := c.Base
			b.Cfg.BufSize = c.Buf
			b.Plans = append([]sim.ConnPlan(nil), b.Plans...)
			b.Plans[0].Net.ReadChunks = c.Chunks
			tb, ob := runScenario(t, &b)
			o.Findings = append(o.Findings, ob.Findings...)
			ca, cb := byProgram(a), byProgram(tb)
			if len(ca) != len(cb) {
				panic("different programs")
			}
			errs := 0
			for i := range ca {
				if ca[i].Err != nil {
					errs++
				}
				// version replies of the fresh connections carry sequence numbers
				ra, rb := result(ca[i]), result(cb[i])
				if ra != rb && !(len(a.Conns) > 1 && len(tb.Conns) > 1 && unscripted(a, ca[i]) && unscripted(tb, cb[i])) {
					o.Findings = append(o.Findings, sim.Finding{Tag: "chunks", Msg: fmt.Sprintf("reads of %v with buffer %d give %s; reads of %v with buffer %d give %s",
						c.Base.Plans[0].Net.ReadChunks, c.Base.Cfg.BufSize, ra, c.Chunks, c.Buf, rb)})
				}
			}
			o.class("stream with an invalid reply", errs > 0)
			o.Trivial = len(ca) < 2 || a.Conns[0].Reads == tb.Conns[0].Reads
			o.Notes["reads"] = a.Conns[0].Reads + tb.Conns[0].Reads
			return o
		})
	registry["C06"].Tags = append(registry["C06"].Tags, "chunks")

	register("C05", 1250, "decode",
		"valid replies of every kind to up to 40 commands on one connection, arbitrarily segmented; every result is compared with the description of the reply. Non-trivial: at least 3 results compared",
		func(t *rapid.T) *sim.Scenario {
			if rarely(t, "huge", 400) {
				return genHuge(t)
			}
			sc := &sim.Scenario{Cfg: genConfig(t)}
			sc.Cfg.Conns = 1
			k, v := &keyGen{}, &valueBudget{left: 3 << 20}
			buf := sc.Cfg.BufSize
			if buf == 0 {
				buf = 16384
			}
			var w sim.Worker
			var verbs []string
			np := between(t, "npipes", 1, 3)
			for i := 0; i < np; i++ {
				p := genPipe(t, Shape{Ops: 16, Unkeyed: true, Control: 10, Reps: chance(t, "reps", 15)}, k, &valueBudget{left: 200}, sc.Cfg)
				w.Pipes = append(w.Pipes, p)
				verbs = append(verbs, verbsOf(&p)...)
			}
			sc.Workers = []sim.Worker{w}
			plan := genCleanPlan(t, 0)
			cePct := pick(t, "cepct", 0, 1, 5)
			if len(verbs) > 60 {
				v.left = 1 << 14
			}
			bytes := 0
			for _, verb := range verbs {
				r := genReplyTo(t, verb, v, buf, cePct)
				bytes += r.Value.Len + 20
				plan.Script = append(plan.Script, r)
			}
			if bytes > 200_000 {
				for i := range plan.Net.ReadChunks {
					plan.Net.ReadChunks[i] = max(plan.Net.ReadChunks[i], bytes/3000)
				}
				sc.Cfg.BufSize = max(sc.Cfg.BufSize, 512)
			}
			sc.Plans = []sim.ConnPlan{plan}
			sc.Sched = genSched(t)
			return sc
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			n, big := 0, 0
			dropped := false
			i := 0
			by := connRecs(tr, 0)
			for _, c := range byProgram(tr) {
				if !c.Issued || !c.Flushed() {
					continue
				}
				if i >= len(by) || by[i].Req.Verb != c.Op.Verb() || by[i].Req.Key != c.Key {
					break // the connection was dropped
				}
				r := by[i]
				i++
				if r.End < 0 || r.End > tr.Conns[0].NRead() || !c.Returned {
					continue
				}
				if m := c.DecodeMismatch(r.Reply); m != "" && !(dropped && c.Err != nil) {
					o.Findings = append(o.Findings, sim.Finding{Tag: "decode", Msg: c.String() + ": " + m})
				}
				if r.Reply.Code == "CLIENT_ERROR" {
					dropped = true
				}
				n++
				if r.Reply.Value.Len > 1<<16 {
					big++
				}
			}
			o.Notes["replies compared"] = n
			o.class("value over 64 KiB", big > 0)
			o.class("client error", dropped)
			o.Trivial = n < 3
			return o
		})

	register("C07", 4000, "decode recover leak",
		"reply streams with mangled replies (byte edits, odd lines, impossible lengths, wrong verbs, truncation) to several pipelines, judged by a strict reference decoder, then fresh connections that must work. Non-trivial: the reference decoder finds a reply that must be rejected",
		func(t *rapid.T) *sim.Scenario {
			sc := &sim.Scenario{Cfg: genConfig(t)}
			sc.Cfg.Conns = 1
			sc.Cfg.Retry = 100 * ms
			sc.Cfg.ReadTimeout = int64(pick(t, "rto", 0, 50*ms))
			k, v := &keyGen{}, &valueBudget{left: 1 << 16}
			single := rapid.Bool().Draw(t, "single")
			nw := 1
			if !single {
				nw = between(t, "nworkers", 2, 3)
			}
			var verbs []string
			for i := 0; i < nw; i++ {
				var w sim.Worker
				np := between(t, "npipes", 1, 3)
				for j := 0; j < np; j++ {
					p := genPipe(t, Shape{Ops: 10, Unkeyed: single, Control: 10}, k, &valueBudget{left: 100}, sc.Cfg)
					if !single {
						for x := range p.Ops {
							p.Ops[x].Reply = mc.Reply{}
						}
					}
					w.Pipes = append(w.Pipes, p)
					verbs = append(verbs, verbsOf(&p)...)
				}
				sc.Workers = append(sc.Workers, w)
			}
			nplans := pick(t, "nplans", 1, 1, 2)
			for i := 0; i < nplans; i++ {
				plan := genCleanPlan(t, 0)
				vs := verbs
				if !single { // the order of arrival is not known
					vs = rapid.Permutation(verbs).Draw(t, "perm")
				}
				if i > 0 {
					vs = vs[len(vs)-between(t, "fewer", 0, len(vs)-1):]
				}
				plan.Script, _ = rawScript(t, vs, v, 64, pick(t, "manglepct", 8, 30, 80))
				plan.ScriptEnd = pick(t, "end", "eof", "reset", "stall")
				if chance(t, "holdall", 40) {
					plan.Hold = between(t, "holdn", 1, len(verbs))
				}
				sc.Plans = append(sc.Plans, plan)
			}
			sc.Default = genCleanPlan(t, 0)
			last := sim.Worker{Start: 30 * sec}
			for i := 0; i < 4; i++ {
				last.Pipes = append(last.Pipes, sim.Pipe{Ops: []sim.Op{{K: "sleep", Arg: 3 * sec}, genCmd(t, k, &valueBudget{left: 50}, 64, false, false)}})
			}
			sc.Workers = append(sc.Workers, last)
			sc.Sched = genSched(t)
			return sc
		}, runMangled)
}

func unscripted(tr *sim.Trace, c *sim.Cmd) bool {
	return c.Op.K == "ver" && c.Err == nil && strings.HasPrefix(c.Ver.Version, "1.") && len(tr.Conns) > 1 || c.Op.K == "flush" && len(tr.Conns) > 1
}

func connRecs(tr *sim.Trace, id int) []*sim.Rec {
	var out []*sim.Rec
	for _, r := range tr.Recs {
		if r.Conn == id {
			out = append(out, r)
		}
	}
	return out
}

// matchRequests finds the commands of the requests. Commands without keys come
// from one worker, whose requests arrive in program order on each connection: a run of requests
// without keys is matched if there are just as many commands that may have been
// sent between its neighbours with keys.
func matchRequests(tr *sim.Trace) map[*sim.Rec]*sim.Cmd {
	cmdOf := map[*sim.Rec]*sim.Cmd{}
	var seq []*sim.Cmd
	at := map[*sim.Cmd]int{}
	over := map[[3]int]time.Time{} // upper bound of the end of a session
	unkeyed := false
	for _, c := range byProgram(tr) {
		if !c.Issued || !c.Flushed() {
			continue
		}
		at[c] = len(seq)
		seq = append(seq, c)
		unkeyed = unkeyed || !c.Keyed()
		if c.Keyed() {
			if rs := tr.ByKey()[c.Key]; len(rs) == 1 {
				cmdOf[rs[0]] = c
			}
		}
		ends := func(session int, t time.Time) {
			k := [3]int{c.W, c.P, session}
			if old, ok := over[k]; !ok || t.Before(old) {
				over[k] = t
			}
		}
		if c.Returned {
			ends(c.Session, c.DoneTime)
		}
		ends(c.Session-1, c.FlushTime) // a session ends before the next one begins
	}
	if !unkeyed {
		return cmdOf
	}
	for id := range tr.Conns {
		recs := connRecs(tr, id)
		for i := 0; i < len(recs); {
			if cmdOf[recs[i]] != nil {
				i++
				continue
			}
			from, to := 0, len(seq)
			if i > 0 {
				from = at[cmdOf[recs[i-1]]] + 1
			}
			j := i
			for j < len(recs) && cmdOf[recs[j]] == nil {
				j++
			}
			if j < len(recs) {
				to = at[cmdOf[recs[j]]]
			}
			run := recs[i:j]
			var cands []*sim.Cmd
			for k := from; k < to; k++ {
				c := seq[k]
				if c.Keyed() {
					continue
				}
				possible := false
				for _, r := range run {
					conn := tr.Conns[id]
					end, ended := over[[3]int{c.W, c.P, c.Session}]
					possible = possible || c.FlushStart < r.Stamp && !(conn.Closed() && conn.ClosedAt.Before(c.FlushTime)) && !(ended && end.Before(conn.OpenedAt))
				}
				if possible {
					cands = append(cands, c)
				}
			}
			if len(cands) == len(run) {
				for k, r := range run {
					if cands[k].Op.Verb() == r.Req.Verb {
						cmdOf[r] = cands[k]
					}
				}
			}
			i = j
		}
	}
	return cmdOf
}

// runMangled judges results by the reference decoder.
func runMangled(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	// the commands by connection and index of their request
	cmdOf := matchRequests(tr)
	must := 0
	for id := 0; id < len(sc.Plans) && id < len(tr.Conns); id++ {
		recs := connRecs(tr, id)
		var verbs []string
		var stream []byte
		for _, r := range recs {
			verbs = append(verbs, r.Req.Verb)
			if r.End >= 0 {
				stream = append(stream, r.Reply.Encode()...)
			}
		}
		conn := tr.Conns[id]
		units := mc.Decode(verbs, stream)
		firstBad := len(units)
		for i, u := range units {
			if u.Kind != mc.Exact || u.Reply.Code == "CLIENT_ERROR" {
				firstBad = i
				break
			}
		}
		complete := map[[3]int]bool{} // sessions answered before anything bad
		for i, r := range recs {
			if c := cmdOf[r]; c != nil {
				k := [3]int{c.W, c.P, c.Session}
				ok := i < firstBad && units[i].End >= 0 && units[i].End <= conn.NReadOK()
				if v, seen := complete[k]; !seen {
					complete[k] = ok
				} else {
					complete[k] = v && ok
				}
			}
		}
		for _, c := range tr.Cmds { // commands not matched to a request
			if c.Issued && c.Flushed() {
				k := [3]int{c.W, c.P, c.Session}
				if complete[k] {
					found := false
					for _, r := range recs {
						found = found || cmdOf[r] == c
					}
					complete[k] = found
				}
			}
		}
		for i, r := range recs {
			c := cmdOf[r]
			u := units[i]
			if u.Kind == mc.MustErr {
				must++
			}
			if c == nil || !c.Returned {
				continue
			}
			switch u.Kind {
			case mc.MustErr:
				if c.Err == nil {
					o.Findings = append(o.Findings, sim.Finding{Tag: "decode", Msg: fmt.Sprintf("succeeded although its reply is invalid (%s): %s; stream %q", u.Why, result(c), clip(stream))})
				}
			case mc.Exact:
				if c.Err != nil && !complete[[3]int{c.W, c.P, c.Session}] && !memcache.IsServerError(c.Err) {
					continue
				}
				if m := c.DecodeMismatch(u.Reply); m != "" {
					o.Findings = append(o.Findings, sim.Finding{Tag: "decode", Msg: fmt.Sprintf("%s: %s; stream %q", c, m, clip(stream))})
				}
			}
			if u.Kind == mc.MustErr && c.Err != nil {
				if !conn.Closed() || conn.ClosedAt.After(c.DoneTime.Add(tr.Slack())) {
					o.Findings = append(o.Findings, sim.Finding{Tag: "recover", Msg: fmt.Sprintf("connection %d not dropped after %s; stream %q", id, result(c), clip(stream))})
				}
			}
		}
	}
	// the last worker: once the connection is a clean one, everything works
	last := len(sc.Workers) - 1
	for _, c := range tr.Cmds {
		if c.W != last || c.Err == nil || len(tr.Conns) == 0 {
			continue
		}
		cur := -1
		for i, x := range tr.Conns {
			if x.OpenedAt.Add(tr.Slack()).Before(c.FlushTime) {
				cur = i
			}
		}
		if cur >= len(sc.Plans) && c.DecodeMismatch(c.Op.Reply) != "" {
			o.Findings = append(o.Findings, sim.Finding{Tag: "recover", Msg: fmt.Sprintf("%s failed with %v on the fresh connection %d", c, c.Err, cur)})
		}
		if c.P == 3 && len(sc.Plans) == 1 && len(tr.Conns) == 1 && c.DoneTime.Sub(tr.Began) > 40*time.Second {
			o.Findings = append(o.Findings, sim.Finding{Tag: "recover", Msg: fmt.Sprintf("%s failed with %v and nothing was redialled", c, c.Err)})
		}
	}
	o.Notes["replies that must be rejected"] = must
	o.Trivial = must == 0
	return o
}

// clip shortens.
func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}
