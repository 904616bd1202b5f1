package sim

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"

	"verif/fakenet"
	"verif/mc"
)

// Finding is a violation of an oracle.
type Finding struct {
	Tag string
	Msg string
}

func (f Finding) String() string { return f.Tag + ": " + f.Msg }

// Findings collects violations.
type Findings []Finding

func (f *Findings) add(tag, format string, a ...any) {
	if len(*f) < 40 {
		*f = append(*f, Finding{tag, fmt.Sprintf(format, a...)})
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (c *Cmd) String() string {
	return fmt.Sprintf("[w%d p%d #%d %s %q]", c.W, c.P, c.I, c.Op.K, c.Key)
}

// KeyErr is the error the key must be rejected with, nil for valid keys.
func KeyErr(key string) error {
	if key == "" {
		return memcache.ErrKeyEmpty
	}
	for i := 0; i < len(key); i++ {
		if key[i] <= 0x20 || key[i] >= 0x7f {
			return memcache.ErrInvalidKeyFormat
		}
	}
	if len(key) > 250 {
		return memcache.ErrKeyTooLong
	}
	return nil
}

func keyErrOK(key string, err error) bool {
	return errors.Is(err, KeyErr(key)) || len(key) > 250 && errors.Is(err, memcache.ErrKeyTooLong)
}

// Keyed reports whether the command has a key.
func (c *Cmd) Keyed() bool { return c.Op.K != "ver" && c.Op.K != "flush" }

// Valid reports whether the command must be accepted.
func (c *Cmd) Valid() bool { return !c.Keyed() || KeyErr(c.Key) == nil }

// Flushed reports whether the command was flushed.
func (c *Cmd) Flushed() bool { return c.FlushStart != 0 }

// DecodeMismatch compares the result of the command with what the reply says;
// "" if they agree.
func (c *Cmd) DecodeMismatch(rep mc.Reply) string {
	verb := c.Op.Verb()
	switch rep.Code {
	case "SERVER_ERROR":
		se, ok := c.Err.(memcache.ErrServerError) //nolint:errorlint
		if !ok || se.Message != rep.Msg || !memcache.IsServerError(c.Err) {
			return fmt.Sprintf("got error %v, the server sent %s", c.Err, rep)
		}
		return ""
	case "CLIENT_ERROR":
		ce, ok := c.Err.(memcache.ErrClientError) //nolint:errorlint
		if !ok || ce.Message != rep.Msg {
			return fmt.Sprintf("got error %v, the server sent %s", c.Err, rep)
		}
		return ""
	}
	if !rep.ValidFor(verb) {
		if c.Err == nil {
			return fmt.Sprintf("succeeded although the server sent %s", rep)
		}
		return ""
	}
	if c.Err != nil {
		return fmt.Sprintf("failed with %v, the server sent %s", c.Err, rep)
	}
	switch verb {
	case "mg":
		want := memcache.MGetResponse{CAS: rep.Cas()}
		for tok, fl := range map[string]memcache.MGetFlags{"W": memcache.MGetFlagW, "X": memcache.MGetFlagX, "Z": memcache.MGetFlagZ} {
			if rep.Has(tok) {
				want.Flags |= fl
			}
		}
		switch rep.Code {
		case "VA":
			want.Type = memcache.MGetResponseTypeVA
			want.Data = rep.Data()
		case "HD":
			want.Type = memcache.MGetResponseTypeHD
		case "EN":
			want.Type = memcache.MGetResponseTypeEN
		}
		if c.Get.Type != want.Type || c.Get.Flags != want.Flags || c.Get.CAS != want.CAS || !bytes.Equal(c.Copy, want.Data) {
			return fmt.Sprintf("got {type %d flags %d cas %d data %s}, the server sent %s", c.Get.Type, c.Get.Flags, c.Get.CAS, short(c.Copy), rep)
		}
	case "ms":
		want := map[string]memcache.MSetResponseType{"HD": memcache.MSetResponseTypeHD, "NS": memcache.MSetResponseTypeNS,
			"EX": memcache.MSetResponseTypeEX, "NF": memcache.MSetResponseTypeNF}[rep.Code]
		if c.Set.Type != want {
			return fmt.Sprintf("got type %d, the server sent %s", c.Set.Type, rep)
		}
	case "md":
		want := map[string]memcache.MDelResponseType{"HD": memcache.MDelResponseTypeHD,
			"EX": memcache.MDelResponseTypeEX, "NF": memcache.MDelResponseTypeNF}[rep.Code]
		if c.Del.Type != want {
			return fmt.Sprintf("got type %d, the server sent %s", c.Del.Type, rep)
		}
	case "version":
		if c.Ver.Version != rep.Msg {
			return fmt.Sprintf("got version %q, the server sent %s", c.Ver.Version, rep)
		}
	}
	return ""
}

// Slack is a bound on the virtual time the scheduling points can add.
func (t *Trace) Slack() time.Duration {
	return time.Duration(t.Sc.Sched.Limit*t.Sc.Sched.Max) + time.Millisecond
}

func durOr(ns int64, d time.Duration) time.Duration {
	if ns > 0 {
		return time.Duration(ns)
	}
	return d
}

// ReadTimeout is the effective read timeout.
func (t *Trace) ReadTimeout() time.Duration { return durOr(t.Sc.Cfg.ReadTimeout, time.Second) }

// WriteTimeout is the effective write timeout.
func (t *Trace) WriteTimeout() time.Duration { return durOr(t.Sc.Cfg.WriteTimeout, time.Second) }

// Retry is the effective retry interval.
func (t *Trace) Retry() time.Duration { return durOr(t.Sc.Cfg.Retry, 10*time.Second) }

// Health is the effective health check interval.
func (t *Trace) Health() time.Duration { return durOr(t.Sc.Cfg.Health, 15*time.Second) }

// MaxBatch is the effective batch size.
func (t *Trace) MaxBatch() int { return t.maxBatch() }

// WriteLimit is the effective write limit.
func (t *Trace) WriteLimit() int { return t.writeLimit() }

// NConns is the number of connections.
func (t *Trace) NConns() int { return t.nconns() }

func (t *Trace) nconns() int { return max(1, t.Sc.Cfg.Conns) }

// span is a period in which a connection was usable.
type span struct{ from, to time.Time }

func (t *Trace) upSpans() []span {
	var out []span
	for i, d := range t.Dials {
		if d.Conn < 0 {
			continue
		}
		c := t.Conns[d.Conn]
		s := span{from: d.EndAt.Add(t.Slack())}
		if i < t.DialsNew {
			s.from = d.EndAt // in use when New returns
		}
		if c.Failed() {
			s.to = c.FailedAt
		}
		if c.Closed() && (s.to.IsZero() || c.ClosedAt.Before(s.to)) {
			s.to = c.ClosedAt
		}
		out = append(out, s)
	}
	return out
}

// allUp reports whether all connections of the client were certainly usable
// from t0 to t1.
func (t *Trace) allUp(spans []span, t0, t1 time.Time) bool {
	n := 0
	for _, s := range spans {
		if !s.from.After(t0) && (s.to.IsZero() || s.to.After(t1)) {
			n++
		}
	}
	return n >= t.nconns()
}

// Matched returns the request the command produced, nil if none (or several)
// arrived. Version requests are identified by their unique reply.
func (t *Trace) Matched(c *Cmd) *Rec {
	if c.Keyed() {
		if rs := t.ByKey()[c.Key]; len(rs) == 1 {
			return rs[0]
		}
		return nil
	}
	if c.Op.K == "ver" && c.Returned && c.Err == nil {
		if t.byVer == nil {
			t.byVer = map[string]*Rec{}
			for _, r := range t.Recs {
				if r.Reply.Code == "VERSION" {
					t.byVer[r.Reply.Msg] = r
				}
			}
		}
		return t.byVer[c.Ver.Version]
	}
	return nil
}

// pipes groups the commands by pipeline, in program order.
func (t *Trace) pipes() map[[2]int][]*Cmd {
	out := map[[2]int][]*Cmd{}
	for _, c := range t.Cmds {
		k := [2]int{c.W, c.P}
		out[k] = append(out[k], c)
	}
	for _, cs := range out {
		sort.Slice(cs, func(i, j int) bool { return cs[i].I < cs[j].I })
	}
	return out
}

func (t *Trace) maxBatch() int {
	if t.Sc.Cfg.MaxBatch > 0 {
		return t.Sc.Cfg.MaxBatch
	}
	return 100
}

func (t *Trace) writeLimit() int {
	if t.Sc.Cfg.WriteLimit > 0 {
		return t.Sc.Cfg.WriteLimit
	}
	return 500
}

// delivered reports whether the reply was completely handed to the client
// before the connection failed.
func (t *Trace) delivered(r *Rec) bool { return r.End >= 0 && r.End <= t.Conns[r.Conn].NReadOK() }

// Check runs the oracles that hold for every scenario.
func (t *Trace) Check() Findings {
	var f Findings
	if t.Hang != "" {
		f.add("hang", "%s", t.Hang)
		return f
	}
	for _, p := range t.Panics {
		f.add("panic", "%s", p)
	}
	if t.Leak != "" {
		f.add("leak", "goroutines remain after Close: %s", t.Leak)
	}
	if t.Remains != "" {
		f.add("leak", "after Close: %s", t.Remains)
	}
	for _, m := range t.Mutated {
		f.add("own", "%s", m)
	}
	for _, w := range t.Wire {
		f.add("wire", "%s", w)
	}
	if t.NewErr != nil {
		f.add("new", "New failed: %v", t.NewErr)
		return f
	}
	if len(t.Open) > 0 {
		f.add("leak", "connections %v are still open after Close", t.Open)
	}
	if t.LateDial > 0 {
		f.add("leak", "%d dials after Close", t.LateDial)
	}
	for _, e := range t.CloseErr {
		if e != nil {
			f.add("close", "Close returned %v", e)
		}
	}
	if nf := t.failedDials(); nf != len(t.Logged) && t.Sc.Auth == nil {
		f.add("dial", "%d dials failed, %d errors were logged", nf, len(t.Logged))
	}
	t.checkRequests(&f)
	t.checkResults(&f)
	t.checkOrder(&f)
	t.checkLimit(&f)
	t.checkDrops(&f)
	if t.Sc.Clean {
		t.checkClean(&f)
	}
	return f
}

func (t *Trace) failedDials() int {
	n := 0
	for _, d := range t.Dials {
		if d.Err != nil {
			n++
		}
	}
	return n
}

func (t *Trace) checkRequests(f *Findings) {
	by := map[string]*Cmd{}
	nver, nflush := 0, 0
	for _, c := range t.Cmds {
		if c.Keyed() {
			by[c.Key] = c
		} else if c.Flushed() {
			if c.Op.K == "ver" {
				nver++
			} else {
				nflush++
			}
		}
	}
	rver, rflush := 0, 0
	for _, r := range t.Recs {
		if r.Req.Key == "" {
			if r.Req.Verb == "version" {
				rver++
			} else {
				rflush++
			}
			continue
		}
		c := by[r.Req.Key]
		if c == nil {
			f.add("wire", "request %s was never issued", r.Req)
			continue
		}
		want := c.Want()
		if r.Req.Verb != want.Verb || strings.Join(r.Req.Flags, " ") != strings.Join(want.Flags, " ") || !bytes.Equal(r.Req.Data, want.Data) {
			f.add("wire", "%s put %s on the wire, want %s", c, r.Req, want)
		}
		if !c.Valid() {
			f.add("wire", "%s with an invalid key was sent", c)
		}
		if !c.Flushed() {
			f.add("flush", "%s was sent without a flush", c)
		} else if r.Stamp < c.FlushStart {
			f.add("flush", "%s was sent before it was flushed", c)
		}
		if c.PostClose {
			f.add("close", "%s, flushed after Close, was sent", c)
		}
	}
	for k, rs := range t.ByKey() {
		if len(rs) > 1 {
			f.add("once", "request for %q was sent %d times", k, len(rs))
		}
	}
	if rflush > nflush {
		f.add("once", "%d flush_all requests sent, %d issued", rflush, nflush)
	}
	probes := 0
	h := 15 * time.Second
	if t.Sc.Cfg.Health > 0 {
		h = time.Duration(t.Sc.Cfg.Health)
	}
	dur := t.Elapsed
	if !t.CloseEnd.IsZero() {
		dur = t.CloseEnd.Sub(t.Began)
	}
	probes = int(dur/h) * 2 * t.nconns()
	if rver > nver+probes {
		f.add("once", "%d version requests sent, %d issued and at most %d probes", rver, nver, probes)
	}
}

func (t *Trace) checkResults(f *Findings) {
	spans := t.upSpans()
	slack := t.Slack()
	// where the replies on a connection become ones that make the client drop
	// it, or unjudgeable
	firstBad := map[int]int{}
	for _, r := range t.Recs {
		if r.Reply.Code == "RAW" || r.Reply.Code == "CLIENT_ERROR" || !r.Reply.ValidFor(r.Req.Verb) {
			if n, ok := firstBad[r.Conn]; !ok || r.Idx < n {
				firstBad[r.Conn] = r.Idx
			}
		}
	}
	for id := range t.Conns {
		if len(t.Sc.connPlan(id).Eager) > 0 {
			firstBad[id] = -1
		}
	}
	good := func(r *Rec) bool {
		n, bad := firstBad[r.Conn]
		return !bad || r.Idx < n
	}
	// sessions answered completely before their connection failed
	answered := map[[3]int]bool{}
	for _, c := range t.Cmds {
		if !c.Issued || !c.Flushed() {
			continue
		}
		k := [3]int{c.W, c.P, c.Session}
		if _, ok := answered[k]; !ok {
			answered[k] = true
		}
		r := t.Matched(c)
		if r == nil || !t.delivered(r) || !good(r) {
			answered[k] = false
		}
	}
	for _, c := range t.Cmds {
		for i, e := range c.Again {
			if KeyErr(c.Key) != nil && c.Keyed() {
				if !keyErrOK(c.Key, e) {
					f.add("again", "%s: further call %d returned %v", c, i, e)
				}
			} else if !errors.Is(e, memcache.ErrAlreadyGotten) {
				f.add("again", "%s: further call %d returned %v, want ErrAlreadyGotten", c, i, e)
			}
		}
		for _, b := range c.AgainBad {
			f.add("again", "%s: %s", c, b)
		}
		if c.Panic != "" || !c.Returned {
			if c.Called && c.Panic == "" {
				f.add("hang", "%s did not return", c)
			}
			continue
		}
		if !c.Valid() {
			if want := KeyErr(c.Key); !keyErrOK(c.Key, c.Err) {
				f.add("key", "%s with key %q: got %v, want %v", c, c.Key, c.Err, want)
			}
			continue
		}
		if errors.Is(c.Err, memcache.ErrKeyEmpty) || errors.Is(c.Err, memcache.ErrInvalidKeyFormat) || errors.Is(c.Err, memcache.ErrKeyTooLong) {
			f.add("key", "%s: valid key rejected with %v", c, c.Err)
			continue
		}
		if errors.Is(c.Err, memcache.ErrAlreadyGotten) {
			f.add("again", "%s: the first call returned ErrAlreadyGotten", c)
			continue
		}
		if c.Err != nil && (c.Get.Type != 0 || len(c.Get.Data) > 0 || c.Get.CAS != 0 || c.Get.Flags != 0 ||
			c.Set != memcache.MSetResponse{} || c.Del != memcache.MDelResponse{} || c.Ver != memcache.VersionResponse{}) {
			f.add("attr", "%s returned both an error and a response", c)
		}
		if c.PostClose && c.Err == nil {
			f.add("close", "%s was flushed after Close and succeeded", c)
			continue
		}
		if !c.Keyed() {
			t.checkUnkeyed(f, c, spans, slack)
			continue
		}
		r := t.Matched(c)
		if c.Err == nil {
			switch {
			case r == nil && len(t.ByKey()[c.Key]) == 0:
				f.add("attr", "%s succeeded but was never sent", c)
			case r == nil: // duplicates are reported elsewhere
			case r.End < 0 || r.End > t.Conns[r.Conn].NRead():
				f.add("attr", "%s succeeded before its reply arrived (reply %d..%d, %d bytes delivered)", c, r.Start, r.End, t.Conns[r.Conn].NRead())
			case r.Reply.Code == "RAW" && r.Reply.Msg == "lenient":
			default:
				if m := c.DecodeMismatch(r.Reply); m != "" {
					f.add("attr", "%s: %s", c, m)
				}
			}
			continue
		}
		if _, ok := c.Err.(memcache.ErrServerError); ok { //nolint:errorlint
			if r == nil || r.End < 0 || r.End > t.Conns[r.Conn].NRead() {
				f.add("attr", "%s failed with %v, which the server has not sent to it", c, c.Err)
			} else if m := c.DecodeMismatch(r.Reply); m != "" && r.Reply.Code != "RAW" {
				f.add("attr", "%s: %s", c, m)
			}
			continue
		}
		if r != nil && r.Reply.Code == "CLIENT_ERROR" && c.DecodeMismatch(r.Reply) == "" {
			continue
		}
		if ce, ok := c.Err.(memcache.ErrClientError); ok && !t.clientErrorSent(ce.Message) { //nolint:errorlint
			f.add("attr", "%s failed with %v, which the server has never sent", c, c.Err)
			continue
		}
		if r != nil && (r.Reply.Code == "RAW" || !r.Reply.ValidFor(r.Req.Verb)) {
			continue
		}
		if answered[[3]int{c.W, c.P, c.Session}] {
			f.add("err", "%s failed with %v although its pipeline was completely answered (%s)", c, c.Err, r.Reply)
			continue
		}
		t.checkErr(f, c, spans, slack)
	}
}

func (sc *Scenario) connPlan(id int) ConnPlan {
	if id < len(sc.Plans) {
		return sc.Plans[id]
	}
	return sc.Default
}

func (t *Trace) clientErrorSent(msg string) bool {
	for _, r := range t.Recs {
		if (r.Reply.Code == "CLIENT_ERROR" && r.Reply.Msg == msg) || r.Reply.Code == "RAW" {
			return true
		}
	}
	for id := range t.Conns {
		if len(t.Sc.connPlan(id).Eager) > 0 {
			return true
		}
	}
	return false
}

// checkErr judges an error that is not the server's answer.
func (t *Trace) checkErr(f *Findings, c *Cmd, spans []span, slack time.Duration) {
	if c.PostClose {
		return
	}
	closing := !t.CloseAt.IsZero() && !c.DoneTime.Before(t.CloseAt)
	if closing && !c.PreClose {
		return
	}
	if r := t.Matched(c); r != nil {
		// only the failure of the connection it was sent on is an excuse
		x := t.Conns[r.Conn]
		if (!x.Failed() || x.FailedAt.After(c.DoneTime)) && (!x.Closed() || x.ClosedAt.After(c.DoneTime.Add(slack))) { // it may be marked as broken before it is closed
			f.add("err", "%s failed with %v although its connection %d works", c, c.Err, r.Conn)
			return
		}
	}
	if t.allUp(spans, c.FlushTime, c.DoneTime.Add(slack)) || closing && t.Sc.Clean {
		f.add("err", "%s failed with %v although the connection works", c, c.Err)
	}
}

// DropAt is when the client noticed that the connection is unusable: the first
// error it saw, or when it closed it. ok is false if that was not before Close.
func (t *Trace) DropAt(c *fakenet.Conn) (at time.Time, ok bool) {
	at, ok = t.GoneAt(c)
	if ok && !t.CloseAt.IsZero() && !at.Before(t.CloseAt) {
		ok = false
	}
	return at, ok
}

// GoneAt is DropAt without looking at Close.
func (t *Trace) GoneAt(c *fakenet.Conn) (at time.Time, ok bool) {
	if c.Failed() {
		at, ok = c.FailedAt, true
	}
	if c.Closed() && (!ok || c.ClosedAt.Before(at)) {
		at, ok = c.ClosedAt, true
	}
	return at, ok
}

// checkDrops reports connections that the client dropped without a reason, and
// failed ones that it kept.
// WronglyDropped are the connections that the client closed although nothing
// was wrong with them.
func (t *Trace) WronglyDropped() (out []*fakenet.Conn) {
	for _, c := range t.Conns {
		if len(t.Sc.connPlan(c.ID).Eager) > 0 {
			continue
		}
		bad := false
		for _, r := range t.Recs {
			if r.Conn == c.ID && r.Start >= 0 && r.Start < c.NRead() && (r.Reply.Code == "RAW" || r.Reply.Code == "CLIENT_ERROR" || !r.Reply.ValidFor(r.Req.Verb)) {
				bad = true
			}
		}
		if c.Closed() && (t.CloseAt.IsZero() || c.ClosedAt.Before(t.CloseAt)) && !bad && (!c.Failed() || c.FailedAt.After(c.ClosedAt)) {
			out = append(out, c)
		}
	}
	return out
}

func (t *Trace) checkDrops(f *Findings) {
	for _, c := range t.WronglyDropped() {
		f.add("drop", "connection %d was closed by the client although nothing was wrong with it", c.ID)
	}
	for _, c := range t.Conns {
		if len(t.Sc.connPlan(c.ID).Eager) > 0 {
			continue
		}
		if c.Failed() && (t.CloseAt.IsZero() || c.FailedAt.Add(t.Slack()+t.WriteTimeout()).Before(t.CloseAt)) {
			if !c.Closed() || c.ClosedAt.After(c.FailedAt.Add(t.Slack()+t.WriteTimeout())) {
				f.add("keep", "connection %d failed at %v with %v and was not closed", c.ID, c.FailedAt.Sub(t.Began), c.FailErr)
			}
		}
	}
}

func (t *Trace) checkUnkeyed(f *Findings, c *Cmd, spans []span, slack time.Duration) {
	if c.Err == nil {
		if c.Op.K == "ver" {
			if r := t.Matched(c); r == nil {
				for _, r := range t.Recs {
					if r.Reply.Code == "RAW" || len(t.Sc.connPlan(r.Conn).Script) > 0 {
						return
					}
				}
				f.add("attr", "%s: version %q was never sent", c, c.Ver.Version)
			} else if r.End < 0 || r.End > t.Conns[r.Conn].NRead() {
				f.add("attr", "%s succeeded before its reply arrived", c)
			}
		}
		return
	}
	if se, ok := c.Err.(memcache.ErrServerError); ok { //nolint:errorlint
		for _, r := range t.Recs {
			if r.Req.Verb == c.Op.Verb() && r.Reply.Code == "SERVER_ERROR" && r.Reply.Msg == se.Message {
				return
			}
			if r.Reply.Code == "RAW" {
				return
			}
		}
		f.add("attr", "%s failed with %v, which was never sent to such a command", c, c.Err)
		return
	}
	if ce, ok := c.Err.(memcache.ErrClientError); ok && !t.clientErrorSent(ce.Message) { //nolint:errorlint
		f.add("attr", "%s failed with %v, which the server has never sent", c, c.Err)
		return
	}
	for _, r := range t.Recs {
		if r.Reply.Code == "RAW" || !r.Reply.ValidFor(r.Req.Verb) {
			return
		}
	}
	t.checkErr(f, c, spans, slack)
}

func (t *Trace) checkOrder(f *Findings) {
	for _, cs := range t.pipes() {
		var last *Rec
		var lastC *Cmd
		for _, c := range cs {
			r := t.Matched(c)
			if r == nil {
				continue
			}
			if last != nil {
				switch {
				case r.Conn < last.Conn || r.Conn == last.Conn && r.Idx < last.Idx:
					f.add("order", "%s arrived (conn %d, #%d) before %s (conn %d, #%d)", c, r.Conn, r.Idx, lastC, last.Conn, last.Idx)
				case r.Conn != last.Conn:
					lc := t.Conns[last.Conn]
					if !lc.Failed() && (!lc.Closed() || lc.ClosedAt.After(r.At)) {
						f.add("order", "%s went to connection %d while connection %d of its pipeline was in use", c, r.Conn, last.Conn)
					}
				}
			}
			last, lastC = r, c
		}
	}
}

// byConn groups the received requests by connection.
func (t *Trace) byConn() [][]*Rec {
	out := make([][]*Rec, len(t.Conns))
	for _, r := range t.Recs {
		out[r.Conn] = append(out[r.Conn], r)
	}
	return out
}

func (t *Trace) cmdByKey() map[string]*Cmd {
	by := map[string]*Cmd{}
	for _, c := range t.Cmds {
		if c.Keyed() && c.Valid() {
			by[c.Key] = c
		}
	}
	return by
}

type batchID struct{ w, p, s, b int }

// MaxOutstanding is the largest number of requests of unanswered batches that
// was seen on each connection when a request of a batch arrived that is not
// larger than the write limit.
func (t *Trace) MaxOutstanding() (most []int, at []*Rec) {
	by := t.cmdByKey()
	size := map[batchID]int{}
	if t.maxBatch() > t.writeLimit() {
		for _, c := range t.Cmds {
			if c.Issued && c.Flushed() && c.Valid() {
				size[batchID{c.W, c.P, c.Session, c.Pos / t.maxBatch()}]++
			}
		}
	}
	for _, recs := range t.byConn() {
		m := 0
		var where, lead *Rec
		type group struct {
			first *Rec
			n     int
		}
		var open []*group
		cur := batchID{w: -1}
		total := 0
		for _, r := range recs {
			c := by[r.Req.Key]
			if c == nil {
				// it may belong to the batch of the next keyed request
				if lead == nil {
					lead = r
				}
				continue
			}
			id := batchID{c.W, c.P, c.Session, c.Pos / t.maxBatch()}
			if id == cur && len(open) == 0 {
				continue // of a batch that is being answered
			}
			if id != cur {
				first := r
				if lead != nil {
					first = lead
				}
				open = append(open, &group{first: first})
				cur = id
			}
			lead = nil
			open[len(open)-1].n++
			total++
			for len(open) > 0 && open[0].first.Start >= 0 && r.Seen > open[0].first.Start {
				total -= open[0].n
				open = open[1:]
			}
			if total > m && size[id] <= t.writeLimit() {
				m, where = total, r
			}
		}
		most = append(most, m)
		at = append(at, where)
	}
	return most, at
}

func (t *Trace) checkLimit(f *Findings) {
	most, at := t.MaxOutstanding()
	for i, m := range most {
		if m > t.writeLimit() {
			f.add("limit", "connection %d: %d unanswered commands when %s arrived, the limit is %d", i, m, at[i].Req, t.writeLimit())
		}
	}
}

func (t *Trace) checkClean(f *Findings) {
	if len(t.Dials) != t.nconns() {
		f.add("conn", "%d dials for %d connections although nothing failed", len(t.Dials), t.nconns())
	}
	for _, c := range t.Conns {
		if c.Failed() && c.FailedAt.Before(t.CloseAt) {
			f.add("conn", "connection %d failed with %v although nothing is wrong", c.ID, c.FailErr)
		} else if c.Closed() && c.ClosedAt.Before(t.CloseAt) {
			f.add("conn", "connection %d was dropped although nothing is wrong", c.ID)
		}
	}
	nver, nflush := 0, 0
	for _, c := range t.Cmds {
		if !c.Flushed() || !c.Issued {
			continue
		}
		if !c.PreClose && !t.CloseEnd.IsZero() && (c.Pushed.IsZero() || !c.Pushed.Before(t.CloseAt)) {
			continue
		}
		switch {
		case c.Op.K == "ver":
			nver++
		case c.Op.K == "flush":
			nflush++
		case len(t.ByKey()[c.Key]) == 0:
			f.add("lost", "%s was flushed but never sent", c)
		case t.Sc.Tail >= int64(time.Minute) && !t.ByKey()[c.Key][0].At.Before(t.CloseAt):
			f.add("lost", "%s was flushed but not sent before Close", c)
		}
	}
	rver, rflush := 0, 0
	for _, r := range t.Recs {
		switch r.Req.Verb {
		case "version":
			rver++
		case "flush_all":
			rflush++
		}
	}
	if rver < nver || rflush < nflush {
		f.add("lost", "%d version and %d flush_all flushed, %d and %d sent", nver, nflush, rver, rflush)
	}
	for i, p := range t.Pending {
		if p > 0 {
			f.add("wire", "connection %d: an incomplete request of %d bytes at the end", i, p)
		}
	}
}

// Dump renders the trace.
func (t *Trace) Dump() string {
	var b strings.Builder
	for i, d := range t.Dials {
		fmt.Fprintf(&b, "dial %d at %v..%v conn %d err %v\n", i, d.At.Sub(t.Began), d.EndAt.Sub(t.Began), d.Conn, d.Err)
	}
	for _, c := range t.Conns {
		fmt.Fprintf(&b, "conn %d closed %v at %v failed %v at %v (%v) read %d/%d written %d\n", c.ID, c.Closed(), c.ClosedAt.Sub(t.Began), c.Failed(), c.FailedAt.Sub(t.Began), c.FailErr, c.NReadOK(), c.NRead(), c.NWritten())
		for _, w := range c.Writes {
			fmt.Fprintf(&b, "   write %d at %v err %v\n", w.N, w.At.Sub(t.Began), w.Err)
		}
		for _, w := range c.Delivered {
			fmt.Fprintf(&b, "   read up to %d at %v\n", w.N, w.At.Sub(t.Began))
		}
	}
	for _, r := range t.Recs {
		fmt.Fprintf(&b, "rec %d stamp %d conn %d #%d at %v seen %d: %s -> %s at %d..%d\n", r.Seq, r.Stamp, r.Conn, r.Idx, r.At.Sub(t.Began), r.Seen, r.Req, r.Reply, r.Start, r.End)
	}
	for _, c := range t.Cmds {
		fmt.Fprintf(&b, "cmd %s s%d.%d issued %d flush %d..%d at %v pushed %v done %v stamp %d returned %v err %v pre %v post %v\n", c, c.Session, c.Pos, c.IssuedAt, c.FlushStart, c.FlushEnd, c.FlushTime.Sub(t.Began), c.Pushed.Sub(t.Began), c.DoneTime.Sub(t.Began), c.DoneStamp, c.Returned, c.Err, c.PreClose, c.PostClose)
	}
	fmt.Fprintf(&b, "close %v..%v; late dials %d, open %v leak %q\n", t.CloseAt.Sub(t.Began), t.CloseEnd.Sub(t.Began), t.LateDial, t.Open, t.Leak)
	return b.String()
}
