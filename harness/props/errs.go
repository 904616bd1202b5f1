package props

import (
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"pgregory.net/rapid"

	"verif/fakenet"
	"verif/sim"
)

func init() {
	register("C32", 5000, "cause",
		"connections and dials whose every error says where it is from (which connection, which call on it, or which dial), which fail in either direction, at any byte, by time-out, by a refused deadline, by junk or a client error, one after the other, with one or several connections, and clients that are closed. A command that fails without an answer must fail with what happened to the connection that it was sent on (for one that was not sent: to a connection or dial that was the last one when it was flushed, or a later one), never with the consequence of the client's own closing of a connection, and with ErrConnClosed if and only if the client was closed; the logger must get the errors of the dials. Non-trivial: a command failed without an answer, and more than one connection or dial had failed or the client was closed by then",
		genCauses, runCauses)
}

func genCauses(t *rapid.T) *sim.Scenario {
	var sc *sim.Scenario
	switch weighted(t, "from", 4, 2, 2, 2) {
	case 0:
		sc = genFaulty(t, FaultShape{Shape: Shape{Workers: 4, Pipes: 4, Ops: 8, Reps: chance(t, "reps", 30), Unkeyed: chance(t, "unkeyed", 20), ServerErrors: true, Control: 20, Values: 1 << 14},
			Cuts: 80, Stalls: true, Timeouts: true, DialFails: true, Events: true, ClientErrors: pick(t, "ce", 0, 0, 4)})
		if chance(t, "single", 50) {
			sc.Cfg.Conns = 1
		}
	case 1:
		sc = genDown(t)
	case 2:
		sc = genClose(t)
	case 3:
		sc = genPoison(t, false)
	}
	for i := range sc.Plans {
		n := &sc.Plans[i].Net
		if chance(t, "deadlines", 10) {
			n.ReadDLs = between(t, "rdl", 1, 6)
		}
		if chance(t, "deadlines", 10) {
			n.WriteDLs = between(t, "wdl", 1, 6)
		}
	}
	sc.Named = true
	return sc
}

// source is a connection or dial that an error may be from.
type source struct {
	dial, conn int // conn is -1 for a dial that failed
}

func runCauses(t *testing.T, sc *sim.Scenario) Outcome {
	tr, o := runScenario(t, sc)
	if tr.Hang != "" || tr.NewErr != nil {
		return o
	}
	slack := tr.Slack()
	dialOf := map[int]int{}
	nfail := 0
	logged := map[int]bool{}
	for _, l := range tr.Logged {
		var de *sim.DialError
		if errors.As(l, &de) {
			logged[de.N] = true
		}
	}
	for i, d := range tr.Dials {
		if d.Conn >= 0 {
			dialOf[d.Conn] = i
			continue
		}
		if d.Err != nil && !logged[i] {
			o.add("cause", "dial %d failed with %v, the logger was not told", i, d.Err)
		}
		nfail++
	}
	// spoiled connections delivered something that need not be a reply
	spoiled := map[int]bool{}
	clientErrs := map[int]map[string]bool{}
	for _, c := range tr.Conns {
		clientErrs[c.ID] = map[string]bool{}
		p := sc.Default
		if c.ID < len(sc.Plans) {
			p = sc.Plans[c.ID]
		}
		spoiled[c.ID] = len(p.Eager) > 0 && c.NRead() > 0
	}
	for _, r := range tr.Recs {
		if r.Start < 0 || r.Start >= tr.Conns[r.Conn].NRead() {
			continue
		}
		switch {
		case r.Reply.Code == "CLIENT_ERROR":
			clientErrs[r.Conn][r.Reply.Msg] = true
		case r.Reply.Code == "RAW" || !r.Reply.ValidFor(r.Req.Verb):
			spoiled[r.Conn] = true
		}
	}
	causes, confusable, closing := 0, 0, 0
	second := secondFailure(tr)
	judge := func(c *sim.Cmd) string {
		var ce *fakenet.ConnError
		var de *sim.DialError
		var cl memcache.ErrClientError
		var bp memcache.ErrBrokenPipe
		r := tr.Matched(c)
		from := source{-1, -1}
		switch {
		case errors.As(c.Err, &ce):
			if ce.Own {
				return "that is what the client has done itself"
			}
			x := tr.Conns[ce.Conn]
			if at := x.FailedAt; !x.Failed() || at.After(c.DoneTime) {
				return "that has not happened by then"
			}
			if c.PostClose {
				return "the client had been closed"
			}
			from = source{dialOf[ce.Conn], ce.Conn}
		case errors.As(c.Err, &de):
			if c.PostClose {
				return "the client had been closed"
			}
			if tr.Dials[de.N].EndAt.After(c.DoneTime) {
				return "that has not happened by then"
			}
			from = source{de.N, -1}
		case errors.Is(c.Err, memcache.ErrConnClosed):
			if tr.CloseAt.IsZero() || c.DoneTime.Before(tr.CloseAt) {
				return "the client is not closed"
			}
			return ""
		case errors.As(c.Err, &cl):
			if c.PostClose {
				return "the client had been closed"
			}
			for _, x := range tr.Conns {
				if (clientErrs[x.ID][cl.Message] || spoiled[x.ID]) && (r == nil || r.Conn == x.ID) {
					return ""
				}
			}
			return "no such reply was delivered there"
		case errors.As(c.Err, &bp):
			if c.PostClose {
				return "the client had been closed"
			}
			for _, x := range tr.Conns {
				if spoiled[x.ID] && (r == nil || r.Conn == x.ID) {
					return ""
				}
			}
			return "every reply there was a reply"
		default:
			return "that is not what happened to any connection or dial"
		}
		if r != nil {
			if from.conn != r.Conn {
				return fmt.Sprintf("it was sent on connection %d", r.Conn)
			}
			return ""
		}
		if tr.NConns() == 1 {
			for _, x := range tr.Conns {
				if dialOf[x.ID] > from.dial && x.OpenedAt.Add(slack).Before(c.FlushTime) {
					return fmt.Sprintf("connection %d had been there since %v when it was flushed at %v", x.ID, x.OpenedAt.Sub(tr.Began), c.FlushTime.Sub(tr.Began))
				}
			}
		}
		return ""
	}
	for _, c := range tr.Cmds {
		if !c.Issued || !c.Flushed() || !c.Returned || c.Err == nil || !c.Valid() || c.Panic != "" || memcache.IsServerError(c.Err) || errors.Is(c.Err, memcache.ErrAlreadyGotten) {
			continue
		}
		if r := tr.Matched(c); r != nil && r.End >= 0 && r.End <= tr.Conns[r.Conn].NRead() && c.DecodeMismatch(r.Reply) == "" {
			continue // its own client error
		}
		causes++
		closed := !tr.CloseAt.IsZero() && !c.DoneTime.Before(tr.CloseAt)
		if closed {
			closing++
		}
		if closed || !c.DoneTime.Before(second) {
			confusable++
		}
		if m := judge(c); m != "" {
			on := "not sent"
			if r := tr.Matched(c); r != nil {
				on = fmt.Sprintf("sent on connection %d", r.Conn)
			}
			o.add("cause", "%s (%s, flushed at %v, done at %v) failed with %q: %s", c, on, c.FlushTime.Sub(tr.Began), c.DoneTime.Sub(tr.Began), c.Err, m)
		}
	}
	o.Trivial = confusable == 0
	o.Notes["causes judged"] = causes
	o.class("a dial failed", nfail > 0)
	o.class("closed with commands that failed", closing > 0)
	o.class("one connection", tr.NConns() == 1)
	return o
}

// secondFailure is when the second of the connections and dials had failed.
func secondFailure(tr *sim.Trace) time.Time {
	var at []time.Time
	for _, d := range tr.Dials {
		if d.Err != nil {
			at = append(at, d.EndAt)
		}
	}
	for _, c := range tr.Conns {
		if g, ok := tr.GoneAt(c); ok {
			at = append(at, g)
		}
	}
	if len(at) < 2 {
		return time.Unix(1<<40, 0)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
	return at[1]
}
