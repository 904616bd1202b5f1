package props

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verif/fakenet"
	"verif/sim"
	"verif/vsync"
)

// AuthConn is one dialled connection and how the server treats its
// authentication.
type AuthConn struct {
	DialFail  bool   `json:",omitempty"`
	DialDelay int64  `json:",omitempty"`
	Answer    []byte // what the server answers
	Wait      int64  `json:",omitempty"` // before the answer
	Split     []int  `json:",omitempty"` // sizes of the segments of the answer
	Gap       int64  `json:",omitempty"` // between them
	// End is what follows: "" (nothing), "eof" or "reset".
	End string       `json:",omitempty"`
	Net fakenet.Plan `json:",omitzero"`
}

// AuthCase is a sequence of dials with password authentication: by hand
// (Client and Stats nil), or of a client.
type AuthCase struct {
	User, Pass string
	Timeout    int64      `json:",omitempty"`
	Conns      []AuthConn `json:",omitempty"`
	Parallel   bool       `json:",omitempty"`
	Stats      bool       `json:",omitempty"` // the connections are dialled by statistics clients
	Client     *sim.Scenario
}

const stored = "STORED\r\n"

func (c *AuthCase) request() string {
	return fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", len(c.User)+1+len(c.Pass), c.User, c.Pass)
}

// verdict says whether the dial of the connection must succeed or must fail
// (neither: both are all right), and when it is over at the latest.
func (c *AuthCase) verdict(a *AuthConn) (good, bad bool, limit time.Duration) {
	T := time.Duration(c.Timeout)
	limit = time.Duration(a.DialDelay) + T + T/5
	if T == 0 {
		limit += time.Duration(a.Wait) + time.Duration(len(a.Answer))*time.Duration(a.Gap) + time.Second
	}
	if a.DialFail {
		return false, true, time.Duration(a.DialDelay)
	}
	req := len(c.request())
	if a.Net.WriteFault != "" && a.Net.WriteCut < req {
		return false, true, limit
	}
	n := min(len(a.Answer), len(stored))
	if a.Net.ReadFault != "" {
		n = min(n, a.Net.ReadCut)
	}
	if string(a.Answer[:n]) != stored { // wrong or short
		return false, true, limit
	}
	// when the last byte of STORED arrives
	d := time.Duration(a.Wait)
	for left, i := len(stored), 0; left > 0; i++ {
		k := left
		if len(a.Split) > 0 {
			k = max(1, a.Split[i%len(a.Split)])
		}
		left -= k
		if left > 0 {
			d += time.Duration(a.Gap)
		}
	}
	if d > T+T/5 && T > 0 {
		return false, true, limit
	}
	return T == 0 || time.Duration(a.DialDelay)+d < T-T/5, false, limit
}

type authResult struct {
	conn     *fakenet.Conn
	got      net.Conn
	err      error
	took     time.Duration
	panicky  string
	args     []string // of the inner dial
	written  []byte   // by the client, all in all
	wrong    []string
	closed   bool // right after the dial
	pid      uint64
	usedFine bool
}

// runAuthDials runs the dials by hand.
func runAuthDials(t *testing.T, c *AuthCase) (res []*authResult, hang string) {
	synctest.Test(t, func(*testing.T) {
		vsync.Start()
		res = make([]*authResult, len(c.Conns))
		var all sync.WaitGroup // servers
		auth, err := netconn.NewPasswordAuth(c.User, c.Pass)
		if err != nil {
			panic(err)
		}
		one := func(i int) {
			a := &c.Conns[i]
			r := &authResult{}
			res[i] = r
			inner := func(network, addr string, timeout time.Duration) (net.Conn, error) {
				r.args = append(r.args, fmt.Sprintf("%s %s %v", network, addr, timeout))
				if a.DialDelay > 0 {
					time.Sleep(time.Duration(a.DialDelay))
				}
				if a.DialFail {
					return nil, fmt.Errorf("refused %d", i)
				}
				r.conn = fakenet.New(i, a.Net)
				all.Add(1)
				go func() {
					defer all.Done()
					serveAuth(c, a, r)
				}()
				return r.conn, nil
			}
			dial := auth.GetDialFunc(inner)
			at := time.Now()
			protected(&r.panicky, func() {
				if c.Stats {
					opts := []netconn.Option{netconn.WithDialFunc(dial)}
					cl := stats.New("addr:1", stats.WithNetConnOptions(opts...), stats.WithErrorLogger(func(error) {}))
					r.took = time.Since(at)
					r.closed = r.conn == nil || r.conn.Closed()
					g, err := cl.GetGeneralStats()
					r.err, r.pid = err, g.PID
					if err == nil {
						r.got = r.conn
					}
					_ = cl.Close()
					return
				}
				r.got, r.err = dial("tcp", "addr:1", time.Duration(c.Timeout))
				r.took = time.Since(at)
				r.closed = r.conn == nil || r.conn.Closed()
				if r.err == nil && r.got != nil && a.End == "" && a.Net.ReadFault == "" && a.Net.WriteFault == "" {
					useAuthConn(c, i, r)
				}
			})
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			var wg sync.WaitGroup
			for i := range c.Conns {
				if c.Parallel {
					wg.Add(1)
					go func() {
						defer wg.Done()
						one(i)
					}()
				} else {
					one(i)
				}
			}
			wg.Wait()
		}()
		tm := time.NewTimer(time.Hour)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			buf := make([]byte, 1<<18)
			hang = "a dial with authentication does not return\n" + string(buf[:runtime.Stack(buf, true)])
			if sim.OnHang != nil {
				sim.OnHang(&sim.Trace{Hang: hang})
			}
			panic(hang)
		}
		synctest.Wait()
		for _, r := range res {
			if r.conn != nil {
				r.conn.ServerReset()
			}
		}
		all.Wait()
	})
	return
}

func protected(to *string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<14)
			*to = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
}

// useAuthConn exchanges bytes over an accepted connection, also long after the
// authentication.
func useAuthConn(c *AuthCase, i int, r *authResult) {
	for _, pause := range []time.Duration{0, 3*time.Duration(c.Timeout) + time.Second} {
		time.Sleep(pause)
		msg := []byte(fmt.Sprintf("ping%d%v\r\n", i, pause))
		if n, err := r.got.Write(msg); err != nil || n != len(msg) {
			r.wrong = append(r.wrong, fmt.Sprintf("writing on the accepted connection %v after the dial: %d, %v", pause, n, err))
			return
		}
		buf := make([]byte, len(msg))
		if n, err := io.ReadFull(r.got, buf); err != nil || !bytes.Equal(buf, msg) {
			r.wrong = append(r.wrong, fmt.Sprintf("reading on the accepted connection %v after the dial: %q, %v, want %q", pause, buf[:n], err, msg))
			return
		}
	}
	r.usedFine = true
	_ = r.got.Close()
}

// serveAuth plays the server on one connection: the answer, then an echo (or
// statistics).
func serveAuth(c *AuthCase, a *AuthConn, r *authResult) {
	want := c.request()
	conn := r.conn
	for len(r.written) < len(want) {
		data, ok := conn.ServerRead(0)
		if !ok {
			return
		}
		r.written = append(r.written, data...)
	}
	if a.Wait > 0 {
		time.Sleep(time.Duration(a.Wait))
	}
	rest := a.Answer
	for i := 0; len(rest) > 0; i++ {
		k := len(rest)
		if len(a.Split) > 0 {
			k = min(k, max(1, a.Split[i%len(a.Split)]))
		}
		conn.ServerWrite(rest[:k])
		if rest = rest[k:]; len(rest) > 0 && a.Gap > 0 {
			time.Sleep(time.Duration(a.Gap))
		}
	}
	switch a.End {
	case "eof":
		conn.ServerEOF()
	case "reset":
		conn.ServerReset()
	}
	for {
		data, ok := conn.ServerRead(0)
		if !ok {
			return
		}
		r.written = append(r.written, data...)
		if c.Stats {
			data = []byte("STAT pid 77\r\nEND\r\n")
		}
		conn.ServerWrite(data)
	}
}

func judgeAuthDials(t *testing.T, c *AuthCase, o *Outcome) {
	res, hang := runAuthDials(t, c)
	if hang != "" {
		o.add("hang", "%s", hang)
		return
	}
	want := c.request()
	for i, r := range res {
		a := &c.Conns[i]
		good, bad, limit := c.verdict(a)
		name := fmt.Sprintf("dial %d (answer %q)", i, a.Answer)
		if r.panicky != "" {
			o.add("panic", "%s: %s", name, r.panicky)
			continue
		}
		if !c.Stats && (len(r.args) != 1 || r.args[0] != fmt.Sprintf("tcp addr:1 %v", time.Duration(c.Timeout))) {
			o.add("auth", "%s: the inner dial was called as %q", name, r.args)
		}
		if (r.err == nil) != (r.got != nil) && !c.Stats {
			o.add("auth", "%s returned connection %v with error %v", name, r.got != nil, r.err)
		}
		switch {
		case bad && r.err == nil:
			o.add("auth", "%s succeeded", name)
		case good && r.err != nil:
			o.add("auth", "%s failed with %v", name, r.err)
		}
		if r.took > limit+time.Millisecond {
			o.add("auth", "%s took %v with timeout %v", name, r.took, time.Duration(c.Timeout))
		}
		if a.DialFail {
			if !c.Stats && (r.err == nil || !strings.Contains(r.err.Error(), fmt.Sprintf("refused %d", i))) {
				o.add("auth", "%s: error of the inner dial became %v", name, r.err)
			}
			continue
		}
		if r.conn == nil {
			continue
		}
		sent := string(r.written)
		if r.err != nil {
			if !r.closed && !(c.Stats && good) {
				o.add("auth", "%s failed, but the connection was not closed", name)
			}
			if !strings.HasPrefix(want, sent) && !(c.Stats && !bad) {
				o.add("auth", "%s failed, but %q was sent", name, sent)
			}
			o.Notes["rejected"]++
			continue
		}
		o.Notes["accepted"]++
		if !strings.HasPrefix(sent, want) {
			o.add("auth", "%s sent %q, want %q", name, sent, want)
		} else if rest := sent[len(want):]; c.Stats {
			if rest != "stats\r\n" {
				o.add("auth", "%s: %q sent after the authentication, want %q", name, rest, "stats\r\n")
			}
			if r.pid != 77 {
				o.add("auth", "%s: statistics pid %d, want 77", name, r.pid)
			}
		} else if p := fmt.Sprintf("ping%d%v\r\n", i, 0*time.Second); !strings.HasPrefix(rest, p) && !strings.HasPrefix(p, rest) {
			o.add("auth", "%s: %q sent after the authentication, want %q", name, rest, p)
		}
		if r.closed {
			o.add("auth", "%s succeeded, but the connection was closed", name)
		}
		for _, w := range r.wrong {
			o.add("auth", "%s: %s", name, w)
		}
	}
}

// genAuthAnswer draws a right, an almost right or another answer.
func genAuthAnswer(t *rapid.T, rightPct int) []byte {
	if chance(t, "right", rightPct) {
		return []byte(stored)
	}
	b := []byte(stored)
	i := between(t, "at", 0, len(b)-1)
	switch weighted(t, "answer", 3, 2, 2, 4) {
	case 0: // one byte is different
		b[i] ^= pick(t, "flip", byte(1), 0x20, 0x80, 4)
	case 1: // one is missing
		b = append(b[:i:i], b[i+1:]...)
	case 2: // one is added
		b = append(b[:i:i], append([]byte{pick(t, "ins", byte(' '), '\r', '\n', 'S', 0)}, b[i:]...)...)
		if bytes.HasPrefix(b, []byte(stored)) {
			b = []byte("ERROR\r\n")
		}
	case 3:
		b = []byte(pick(t, "other", "ERROR\r\n", "CLIENT_ERROR authentication failure\r\n", "CLIENT_ERROR bad data chunk\r\n", "NOT_STORED\r\n", "EXISTS\r\n", "SERVER_ERROR out of memory storing object\r\n", "STORED", "STORE", "HD\r\n", "OK\r\n", "", "\r\n", "\r\nSTORED\r\n", "STORED\n\n", "STORED\r\r\n", "stored\r\n", "ERROR\r\nSTORED\r\n", "\x00\x00\x00\x00\x00\x00\x00\x00", strings.Repeat("X", 3000)))
	}
	return b
}

func genCredential(t *rapid.T, label string, lo int) string {
	n := between(t, label+"n", lo, 12)
	if chance(t, label+"long", 10) {
		n = pick(t, label+"longn", 60, 250, 1000, 5000)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch weighted(t, label+"k", 6, 1, 1) {
		case 0:
			b.WriteByte("abcdefgXYZ0123456789._-"[uni(t, label, 23)])
		case 1:
			b.WriteByte("!#$%&*+/:;=?@[]^{}|~\\'\""[uni(t, label+"s", 23)])
		case 2:
			b.WriteString(pick(t, label+"u", "é", "%d", "%s", "日", "%"))
		}
	}
	if chance(t, label+"edge", 12) { // bytes that look as if they did not belong to it
		x := pick(t, label+"x", " ", "\x00", "\t", "\n", "\r\n", "\"", "\ufeff", "\xff")
		if rapid.Bool().Draw(t, label+"front") {
			return x + b.String()
		}
		b.WriteString(x)
	}
	return b.String()
}

func genAuthCase(t *rapid.T) *AuthCase {
	c := &AuthCase{User: genCredential(t, "user", 0), Pass: genCredential(t, "pass", 0)}
	if chance(t, "client", 35) {
		c.Client = genAuthClient(t, c)
		return c
	}
	c.Stats = chance(t, "stats", 20)
	c.Timeout = int64(pick(t, "timeout", 10*ms, 100*ms, sec, 10*sec))
	if c.Stats {
		c.Timeout = 10 * sec // the default
	}
	if !c.Stats && chance(t, "notimeout", 5) {
		c.Timeout = 0
	}
	c.Parallel = chance(t, "parallel", 30)
	for i := between(t, "nconns", 1, 6); i > 0; i-- {
		a := AuthConn{DialFail: chance(t, "dfail", 7), Answer: genAuthAnswer(t, 50)}
		T := max(c.Timeout, 10*ms)
		a.DialDelay = pick(t, "ddelay", 0, 0, 0, T/10, T/2)
		a.Wait = pick(t, "wait", 0, 0, 0, T/10, T/2, 3*T/2, 5*T)
		if c.Timeout == 0 {
			a.Wait = int64(pick(t, "wait0", 0, ms, sec))
		}
		if chance(t, "split", 40) {
			for j := between(t, "nsplit", 1, 3); j > 0; j-- {
				a.Split = append(a.Split, between(t, "splitn", 1, 7))
			}
			a.Gap = pick(t, "gap", 0, T/100, T/20, T/3, T)
			if c.Timeout == 0 {
				a.Gap = 0
			}
		}
		if chance(t, "chunks", 40) {
			a.Net.ReadChunks = genChunks(t)
		}
		a.End = pick(t, "end", "", "", "eof", "reset")
		switch weighted(t, "fault", 8, 2, 1) {
		case 1:
			a.Net.ReadCut = between(t, "rcut", 0, 9)
			a.Net.ReadFault = pick(t, "rfault", fakenet.FaultEOF, fakenet.FaultReset, fakenet.FaultStall)
		case 2:
			a.Net.WriteCut = between(t, "wcut", 0, len(c.request()))
			a.Net.WriteFault = pick(t, "wfault", fakenet.FaultReset, fakenet.FaultStall)
		}
		if chance(t, "window", 15) {
			a.Net.Window = between(t, "windown", 1, 40)
		}
		if a.End == "reset" && len(a.Net.ReadChunks) > 0 || a.End == "reset" && bytes.HasPrefix(a.Answer, []byte(stored)) {
			a.End = "eof" // a reset may overtake the answer
		}
		if c.Stats && bytes.HasPrefix(a.Answer, []byte(stored)) {
			// for the statistics call that follows to work
			a.End, a.Net.ReadFault, a.Net.WriteFault = "", "", ""
		}
		if c.Timeout == 0 { // an answer that does not end would be waited for
			a.Net.ReadFault, a.Net.WriteFault = "", ""
			if !bytes.HasPrefix(a.Answer, []byte(stored)) {
				a.End = "eof"
			}
		}
		c.Conns = append(c.Conns, a)
	}
	return c
}

func genAuthClient(t *rapid.T, c *AuthCase) *sim.Scenario {
	sc := genFaulty(t, FaultShape{Shape: Shape{Workers: 2, Pipes: 3, Ops: 4, Control: 10, Values: 1 << 10},
		Cuts: 30, DialFails: chance(t, "dialfails", 20), Events: true})
	sc.Cfg.Conns = pick(t, "aconns", 1, 1, 2, 3)
	spread(t, sc.Workers, 2*sec, 12*sec, 25*sec)
	sc.Auth = &sim.Auth{User: c.User, Pass: c.Pass}
	for i := between(t, "nanswers", 1, 6); i > 0; i-- {
		sc.Auth.Answers = append(sc.Auth.Answers, genAuthAnswer(t, 40))
		sc.Auth.Stall = append(sc.Auth.Stall, chance(t, "astall", 40))
	}
	for i := range sc.Plans { // the answer is part of what the plan counts
		if sc.Plans[i].Net.ReadFault != "" {
			sc.Plans[i].Net.ReadCut += pick(t, "shift", 0, 8, 8)
		}
		if sc.Plans[i].Net.WriteFault != "" {
			sc.Plans[i].Net.WriteCut += pick(t, "wshift", 0, len(c.request()))
		}
		sc.Plans[i].Net.EOFData = false
	}
	return sc
}

func judgeAuthClient(t *testing.T, c *AuthCase, o *Outcome) {
	tr, out := runScenario(t, c.Client)
	for _, f := range out.Findings {
		o.Findings = append(o.Findings, f)
	}
	for k, n := range out.Notes {
		o.Notes[k] += n
	}
	if tr.Hang != "" || tr.NewErr != nil {
		return
	}
	a := c.Client.Auth
	want := c.request()
	for _, x := range tr.Conns {
		rejected := x.ID < len(a.Answers) && !bytes.HasPrefix(a.Answers[x.ID], []byte(stored)) || x.NRead() < len(stored)
		if !rejected {
			o.Notes["accepted"]++
			continue
		}
		o.Notes["rejected"]++
		if x.NWritten() > len(want) {
			o.add("auth", "%d bytes were sent on connection %d, whose authentication was not accepted", x.NWritten(), x.ID)
		}
		// the default dial timeout is 10 seconds
		if !x.Closed() || x.ClosedAt.Sub(x.OpenedAt) > 12*time.Second+tr.Slack() {
			o.add("auth", "connection %d, opened at %v, whose authentication was not accepted, was closed: %v at %v", x.ID, x.OpenedAt.Sub(tr.Began), x.Closed(), x.ClosedAt.Sub(tr.Began))
		}
	}
	for i, s := range tr.Auths {
		if s != want {
			o.add("auth", "authentication request %d was %q, want %q", i, s, want)
		}
	}
	// every connection begins with the request
	for _, r := range tr.Recs {
		if tr.Conns[r.Conn].NRead() < len(stored) {
			o.add("auth", "%s was sent on connection %d before its authentication was answered", r.Req.Verb, r.Conn)
		}
	}
}

func init() {
	register("C26", 3000, "auth wire attr once",
		"dials with password authentication: generated credentials, answers (right, one byte off, other, none), delays and segmentation of the answer, failures at every byte, by hand, by statistics clients and by clients that reconnect; the dial must succeed exactly for the answer STORED in time, with exactly the right bytes sent. Non-trivial: a connection was accepted and another rejected",
		genAuthCase,
		func(t *testing.T, c *AuthCase) Outcome {
			o := Outcome{Notes: map[string]int{}}
			if c.Client != nil {
				judgeAuthClient(t, c, &o)
				o.class("client", true)
			} else {
				judgeAuthDials(t, c, &o)
				o.class("statistics client", c.Stats)
				o.class("by hand", !c.Stats)
			}
			o.Trivial = o.Notes["rejected"] == 0 || o.Notes["accepted"] == 0
			return o
		})
}
