// Package sim runs generated scenarios against the real client over an
// in-memory network and records everything observable.
package sim

import (
	"fmt"
	"strconv"
	"time"

	"verif/fakenet"
	"verif/mc"
	"verif/vsync"
)

// Scenario is one generated case, complete and serialisable.
type Scenario struct {
	Cfg     Config
	Sched   Sched      `json:",omitzero"`
	Workers []Worker   `json:",omitempty"`
	Plans   []ConnPlan `json:",omitempty"` // by order of successful dials; beyond: Default
	Default ConnPlan   `json:",omitzero"`
	Dials   []DialPlan `json:",omitempty"` // by order of dials; beyond: immediate success
	Events  []Event    `json:",omitempty"`
	Tail    int64      `json:",omitempty"` // ns to idle between the end of the workers and Close
	NoClose bool       `json:",omitempty"` // an event closes the client
	Closes  int        `json:",omitempty"` // additional Close calls at the end
	Phase   string     `json:",omitempty"` // free for profiles
	Auth    *Auth      `json:",omitempty"`
	SlowAt  int64      `json:",omitempty"` // from that time on (if not 0) every segment of replies
	SlowBy  int64      `json:",omitempty"` // is delayed by that much
	Clean   bool       `json:",omitempty"` // nothing goes wrong: no command may fail, no connection may be dropped
	// Unkeyed are the replies to successive version and flush_all requests, on
	// any connection; one without a code stands for the usual reply.
	Unkeyed []mc.Reply `json:",omitempty"`
	// Others are further clients in the same process, each with its own server;
	// the scheduling is that of the first.
	Others []Scenario `json:",omitempty"`
	Begin  int64      `json:",omitempty"` // ns to wait before New
	Named  bool       `json:",omitempty"` // errors of connections and dials say where they are from
}

// Auth asks for password authentication.
type Auth struct {
	User, Pass string
	Answers    [][]byte `json:",omitempty"` // by order of connections; beyond: STORED
	Stall      []bool   `json:",omitempty"` // no EOF after the answer
}

// Config holds client options; zero means not set.
type Config struct {
	Conns, MaxBatch, WriteLimit, BufSize     int   `json:",omitempty"`
	ReadTimeout, WriteTimeout, Retry, Health int64 `json:",omitempty"`
}

// Sched controls the scheduling points.
type Sched = vsync.Plan

// Pace is a step of the server's reply writer: wait Delay ns, then send up to
// Max replies (0: all there are) in one segment.
type Pace struct {
	Delay int64 `json:",omitempty"`
	Max   int   `json:",omitempty"`
}

// ConnPlan is how the network and the server treat one connection.
type ConnPlan struct {
	Net       fakenet.Plan `json:",omitzero"`
	Pace      []Pace       `json:",omitempty"` // cyclic
	Hold      int          `json:",omitempty"` // no reply before that many requests arrived
	RecvMax   int          `json:",omitempty"` // server reads at most that many bytes at a time
	RecvDelay int64        `json:",omitempty"` // and waits that long in between
	Script    []mc.Reply   `json:",omitempty"` // replies by request index, overriding the ops' replies
	ScriptEnd string       `json:",omitempty"` // what happens after the script: "" default replies, "eof", "reset", "stall"
	Eager     []byte       `json:",omitempty"` // bytes sent before any request
	Ill       bool         `json:",omitempty"` // for profiles: something is wrong with it
}

// DialPlan is the outcome of one dial.
type DialPlan struct {
	Fail  bool  `json:",omitempty"`
	Delay int64 `json:",omitempty"`

	Error string `json:",omitempty"` // key of fakenet.Errors, for a failing dial
}

// Event happens at a virtual time.
type Event struct {
	At   int64
	Kind string // "down", "up", "killall" (reset), "eofall", "stallall", "close"
}

// Worker is one goroutine running pipelines one after the other.
type Worker struct {
	Start int64 `json:",omitempty"`
	Pipes []Pipe
}

// Pipe is the use of one Pipeline.
type Pipe struct {
	Ops      []Op
	NoFinish bool `json:",omitempty"`
}

// Op is a step on a pipeline.
//
// Kinds: get, getfast, set, del, ver, flush add commands; exec, finish, sleep
// (Arg ns), call (result function Arg of the pipeline, modulo the number of
// commands so far), release (the value of the command, once called), mutate
// (overwrite the slice given to set Arg), scribble (on the value of get Arg),
// donate (release a slice of length Arg and capacity N), sync (wait until everything idles).
type Op struct {
	K     string
	Key   string   `json:",omitempty"`
	N     uint32   `json:",omitempty"`
	Cas   bool     `json:",omitempty"`
	CasV  uint64   `json:",omitempty"`
	TTL   uint32   `json:",omitempty"`
	I     bool     `json:",omitempty"`
	Value mc.Value `json:",omitzero"`
	Reply mc.Reply `json:",omitzero"`
	Arg   int64    `json:",omitempty"`
	Rep   int      `json:",omitempty"` // repeat with keys Key.0 .. Key.(Rep-1)
}

// IsCmd reports whether the op adds a command.
func (o *Op) IsCmd() bool {
	switch o.K {
	case "get", "getfast", "set", "del", "ver", "flush":
		return true
	}
	return false
}

// Verb is the protocol verb of a command op.
func (o *Op) Verb() string {
	switch o.K {
	case "get", "getfast":
		return "mg"
	case "set":
		return "ms"
	case "del":
		return "md"
	case "ver":
		return "version"
	case "flush":
		return "flush_all"
	}
	return ""
}

// ValueFor is the value of the k-th repetition of a set.
func (o *Op) ValueFor(k int) mc.Value {
	v := o.Value
	if k > 0 {
		v.Seed += uint32(k)
		v.Len += k % 3
	}
	return v
}

// ReplyFor is the reply to the k-th repetition.
func (o *Op) ReplyFor(k int) mc.Reply {
	r := o.Reply
	if k == 0 {
		return r
	}
	if r.Code == "VA" {
		r.Value.Seed += uint32(k)
		r.Value.Len += k % 3
	}
	if len(r.Msg) > 0 {
		r.Msg = fmt.Sprintf("%s/%d", r.Msg, k)
	}
	toks := append([]string(nil), r.Toks...)
	for i, t := range toks {
		if t[0] == 'c' {
			n, _ := strconv.ParseUint(t[1:], 10, 64)
			toks[i] = fmt.Sprintf("c%d", n+uint64(k))
		}
	}
	r.Toks = toks
	return r
}

// span is how long the scenario itself asks its workers and events to wait.
func (sc *Scenario) span() time.Duration {
	n := int64(0)
	for _, e := range sc.Events {
		n = max(n, e.At)
	}
	for _, w := range sc.Workers {
		k := w.Start
		for _, p := range w.Pipes {
			for _, o := range p.Ops {
				if o.K == "sleep" {
					k += o.Arg
				}
			}
		}
		n = max(n, k)
	}
	return time.Duration(n)
}
