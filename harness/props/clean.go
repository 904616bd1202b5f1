package props

import (
	"fmt"
	"os"
	"slices"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/sim"
)

func runScenario(t *testing.T, sc *sim.Scenario) (*sim.Trace, Outcome) {
	tr := sim.Run(t, sc)
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Println(tr.Dump())
	}
	o := Outcome{Findings: tr.Check(), Notes: map[string]int{}}
	o.Notes["commands"] = len(tr.Cmds)
	o.Notes["requests"] = len(tr.Recs)
	o.Notes["scheduling points"] = int(tr.Visited)
	o.Notes["points where others ran"] = int(tr.Slept)
	o.class("several workers", len(sc.Workers) > 1)
	o.class("scheduling perturbed", tr.Slept > 0)
	o.class("more than 500 requests", len(tr.Recs) > 500)
	failed := 0
	for _, c := range tr.Conns {
		if c.Failed() && (tr.CloseAt.IsZero() || c.FailedAt.Before(tr.CloseAt)) {
			failed++
		}
	}
	nerr := 0
	for _, c := range tr.Cmds {
		if c.Returned && c.Err != nil {
			nerr++
		}
	}
	o.Notes["connections failed"] = failed
	o.Notes["commands with errors"] = nerr
	o.class("a connection failed", failed > 0)
	o.class("reconnected", len(tr.Conns) > max(1, sc.Cfg.Conns))
	return tr, o
}

func (o *Outcome) class(name string, cond bool) {
	if cond {
		o.Classes = append(o.Classes, name)
	}
}

func failures(o *Outcome) bool {
	return o.Notes["connections failed"] > 0
}

func init() {
	register("C01", 800, "attr err lost once wire again",
		"scenario (options, goroutines, pipelines, commands, replies, segmentation, pacing, scheduling) on a fault-free server, in part on one whose connections fail; non-trivial: at least 4 requests reached the server",
		func(t *rapid.T) *sim.Scenario {
			if rarely(t, "marathon", 800) {
				return genMarathon(t)
			}
			if rarely(t, "huge", 400) {
				return genHuge(t)
			}
			sh := Shape{Workers: 5, Pipes: 3, Ops: 10, Reps: true, Unkeyed: true, InvalidKeys: true, ServerErrors: true, Control: 20, Own: chance(t, "own", 30), Values: 1 << 20}
			if chance(t, "faulty", 25) {
				sh.Values, sh.Own = 1<<18, true
				return genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true, DialFails: true, Events: true, ClientErrors: pick(t, "ces", 0, 0, 10)})
			}
			return genClean(t, sh)
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			o.Trivial = len(tr.Recs) < 4
			o.class("chunked reads", len(sc.Default.Net.ReadChunks) > 0)
			return o
		})

	register("C02", 700, "wire once lost key",
		"commands with boundary-seeking keys, values (0 to 2 MiB, rarely to 32 MiB, protocol look-alikes) and options, over several connections, with and without failing connections; every byte the server receives is parsed strictly; non-trivial: at least 3 requests parsed, one of them with an option or a value",
		func(t *rapid.T) *sim.Scenario {
			if rarely(t, "huge", 400) {
				return genHuge(t)
			}
			sh := Shape{Workers: 3, Pipes: 3, Ops: 14, Reps: true, Unkeyed: true, InvalidKeys: true, Control: 12, Own: chance(t, "own", 30), Values: 3 << 20}
			if chance(t, "faulty", 25) {
				sh.Values = 1 << 18
				return genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true})
			}
			return genClean(t, sh)
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			rich := false
			big := 0
			for _, r := range tr.Recs {
				rich = rich || len(r.Req.Flags) > 1 || len(r.Req.Data) > 0
				if len(r.Req.Data) > 1<<16 {
					big++
				}
			}
			o.class("value over 64 KiB", big > 0)
			o.Trivial = len(tr.Recs) < 3 || !rich
			return o
		})

	register("C03", 850, "order lost",
		"pipelines split into several batches and flush rounds, sharing connections with other goroutines, with and without failures; non-trivial: some pipeline had at least 3 requests and two batches or rounds",
		func(t *rapid.T) *sim.Scenario {
			sh := Shape{Workers: 4, Pipes: 2, Ops: 12, Reps: true, ServerErrors: true, Control: 25, Values: 1 << 16}
			var sc *sim.Scenario
			if chance(t, "faulty", 35) {
				sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true, DialFails: true, Events: true})
			} else {
				sc = genClean(t, sh)
			}
			if chance(t, "smallbatch", 50) {
				sc.Cfg.MaxBatch = between(t, "sb", 1, 4)
			}
			return sc
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			o.Trivial = true
			mb := sc.Cfg.MaxBatch
			if mb == 0 {
				mb = 100
			}
			type key struct{ w, p, s, b int }
			n := map[[2]int]int{}
			batches := map[[2]int]map[key]bool{}
			for _, c := range tr.Cmds {
				if !c.Keyed() || len(tr.ByKey()[c.Key]) != 1 {
					continue
				}
				pp := [2]int{c.W, c.P}
				n[pp]++
				if batches[pp] == nil {
					batches[pp] = map[key]bool{}
				}
				batches[pp][key{c.W, c.P, c.Session, c.Pos / mb}] = true
				if n[pp] >= 3 && len(batches[pp]) >= 2 {
					o.Trivial = false
				}
			}
			return o
		})

	register("C04", 1400, "flush once lost",
		"pipelines with pauses, Execute, abandoned pipelines (no Finish), failing connections; the server stamps every arrival; non-trivial: at least 3 requests and at least one command never flushed, flushed by Execute, or caught in a failure",
		func(t *rapid.T) *sim.Scenario {
			sh := Shape{Workers: 3, Pipes: 3, Ops: 10, Reps: true, Unkeyed: true, Control: 40, Own: chance(t, "own", 25), NoFinish: true, Values: 1 << 16}
			var sc *sim.Scenario
			if chance(t, "faulty", 50) {
				sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, Timeouts: true, DialFails: true, Events: true, ClientErrors: 3})
			} else {
				sc = genClean(t, sh)
				sc.Tail = int64(2 * time.Minute)
			}
			return sc
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			un, ex := 0, 0
			for _, c := range tr.Cmds {
				if c.Issued && !c.Flushed() {
					un++
				}
			}
			for _, w := range sc.Workers {
				for _, p := range w.Pipes {
					for _, op := range p.Ops {
						if op.K == "exec" {
							ex++
						}
					}
				}
			}
			o.class("commands never flushed", un > 0)
			o.class("Execute used", ex > 0)
			o.Trivial = len(tr.Recs) < 3 || un == 0 && ex == 0 && !failures(&o)
			return o
		})

	register("C08", 650, "own attr wire stale",
		"sets whose slices are overwritten after the call, gets whose values are held, overwritten and released at random moments while other commands run, in part on connections that answer with replies of the wrong kind and fail; values seek pool size classes; non-trivial: a value was held or a slice overwritten while commands were in flight",
		func(t *rapid.T) *sim.Scenario {
			if rarely(t, "huge", 400) {
				return genHuge(t)
			}
			if chance(t, "poison", 30) {
				sc := genPoison(t, true)
				sc.Phase = "poison"
				return sc
			}
			return genClean(t, Shape{Workers: 4, Pipes: 4, Ops: 18, Reps: true, Control: 45, Own: true, Values: pick(t, "budget", 1<<16, 1<<20, 1<<20, 3<<20)})
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			ops := map[string]int{}
			for _, w := range sc.Workers {
				for _, p := range w.Pipes {
					for _, op := range p.Ops {
						ops[op.K]++
					}
				}
			}
			if sc.Phase == "poison" {
				o.class("replies of the wrong kind, broken connections", true)
				// what junk says is not judged, but what becomes of it is
				o.Findings = slices.DeleteFunc(o.Findings, func(f sim.Finding) bool { return f.Tag == "attr" })
				if tr.Hang == "" && tr.NewErr == nil {
					judgeFresh(tr, &o, len(sc.Plans))
				}
			}
			o.class("released", ops["release"] > 0)
			o.class("mutated", ops["mutate"] > 0)
			held := 0
			for _, c := range tr.Cmds {
				if c.Returned && c.Err == nil && len(c.Copy) > 0 {
					held++
				}
			}
			o.Notes["values held"] = held
			o.Trivial = held == 0 && ops["mutate"] == 0 || len(tr.Recs) < 3
			return o
		})

	register("C18", 2400, "key wire lost attr err",
		"keys of boundary lengths and arbitrary bytes (every class of invalid byte, UTF-8, CR LF injection) mixed with valid commands, in part while connections fail; non-trivial: an invalid and a valid key in the same case",
		func(t *rapid.T) *sim.Scenario {
			sh := Shape{Workers: 2, Pipes: 3, Ops: 20, Control: 10, Values: 1 << 14}
			var sc *sim.Scenario
			if chance(t, "faulty", 20) {
				sc = genFaulty(t, FaultShape{Shape: sh, Cuts: 60, DialFails: true, Events: true})
			} else {
				sc = genClean(t, sh)
			}
			k := &keyGen{n: 100000}
			for w := range sc.Workers {
				for p := range sc.Workers[w].Pipes {
					for i := range sc.Workers[w].Pipes[p].Ops {
						op := &sc.Workers[w].Pipes[p].Ops[i]
						if !op.IsCmd() || op.Key == "" {
							continue
						}
						switch weighted(t, "keykind", 5, 4, 3) {
						case 1:
							op.Key = genInvalidKey(t)
						case 2:
							op.Key = genAnyKey(t, k)
						}
					}
				}
			}
			return sc
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			good, bad := 0, 0
			for _, c := range tr.Cmds {
				if c.Keyed() {
					if c.Valid() {
						good++
					} else {
						bad++
					}
				}
			}
			o.Notes["valid keys"], o.Notes["invalid keys"] = good, bad
			o.Trivial = good == 0 || bad == 0
			return o
		})

	register("C19", 2000, "again attr err",
		"result functions called in random order, repeatedly, before and after Execute and Finish, over several rounds of a pipeline, in part while connections fail; non-trivial: a further call of a result function and at least two rounds",
		func(t *rapid.T) *sim.Scenario {
			sh := Shape{Workers: 3, Pipes: 2, Ops: 24, Unkeyed: true, Reps: chance(t, "reps", 20), InvalidKeys: true, ServerErrors: true, Control: 55, Own: chance(t, "own", 50), NoFinish: true, Values: 1 << 16}
			if chance(t, "faulty", 25) {
				return genFaulty(t, FaultShape{Shape: sh, Cuts: 60, Stalls: true, DialFails: true, Events: true, ClientErrors: pick(t, "ces", 0, 0, 10)})
			}
			return genClean(t, sh)
		},
		func(t *testing.T, sc *sim.Scenario) Outcome {
			tr, o := runScenario(t, sc)
			again, rounds := 0, 0
			for _, c := range tr.Cmds {
				again += len(c.Again)
				rounds = max(rounds, c.Session+1)
			}
			o.Notes["further calls"] = again
			o.Trivial = again == 0 || rounds < 2
			return o
		})
}

// genAnyKey draws a unique key of any bytes, valid or not.
func genAnyKey(t *rapid.T, k *keyGen) string {
	k.n++
	b := []byte(fmt.Sprintf("z%d_", k.n))
	n := between(t, "anylen", 0, 30)
	if chance(t, "anylong", 25) {
		n = pick(t, "anylonglen", 243, 242, 244, 245, 246, 250)
	}
	for i := 0; i < n; i++ {
		c := byte(between(t, "anyc", 0x21, 0x7e))
		if chance(t, "edge", 4) {
			c = byte(pick(t, "edgec", 0x21, 0x7e, 0x20, 0x7f, 0x1f, 0x80, 0, 0xff))
		}
		b = append(b, c)
	}
	return string(b)
}
