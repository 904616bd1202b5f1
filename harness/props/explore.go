package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/sim"
)

// Outcome is what running one case showed.
type Outcome struct {
	Findings   sim.Findings
	Trivial    bool
	Classes    []string
	Notes      map[string]int // measurements to add up
	Incomplete string         // the case could not be judged
}

// Prop is a property with its generator and oracle.
type Prop struct {
	ID     string
	Rule   string
	Checks int      // cases per shard in the quick tier
	Tags   []string // findings that violate the property; others are not its business
	Gen    func(t *rapid.T) any
	Run    func(t *testing.T, c any) Outcome
	New    func() any
}

var registry = map[string]*Prop{}

// always are the tags that every property owns.
var always = []string{"hang", "panic"}

func register[C any](id string, checks int, tags, rule string, gen func(t *rapid.T) *C, run func(t *testing.T, c *C) Outcome) {
	registry[id] = &Prop{
		ID: id, Rule: rule, Checks: checks, Tags: append(strings.Fields(tags), always...),
		Gen: func(t *rapid.T) any { return gen(t) },
		Run: func(t *testing.T, c any) Outcome { return run(t, c.(*C)) },
		New: func() any { return new(C) },
	}
}

// Stats is what a worker reports.
type Stats struct {
	Property    string
	Rule        string
	Evaluations int
	Nontrivial  int
	Distinct    []uint64
	Classes     map[string]int
	Notes       map[string]int
	Samples     []json.RawMessage
	Incomplete  map[string]int
	Failed      bool
	Findings    []string
	OutOfTime   bool
	Wall        float64
}

type explorer struct {
	p        *Prop
	st       Stats
	seen     map[uint64]bool
	curPath  string
	failPath string
	statPath string
	started  time.Time
	cpu0     atomic.Int64
	running  atomic.Bool
}

// Failure is the content of a replay file.
type Failure struct {
	Property string
	Findings []string
	Case     json.RawMessage
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	exitHang = 33 // virtual time ran out in a case
	exitSpin = 34 // a case used too much CPU time
	cpuLimit = 60 * time.Second
)

func (e *explorer) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if !e.running.Load() {
			continue
		}
		if d := cpuNanos() - e.cpu0.Load(); d > int64(cpuLimit) {
			buf := make([]byte, 1<<20)
			fmt.Printf("SPIN: a case used %v of CPU time\n%s\n", time.Duration(d), buf[:runtime.Stack(buf, true)])
			os.Exit(exitSpin)
		}
	}
}

func (e *explorer) fail(data []byte, fs []string) {
	out, _ := json.Marshal(Failure{e.p.ID, fs, data})
	_ = os.WriteFile(e.failPath, out, 0o644)
	e.st.Failed = true
	e.st.Findings = fs
}

func (p *Prop) own(fs sim.Findings) []string {
	var out []string
	for _, f := range fs {
		for _, t := range p.Tags {
			if t == f.Tag || t == "*" {
				out = append(out, f.String())
				break
			}
		}
	}
	return out
}

func (e *explorer) one(t *testing.T, c any) []string {
	data, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if e.curPath != "" {
		out, _ := json.Marshal(Failure{e.p.ID, []string{"the process ended while running this case"}, data})
		_ = os.WriteFile(e.curPath, out, 0o644)
	}
	sim.OnHang = func(tr *sim.Trace) {
		msg := tr.Hang
		if len(msg) > 20000 {
			msg = msg[:20000]
		}
		e.fail(data, []string{"hang: " + msg})
		e.write()
		os.Exit(exitHang)
	}
	e.cpu0.Store(cpuNanos())
	e.running.Store(true)
	o := e.p.Run(t, c)
	e.running.Store(false)
	e.st.Evaluations++
	for _, cl := range o.Classes {
		e.st.Classes[cl]++
	}
	for k, n := range o.Notes {
		e.st.Notes[k] += n
	}
	if o.Incomplete != "" {
		e.st.Incomplete[o.Incomplete]++
	}
	if !o.Trivial && o.Incomplete == "" {
		h := fnv.New64a()
		_, _ = h.Write(data)
		if s := h.Sum64(); !e.seen[s] {
			e.seen[s] = true
			e.st.Nontrivial++
			if len(e.st.Samples) < 4 && len(data) < 3000 || len(e.st.Samples) == 0 && len(data) < 20000 {
				e.st.Samples = append(e.st.Samples, data)
			}
		}
	}
	own := e.p.own(o.Findings)
	for _, f := range o.Findings {
		e.st.Notes["finding "+f.Tag]++
		if os.Getenv("VP_FOREIGN") != "" {
			fmt.Printf("FINDING %s\n", f.String())
			_ = os.WriteFile(fmt.Sprintf("%s/foreign.%s.%s.json", os.Getenv("VP_FOREIGN"), e.p.ID, f.Tag), mustJSON(Failure{e.p.ID, []string{f.String()}, data}), 0o644)
		}
	}
	if len(own) > 0 {
		e.fail(data, own)
	}
	return own
}

func mustJSON(v any) []byte {
	out, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return out
}

func (e *explorer) write() {
	for s := range e.seen {
		e.st.Distinct = append(e.st.Distinct, s)
	}
	sort.Slice(e.st.Distinct, func(i, j int) bool { return e.st.Distinct[i] < e.st.Distinct[j] })
	e.st.Wall = time.Since(e.started).Seconds()
	if e.statPath == "" {
		return
	}
	out, err := json.Marshal(e.st)
	if err != nil {
		panic(err)
	}
	_ = os.WriteFile(e.statPath, out, 0o644)
}

func newExplorer(p *Prop) *explorer {
	e := &explorer{p: p, seen: map[uint64]bool{}, started: time.Now(),
		curPath: os.Getenv("VP_CUR"), failPath: os.Getenv("VP_FAIL"), statPath: os.Getenv("VP_STAT")}
	if e.failPath == "" {
		e.failPath = "/tmp/vp_fail_" + p.ID + ".json"
	}
	e.st = Stats{Property: p.ID, Rule: p.Rule, Classes: map[string]int{}, Notes: map[string]int{}, Incomplete: map[string]int{}}
	go e.watchdog()
	return e
}

// Explore runs generated cases.
func Explore(t *testing.T, id string, budget time.Duration) {
	p := registry[id]
	if p == nil {
		t.Fatalf("unknown property %s", id)
	}
	e := newExplorer(p)
	defer e.write()
	rapid.Check(t, func(rt *rapid.T) {
		if !e.st.Failed && time.Since(e.started) > budget {
			e.st.OutOfTime = true
			return
		}
		c := p.Gen(rt)
		if own := e.one(t, c); len(own) > 0 {
			rt.Fatalf("%s violated: %s", id, strings.Join(own, "; "))
		}
	})
}

// Replay runs a stored case n times.
func Replay(t *testing.T, path string, n int) {
	raw, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f Failure
	if err := json.Unmarshal(raw, &f); err != nil {
		t.Fatal(err)
	}
	p := registry[f.Property]
	if p == nil {
		t.Fatalf("unknown property %s", f.Property)
	}
	e := newExplorer(p)
	defer e.write()
	for range n {
		c := p.New()
		dec := json.NewDecoder(bytes.NewReader(f.Case))
		if err := dec.Decode(c); err != nil {
			t.Fatal(err)
		}
		if own := e.one(t, c); len(own) > 0 {
			t.Fatalf("%s violated: %s", p.ID, strings.Join(own, "\n"))
		}
	}
}
