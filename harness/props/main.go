package props

import (
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Only makes a property the only one that this process knows.
func Only[C any](id string, checks int, tags, rule string, gen func(t *rapid.T) *C, run func(t *testing.T, c *C) Outcome) {
	clear(registry)
	register(id, checks, tags, rule, gen, run)
}

// MainExplore is TestExplore of a worker.
func MainExplore(t *testing.T) {
	id := os.Getenv("VP_PROP")
	if id == "" {
		t.Skip("VP_PROP not set")
	}
	budget := 10 * time.Minute
	if s := os.Getenv("VP_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	Explore(t, id, budget)
}

// MainReplay is TestReplay of a worker.
func MainReplay(t *testing.T) {
	path := os.Getenv("VP_REPLAY")
	if path == "" {
		t.Skip("VP_REPLAY not set")
	}
	n, _ := strconv.Atoi(os.Getenv("VP_TIMES"))
	Replay(t, path, max(1, n))
}

// MainList is TestList of a worker.
func MainList(t *testing.T) {
	for id, p := range registry {
		t.Logf("PROP %s %d", id, p.Checks)
	}
}
