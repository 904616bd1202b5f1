package props

import (
	"fmt"
	"net"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verif/fakenet"
	"verif/sim"
	"verif/vsync"
)

// StatLine is a line of a statistics response. Class -1 is a global value.
type StatLine struct {
	Class int64
	Name  string
	Value string
	Tail  string `json:",omitempty"` // more words
}

// DumpLine is a line of a key dump.
type DumpLine struct {
	Key   []byte
	Enc   string // how the key is written
	Exp   int64
	LA    int64
	CAS   uint64
	Fetch bool
	Cls   uint32
	Size  uint32
	Order []int  `json:",omitempty"` // of the fields
	Extra string `json:",omitempty"`
}

// StatCall is one call of the statistics client with the server's response.
type StatCall struct {
	Kind  string // general slabs items dump
	Lines []StatLine
	Dump  []DumpLine
	LF    bool // lines end with \n instead of \r\n
	// Raw replaces line RawAt (or is put before END if beyond); "" is allowed.
	Raw    *string `json:",omitempty"`
	RawAt  int     `json:",omitempty"`
	Insert bool    `json:",omitempty"` // Raw is inserted instead
	// More are further lines that do not belong there.
	More []RawLine `json:",omitempty"`
	// NoEnd: nothing follows the raw line (a one-line error response).
	NoEnd bool `json:",omitempty"`
	// End is what happens after Cut bytes of the response ("" for nothing).
	End   string `json:",omitempty"` // eof reset stall
	Cut   int    `json:",omitempty"`
	Delay int64  `json:",omitempty"`
}

// RawLine is put in front of line At, or of END.
type RawLine struct {
	At   int
	Text string
}

// StatCase is a history of calls on one statistics client.
type StatCase struct {
	Calls       []StatCall
	Net         fakenet.Plan `json:",omitzero"`
	ReadTimeout int64        `json:",omitempty"`
	DialFail    bool         `json:",omitempty"`
	Split       []int        `json:",omitempty"` // sizes of the server's segments
	SplitDelay  int64        `json:",omitempty"`
}

var statRequest = map[string]string{
	"general": "stats\r\n", "slabs": "stats slabs\r\n", "items": "stats items\r\n", "dump": "lru_crawler metadump all\r\n",
}

var generalFields = map[string]string{"pid": "PID", "uptime": "Uptime"}
var slabGlobals = map[string]string{"active_slabs": "ActiveSlabs", "total_malloced": "TotalMalloced"}
var slabFields = map[string]string{"chunk_size": "ChunkSize", "chunks_per_page": "ChunksPerPage", "total_pages": "TotalPages", "total_chunks": "TotalChunks", "used_chunks": "UsedChunks"}
var itemFields = map[string]string{
	"number": "Number", "number_hot": "NumberHot", "number_warm": "NumberWarm", "number_cold": "NumberCold",
	"age_hot": "AgeHot", "age_warm": "AgeWarm", "age": "Age", "mem_requested": "MemRequested",
	"evicted": "Evicted", "evicted_nonzero": "EvictedNonZero", "evicted_time": "EvictedTime", "outofmemory": "OutOfMemory",
	"tailrepairs": "TailRepairs", "reclaimed": "Reclaimed", "expired_unfetched": "ExpiredUnfetched",
	"evicted_unfetched": "EvictedUnfetched", "evicted_active": "EvictedActive", "crawler_reclaimed": "CrawlerReclaimed",
	"crawler_items_checked": "CrawlerItemsChecked", "lrutail_reflocked": "LRUTailRefLocked",
	"moves_to_cold": "MovesToCold", "moves_to_warm": "MovesToWarm", "moves_within_lru": "MovesWithinLRU",
	"direct_reclaims": "DirectReclaims", "hits_to_hot": "HitsToHot", "hits_to_warm": "HitsToWarm",
	"hits_to_cold": "HitsToCold", "hits_to_temp": "HitsToTemp",
}
var narrow = map[string]bool{"active_slabs": true, "chunk_size": true, "chunks_per_page": true, "total_pages": true}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (l StatLine) text(kind string) string {
	key := l.Name
	if l.Class >= 0 {
		key = fmt.Sprintf("%d:%s", l.Class, l.Name)
		if kind == "items" {
			key = "items:" + key
		}
	}
	return "STAT " + key + " " + l.Value + l.Tail
}

func (d DumpLine) text() string {
	fetch := "no"
	if d.Fetch {
		fetch = "yes"
	}
	f := []string{"key=" + d.Enc, fmt.Sprintf("exp=%d", d.Exp), fmt.Sprintf("la=%d", d.LA), fmt.Sprintf("cas=%d", d.CAS), "fetch=" + fetch, fmt.Sprintf("cls=%d", d.Cls), fmt.Sprintf("size=%d", d.Size)}
	if d.Extra != "" {
		f = append(f, d.Extra)
	}
	out := make([]string, 0, len(f))
	if len(d.Order) == len(f) {
		for _, i := range d.Order {
			out = append(out, f[i])
		}
	} else {
		out = f
	}
	return strings.Join(out, " ")
}

func (d DumpLine) key() stats.MetaDumpKey {
	return stats.MetaDumpKey{Key: string(d.Key), Exp: d.Exp, LA: d.LA, CAS: d.CAS, Fetch: d.Fetch, Class: d.Cls, Size: d.Size}
}

func (c *StatCall) count() int {
	if c.Kind == "dump" {
		return len(c.Dump)
	}
	return len(c.Lines)
}

// lines are the response without END.
func (c *StatCall) lines() []string {
	var out []string
	for i := range c.Lines {
		out = append(out, c.Lines[i].text(c.Kind))
	}
	for i := range c.Dump {
		out = append(out, c.Dump[i].text())
	}
	return out
}

// encode is the complete response.
func (c *StatCall) encode() []byte {
	nl := "\r\n"
	if c.LF {
		nl = "\n"
	}
	var b strings.Builder
	ls := c.lines()
	for i := 0; i <= len(ls); i++ {
		for _, m := range c.More {
			if i == m.At || i == len(ls) && m.At > i {
				b.WriteString(m.Text + nl)
			}
		}
		if c.Raw != nil && (i == c.RawAt || i == len(ls) && c.RawAt > i) {
			b.WriteString(*c.Raw + nl)
			if c.NoEnd {
				return []byte(b.String())
			}
			if !c.Insert {
				continue
			}
		}
		if i < len(ls) {
			b.WriteString(ls[i] + nl)
		}
	}
	b.WriteString("END\r\n")
	return []byte(b.String())
}

// statResult is what a call returned.
type statResult struct {
	err     error
	general stats.GeneralStats
	slabs   stats.SlabsStats
	items   stats.SlabItemsStats
	keys    []stats.MetaDumpKey
	took    time.Duration
	panicky string
}

func num(v string) uint64 {
	n, _ := strconv.ParseUint(v, 10, 64)
	return n
}

func fieldOf(v reflect.Value, name string) uint64 {
	return v.FieldByName(name).Uint()
}

// mismatch compares a successful result with the response.
func (c *StatCall) mismatch(r statResult) string {
	type ck struct {
		class int64
		name  string
	}
	want := map[ck]uint64{}
	var classes []uint32
	seen := map[int64]bool{}
	for _, l := range c.Lines {
		known := slabFields
		switch {
		case l.Class >= 0 && c.Kind == "items":
			known = itemFields
		case l.Class < 0 && c.Kind == "slabs":
			known = slabGlobals
		case l.Class < 0:
			known = generalFields
		}
		if known[l.Name] == "" {
			continue
		}
		want[ck{l.Class, known[l.Name]}] = num(l.Value)
		if l.Class >= 0 && !seen[l.Class] {
			seen[l.Class] = true
			classes = append(classes, uint32(l.Class))
		}
	}
	check := func(class int64, v reflect.Value) string {
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Type.Kind() != reflect.Uint64 && f.Type.Kind() != reflect.Uint32 {
				continue
			}
			if got, w := v.Field(i).Uint(), want[ck{class, f.Name}]; got != w {
				return fmt.Sprintf("class %d: %s is %d, the server sent %d", class, f.Name, got, w)
			}
		}
		return ""
	}
	ids := func(got []uint32, n int) string {
		if len(got) != len(classes) || n != len(classes) {
			return fmt.Sprintf("slab ids %v (%d in the map), the server sent %v", got, n, classes)
		}
		for i := range got {
			if got[i] != classes[i] {
				return fmt.Sprintf("slab ids %v, the server sent %v", got, classes)
			}
		}
		return ""
	}
	switch c.Kind {
	case "general":
		return check(-1, reflect.ValueOf(r.general))
	case "slabs":
		if m := ids(r.slabs.SlabIDs, len(r.slabs.Slabs)); m != "" {
			return m
		}
		for _, cl := range classes {
			if m := check(int64(cl), reflect.ValueOf(r.slabs.Slabs[cl])); m != "" {
				return m
			}
		}
		return check(-1, reflect.ValueOf(r.slabs))
	case "items":
		if m := ids(r.items.SlabIDs, len(r.items.Slabs)); m != "" {
			return m
		}
		for _, cl := range classes {
			if m := check(int64(cl), reflect.ValueOf(r.items.Slabs[cl])); m != "" {
				return m
			}
		}
		return ""
	}
	if len(r.keys) != len(c.Dump) {
		return fmt.Sprintf("%d keys, the server sent %d", len(r.keys), len(c.Dump))
	}
	return c.prefix(r.keys)
}

func (c *StatCall) prefix(keys []stats.MetaDumpKey) string {
	if len(keys) > len(c.Dump) {
		return fmt.Sprintf("%d keys, the server sent %d", len(keys), len(c.Dump))
	}
	for i, k := range keys {
		if w := c.Dump[i].key(); k != w {
			return fmt.Sprintf("key %d is %+q, the server sent %+q (%q)", i, fmt.Sprintf("%+v", k), fmt.Sprintf("%+v", w), c.Dump[i].text())
		}
	}
	return ""
}

// broken says whether the call must fail, and whether it may.
func (c *StatCall) broken() (must, may bool) {
	if c.Raw != nil || len(c.More) > 0 {
		return true, true
	}
	if c.End != "" {
		full := len(c.encode())
		if c.Cut >= full {
			return false, c.End == "reset" // which may overtake the response
		}
		if c.Cut >= full-2 { // only (part of) the last line end is missing
			return false, true
		}
		return true, true
	}
	return false, false
}

// statServer answers calls.
type statServer struct {
	mu     sync.Mutex
	starts []int // bytes that had been written when each call began
	wrong  []string
}

func runStatCase(t *testing.T, sc *StatCase) (res []statResult, conn *fakenet.Conn, wrong []string, hang string) {
	synctest.Test(t, func(*testing.T) {
		vsync.Start()
		srv := &statServer{}
		var wg sync.WaitGroup
		dial := func(_, _ string, _ time.Duration) (net.Conn, error) {
			if sc.DialFail {
				return nil, fmt.Errorf("dial refused")
			}
			conn = fakenet.New(0, sc.Net)
			wg.Add(1)
			go func() {
				defer wg.Done()
				srv.serve(sc, conn)
			}()
			return conn, nil
		}
		opts := []netconn.Option{netconn.WithDialFunc(dial)}
		if sc.ReadTimeout > 0 {
			opts = append(opts, netconn.WithReadTimeout(time.Duration(sc.ReadTimeout)))
		}
		client := stats.New("fake:1", stats.WithNetConnOptions(opts...), stats.WithErrorLogger(func(error) {}))
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := range sc.Calls {
				start := 0
				if conn != nil {
					start = conn.NWritten()
				}
				srv.mu.Lock()
				srv.starts = append(srv.starts, start)
				srv.mu.Unlock()
				res = append(res, runStatCall(client, &sc.Calls[i]))
				if n := len(statRequest[sc.Calls[i].Kind]); conn != nil && conn.NWritten() != start+n && (conn.NWritten() != start || res[i].err == nil) {
					srv.note("call %d (%s) wrote %d bytes", i, sc.Calls[i].Kind, conn.NWritten()-start)
				}
			}
		}()
		tm := time.NewTimer(time.Hour)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			buf := make([]byte, 1<<18)
			hang = "a call does not return\n" + string(buf[:runtime.Stack(buf, true)])
			if sim.OnHang != nil {
				sim.OnHang(&sim.Trace{Hang: hang})
			}
			panic(hang)
		}
		_ = client.Close()
		if conn != nil {
			conn.ServerReset()
		}
		wg.Wait()
		wrong = srv.wrong
	})
	return
}

func runStatCall(client *stats.Client, c *StatCall) (r statResult) {
	at := time.Now()
	defer func() {
		r.took = time.Since(at)
		if e := recover(); e != nil {
			buf := make([]byte, 1<<14)
			r.panicky = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
		}
	}()
	switch c.Kind {
	case "general":
		r.general, r.err = client.GetGeneralStats()
	case "slabs":
		r.slabs, r.err = client.GetSlabsStats()
	case "items":
		r.items, r.err = client.GetSlabItemsStats()
	case "dump":
		r.err = client.MetaDumpAll(func(k stats.MetaDumpKey) { r.keys = append(r.keys, k) })
	}
	return
}

func (s *statServer) note(format string, a ...any) {
	s.mu.Lock()
	s.wrong = append(s.wrong, fmt.Sprintf(format, a...))
	s.mu.Unlock()
}

func (s *statServer) serve(sc *StatCase, c *fakenet.Conn) {
	var in []byte
	off := 0
	for {
		for !strings.Contains(string(in), "\r\n") {
			data, ok := c.ServerRead(0)
			if !ok {
				return
			}
			in = append(in, data...)
		}
		i := strings.Index(string(in), "\r\n")
		req := string(in[:i+2])
		in = in[i+2:]
		s.mu.Lock()
		k := 0 // the call that wrote this request
		for k+1 < len(s.starts) && s.starts[k+1] <= off {
			k++
		}
		s.mu.Unlock()
		off += len(req)
		call := &sc.Calls[k]
		if want := statRequest[call.Kind]; req != want {
			s.note("call %d sent the request %q, want %q", k, req, want)
		}
		out := call.encode()
		if call.End != "" && call.Cut < len(out) {
			out = out[:call.Cut]
		}
		if call.Delay > 0 {
			time.Sleep(time.Duration(call.Delay))
		}
		for k := 0; len(out) > 0; k++ {
			n := len(out)
			if len(sc.Split) > 0 {
				n = min(n, max(1, sc.Split[k%len(sc.Split)]))
				if sc.SplitDelay > 0 && k < 200 {
					time.Sleep(time.Duration(sc.SplitDelay))
				}
			}
			c.ServerWrite(out[:n])
			out = out[n:]
		}
		switch call.End {
		case "eof":
			c.ServerEOF()
		case "reset":
			c.ServerReset()
		case "stall":
			for {
				if _, ok := c.ServerRead(0); !ok {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- generators

func genStatValue(t *rapid.T, bits int) string {
	top := uint64(1)<<(bits-1) | (uint64(1)<<(bits-1) - 1)
	var n uint64
	switch weighted(t, "valform", 3, 2, 2) {
	case 0:
		n = uint64(between(t, "val", 0, 100000))
	case 1:
		n = pick(t, "valx", uint64(0), 1, 9, 10, 1<<31-1, 1<<31, 1<<32-1, top, top-1, top>>1, top>>1+1)
	case 2:
		n = rapid.Uint64().Draw(t, "val64")
	}
	return strconv.FormatUint(n&top, 10)
}

func bitsOf(name string) int {
	if narrow[name] {
		return 32
	}
	return 64
}

var unknownNames = []string{"foo", "hits_to_cold2", "numbers", "number_", "chunk_sizes", "mem_requeste", "free_chunks", "free_chunks_end", "get_hits", "cmd_set", "delete_hits", "temp", "number_temp", "age_temp", "NUMBER", "Chunk_Size", "pids", "used_chunk", "x"}

// unknownName is a name that means nothing for a class. Names with a known word
// after a further colon are among them.
func unknownName(t *rapid.T) string {
	if chance(t, "ucolon", 25) {
		known := sortedKeys(itemFields)
		if rapid.Bool().Draw(t, "uslab") {
			known = sortedKeys(slabFields)
		}
		return pick(t, "uprefix", "temp", "x", "", "number2", "7") + ":" + known[uni(t, "uknown", len(known))]
	}
	return unknownNames[uni(t, "uname", len(unknownNames))]
}

func genStatCall(t *rapid.T, kind string) StatCall {
	c := StatCall{Kind: kind}
	switch kind {
	case "general":
		names := []string{"pid", "uptime", "time", "version", "libevent", "pointer_size", "rusage_user", "curr_items", "total_items", "bytes", "threads", "uptimes", "pid_", "max_connections", "x:pid", ":uptime", "1:pid", "PID", "threads:uptime"}
		names = rapid.Permutation(names).Draw(t, "order")[:between(t, "nlines", 0, len(names))]
		for _, n := range names {
			l := StatLine{Class: -1, Name: n, Value: genStatValue(t, 64)}
			if generalFields[n] == "" && chance(t, "odd", 40) {
				l.Value = pick(t, "oddv", "2.1.12-stable", "0.5", "-1", "99999999999999999999999", "abc", "END", "STAT")
				if chance(t, "tail", 30) {
					l.Tail = " more words"
				}
			}
			c.Lines = append(c.Lines, l)
		}
	case "slabs", "items":
		fields := slabFields
		if kind == "items" {
			fields = itemFields
		}
		all := sortedKeys(fields)
		nc := between(t, "classes", 0, 6)
		if chance(t, "many", 10) {
			nc = between(t, "manyclasses", 7, 63)
			if chance(t, "verymany", 8) {
				nc = between(t, "hundreds", 64, 400)
			}
		}
		for i := 0; i < nc; i++ {
			class := int64(between(t, "class", 0, 63))
			if nc > 63 {
				class = int64(between(t, "anyclass", 0, 100000))
			}
			if chance(t, "bigclass", 10) {
				class = int64(pick(t, "classx", 255, 256, 65536, 1<<31, 1<<32-1))
			}
			dup := false
			for _, l := range c.Lines {
				dup = dup || l.Class == class
			}
			if dup {
				continue
			}
			names := all
			if chance(t, "some", 50) || nc > 10 {
				names = rapid.Permutation(all).Draw(t, "names")[:between(t, "nnames", 1, min(len(all), 8))]
			} else if chance(t, "shuffle", 50) {
				names = rapid.Permutation(all).Draw(t, "names2")
			}
			for j, n := range names {
				c.Lines = append(c.Lines, StatLine{Class: class, Name: n, Value: genStatValue(t, bitsOf(n))})
				if chance(t, "unknown", 15) && j >= 0 {
					c.Lines = append(c.Lines, StatLine{Class: class, Name: unknownName(t), Value: genStatValue(t, 64)})
				}
			}
		}
		// mix the classes, but let each begin with a name that is known
		if chance(t, "interleave", 40) && len(c.Lines) > 1 {
			for k := between(t, "swaps", 1, 2*len(c.Lines)); k > 0; k-- {
				i, j := uni(t, "swapi", len(c.Lines)), uni(t, "swapj", len(c.Lines))
				c.Lines[i], c.Lines[j] = c.Lines[j], c.Lines[i]
			}
			seen := map[int64]bool{}
			var kept []StatLine
			for _, l := range c.Lines {
				if fields[l.Name] == "" && !seen[l.Class] {
					continue
				}
				seen[l.Class] = true
				kept = append(kept, l)
			}
			c.Lines = kept
		}
		if kind == "slabs" {
			for _, g := range []string{"active_slabs", "total_malloced"} {
				if chance(t, "global", 80) {
					l := StatLine{Class: -1, Name: g, Value: genStatValue(t, bitsOf(g))}
					at := len(c.Lines)
					if chance(t, "globalpos", 40) {
						at = between(t, "gpos", 0, len(c.Lines))
					}
					c.Lines = append(c.Lines[:at:at], append([]StatLine{l}, c.Lines[at:]...)...)
				}
			}
		}
	case "dump":
		n := between(t, "nkeys", 0, 8)
		if chance(t, "manykeys", 15) {
			n = between(t, "nmany", 9, 400)
		}
		for i := 0; i < n; i++ {
			c.Dump = append(c.Dump, genDumpLine(t, i))
		}
		c.LF = rapid.Bool().Draw(t, "lf")
	}
	return c
}

const statSpecials = "%+= &?/:#\"<>|\\^`{}[]@!$'()*,;\t"

func genDumpLine(t *rapid.T, i int) DumpLine {
	var d DumpLine
	n := between(t, "klen", 0, 12)
	if chance(t, "long", 5) {
		n = 240
	}
	d.Key = []byte(strconv.Itoa(i) + "-")
	if chance(t, "plainstart", 50) {
		d.Key = d.Key[:0]
	}
	for len(d.Key) < n {
		switch weighted(t, "kb", 8, 4, 2, 1) {
		case 3: // a word that means something elsewhere
			d.Key = append(d.Key, pick(t, "kw", "END", "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "BUSY", "STAT", "key", "exp", "yes", "OK", "-1")...)
		case 0:
			d.Key = append(d.Key, "abcXYZ019-._~"[uni(t, "ka", 13)])
		case 1:
			d.Key = append(d.Key, statSpecials[uni(t, "ks", len(statSpecials))])
		case 2:
			d.Key = append(d.Key, byte(uni(t, "kx", 256)))
		}
	}
	if len(d.Key) == 0 {
		d.Key = []byte("k")
	}
	style := weighted(t, "enc", 6, 2, 1, 1)
	var b strings.Builder
	for _, ch := range d.Key {
		plain := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("-._~", ch) >= 0
		switch {
		case style == 3 && strings.IndexByte("+&?/:@!$'()*,;", ch) >= 0: // allowed to stand for themselves
			b.WriteByte(ch)
		case style == 1 && !plain:
			fmt.Fprintf(&b, "%%%02x", ch)
		case style == 2 || !plain:
			fmt.Fprintf(&b, "%%%02X", ch)
		default:
			b.WriteByte(ch)
		}
	}
	d.Enc = b.String()
	i64 := func(label string) int64 {
		switch weighted(t, label+"form", 3, 2, 1) {
		case 0:
			return int64(between(t, label, 0, 2000000000))
		case 1:
			return pick(t, label+"x", int64(-1), 0, 1<<31, 1<<32, 1<<63-1, -1<<63)
		}
		return rapid.Int64().Draw(t, label+"64")
	}
	d.Exp, d.LA = i64("exp"), i64("la")
	d.CAS = num(genStatValue(t, 64))
	d.Fetch = rapid.Bool().Draw(t, "fetch")
	d.Cls = uint32(num(genStatValue(t, 32)))
	d.Size = uint32(num(genStatValue(t, 32)))
	if chance(t, "extra", 10) {
		d.Extra = pick(t, "extrax", "flags=0", "foo=bar", "new=-1", "keys=7", "sizes=x")
	}
	if chance(t, "order", 15) {
		m := 7
		if d.Extra != "" {
			m = 8
		}
		idx := make([]int, m)
		for i := range idx {
			idx[i] = i
		}
		d.Order = rapid.Permutation(idx).Draw(t, "perm")
	}
	return d
}

func genStatNet(t *rapid.T, sc *StatCase) {
	if chance(t, "chunks", 60) {
		sc.Net.ReadChunks = genChunks(t)
	}
	if chance(t, "split", 50) {
		for i := between(t, "nsplit", 1, 4); i > 0; i-- {
			sc.Split = append(sc.Split, between(t, "splitn", 1, 60))
		}
		sc.SplitDelay = int64(pick(t, "splitdelay", 0, 1, us, ms))
	}
	sc.ReadTimeout = int64(pick(t, "rto", 0, 50*ms, 5*sec))
}

// corrupt breaks a response, in more than one place at times.
func corrupt(t *rapid.T, c *StatCall) {
	corruptOnce(t, c)
	if c.Raw != nil && !c.NoEnd && chance(t, "again", 30) {
		for i := between(t, "nmore", 1, 2); i > 0; i-- {
			c.More = append(c.More, RawLine{At: between(t, "moreat", 0, c.count()), Text: pick(t, "morebad", malformed(c.Kind)...)})
		}
	}
}

// malformed lists lines that no response has.
func malformed(kind string) []string {
	if kind == "dump" {
		return []string{"", " ", "garbage", "key", "STAT pid 1", "ENDX", "key=a exp", "exp=1 key", "key=%zz exp=1", "key=a  exp=1", "\x00", strings.Repeat("k", 70000), "exp=1", "key=", "cls=3", "fetch=yes", "foo=bar", "key= exp=1 la=2"}
	}
	bad := []string{"", " ", "garbage", "STAT", "STATS pid 1", "stat pid 1", "STAT pid", "VALUE a 0 1", "STA", "EN", "ENDX", "\x00\xff", "HD", strings.Repeat("A", 70000)}
	switch kind {
	case "slabs":
		bad = append(bad, "STAT x:chunk_size 1", "STAT -1:chunk_size 1", "STAT 4294967296:chunk_size 1", "STAT :chunk_size 1", "STAT 1.0:used_chunks 1")
	case "items":
		bad = append(bad, "STAT items:1 5", "STAT items:x:number 5", "STAT items::number 5", "STAT number 7", "STAT items:-1:number 1", "STAT items:4294967296:age 1")
	}
	return bad
}

func corruptOnce(t *rapid.T, c *StatCall) {
	raw := func(s string) { c.Raw = &s }
	n := c.count()
	c.RawAt = between(t, "rawat", 0, n)
	switch weighted(t, "corrupt", 4, 4, 3, 2) {
	case 0: // cut off
		c.End = pick(t, "end", "eof", "reset", "stall")
		full := len(c.encode())
		c.Cut = between(t, "cut", 0, full)
		if chance(t, "nearend", 40) {
			c.Cut = max(0, full-between(t, "near", 0, 12))
		}
		if chance(t, "lineend", 30) { // exactly after a line
			s := string(c.encode())
			if k := strings.LastIndex(s[:c.Cut], "\n"); k >= 0 {
				c.Cut = k + 1
			}
		}
	case 1: // a value that does not fit
		var ok []int
		for i, l := range c.Lines {
			if statKnown(c.Kind, l) {
				ok = append(ok, i)
			}
		}
		if c.Kind == "dump" && len(c.Dump) > 0 {
			i := uni(t, "badkey", len(c.Dump))
			c.RawAt = i
			s := c.Dump[i].text()
			bad := pick(t, "badfield", "exp=9223372036854775808", "exp=", "exp=1x", "la=-9223372036854775809", "la=1.5", "cas=-1", "cas=18446744073709551616", "cas=", "cls=4294967296", "cls=-1", "cls=z", "size=4294967296", "size=-3", "size=0x10", "key=%", "key=%4", "key=%zz", "key=ab%2", "exp", "key", "cas", "size")
			var f []string
			name, _, _ := strings.Cut(bad, "=")
			for _, x := range strings.Split(s, " ") {
				if y, _, _ := strings.Cut(x, "="); y == name {
					x = bad
				}
				f = append(f, x)
			}
			if chance(t, "nokey", 10) {
				f = f[:0]
				for _, x := range strings.Split(s, " ") {
					if !strings.HasPrefix(x, "key=") {
						f = append(f, x)
					}
				}
			}
			raw(strings.Join(f, " "))
			return
		}
		if len(ok) == 0 {
			raw(pick(t, "garbage0", "END?", "garbage"))
			return
		}
		i := ok[uni(t, "badline", len(ok))]
		c.RawAt = i
		l := c.Lines[i]
		l.Value = pick(t, "badval", "-1", "18446744073709551616", "abc", "1.5", "12a", "0x10", "+1", "1_000", "99999999999999999999999999", "-", "1e3", "٣")
		if narrow[l.Name] && chance(t, "narrow", 50) {
			l.Value = pick(t, "narrowval", "4294967296", "4294967297", "18446744073709551615", "99999999999")
		}
		raw(l.text(c.Kind))
	case 2: // a malformed line
		c.Insert = rapid.Bool().Draw(t, "insert")
		raw(pick(t, "badline2", malformed(c.Kind)...))
	case 3: // an error of the server
		raw(pick(t, "srverr", "ERROR", "CLIENT_ERROR bad command line", "SERVER_ERROR out of memory", "BUSY currently processing crawler request", "ERROR locked try again later"))
		if chance(t, "only", 70) || c.RawAt == 0 || n == 0 {
			// in place of the response (more after it can't be told from the next response)
			c.RawAt, c.NoEnd, c.Insert = 0, true, false
		} else if chance(t, "stop", 50) {
			c.NoEnd = true
		}
	}
}

func statKnown(kind string, l StatLine) bool {
	switch {
	case l.Class >= 0 && kind == "items":
		return itemFields[l.Name] != ""
	case l.Class >= 0:
		return slabFields[l.Name] != ""
	case kind == "slabs":
		return slabGlobals[l.Name] != ""
	}
	return generalFields[l.Name] != ""
}

// ---------------------------------------------------------------- properties

func checkStats(t *testing.T, sc *StatCase) (Outcome, []statResult) {
	o := Outcome{Notes: map[string]int{}}
	res, conn, wrong, hang := runStatCase(t, sc)
	if hang != "" {
		o.add("hang", "%s", hang)
		return o, nil
	}
	for _, w := range wrong {
		o.add("wire", "%s", w)
	}
	rto := time.Second
	if sc.ReadTimeout > 0 {
		rto = time.Duration(sc.ReadTimeout)
	}
	failed := sc.DialFail
	for i := range sc.Calls {
		c, r := &sc.Calls[i], res[i]
		o.Notes["calls"]++
		o.Notes["lines"] += c.count()
		if r.panicky != "" {
			o.add("panic", "call %d (%s): %s", i, c.Kind, r.panicky)
			failed = true
			continue
		}
		must, may := c.broken()
		// time to receive all that is sent, and a timeout
		bound := rto + time.Duration(c.Delay) + 250*time.Duration(sc.SplitDelay) + time.Millisecond
		if r.took > bound {
			o.add("late", "call %d (%s) took %v with read timeout %v", i, c.Kind, r.took, rto)
		}
		switch {
		case sc.DialFail && r.err == nil:
			o.add("silent", "call %d (%s) succeeded although the dial failed", i, c.Kind)
		case r.err == nil && must && c.Kind == "dump":
			o.add("dump", "call %d succeeded with %d keys although the response is broken", i, len(r.keys))
		case r.err == nil && must:
			o.add("silent", "call %d (%s) succeeded although its response is broken", i, c.Kind)
		case r.err == nil:
			if m := c.mismatch(r); m != "" {
				tag := "decode"
				if failed {
					tag = "stale"
				} else if c.Kind == "dump" {
					tag = "dump"
				}
				o.add(tag, "call %d (%s): %s", i, c.Kind, m)
			}
		case !failed && !must && !may:
			tag := "decode"
			if c.Kind == "dump" {
				tag = "dump"
			}
			o.add(tag, "call %d (%s) failed with %v although its response is valid", i, c.Kind, r.err)
		}
		if r.err != nil && c.Kind == "dump" {
			if m := c.prefix(r.keys); m != "" {
				tag := "dump"
				if failed {
					tag = "stale"
				}
				o.add(tag, "call %d: %s (before %v)", i, m, r.err)
			}
		}
		if failed {
			o.Notes["calls after a failure"]++
			if r.err == nil {
				o.Notes["calls after a failure that succeeded"]++
			}
		}
		if must {
			o.Notes["broken responses"]++
		}
		failed = failed || must || may || c.End != "" || r.err != nil
	}
	o.class("chunked", len(sc.Net.ReadChunks) > 0 || len(sc.Split) > 0)
	_ = conn
	return o, res
}

func init() {
	register("C23", 7500, "decode wire late stale silent",
		"valid responses of stats, stats slabs and stats items (random line orders, classes, unknown names, boundary values), arbitrarily segmented, several calls per client; every field compared by name with what was sent. Non-trivial: at least 3 lines",
		func(t *rapid.T) *StatCase {
			sc := &StatCase{}
			for i := between(t, "ncalls", 1, 5); i > 0; i-- {
				sc.Calls = append(sc.Calls, genStatCall(t, pick(t, "kind", "general", "slabs", "items", "slabs", "items")))
			}
			genStatNet(t, sc)
			return sc
		},
		func(t *testing.T, sc *StatCase) Outcome {
			o, _ := checkStats(t, sc)
			o.Trivial = o.Notes["lines"] < 3
			return o
		})

	register("C24", 6000, "silent stale late decode wire",
		"histories of calls in which responses are cut off (EOF, reset, silence), malformed, out of range, errors of the server, or the dial failed, followed by further calls; each call must fail or be right. Non-trivial: a broken response, and a call after it",
		func(t *rapid.T) *StatCase {
			sc := &StatCase{DialFail: chance(t, "dialfail", 5)}
			for i := between(t, "ncalls", 1, 6); i > 0; i-- {
				c := genStatCall(t, pick(t, "kind", "general", "slabs", "items", "dump"))
				if chance(t, "break", 45) {
					corrupt(t, &c)
				}
				sc.Calls = append(sc.Calls, c)
			}
			genStatNet(t, sc)
			return sc
		},
		func(t *testing.T, sc *StatCase) Outcome {
			o, _ := checkStats(t, sc)
			o.Trivial = o.Notes["broken responses"] == 0 || o.Notes["calls after a failure"] == 0
			return o
		})

	register("C25", 4000, "dump wire late stale",
		"key dumps of 0 to 400 keys with arbitrary key bytes (URL-encoded in several styles), extreme values, field orders and unknown fields, arbitrarily segmented; complete, cut off at any byte, with malformed lines or errors of the server. Non-trivial: at least 2 keys",
		func(t *rapid.T) *StatCase {
			sc := &StatCase{}
			for i := between(t, "ncalls", 1, 3); i > 0; i-- {
				c := genStatCall(t, "dump")
				if chance(t, "break", 35) {
					corrupt(t, &c)
				}
				sc.Calls = append(sc.Calls, c)
			}
			genStatNet(t, sc)
			return sc
		},
		func(t *testing.T, sc *StatCase) Outcome {
			o, _ := checkStats(t, sc)
			o.Trivial = o.Notes["lines"] < 2
			o.class("broken", o.Notes["broken responses"] > 0)
			return o
		})
}
