// Package mc has the memcached protocol as the checks understand it: a strict
// request parser and reply descriptions with their encoding.
package mc

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Request is a parsed request.
type Request struct {
	Verb  string // mg ms md version flush_all
	Key   string
	Data  []byte
	Flags []string // sorted
}

// Len is the length of the encoded request.
func (r Request) Len() int {
	n := len(r.Verb) + 2
	if r.Key != "" {
		n += 1 + len(r.Key)
	}
	for _, f := range r.Flags {
		n += 1 + len(f)
	}
	if r.Verb == "ms" {
		n += 1 + len(strconv.Itoa(len(r.Data))) + len(r.Data) + 2
	}
	return n
}

func (r Request) String() string {
	s := r.Verb
	if r.Key != "" {
		s += " " + strconv.Quote(r.Key)
	}
	if len(r.Flags) > 0 {
		s += " [" + strings.Join(r.Flags, " ") + "]"
	}
	if r.Verb == "ms" {
		d := r.Data
		if len(d) > 24 {
			s += fmt.Sprintf(" %d bytes %q...", len(d), d[:24])
		} else {
			s += fmt.Sprintf(" %q", d)
		}
	}
	return s
}

// Parser parses a request stream.
type Parser struct {
	buf     []byte
	pending *Request
	need    int
	Err     error
}

// Pending reports whether the parser holds an incomplete request.
func (p *Parser) Pending() int {
	if p.pending != nil {
		return len(p.buf) + 1
	}
	return len(p.buf)
}

// Feed adds bytes and returns the requests they complete.
func (p *Parser) Feed(data []byte) []Request {
	if p.Err != nil {
		return nil
	}
	if len(p.buf) == 0 {
		p.buf = data
	} else {
		p.buf = append(p.buf, data...)
	}
	var out []Request
	for {
		if p.pending != nil {
			if len(p.buf) < p.need+2 {
				return out
			}
			if p.buf[p.need] != '\r' || p.buf[p.need+1] != '\n' {
				p.Err = fmt.Errorf("value block of %s not followed by CRLF but %q", p.pending, p.buf[p.need:p.need+2])
				return out
			}
			p.pending.Data = append([]byte(nil), p.buf[:p.need]...)
			p.buf = p.buf[p.need+2:]
			out = append(out, *p.pending)
			p.pending = nil
			continue
		}
		i := bytes.IndexByte(p.buf, '\n')
		if i < 0 {
			if len(p.buf) > 2048 {
				p.Err = fmt.Errorf("request line too long: %q...", p.buf[:100])
			}
			return out
		}
		if i == 0 || p.buf[i-1] != '\r' {
			p.Err = fmt.Errorf("request line without CR: %q", trunc(p.buf[:i+1]))
			return out
		}
		line := string(p.buf[:i-1])
		p.buf = p.buf[i+1:]
		req, need, err := parseLine(line)
		if err != nil {
			p.Err = fmt.Errorf("%w: %q", err, trunc([]byte(line)))
			return out
		}
		if req.Verb == "ms" {
			p.pending = &req
			p.need = need
			continue
		}
		out = append(out, req)
	}
}

func trunc(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// ValidKey is memcached's rule for text keys, restricted to printable ASCII.
func ValidKey(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 0x20 || k[i] >= 0x7f {
			return false
		}
	}
	return true
}

func decimal(s string, bits int) (uint64, error) {
	if s == "" || len(s) > 1 && s[0] == '0' {
		return 0, fmt.Errorf("bad number %q", s)
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, fmt.Errorf("bad number %q", s)
		}
	}
	return strconv.ParseUint(s, 10, bits)
}

func parseLine(line string) (Request, int, error) {
	toks := strings.Fields(line)
	if strings.Join(toks, " ") != strings.TrimRight(line, " ") {
		return Request{}, 0, fmt.Errorf("malformed request line")
	}
	if len(toks) == 0 {
		return Request{}, 0, fmt.Errorf("empty request line")
	}
	r := Request{Verb: toks[0]}
	toks = toks[1:]
	need := 0
	switch r.Verb {
	case "version", "flush_all":
		if len(toks) > 0 {
			return r, 0, fmt.Errorf("unexpected arguments")
		}
		return r, 0, nil
	case "mg", "ms", "md":
	default:
		return r, 0, fmt.Errorf("unknown verb")
	}
	if len(toks) == 0 || !ValidKey(toks[0]) {
		return r, 0, fmt.Errorf("bad key")
	}
	r.Key = toks[0]
	toks = toks[1:]
	if r.Verb == "ms" {
		if len(toks) == 0 {
			return r, 0, fmt.Errorf("missing data length")
		}
		n, err := decimal(toks[0], 31)
		if err != nil {
			return r, 0, err
		}
		need = int(n)
		toks = toks[1:]
	}
	seen := map[byte]bool{}
	for _, t := range toks {
		c := t[0]
		if seen[c] {
			return r, 0, fmt.Errorf("duplicate flag %q", t)
		}
		seen[c] = true
		switch r.Verb + string(c) {
		case "mgv", "mgc", "mdI":
			if len(t) != 1 {
				return r, 0, fmt.Errorf("bad flag %q", t)
			}
		case "mgN", "msT", "mdT":
			if _, err := decimal(t[1:], 32); err != nil {
				return r, 0, err
			}
		case "msC", "mdC":
			if _, err := decimal(t[1:], 64); err != nil {
				return r, 0, err
			}
		default:
			return r, 0, fmt.Errorf("unexpected flag %q", t)
		}
		r.Flags = append(r.Flags, t)
	}
	sort.Strings(r.Flags)
	return r, need, nil
}

// ------------------------------------------------------------------
// values
// ------------------------------------------------------------------

// Value describes value bytes compactly.
type Value struct {
	Len  int
	Kind int    `json:",omitempty"` // 0 pseudo-random, 1 CRLF text, 2 looks like replies, 3 looks like requests, 4 tagged text
	Seed uint32 `json:",omitempty"`
}

var valueTexts = [][]byte{nil, []byte("\r\n"), []byte("\r\nHD\r\nEN\r\nVA 3 W\r\nabc\r\n"), []byte("\r\nmg k v\r\nms x 2\r\nhi\r\nflush_all\r\n")}

// Bytes builds the value.
func (v Value) Bytes() []byte {
	if v.Len == 0 {
		return nil
	}
	b := make([]byte, v.Len)
	if v.Kind >= 1 && v.Kind <= 3 {
		t := valueTexts[v.Kind]
		o := int(v.Seed) % len(t)
		for i := range b {
			b[i] = t[(i+o)%len(t)]
		}
		return b
	}
	if v.Kind == 4 {
		t := fmt.Appendf(nil, "<%d>", v.Seed)
		for i := range b {
			b[i] = t[i%len(t)]
		}
		return b
	}
	x := uint64(v.Seed)*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < len(b); i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(x >> (8 * j))
		}
	}
	return b
}

// ------------------------------------------------------------------
// replies
// ------------------------------------------------------------------

// Reply describes a server reply.
type Reply struct {
	Code  string   // VA HD EN NS EX NF OK VERSION SERVER_ERROR CLIENT_ERROR RAW
	Value Value    `json:",omitzero"`
	Toks  []string `json:",omitempty"` // W X Z c123 in order
	Msg   string   `json:",omitempty"`
	Raw   []byte   `json:",omitempty"` // for RAW: the bytes; for VA: the value instead of Value
}

// Data is the value of a VA reply.
func (r Reply) Data() []byte {
	if r.Raw != nil {
		return r.Raw
	}
	return r.Value.Bytes()
}

// Encode renders the reply.
func (r Reply) Encode() []byte {
	switch r.Code {
	case "RAW":
		return r.Raw
	case "VA":
		data := r.Data()
		b := fmt.Appendf(nil, "VA %d", len(data))
		for _, t := range r.Toks {
			b = append(b, ' ')
			b = append(b, t...)
		}
		b = append(b, "\r\n"...)
		b = append(b, data...)
		return append(b, "\r\n"...)
	case "VERSION", "SERVER_ERROR", "CLIENT_ERROR":
		return []byte(r.Code + " " + r.Msg + "\r\n")
	}
	b := []byte(r.Code)
	for _, t := range r.Toks {
		b = append(b, ' ')
		b = append(b, t...)
	}
	return append(b, "\r\n"...)
}

// Cas is the CAS value among the tokens.
func (r Reply) Cas() uint64 {
	for _, t := range r.Toks {
		if t[0] == 'c' {
			n, _ := strconv.ParseUint(t[1:], 10, 64)
			return n
		}
	}
	return 0
}

// Has reports whether a one-letter token is present.
func (r Reply) Has(tok string) bool {
	for _, t := range r.Toks {
		if t == tok {
			return true
		}
	}
	return false
}

// ValidFor reports whether the reply is a valid answer to the verb.
func (r Reply) ValidFor(verb string) bool {
	switch r.Code {
	case "SERVER_ERROR", "CLIENT_ERROR":
		return true
	}
	switch verb {
	case "mg":
		return r.Code == "VA" || r.Code == "HD" || r.Code == "EN"
	case "ms":
		return r.Code == "HD" || r.Code == "NS" || r.Code == "EX" || r.Code == "NF"
	case "md":
		return r.Code == "HD" || r.Code == "EX" || r.Code == "NF"
	case "version":
		return r.Code == "VERSION"
	case "flush_all":
		return r.Code == "OK"
	}
	return false
}

func (r Reply) String() string {
	b := r.Encode()
	if len(b) > 60 {
		return fmt.Sprintf("%q...(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// InterestingLens are value lengths around buffer-size boundaries.
var InterestingLens = func() []int {
	out := []int{0, 1, 2, 3, 5, 9, 10, 11, 99, 100, 101, 999, 1000}
	for p := 4; p <= 16; p++ {
		for d := -3; d <= 3; d++ {
			out = append(out, int(math.Pow(2, float64(p)))+d)
		}
	}
	sort.Ints(out)
	return out
}()
