package mc

import (
	"bytes"
	"strconv"
	"strings"
)

// Kind says what the result of a command may be, given the bytes the server
// sent.
type Kind int

// The kinds.
const (
	Exact   Kind = iota // the Reply of the unit
	MustErr             // some error
	Any                 // unspecified
)

// Unit is the part of a reply stream that answers one command.
type Unit struct {
	Kind  Kind
	Reply Reply
	End   int // offset after the unit, -1 if the framing is lost
	Why   string
}

// MaxValue is the largest value a server can hold.
const MaxValue = 1 << 30

// Decode is the reference decoder: it splits a reply stream into the answers to
// commands with the given verbs.
func Decode(verbs []string, stream []byte) []Unit {
	var out []Unit
	pos := 0
	lost, lostAny := false, false
	for _, v := range verbs {
		switch {
		case lostAny:
			out = append(out, Unit{Kind: Any, End: -1})
			continue
		case lost:
			out = append(out, Unit{Kind: MustErr, End: -1, Why: "after a framing error"})
			continue
		}
		u := decodeOne(v, stream[pos:])
		if u.End < 0 {
			lost = u.Kind == MustErr
			lostAny = u.Kind == Any
		} else {
			u.End += pos
			pos = u.End
		}
		out = append(out, u)
	}
	return out
}

func mustErr(end int, why string) Unit { return Unit{Kind: MustErr, End: end, Why: why} }

func digits(s string) int {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	return n
}

// tokens parses " W c12 ..."; ok is false if anything is not as in the
// protocol, bad if a CAS value is definitely broken.
func tokens(s string) (toks []string, ok, bad bool) {
	if s == "" {
		return nil, true, false
	}
	if s[0] != ' ' {
		return nil, false, false
	}
	ok = true
	seen := map[byte]bool{}
	for _, t := range strings.Split(s[1:], " ") {
		if t == "" {
			ok = false
			continue
		}
		switch {
		case t == "W" || t == "X" || t == "Z":
		case t[0] == 'c' && digits(t[1:]) == 0:
			bad = true
		case t[0] == 'c' && digits(t[1:]) == len(t)-1:
			if _, err := strconv.ParseUint(t[1:], 10, 64); err != nil {
				bad = true
			}
		default:
			ok = false
		}
		if seen[t[0]] {
			ok = false
		}
		seen[t[0]] = true
		toks = append(toks, t)
	}
	return toks, ok, bad
}

func decodeOne(verb string, b []byte) Unit {
	cr := bytes.IndexByte(b, '\r')
	// a value header that is wrong is wrong before its line ends
	if bytes.HasPrefix(b, []byte("VA")) {
		head := b[2:]
		if cr >= 2 {
			head = b[2:cr]
		}
		rest := strings.TrimLeft(string(head), " ")
		if (rest != "" || cr >= 0) && digits(rest) == 0 {
			return mustErr(-1, "no number after VA")
		}
	}
	if cr < 0 || cr+1 >= len(b) {
		return mustErr(-1, "incomplete line")
	}
	if b[cr+1] != '\n' {
		return mustErr(-1, "no LF after CR")
	}
	line := string(b[:cr])
	end := cr + 2
	if strings.HasPrefix(line, "VA") {
		return decodeValue(verb, line, b, end)
	}
	if msg, ok := strings.CutPrefix(line, "SERVER_ERROR "); ok {
		return Unit{Kind: Exact, Reply: Reply{Code: "SERVER_ERROR", Msg: msg}, End: end}
	}
	if msg, ok := strings.CutPrefix(line, "CLIENT_ERROR "); ok {
		return Unit{Kind: Exact, Reply: Reply{Code: "CLIENT_ERROR", Msg: msg}, End: end}
	}
	if line == "SERVER_ERROR" || line == "CLIENT_ERROR" {
		return mustErr(end, "error without message")
	}
	if strings.HasPrefix(line, "SERVER_ERROR") || strings.HasPrefix(line, "CLIENT_ERROR") {
		return Unit{Kind: Any, End: end}
	}
	if verb == "version" {
		if msg, ok := strings.CutPrefix(line, "VERSION "); ok && msg != "" && strings.TrimSpace(msg) == msg {
			return Unit{Kind: Exact, Reply: Reply{Code: "VERSION", Msg: msg}, End: end}
		}
		if strings.HasPrefix(line, "VERSION") {
			return Unit{Kind: Any, End: end}
		}
		return mustErr(end, "not a version")
	}
	if len(line) < 2 {
		return mustErr(end, "line too short")
	}
	code := line[:2]
	if !(Reply{Code: code}).ValidFor(verb) {
		return mustErr(end, "not an answer to "+verb)
	}
	if line == code {
		return Unit{Kind: Exact, Reply: Reply{Code: code}, End: end}
	}
	if verb == "mg" && code == "HD" {
		toks, ok, bad := tokens(line[2:])
		switch {
		case bad:
			return mustErr(end, "broken CAS")
		case ok:
			return Unit{Kind: Exact, Reply: Reply{Code: code, Toks: toks}, End: end}
		}
	}
	return Unit{Kind: Any, End: end}
}

func decodeValue(verb, line string, b []byte, end int) Unit {
	rest := line[2:]
	strict := strings.HasPrefix(rest, " ") && digits(rest[1:]) > 0
	if !strict {
		return Unit{Kind: Any, End: -1}
	}
	rest = rest[1:]
	k := digits(rest)
	n, err := strconv.ParseUint(rest[:k], 10, 64)
	if err != nil || n > MaxValue {
		return mustErr(-1, "impossible length")
	}
	if k > 1 && rest[0] == '0' || len(rest) > k && rest[k] != ' ' {
		return Unit{Kind: Any, End: -1}
	}
	if uint64(len(b)-end) < n+2 {
		return mustErr(-1, "incomplete value")
	}
	stop := end + int(n)
	if b[stop] != '\r' || b[stop+1] != '\n' {
		return mustErr(-1, "value not followed by CRLF")
	}
	data := append([]byte{}, b[end:stop]...)
	end = stop + 2
	if verb != "mg" {
		return mustErr(end, "a value for "+verb)
	}
	toks, ok, bad := tokens(rest[k:])
	switch {
	case bad:
		return mustErr(end, "broken CAS")
	case ok:
		return Unit{Kind: Exact, Reply: Reply{Code: "VA", Raw: data, Toks: toks}, End: end}
	}
	return Unit{Kind: Any, End: end}
}
