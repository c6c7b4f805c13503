package main

import (
	"encoding/json"
	"errors"
	"strconv"
	"unicode/utf8"
)

// Src is source text, which may be damaged. It is written as a quoted string.
type Src []byte

// MarshalJSON implements json.Marshaler.
func (s Src) MarshalJSON() ([]byte, error) {
	if len(s) > 4096 {
		if v, ok := s.packed(); ok {
			return json.Marshal(v)
		}
	}
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

// packed finds runs of a repeated unit, to keep replay files readable.
func (s Src) packed() ([]interface{}, bool) {
	var out []interface{}
	lit := 0
	flush := func(end int) {
		if end > lit {
			out = append(out, strconv.QuoteToASCII(string(s[lit:end])))
		}
	}
	saved := false
	for i := 0; i < len(s); {
		best, bestn := 0, 0
		for u := 1; u <= 24 && i+2*u <= len(s); u++ {
			n := 1
			for i+(n+1)*u <= len(s) && string(s[i+n*u:i+(n+1)*u]) == string(s[i:i+u]) {
				n++
			}
			if n >= 32 && n*u > best*bestn {
				best, bestn = u, n
			}
		}
		if bestn == 0 {
			i++
			continue
		}
		flush(i)
		out = append(out, map[string]interface{}{"repeat": strconv.QuoteToASCII(string(s[i : i+best])), "times": bestn})
		i += best * bestn
		lit = i
		saved = true
	}
	flush(len(s))
	return out, saved
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *Src) UnmarshalJSON(b []byte) error {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	unq := func(v interface{}) (string, error) {
		q, ok := v.(string)
		if !ok {
			return "", errors.New("bad source")
		}
		return strconv.Unquote(q)
	}
	switch v := v.(type) {
	case string:
		t, err := strconv.Unquote(v)
		*s = Src(t)
		return err
	case []interface{}:
		var out []byte
		for _, e := range v {
			if m, ok := e.(map[string]interface{}); ok {
				t, err := unq(m["repeat"])
				if err != nil {
					return err
				}
				n, _ := m["times"].(float64)
				for i := 0; i < int(n); i++ {
					out = append(out, t...)
				}
				continue
			}
			t, err := unq(e)
			if err != nil {
				return err
			}
			out = append(out, t...)
		}
		*s = out
		return nil
	}
	return errors.New("bad source")
}

// runeAt is a character of a text, as a stream delivers it.
type runeAt struct {
	r    rune
	size int
	off  int
}

// runesOf decodes a text the way a rune stream does.
func runesOf(text []byte) []runeAt {
	out := make([]runeAt, 0, len(text)+1)
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRune(text[i:])
		out = append(out, runeAt{r, n, i})
		i += n
	}
	return out
}

// pos is a position by the book: one line per terminator, CR LF being one.
type pos struct{ Row, Col int }

func isLT(r rune) bool { return r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029 }

// positions returns the position of each character and of the end. The
// position of an LF after a CR is where the CR's line ends; see samePos.
func positions(rs []runeAt) []pos {
	out := make([]pos, 0, len(rs)+1)
	p := pos{1, 1}
	for i, r := range rs {
		if r.r == '\n' && i > 0 && rs[i-1].r == '\r' {
			// The second half of a line terminator.
			out = append(out, p)
			continue
		}
		out = append(out, p)
		if isLT(r.r) {
			p = pos{p.Row + 1, 1}
		} else {
			p.Col++
		}
	}
	return append(out, p)
}

// posOK reports whether a location is that of character k. Between CR and LF
// there is no line boundary by the book, so that either side of it is right.
func posOK(rs []runeAt, ps []pos, k int, row, col int) bool {
	if ps[k].Row == row && ps[k].Col == col {
		return true
	}
	if k > 0 && k < len(rs) && rs[k-1].r == '\r' && rs[k].r == '\n' {
		p := ps[k-1]
		return row == p.Row && (col == p.Col || col == p.Col+1)
	}
	return false
}

func before(a, b pos) bool { return a.Row < b.Row || a.Row == b.Row && a.Col < b.Col }
