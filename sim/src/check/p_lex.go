package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func init() {
	register(&prop{
		id: "C20", quick: 600000, thorough: 10000000, chunk: 250,
		gen: genC20, run: runC20, shrink: shrinkC20,
		rule:   "a run takes all tokens of a text from a lexer (with slashes lexed again as regular expressions as the seed says), and then again over another delivery, with a stream that fails, stalls, ends or is damaged at some character, in two halves, or with several lexers taking turns; non-trivial if there was a token, and the fault, if any, was reached; distinct by kind, text, delivery and fault",
		states: "distinct (kind, delivery kind, fault, last token before it, character at it, what became of it)",
		real:   []string{"lexer.Scanner", "lexer.Lexer", "errs", "bufio.Reader"}, stub: streamStub,
	})
}

// The text is Text; for halves, the second one is Suffix; the others of
// lexers that take turns are in Jobs. N is the seed of what is lexed again, Op
// whose turn it is.
func genC20(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{N: r.n(1 << 20), D: []Delivery{genDelivery(r)}}
	s.Text = lexText(r, 60)
	switch r.n(10) {
	case 0, 1:
		s.Kind = "delivery"
		s.D = nil
		for k := r.in(1, 3); k > 0; k-- {
			s.D = append(s.D, genBuffered(r))
		}
		s.D = append(s.D, Delivery{Kind: "runes"})
	case 2, 3, 4, 5, 6:
		s.D[0] = genFaulty(r)
		n := len(runesOf(s.Text))
		s.F = &Fault{At: r.n(n + 1), Then: r.str("rest", "rest", "eof", "error", "stall")}
		switch r.n(5) {
		case 0, 1:
			s.Kind, s.F.Kind = "stall", "stall"
		case 2:
			s.Kind, s.F.Kind, s.F.Err = "failure", "error", streamErrs[r.n(len(streamErrs))]
		case 3:
			s.Kind, s.F.Kind = "end", "eof"
		default:
			s.Kind, s.F.Kind, s.F.Err = "damage", "error", "generic"
			s.Suffix = Src(badBytes[r.n(len(badBytes))])
		}
	case 7, 8:
		s.Kind = "halves"
		s.Suffix = lexText(r, 30)
	default:
		s.Kind = "turns"
		for k := r.in(1, 3); k > 0; k-- {
			s.Jobs = append(s.Jobs, Job{Text: lexText(r, 40), D: genDelivery(r)})
		}
		style := r.n(3)
		for k := r.in(1, 200); k > 0; k-- {
			j := r.n(len(s.Jobs) + 1)
			s.Op = append(s.Op, j)
			for style == 1 && r.p(2) {
				s.Op = append(s.Op, j)
			}
		}
	}
	return s
}

// lexText makes up a text for a lexer, not all of which it likes.
func lexText(r *rng, size int) Src {
	var t []byte
	switch r.n(6) {
	case 0, 1:
		t = program(r, anyMode(r), r.in(1, size)).Text
	case 2:
		t, _ = anyText(r, anyMode(r), size, true)
	case 3:
		t = soup(r, size)
	case 4:
		for k := r.in(1, size/2); k > 0; k-- {
			t = append(t, lexical[r.n(len(lexical))]...)
		}
	default:
		// Nothing but what can be lexed, without anything the parser may not
		// like.
		for k := r.in(1, size); k > 0; k-- {
			t = append(t, fine[r.n(len(fine))]...)
			if !r.p(4) {
				t = append(t, r.str(" ", "\n", "\t", "\r\n", " // c\n", "/* c */", "/*\n*/", "\u2028", "\u00a0", "\ufeff")...)
			}
		}
	}
	if !utf8.Valid(t) {
		t = []byte(strings.ToValidUTF8(string(t), "?"))
	}
	if r.p(4) && len(t) > 0 {
		rs := runesOf(t)
		t = t[:rs[r.n(len(rs))].off]
	}
	if r.p(150) {
		n := []int{512, 1024, 4096, 4096, 8192, 65536}[r.n(6)] - r.n(len(t)+8)
		if n > 0 {
			t = append([]byte(strings.Repeat(r.str(" ", "x", "\n", "(", "1"), n)), t...)
		}
	}
	return t
}

var fine = []string{
	"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", ":", "=", "+=", "-=", "*=", "%=", "/=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=", "=>",
	"#x", "#private", "0", "1", "42", "0n", "0x1F", "0b101", "0o17", "1_000", "1.5", ".5", "2.5e3", "2.5e-3", "00", "012", "0xFFFF_FFFF",
	"'a'", "\"b\"", "'it\\'s'", "\"\\\"\"", "'\\\\'", "'\\\n'", "'//'", "\"/*\"", "'\U0001f600'", "''", "\"\"", "'\u2028'",
	"/a/", "/[/]/g", "/\\//", "/=/", "/= /i", "/\\[/gimsuy", "/[\\]/]/", "/(?:a|b)*/u", "/\u00e9\U0001f600/",
	"a", "b", "$", "_", "x1", "\u00e9t\u00e9", "\u5909\u6570", "\U0001d49c", "a\u200c", "a\u0301", "async", "await", "of", "let", "static", "get", "set", "function", "instanceof", "new", "typeof", "yield", "in", "if", "import", "null", "true", "false", "undefined", "constructor",
}

// lexed is a token, and where the lexer was behind it.
type lexed struct {
	text string
	at   pos
	nl   bool
}

// lexer's end or error.
type lexEnd struct {
	kind string // "end", kError, kStall, kHang, kPanic, kForeign, kBlocked
	o    Outcome
}

func (e lexEnd) String() string {
	if e.kind == "end" {
		return "the end"
	}
	return e.o.String()
}

// again says whether a slash that is the token of the ordinal is lexed again.
func again(seed, ordinal int) bool {
	return hash64([]byte(strconv.Itoa(seed)+" "+strconv.Itoa(ordinal)))%3 != 0
}

// lexing is a lexer in use.
type lexing struct {
	l      *lexer.Lexer
	seed   int
	toks   []lexed
	end    *lexEnd
	offset int // subtracted from the ordinals
	split  int // ordinal at which the count starts again
}

// next takes a token. It returns false at the end and after an error.
func (x *lexing) next() (more bool) {
	if x.end != nil {
		return false
	}
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		more = false
		x.end = &lexEnd{kind: kError}
		switch e := p.(type) {
		case *errs.SyntaxError:
			x.end.o.classify(nil, e)
		case *errs.EncodingError:
			x.end.o.classify(nil, e)
		case *errs.ParserError:
			x.end.o.classify(nil, e)
		default:
			x.end.o.Kind = kPanic
			x.end.o.Detail = fmt.Sprint(p) + " [" + stackOf() + "]"
		}
		x.end.kind = x.end.o.Kind
	}()
	t := x.l.Lex()
	n := len(x.toks)
	if x.split > 0 && n >= x.split {
		n -= x.split
	}
	text := fmt.Sprintf("%v %q", t.Type, t.Literal)
	if t.Type == lexer.TokenPunctuatorDiv || t.Type == lexer.TokenPunctuatorDivAssign {
		if again(x.seed, n) {
			nl := t.NewLine
			re := x.l.ReLex()
			text = fmt.Sprintf("%v %q %q %q", re.Type, re.Literal, re.Pattern, re.Flags)
			t.NewLine = nl
		}
	}
	if t.Type == lexer.TokenNone {
		x.end = &lexEnd{kind: "end"}
		loc := x.l.Location()
		x.end.o.Row, x.end.o.Col = loc.Row, loc.Column
		// It stays there.
		for k := 0; k < 3; k++ {
			u := x.l.Lex()
			if u.Type != lexer.TokenNone || u.Literal != "" || x.l.Location() != loc {
				x.end.kind = "goes on behind the end"
				x.end.o.Detail = fmt.Sprintf("%v at %v", u, x.l.Location())
			}
		}
		x.toks = append(x.toks, lexed{"end", pos{loc.Row, loc.Column}, t.NewLine})
		return false
	}
	loc := x.l.Location()
	x.toks = append(x.toks, lexed{text, pos{loc.Row, loc.Column}, t.NewLine})
	return true
}

// lexAll takes all tokens of a stream.
func lexAll(rd io.RuneScanner, n, seed, split int) *lexing {
	x := &lexing{l: lexer.NewLexer(lexer.NewScanner(rd, testURL)), seed: seed, split: split}
	how := guarded(budgetFor(n), func() {
		for len(x.toks) <= n && x.next() {
		}
	})
	if how != "" {
		x.end = &lexEnd{kind: how}
		x.end.o.Kind = how
	} else if x.end == nil {
		x.end = &lexEnd{kind: "more tokens than characters"}
	}
	return x
}

func (x *lexing) String() string {
	var b strings.Builder
	for _, t := range x.toks {
		fmt.Fprintf(&b, "%s", t.text)
		if t.nl {
			b.WriteString(" on a new line")
		}
		fmt.Fprintf(&b, " until %d:%d\n", t.at.Row, t.at.Col)
	}
	b.WriteString(x.end.String())
	return b.String()
}

func (x *lexing) see(c *ctx) *lexing {
	c.evals++
	c.observe(x.String())
	return x
}

// sane checks what holds in any case.
func (x *lexing) sane(c *ctx, what string) bool {
	switch x.end.kind {
	case "end", kError, kStall:
		if x.end.kind == kError && x.end.o.URI != testURL {
			c.fail("source", "%s: the error names the source %v", what, x.end.o.URI)
			return false
		}
		return true
	}
	c.fail(x.end.kind, "%s: after %d tokens: %v", what, len(x.toks), x.end.o.String())
	return false
}

// begins reports whether x begins with the first n tokens of y.
func (x *lexing) sameFirst(y *lexing, n int) string {
	for i := 0; i < n; i++ {
		if i >= len(x.toks) {
			return fmt.Sprintf("token %d (%s) is missing", i, y.toks[i].text)
		}
		if i >= len(y.toks) {
			return fmt.Sprintf("token %d (%s) is too much", i, x.toks[i].text)
		}
		if x.toks[i] != y.toks[i] {
			return fmt.Sprintf("token %d is %+v instead of %+v", i, x.toks[i], y.toks[i])
		}
	}
	return ""
}

func runC20(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	ps := positions(rs)
	rd, _ := open(s.Text, Delivery{Kind: "strings"}, nil)
	base := lexAll(rd, len(s.Text), s.N, 0).see(c)
	c.tracef("strings.Reader: %d tokens, then %v", len(base.toks), base.end)
	if !base.sane(c, "strings.Reader") {
		return
	}
	if base.end.kind == kStall {
		c.fail("waits", "the lexer waits on a strings.Reader")
		return
	}
	want := base.String()
	c.note("ends in " + base.end.kind)
	switch s.Kind {
	case "delivery":
		for _, d := range s.D {
			rd, st := open(s.Text, d, nil)
			x := lexAll(rd, len(s.Text), s.N, 0).see(c)
			c.fault("delivery by " + d.Kind)
			if st.breach != "" {
				c.fail("contract", "the lexer broke the contract of the stream: %s", st.breach)
				return
			}
			if got := x.String(); got != want {
				c.fail("delivery", "over %v: %s", d, diff(got, want))
				return
			}
			if len(base.toks) > 0 {
				c.nontrivial(s.Kind, string(s.Text), s.N, d)
				c.state(s.Kind, d.Kind, d.Size, d.DataErr, base.end.kind, base.end.o.Msg)
			}
		}
	case "halves":
		c20halves(s, c, base)
	case "turns":
		c20turns(s, c, want)
	default:
		if s.F == nil || s.F.At > len(rs) {
			return
		}
		c20fault(s, c, rs, ps, base)
	}
}

// indices returns the index of the character at each position.
func indices(rs []runeAt, ps []pos) map[pos]int {
	m := make(map[pos]int, len(ps))
	for i := len(ps) - 1; i >= 0; i-- {
		m[ps[i]] = i
	}
	return m
}

func c20fault(s *Scenario, c *ctx, rs []runeAt, ps []pos, base *lexing) {
	at := s.F.At
	ix := indices(rs, ps)
	off := len(s.Text)
	if at < len(rs) {
		off = rs[at].off
	}
	prev := "start"
	if at > 0 {
		prev = lexClass(s.Text, rs[at-1].off)
	}
	d := s.D[0]
	// How far does it get?
	rd, st := open(append(append([]byte{}, s.Text...), "never delivered"...), Delivery{Kind: "runes"}, &Fault{At: at, Kind: "stall"})
	stalled := lexAll(rd, len(s.Text)+20, s.N, 0).see(c)
	c.tracef("stalled at character %d: %d tokens, then %v", at, len(stalled.toks), stalled.end)
	if !stalled.sane(c, "stalled") {
		return
	}
	if st.fired {
		c.fault("stall")
	}
	if stalled.end.kind == kStall {
		if bad := stalled.sameFirst(base, len(stalled.toks)); bad != "" {
			c.fail("early", "with nothing behind character %d, %s", at, bad)
			return
		}
		for i, t := range base.toks {
			if k, ok := ix[t.at]; ok && k < at && i >= len(stalled.toks) && t.text != "end" {
				c.fail("late", "token %d (%s) ends at character %d, but is not delivered although there are %d characters", i, t.text, k, at)
				return
			}
		}
	} else if got, want := stalled.String(), base.String(); got != want {
		c.fail("early", "the lexer ends without character %d, but then there are %v tokens and %v instead of %d and %v", at, len(stalled.toks), stalled.end, len(base.toks), base.end)
		return
	}
	done := func(x *lexing) {
		if len(base.toks) > 0 {
			c.nontrivial(s.Kind, string(s.Text), s.N, d, *s.F)
			last := "none"
			if n := len(stalled.toks); n > 0 {
				last = strings.SplitN(stalled.toks[n-1].text, " ", 2)[0]
			}
			next := "end"
			if at < len(rs) {
				next = lexClass(s.Text, off)
			}
			c.state(s.Kind, d.Kind, s.F.Kind, last, prev, next, x.end.kind, x.end.o.ErrType)
		}
	}
	switch s.Kind {
	case "stall":
		rd, _ := open(append(append([]byte{}, s.Text...), "never delivered"...), d, s.F)
		x := lexAll(rd, len(s.Text)+20, s.N, 0).see(c)
		if got, want := x.String(), stalled.String(); got != want {
			c.fail("delivery", "stalled at character %d, over %v: %s", at, d, diff(got, want))
			return
		}
		done(x)
	case "end":
		text := append(append([]byte{}, s.Text...), "goes on"...)
		if at == len(rs) {
			text = append([]byte{}, s.Text...)
			text = append(text, " goes on"...)
		}
		rd, st := open(text, d, s.F)
		x := lexAll(rd, len(s.Text)+20, s.N, 0).see(c)
		if st.fired {
			c.fault("end of input")
		}
		rd, _ = open(s.Text[:off], Delivery{Kind: "strings"}, nil)
		y := lexAll(rd, off, s.N, 0).see(c)
		if st.breach != "" {
			c.fail("contract", "the lexer broke the contract of the stream: %s", st.breach)
			return
		}
		if got, want := x.String(), y.String(); got != want {
			c.fail("end", "the stream ended at character %d and then went on, and that gives %v instead of %v: %s", at, x.end, y.end, diff(got, want))
			return
		}
		// What is complete before the end does not depend on it.
		for i, t := range base.toks {
			if k, ok := ix[t.at]; ok && k < at && t.text != "end" {
				if bad := y.sameFirst(base, i+1); bad != "" {
					c.fail("end", "the end at character %d has an effect on tokens before it: %s", at, bad)
					return
				}
			}
		}
		done(x)
	case "failure", "damage":
		text, f, what := append([]byte{}, s.Text...), s.F, ""
		if s.Kind == "damage" {
			text = append(append(append([]byte{}, s.Text[:off]...), s.Suffix...), s.Text[off:]...)
			f = nil
			what = fmt.Sprintf("bytes %x", string(s.Suffix))
			if r, n := utf8.DecodeRune(text[off:]); r != utf8.RuneError || n != 1 {
				return
			}
		} else {
			what = f.Err
		}
		rd, st := open(text, d, f)
		x := lexAll(rd, len(text), s.N, 0).see(c)
		c.tracef("%s at character %d: %d tokens, then %v", what, at, len(x.toks), x.end)
		if !x.sane(c, s.Kind) {
			return
		}
		if st.breach != "" {
			c.fail("contract", "the lexer broke the contract of the stream: %s", st.breach)
			return
		}
		if stalled.end.kind != kStall {
			if got, want := x.String(), stalled.String(); got != want {
				c.fail("changed", "character %d is not needed, but its failure changes the tokens: %s", at, diff(got, want))
			}
			return
		}
		c.fault(s.Kind + ": " + what)
		if len(x.toks) != len(stalled.toks) {
			c.fail("swallowed", "the stream fails at character %d (%s), which the token behind %d others needs, but there are %d tokens, and then %v", at, what, len(stalled.toks), len(x.toks), x.end)
			return
		}
		if bad := x.sameFirst(stalled, len(stalled.toks)); bad != "" {
			c.fail("changed", "the stream fails at character %d (%s): %s", at, what, bad)
			return
		}
		o := &x.end.o
		switch {
		case o.Kind != kError || o.ErrType != "encoding error" && o.ErrType != "parser error":
			c.fail("replaced", "the stream fails at character %d (%s), but the lexer says: %v", at, what, x.end)
		case f != nil && !errors.Is(o.Err, st.fail):
			c.fail("replaced", "the stream fails at character %d with %q, but the lexer says: %v", at, st.fail, x.end)
		case !posOK(rs, ps, at, o.Row, o.Col):
			c.fail("location", "the stream fails at character %d (%d:%d), but the error is located at %d:%d", at, ps[at].Row, ps[at].Col, o.Row, o.Col)
		case st.after > 0:
			c.fail("retry", "the stream was read %d more times after it had failed", st.after)
		}
		done(x)
	}
}

// c20halves compares the tokens of a text on lines of its own with those of
// the two halves.
func c20halves(s *Scenario, c *ctx, base *lexing) {
	if base.end.kind != "end" {
		c.note("first half is no sequence of tokens")
		return
	}
	rd, _ := open(s.Suffix, Delivery{Kind: "strings"}, nil)
	rest := lexAll(rd, len(s.Suffix), s.N, 0).see(c)
	n := len(base.toks) - 1
	text := append(append(append([]byte{}, s.Text...), '\n'), s.Suffix...)
	rd, st := open(text, s.D[0], nil)
	split := n
	if n == 0 {
		split = 0
	}
	x := lexAll(rd, len(text), s.N, split).see(c)
	c.tracef("halves: %d tokens and %v, %d tokens and %v; as one: %d tokens and %v", len(base.toks), base.end, len(rest.toks), rest.end, len(x.toks), x.end)
	if !rest.sane(c, "second half") || !x.sane(c, "halves") {
		return
	}
	if st.breach != "" {
		c.fail("contract", "the lexer broke the contract of the stream: %s", st.breach)
		return
	}
	rs := runesOf(text)
	ps := positions(rs)
	from := ps[len(runesOf(s.Text))+1].Row - 1
	if bytes.HasSuffix(s.Text, []byte("\r")) {
		from = ps[len(runesOf(s.Text))].Row - 1
	}
	if bad := x.sameFirst(base, n); bad != "" {
		c.fail("context", "what follows on the next line changes tokens: %s", bad)
		return
	}
	var got, want []string
	add := func(l *[]string, t lexed, i, rows int) {
		nl := t.nl && i > 0 // (of the first it is known)
		*l = append(*l, fmt.Sprintf("%s until %d:%d %v", t.text, t.at.Row-rows, t.at.Col, nl))
	}
	for i, t := range x.toks[n:] {
		add(&got, t, i, from)
	}
	for i, t := range rest.toks {
		add(&want, t, i, 0)
	}
	tell := func(l *[]string, x *lexing, rows int) {
		e := x.end
		*l = append(*l, fmt.Sprintf("%s %s %d:%d %s", e.kind, e.o.ErrType, e.o.Row-rows, e.o.Col, e.o.Msg))
	}
	tell(&got, x, from)
	tell(&want, rest, 0)
	if len(want) > 1 {
		c.nontrivial(s.Kind, string(s.Text), string(s.Suffix), s.N)
		last := "none"
		if n > 0 {
			last = strings.SplitN(base.toks[n-1].text, " ", 2)[0]
		}
		c.state(s.Kind, last, strings.SplitN(want[0], " ", 2)[0], rest.end.kind)
	}
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		c.fail("context", "what is on the lines before changes tokens: %s", diff(g, w))
	}
}

// c20turns has lexers take turns.
func c20turns(s *Scenario, c *ctx, first string) {
	want := []string{first}
	n := len(s.Text)
	for _, j := range s.Jobs {
		rd, _ := open(j.Text, Delivery{Kind: "strings"}, nil)
		want = append(want, lexAll(rd, len(j.Text), s.N, 0).see(c).String())
		n += len(j.Text)
	}
	var all []*lexing
	add := func(text []byte, d Delivery) {
		rd, _ := open(text, d, nil)
		all = append(all, &lexing{l: lexer.NewLexer(lexer.NewScanner(rd, testURL)), seed: s.N})
	}
	add(s.Text, s.D[0])
	for _, j := range s.Jobs {
		add(j.Text, j.D)
	}
	switches := 0
	how := guarded(budgetFor(n), func() {
		last := -1
		for _, k := range s.Op {
			if k < len(all) && all[k].next() && last != k {
				switches++
				last = k
			}
		}
		for _, x := range all {
			for x.next() {
			}
		}
	})
	if how != "" {
		c.fail(how, "%d lexers that take turns: %s", len(all), how)
		return
	}
	c.fault("lexers that take turns")
	if switches > 1 {
		c.nontrivial(s.Kind, string(s.Text), s.N, s.Op)
		c.state(s.Kind, len(all), switches)
	}
	for i, x := range all {
		c.observe(x.String())
		if got := x.String(); got != want[i] {
			c.fail("turns", "lexer %d of %d that take turns: %s", i, len(all), diff(got, want[i]))
			return
		}
	}
}

func shrinkC20(s *Scenario) []*Scenario {
	out := shrinkDefault(s)
	for i := range s.Jobs {
		if len(s.Jobs) > 1 {
			c := s.clone()
			c.Jobs = append(append([]Job{}, s.Jobs[:i]...), s.Jobs[i+1:]...)
			out = append(out, c)
		}
		rs := runesOf(s.Jobs[i].Text)
		for _, k := range cuts(len(rs)) {
			c := s.clone()
			to := len(s.Jobs[i].Text)
			if k[1] < len(rs) {
				to = rs[k[1]].off
			}
			c.Jobs[i].Text = append(append(Src{}, s.Jobs[i].Text[:rs[k[0]].off]...), s.Jobs[i].Text[to:]...)
			out = append(out, c)
		}
	}
	for _, k := range cuts(len(s.Op)) {
		c := s.clone()
		c.Op = append(append([]int{}, s.Op[:k[0]]...), s.Op[k[1]:]...)
		out = append(out, c)
	}
	if s.Kind == "halves" || s.Kind == "damage" {
		rs := runesOf(s.Suffix)
		for _, k := range cuts(len(rs)) {
			c := s.clone()
			to := len(s.Suffix)
			if k[1] < len(rs) {
				to = rs[k[1]].off
			}
			c.Suffix = append(append(Src{}, s.Suffix[:rs[k[0]].off]...), s.Suffix[to:]...)
			out = append(out, c)
		}
	}
	return out
}
