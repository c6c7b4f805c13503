package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/verifsim/hook"
)

var parserReal = []string{"lexer.Scanner", "lexer.Lexer", "parser.Scanner", "parser.Parser", "ast", "errs", "bufio.Reader"}
var streamStub = []string{"the source stream (simulated byte or rune stream with injected faults)"}

func init() {
	register(&prop{
		id: "C02", quick: 650000, thorough: 8000000, chunk: 250,
		gen: genC02, run: runC02, shrink: shrinkDefault,
		rule:   "a run parses one source once from strings.Reader and then over 2 to 5 other deliveries (read sizes, empty reads, buffer sizes, end of input with or after data, a monitored rune stream), and compares everything a caller can see of the results; non-trivial if the source has at least two characters; distinct by source, mode and deliveries",
		states: "distinct (kind of source, mode, kinds of delivery with buffer size class, outcome)",
		real:   parserReal, stub: streamStub,
	})
	register(&prop{
		id: "C03", quick: 1500000, thorough: 10000000, chunk: 250,
		gen: genC03, run: runC03, shrink: shrinkDefault,
		rule:   "a run fails the stream at one chosen character (or pushback) with one of 13 errors and one of four behaviours afterwards, and compares the outcome with that of a stream that stalls there; non-trivial if the fault was reached; distinct by source, mode, delivery, fault",
		states: "distinct (character before the fault, character at the fault, error, behaviour afterwards, delivery kind, mode, outcome type)",
		real:   parserReal, stub: streamStub,
	})
	register(&prop{
		id: "C06", quick: 1400000, thorough: 15000000, chunk: 250,
		gen: genC06, run: runC06, shrink: shrinkC06,
		rule:   "a run delivers a program up to a token boundary, then a character or token that decides the outcome, and then stalls for ever; the parse has to end all the same; or it delivers any text up to a token boundary and then stalls, and if the parse waits, what 234 tokens would make of it must not all be the same; non-trivial if the parse got as far as the deciding character; distinct by delivered text, mode and delivery",
		states: "distinct (kind, mode, deciding character or token, token before it, nesting, outcome text)",
		real:   parserReal, stub: streamStub,
	})
	register(&prop{
		id: "C07", quick: 1600000, thorough: 10000000, chunk: 250,
		gen: genC07, run: runC07, shrink: shrinkDefault,
		rule:   "a run reports end of input at one chosen character and delivers more text to whoever reads on; the result has to be that of the text before the report, also when the same parser, lexer and scanner are asked again afterwards; non-trivial if the end was reported there and there was more text; distinct by source, mode, position and delivery",
		states: "distinct (character before the end, character after it, mode, delivery kind, outcome text)",
		real:   parserReal, stub: streamStub,
	})
	register(&prop{
		id: "C08", quick: 1600000, thorough: 10000000, chunk: 250,
		gen: genC08, run: runC08, shrink: shrinkDefault,
		rule:   "a run puts one of 20 undecodable byte sequences (or a real U+FFFD) at one chosen character of a source; non-trivial if the parse got as far as that; distinct by source, mode and delivery",
		states: "distinct (kind of sequence, character before it, character after it, mode, delivery kind, outcome type)",
		real:   parserReal, stub: streamStub,
	})
}

// ---- C02

func genC02(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r)}
	s.Text, s.Kind = anyTextSrc(r, s.Mode, 70, false)
	for k := r.in(1, 4); k > 0; k-- {
		s.D = append(s.D, genBuffered(r))
	}
	s.D = append(s.D, []Delivery{{Kind: "runes"}, {Kind: "runes"}, {Kind: "bytes"}, {Kind: "buffer"}}[r.n(4)])
	return s
}

func anyTextSrc(r *rng, mode string, size int, valid bool) (Src, string) {
	t, k := anyText(r, mode, size, valid)
	if r.p(200) {
		// So long that buffers are used up within the text.
		n := []int{512, 1024, 4096, 4096, 4096, 8192, 32768, 65536}[r.n(8)] - r.n(len(t)+8)
		pad := r.str(" ", "\n", "/* a comment */ ", "// a line\r\n", "\u00a0", "\u2028")
		if n > 0 {
			t = append([]byte(strings.Repeat(pad, n/len(pad))+strings.Repeat(" ", n%len(pad))), t...)
			k = "long way in"
		}
	}
	return Src(t), k
}

func runC02(s *Scenario, c *ctx) {
	rd, _ := open(s.Text, Delivery{Kind: "strings"}, nil)
	base := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	want := base.full(testURL)
	c.observe(want)
	c.note(base.Kind)
	c.tracef("strings.Reader: %v", base)
	kinds := ""
	for _, d := range s.D {
		rd, st := open(s.Text, d, nil)
		o := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
		c.tracef("%v: %v", d, o)
		c.fault("delivery by " + d.Kind)
		if d.DataErr {
			c.fault("end of input with data")
		}
		if len(d.Chunks) > 0 {
			c.fault("short reads")
			for _, k := range d.Chunks {
				if k == 0 {
					c.fault("empty reads")
					break
				}
			}
		}
		kinds += fmt.Sprint(d.Kind, d.Size, d.DataErr, len(d.Chunks) > 0)
		if st.breach != "" {
			c.fail("contract", "the parser broke the contract of the stream: %s", st.breach)
			return
		}
		if got := o.full(testURL); got != want {
			c.fail("delivery", "%v gives %v, but strings.Reader gives %v: %s", d, o, base, diff(got, want))
			return
		}
	}
	if utf8.RuneCount(s.Text) > 1 {
		c.nontrivial(string(s.Text), s.Mode, s.D)
		c.state(s.Kind, s.Mode, kinds, base.Kind, base.ErrType)
	}
}

// ---- C03

func genC03(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r)}
	s.Text, s.Kind = anyTextSrc(r, s.Mode, 50, r.p(2))
	s.D = []Delivery{genFaulty(r)}
	n := len(runesOf(s.Text))
	s.F = &Fault{At: r.n(n + 1), Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: r.str("rest", "rest", "eof", "error", "stall")}
	if r.p(8) {
		s.F.At = n
	}
	if r.p(6) {
		s.F = &Fault{At: r.in(1, 1+n/4), Kind: "unread", Err: s.F.Err}
	}
	return s
}

func runC03(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	ps := positions(rs)
	d := s.D[0]
	if s.F.At > len(rs) && s.F.Kind != "unread" {
		return
	}
	rd, st := open(s.Text, d, s.F)
	o := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	c.tracef("%v with fault %+v: %v", d, *s.F, o)
	if st.breach != "" {
		c.fail("contract", "the parser broke the contract of the stream: %s", st.breach)
		return
	}
	if s.F.Kind == "unread" {
		if !st.fired {
			c.note("fault not reached")
			return
		}
		c.fault("failing pushback: " + s.F.Err)
		c.nontrivial(string(s.Text), s.Mode, d, *s.F)
		c.note(o.Kind)
		if o.Kind != kError || !errors.Is(o.Err, st.fail) {
			c.fail("swallowed", "pushback %d failed with %q, but the result is %v", s.F.At, st.fail, o)
			return
		}
		k := st.ri
		if k > 0 && !posOK(rs, ps, k, o.Row, o.Col) && !posOK(rs, ps, k-1, o.Row, o.Col) {
			c.fail("location", "the pushback of character %d (%d:%d) failed, but the error is located at %d:%d", k-1, ps[k-1].Row, ps[k-1].Col, o.Row, o.Col)
			return
		}
		if st.after > 0 {
			c.fail("retry", "the stream was used %d more times after a pushback had failed", st.after)
		}
		return
	}
	// What does the parse do up to there?
	rd, _ = open(s.Text, Delivery{Kind: "runes"}, &Fault{At: s.F.At, Kind: "stall"})
	base := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	c.tracef("stalled there: %v", base)
	if st.fired {
		c.fault("failing read: " + s.F.Err + ", then " + s.F.Then)
		c.nontrivial(string(s.Text), s.Mode, d, *s.F)
		at, prev := "end", "start"
		if s.F.At < len(rs) {
			at = lexClass(s.Text, rs[s.F.At].off)
		}
		if s.F.At > 0 {
			prev = lexClass(s.Text, rs[s.F.At-1].off)
		}
		c.state(prev, at, s.F.Err, s.F.Then, d.Kind, s.Mode, o.Kind, o.ErrType)
	}
	if base.Kind != kStall {
		// Decided before: the failure is of no interest.
		c.note("decided before the fault")
		if got, want := o.full(testURL), base.full(testURL); got != want {
			c.fail("changed", "the result does not need character %d, but its failure changes it from %v to %v", s.F.At, base, o)
			return
		}
		return
	}
	c.note(o.Kind)
	switch {
	case o.Kind == kTree:
		c.fail("swallowed", "the stream failed with %q at character %d, but the parse succeeded", st.fail, s.F.At)
	case o.Kind != kError:
		c.fail("not reported", "the stream failed with %q at character %d, but the result is: %v", st.fail, s.F.At, o)
	case !errors.Is(o.Err, st.fail):
		c.fail("replaced", "the stream failed with %q at character %d, but the error is: %v", st.fail, s.F.At, o)
	case !posOK(rs, ps, s.F.At, o.Row, o.Col):
		c.fail("location", "the stream failed at character %d (%d:%d), but the error is located at %d:%d", s.F.At, ps[s.F.At].Row, ps[s.F.At].Col, o.Row, o.Col)
	case st.after > 0:
		c.fail("retry", "the stream was read %d more times after it had failed", st.after)
	}
	if c.viol != nil || s.Mode == "expression" {
		return
	}
	// Without the fault, success takes a clean end.
	rd, st = open(s.Text, d, nil)
	o = c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	if o.Kind == kTree && !st.eof && (d.Kind == "bufio" || d.Kind == "runes") {
		c.fail("early", "the parse succeeded before the stream had reported its end")
	}
}

// ---- C06

var illegal = []string{"\u0001", "\u007f", "\u00a7", "\u20ac", "\u2022", "\U0001f600", "\u0002", "\u00b6", "\u2190", "\U0001f4a9"}

func genC06(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r), D: []Delivery{genFaulty(r)}}
	if r.p(4) {
		s.Kind = "same whatever character follows"
		s.Text, _ = anyTextSrc(r, s.Mode, 30, true)
		if rs := runesOf(s.Text); len(rs) > 0 {
			s.Text = s.Text[:rs[r.n(len(rs))].off]
		}
		for k := r.in(0, 4); k > 0; k-- {
			s.Text = append(s.Text, lexical[r.n(len(lexical))]...)
		}
		s.N = r.n(2)
		return s
	}
	if r.p(3) {
		s.Kind = "same whatever follows"
		if r.p(3) {
			s.Text, _ = anyTextSrc(r, s.Mode, 40, true)
			rs := runesOf(s.Text)
			if len(rs) > 0 {
				s.Text = s.Text[:rs[r.n(len(rs))].off]
			}
		} else {
			// The last token is not the right one.
			p := program(r, s.Mode, r.in(1, 40))
			s.Text = append(append(Src{}, p.Text[:p.at[r.n(len(p.at))].from]...), ' ')
			for k := r.in(1, 2); k > 0; k-- {
				s.Text = append(append(s.Text, anything[r.n(len(anything))]...), ' ')
			}
		}
		// A line terminator counts with the token behind it.
		s.Text = append(append(Src{}, bytes.TrimRight(s.Text, " \t\r\n\u2028\u2029")...), ' ')
		return s
	}
	p := program(r, s.Mode, r.in(1, 60))
	k := r.n(len(p.toks) + 1)
	off := len(p.Text)
	if k < len(p.toks) {
		off = p.at[k].from
		if k > 0 && r.p(2) {
			off = p.at[k-1].to
		}
	}
	var stack []byte
	for _, t := range p.toks[:k] {
		if t.kind != 'p' {
			continue
		}
		switch t.s {
		case "(":
			stack = append(stack, ')')
		case "[":
			stack = append(stack, ']')
		case "{":
			stack = append(stack, '}')
		case ")", "]", "}":
			stack = stack[:len(stack)-1]
		}
	}
	before := append(Src{}, p.Text[:off]...)
	if k > 0 {
		s.Prefix = Src(p.toks[k-1].s)
	}
	s.N = len(stack)
	switch q := r.n(3); {
	case q == 0:
		s.Kind = "illegal character"
		s.Suffix = Src(illegal[r.n(len(illegal))])
	case q == 1 && s.Mode == "expression":
		s.Kind = "behind an expression"
		before = append(Src{}, p.Text...)
		if len(p.triv) > 0 && p.triv[len(p.triv)-1].kind != 'w' {
			before = append(before, '\n')
		}
		s.Suffix = Src(r.str(";", "]", ")", "}", ":", ";", " if ", " var ", "\nclass ", " \n; "))
		s.Prefix = Src(p.toks[len(p.toks)-1].s)
	default:
		s.Kind = "closing bracket"
		top := byte(0)
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		if top == 0 && s.Mode == "expression" {
			s.Kind = "closing bracket behind an expression"
		}
		for {
			b := ")]}"[r.n(3)]
			if b != top {
				s.Suffix = Src(" " + string(b) + r.str(" x ", " ; ", "+ ", " 'a' ", " 0 ", " ( ", " ]", " )", " }"))
				break
			}
		}
	}
	s.Text = before
	return s
}

// anything is a selection of tokens that may follow in a text. (With a slash,
// it is the context that tells what token it begins.)
var anything = func() []string {
	l := []string{"a ", "( "}
	for _, t := range []string{
		"await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "async", "of", "get", "set", "null", "true", "false", "implements", "package", "as", "from", "target", "meta", "constructor", "eval", "arguments",
		"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=", "=>",
		"1", "'s'", "\"t\"", "1n", "0x1f", "1.5", "b", "$",
	} {
		l = append(l, t+" ", "\n"+t+" ")
	}
	return l
}()

// lexical is what tokens are made of.
var lexical = func() []string {
	l := []string{"/*", "*/", "//", "0x", "0b", "0o", "\\u", "\\x", "${", "?.", "...", "<!--", "\u200c", "\u2028", "\u00e9", "\U0001d49c", "\u20ac"}
	for c := byte(' '); c < 127; c++ {
		l = append(l, string([]byte{c}))
		if strings.IndexByte("#\\'\"`/.?*0123xXbeEoOnu_\n", c) >= 0 {
			l = append(l, string([]byte{c}), string([]byte{c}))
		}
	}
	return l
}()

// characters are those of which one may follow in a text.
var characters = func() []string {
	l := []string{" ", "a", "b", "0", "1", "9", "z", ";", "=", ")", "\n"}
	for c := byte(1); c < 128; c++ {
		l = append(l, string([]byte{c}))
	}
	return append(l, "\u00a0", "\u00e9", "\u200c", "\u2028", "\u20ac", "\u3000", "\ufeff", "\U0001d49c", "\U0001f600")
}()

// sameBut returns whether texts differ only in a place where many of them have
// something of their own, as messages do that quote what follows.
func sameBut(texts []string) bool {
	n := len(texts[0])
	distinct := map[string]bool{}
	for _, t := range texts {
		k := 0
		for k < n && k < len(t) && t[k] == texts[0][k] {
			k++
		}
		n = k
		distinct[t] = true
	}
	return n >= 12 && len(distinct) >= 30
}

// lex takes a text apart into tokens, with slashes being divisions or regular
// expressions.
func lex(r io.RuneScanner, n int, regexps bool) *Outcome {
	o := &Outcome{}
	how := guarded(budgetFor(n), func() {
		defer func() {
			switch p := recover().(type) {
			case nil:
			case error:
				o.classify(nil, p)
			default:
				o.Kind, o.Detail = kPanic, fmt.Sprint(p)
			}
		}()
		l := lexer.NewLexer(lexer.NewScanner(r, testURL))
		for {
			t := l.Lex()
			switch {
			case t.Type == lexer.TokenNone:
				o.Kind = kTree
				return
			case regexps && (t.Type == lexer.TokenPunctuatorDiv || t.Type == lexer.TokenPunctuatorDivAssign):
				l.ReLex()
			}
		}
	})
	if how != "" {
		*o = Outcome{Kind: how}
	}
	return o
}

// runSame finds out whether a parse that waits for more has any use for it.
func runSame(s *Scenario, c *ctx) {
	text := append([]byte{}, s.Text...)
	try := func(r io.RuneScanner, n int) *Outcome { return lex(r, n, s.N == 1) }
	if s.Kind == "same whatever follows" {
		try = func(r io.RuneScanner, n int) *Outcome { return parse(r, testURL, s.Mode, n) }
		if len(text) == 0 || text[len(text)-1] != ' ' || len(text) > 1 && strings.ContainsAny(string(text[len(text)-2:]), "\r\n") {
			return
		}
	}
	n := utf8.RuneCount(text)
	rd, st := open(append(text, "this is never delivered"...), s.D[0], &Fault{At: n, Kind: "stall"})
	o := c.see(try(rd, len(text)))
	c.tracef("%q, then nothing: %v", short(string(text), 200), o)
	c.note(s.Kind + ": " + o.Kind)
	if st.fired {
		c.fault("stall")
	}
	c.nontrivial(string(text), s.Kind, s.Mode, s.N, s.D)
	if o.Kind != kStall {
		c.state(s.Kind, s.Mode, o.Kind, o.Msg)
		return
	}
	if s.Kind != "same whatever follows" {
		runDead(s, c, text, try)
		return
	}
	// If there is a token that gets the parse further, then it does.
	var first *Outcome
	var results []string
	moves, same := false, true
	for i, more := range anything {
		t := append(append([]byte{}, text...), more...)
		rd, _ := open(append(t, "this is never delivered"...), Delivery{Kind: "runes"}, &Fault{At: utf8.RuneCount(t), Kind: "stall"})
		o := c.see(try(rd, len(t)))
		c.tracef("with %q behind it: %v", more, o)
		got := o.Msg
		if o.Kind == kTree && o.Tree != nil {
			got = o.full(testURL)
		}
		if i == 0 {
			first = o
		}
		if o.Kind != kError && o.Kind != kTree || o.Kind != first.Kind {
			c.state(s.Kind, s.Mode, o.Kind, i, o.Msg)
			return
		}
		results = append(results, got)
		moves = moves || o.Row != first.Row || o.Col != first.Col
		same = same && got == results[0]
	}
	if !same && (moves || !sameBut(results)) {
		c.state(s.Kind, s.Mode, "different", first.Msg)
		return
	}
	ps := positions(runesOf(text))
	if first.Kind == kError && first.Row < ps[n].Row {
		// A line terminator behind the error may belong to the next token.
		c.note("line terminator behind it")
		return
	}
	c.fail("waits", "the parse waits for more, but whatever follows (%d different things) the result is the same, as in: %v", len(anything), first)
}

// runDead finds out whether a lexer that waits can still come to accept what
// there is: some character has to get it to another token, or there have to be
// many that get it further. If there are but few, one of those is tried.
func runDead(s *Scenario, c *ctx, text []byte, try func(io.RuneScanner, int) *Outcome) {
	r := newRng(hash64(text))
	t := append([]byte{}, text...)
	for level := 0; level < 12; level++ {
		var further []string
		var why *Outcome
		for _, more := range characters {
			u := append(append([]byte{}, t...), more...)
			rd, _ := open(append(u, "this is never delivered"...), Delivery{Kind: "runes"}, &Fault{At: utf8.RuneCount(u), Kind: "stall"})
			switch o := c.see(try(rd, len(u))); o.Kind {
			case kError:
				why = o
				continue
			case kStall:
				further = append(further, more)
			default:
				return
			}
			if len(further) > 12 {
				c.state(s.Kind, s.N, level, more)
				return
			}
		}
		c.tracef("behind %q, only %q lead any further; otherwise %v", short(string(t), 200), further, why)
		if len(further) == 0 {
			break
		}
		t = append(t, further[r.n(len(further))]...)
	}
	c.fail("waits", "the lexer waits for more, but whatever follows %q is refused", short(string(text), 200))
}

func runC06(s *Scenario, c *ctx) {
	if strings.HasPrefix(s.Kind, "same whatever ") {
		runSame(s, c)
		return
	}
	text := append(append([]byte{}, s.Text...), s.Suffix...)
	n := utf8.RuneCount(text)
	rd, st := open(append(text, "this is never delivered"...), s.D[0], &Fault{At: n, Kind: "stall"})
	o := c.see(parse(rd, testURL, s.Mode, len(text)))
	c.tracef("%s %q after %q: %v", s.Kind, s.Suffix, s.Prefix, o)
	c.note(s.Kind + ": " + o.Kind)
	if st.fired {
		c.fault("stall")
	}
	c.nontrivial(string(text), s.Mode, s.D)
	c.state(s.Kind, s.Mode, string(s.Suffix), string(s.Prefix), s.N, o.Kind, o.Msg)
	if o.Kind == kStall {
		c.fail("waits", "%q decides the outcome (%s), but the parse waits for more", s.Suffix, s.Kind)
		return
	}
	switch s.Kind {
	case "illegal character":
		if o.Kind == kTree && s.Mode == "expression" {
			// It may be behind an expression that is complete without it.
			rd, _ := open(s.Text, s.D[0], nil)
			if c.see(parse(rd, testURL, s.Mode, len(s.Text))).Kind == kTree {
				return
			}
		}
		if o.Kind != kError {
			c.fail("accepted", "the text contains %q, which starts no token, but the result is %v", s.Suffix, o)
		}
	case "closing bracket":
		if o.Kind != kError {
			c.fail("accepted", "the bracket %q matches no open one, but the result is %v", s.Suffix, o)
		}
	case "behind an expression":
		// The expression does not change.
		rd, _ := open(s.Text, s.D[0], nil)
		base := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
		if base.Kind != kTree {
			c.note("unsupported expression")
			return
		}
		if o.Kind != kTree {
			c.fail("behind", "the expression is complete, but with %q behind it the result is %v", s.Suffix, o)
			return
		}
		a, err1 := render(o.Tree)
		b, err2 := render(base.Tree)
		if a != b || (err1 == nil) != (err2 == nil) {
			c.fail("behind", "the expression changes when %q is behind it: %s", s.Suffix, diff(a, b))
		}
	}
}

func shrinkC06(s *Scenario) []*Scenario {
	if strings.HasPrefix(s.Kind, "same whatever ") {
		return shrinkDefault(s)
	}
	return shrinkStream(s)
}

// ---- C07

func genC07(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r), D: []Delivery{genFaulty(r)}}
	s.Text, s.Kind = anyTextSrc(r, s.Mode, 50, true)
	n := utf8.RuneCount(s.Text)
	at := r.n(n + 1)
	if r.p(4) {
		// What follows is another text.
		more, _ := anyText(r, s.Mode, 20, true)
		rs := runesOf(s.Text)
		off := len(s.Text)
		if at < n {
			off = rs[at].off
		}
		s.Text = append(append(Src{}, s.Text[:off]...), more...)
	}
	s.F = &Fault{At: at, Kind: "eof", Then: r.str("rest", "rest", "rest", "error", "stall")}
	s.F.Err = "generic"
	for r.p(2) && len(s.Op) < 4 {
		s.Op = append(s.Op, r.n(5))
	}
	return s
}

// further goes on with a parser: it is called again, or its lexer or scanner
// are used directly. It returns what it saw.
func further(rd io.RuneScanner, m string, op []int, n int, c *ctx) (o *Outcome, seen string) {
	sc := lexer.NewScanner(rd, testURL)
	lx := lexer.NewLexer(sc)
	p := parser.NewParser(lx)
	parse := func(m string) *Outcome {
		return c.see(parseWith(func(_ io.RuneScanner, _ *url.URL, m string, o *Outcome) {
			s0 := hook.Steps()
			defer func() {
				o.Steps = hook.Steps() - s0
				if p := recover(); p != nil {
					o.Kind, o.Detail = kPanic, fmt.Sprint(p)
				}
			}()
			o.classify(p.Parse(parser.ParseOptions{Mode: mode(m)}))
		}, rd, testURL, m, n))
	}
	o = parse(m)
	for _, k := range op {
		if k < len(modeNames) {
			a := parse(modeNames[k])
			seen += fmt.Sprintf("\n%s: %v %s", modeNames[k], a, a.full(testURL))
			continue
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					seen += fmt.Sprint("\npanic: ", p)
				}
			}()
			if k == len(modeNames) {
				seen += fmt.Sprintf("\ntoken: %+v", lx.Lex())
			} else {
				seen += fmt.Sprintf("\ncharacter: %d", sc.Read())
			}
		}()
		l := sc.Location()
		seen += fmt.Sprintf(" %d:%d", l.Row, l.Column)
	}
	return o, seen
}

func runC07(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	if s.F.At > len(rs) {
		return
	}
	off := len(s.Text)
	if s.F.At < len(rs) {
		off = rs[s.F.At].off
	}
	d := s.D[0]
	rd, _ := open(s.Text[:off], Delivery{Kind: "strings"}, nil)
	base, next := further(rd, s.Mode, s.Op, len(s.Text), c)
	c.tracef("the text before alone: %v%s", base, next)
	rd, st := open(s.Text, d, s.F)
	o, then := further(rd, s.Mode, s.Op, len(s.Text), c)
	c.tracef("%v, end reported at character %d, then %s: %v%s", d, s.F.At, s.F.Then, o, then)
	c.note(o.Kind)
	if st.fired && s.F.At < len(rs) {
		c.fault("premature end, then " + s.F.Then)
		c.nontrivial(string(s.Text), s.Mode, d, *s.F)
		prev := "start"
		if s.F.At > 0 {
			prev = lexClass(s.Text, rs[s.F.At-1].off)
		}
		c.state(prev, lexClass(s.Text, rs[s.F.At].off), s.Mode, d.Kind, o.Kind, o.Msg)
	}
	got, want := o.full(testURL), base.full(testURL)
	if got != want {
		c.fail("grown", "the stream ended at character %d, but what it delivered later changed the result from %v to %v: %s", s.F.At, base, o, diff(got, want))
		return
	}
	if next != then {
		c.fail("grown", "the stream ended at character %d, but what it delivered later shows when the parser, lexer and scanner are used again (operations %v): %s", s.F.At, s.Op, diff(then, next))
	}
}

// ---- C08

func genC08(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r), D: []Delivery{genDelivery(r)}}
	var p *Prog
	if r.p(3) {
		t, _ := anyText(r, s.Mode, 50, true)
		s.Text = t
	} else {
		p = program(r, s.Mode, r.in(1, 60))
		s.Text = p.Text
	}
	rs := runesOf(s.Text)
	k := r.n(len(rs) + 1)
	if p != nil && r.p(2) {
		// Inside of a string, comment or regular expression.
		var in []span
		for j, t := range p.toks {
			if t.kind == 's' {
				in = append(in, span{p.at[j].from + 1, p.at[j].to - 1})
			}
			if t.kind == 'r' {
				in = append(in, span{p.at[j].from + 1, p.at[j].from + bytes.LastIndexByte([]byte(t.s), '/')})
			}
		}
		for _, t := range p.triv {
			if t.kind != 'w' {
				in = append(in, span{t.from + 2, t.to - 2})
			}
		}
		if len(in) > 0 {
			a := in[r.n(len(in))]
			if a.to >= a.from {
				off := r.in(a.from, a.to)
				for j := range rs {
					if rs[j].off <= off {
						k = j
					}
				}
				if off >= len(s.Text) {
					k = len(rs)
				}
			}
		}
	}
	s.At = k
	if r.p(4) && p != nil {
		s.Kind = "replacement character"
		s.Suffix = Src("\ufffd")
		// Only where any character is allowed.
		for j, t := range p.toks {
			if t.kind == 's' && r.p(2) {
				for q := range rs {
					if rs[q].off <= p.at[j].from+1 {
						s.At = q
					}
				}
				s.N = 1
			}
		}
		return s
	}
	s.Kind = "undecodable bytes"
	s.Suffix = Src(badBytes[r.n(len(badBytes))])
	return s
}

func runC08(s *Scenario, c *ctx) {
	rs0 := runesOf(s.Text)
	if s.At > len(rs0) {
		return
	}
	off := len(s.Text)
	if s.At < len(rs0) {
		off = rs0[s.At].off
	}
	text := append(append(append([]byte{}, s.Text[:off]...), s.Suffix...), s.Text[off:]...)
	rd, _ := open(text, s.D[0], nil)
	o := c.see(parse(rd, testURL, s.Mode, len(text)))
	c.tracef("%s %q at character %d, %v: %v", s.Kind, s.Suffix, s.At, s.D[0], o)
	prev, next := "start", lexClass(text, off+len(s.Suffix))
	if s.At > 0 {
		prev = lexClass(s.Text, rs0[s.At-1].off)
	}
	c.state(s.Kind, string(s.Suffix), prev, next, s.Mode, s.D[0].Kind, o.ErrType)
	c.note(s.Kind + ": " + o.Kind + " " + o.ErrType)
	if s.Kind == "replacement character" {
		c.fault("U+FFFD")
		c.nontrivial(string(text), s.Mode, s.D)
		if o.ErrType == "encoding error" {
			c.fail("rejected", "U+FFFD at character %d is taken for damage: %v", s.At, o)
			return
		}
		if s.N == 1 {
			rd, _ := open(s.Text, s.D[0], nil)
			base := c.see(parse(rd, testURL, s.Mode, len(text)))
			if base.Kind == kTree && o.Kind != kTree {
				c.fail("rejected", "U+FFFD in a string at character %d is not accepted: %v", s.At, o)
			}
		}
		return
	}
	// The first character that can not be decoded.
	rs := runesOf(text)
	ps := positions(rs)
	k := -1
	for i, r := range rs {
		if r.r == utf8.RuneError && r.size == 1 {
			k = i
			break
		}
	}
	if k < 0 {
		return
	}
	rd, _ = open(text, Delivery{Kind: "runes"}, &Fault{At: k, Kind: "stall"})
	base := c.see(parse(rd, testURL, s.Mode, len(text)))
	if base.Kind != kStall {
		c.note("decided before")
		if o.full(testURL) != base.full(testURL) {
			c.fail("changed", "the result does not need character %d, but that it can not be decoded changes it from %v to %v", k, base, o)
		}
		return
	}
	c.fault(fmt.Sprintf("bytes %x", string(s.Suffix)))
	c.nontrivial(string(text), s.Mode, s.D)
	switch {
	case o.Kind == kTree:
		c.fail("accepted", "character %d (%d:%d) can not be decoded, but the parse succeeded", k, ps[k].Row, ps[k].Col)
	case o.Kind != kError:
		c.fail("not reported", "character %d can not be decoded, but the result is %v", k, o)
	case o.ErrType != "encoding error":
		c.fail("type", "character %d (%d:%d) can not be decoded, but the result is %v", k, ps[k].Row, ps[k].Col, o)
	case !posOK(rs, ps, k, o.Row, o.Col):
		c.fail("location", "character %d (%d:%d) can not be decoded, but the error is located at %d:%d", k, ps[k].Row, ps[k].Col, o.Row, o.Col)
	}
}
