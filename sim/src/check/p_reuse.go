package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/verifsim/hook"
)

func init() {
	register(&prop{
		id: "C19", quick: 220000, thorough: 4000000, chunk: 200,
		gen: genC19, run: runC19, shrink: shrinkC19,
		rule:   "a run has one parser parse 1 to 12 (seldom 200 to 1600) expressions one after the other from one stream, then perhaps a script or module from what is left, and some more calls at the end, over any delivery, with the stream failing, stalling or reporting its end at some character; the result of each call is compared with that of a new parser on a stream that begins there and meets the same fault; every third run has it parse a text with parts that do not parse, 2 to 12 times in any modes, whether a call fails or not, where a new parser has to agree that begins at the character reached or at what was read ahead; non-trivial from the second call on; distinct by texts, modes, delivery and fault",
		states: "distinct (ordinal of the call, mode, token the part begins with, token before it, delivery kind, kind of fault, outcome type)",
		real:   parserReal, stub: streamStub,
	})
}

// begins reports whether a text begins with a token that cannot go on with an
// expression on the line before, whatever that is.
func begins(t []byte) bool {
	if len(t) == 0 {
		return false
	}
	if strings.IndexByte("\"'{!~", t[0]) >= 0 {
		return !bytes.HasPrefix(t, []byte("!="))
	}
	if bytes.HasPrefix(t, []byte("in")) && !bytes.HasPrefix(t, []byte("index")) {
		return false // in, instanceof
	}
	r, _ := utf8.DecodeRune(t)
	return r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r > 0x37f && r < 0x400
}

// goesOn reports whether a text ends the line before and begins.
func goesOn(t []byte) bool {
	nl := false
	for len(t) > 0 {
		r, n := utf8.DecodeRune(t)
		switch {
		case isLT(r):
			nl = true
			t = t[n:]
		case r == ' ' || r == '\t':
			t = t[n:]
		case bytes.HasPrefix(t, []byte("/* */")):
			t = t[5:]
		case bytes.HasPrefix(t, []byte("// c\n")):
			t = t[4:]
		default:
			return nl && begins(t)
		}
	}
	return false
}

// carried are expressions that set, or depend on, what a parser keeps in mind.
var carried = []string{
	"static", "yield", "await", "let", "implements", "of", "get", "yield => yield", "await => 1", "static => static", "{static, yield, let}", "yield + static",
	"function () { 'use strict'; }", "class { m() { 'use strict'; } }", "function f() { 'use strict'; return function () { 'use strict'; x } }", "{ m() { 'use strict'; f(); } }", "a => { 'use strict'; a }",
	"function* () { yield a; }", "async function () { await a; }", "{ async m() { await a; } }", "{ *g() { yield a; } }", "async a => await a", "async a => { await a }", "function () { async function g() { } }",
	"{a = 1} = b", "!([{a = 1}] = b)", "{a: [b]}", "new.target", "x => ({})", "!/a/g", "!(function () { for (var i in o) ; })", "!function () { for (var i = (a in b); ; ) ; }",
}

// The parts are the texts of Jobs. All but the first begin with the end of the
// line before, and all but one that is not an expression end with a token. Op
// are the modes of the calls behind the last part.
func genC19(r *rng, i int, deep bool) *Scenario {
	if r.p(3) {
		return genAnew(r)
	}
	s := &Scenario{D: []Delivery{genDelivery(r)}}
	n := r.in(1, 5)
	if r.p(10) {
		n = r.in(5, 12)
	}
	many := r.p(300)
	if many {
		n = r.in(200, 1600)
		s.D[0] = genBuffered(r)
	}
	size := 25
	switch {
	case many:
		size = 4
	case r.p(10):
		size = 120
	}
	add := func(mode string, t []byte) {
		if len(s.Jobs) > 0 {
			t = append([]byte(r.str("\n", "\n", "\n", "\r\n", " \n", "\n\n", "\u2028", "\n \t\n", "\n  ", "\r\t", "\n/* */", " // c\n")), t...)
		}
		s.Jobs = append(s.Jobs, Job{Mode: mode, Text: t})
	}
	for k := 0; k < n; k++ {
		var t []byte
		for tries := 0; ; tries++ {
			if tries > 20 {
				t = []byte("x")
			} else if r.p(4) {
				t = []byte(carried[r.n(len(carried))])
			} else if r.p(6) {
				t, _ = anyText(r, "expression", size, true)
				t = append(append([]byte("!("), t...), "\n)"...)
			} else {
				p := program(r, "expression", r.in(1, size))
				t = p.Text[p.at[0].from:p.at[len(p.at)-1].to]
			}
			if k == 0 || begins(t) {
				break
			}
		}
		add("expression", t)
	}
	if r.p(3) {
		m := r.str("script", "module", "script", "module", "expression")
		var t []byte
		for tries := 0; ; tries++ {
			t, _ = anyText(r, m, size, r.p(2))
			if begins(t) {
				break
			}
			if tries > 20 {
				t = []byte("var y;")
				break
			}
		}
		add(m, t)
		if m == "expression" {
			s.N = 1
		}
	}
	if s.N == 0 {
		for k := r.n(3); k > 0; k-- {
			s.Op = append(s.Op, r.n(3))
		}
	}
	total := 0
	for _, j := range s.Jobs {
		total += len(runesOf(j.Text))
	}
	if r.p(2) {
		s.D[0] = genFaulty(r)
		switch r.n(3) {
		case 0:
			s.F = &Fault{At: r.n(total + 1), Kind: "stall"}
		case 1:
			s.F = &Fault{At: r.n(total + 1), Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: r.str("rest", "rest", "eof", "error", "stall")}
		default:
			s.F = &Fault{At: r.n(total + 1), Kind: "eof", Then: r.str("rest", "rest", "error", "stall", "eof")}
		}
	}
	return s
}

// origin is where a text begins that has nothing in front of it.
var origin = pos{1, 1}

var modeNames = []string{"script", "module", "expression"}

// relative returns a position as seen from p.
func (p pos) relative(row, col int) (int, int) {
	if row == p.Row {
		col -= p.Col - 1
	}
	return row - p.Row + 1, col
}

// describe describes an outcome as seen from a place further down, including
// how it renders.
func (o *Outcome) describe(u *url.URL, from pos) string {
	switch o.Kind {
	case kTree:
		d := &dumper{b: &bytes.Buffer{}, uri: u, from: &from}
		d.node(o.Tree)
		doc, err := "", error(nil)
		if how := guarded(1<<40, func() { doc, err = render(o.Tree) }); how != "" {
			doc = "rendering: " + how
		} else if err != nil {
			doc = "rendering failed: " + err.Error()
		}
		return d.b.String() + "\n" + doc + d.bad
	case kError:
		bad := ""
		if !sameURL(o.URI, u) {
			bad = fmt.Sprintf(" (source %v)", o.URI)
		}
		row, col := from.relative(o.Row, o.Col)
		return fmt.Sprintf("%s at %d:%d: %s%s", o.ErrType, row, col, o.Msg, bad)
	}
	return o.String()
}

// inTurn parses with one parser once per mode. It returns the outcomes of the
// calls, the last of which did not return if it is a stall, and what the trees
// looked like when they were returned.
func inTurn(text []byte, d Delivery, f *Fault, modes []string, from []pos) (out []*Outcome, seen []string, st *Stream) {
	rd, st := open(text, d, f)
	var cur *Outcome
	how := guarded(budgetFor(len(text))*uint64(len(modes)), func() {
		p := parser.NewParser(lexer.NewLexer(lexer.NewScanner(rd, testURL)))
		one := func(o *Outcome, m string) {
			s0 := hook.Steps()
			defer func() {
				o.Steps = hook.Steps() - s0
				if p := recover(); p != nil {
					o.Kind = kPanic
					o.Detail = fmt.Sprint(p) + " [" + stackOf() + "]"
				}
			}()
			o.classify(p.Parse(parser.ParseOptions{Mode: mode(m)}))
		}
		for _, m := range modes {
			cur = &Outcome{}
			one(cur, m)
			out = append(out, cur)
			if cur.Kind == kPanic {
				break
			}
		}
		cur = nil
	})
	if how != "" {
		o := &Outcome{Kind: how}
		if how == kBlocked {
			o.Detail = "no progress for 30 s"
		}
		out = append(out, o)
	}
	for i, o := range out {
		seen = append(seen, o.describe(testURL, from[i]))
	}
	return out, seen, st
}

func runC19(s *Scenario, c *ctx) {
	if s.Kind == "anew" {
		runAnew(s, c)
		return
	}
	var text Src
	var starts []int // of the parts, in characters
	var modes []string
	for _, j := range s.Jobs {
		starts = append(starts, len(runesOf(text)))
		modes = append(modes, j.Mode)
		text = append(text, j.Text...)
	}
	rs := runesOf(text)
	ps := positions(rs)
	if s.F != nil && s.F.At > len(rs) {
		return
	}
	var from []pos
	for i, k := range starts {
		from = append(from, ps[k])
		if i > 0 && !goesOn(s.Jobs[i].Text) {
			return
		}
	}
	for _, k := range s.Op {
		starts = append(starts, len(rs))
		from = append(from, ps[len(rs)])
		modes = append(modes, modeNames[k])
	}
	d := s.D[0]
	out, seen, st := inTurn(text, d, s.F, modes, from)
	for i, o := range out {
		c.see(o)
		c.observe(seen[i])
	}
	if st.breach != "" {
		c.fail("contract", "the parser broke the contract of the stream: %s", st.breach)
		return
	}
	if st.fired {
		c.fault("stream: " + s.F.Kind)
	}
	fault := ""
	if s.F != nil {
		fault = s.F.Kind
	}
	compare := true
	for i, o := range out {
		c.tracef("call %d (%s): %v", i+1, modes[i], o)
		switch o.Kind {
		case kTree, kError:
		case kStall:
			if s.F == nil || !st.fired {
				c.fail("waits", "call %d (%s) waits although the stream did not stall", i+1, modes[i])
				return
			}
		default:
			c.fail(o.Kind, "call %d (%s) of the same parser: %v", i+1, modes[i], o)
			return
		}
		if !compare {
			c.note("after a failure")
			continue
		}
		// What does a new parser make of what is left?
		off := len(text)
		if starts[i] < len(rs) {
			off = rs[starts[i]].off
		}
		var f *Fault
		if s.F != nil {
			g := *s.F
			if g.At -= starts[i]; g.At < 0 {
				// It came up in the part before.
				compare = false
				continue
			}
			f = &g
		}
		rd, _ := open(text[off:], d, f)
		b := c.see(parse(rd, testURL, modes[i], len(text)-off))
		want := b.describe(testURL, origin)
		if i > 0 {
			c.nontrivial(string(text), i, modes, d, s.F)
			at, prev := "end", "start"
			if starts[i] < len(rs) {
				at = lexClass(text, off)
			}
			if t := bytes.TrimRight(text[:off], " \t\r\n\u2028"); len(t) > 0 {
				prev = lexClass(t, len(t)-1)
			}
			n := i
			if n > 4 {
				n = 4
			}
			c.state(n, modes[i], at, prev, d.Kind, fault, b.Kind, b.ErrType)
			c.note("call again: " + b.Kind)
		}
		if i > 0 && i >= len(s.Jobs) && s.Jobs[len(s.Jobs)-1].Mode != "expression" {
			// How far behind the last token is the end?
			if o.Kind != b.Kind || o.Msg != b.Msg {
				c.fail("not the same", "call %d of the parser (%s), at the end of the stream, gives %v, but a new parser on an empty stream gives %v", i+1, modes[i], o, b)
				return
			}
			compare = o.Kind == kTree
			continue
		}
		if seen[i] != want {
			c.fail("not the same", "call %d of the parser (%s) gives %v, but a new parser that begins there (line %d) gives %v: %s", i+1, modes[i], o, from[i].Row, b, diff(seen[i], want))
			return
		}
		if o.Kind != kTree {
			compare = false
			continue
		}
		// Does the part end where it was meant to?
		if i < len(s.Jobs) && s.Jobs[i].Mode == "expression" {
			for _, wrap := range []string{"()", "[]"} {
				t := append(append([]byte(wrap[:1]), s.Jobs[i].Text...), "\n"+wrap[1:]...)
				rd, _ := open(t, Delivery{Kind: "strings"}, nil)
				if a := c.see(parse(rd, testURL, "script", len(t))); a.Kind != kTree {
					c.note("the part ends elsewhere")
					compare = false
				}
			}
			if s.F != nil && s.F.Kind == "eof" && st.fired && s.F.At < nextStart(starts, i, len(rs)) {
				compare = false
			}
		}
	}
	// Trees are not changed by what the parser does later.
	for i, o := range out {
		if again := o.describe(testURL, from[i]); again != seen[i] {
			c.fail("changed", "the result of call %d has changed since: %s", i+1, diff(again, seen[i]))
			return
		}
	}
}

func nextStart(starts []int, i, end int) int {
	if i+1 < len(starts) {
		return starts[i+1]
	}
	return end
}

func shrinkC19(s *Scenario) []*Scenario {
	var out []*Scenario
	if s.Kind == "anew" {
		for k := range s.Op {
			if len(s.Op) > 1 {
				c := s.clone()
				c.Op = append(append([]int{}, s.Op[:k]...), s.Op[k+1:]...)
				out = append(out, c)
			}
		}
		return append(out, shrinkStream(s)...)
	}
	base := make([]int, len(s.Jobs)+1)
	for i, j := range s.Jobs {
		base[i+1] = base[i] + len(runesOf(j.Text))
	}
	for i := range s.Jobs {
		if len(s.Jobs) > 1 {
			c := s.clone()
			c.Jobs = append(append([]Job{}, s.Jobs[:i]...), s.Jobs[i+1:]...)
			if c.F != nil && c.F.At >= base[i] {
				if c.F.At -= base[i+1] - base[i]; c.F.At < base[i] {
					c.F.At = base[i]
				}
			}
			out = append(out, c)
		}
	}
	if len(s.Op) > 0 {
		c := s.clone()
		c.Op = s.Op[:len(s.Op)-1]
		out = append(out, c)
	}
	if s.F != nil {
		c := s.clone()
		c.F = nil
		out = append(out, c)
	}
	out = append(out, shrinkStream(s)...)
	for i, j := range s.Jobs {
		rs := runesOf(j.Text)
		for _, k := range cuts(len(rs)) {
			c := s.clone()
			to := len(j.Text)
			if k[1] < len(rs) {
				to = rs[k[1]].off
			}
			c.Jobs[i].Text = append(append(Src{}, j.Text[:rs[k[0]].off]...), j.Text[to:]...)
			if t := c.Jobs[i].Text; i > 0 && !goesOn(t) {
				continue
			}
			if c.F != nil {
				a, b := base[i]+k[0], base[i]+k[1]
				if c.F.At >= b {
					c.F.At -= b - a
				} else if c.F.At > a {
					c.F.At = a
				}
			}
			out = append(out, c)
		}
	}
	return out
}

// failing are texts in the middle of which a parse fails with something in
// mind.
var failing = []string{
	"{ 'use strict'; @ }", "function f() { 'use strict'; var 1 }", "async function f() { await 1 2 }", "function* g() { yield a b }", "class { static { @ } }", "({a = 1} @", "[{a = 1}] +",
	"async (x, @", "(a, b, ...c @", "x @", "a + #", "a\n@ b", "a: @", "let @", "async @", "yield @", "'abc", "/abc", "/* abc", "a = { get @", "1 + 0x", "class A { m() { 'use strict'; ) } }",
	"for (var a in @", "switch (a) { case @", "import { a as @", "export @", "export default @", "a ? b @", "!(((@", "`", "a.@", "a[0 @", "\u0001", "f(a, @", "try { } @", "() => { @ }", "x => { 'use strict'; with }",
	"let \u0001 [a]", "async \u0001 function", "a \u0001 : b", "let @ let", "return @ return", "static @ static",
}

// genAnew makes up a text some of which does not parse. Op are the modes.
func genAnew(r *rng) *Scenario {
	s := &Scenario{Kind: "anew", D: []Delivery{{Kind: "runes"}}}
	var b []byte
	m := r.str("script", "module", "expression", "expression", "")
	deepen := r.p(40) // depth must not add up
	nest := nestNames[r.n(len(nestNames))]
	if deepen && (m == "expression" || m == "") {
		m = "script"
	}
	for n := r.in(1, 6); n > 0; n-- {
		mode := m
		if deepen {
			if r.p(6) {
				nest = nestNames[r.n(len(nestNames))]
			}
			b = append(b, deepened(r, nest)...)
			b = append(b, '\n')
			continue
		}
		if m == "" {
			mode = r.str("script", "module", "expression")
		}
		switch r.n(4) {
		case 0:
			b = append(b, failing[r.n(len(failing))]...)
		case 1:
			b = append(b, carried[r.n(len(carried))]...)
		case 2:
			t, _ := anyText(r, mode, 12, true)
			b = append(b, t...)
		default:
			b = append(b, program(r, mode, r.in(1, 12)).Text...)
		}
		b = append(b, r.str("\n", "\n", "\n", " ", ";\n", "\r\n", "", "\n)\n", "\u2028")...)
	}
	s.Text = b
	for n := r.in(2, 12); n > 0; n-- {
		k := r.n(3)
		for i, name := range modeNames {
			if name == m && r.p(2) {
				k = i
			}
		}
		s.Op = append(s.Op, k)
	}
	if r.p(3) {
		s.F = &Fault{At: r.n(len(runesOf(b)) + 1), Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: "rest"}
	}
	return s
}

// deepened makes up a source of some depth that most often breaks off.
func deepened(r *rng, nest string) []byte {
	t := nests[nest](r.in(100, 700))
	switch r.n(4) {
	case 0:
	case 1:
		t = t[:r.n(len(t)+1)]
	case 2:
		t = t[:len(t)/2] + r.str("", " a b", " @")
	default:
		t = t[:len(t)/2] + r.str(" )", " ]", " }", " ;", " 1 1", " =", " +")
	}
	return []byte(t)
}

// runAnew parses with one parser over and over again, whether it fails or not.
// Each call has to return what a new parser returns that begins at the
// character the stream is at, or a few before that which were read but not
// parsed.
func runAnew(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	ps := positions(rs)
	if s.F != nil && (s.F.At > len(rs) || s.F.Kind != "error" || s.F.Then != "rest") {
		return
	}
	// Is there anything that could perhaps not be read as a token?
	clean := s.F == nil && bytes.IndexByte(s.Text, '/') < 0
	if clean {
		rd, _ := open(s.Text, Delivery{Kind: "runes"}, nil)
		clean = lexAll(rd, len(s.Text), 0, 0).end.kind == "end"
	}
	rd, st := open(s.Text, s.D[0], s.F)
	p := parser.NewParser(lexer.NewLexer(lexer.NewScanner(rd, testURL)))
	var out []*Outcome
	var seen []string
	var gaps []int // where a part ends that could perhaps not be read as a token
	low := 0       // where a call begins at the earliest
	var trees []int
	prev := "start"
	for i, k := range s.Op {
		at := st.ri
		fresh := s.F == nil || st.fired
		o := &Outcome{}
		how := guarded(budgetFor(len(s.Text)), func() {
			s0 := hook.Steps()
			defer func() {
				o.Steps = hook.Steps() - s0
				if p := recover(); p != nil {
					o.Kind = kPanic
					o.Detail = fmt.Sprint(p) + " [" + stackOf() + "]"
				}
			}()
			o.classify(p.Parse(parser.ParseOptions{Mode: mode(modeNames[k])}))
		})
		if how != "" {
			o.Kind = how
		}
		c.see(o)
		c.tracef("call %d (%s), character %d: %v", i+1, modeNames[k], at, o)
		out = append(out, o)
		seen = append(seen, o.describe(testURL, origin))
		c.observe(seen[i])
		if o.Kind != kTree && o.Kind != kError {
			c.fail(o.Kind, "call %d (%s) of the same parser: %v", i+1, modeNames[k], o)
			return
		}
		if st.breach != "" {
			c.fail("contract", "the parser broke the contract of the stream: %s", st.breach)
			return
		}
		if i > 0 {
			match := ""
			first := ""
			to := at
			if at > 0 && at < len(rs) && rs[at-1].r == '\r' && rs[at].r == '\n' {
				to++
			}
			try := func(j, x, y int, lines bool) bool {
				var f *Fault
				if s.F != nil && !fresh {
					if j > s.F.At {
						return false
					}
					g := *s.F
					g.At -= j
					f = &g
				}
				off := len(s.Text)
				if j < len(rs) {
					off = rs[j].off
				}
				t := append([]byte{}, s.Text[off:]...)
				if x < y {
					// Without what could not be read as a token.
					t = t[:0]
					for k, r := range rs[j:] {
						if j+k >= x && j+k < y && !(lines && isLT(r.r)) {
							t = append(t, ' ')
						} else {
							end := len(s.Text)
							if j+k+1 < len(rs) {
								end = rs[j+k+1].off
							}
							t = append(t, s.Text[r.off:end]...)
						}
					}
				}
				rd, _ := open(t, Delivery{Kind: "runes"}, f)
				b := c.see(parse(rd, testURL, modeNames[k], len(t)))
				if j == at {
					first = b.String()
				}
				if b.Kind != o.Kind {
					return false
				}
				if x < y {
					// The location of a token is the end of the one before,
					// but here there was something in between.
					if o.Kind == kError {
						return b.ErrType == o.ErrType && b.Msg == o.Msg
					}
					ra, ea := render(o.Tree)
					rb, eb := render(b.Tree)
					return ea == nil && eb == nil && ra == rb
				}
				return b.describe(testURL, origin) == o.describe(testURL, ps[j])
			}
			for j := to; j >= low; j-- {
				if try(j, at, at, true) {
					match = fmt.Sprint("matches ", at-j)
					if at-j > 3 {
						match = "matches further up"
					}
					break
				}
			}
			// What could not be read is most often short, or the token before is.
			work := 0
			for pass := 0; pass < 3; pass++ {
				for g := len(gaps) - 1; g >= 0 && match == ""; g-- {
					for j := gaps[g] - 1; j >= low && match == ""; j-- {
						x, to := j+1, gaps[g]
						switch {
						case pass == 0 && x < to-12:
							x = to - 12
						case pass == 1 && to > j+60:
							to = j + 60
						}
						for ; x < to && match == ""; x++ {
							if work += 2 * (len(rs) - j); work > 3000000 {
								c.note("undecided")
								return
							}
							if try(j, x, gaps[g], true) || try(j, x, gaps[g], false) {
								match = "matches with a gap"
							}
						}
					}
				}
			}
			if match == "" {
				c.fail("not anew", "call %d of the parser (%s), after %s, gives %v, but no parser that begins at or shortly before character %d (%d:%d) does; there, a new one gives %s", i+1, modeNames[k], prev, o, at, ps[at].Row, ps[at].Col, first)
				return
			}
			c.nontrivial("anew", string(s.Text), i, s.Op, s.F)
			c.state("anew", modeNames[k], prev, match, o.Kind, o.ErrType, s.F != nil && st.fired)
			c.note("call after " + prev)
		}
		prev = "a tree"
		if o.Kind == kTree && modeNames[k] == "expression" {
			// Each of these has consumed a token, and no more than two were
			// read ahead.
			trees = append(trees, at)
			if n := len(trees); n > 1 && trees[n-2] > 0 {
				low = trees[n-2] - 1
			}
		} else {
			trees = nil
		}
		if o.Kind == kError {
			if n := len(gaps); !clean && (n == 0 || gaps[n-1] != st.ri) {
				gaps = append(gaps, st.ri)
			}
			prev = "a " + o.ErrType
		}
	}
	if st.fired {
		c.fault("stream: error and on")
	}
	for i, o := range out {
		if again := o.describe(testURL, origin); again != seen[i] {
			c.fail("changed", "the result of call %d has changed since: %s", i+1, diff(again, seen[i]))
			return
		}
	}
}
