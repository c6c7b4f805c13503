package main

import (
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func init() {
	register(&prop{
		id: "C04", quick: 450000, thorough: 6000000, chunk: 200,
		gen: genC04, run: runC04, shrink: shrinkC04,
		rule:   "a run makes up a program, checks that it parses, and cuts it at 1 to 8 characters; how the cut must end is known from how the program was made (open bracket, string, comment or regular expression, number, operator or statement without a required part: error; statement boundary: exactly the statements before); non-trivial: each cut with such an expectation; distinct by text, mode and cut",
		states: "distinct (class of cut, token before the cut, token the cut is in, mode, delivery kind, outcome text)",
		real:   parserReal, stub: streamStub,
	})
	register(&prop{
		id: "C05", quick: 1800000, thorough: 10000000, chunk: 250,
		gen: genC05, run: runC05, shrink: shrinkC05,
		rule:   "a run is a random history of reads, pushbacks and ends of input on the scanner compared with a model, or a program with lines put in front, torn at a chosen place, or whose stream fails, whose locations are compared with the known ones; non-trivial if at least one location was compared; distinct by text, kind and history",
		states: "distinct (kind, mode, characters around the place, line ends involved, outcome text)",
		real:   parserReal, stub: streamStub,
	})
}

// ---- C04

// The cuts are in Op, three numbers each: byte offset, statements expected
// before a boundary or -1, and the index of the class. The byte offsets of the
// ends of the top-level statements are in Jobs[0].Name, so that the program
// can be made smaller.

var cutClasses = []string{cutUnknown, cutBracket, cutString, cutRegExp, cutComment, cutOperator, cutNeed, cutBoundary, cutNumber}

func classIndex(c string) int {
	for i, n := range cutClasses {
		if n == c {
			return i
		}
	}
	return 0
}

func genC04(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r), D: []Delivery{genDelivery(r)}}
	s.Kind = "program"
	size := 60
	if r.p(10) {
		size = 600
	}
	p := program(r, s.Mode, r.in(1, size))
	s.Text = p.Text
	rs := runesOf(p.Text)
	var ends []string
	for _, e := range p.ends {
		ends = append(ends, fmt.Sprint(p.at[e].to))
	}
	s.Jobs = []Job{{Name: strings.Join(ends, ",")}}
	want := r.in(1, 8)
	for tries := 0; want > 0 && tries < 60 && len(rs) > 0; tries++ {
		off := rs[r.n(len(rs))].off
		switch r.n(4) {
		case 0: // behind a token
			off = p.at[r.n(len(p.at))].to
		case 1: // behind or before a statement
			off = p.at[p.ends[r.n(len(p.ends))]].to
			if r.p(3) && off < len(p.Text) {
				for k := range rs {
					if rs[k].off > off {
						off = rs[k].off
						break
					}
				}
			}
		}
		class, k := p.cut(off)
		if class == cutUnknown {
			continue
		}
		if class != cutBoundary {
			k = -1
		} else if s.Mode == "expression" {
			continue
		}
		if class == cutOperator && s.Mode == "expression" {
			// What is left of the operator may be a token that is behind
			// the expression, which may be complete.
			continue
		}
		s.Op = append(s.Op, off, k, classIndex(class))
		want--
	}
	return s
}

func elements(n ast.Node) (reflect.Value, bool) {
	v := reflect.ValueOf(n)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return v, false
	}
	b := v.FieldByName("Body")
	return b, b.IsValid() && b.Kind() == reflect.Slice
}

func elementDumps(n ast.Node, u *url.URL) ([]string, bool) {
	b, ok := elements(n)
	if !ok {
		return nil, false
	}
	var out []string
	for i := 0; i < b.Len(); i++ {
		e, ok := b.Index(i).Interface().(ast.Node)
		if !ok {
			return nil, false
		}
		d, _ := dump(e, u, 0)
		doc, err := render(e)
		if err != nil {
			return nil, false
		}
		out = append(out, d+"\n"+doc)
	}
	return out, true
}

func runC04(s *Scenario, c *ctx) {
	rd, _ := open(s.Text, s.D[0], nil)
	whole := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	if whole.Kind != kTree {
		c.note("program not accepted")
		c.tracef("the whole program: %v", whole)
		return
	}
	all, ok := elementDumps(whole.Tree, testURL)
	for i := 0; i+2 < len(s.Op); i += 3 {
		off, k, class := s.Op[i], s.Op[i+1], cutClasses[s.Op[i+2]]
		if off > len(s.Text) {
			continue
		}
		text := s.Text[:off]
		rd, _ := open(text, s.D[0], nil)
		o := c.see(parse(rd, testURL, s.Mode, len(text)))
		c.fault("cut " + class)
		c.nontrivial(string(text), s.Mode)
		tail := string(text)
		if len(tail) > 3 {
			tail = tail[len(tail)-3:]
		}
		c.state(class, tail, lexClass(s.Text, off), s.Mode, s.D[0].Kind, o.Kind, o.Msg)
		c.note(class + ": " + o.Kind)
		c.tracef("cut at byte %d %s: %v", off, class, o)
		if k < 0 {
			if o.Kind == kTree {
				c.fail("complete: "+class, "the program is cut at byte %d, %s, after %q, but the parse succeeded", off, class, short(tailOf(text, 60), 60))
				return
			}
			continue
		}
		if o.Kind != kTree {
			c.fail("boundary rejected", "the first %d statements, cut at byte %d, are not accepted: %v", k, off, o)
			return
		}
		if !ok {
			c.note("no body")
			continue
		}
		got, ok := elementDumps(o.Tree, testURL)
		if !ok || len(got) != k {
			c.fail("boundary", "the cut at byte %d leaves %d statements, but there are %d in the tree", off, k, len(got))
			return
		}
		for j := range got {
			if got[j] != all[j] {
				c.fail("boundary", "statement %d changes when the program is cut at byte %d behind it: %s", j, off, diff(got[j], all[j]))
				return
			}
		}
	}
}

func tailOf(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func shrinkC04(s *Scenario) []*Scenario {
	var out []*Scenario
	for i := 0; i+2 < len(s.Op) && len(s.Op) > 3; i += 3 {
		c := s.clone()
		c.Op = append([]int{}, s.Op[i:i+3]...)
		out = append(out, c)
	}
	if len(s.Op) != 3 {
		return out
	}
	var ends []int
	for _, e := range strings.Split(s.Jobs[0].Name, ",") {
		n := 0
		fmt.Sscan(e, &n)
		ends = append(ends, n)
	}
	remake := func(c *Scenario, ends []int) {
		var l []string
		for _, e := range ends {
			l = append(l, fmt.Sprint(e))
		}
		c.Jobs[0].Name = strings.Join(l, ",")
	}
	off := s.Op[0]
	// Statements behind the one that is cut, then those before it.
	for i := len(ends) - 1; i >= 0; i-- {
		from := 0
		if i > 0 {
			from = ends[i-1]
		}
		to := ends[i]
		if i == len(ends)-1 {
			to = len(s.Text)
		}
		c := s.clone()
		switch {
		case from >= off && len(ends) > 1:
		case to < off:
			c.Op[0] -= to - from
			if c.Op[1] > 0 {
				c.Op[1]--
			}
		default:
			continue
		}
		c.Text = append(append(Src{}, s.Text[:from]...), s.Text[to:]...)
		var e []int
		for j, x := range ends {
			if j < i {
				e = append(e, x)
			} else if j > i {
				e = append(e, x-(to-from))
			}
		}
		remake(c, e)
		out = append(out, c)
	}
	return append(out, shrinkStream(s)...)
}

// ---- C05

var prefixLines = []string{"", "", " ", "\t", "// a comment", "/* a comment */", "//", " // \u00e9\u65e5\U0001f600 ", "/* { */ // }"}
var prefixStatements = []string{";", "a;", "var a = 1;", "f('b');", "{}", "while (a) { b; }", "a = /b/;"}
var lineEnds = []string{"\n", "\r\n", "\r", "\u2028", "\u2029"}

func genC05(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r), D: []Delivery{genDelivery(r)}}
	switch r.n(8) {
	case 0, 1:
		s.Kind = "history"
		for k := r.size(60); k > 0; k-- {
			s.Text = append(s.Text, r.str("\n", "\r", "\r\n", "\u2028", "\u2029", "a", " ", "\u00e9", "\u65e5", "\U0001f600", "\t", "\v", "\f", "\u0085", "\u000b", "\ufeff", "x")...)
		}
		for k := r.in(1, 200); k > 0; k-- {
			s.Op = append(s.Op, r.n(3))
		}
	case 2, 3, 4:
		s.Kind = "lines in front"
		if r.p(2) {
			s.Suffix = Src(sources[r.n(len(sources))])
		}
		s.Text, _ = anyTextSrc(r, s.Mode, 50, r.p(2))
		stmts := r.p(3) && s.Mode != "expression"
		n := r.in(1, 12)
		if r.p(200) {
			n = r.in(255, 300)
		}
		if r.p(1000) {
			n = 70000
		}
		for k := 0; k < n; k++ {
			if stmts && r.p(2) {
				s.Prefix = append(s.Prefix, prefixStatements[r.n(len(prefixStatements))]...)
				s.N = 1
			} else {
				s.Prefix = append(s.Prefix, prefixLines[r.n(len(prefixLines))]...)
			}
			e := lineEnds[r.n(len(lineEnds))]
			if k == n-1 && e == "\r" {
				e = "\n"
			}
			// CR followed by LF would be one line end.
			if l := len(s.Prefix); e == "\n" && l > 0 && s.Prefix[l-1] == '\r' {
				e = "\r\n"
			}
			s.Prefix = append(s.Prefix, e...)
			s.At++
		}
	case 5, 6:
		s.Kind = "torn"
		p := program(r, s.Mode, r.in(1, 60))
		s.Kind = ""
		for tries := 0; tries < 30; tries++ {
			off := p.at[r.n(len(p.at))].to
			rs := runesOf(p.Text)
			if r.p(2) {
				off = rs[r.n(len(rs))].off
			}
			class, _ := p.cut(off)
			if class == cutUnknown || class == cutBoundary {
				continue
			}
			last := 0
			for _, a := range p.at {
				if a.to <= off {
					last = a.to
				}
			}
			s.Kind = "torn"
			s.Text = append(Src{}, p.Text[:off]...)
			s.Op = []int{last}
			s.Suffix = Src(class)
			break
		}
		if s.Kind == "" {
			s.Kind = "torn"
			s.Text, s.Op, s.Suffix = Src("("), []int{1}, Src(cutBracket)
		}
	default:
		s.Kind = "failure"
		s.D[0] = genFaulty(r)
		s.Text, _ = anyTextSrc(r, s.Mode, 50, true)
		n := utf8.RuneCount(s.Text)
		at := r.n(n + 1)
		if r.p(300) {
			// A long line.
			k := []int{127, 128, 255, 256, 1000, 4095, 32767, 65535, 65536, 70000}[r.n(10)]
			pad := Src(strings.Repeat(r.str(" ", "\t", "\u00a0", "\ufeff"), k))
			s.Text = append(pad, s.Text...)
			at += k
		}
		s.F = &Fault{At: at, Kind: "error", Err: "generic", Then: "error"}
	}
	return s
}

func runC05(s *Scenario, c *ctx) {
	switch s.Kind {
	case "history":
		c.evals++
		histC05(s, c)
	case "lines in front":
		linesC05(s, c)
	case "torn":
		tornC05(s, c)
	case "failure":
		rs := runesOf(s.Text)
		ps := positions(rs)
		if s.F.At > len(rs) {
			return
		}
		rd, st := open(s.Text, s.D[0], s.F)
		o := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
		c.tracef("%v, failing at character %d (%d:%d): %v", s.D[0], s.F.At, ps[s.F.At].Row, ps[s.F.At].Col, o)
		sourceC05(s, c, o, testURL, testName)
		if !st.fired || o.Kind != kError || !strings.Contains(o.Msg, "stream failed") {
			return
		}
		c.fault("failing read")
		c.nontrivial(s.Kind, string(s.Text), s.F.At)
		if !posOK(rs, ps, s.F.At, o.Row, o.Col) {
			c.fail("failure", "the stream failed at character %d (%d:%d), but the error is located at %d:%d", s.F.At, ps[s.F.At].Row, ps[s.F.At].Col, o.Row, o.Col)
		}
	}
}

// sourceC05 checks that locations name the source.
func sourceC05(s *Scenario, c *ctx, o *Outcome, u *url.URL, name string) {
	switch o.Kind {
	case kError:
		if !sameURL(o.URI, u) {
			c.fail("source", "the location of the error names %v instead of %v", o.URI, u)
		}
		if o.Row < 1 || o.Col < 1 {
			c.fail("no location", "the error is located at %d:%d: %v", o.Row, o.Col, o)
		}
		if !strings.Contains(o.Print, fmt.Sprintf("%s:%d:%d", name, o.Row, o.Col)) {
			c.fail("printed", "the error is located in %s at %d:%d, but printed as %s", name, o.Row, o.Col, o.Print)
		}
	case kTree:
		if _, bad := dump(o.Tree, u, 0); bad != "" {
			c.fail("source", "a node of the tree: %s", bad)
		}
	}
}

func histC05(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	ps := positions(rs)
	rd, st := open(s.Text, s.D[0], nil)
	how := guarded(1<<32, func() {
		defer func() {
			if p := recover(); p != nil {
				c.fail("history", "the scanner panicked: %v", p)
				if e, ok := p.(*errs.ParserError); ok {
					c.fail("history", "the scanner panicked: %v", e.Err)
				}
			}
		}()
		u := testURL
		sc := lexer.NewScanner(rd, u)
		at, canUnread, ended := 0, false, false
		check := func(what string) bool {
			l := sc.Location()
			if l.URI != u {
				c.fail("source", "the scanner's location names %v", l.URI)
				return false
			}
			if !posOK(rs, ps, at, l.Row, l.Column) {
				c.fail("history", "after %s the next character is number %d (%d:%d), but the scanner is at %d:%d", what, at, ps[at].Row, ps[at].Col, l.Row, l.Column)
				return false
			}
			return true
		}
		if !check("the start") {
			return
		}
		for i, op := range s.Op {
			what := ""
			if op == 2 && (canUnread || ended) {
				sc.Unread()
				what = "a pushback"
				if !ended {
					at--
				} else {
					what = "a pushback at the end"
				}
				canUnread = false
			} else {
				r := sc.Read()
				what = "a read"
				want := lexer.EOFRune
				if at < len(rs) {
					want = rs[at].r
					at++
					canUnread = true
				} else {
					ended = true
					what = "the end"
					canUnread = false
				}
				if r != want {
					c.fail("history", "operation %d read %q instead of %q", i, r, want)
					return
				}
			}
			c.fault("scanner: " + what)
			if !check(what) {
				return
			}
		}
	})
	if how != "" {
		c.fail("history", "the scanner: %s", how)
	}
	if st.breach != "" {
		c.fail("history", "%s", st.breach)
	}
	c.nontrivial(s.Kind, string(s.Text), s.Op)
	c.state(s.Kind, len(s.Text), len(s.Op), s.D[0].Kind)
	c.observe(string(s.Text))
}

func linesC05(s *Scenario, c *ctx) {
	rd, _ := open(s.Text, s.D[0], nil)
	base := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	sourceC05(s, c, base, testURL, testName)
	text := append(append([]byte{}, s.Prefix...), s.Text...)
	if len(s.Text) > 0 && s.Text[0] == '\n' && strings.HasSuffix(string(s.Prefix), "\r") {
		return
	}
	u, name := mkURL(string(s.Suffix)), string(s.Suffix)
	if u == nil {
		name = "" // It has none.
	}
	rd, _ = open(text, s.D[0], nil)
	o := c.see(parse(rd, u, s.Mode, len(text)))
	sourceC05(s, c, o, u, name)
	c.tracef("without the lines: %v", base)
	c.tracef("with %d lines in front: %v", s.At, o)
	c.fault("lines in front")
	c.note(base.Kind)
	ends := ""
	for _, e := range lineEnds {
		if strings.Contains(string(s.Prefix), e) {
			ends += e
		}
	}
	c.state(s.Kind, s.Mode, ends, s.N, base.Kind, base.Msg)
	c.nontrivial(s.Kind, string(text), s.At)
	if base.Kind != o.Kind {
		c.fail("lines", "%d lines in front change the result from %v to %v", s.At, base, o)
		return
	}
	switch base.Kind {
	case kError:
		// An error at the first token may be located at the beginning of the
		// text, with or without lines in front.
		moved := base.Row+s.At == o.Row && base.Col == o.Col
		if base.Row == 1 && base.Col == 1 && !moved {
			moved = o.Row == 1 && o.Col == 1
			if s.N > 0 {
				// Or behind the last token in front.
				moved = o.Row < base.Row+s.At
			}
		}
		if base.ErrType != o.ErrType || base.Msg != o.Msg || !moved {
			c.fail("lines", "%d lines in front change the error from %v to %v", s.At, base, o)
		}
	case kTree:
		if s.N > 0 {
			return
		}
		a, _ := dump(base.Tree, testURL, 0)
		b, _ := dump(o.Tree, u, s.At)
		if a != b {
			c.fail("lines", "%d lines in front change the tree, apart from moving it: %s", s.At, diff(a, b))
		}
	}
}

func tornC05(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	ps := positions(rs)
	rd, _ := open(s.Text, s.D[0], nil)
	o := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	sourceC05(s, c, o, testURL, testName)
	c.tracef("torn %s: %v", s.Suffix, o)
	if o.Kind != kError || o.ErrType == "parser error" {
		c.note("no error")
		return
	}
	c.fault("torn " + string(s.Suffix))
	c.nontrivial(s.Kind, string(s.Text))
	c.state(s.Kind, string(s.Suffix), s.Mode, o.Msg)
	from := ps[len(ps)-1]
	for i := range rs {
		if rs[i].off >= s.Op[0] {
			from = ps[i]
			break
		}
	}
	end := ps[len(ps)-1]
	at := pos{o.Row, o.Col}
	if before(at, from) || before(end, at) {
		c.fail("torn", "the text ends %s; the last token ends at %d:%d and the text at %d:%d, but the error is located at %v", s.Suffix, from.Row, from.Col, end.Row, end.Col, o)
	}
}

func shrinkC05(s *Scenario) []*Scenario {
	out := shrinkStream(s)
	switch s.Kind {
	case "history":
		for _, k := range cuts(len(s.Op)) {
			c := s.clone()
			c.Op = append(append([]int{}, s.Op[:k[0]]...), s.Op[k[1]:]...)
			out = append(out, c)
		}
		out = append(out, shrinkText(s)...)
	case "lines in front":
		if s.At > 1 && s.N == 0 {
			for _, e := range lineEnds {
				c := s.clone()
				c.Prefix, c.At = Src(e), 1
				out = append(out, c)
			}
		}
		for _, c := range shrinkText(s) {
			c.At = s.At
			out = append(out, c)
		}
	case "failure":
		out = append(out, shrinkText(s)...)
	}
	return out
}
