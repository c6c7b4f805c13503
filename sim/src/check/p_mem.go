package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func init() {
	register(&prop{
		id: "C22", quick: 5000, thorough: 100000, chunk: 20,
		gen: genC22, run: runC22, shrink: shrinkC22,
		rule:   "a run does one of: twice 1500 to 2500 parses of texts that all differ (successful, failing, over failing, stalling and prematurely ending streams, with renderings) in one process; twice 1500 to 2500 calls of one parser on an endless stream; reading all tokens of an endless stream; reading 900000 characters of white space and comments; holding a small tree of a text with large parts around it or behind it; in each the live memory is measured after a collection, and must not have grown from half-way to the end; where it has, the run goes on for up to ten times as long, and it is a violation if it grows all the time; non-trivial: each; distinct by texts and counts",
		states: "distinct (kind, modes, faults, outcomes)",
		real:   parserReal, stub: streamStub,
	})
}

// The places where the texts of Jobs differ from parse to parse are marked.
const mark = "\u00a7"

// genMarked makes up a text that can be made to differ from others.
func genMarked(r *rng, mode string, size int) Src {
	if r.p(4) {
		return Src(r.str(
			"a§", "a§ + 'b§'", "f§(/a§/g, x§)", "x§ => ({ y§: 'z§' })", "function f§() { 'use strict'; return a§ }", "class A§ { m§() { } #p§ = 1 }", "{ a§, b: c§ }", "[a§, ...b§]",
			"§1 + 0x§1", "a§ = b§ /* c§ */ // d§\n", "'§'", "a§\u00e9\U00020020", "async function* g§() { yield a§; await b§ }", "new.target.a§", "a§ @ b", "( a§", "'a§", "/a§", "a§ b§ c§", "{ 'use strict'; @§"))
	}
	p := program(r, mode, r.in(1, size))
	known := map[string]bool{}
	for _, n := range names {
		known[n] = true
	}
	for i := range p.toks {
		t := &p.toks[i]
		switch {
		case t.kind == 'i' && known[t.s]:
			t.s += mark
		case t.kind == 's', t.kind == 'r' && r.p(2):
			t.s = t.s[:1] + mark + t.s[1:]
		}
	}
	q := &Prog{Mode: p.Mode, toks: p.toks}
	q.layout(r, false)
	if r.p(6) {
		return mutateText(r, q.Text)
	}
	return q.Text
}

// mutateText takes a part out of a text.
func mutateText(r *rng, b []byte) []byte {
	rs := runesOf(b)
	if len(rs) < 2 {
		return b
	}
	i := r.n(len(rs) - 1)
	j := i + 1 + r.n(len(rs)-i-1)
	if j > i+8 {
		j = i + 8
	}
	return append(append([]byte{}, b[:rs[i].off]...), b[rs[j].off:]...)
}

// marked makes the nth text.
func marked(t Src, tag uint64, n int) []byte {
	return bytes.ReplaceAll(t, []byte(mark), []byte(fmt.Sprintf("%x%d", tag&0xffffff, n)))
}

var fillers = []string{" ", "\t", "\n", "\r\n", "// a comment\n", "/* a comment */", "/*\n\n*/", "\ufeff", "//\n", " \u2028", "/* \u00e9\u65e5\U0001f600 */\n"}

func genC22(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Sch: &Choices{Seed: r.next() >> 1}, D: []Delivery{{Kind: "runes"}}, N: r.in(1500, 2500)}
	switch r.n(8) {
	case 0, 1, 2:
		s.Kind = "many"
	case 3, 4:
		s.Kind = "endless"
	case 5:
		s.Kind = "tokens"
	case 6:
		s.Kind = "trivia"
		s.N = 900000
		s.Text = Src(fillers[r.n(len(fillers))])
		switch r.n(4) {
		case 0:
			s.Prefix, s.Suffix = Src("/*"), Src("*/")
			s.Text = Src(r.str("a comment ", "*", "\n", "* /", "\u00e9", "// "))
		case 1:
			s.Prefix, s.Suffix = Src("//"), Src("\n")
			s.Text = Src(r.str("a comment ", "*/", "\u00e9", "// "))
		}
		s.Mode = anyMode(r)
	default:
		s.Kind = "held"
		s.Mode = anyMode(r)
		s.Text = genMarked(r, s.Mode, 12)
		if r.p(3) {
			// Errors of every kind.
			s.Text = mutateText(r, genMarked(r, s.Mode, 6))
		}
		s.Prefix = Src(fillers[r.n(len(fillers))])
		s.Suffix = Src(fillers[r.n(len(fillers))])
		s.At = r.n(2)
		s.N = 300000
	}
	if r.p(2) {
		s.D[0] = genBuffered(r)
	}
	if s.Kind == "many" || s.Kind == "endless" || s.Kind == "tokens" {
		bad := r.n(4)
		for k := r.in(1, 4); k > 0; k-- {
			j := Job{Mode: anyMode(r), D: Delivery{Kind: "runes"}}
			size := 14
			if s.Kind != "many" {
				j.Mode = "expression"
			}
			j.Text = genMarked(r, j.Mode, size)
			if s.Kind == "many" {
				j.URL = r.str("", "/sim/"+mark+".js", "https://"+mark+".test/a.js?"+mark)
				j.Do = r.str("", "render", "clear")
				if bad > 0 && r.p(4-bad) {
					n := r.n(len(runesOf(j.Text)) + 1)
					switch r.n(4) {
					case 0, 1:
						j.F = &Fault{At: n, Kind: "stall"}
					case 2:
						j.F = &Fault{At: n, Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: "error"}
					default:
						j.F = &Fault{At: n, Kind: "eof", Then: "rest"}
					}
				}
			}
			s.Jobs = append(s.Jobs, j)
		}
	}
	return s
}

// flow is a stream that is made up as it is read.
type flow struct {
	more func() string // "" at the end
	cur  []rune
	i    int
	last bool
	n    int // characters read
	rest []byte
}

func (f *flow) refill() bool {
	s := f.more()
	if s == "" {
		return false
	}
	keep := f.cur
	if len(keep) > 1 {
		keep = keep[len(keep)-1:]
	}
	f.cur = append(append(make([]rune, 0, len(s)+1), keep...), []rune(s)...)
	f.i = len(keep)
	return true
}

func (f *flow) ReadRune() (rune, int, error) {
	if f.i == len(f.cur) && !f.refill() {
		f.last = false
		return 0, 0, io.EOF
	}
	c := f.cur[f.i]
	f.i++
	f.n++
	f.last = true
	return c, len(string(c)), nil
}

func (f *flow) UnreadRune() error {
	if !f.last || f.i == 0 {
		return errors.New("nothing to push back")
	}
	f.last = false
	f.i--
	f.n--
	return nil
}

func (f *flow) Read(b []byte) (int, error) {
	if len(f.rest) == 0 {
		f.rest = []byte(f.more())
		if len(f.rest) == 0 {
			return 0, io.EOF
		}
	}
	n := copy(b, f.rest)
	f.rest = f.rest[n:]
	return n, nil
}

func (f *flow) stream(d Delivery) io.RuneScanner {
	if d.Kind == "bufio" {
		return bufio.NewReaderSize(f, d.Size)
	}
	return f
}

// live returns how much memory is in use.
func live() int {
	runtime.GC()
	runtime.GC()
	m := &runtime.MemStats{}
	runtime.ReadMemStats(m)
	return int(m.HeapAlloc)
}

func runC22(s *Scenario, c *ctx) {
	tag := s.Sch.Seed
	outcomes := map[string]bool{}
	saw := func(o *Outcome) {
		c.evals++
		c.steps += o.Steps
		c.note(s.Kind + ": " + o.Kind)
		outcomes[o.Kind] = true
		if c.evals < 20 {
			c.observe(o.String())
		}
	}
	// phases does the same over and over again. What there is at most is there
	// after some time.
	phases := func(what string, n int, one func()) {
		run := func(n int) int {
			for i := 0; i < n; i++ {
				one()
			}
			return live()
		}
		limit := func(n int) int { return 40000 + 8*n }
		m0, m1, m2 := run(20), run(n), run(n)
		c.tracef("%s: the memory in use grows by %d, then by %d bytes", what, m1-m0, m2-m1)
		if m2-m1 <= limit(n) && m2-m0 <= 3*limit(n) {
			return
		}
		// Is there an end to it?
		c.note("more than usual")
		m3, m4 := run(2*n), run(12*n)
		c.tracef("by twice %d, it grows by %d, by twelve times as many, by %d bytes", n, m3-m2, m4-m3)
		if m4-m3 > limit(12*n) {
			c.fail("memory", "%s: the last three quarters of sixteen times as many still make the memory in use grow, by more than %d bytes", what, limit(12*n))
		}
	}
	switch s.Kind {
	case "many":
		if len(s.Jobs) == 0 {
			return
		}
		one := func(n int) {
			j := s.Jobs[n%len(s.Jobs)]
			text := marked(j.Text, tag, n)
			u := mkURL(strings.ReplaceAll(j.URL, mark, fmt.Sprintf("%x-%d", tag&0xffffff, n)))
			rd, st := open(text, j.D, j.F)
			o := parse(rd, u, j.Mode, len(text))
			if st.fired {
				c.fault("stream: " + j.F.Kind)
			}
			saw(o)
			if o.Kind == kTree {
				switch j.Do {
				case "render":
					render(o.Tree)
				case "clear":
					ast.ClearSpans(o.Tree)
				}
			}
		}
		n := 0
		phases(fmt.Sprintf("%d parses of %q and the like", s.N, short(string(marked(s.Jobs[0].Text, tag, 0)), 60)), s.N, func() {
			one(n)
			n++
		})
	case "endless", "tokens":
		if len(s.Jobs) == 0 {
			return
		}
		n := 0
		f := &flow{more: func() string {
			j := s.Jobs[n%len(s.Jobs)]
			n++
			if n > 50*s.N {
				return ""
			}
			return string(marked(j.Text, tag, n)) + "\n"
		}}
		rd := f.stream(s.D[0])
		o := &Outcome{}
		how := guarded(1<<40, func() {
			l := lexer.NewLexer(lexer.NewScanner(rd, testURL))
			p := parser.NewParser(l)
			one := func() {
				o := &Outcome{}
				defer func() {
					if v := recover(); v != nil {
						if s.Kind == "endless" {
							o.Kind, o.Detail = kPanic, fmt.Sprint(v)
						}
					}
					saw(o)
				}()
				if s.Kind == "tokens" {
					o.Kind = "token"
					l.Lex()
					return
				}
				o.classify(p.Parse(parser.ParseOptions{Mode: mode("expression")}))
			}
			phases(fmt.Sprintf("%d calls on one stream of %q and the like", s.N, short(string(marked(s.Jobs[0].Text, tag, 0)), 60)), s.N, one)
			runtime.KeepAlive(p)
			runtime.KeepAlive(rd)
		})
		if how != "" {
			o.Kind = how
			c.note(how)
			return // C01, C19, C20
		}
	case "trivia":
		unit := len([]rune(string(s.Text)))
		if unit == 0 {
			return
		}
		chunk := string(bytes.Repeat(s.Text, 1+1000/unit))
		total, k := 0, 0
		var at [3]int
		f := &flow{}
		f.more = func() string {
			if total == 0 {
				at[0] = live()
			}
			if k < 2 && total >= (k+1)*s.N/2 {
				k++
				at[k] = live()
			}
			switch {
			case total == 0:
				total++
				return string(s.Prefix) + chunk
			case total < s.N:
				total += len(chunk)
				return chunk
			case total < 1<<40:
				total = 1 << 40
				return string(s.Suffix) + "a"
			}
			return ""
		}
		rd := f.stream(s.D[0])
		o := parse(rd, testURL, s.Mode, s.N+10000)
		saw(o)
		if at[2] == 0 {
			return
		}
		what := fmt.Sprintf("reading %d characters of %q", s.N, short(string(s.Prefix)+string(s.Text)+string(s.Suffix), 40))
		c.tracef("%s: the memory in use grows by %d, then by %d bytes", what, at[1]-at[0], at[2]-at[1])
		if at[2]-at[1] > 40000 {
			c.fail("memory", "%s: the second half still makes the memory in use grow, by more than 40000 bytes", what)
		}
	case "held":
		if len(s.Prefix) == 0 || len(s.Suffix) == 0 {
			return
		}
		var o *Outcome
		small := marked(s.Text, tag, 0)
		a := live()
		func() {
			lead := bytes.Repeat(s.Prefix, s.N/len(s.Prefix))
			tail := append([]byte("\n"), bytes.Repeat(s.Suffix, s.N/len(s.Suffix))...)
			if s.At == 1 && s.Mode == "expression" {
				tail = []byte("\nb" + strings.Repeat("+ 'cccccccc'", s.N/12))
			}
			text := append(append(append([]byte{}, lead...), small...), tail...)
			var rd io.RuneScanner
			rest := text
			f := &flow{more: func() string {
				n := 1000
				if n > len(rest) {
					n = len(rest)
				}
				for n > 0 && n < len(rest) && rest[n]&0xc0 == 0x80 {
					n++
				}
				x := string(rest[:n])
				rest = rest[n:]
				return x
			}}
			rd = f.stream(s.D[0])
			o = parse(rd, testURL, s.Mode, len(text))
		}()
		saw(o)
		tree, err := o.Tree, o.Err
		kind := o.Kind
		o = nil
		b := live()
		runtime.KeepAlive(tree)
		runtime.KeepAlive(err)
		c.tracef("%s: holding the result of %q takes %d bytes", kind, short(string(small), 60), b-a)
		if limit := 20000 + 600*len(small); b-a > limit {
			c.fail("held", "the result of %q (%s) with %d characters in front and behind keeps more than %d bytes in use", short(string(small), 60), kind, s.N, limit)
		}
	}
	var modes []string
	for _, j := range s.Jobs {
		k := j.Mode
		if j.F != nil {
			k += " " + j.F.Kind
		}
		modes = append(modes, k)
	}
	sortStrings(modes)
	var os []string
	for k := range outcomes {
		os = append(os, k)
	}
	sortStrings(os)
	c.state(s.Kind, modes, os, s.D[0].Kind, string(s.Prefix), string(s.Suffix))
	c.nontrivial(fmt.Sprintf("%+v", *s))
}

func shrinkC22(s *Scenario) []*Scenario {
	var out []*Scenario
	if s.N > 100 {
		c := s.clone()
		c.N /= 2
		out = append(out, c)
	}
	if len(s.Jobs) > 1 {
		out = append(out, shrinkJobs(s, false)...)
	}
	for i := range s.Jobs {
		if s.Jobs[i].F != nil {
			c := s.clone()
			c.Jobs[i].F = nil
			out = append(out, c)
		}
		if string(s.Jobs[i].Text) != "a"+mark {
			c := s.clone()
			c.Jobs[i].Text = Src("a" + mark)
			out = append(out, c)
		}
	}
	if s.Kind != "trivia" && s.D[0].Kind != "runes" {
		c := s.clone()
		c.D[0] = Delivery{Kind: "runes"}
		out = append(out, c)
	}
	return out
}
