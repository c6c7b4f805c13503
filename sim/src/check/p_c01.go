package main

import (
	"encoding/json"
	"fmt"
	"runtime"
)

func init() {
	register(&prop{
		id: "C01", quick: 700000, thorough: 10000000, chunk: 250,
		gen: genC01, run: runC01, shrink: shrinkC01,
		rule:   "a run is one parse of a made-up, mutated, damaged, nested or oversized source over a stream that may fail, stall or end early at a chosen character; non-trivial if the source is not empty; distinct by source, mode, delivery and fault",
		states: "distinct (kind of source, mode, fault kind, outcome, error text with positions removed)",
		real:   []string{"lexer.Scanner", "lexer.Lexer", "parser.Scanner", "parser.Parser", "ast (rendering to ESTree, JSON encoding)", "bufio.Reader"},
		stub:   []string{"the source stream (simulated byte or rune stream with injected faults)"},
	})
}

func genC01(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Mode: anyMode(r)}
	size := 60
	if r.p(6) {
		size = 400
	}
	switch k := r.n(100); {
	case k < 8:
		s.Kind, s.Text = "program", program(r, s.Mode, r.in(1, size)).Text
	case k < 34:
		s.Kind, s.Text = "mutated program", mutate(r, program(r, s.Mode, r.in(1, size)))
	case k < 52:
		s.Kind, s.Text = "damaged program", damage(r, program(r, s.Mode, r.in(1, size)).Text)
	case k < 60:
		s.Kind, s.Text = "wild", wildText(r, r.in(4, 40))
	case k < 70:
		s.Kind, s.Text = "cover", cover(r)
	case k < 82:
		s.Kind, s.Text = "tokens", soup(r, 24)
	case k < 88:
		s.Kind, s.Text = "damaged part of a library", damage(r, window(r, 4000))
	case k < 89 && r.p(4):
		s.Kind, s.Text = "damaged library", damage(r, corpus1(r))
	case k < 90 && r.p(3):
		s.Kind = "large"
		s.Text = Src(nests[nestNames[r.n(len(nestNames))]](r.in(20000, 120000)))
		s.Mode = r.str("script", "module")
	default:
		name := nestNames[r.n(len(nestNames))]
		var n int
		switch r.n(8) {
		case 0, 1:
			n = r.in(1, 40)
		case 2:
			n = r.in(600, 1300)
		case 3:
			n = r.in(1200, 2600)
		case 4, 5:
			n = r.in(100, 3000)
		default:
			n = r.in(3000, 12000)
		}
		s.Kind, s.Text = "nested: "+name, Src(nests[name](n))
		if r.p(2) {
			name = "mixture"
			s.Kind, s.Text = "nested: mixture", mixture(r, n)
		}
		if r.p(5) && len(s.Text) > 0 {
			s.Kind = "nested, torn: " + name
			s.Text = s.Text[:r.n(len(s.Text))]
		}
		if r.p(5) {
			s.Text = append(append(Src("x=>{"), s.Text...), '}')
		}
	}
	s.D = []Delivery{{Kind: "runes"}}
	if r.p(3) {
		s.D[0] = genDelivery(r)
	}
	if r.p(4) {
		n := len(runesOf(s.Text))
		s.D[0] = genFaulty(r)
		switch r.n(5) {
		case 0:
			s.F = &Fault{At: r.n(n + 1), Kind: "stall"}
		case 1, 2:
			s.F = &Fault{At: r.n(n + 1), Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: r.str("rest", "error", "eof", "stall")}
		case 3:
			s.F = &Fault{At: r.n(n + 1), Kind: "eof", Then: r.str("rest", "eof", "error")}
		case 4:
			s.F = &Fault{At: r.in(1, 1+n/3), Kind: "unread", Err: streamErrs[r.n(len(streamErrs))]}
		}
	}
	return s
}

// allocated returns the number of bytes that were allocated so far, if that is
// of interest for a text of n bytes.
func allocated(n int) uint64 {
	if n < 1000 {
		return 0
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// allocLimit is the number of bytes that the parse of n bytes may allocate. The
// worst that was seen is about 300 per byte. A parse that copies what it has
// again and again takes time that the number of statements does not show.
func allocLimit(n int) uint64 { return 4<<20 + 4000*uint64(n) }

func corpus1(r *rng) []byte {
	l := corpus()
	if len(l) == 0 {
		return program(r, "script", 3000).Text
	}
	return l[r.n(len(l))]
}

func runC01(s *Scenario, c *ctx) {
	rd, st := open(s.Text, s.D[0], s.F)
	c.tracef("%s, %s mode, %d bytes, %v, fault %+v", s.Kind, s.Mode, len(s.Text), s.D[0], s.F)
	before := allocated(len(s.Text))
	o := c.see(parse(rd, testURL, s.Mode, len(s.Text)))
	used := allocated(len(s.Text)) - before
	c.tracef("outcome: %v (%d steps)", o, o.Steps)
	if used > allocLimit(len(s.Text)) {
		c.fail("memory", "the parse of %d bytes allocated %d bytes", len(s.Text), used)
	}
	if st.fired {
		c.fault(s.F.Kind)
	} else if s.F != nil {
		c.note("fault not reached")
	}
	c.note(o.Kind)
	for b := uint64(16); ; b *= 2 {
		if o.Steps <= 2000+b*uint64(len(s.Text)) {
			c.note(fmt.Sprintf("at most 2000+%d*n steps", b))
			break
		}
	}
	if len(s.Text) > 0 {
		f := ""
		if s.F != nil {
			f = s.F.Kind
		}
		c.nontrivial(string(s.Text), s.Mode, s.D, s.F)
		c.state(s.Kind, s.Mode, f, o.Kind, o.ErrType, o.Msg)
	}
	switch o.Kind {
	case kError:
		return
	case kStall:
		if st.fired && (s.F.Kind == "stall" || s.F.Then == "stall") {
			return
		}
		c.fail("stall", "the parse waits for input although the stream delivered everything")
		return
	case kTree:
	default:
		c.fail(o.Kind, "%v", o)
		return
	}
	// A tree can be rendered.
	var doc string
	var err error
	before = allocated(len(s.Text))
	how := guarded(budgetFor(len(s.Text)), func() { doc, err = render(o.Tree) })
	used = allocated(len(s.Text)) - before
	switch {
	case how != "":
		c.fail("rendering", "rendering the tree: %s", how)
	case used > 3*allocLimit(len(s.Text)):
		c.fail("memory", "rendering the tree of %d bytes allocated %d bytes", len(s.Text), used)
	case err != nil:
		c.fail("rendering", "rendering the tree failed: %v", err)
	case !json.Valid([]byte(doc)):
		c.fail("rendering", "the rendered tree is not valid JSON: %s", short(doc, 300))
	}
	c.observe(doc)
}

func shrinkC01(s *Scenario) []*Scenario {
	out := shrinkStream(s)
	if s.F != nil {
		c := s.clone()
		c.F = nil
		out = append([]*Scenario{c}, out...)
	}
	return append(out, shrinkText(s)...)
}
