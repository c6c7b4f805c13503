package main

import (
	"fmt"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func init() {
	register(&prop{
		id: "C23", quick: 900000, thorough: 20000000, chunk: 500,
		gen: genC23, run: runC23, shrink: shrinkC20,
		rule:   "a run makes a random sequence of up to 600 peeks, scans, scans for a token of some type, re-scans and questions for the location on the parser's scanner, over any text and delivery, with the stream failing, stalling or ending at some character; each answer, and where the sequence waits, has to be that of a plain list of the lexer's tokens; after an error, what was looked ahead is still scanned; non-trivial if there was a peek and a scan; distinct by text, sequence, delivery and fault",
		states: "distinct (longest lookahead, number of tokens ahead at the fault, operation that met it, kind of fault, delivery kind)",
		real:   []string{"parser.Scanner", "lexer.Scanner", "lexer.Lexer", "errs", "bufio.Reader"}, stub: streamStub,
	})
}

// What Op says; from opPeek on it is how far to peek.
const (
	opScan = iota
	opReScan
	opLocation
	opExpect // what was scanned last
	opPeek
)

func genC23(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{D: []Delivery{genDelivery(r)}}
	s.Text = lexText(r, 40)
	n := r.in(1, 60)
	far := r.in(1, 4)
	switch r.n(12) {
	case 0:
		n = r.in(60, 600)
		s.Text = append(append(s.Text, '\n'), lexText(r, 200)...)
	case 1:
		far = r.in(4, 40)
	case 2:
		n, far = r.in(20, 200), r.in(2, 12)
	}
	style := r.n(5)
	for k := 0; k < n; k++ {
		op := opScan
		switch style {
		case 0: // anything
			op = r.n(opPeek + far)
		case 1: // like the parser
			switch r.n(8) {
			case 0:
				op = opPeek + r.n(far)
			case 1:
				op = opReScan
			case 2:
				op = opLocation
			case 3:
				op = opExpect
			default:
				op = opPeek
				s.Op = append(s.Op, op)
				op = opScan
			}
		case 2: // in bursts
			s.Op = append(s.Op, opPeek+r.n(far))
			for m := r.n(far + 2); m > 0; m-- {
				s.Op = append(s.Op, opScan)
				if r.p(3) {
					s.Op = append(s.Op, opLocation)
				}
			}
		case 3: // mostly peeks
			if !r.p(4) {
				op = opPeek + r.n(far)
			}
		default: // with slashes
			op = []int{opScan, opScan, opReScan, opLocation, opPeek, opPeek + r.n(far)}[r.n(6)]
		}
		s.Op = append(s.Op, op)
	}
	if r.p(2) {
		s.D[0] = genFaulty(r)
		s.F = &Fault{At: r.n(len(runesOf(s.Text)) + 1), Kind: r.str("stall", "stall", "error", "eof"), Then: r.str("rest", "eof", "error", "stall")}
		if s.F.Kind == "error" {
			s.F.Err = streamErrs[r.n(len(streamErrs))]
		}
	}
	return s
}

// tokenQueue is what is to be compared: parser.Scanner, and the model.
type tokenQueue interface {
	PeekAt(i int) lexer.Token
	Scan() lexer.Token
	ReScan() lexer.ReToken
	ScanExpect(t lexer.TokenType, err string) lexer.Token
	Location() ast.Location
}

// tokenList is a lexer's tokens.
type tokenList struct {
	l    *lexer.Lexer
	toks []lexer.Token
	at   []ast.Location // in front of each
	next int
}

func (t *tokenList) PeekAt(i int) lexer.Token {
	for len(t.toks) <= t.next+i {
		loc := t.l.Location()
		t.toks = append(t.toks, t.l.Lex())
		t.at = append(t.at, loc)
	}
	return t.toks[t.next+i]
}

func (t *tokenList) Scan() lexer.Token {
	x := t.PeekAt(0)
	t.next++
	return x
}

func (t *tokenList) ahead() int { return len(t.toks) - t.next }

func (t *tokenList) ReScan() lexer.ReToken {
	if t.ahead() > 0 {
		panic("refused")
	}
	return t.l.ReLex()
}

func (t *tokenList) ScanExpect(typ lexer.TokenType, err string) lexer.Token {
	x := t.Scan()
	if x.Type != typ {
		panic(&errs.SyntaxError{Location: t.Location(), Err: fmt.Errorf("not %v: %s", typ, err)})
	}
	return x
}

func (t *tokenList) Location() ast.Location {
	if t.ahead() > 0 {
		return t.at[t.next]
	}
	return t.l.Location()
}

// asked is what came of a sequence of operations.
type asked struct {
	log   []string
	end   string // "", what failed, or how it ended
	peeks int
	scans int
	far   int
}

// ask does what ops say until it has to wait or something fails. Then, left says
// how many tokens there are that were looked ahead.
func ask(q tokenQueue, ops []int, budget uint64, left func() int) *asked {
	a := &asked{}
	last := lexer.Token{Type: lexer.TokenNone}
	show := func(what string, t lexer.Token) {
		a.log = append(a.log, fmt.Sprintf("%s: %v %q new line: %v", what, t.Type, t.Literal, t.NewLine))
	}
	where := func() {
		l := q.Location()
		src := ""
		if l.URI != testURL {
			src = fmt.Sprint(" of ", l.URI)
		}
		a.log = append(a.log, fmt.Sprintf("at %d:%d%s", l.Row, l.Column, src))
	}
	// try does f and says whether it failed.
	try := func(what string, expected bool, f func()) (failed bool) {
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			failed = true
			o := &Outcome{}
			switch e := p.(type) {
			case *errs.SyntaxError:
				o.classify(nil, e)
			case *errs.EncodingError:
				o.classify(nil, e)
			case *errs.ParserError:
				o.classify(nil, e)
			default:
				a.end = what + ": panics"
				a.log = append(a.log, fmt.Sprint(what, ": panics"))
				return
			}
			bad := ""
			if o.URI != testURL {
				bad = fmt.Sprintf(" of %v", o.URI)
			}
			a.end = fmt.Sprintf("%s: %s at %d:%d%s", what, o.ErrType, o.Row, o.Col, bad)
			if !expected {
				a.end += ": " + o.Msg
			}
			a.log = append(a.log, a.end)
		}()
		f()
		return false
	}
	ahead := 0
	how := guarded(budget, func() {
		slash := false
		for _, op := range ops {
			var failed bool
			switch {
			case op == opScan:
				a.log = append(a.log, "scan")
				failed = try("scan", false, func() {
					last = q.Scan()
					a.scans++
					show("scan", last)
				})
			case op == opExpect:
				a.log = append(a.log, "expect")
				// Two errors that are no failures of the stream or lexer.
				mismatch := true
				failed = try("peek", false, func() { mismatch = q.PeekAt(0).Type != last.Type })
				if failed {
					break
				}
				if ahead < 1 {
					ahead = 1
				}
				if try("expect", true, func() {
					last = q.ScanExpect(last.Type, "expected what was there before")
					a.scans++
					show("expect", last)
				}) {
					if !mismatch {
						a.log = append(a.log, "although it is there")
					}
					a.end = ""
					last = lexer.Token{Type: lexer.TokenNone}
				}
			case op == opReScan:
				if ahead > 0 {
					if !try("refused re-scan", true, func() { q.ReScan() }) {
						a.log = append(a.log, "not refused")
					}
					a.end = ""
					continue
				}
				if !slash {
					continue
				}
				a.log = append(a.log, "re-scan")
				failed = try("re-scan", false, func() {
					t := q.ReScan()
					last = t.Token
					show("re-scan", last)
					a.log = append(a.log, fmt.Sprintf("%q %q", t.Pattern, t.Flags))
				})
				slash = false
				if !failed {
					where()
				}
				if failed {
					break
				}
				continue
			case op == opLocation:
				where()
				continue
			case op >= opPeek:
				i := op - opPeek
				a.log = append(a.log, "peek")
				failed = try(fmt.Sprint("peek ", i), false, func() {
					show(fmt.Sprint("peek ", i), q.PeekAt(i))
					a.peeks++
				})
				if !failed && ahead <= i {
					ahead = i + 1
				}
				if ahead > a.far {
					a.far = ahead
				}
			}
			if failed {
				// What was there before is still there.
				for n := left(); n > 0; n-- {
					where()
					if try("scan", false, func() { show("scan", q.Scan()) }) {
						break
					}
				}
				return
			}
			if op == opScan || op == opExpect {
				if ahead > 0 {
					ahead--
				}
				slash = last.Type == lexer.TokenPunctuatorDiv || last.Type == lexer.TokenPunctuatorDivAssign
			}
			where()
		}
	})
	if how != "" {
		a.end = how
		a.log = append(a.log, how)
	}
	return a
}

func runC23(s *Scenario, c *ctx) {
	rs := runesOf(s.Text)
	if s.F != nil && s.F.At > len(rs) {
		return
	}
	budget := budgetFor(len(s.Text)) + uint64(1000*len(s.Op))
	rd, _ := open(s.Text, Delivery{Kind: "runes"}, s.F)
	model := &tokenList{l: lexer.NewLexer(lexer.NewScanner(rd, testURL))}
	n := 0
	want := ask(model, s.Op, budget, func() int {
		n = model.ahead()
		return n
	})
	rd, st := open(s.Text, s.D[0], s.F)
	got := ask(parser.NewScanner(lexer.NewLexer(lexer.NewScanner(rd, testURL))), s.Op, budget, func() int { return n })
	c.evals += 2
	for _, l := range got.log {
		c.tracef("%s", l)
		c.observe(l)
	}
	c.note("end: " + strings.Trim(strings.SplitN(strings.SplitN(got.end, " at ", 2)[0], ":", 2)[0], " 0123456789"))
	if st.fired {
		c.fault("stream: " + s.F.Kind)
	}
	if st.breach != "" {
		c.fail("contract", "the scanner broke the contract of the stream: %s", st.breach)
		return
	}
	for i := 0; i < len(got.log) || i < len(want.log); i++ {
		g, w := "nothing more", "nothing more"
		if i < len(got.log) {
			g = got.log[i]
		}
		if i < len(want.log) {
			w = want.log[i]
		}
		if g != w {
			c.fail("lookahead", "answer %d (%s): with a list of the tokens it is (%s)", i+1, g, w)
			return
		}
	}
	switch got.end {
	case kHang, kBlocked:
		c.note("not comparable") // C20
		return
	}
	if got.peeks > 0 && got.scans > 0 {
		c.nontrivial(string(s.Text), s.Op, s.D, s.F)
	}
	fault := ""
	if st.fired {
		fault = s.F.Kind
	}
	c.state(got.far, n, got.end, fault, s.D[0].Kind)
}
