package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/verifsim/hook"
)

func init() {
	register(&prop{
		id: "C09", race: true, quick: 8000, thorough: 150000, chunk: 20,
		gen: genC09, run: runC09, shrink: shrinkC09,
		rule:   "a run lets 2 to 6 threads (sometimes up to 40, most of which wait for ever) parse (and some render) different sources at the same time, some over streams that pause, fail or stall for ever, in an interleaving of statements drawn from the seed, and compares each result with that of the same parse alone; non-trivial if threads were interleaved; distinct by the sequence of scheduling decisions and the sources",
		states: "distinct (number of threads, style of schedule, decisions taken in powers of two, faults, outcomes of the threads)",
		real:   append([]string{"Go race detector on the parser, lexer and ast packages"}, parserReal...), stub: append([]string{"thread scheduler (one thread at a time, preemption between statements)", "locks of package sync (simulated)"}, streamStub...),
	})
	register(&prop{
		id: "C10", race: true, quick: 6000, thorough: 150000, chunk: 20,
		gen: genC10, run: runC10, shrink: shrinkC09,
		rule:   "a run parses several sources, some one after the other with one parser, takes a snapshot of every tree, and lets 2 to 6 threads render the trees, parse other sources, or clear the positions of trees that nobody else uses, in an interleaving drawn from the seed; non-trivial if there was a tree and more than one thread; distinct by the sequence of scheduling decisions and the sources",
		states: "distinct (number of threads, what they do, style of schedule, decisions taken in powers of two, outcomes)",
		real:   append([]string{"Go race detector on the parser, lexer and ast packages"}, parserReal...), stub: append([]string{"thread scheduler (one thread at a time, preemption between statements)", "locks of package sync (simulated)"}, streamStub...),
	})
	register(&prop{
		id: "C11", quick: 24000, thorough: 600000, chunk: 60,
		gen: genC11, run: runC11, shrink: shrinkC11,
		rule:   "a run does a random history of up to 25 (seldom 900) parses (successful, failing, over failing, stalling and prematurely ending streams), renderings and position clearings in one process, then a probe, and compares the probe with the same parse in a process of its own; also what was written to the standard streams and the number of goroutines; every thirtieth run has a new process parse the same few texts 1100 to 68000 times, with the same result each time; non-trivial if the history is not empty; distinct by history and probe",
		states: "distinct (kinds of outcomes in the history, mode and outcome of the probe)",
		real:   parserReal, stub: streamStub,
	})
}

// ---- shared

func jobText(r *rng, mode string, size int) []byte {
	if r.p(8) {
		return []byte(sensitive[r.n(len(sensitive))])
	}
	b, _ := anyText(r, mode, size, r.p(2))
	return b
}

// sensitive are sources whose meaning depends on state that parsers keep:
// strictness, contexts that make words reserved, patterns in parentheses.
var sensitive = []string{
	"'use strict'; a = 1;", "function f() { 'use strict'; return a; } yield = 1;", "var let = 1;", "var yield = 2; yield * 3;", "var static = 1, implements = 2, await = 3;",
	"await = 1;", "function* g() { yield 1; yield* 2; } yield = 3;", "async a => { await b; }; await = 1;", "async (a) => await a;",
	"(a, b) => a + b", "({a, b: c, ...d}) => a", "(a, [b, c], ...d) => d", "({a: 1, b: 2});", "(a, b, c);", "({a = 1}) => a", "({a = 1});",
	"class A { static x = 1; get a() { return 1; } set a(v) {} #p = 2; }", "new.target", "function f() { return new.target; }",
	"for (a in b) ; for (a of b) ;", "a in b;", "for (var i = 0, j = (1 in c); i < j; i++) ;", "label: for (;;) { break label; continue label; }",
	"a = b / c / d; e = /f/g;", "a\n/b/g", "x = {}\n/1/g", "import a, { b as c } from 'd';", "import * as n from 'm'; n;", "let a = 1; const b = 2;", "const c;", "a ? b : c;",
	"return 1;", "yield", "await", "let", "async", "of", "get", "static", "enum", "#!/bin/sh\na", "\ufeffa", "a // c", "/* b */ a", "'\\u0041'", "`t`", "a?.b",
	"function f(a = 1, {b}, [c], ...d) {}", "switch (a) { case 1: b; default: c; }", "try { a } catch { b } finally { c }", "try { a } catch ({ b }) { c }", "throw a;", "if (a) b; else c;", "do a; while (b)", "while (a) b;",
	"0x1F + 0b11 + 0o17 + 1.5 + 10n", "a ?? b", "a ** b ** c", "typeof void delete a.b", "++a + b--", "a <<= 1; b >>>= 2; c ||= d", "\u65e5\u672c = '\U0001f600';",
}

func jobURL(r *rng, i int) string {
	if r.p(6) {
		return ""
	}
	if r.p(4) {
		return sources[r.n(len(sources))]
	}
	return fmt.Sprintf("/sim/%d.js", i)
}

func genJob(r *rng, i, size int) Job {
	j := Job{Mode: anyMode(r), URL: jobURL(r, i)}
	j.Text = jobText(r, j.Mode, size)
	j.D = genFaulty(r)
	if r.p(3) {
		j.D.Pause = true
	}
	if r.p(4) {
		n := len(runesOf(j.Text))
		switch r.n(4) {
		case 0, 1:
			j.F = &Fault{At: r.n(n + 1), Kind: "stall"}
		case 2:
			j.F = &Fault{At: r.n(n + 1), Kind: "error", Err: streamErrs[r.n(len(streamErrs))], Then: r.str("rest", "error", "eof")}
		case 3:
			j.F = &Fault{At: r.n(n + 1), Kind: "eof", Then: "rest"}
		}
	}
	return j
}

func genChoices(r *rng) *Choices {
	style := r.n(3)
	if r.p(5) {
		style = r.in(3, 9)
	}
	return &Choices{Seed: r.next() >> 1, Style: style}
}

// raceReports returns what the race detector wrote about unsynchronised
// accesses in the code under test, and the number of those. Only those count
// in which one of the stacks contains within.
func raceReports(within string) (string, int) {
	dir := os.Getenv("VERIF_TMP")
	l, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	if dir == "" || len(l) == 0 {
		return "no report", 1
	}
	text, n := "", 0
	for _, name := range l {
		b, _ := os.ReadFile(name)
		for _, rep := range strings.Split(string(b), "WARNING: DATA RACE") {
			// The stacks of the two accesses are the first two blocks.
			code, what, hit := 0, []string{}, false
			for _, block := range strings.Split(rep, "\n\n") {
				lines := strings.Split(strings.TrimSpace(block), "\n")
				head := strings.TrimSpace(lines[0])
				if !strings.Contains(head, " at 0x") {
					continue
				}
				frames, mine := 0, strings.Contains(block, "failed to restore the stack")
				what = append(what, head[:strings.Index(head, " at 0x")])
				for _, s := range lines[1:] {
					if i := strings.Index(s, "/ecmascript/"); i >= 0 && strings.Contains(s, ".go:") {
						mine = true
						s = s[i+1:]
						if j := strings.Index(s, " +0x"); j >= 0 {
							s = s[:j]
						}
						if frames++; frames <= 4 {
							what = append(what, s)
						}
					}
				}
				if mine {
					code++
					hit = hit || strings.Contains(block, within)
				}
			}
			if code >= 2 && hit {
				if n++; n == 1 {
					text = strings.Join(what, "; ")
				}
			}
		}
	}
	return text, n
}

// together runs the tasks of a scheduler and reports what goes wrong between
// them. stalls says which tasks may wait for ever.
// within restricts the data races to those that involve a package, and about
// the threads that matter (all if nil).
func together(s *Scenario, c *ctx, sch *hook.Sched, stalls map[int]bool, within string, about map[int]bool) bool {
	sch.Decide = s.Sch.decide(c)
	sch.MaxSlices = 2000000
	races := hook.RaceErrors()
	sch.Run()
	sch.Join()
	states := make([]int, len(sch.Tasks))
	for i, t := range sch.Tasks {
		states[i] = t.State
	}
	defer func() {
		sch.Abandon()
		sch.Join()
		for i, t := range sch.Tasks {
			t.State = states[i]
		}
	}()
	n := 0
	for _, t := range sch.Tasks {
		c.steps += t.Steps
		if t.Slices > 1 {
			n++
		}
	}
	if sch.Aborted {
		c.note("schedule too long")
		return false
	}
	if hook.RaceErrors() > races {
		text, k := raceReports(within)
		if k > 0 {
			c.fail("data race", "unsynchronised accesses to shared memory: %s", text)
			return false
		}
		c.note("data race elsewhere")
	}
	for i, t := range sch.Tasks {
		if about != nil && !about[i] {
			continue
		}
		if t.State == hook.Blocked || t.State == hook.External {
			c.fail("held up", "thread %d (%s) is %s although its own input does not stall", i, t.Name, t.StateName())
			return false
		}
		if t.Over {
			c.fail("out of steps", "thread %d (%s) does not end", i, t.Name)
			return false
		}
		if t.State == hook.Stalled && !stalls[i] {
			c.fail("held up", "thread %d (%s) waits for input that it was given", i, t.Name)
			return false
		}
	}
	b := 0
	for k := len(c.slots); k > 1; k /= 2 {
		b++
	}
	c.state(len(sch.Tasks), s.Sch.Style, b, n)
	return true
}

// ---- C09

// genHeldUp has some threads wait for ever, or fail, each somewhere within one
// thing, and others go through the same things.
func genHeldUp(r *rng) *Scenario {
	s := &Scenario{Kind: "together first", Sch: genChoices(r)}
	all := Src{}
	for n := r.in(2, 9); n > 0; n-- {
		t := menuItem(r)
		j := Job{Mode: anyMode(r), Text: Src(t), D: Delivery{Kind: "runes"}, URL: jobURL(r, len(s.Jobs))}
		if r.p(2) {
			j.Text = Src("a\n" + t + "\nb")
		}
		k := j
		j.F = &Fault{At: r.n(len(runesOf(j.Text)) + 1), Kind: "stall"}
		if r.p(4) {
			j.F.Kind, j.F.Err, j.F.Then = "error", streamErrs[r.n(len(streamErrs))], "error"
		}
		k.Mode = anyMode(r)
		s.Jobs = append(s.Jobs, j, k)
	}
	for n := r.in(0, 8); n > 0; n-- {
		all = append(append(all, menuItem(r)...), '\n')
	}
	if len(all) > 0 {
		s.Jobs = append(s.Jobs, Job{Mode: "script", Text: all, D: genFaulty(r), URL: jobURL(r, len(s.Jobs)), Do: r.str("", "render")})
	}
	for k := len(s.Jobs) - 1; k > 0; k-- {
		m := r.n(k + 1)
		s.Jobs[k], s.Jobs[m] = s.Jobs[m], s.Jobs[k]
	}
	return s
}

func genC09(r *rng, i int, deep bool) *Scenario {
	if r.p(4) {
		return genHeldUp(r)
	}
	s := &Scenario{Kind: "alone first", Sch: genChoices(r)}
	if i%20 == 0 || r.p(3) {
		s.Kind = "together first"
	}
	n := r.in(2, 6)
	size := 25
	if r.p(8) {
		size = 150
	}
	same := r.p(5)
	crowd := r.p(15)
	if crowd {
		// So many, most of them waiting for ever, that a limit on how many
		// can go on at the same time would show.
		n, size = r.in(10, 40), 8
	}
	for k := 0; k < n; k++ {
		j := genJob(r, k, size)
		if crowd && !r.p(8) {
			j.F = &Fault{At: r.n(len(runesOf(j.Text)) + 1), Kind: "stall"}
		}
		if same && k > 0 && r.p(2) {
			// The same text in the same or another mode.
			j.Text, j.Mode, j.F = s.Jobs[0].Text, r.str(s.Jobs[0].Mode, anyMode(r)), nil
			if r.p(2) {
				// It stalls where others go through.
				j.F = &Fault{At: r.n(len(runesOf(j.Text)) + 1), Kind: "stall"}
			}
		}
		if r.p(3) {
			j.Do = "render"
		}
		if r.p(6) {
			// One parser is used again for what follows.
			j.Do, j.Mode = "on", "expression"
			for m := r.in(1, 3); m > 0; m-- {
				j.Text = append(append(append(Src{}, j.Text...), r.str("\n", " ", " ; ")...), program(r, "expression", r.in(1, 1+size/2)).Text...)
			}
		}
		if r.p(6) {
			// Several threads name the same source.
			j.Name, j.URL = "shared", "/sim/shared.js"
		}
		s.Jobs = append(s.Jobs, j)
	}
	return s
}

func describeJob(j *Job) string {
	d := fmt.Sprintf("%s %q", j.Mode, short(string(j.Text), 60))
	if j.F != nil {
		d += fmt.Sprintf(", %s at character %d", j.F.Kind, j.F.At)
	}
	return d
}

func runC09(s *Scenario, c *ctx) {
	urls := make([]*url.URL, len(s.Jobs))
	shared := mkURL("/sim/shared.js")
	for i := range s.Jobs {
		urls[i] = mkURL(s.Jobs[i].URL)
		if s.Jobs[i].Name == "shared" {
			urls[i] = shared
		}
	}
	how := func(j *Job) func(io.RuneScanner, *url.URL, string, *Outcome) {
		if j.Do == "on" {
			return parseOn
		}
		return parseNow
	}
	alone := make([]string, len(s.Jobs))
	aloneOut := make([]*Outcome, len(s.Jobs))
	doAlone := func() {
		for i := range s.Jobs {
			j := &s.Jobs[i]
			rd, _ := open(j.Text, j.D, j.F)
			aloneOut[i] = parseWith(how(j), rd, urls[i], j.Mode, len(j.Text))
			c.evals++
			alone[i] = aloneOut[i].full(urls[i])
		}
	}
	if s.Kind == "alone first" {
		doAlone()
	}
	outs := make([]*Outcome, len(s.Jobs))
	docs := make([]string, len(s.Jobs))
	stalls := map[int]bool{}
	sch := hook.NewSched()
	for i := range s.Jobs {
		i, j := i, &s.Jobs[i]
		o := &Outcome{}
		outs[i] = o
		rd, _ := open(j.Text, j.D, j.F)
		stalls[i] = j.F != nil && j.F.Kind == "stall"
		if j.F != nil {
			c.fault(j.F.Kind)
		}
		if j.D.Pause {
			c.fault("pauses")
		}
		sch.Add(describeJob(j), budgetFor(len(j.Text))*2, func() {
			how(j)(rd, urls[i], j.Mode, o)
			if j.Do == "render" && o.Kind == kTree {
				doc, err := render(o.Tree)
				docs[i] = doc
				if err != nil {
					docs[i] = "rendering failed: " + err.Error()
				}
			}
		})
	}
	c.evals++
	fine := together(s, c, sch, stalls, "/ecmascript/", nil)
	c.fault("preemptions")
	c.faults["preemptions"] += len(c.slots) - 1
	if !fine {
		return
	}
	if s.Kind != "alone first" {
		doAlone()
	}
	seq := uint64(0)
	for _, sl := range c.slots {
		seq = (seq*31+uint64(sl.Task))*1099511628211 + sl.Steps
	}
	c.nontrivial(seq, len(s.Jobs))
	kinds := ""
	for i := range s.Jobs {
		o := outs[i]
		if sch.Tasks[i].State == hook.Stalled {
			*o = Outcome{Kind: kStall}
		}
		got := o.full(urls[i])
		c.observe(got)
		c.note(o.Kind)
		kinds += o.Kind + o.ErrType + ","
		c.tracef("thread %d: %s: %v", i, describeJob(&s.Jobs[i]), o)
		if got != alone[i] {
			c.fail("different", "thread %d (%s): together with others the result is %v, alone it is %v: %s", i, describeJob(&s.Jobs[i]), o, aloneOut[i], diff(got, alone[i]))
			return
		}
		if s.Jobs[i].Do == "render" && o.Kind == kTree {
			if doc, err := render(aloneOut[i].Tree); err == nil && doc != docs[i] {
				c.fail("different document", "thread %d (%s): the document differs from that of the same parse alone: %s", i, describeJob(&s.Jobs[i]), diff(docs[i], doc))
				return
			}
		}
	}
	c.state(s.Kind, kinds)
}

func shrinkJobs(s *Scenario, keepLast bool) []*Scenario {
	var out []*Scenario
	min := 1
	if keepLast {
		min = 0
	}
	n := len(s.Jobs)
	if keepLast {
		n--
	}
	if n > min {
		for _, k := range cuts(n) {
			if k[1]-k[0] == len(s.Jobs) {
				continue
			}
			c := s.clone()
			c.Jobs = append(append([]Job{}, s.Jobs[:k[0]]...), s.Jobs[k[1]:]...)
			if c.Sch != nil {
				var f []Slot
				for _, sl := range c.Sch.Fixed {
					if sl.Task >= k[1] {
						sl.Task -= k[1] - k[0]
					} else if sl.Task >= k[0] {
						continue
					}
					f = append(f, sl)
				}
				c.Sch.Fixed = f
			}
			out = append(out, c)
		}
	}
	for i := range s.Jobs {
		j := s.Jobs[i]
		if j.F != nil {
			c := s.clone()
			c.Jobs[i].F = nil
			out = append(out, c)
		}
		if j.Do != "" && s.Prop != "C10" {
			c := s.clone()
			c.Jobs[i].Do = ""
			out = append(out, c)
		}
		if j.D.Kind != "runes" || j.D.Pause {
			c := s.clone()
			c.Jobs[i].D = Delivery{Kind: "runes"}
			out = append(out, c)
		}
		rs := runesOf(j.Text)
		for _, k := range cuts(len(rs)) {
			from, to := rs[k[0]].off, len(j.Text)
			if k[1] < len(rs) {
				to = rs[k[1]].off
			}
			c := s.clone()
			c.Jobs[i].Text = append(append(Src{}, j.Text[:from]...), j.Text[to:]...)
			out = append(out, c)
		}
	}
	return out
}

func shrinkC09(s *Scenario) []*Scenario { return shrinkJobs(s, false) }

// ---- C10

// Jobs with Do "tree" (or "again": with the parser of the job before) are done
// first, in order. The others are threads: "render" and "clear" use the tree
// whose number is in Name; "parse".

func genC10(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Kind: "trees", Sch: genChoices(r)}
	n := r.in(1, 4)
	size := 30
	if r.p(8) {
		size = 150
	}
	for k := 0; k < n; k++ {
		j := Job{Do: "tree", Mode: anyMode(r), URL: jobURL(r, k), D: Delivery{Kind: "runes"}}
		switch {
		case r.p(4):
			j.Text = jobText(r, j.Mode, size)
		default:
			j.Text = program(r, j.Mode, r.in(1, size)).Text
		}
		if r.p(4) {
			// Several expressions in a row from one stream.
			j.Mode = "expression"
			for m := r.in(2, 4); m > 0; m-- {
				j.Text = append(append(append(Src{}, j.Text...), r.str(" ; ", "\n", " ", "\n")...), program(r, "expression", r.in(1, 20)).Text...)
			}
			s.Jobs = append(s.Jobs, j)
			for m := r.in(1, 5); m > 0; m-- {
				s.Jobs = append(s.Jobs, Job{Do: "again", Mode: r.str("expression", "expression", "script"), URL: j.URL})
			}
			continue
		}
		s.Jobs = append(s.Jobs, j)
		if r.p(4) {
			s.Jobs = append(s.Jobs, Job{Do: "again", Mode: anyMode(r), URL: j.URL})
		}
	}
	trees := len(s.Jobs)
	cleared := -1
	for k := r.in(2, 6); k > 0; k-- {
		t := r.n(trees)
		switch q := r.n(6); {
		case q < 4 && t != cleared:
			s.Jobs = append(s.Jobs, Job{Do: "render", Name: fmt.Sprint(t)})
		case q == 4 && cleared < 0:
			used := false
			for _, j := range s.Jobs {
				used = used || j.Do == "render" && j.Name == fmt.Sprint(t)
			}
			if !used {
				cleared = t
				s.Jobs = append(s.Jobs, Job{Do: "clear", Name: fmt.Sprint(t)})
				continue
			}
			fallthrough
		default:
			j := genJob(r, 10+k, size)
			j.Do = "parse"
			if r.p(2) {
				j.Text = s.Jobs[r.n(trees)].Text
				j.F = nil
			}
			s.Jobs = append(s.Jobs, j)
		}
	}
	return s
}

type held struct {
	job       int
	tree      ast.Node
	url       *url.URL
	dump, doc string
	cleared   bool
}

func runC10(s *Scenario, c *ctx) {
	var trees []*held
	byJob := map[int]*held{}
	var p *parser.Parser
	var purl *url.URL
	check := func(when string) bool {
		for _, h := range trees {
			d, _ := dump(h.tree, h.url, 0)
			if d != h.dump && !h.cleared {
				c.fail("tree changed", "the tree of job %d (%s) is different %s: %s", h.job, describeJob(&s.Jobs[h.job]), when, diff(d, h.dump))
				return false
			}
			doc, err := render(h.tree)
			if err != nil {
				doc = "rendering failed: " + err.Error()
			}
			if doc != h.doc {
				c.fail("document changed", "the document of job %d (%s) is different %s: %s", h.job, describeJob(&s.Jobs[h.job]), when, diff(doc, h.doc))
				return false
			}
			d, _ = dump(h.tree, h.url, 0)
			if d != h.dump && !h.cleared {
				c.fail("rendering changes", "rendering changes the tree of job %d (%s): %s", h.job, describeJob(&s.Jobs[h.job]), diff(d, h.dump))
				return false
			}
		}
		return true
	}
	for i := range s.Jobs {
		j := &s.Jobs[i]
		if j.Do != "tree" && j.Do != "again" {
			continue
		}
		if j.Do == "tree" {
			rd, _ := open(j.Text, j.D, nil)
			purl = mkURL(j.URL)
			p = parser.NewParser(lexer.NewLexer(lexer.NewScanner(rd, purl)))
		}
		if p == nil {
			continue
		}
		o := &Outcome{}
		q := p
		how := guarded(budgetFor(len(j.Text)+2000), func() {
			defer func() {
				if v := recover(); v != nil {
					o.Kind, o.Detail = kPanic, fmt.Sprint(v)
				}
			}()
			n, err := q.Parse(parser.ParseOptions{Mode: mode(j.Mode)})
			o.classify(n, err)
		})
		c.evals++
		c.tracef("job %d, %s: %s: %v", i, j.Do, describeJob(j), o)
		c.note(j.Do + ": " + o.Kind)
		c.observe(o.String())
		if how != "" || o.Kind != kTree {
			if len(trees) > 0 && !check(fmt.Sprintf("after job %d", i)) {
				return
			}
			continue
		}
		h := &held{job: i, tree: o.Tree, url: purl}
		h.dump, _ = dump(h.tree, purl, 0)
		doc, err := render(h.tree)
		if err != nil {
			doc = "rendering failed: " + err.Error()
		}
		h.doc = doc
		trees = append(trees, h)
		byJob[i] = h
		if !check(fmt.Sprintf("after job %d", i)) {
			return
		}
	}
	sch := hook.NewSched()
	var tasks []int
	outs := map[int]*Outcome{}
	docs := make([]string, len(s.Jobs))
	urls := make([]*url.URL, len(s.Jobs))
	stalls := map[int]bool{}
	does := []string{}
	about := map[int]bool{}
	inUse := map[*held]bool{}
	for i := range s.Jobs {
		if s.Jobs[i].Do == "render" {
			t := -1
			fmt.Sscan(s.Jobs[i].Name, &t)
			inUse[byJob[t]] = true
		}
	}
	for i := range s.Jobs {
		i, j := i, &s.Jobs[i]
		if j.Do == "tree" || j.Do == "again" {
			continue
		}
		t := -1
		fmt.Sscan(j.Name, &t)
		h := byJob[t]
		switch j.Do {
		case "render":
			if h == nil {
				continue
			}
			sch.Add(fmt.Sprintf("render %d", t), budgetFor(len(h.doc)), func() {
				doc, err := render(h.tree)
				if err != nil {
					doc = "rendering failed: " + err.Error()
				}
				docs[i] = doc
			})
		case "clear":
			if h == nil || inUse[h] {
				continue
			}
			h.cleared = true
			sch.Add(fmt.Sprintf("clear %d", t), budgetFor(len(h.doc)*2), func() { ast.ClearSpans(h.tree) })
		default:
			o := &Outcome{}
			outs[i] = o
			urls[i] = mkURL(j.URL)
			rd, _ := open(j.Text, j.D, j.F)
			if j.F != nil {
				c.fault(j.F.Kind)
			}
			stalls[len(tasks)] = j.F != nil && j.F.Kind == "stall"
			sch.Add(describeJob(j), budgetFor(len(j.Text))*2, func() { parseNow(rd, urls[i], j.Mode, o) })
		}
		if j.Do == "render" || j.Do == "clear" {
			about[len(tasks)] = true
		}
		does = append(does, j.Do)
		tasks = append(tasks, i)
	}
	if len(tasks) == 0 {
		return
	}
	c.evals++
	fine := together(s, c, sch, stalls, "/ecmascript/ast/", about)
	c.faults["preemptions"] += len(c.slots)
	if !fine {
		return
	}
	sort.Strings(does)
	c.state(len(trees), does, s.Sch.Style)
	if len(trees) > 0 && len(tasks) > 1 {
		seq := uint64(0)
		for _, sl := range c.slots {
			seq = (seq*31+uint64(sl.Task))*1099511628211 + sl.Steps
		}
		c.nontrivial(seq, len(s.Jobs))
	}
	for k, i := range tasks {
		j := &s.Jobs[i]
		c.tracef("thread %d: %s", k, sch.Tasks[k].Name)
		if j.Do == "render" {
			t := 0
			fmt.Sscan(j.Name, &t)
			if h := byJob[t]; docs[i] != h.doc {
				c.fail("document differs", "thread %d renders the tree of job %d differently: %s", k, t, diff(docs[i], h.doc))
				return
			}
		}
		if o := outs[i]; o != nil && o.Kind == kTree {
			h := &held{job: i, tree: o.Tree, url: urls[i]}
			h.dump, _ = dump(h.tree, h.url, 0)
			h.doc, _ = render(h.tree)
			trees = append(trees, h)
		}
	}
	if !check("after the threads") {
		return
	}
	// Nothing that happens later matters either.
	for i := range s.Jobs {
		j := &s.Jobs[i]
		if len(j.Text) > 0 {
			rd, _ := open(j.Text, Delivery{Kind: "runes"}, nil)
			o := parse(rd, testURL, j.Mode, len(j.Text))
			c.observe(o.String())
			if o.Kind == kTree {
				render(o.Tree)
				ast.ClearSpans(o.Tree)
			}
			c.evals++
		}
	}
	check("after more parses")
}

// ---- C11

func genC11(r *rng, i int, deep bool) *Scenario {
	if r.p(30) {
		return genSoak(r)
	}
	s := &Scenario{Kind: "history"}
	n := r.size(25)
	size := 30
	if r.p(60) {
		// A long life.
		n, size = r.in(200, 900), 8
	}
	for k := 0; k < n; k++ {
		j := genJob(r, k, size)
		if r.p(3) {
			j.F = nil
		}
		if r.p(12 + n/10) {
			j.Mode = anyMode(r)
			j.Text = Src(nests[nestNames[r.n(len(nestNames))]](r.in(1, 4000)))
			j.F = nil
		}
		j.D.Pause = false
		j.Do = r.str("", "", "", "render", "clear", "again")
		s.Jobs = append(s.Jobs, j)
	}
	p := Job{Mode: anyMode(r), URL: jobURL(r, 99), D: Delivery{Kind: "runes"}}
	p.Text = jobText(r, p.Mode, 60)
	if n > 0 && r.p(3) {
		p.Text = s.Jobs[r.n(n)].Text
	}
	if r.p(3) {
		p.Text = Src(sensitive[r.n(len(sensitive))])
	}
	if r.p(8) {
		p.F = &Fault{At: r.n(len(runesOf(p.Text)) + 1), Kind: "error", Err: "EIO", Then: "error"}
	}
	s.Jobs = append(s.Jobs, p)
	return s
}

// genSoak makes up a process that parses the same few texts over and over.
func genSoak(r *rng) *Scenario {
	s := &Scenario{Kind: "soak", N: r.in(1100, 2200)}
	n := r.in(1, 3)
	if r.p(15) {
		s.N, n = r.in(33000, 34000)*r.in(1, 2), 1
	}
	for k := 0; k < n; k++ {
		j := Job{Mode: anyMode(r), URL: jobURL(r, k), D: Delivery{Kind: "runes"}}
		switch {
		case r.p(6):
			j.Text, _ = anyText(r, j.Mode, 4, true)
		case r.p(5):
			j.Text = cover(r)
		default:
			j.Text = Src(sensitive[r.n(len(sensitive))])
		}
		if r.p(10) {
			j.F = &Fault{At: r.n(len(runesOf(j.Text)) + 1), Kind: "error", Err: "EIO", Then: "error"}
		}
		s.Jobs = append(s.Jobs, j)
	}
	return s
}

// runSoak has a new process go through the jobs again and again.
func runSoak(s *Scenario, c *ctx) {
	ans := &soaked{}
	if err := fresh("-soak", soak{s.Jobs, s.N}, ans); err != nil {
		panic(err)
	}
	c.evals += ans.Evals
	c.faults["parses of a long life"] += ans.Evals
	for i := range s.Jobs {
		c.tracef("%s: %s", describeJob(&s.Jobs[i]), short(string(ans.First[i]), 200))
		c.observe(string(ans.First[i]))
		c.state("soak", s.Jobs[i].Mode, short(string(ans.First[i]), 80))
	}
	c.nontrivial("soak", fmt.Sprint(s.Jobs))
	if ans.Round > 0 {
		c.fail("soak", "the result of %s changes when it is parsed for the %dth time in a process: %s", describeJob(&s.Jobs[ans.Job]), ans.Round, diff(string(ans.Got), string(ans.First[ans.Job])))
	}
}

type soak struct {
	Jobs []Job
	N    int
}

type soaked struct {
	First []Src
	Evals int

	// What came out different, if Round is not 0.
	Round, Job int
	Got        Src
}

// soakJobs is the main function of that process.
func soakJobs() {
	runtime.GOMAXPROCS(1)
	q := &soak{}
	if err := json.NewDecoder(os.Stdin).Decode(q); err != nil {
		os.Exit(3)
	}
	ans := &soaked{}
loop:
	for n := 1; n <= q.N; n++ {
		for i := range q.Jobs {
			got := evalJob(&q.Jobs[i])
			ans.Evals++
			switch {
			case n == 1:
				ans.First = append(ans.First, Src(got))
			case got != string(ans.First[i]):
				ans.Round, ans.Job, ans.Got = n, i, Src(got)
				break loop
			}
		}
	}
	b, _ := json.Marshal(ans)
	os.NewFile(3, "answer").Write(b)
	os.Exit(0)
}

// goroutines waits for the number of goroutines to go down to what it was.
func goroutines(want int) int {
	n := 0
	for i := 0; i < 200; i++ {
		if n = runtime.NumGoroutine(); n <= want {
			return n
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
	return n
}

func runC11(s *Scenario, c *ctx) {
	if s.Kind == "soak" {
		runSoak(s, c)
		return
	}
	if len(s.Jobs) == 0 {
		return
	}
	// What the machinery itself starts is there from here on.
	guarded(1000, func() {})
	before := runtime.NumGoroutine()
	kinds := map[string]bool{}
	for i := range s.Jobs[:len(s.Jobs)-1] {
		j := &s.Jobs[i]
		rd, st := open(j.Text, j.D, j.F)
		u := mkURL(j.URL)
		p := parser.NewParser(lexer.NewLexer(lexer.NewScanner(rd, u)))
		o := &Outcome{}
		run := func(n int) string {
			return guarded(budgetFor(n), func() {
				defer func() {
					if v := recover(); v != nil {
						o.Kind, o.Detail = kPanic, fmt.Sprint(v)
					}
				}()
				t, err := p.Parse(parser.ParseOptions{Mode: mode(j.Mode)})
				o.classify(t, err)
			})
		}
		if how := run(len(j.Text)); how != "" {
			*o = Outcome{Kind: how}
		}
		c.evals++
		c.observe(o.String())
		if st.fired {
			c.fault(j.F.Kind)
		}
		kinds[o.Kind+o.ErrType] = true
		c.tracef("%s: %v", describeJob(j), o)
		if o.Kind == kTree {
			switch j.Do {
			case "render":
				render(o.Tree)
			case "clear":
				ast.ClearSpans(o.Tree)
			case "again":
				o = &Outcome{}
				run(len(j.Text))
			}
		}
	}
	probe := &s.Jobs[len(s.Jobs)-1]
	got := evalJob(probe)
	c.evals++
	c.tracef("probe: %s: %s", describeJob(probe), short(got, 200))
	if n := goroutines(before); n > before {
		c.fail("goroutines", "%d goroutines are left behind: %s", n-before, goroutineDump())
		return
	}
	var l []string
	for k := range kinds {
		l = append(l, k)
	}
	sort.Strings(l)
	c.state(l, probe.Mode, short(got, 80))
	if len(s.Jobs) > 1 {
		c.nontrivial(fmt.Sprint(s.Jobs))
	}
	c.observe(got)
	want, err := evalFresh(probe)
	if err != nil {
		panic(err)
	}
	c.evals++
	if got != want {
		c.fail("history", "after %d other parses the result of %s differs from that in a fresh process: %s", len(s.Jobs)-1, describeJob(probe), diff(got, want))
	}
}

func goroutineDump() string {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	var keep []string
	for _, l := range strings.Split(string(buf), "\n") {
		if i := strings.LastIndex(l, "/ecmascript/"); i >= 0 {
			keep = append(keep, strings.TrimSpace(l[i+1:]))
		}
	}
	return short(strings.Join(keep, " < "), 300)
}

func evalJob(j *Job) string {
	u := mkURL(j.URL)
	rd, _ := open(j.Text, j.D, j.F)
	return parse(rd, u, j.Mode, len(j.Text)).full(u)
}

// fresh has a new process answer a question.
func fresh(how string, q, ans interface{}) error {
	b, err := json.Marshal(q)
	if err != nil {
		return err
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		return err
	}
	defer rd.Close()
	cmd := exec.Command(self(), how)
	cmd.Stdin = strings.NewReader(string(b))
	cmd.ExtraFiles = []*os.File{wr}
	cmd.Env = os.Environ()
	err = cmd.Start()
	wr.Close()
	if err != nil {
		return err
	}
	derr := json.NewDecoder(rd).Decode(ans)
	if err := cmd.Wait(); err != nil {
		return fmt.Errorf("fresh process: %v", err)
	}
	return derr
}

// evalFresh parses in a new process.
func evalFresh(j *Job) (string, error) {
	ans := &struct{ S Src }{}
	err := fresh("-eval", j, ans)
	return string(ans.S), err
}

// evalJobs is the main function of the fresh process.
func evalJobs() {
	runtime.GOMAXPROCS(1)
	j := &Job{}
	if err := json.NewDecoder(os.Stdin).Decode(j); err != nil {
		os.Exit(3)
	}
	b, _ := json.Marshal(struct{ S Src }{Src(evalJob(j))})
	os.NewFile(3, "answer").Write(b)
	os.Exit(0)
}

func shrinkC11(s *Scenario) []*Scenario {
	if s.Kind != "soak" {
		return shrinkJobs(s, true)
	}
	var out []*Scenario
	for _, n := range []int{2, s.N / 8, s.N / 2, s.N * 3 / 4, s.N * 15 / 16, s.N - 1} {
		if n > 1 && n < s.N {
			c := s.clone()
			c.N = n
			out = append(out, c)
		}
	}
	return append(out, shrinkJobs(s, false)...)
}
