package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
)

// Scenario is one simulated execution, or a few that are compared with each
// other. Running it is a pure function of the scenario and the code.
type Scenario struct {
	Prop string
	Kind string
	Mode string `json:",omitempty"`
	Text Src    `json:",omitempty"`

	// Prefix and Suffix are texts put around or compared with Text.
	Prefix Src `json:",omitempty"`
	Suffix Src `json:",omitempty"`

	// At is a position in characters, N a number whose meaning depends on
	// the kind.
	At int `json:",omitempty"`
	N  int `json:",omitempty"`

	D  []Delivery `json:",omitempty"`
	F  *Fault     `json:",omitempty"`
	Op []int      `json:",omitempty"`

	Jobs []Job    `json:",omitempty"`
	Sch  *Choices `json:",omitempty"`
	CLI  *CLISpec `json:",omitempty"`
}

// Job is a parse (or rendering) that is part of a scenario.
type Job struct {
	Name string `json:",omitempty"`
	Do   string `json:",omitempty"`
	Mode string
	Text Src
	D    Delivery
	F    *Fault `json:",omitempty"`
	URL  string `json:",omitempty"`
}

// Choices are the decisions of the scheduler: explicit ones, and after they
// are used up, ones derived from the seed.
type Choices struct {
	Seed  uint64
	Style int
	Fixed []Slot `json:",omitempty"`
	Only  bool   `json:",omitempty"` // nothing but the fixed ones, then in order
}

// Slot is a decision: a task runs for a number of steps.
type Slot struct {
	Task  int
	Steps uint64
}

type violation struct {
	Class string
	Msg   string
}

// ctx collects what happens in a run.
type ctx struct {
	evals    int
	faults   map[string]int
	states   map[uint64]bool
	distinct map[uint64]bool
	notes    map[string]int
	digest   uint64
	steps    uint64
	viol     *violation
	trace    []string
	slots    []Slot
	quiet    bool
}

func newCtx() *ctx {
	return &ctx{faults: map[string]int{}, states: map[uint64]bool{}, distinct: map[uint64]bool{}, notes: map[string]int{}}
}

// fail reports a violation; the first one counts.
func (c *ctx) fail(class, format string, args ...interface{}) {
	if c.viol == nil {
		c.viol = &violation{class, fmt.Sprintf(format, args...)}
	}
}

func (c *ctx) fault(kind string) { c.faults[kind]++ }
func (c *ctx) note(kind string)  { c.notes[kind]++ }

// state counts a distinct situation.
func (c *ctx) state(parts ...interface{}) { c.states[hash64([]byte(fmt.Sprintln(parts...)))] = true }

// nontrivial counts a distinct non-trivial case.
func (c *ctx) nontrivial(parts ...interface{}) {
	c.distinct[hash64([]byte(fmt.Sprintln(parts...)))] = true
}

// see adds an outcome to the digest of the run.
func (c *ctx) see(o *Outcome) *Outcome {
	c.evals++
	c.steps += o.Steps
	c.observe(o.String())
	return o
}

func (c *ctx) observe(s string) {
	c.digest = c.digest*1099511628211 ^ hash64([]byte(s))
}

func (c *ctx) tracef(format string, args ...interface{}) {
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// prop is a property and how it is checked.
type prop struct {
	id       string
	race     bool
	quick    int
	thorough int
	chunk    int
	gen      func(r *rng, i int, deep bool) *Scenario
	run      func(s *Scenario, c *ctx)
	shrink   func(s *Scenario) []*Scenario
	rule     string
	states   string // what the states are
	real     []string
	stub     []string
}

var props = map[string]*prop{}

func register(p *prop) {
	if p.chunk == 0 {
		p.chunk = 200
	}
	props[p.id] = p
}

func ids() []string {
	var l []string
	for id := range props {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

var testURL = &url.URL{Scheme: "file", Path: "/sim/input.js"}

const testName = "file:///sim/input.js"

func mkURL(s string) *url.URL {
	if s == "" {
		return nil
	}
	if strings.Contains(s, ":") {
		u, err := url.Parse(s)
		if err != nil {
			panic(err)
		}
		return u
	}
	return &url.URL{Scheme: "file", Path: s}
}

// sameURL reports whether two URLs name the same source.
func sameURL(a, b *url.URL) bool {
	return a == b || a != nil && b != nil && a.String() == b.String()
}

// sources are URLs that differ in one part or another.
var sources = []string{
	"file:///sim/input.js", "file:///sim/input.js#f", "file:///sim/input.js#g", "file:///sim/input.js?q", "file:///sim/input.js?r", "file:///sim/Input.js",
	"https://a.test/sim/input.js", "https://b.test/sim/input.js", "http://a.test/sim/input.js", "https://a.test:8080/sim/input.js", "https://u@a.test/sim/input.js", "https://v:w@a.test/sim/input.js",
	"data:text/javascript,a", "data:text/javascript,b", "urn:x", "urn:y",
}

func (s *Scenario) clone() *Scenario {
	c := *s
	c.Text = append(Src{}, s.Text...)
	c.D = append([]Delivery{}, s.D...)
	c.Op = append([]int{}, s.Op...)
	if s.F != nil {
		f := *s.F
		c.F = &f
	}
	c.Jobs = append([]Job{}, s.Jobs...)
	for i := range c.Jobs {
		if f := c.Jobs[i].F; f != nil {
			g := *f
			c.Jobs[i].F = &g
		}
	}
	if s.Sch != nil {
		h := *s.Sch
		h.Fixed = append([]Slot{}, s.Sch.Fixed...)
		c.Sch = &h
	}
	if s.CLI != nil {
		c.CLI = s.CLI.clone()
	}
	return &c
}

// cuts returns ranges of [0, n) worth removing, large ones first.
func cuts(n int) [][2]int {
	var out [][2]int
	for size := n / 2; size > 0; size /= 2 {
		if n/size > 64 {
			// Small pieces of a large text: only once it is smaller.
			if len(out) > 200 {
				break
			}
		}
		for at := 0; at+size <= n; at += size {
			out = append(out, [2]int{at, at + size})
		}
	}
	return out
}

// shrinkText removes parts of the text and moves the positions in it along.
func shrinkText(s *Scenario) []*Scenario {
	var out []*Scenario
	rs := runesOf(s.Text)
	for _, k := range cuts(len(rs)) {
		a, b := k[0], k[1]
		c := s.clone()
		from, to := rs[a].off, len(s.Text)
		if b < len(rs) {
			to = rs[b].off
		}
		c.Text = append(append(Src{}, s.Text[:from]...), s.Text[to:]...)
		move := func(at int) int {
			if at >= b {
				return at - (b - a)
			}
			if at > a {
				return a
			}
			return at
		}
		if c.F != nil && c.F.Kind != "unread" {
			c.F.At = move(c.F.At)
		}
		c.At = move(c.At)
		out = append(out, c)
	}
	return out
}

// shrinkStream makes the delivery simpler.
func shrinkStream(s *Scenario) []*Scenario {
	var out []*Scenario
	for i, d := range s.D {
		if len(s.D) > 1 {
			c := s.clone()
			c.D = append(append([]Delivery{}, s.D[:i]...), s.D[i+1:]...)
			out = append(out, c)
		}
		for _, e := range simplerDeliveries(d) {
			c := s.clone()
			c.D[i] = e
			out = append(out, c)
		}
	}
	if s.F != nil {
		for _, f := range simplerFaults(*s.F) {
			c := s.clone()
			g := f
			c.F = &g
			out = append(out, c)
		}
	}
	return out
}

func simplerDeliveries(d Delivery) []Delivery {
	var out []Delivery
	if d.Kind == "bufio" {
		out = append(out, Delivery{Kind: "runes"})
		if d.Size != 4096 {
			e := d
			e.Size = 4096
			out = append(out, e)
		}
		if d.DataErr {
			e := d
			e.DataErr = false
			out = append(out, e)
		}
		if len(d.Chunks) > 0 {
			e := d
			e.Chunks = nil
			out = append(out, e)
			for i := range d.Chunks {
				e := d
				e.Chunks = append(append([]int{}, d.Chunks[:i]...), d.Chunks[i+1:]...)
				if len(e.Chunks) > 0 && !allZero(e.Chunks) {
					out = append(out, e)
				}
			}
		}
	} else if d.Kind != "runes" {
		out = append(out, Delivery{Kind: "runes"})
	}
	if d.Pause {
		e := d
		e.Pause = false
		out = append(out, e)
	}
	return out
}

func allZero(c []int) bool {
	for _, v := range c {
		if v != 0 {
			return false
		}
	}
	return true
}

func simplerFaults(f Fault) []Fault {
	var out []Fault
	if f.Err != "generic" && f.Kind == "error" {
		g := f
		g.Err = "generic"
		out = append(out, g)
	}
	if f.Then != "error" && f.Then != "" && f.Kind == "error" {
		g := f
		g.Then = "error"
		out = append(out, g)
	}
	return out
}

// shrinkDefault combines the simplifications that make sense for most kinds.
func shrinkDefault(s *Scenario) []*Scenario {
	return append(shrinkStream(s), shrinkText(s)...)
}

// describe names what kind of character or token is at a place of a text, for
// counting situations.
func lexClass(text []byte, off int) string {
	if off >= len(text) {
		return "end"
	}
	b := text[off]
	switch {
	case b >= 0x80:
		return "beyond ASCII"
	case b == '_' || b == '$' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z':
		return "letter"
	case b >= '0' && b <= '9':
		return "digit"
	case strings.IndexByte(" \t\v\f", b) >= 0:
		return "space"
	case b == '\n' || b == '\r':
		return "line end"
	}
	return string(b)
}
