package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/verifsim/hook"
)

// Outcome kinds.
const (
	kTree    = "tree"
	kError   = "error"
	kPanic   = "panic"
	kStall   = "waits for input"
	kHang    = "out of steps"
	kNeither = "neither tree nor error"
	kBoth    = "both tree and error"
	kForeign = "unclassified error"
	kBlocked = "blocked"
)

// Outcome is what became of a parse.
type Outcome struct {
	Kind string
	Tree ast.Node
	Err  error

	ErrType  string
	Row, Col int
	URI      *url.URL
	Msg      string
	Print    string // the error as printed
	Detail   string
	Steps    uint64

	Next *Outcome // of the next parse by the same parser
}

// String describes the outcome, without the tree.
func (o *Outcome) String() string {
	switch o.Kind {
	case kError:
		return fmt.Sprintf("%s at %d:%d: %s", o.ErrType, o.Row, o.Col, o.Msg)
	case kTree:
		return "a tree"
	}
	if o.Detail != "" {
		return o.Kind + ": " + o.Detail
	}
	return o.Kind
}

func mode(m string) parser.ParseMode {
	switch m {
	case "module":
		return parser.ModuleMode
	case "expression":
		return parser.ExpressionMode
	}
	return parser.ScriptMode
}

// classify fills in what the results of a parse mean.
func (o *Outcome) classify(n ast.Node, err error) {
	o.Tree, o.Err = n, err
	nilTree := n == nil || (reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil())
	switch {
	case nilTree && err == nil:
		o.Kind = kNeither
		return
	case !nilTree && err != nil:
		o.Kind = kBoth
		o.Detail = err.Error()
		return
	case err == nil:
		o.Kind = kTree
		return
	}
	o.Kind = kError
	var loc ast.Location
	var inner error
	// The failure of a stream may be one of these errors, too: the outermost
	// one counts.
	for e := err; e != nil && o.ErrType == ""; e = errors.Unwrap(e) {
		switch e := e.(type) {
		case *errs.SyntaxError:
			if e != nil {
				o.ErrType, loc, inner = "syntax error", e.Location, e.Err
			}
		case *errs.EncodingError:
			if e != nil {
				o.ErrType, loc, inner = "encoding error", e.Location, e.Err
			}
		case *errs.ParserError:
			if e != nil {
				o.ErrType, loc, inner = "parser error", e.Location, e.Err
			}
		}
	}
	if o.ErrType == "" {
		o.Kind = kForeign
		o.Detail = fmt.Sprintf("%T: %v", err, err)
		return
	}
	o.Row, o.Col, o.URI = loc.Row, loc.Column, loc.URI
	if inner == nil {
		o.Kind = kForeign
		o.Detail = fmt.Sprintf("%T without a cause", err)
		return
	}
	o.Msg = inner.Error()
	// The error must be printable.
	o.Print = err.Error()
}

func stackOf() string {
	buf := make([]byte, 8192)
	lines := strings.Split(string(buf[:runtime.Stack(buf, false)]), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/ecmascript/") || strings.Contains(l, "cleansheets/ecmascript") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/ecmascript/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.LastIndex(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			keep = append(keep, l)
		}
		if len(keep) >= 8 {
			break
		}
	}
	return strings.Join(keep, " < ")
}

// parseNow parses in the calling goroutine.
func parseNow(r io.RuneScanner, u *url.URL, m string, o *Outcome) {
	s0 := hook.Steps()
	defer func() {
		o.Steps = hook.Steps() - s0
		if p := recover(); p != nil {
			o.Kind = kPanic
			o.Detail = fmt.Sprint(p) + " [" + stackOf() + "]"
		}
	}()
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(r, u))).Parse(parser.ParseOptions{Mode: mode(m)})
	o.classify(n, err)
}

// parseOn parses with one parser until there is an error, a few times at most.
func parseOn(r io.RuneScanner, u *url.URL, m string, o *Outcome) {
	p := parser.NewParser(lexer.NewLexer(lexer.NewScanner(r, u)))
	one := func(o *Outcome) {
		s0 := hook.Steps()
		defer func() {
			o.Steps = hook.Steps() - s0
			if p := recover(); p != nil {
				o.Kind = kPanic
				o.Detail = fmt.Sprint(p) + " [" + stackOf() + "]"
			}
		}()
		o.classify(p.Parse(parser.ParseOptions{Mode: mode(m)}))
	}
	for i := 0; i < 4; i++ {
		if i > 0 {
			o.Next = &Outcome{}
			o = o.Next
		}
		if one(o); o.Kind != kTree {
			return
		}
	}
}

// current is what the sequential parse in progress stalls through.
type seqRun struct {
	done  chan struct{}
	stall bool
}

var cur *seqRun

// stallNow is called by a stream that will never deliver anything more.
func stallNow() {
	if hook.Active() {
		hook.Stall()
	}
	if c := cur; c != nil {
		c.stall = true
	}
	runtime.Goexit()
}

// guarded runs a function in a goroutine of its own with a budget of steps. It
// returns how it ended: "", kStall, kHang or kBlocked.
func guarded(budget uint64, f func()) string {
	c := &seqRun{done: make(chan struct{})}
	prev := cur
	cur = c
	finished := false
	over := false
	go func() {
		hook.Begin(budget)
		defer close(c.done)
		defer func() {
			over = hook.Over()
			hook.End()
		}()
		f()
		finished = true
	}()
	select {
	case <-c.done:
	case <-watchdog(c):
		cur = prev
		return kBlocked
	}
	cur = prev
	switch {
	case over:
		return kHang
	case c.stall:
		return kStall
	case !finished:
		return kHang
	}
	return ""
}

var (
	wdCh    = make(chan struct{})
	wdRun   uint64 // number of the run in progress
	wdStart bool
)

// watchdog returns a channel that is ready when the run makes no progress in
// terms of steps for a long time. One ticker serves all runs.
func watchdog(c *seqRun) chan struct{} {
	atomic.AddUint64(&wdRun, 1)
	if !wdStart {
		wdStart = true
		go func() {
			var last, lastSteps uint64
			idle := 0
			for {
				time.Sleep(500 * time.Millisecond)
				if n, s := atomic.LoadUint64(&wdRun), hook.Steps(); n != last || s != lastSteps {
					last, lastSteps, idle = n, s, 0
					continue
				}
				if idle++; idle >= 60 {
					idle = 0
					select {
					case wdCh <- struct{}{}:
					default:
					}
				}
			}
		}()
	}
	return wdCh
}

// budgetFor returns the number of steps that a parse of n characters may take.
// The heaviest real programs take well under a hundred steps per character.
func budgetFor(n int) uint64 { return 200000 + 1000*uint64(n) }

// parse parses with a budget.
func parse(r io.RuneScanner, u *url.URL, m string, n int) *Outcome {
	return parseWith(parseNow, r, u, m, n)
}

func parseWith(f func(io.RuneScanner, *url.URL, string, *Outcome), r io.RuneScanner, u *url.URL, m string, n int) *Outcome {
	o := &Outcome{}
	switch how := guarded(budgetFor(n), func() { f(r, u, m, o) }); how {
	case "":
	default:
		*o = Outcome{Kind: how, Steps: o.Steps}
		if how == kBlocked {
			o.Detail = "no progress for 30 s"
		}
	}
	return o
}

// render renders a tree to ESTree JSON.
func render(n ast.Node) (doc string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v [%s]", p, stackOf())
		}
	}()
	w := &bytes.Buffer{}
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	if err := e.Encode(n.ESTree()); err != nil {
		return "", err
	}
	return w.String(), nil
}

// renderIndented renders a tree the way the tools do.
func renderIndented(n ast.Node) (doc string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v [%s]", p, stackOf())
		}
	}()
	w := &bytes.Buffer{}
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	e.SetIndent("", "  ")
	if err := e.Encode(n.ESTree()); err != nil {
		return "", err
	}
	return w.String(), nil
}

// dumper writes everything that callers can see of a tree.
type dumper struct {
	b    *bytes.Buffer
	uri  *url.URL
	rows int // subtracted from the rows of spans
	bad  string

	from *pos // if not nil, where the text begins
}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
var baseType = reflect.TypeOf(ast.BaseNode{})

func (d *dumper) loc(l ast.Location) {
	zero := l == ast.Location{}
	if zero {
		d.b.WriteString("-")
		return
	}
	if !sameURL(l.URI, d.uri) && d.bad == "" {
		d.bad = fmt.Sprintf("%d:%d has the source %v instead of %v", l.Row, l.Column, l.URI, d.uri)
	}
	if d.from != nil {
		row, col := d.from.relative(l.Row, l.Column)
		d.b.WriteString(strconv.Itoa(row) + ":" + strconv.Itoa(col))
		return
	}
	if l.Column == 1 && (l.Row == 1 || l.Row == 1+d.rows) {
		// With lines in front, a node may begin where the text does or
		// behind the lines.
		d.b.WriteString("begin")
		return
	}
	d.b.WriteString(strconv.Itoa(l.Row - d.rows))
	d.b.WriteByte(':')
	d.b.WriteString(strconv.Itoa(l.Column))
}

func (d *dumper) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			d.b.WriteString(v.Elem().Type().Name())
		} else {
			d.b.WriteByte('&')
		}
		d.value(v.Elem())
	case reflect.Struct:
		t := v.Type()
		d.b.WriteByte('{')
		if t.Implements(nodeType) || reflect.PtrTo(t).Implements(nodeType) && v.CanAddr() {
			n, ok := v.Interface().(ast.Node)
			if !ok {
				n, ok = v.Addr().Interface().(ast.Node)
			}
			if ok {
				s := n.Span()
				d.loc(s.Start)
				d.b.WriteByte('~')
				d.loc(s.End)
				d.b.WriteByte(' ')
			}
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Type == baseType {
				continue
			}
			d.b.WriteString(f.Name)
			d.b.WriteByte('=')
			d.value(v.Field(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Map, reflect.Func, reflect.Chan:
		d.b.WriteString(v.Kind().String())
	default:
		d.b.WriteString("?")
	}
}

func (d *dumper) node(n ast.Node) { d.value(reflect.ValueOf(&n).Elem()) }

// dump describes everything that callers can see of a tree. bad describes a
// location that names a wrong source.
func dump(n ast.Node, u *url.URL, rows int) (text string, bad string) {
	d := &dumper{b: &bytes.Buffer{}, uri: u, rows: rows}
	d.node(n)
	return d.b.String(), d.bad
}

// full describes the outcome completely: two parses with equal descriptions
// have the same result.
func (o *Outcome) full(u *url.URL) string {
	if o.Next != nil {
		last := *o
		last.Next = nil
		return last.full(u) + "\nthen " + o.Next.full(u)
	}
	switch o.Kind {
	case kTree:
		d, bad := dump(o.Tree, u, 0)
		doc := ""
		how := guarded(1<<40, func() {
			s, err := render(o.Tree)
			if err != nil {
				s = "rendering failed: " + err.Error()
			}
			doc = s
		})
		if how != "" {
			doc = "rendering: " + how
		}
		if bad != "" {
			bad = "\nwrong source: " + bad
		}
		return "tree " + d + "\n" + doc + bad
	case kError:
		s := ""
		if !sameURL(o.URI, u) {
			s = fmt.Sprintf(" (source %v)", o.URI)
		}
		return o.String() + s + "\nprinted: " + o.Print
	}
	return o.String()
}

// short abbreviates a text in the middle of a message.
func short(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n*2/3] + " ... " + s[len(s)-n/3:]
}

// diff shows where two texts begin to differ.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from >= len(s) {
			return ""
		}
		return short(s[from:], 240)
	}
	return fmt.Sprintf("...%s | versus | ...%s", cut(a), cut(b))
}
