package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jchv/cleansheets/verifsim/estreemain"
	"github.com/jchv/cleansheets/verifsim/hook"
	"github.com/jchv/cleansheets/verifsim/simos"
)

// CLISpec is a run of the estree tool in a simulated environment.
type CLISpec struct {
	Args   []string
	Files  []CLIFile
	Stdout CLIOut
	Stderr CLIOut
	MaxFD  int  `json:",omitempty"`
	NoCwd  bool `json:",omitempty"`

	// The process is killed at a system call, within a write after a number
	// of bytes of output, or after a number of statements.
	KillCall  int    `json:",omitempty"`
	KillBytes int    `json:",omitempty"`
	KillStep  uint64 `json:",omitempty"`

	Budget uint64 `json:",omitempty"`
}

// CLIFile is a file that exists.
type CLIFile struct {
	Name    string
	Data    Src
	OpenErr string `json:",omitempty"`
	Chunks  []int  `json:",omitempty"`
	ReadErr string `json:",omitempty"`
	ReadOff int    `json:",omitempty"`
	Close   string `json:",omitempty"`

	// Opening the file ("open"), or reading on at StallOff ("read"), takes
	// for ever.
	Stall    string `json:",omitempty"`
	StallOff int    `json:",omitempty"`

	Dir    bool `json:",omitempty"`
	NoSize bool `json:",omitempty"`
}

// CLIOut is an output stream that fails after Limit bytes if Err is set.
type CLIOut struct {
	Limit  int    `json:",omitempty"`
	Err    string `json:",omitempty"`
	Signal bool   `json:",omitempty"`
	Heal   bool   `json:",omitempty"`
}

// CLIResult is what became of a run.
type CLIResult struct {
	Code    int
	How     string // return, exit, killed..., panic, out of steps
	Out     Src
	Err     Src
	Calls   int
	Steps   uint64
	MaxOpen int
	Opened  int
	Closed  int
	Double  int
	Fired   map[string]int
	Trace   []string
	Detail  string
}

func (c *CLISpec) clone() *CLISpec {
	d := *c
	d.Args = append([]string{}, c.Args...)
	d.Files = append([]CLIFile{}, c.Files...)
	return &d
}

var errnos = map[string]error{
	"ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EIO": syscall.EIO, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG,
	"ENOTDIR": syscall.ENOTDIR, "ENFILE": syscall.ENFILE, "EMFILE": syscall.EMFILE, "ENXIO": syscall.ENXIO, "ETIMEDOUT": syscall.ETIMEDOUT,
	"ESTALE": syscall.ESTALE, "ENOSPC": syscall.ENOSPC, "EPIPE": syscall.EPIPE, "EFBIG": syscall.EFBIG, "EDQUOT": syscall.EDQUOT, "ENOMEM": syscall.ENOMEM,
	"EBADF": syscall.EBADF, "EISDIR": syscall.EISDIR, "unexpected EOF": io.ErrUnexpectedEOF, "EINTR": syscall.EINTR, "EAGAIN": syscall.EAGAIN,
}

func errno(name string) error {
	if name == "" {
		return nil
	}
	if e, ok := errnos[name]; ok {
		return e
	}
	return errors.New(name)
}

// cliMain is the main function of the process that stands for the tool.
func cliMain() {
	runtime.GOMAXPROCS(1)
	spec := &CLISpec{}
	if err := json.NewDecoder(os.NewFile(4, "spec")).Decode(spec); err != nil {
		os.Exit(3)
	}
	w := &simos.World{Files: map[string]*simos.FileSpec{}, MaxFD: spec.MaxFD, KillCall: spec.KillCall, KillBytes: spec.KillBytes}
	for i := range spec.Files {
		f := &spec.Files[i]
		w.Files[f.Name] = &simos.FileSpec{
			Data: f.Data, OpenErr: errno(f.OpenErr), Chunks: f.Chunks, ReadErr: errno(f.ReadErr), ReadOff: f.ReadOff,
			CloseErr: errno(f.Close), Dir: f.Dir, NoSize: f.NoSize,
			Stall: f.Stall, StallOff: f.StallOff,
		}
	}
	out := func(o CLIOut) simos.OutSpec {
		if o.Err == "" {
			return simos.OutSpec{Limit: -1}
		}
		return simos.OutSpec{Limit: o.Limit, Err: errno(o.Err), Signal: o.Signal, Heal: o.Heal}
	}
	w.Stdout, w.Stderr = out(spec.Stdout), out(spec.Stderr)
	detail := ""
	w.End = func(code int, how string) {
		r := CLIResult{
			Code: code, How: how, Out: w.Out, Err: w.Err, Calls: w.Calls, Steps: hook.Steps(), MaxOpen: w.MaxOpen,
			Opened: w.Opened, Closed: w.Closed, Double: w.DoubleCl, Fired: w.Fired, Trace: w.Trace, Detail: detail,
		}
		if len(r.Trace) > 200 {
			r.Trace = append(r.Trace[:100:100], r.Trace[len(r.Trace)-100:]...)
		}
		b, err := json.Marshal(&r)
		if err != nil {
			os.Exit(3)
		}
		os.NewFile(3, "answer").Write(b)
		os.Exit(0)
	}
	if spec.NoCwd {
		// The working directory has been removed.
		dir, err := os.MkdirTemp("", "gone")
		if err != nil || os.Chdir(dir) != nil || os.Remove(dir) != nil {
			os.Exit(3)
		}
		os.Unsetenv("PWD")
	}
	simos.Activate(w)
	if spec.NoCwd {
		w.Fired["no working directory"]++
	}
	os.Args = append([]string{"estree"}, spec.Args...)
	simos.Args = os.Args
	done := make(chan string)
	go func() {
		how := "out of steps"
		defer func() {
			if p := recover(); p != nil {
				how, detail = "panic", fmt.Sprint(p)+" ["+stackOf()+"]"
			}
			done <- how
		}()
		if spec.KillStep > 0 {
			hook.SetKill(spec.KillStep, func() {
				w.Fired["kill between statements"]++
				w.End(-9, "killed between statements")
			})
		} else {
			hook.Begin(spec.Budget)
		}
		estreemain.VerifMain()
		how = "return"
	}()
	how := <-done
	code := 0
	if how != "return" {
		code = 2
	}
	w.End(code, how)
}

// runCLI runs the tool in a process of its own.
func runCLI(spec *CLISpec) (*CLIResult, error) {
	n := 0
	for i := range spec.Files {
		for _, a := range spec.Args {
			if a == spec.Files[i].Name {
				n += len(spec.Files[i].Data)
			}
		}
	}
	sp := *spec
	sp.Budget = budgetFor(n) + 100000*uint64(len(spec.Args))
	b, err := json.Marshal(&sp)
	if err != nil {
		return nil, err
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer rd.Close()
	in, inw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self(), "-cli")
	cmd.ExtraFiles = []*os.File{wr, in}
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1")
	var errText strings.Builder
	cmd.Stderr = &errText
	err = cmd.Start()
	wr.Close()
	in.Close()
	if err != nil {
		inw.Close()
		return nil, err
	}
	go func() {
		inw.Write(b)
		inw.Close()
	}()
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	ans, rerr := io.ReadAll(rd)
	werr := cmd.Wait()
	if !timer.Stop() {
		return &CLIResult{Code: 2, How: "hang", Detail: "no progress for 60 s"}, nil
	}
	r := &CLIResult{}
	if rerr == nil && werr == nil && json.Unmarshal(ans, r) == nil {
		return r, nil
	}
	text := crashText([]byte(errText.String()))
	if text == "" {
		text = fmt.Sprint(werr)
	}
	if strings.Contains(text, "cannot allocate") || werr == nil || strings.Contains(text, "exit status 3") {
		return nil, fmt.Errorf("the process of the tool: %v %v %s", rerr, werr, short(errText.String(), 500))
	}
	return &CLIResult{Code: 2, How: "crash", Detail: text}, nil
}

// expectation is what should become of each argument.
type expectation struct {
	doc    string
	ok     bool
	fails  bool
	causes []string // texts one of which the diagnostics has to contain
}

func expect(spec *CLISpec, arg string) expectation {
	var f *CLIFile
	for i := range spec.Files {
		if spec.Files[i].Name == arg {
			f = &spec.Files[i]
		}
	}
	if f == nil {
		return expectation{fails: true, causes: []string{syscall.ENOENT.Error()}}
	}
	if f.OpenErr != "" {
		return expectation{fails: true, causes: []string{errno(f.OpenErr).Error()}}
	}
	if f.Dir {
		return expectation{fails: true, causes: []string{syscall.EISDIR.Error()}}
	}
	readFails := f.ReadErr != "" && f.ReadOff <= len(f.Data)
	u := &url.URL{Scheme: "file", Path: arg}
	rd, _ := open(f.Data, Delivery{Kind: "bytes"}, nil)
	o := parse(rd, u, "script", len(f.Data))
	e := expectation{fails: readFails}
	if readFails {
		e.causes = append(e.causes, errno(f.ReadErr).Error())
		// An error in the part that can be read may come first, and bufio
		// takes a character that is cut off by the failure for bytes that
		// are not valid.
		cut := f.Data[:f.ReadOff]
		rd, _ := open(cut, Delivery{Kind: "bytes"}, nil)
		if p := parse(rd, u, "script", len(cut)); p.Kind == kError {
			e.causes = append(e.causes, p.Msg)
		}
	}
	switch o.Kind {
	case kTree:
		if !readFails {
			doc, err := renderIndented(o.Tree)
			if err == nil {
				e.doc, e.ok = doc, true
			} else {
				e.fails = true
				e.causes = append(e.causes, err.Error())
			}
		}
	case kError:
		if !readFails {
			e.fails = true
			e.causes = append(e.causes, o.Msg)
		} else {
			e.causes = append(e.causes, o.Msg)
		}
	default:
		e.fails = true
	}
	return e
}

// follow matches output against the documents that are to be written. It
// returns how many documents are complete, and what is wrong if the output is
// not a beginning of the right one.
func follow(out string, docs []expectation) (complete int, wrong string) {
	at := 0
	for i := range docs {
		if i > 0 {
			// A line of three dashes, perhaps with empty lines around it.
			j := at
			for j < len(out) && out[j] == '\n' {
				j++
			}
			rest := out[j:]
			if len(rest) < 4 && strings.HasPrefix("---\n", rest) {
				return i, ""
			}
			if !strings.HasPrefix(rest, "---\n") {
				return i, fmt.Sprintf("after document %d there is %q instead of a separator", i, short(rest, 100))
			}
			j += 4
			for j < len(out) && out[j] == '\n' {
				j++
			}
			at = j
		}
		rest := out[at:]
		if !docs[i].ok {
			if rest != "" {
				return i, fmt.Sprintf("argument %d failed, but there is output after the separator: %q", i+1, short(rest, 200))
			}
			return i, ""
		}
		want := docs[i].doc
		if len(rest) < len(want) {
			if !strings.HasPrefix(want, rest) {
				return i, fmt.Sprintf("document %d is wrong: %s", i+1, diff(rest, want))
			}
			return i, ""
		}
		if !strings.HasPrefix(rest, want) {
			return i, fmt.Sprintf("document %d is wrong: %s", i+1, diff(rest, want))
		}
		at += len(want)
	}
	if strings.Trim(out[at:], "\n") != "" {
		return len(docs), fmt.Sprintf("there is more after the last document: %q", short(out[at:], 200))
	}
	return len(docs), ""
}

// ---- generation

var cliNames = []string{"a.js", "b.js", "lib/c.js", "/abs/d.js", "with space.js", "\u00fcml\u00e4ut.js", "100%d.js", "%s%v.js", "e", "\"quoted\".js", "back\\slash.js", "./f.js", "../g.js", "x/../h.js", "new\nline.js", "-.js", "tab\t.js", "#i?.js", "lib/a.js", "other/a.js", "/abs/a.js", "A.js", "lib/d.js", "-", "*.js", "a*.js", "~/h.js", "@list", "http://example.com/i.js", "file:///j.js", "$HOME/k.js", "a.js,b.js", "l.mjs", "m.json", "n.ts", "o.js.gz", ".p.js", "q.JS", "/dev/stdin", "/dev/fd/0", "s.min.js", "t.js~", "[ab].js", "{a,b}.js", "very/long/path/to/some/file/in/a/deep/tree.js"}
var openErrs = []string{"ENOENT", "EACCES", "EIO", "ELOOP", "ENAMETOOLONG", "ENOTDIR", "ENFILE", "EMFILE", "ENXIO", "ENOMEM"}
var readErrs = []string{"EIO", "ETIMEDOUT", "ESTALE", "EBADF", "EINTR", "EAGAIN", "ENOMEM", "unexpected EOF", "EISDIR"}
var writeErrs = []string{"ENOSPC", "EIO", "EPIPE", "EFBIG", "EDQUOT", "EBADF", "EAGAIN", "EINTR"}

func genCLIFile(r *rng, name string, size int, faults bool) CLIFile {
	f := CLIFile{Name: name}
	f.Data = program(r, "script", r.in(1, size)).Text
	if r.p(20) {
		f.Data = window(r, 3000)
	}
	if r.p(12) {
		f.Data = Src(r.str("", ";", "\n", "// nothing\n", "a", "'<>&\u2028'", "/<&>/", "x = {a: 1};\n", "\ufeffa"))
	}
	if r.p(25) {
		f.Data = odd(r, f.Data)
	}
	switch r.n(4) {
	case 0:
		f.Chunks = []int{1}
	case 1:
		for k := r.in(1, 6); k > 0; k-- {
			f.Chunks = append(f.Chunks, r.in(1, 60))
		}
	case 2:
		f.Chunks = []int{4096, 1, 4095, 2}
	}
	f.NoSize = r.p(8)
	if !faults {
		return f
	}
	switch r.n(8) {
	case 0:
		f.OpenErr = openErrs[r.n(len(openErrs))]
	case 1, 2:
		f.ReadErr = readErrs[r.n(len(readErrs))]
		f.ReadOff = r.n(len(f.Data) + 1)
		if r.p(4) {
			f.ReadOff = len(f.Data)
		}
	case 3:
		f.Dir = true
	case 4, 5:
		f.Data = damage(r, f.Data)
	case 6:
		f.Data = mutate(r, program(r, "script", r.in(1, size)))
	case 7:
		f.Close = r.str("EIO", "EBADF", "EINTR", "ENOSPC")
	}
	return f
}

// large makes up a source that is large or whose document is.
func large(r *rng) Src {
	n := r.in(100, 2500)
	if r.p(3) {
		n = r.in(2500, 12000)
	}
	item := r.str("a", "1", "'s'", "b.c", "f()")
	switch r.n(6) {
	case 0:
		return Src("[" + strings.Repeat(item+",", n) + "a]")
	case 1:
		return Src("f(" + strings.Repeat(item+",", n) + "a)")
	case 2:
		return Src(strings.Repeat(item+r.str(";", "\n", ";\n"), n))
	case 3:
		// Little comes of it.
		return Src("a // " + strings.Repeat("comment ", n*3) + "\nb")
	case 4:
		return Src("a = '" + strings.Repeat("text ", n*5) + "'")
	default:
		// Mostly indentation.
		d := r.in(50, 500)
		return Src(strings.Repeat("[", d) + "a" + strings.Repeat("]", d))
	}
}

func genCLI(r *rng, i int, deep bool) *Scenario {
	s := &Scenario{Kind: "estree", CLI: &CLISpec{}}
	sp := s.CLI
	n := r.size(5)
	size := 30
	if r.p(15) {
		n = r.in(8, 60)
		size = 8
	}
	if r.p(12) {
		n = r.in(2, 4)
		size = 400
	}
	faults := !r.p(4)
	at := -1
	if n > 0 {
		at = r.n(n)
	}
	many := r.p(5)
	big := r.p(50)
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		name := cliNames[r.n(len(cliNames))]
		if n > 6 {
			name = fmt.Sprintf("f%d.js", k)
		}
		if used[name] {
			sp.Args = append(sp.Args, name)
			continue
		}
		used[name] = true
		sp.Args = append(sp.Args, name)
		f := genCLIFile(r, name, size, faults && (k == at && r.p(2) || many && r.p(3)))
		if big && r.p(2) {
			f.Data, f.ReadOff = large(r), 0
			if len(f.Chunks) > 0 && r.p(2) {
				f.Chunks = []int{4096}
			}
			if f.ReadErr != "" {
				f.ReadOff = r.n(len(f.Data) + 1)
			}
		}
		if r.p(40) && faults {
			continue // does not exist
		}
		sp.Files = append(sp.Files, f)
	}
	if n > 0 && (strings.HasPrefix(sp.Args[0], "-") || r.p(4)) {
		sp.Args = append([]string{"--"}, sp.Args...)
	}
	if r.p(10) {
		sp.MaxFD = r.in(20, 40)
	}
	sp.NoCwd = r.p(15)
	// How much can be written depends on how much there is to be written.
	total := 0
	for _, a := range sp.Args {
		if e := cachedExpect(sp, a); e.ok {
			total += len(e.doc) + 6
		}
	}
	if faults {
		switch r.n(9) {
		case 0, 1:
			sp.Stdout = CLIOut{Limit: r.n(total + 2), Err: writeErrs[r.n(len(writeErrs))]}
			if r.p(3) {
				// Close to the end of a document.
				sp.Stdout.Limit = nearBoundary(r, sp)
			}
			if r.p(5) {
				sp.Stdout.Limit = 0
			}
			sp.Stdout.Heal = r.p(3)
			if sp.Stdout.Err == "EPIPE" && r.p(2) {
				sp.Stdout.Signal = true
			}
		case 2:
			sp.KillCall = r.in(1, 6*n+4)
		case 3:
			sp.KillBytes = r.in(1, total+1)
			if r.p(2) {
				sp.KillBytes = nearBoundary(r, sp)
			}
		case 4:
			sp.KillStep = uint64(r.in(1, 20+200*n))
			if r.p(2) {
				sp.KillStep = uint64(r.in(1, 100+total*40))
			}
		case 5:
			if r.p(2) {
				sp.Stderr = CLIOut{Limit: r.n(200), Err: writeErrs[r.n(len(writeErrs))], Heal: r.p(3)}
			}
		}
	}
	return s
}

func nearBoundary(r *rng, sp *CLISpec) int {
	at := 0
	var ends []int
	for _, a := range sp.Args {
		if e := cachedExpect(sp, a); e.ok {
			at += len(e.doc)
			ends = append(ends, at)
			at += 5
		}
	}
	if len(ends) == 0 {
		return 1
	}
	v := ends[r.n(len(ends))] + r.in(-2, 7)
	if v < 1 {
		v = 1
	}
	return v
}

var expectCache = map[string]expectation{}

func cachedExpect(sp *CLISpec, arg string) expectation {
	for i := range sp.Files {
		if f := &sp.Files[i]; f.Name == arg {
			key := strconv.Itoa(f.ReadOff) + f.ReadErr + "|" + f.OpenErr + "|" + fmt.Sprint(f.Dir) + f.Name + "|" + string(f.Data)
			e, ok := expectCache[key]
			if !ok {
				if len(expectCache) > 500 {
					expectCache = map[string]expectation{}
				}
				e = expect(sp, arg)
				expectCache[key] = e
			}
			return e
		}
	}
	return expect(sp, arg)
}

func cliArgs(sp *CLISpec) []string {
	if len(sp.Args) > 0 && sp.Args[0] == "--" {
		return sp.Args[1:]
	}
	return sp.Args
}

// names returns whether a line of diagnostics names a file.
func namesFile(line, name string) bool {
	q := strconv.Quote(name)
	for _, n := range []string{name, q[1 : len(q)-1], filepath.Base(name)} {
		if strings.Contains(line, n) {
			return true
		}
	}
	return false
}

func hasCause(text, cause string) bool {
	if i := strings.IndexByte(cause, '\n'); i >= 0 {
		cause = cause[:i]
	}
	if strings.Contains(text, cause) {
		return true
	}
	q := strconv.Quote(cause)
	return strings.Contains(text, q[1:len(q)-1])
}

// blames returns whether the diagnostics name a file together with one of the
// causes.
func blames(diag, name string, causes []string) bool {
	// A message may extend over several lines, so each line is taken together
	// with those that follow.
	lines := strings.Split(diag, "\n")
	for i, l := range lines {
		if strings.Contains(name, "\n") {
			l = strings.Join(lines[i:], "\n")
		}
		if !namesFile(l, name) {
			continue
		}
		rest := strings.Join(lines[i:], "\n")
		if len(lines[i:]) > 4 {
			rest = strings.Join(lines[i:i+4], "\n")
		}
		if len(causes) == 0 {
			return true
		}
		for _, c := range causes {
			if hasCause(rest, c) {
				return true
			}
		}
	}
	return false
}

func saysWriting(diag, cause string) bool {
	if hasCause(diag, cause) {
		return true
	}
	d := strings.ToLower(diag)
	for _, w := range []string{"writ", "output", "encod"} {
		if strings.Contains(d, w) {
			return true
		}
	}
	return false
}

func runCLIProp(s *Scenario, c *ctx) {
	sp := s.CLI
	args := cliArgs(sp)
	docs := make([]expectation, len(args))
	first := -1
	for i, a := range args {
		docs[i] = cachedExpect(sp, a)
		if docs[i].fails && first < 0 {
			first = i
		}
	}
	r, err := runCLI(sp)
	if err != nil {
		panic(err)
	}
	c.evals++
	c.steps += r.Steps
	for k, n := range r.Fired {
		c.faults[k] += n
	}
	for i, a := range args {
		k := "parses"
		if docs[i].fails {
			k = "fails: " + strings.Join(docs[i].causes, " / ")
		}
		c.tracef("argument %q: %s", a, short(k, 120))
	}
	if len(r.Trace) < 60 {
		c.tracef("system calls: %s", strings.Join(r.Trace, ", "))
	}
	c.tracef("ended: %s with status %d; %d bytes of output; diagnostics: %s", r.How, r.Code, len(r.Out), short(stripTimes(string(r.Err)), 600))
	if r.Detail != "" {
		c.tracef("%s", r.Detail)
	}
	killed := strings.HasPrefix(r.How, "killed")
	c.note(strings.SplitN(r.How, " at system", 2)[0] + " " + strconv.Itoa(r.Code))
	c.observe(fmt.Sprint(r.How, r.Code, len(r.Out), hash64(r.Out), r.MaxOpen, r.Opened, r.Closed, r.Steps, r.Calls))
	if sp.Stderr.Err == "" {
		// Diagnostics carry the real time, which cannot be told apart in
		// lines that were cut off.
		c.observe(stripTimes(string(r.Err)))
	}
	complete, wrong := follow(string(r.Out), docs)
	var fired []string
	stdoutFailed, closeErr, emfile := false, false, false
	for k := range r.Fired {
		fired = append(fired, k)
		stdoutFailed = stdoutFailed || strings.HasPrefix(k, "/dev/stdout write error")
		closeErr = closeErr || strings.HasPrefix(k, "close error")
		emfile = emfile || strings.HasPrefix(k, "out of file desc")
	}
	sortStrings(fired)
	c.state(len(args), first, complete, r.How, r.Code, fired, r.Calls)
	if len(args) > 0 {
		c.nontrivial(fmt.Sprintf("%+v", *sp))
	}
	switch s.Prop {
	case "C12":
		if wrong != "" {
			c.fail("output", "the output is not a beginning of the right one: %s (%d arguments, first failing: %d, the run: %s with status %d)", wrong, len(args), first+1, r.How, r.Code)
		}
	case "C13":
		if killed {
			return
		}
		if r.How != "return" && r.How != "exit" {
			c.fail("crash", "the tool ended by %s: %s", r.How, r.Detail)
			return
		}
		if r.Code == 0 {
			switch {
			case emfile:
				c.fail("status 0", "a file could not be opened for lack of descriptors, but the exit status is 0")
			case first >= 0:
				c.fail("status 0", "argument %d (%q) cannot be processed (%s), but the exit status is 0", first+1, args[first], short(strings.Join(docs[first].causes, " / "), 200))
			case stdoutFailed:
				c.fail("status 0", "writing to standard output failed after %d bytes, but the exit status is 0", len(r.Out))
			case wrong == "" && complete < len(docs):
				c.fail("status 0", "only %d of %d documents were written completely, but the exit status is 0", complete, len(docs))
			}
			return
		}
		stderrFailed := false
		for k := range r.Fired {
			stderrFailed = stderrFailed || strings.HasPrefix(k, "/dev/stderr write error")
		}
		if first < 0 && !stdoutFailed && !closeErr && !emfile && !stderrFailed {
			c.fail("status", "nothing failed, but the exit status is %d: %s", r.Code, short(stripTimes(string(r.Err)), 300))
			return
		}
		if stderrFailed || emfile {
			return
		}
		diag := string(r.Err)
		if stdoutFailed && saysWriting(diag, errno(sp.Stdout.Err).Error()) {
			return
		}
		for i := range docs {
			if docs[i].fails && blames(diag, args[i], docs[i].causes) {
				return
			}
		}
		if closeErr {
			return
		}
		switch {
		case first >= 0:
			c.fail("diagnostics", "argument %d failed, but no diagnostics name %q together with the cause (%s): %s", first+1, args[first], short(strings.Join(docs[first].causes, " / "), 200), short(stripTimes(diag), 400))
		case stdoutFailed:
			c.fail("diagnostics", "writing the output failed (%s), but the diagnostics do not say so: %s", sp.Stdout.Err, short(stripTimes(diag), 400))
		}
	case "C21":
		if r.How != "return" && r.How != "exit" && r.How != "stalled" || stdoutFailed || closeErr || emfile || len(sp.Stderr.Err) > 0 {
			return
		}
		due, why := len(docs), "there is nothing more to be done"
		for i, a := range args {
			if docs[i].fails {
				due, why = i, "it cannot be processed"
				break
			}
			if f := sp.file(a); f != nil && f.Stall != "" {
				due, why = i, "it takes for ever to "+f.Stall
				break
			}
		}
		if r.How == "return" && r.Code == 0 && due < len(docs) {
			return // C13
		}
		if complete < due {
			if wrong == "" {
				wrong = fmt.Sprintf("%d bytes were written", len(r.Out))
			}
			who := "all files"
			if due < len(docs) {
				who = fmt.Sprintf("the files before argument %d (%q; %s)", due+1, args[due], why)
			}
			c.fail("held back", "only %d of the documents of %s are on standard output when the tool %s: %s", complete, who, ended(r), short(wrong, 300))
		}
	case "C14":
		if r.MaxOpen > 16 {
			c.fail("open files", "%d files were open at the same time", r.MaxOpen)
			return
		}
		if !killed && r.Code == 0 && (r.How == "return" || r.How == "exit") {
			if r.Double > 0 {
				c.fail("closed twice", "%d files were closed more than once", r.Double)
			} else if r.Closed != r.Opened {
				c.fail("not closed", "%d of %d opened files were closed before the exit with status 0", r.Closed, r.Opened)
			}
		}
	}
}

func ended(r *CLIResult) string {
	if r.How == "stalled" {
		return "waits"
	}
	return fmt.Sprintf("has ended with status %d", r.Code)
}

func (c *CLISpec) file(name string) *CLIFile {
	for i := range c.Files {
		if c.Files[i].Name == name {
			return &c.Files[i]
		}
	}
	return nil
}

// genC21 makes up a run in which a file may take for ever.
func genC21(r *rng, i int, deep bool) *Scenario {
	s := genCLI(r, i, deep)
	sp := s.CLI
	sp.KillCall, sp.KillBytes, sp.KillStep = 0, 0, 0
	sp.Stderr = CLIOut{}
	if !r.p(8) {
		sp.Stdout = CLIOut{}
	}
	if len(sp.Args) > 0 && !r.p(3) {
		f := sp.file(sp.Args[r.n(len(sp.Args))])
		if f != nil && r.p(4) {
			// The later, the more can be held back.
			f = sp.file(sp.Args[len(sp.Args)-1])
		}
		if f != nil {
			f.Stall, f.StallOff = "read", r.n(len(f.Data)+1)
			switch r.n(4) {
			case 0:
				f.Stall, f.StallOff = "open", 0
			case 1:
				f.StallOff = len(f.Data)
			}
		}
	}
	return s
}

var logTime = regexp.MustCompile(`\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? `)

// stripTimes removes what log prints in front of messages.
func stripTimes(s string) string {
	return logTime.ReplaceAllString(s, "")
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func genC14(r *rng, i int, deep bool) *Scenario {
	s := genCLI(r, i, deep)
	if r.p(3) {
		sp := &CLISpec{MaxFD: r.in(20, 64)}
		n := r.in(17, 150)
		if r.p(10) {
			n = r.in(150, 1200)
		}
		few := r.p(4)
		for k := 0; k < n; k++ {
			name := fmt.Sprintf("f%d.js", k)
			if few && k > 3 {
				sp.Args = append(sp.Args, fmt.Sprintf("f%d.js", r.n(3)))
				continue
			}
			f := CLIFile{Name: name, Data: Src(r.str("a", "", "a;", "f(1)", "var b = {c: 1};", "// x"))}
			if r.p(30) {
				f.Close = "EIO"
			}
			sp.Args = append(sp.Args, name)
			sp.Files = append(sp.Files, f)
		}
		s.CLI = sp
	}
	return s
}

func shrinkCLI(s *Scenario) []*Scenario {
	var out []*Scenario
	sp := s.CLI
	for _, k := range cuts(len(sp.Args)) {
		if sp.Args[0] == "--" && k[0] == 0 && len(sp.Args) > 1 && strings.HasPrefix(sp.Args[1], "-") {
			continue
		}
		c := s.clone()
		c.CLI.Args = append(append([]string{}, sp.Args[:k[0]]...), sp.Args[k[1]:]...)
		out = append(out, c)
	}
	used := map[string]bool{}
	for _, a := range sp.Args {
		used[a] = true
	}
	var keep []CLIFile
	for _, f := range sp.Files {
		if used[f.Name] {
			keep = append(keep, f)
		}
	}
	if len(keep) < len(sp.Files) {
		c := s.clone()
		c.CLI.Files = keep
		out = append(out, c)
	}
	drop := func(set func(c *CLISpec)) {
		c := s.clone()
		set(c.CLI)
		out = append(out, c)
	}
	if sp.Stdout.Err != "" {
		drop(func(c *CLISpec) { c.Stdout = CLIOut{} })
		if sp.Stdout.Heal {
			drop(func(c *CLISpec) { c.Stdout.Heal = false })
		}
		if sp.Stdout.Limit > 0 {
			drop(func(c *CLISpec) { c.Stdout.Limit = 0 })
			drop(func(c *CLISpec) { c.Stdout.Limit /= 2 })
			drop(func(c *CLISpec) { c.Stdout.Limit-- })
		}
	}
	if sp.Stderr.Err != "" {
		drop(func(c *CLISpec) { c.Stderr = CLIOut{} })
	}
	if sp.NoCwd {
		drop(func(c *CLISpec) { c.NoCwd = false })
	}
	if sp.MaxFD > 0 {
		drop(func(c *CLISpec) { c.MaxFD = 0 })
	}
	if sp.KillCall > 0 {
		drop(func(c *CLISpec) { c.KillCall = 0 })
		drop(func(c *CLISpec) { c.KillCall-- })
	}
	if sp.KillBytes > 0 {
		drop(func(c *CLISpec) { c.KillBytes = 0 })
		drop(func(c *CLISpec) { c.KillBytes /= 2 })
		drop(func(c *CLISpec) { c.KillBytes-- })
	}
	if sp.KillStep > 0 {
		drop(func(c *CLISpec) { c.KillStep = 0 })
		drop(func(c *CLISpec) { c.KillStep /= 2 })
	}
	for i := range sp.Files {
		f := sp.Files[i]
		i := i
		if len(f.Chunks) > 0 {
			drop(func(c *CLISpec) { c.Files[i].Chunks = nil })
		}
		if f.Close != "" {
			drop(func(c *CLISpec) { c.Files[i].Close = "" })
		}
		if f.ReadErr != "" {
			drop(func(c *CLISpec) { c.Files[i].ReadErr, c.Files[i].ReadOff = "", 0 })
		}
		if f.Stall != "" {
			drop(func(c *CLISpec) { c.Files[i].Stall, c.Files[i].StallOff = "", 0 })
		}
		if f.OpenErr != "" {
			drop(func(c *CLISpec) { c.Files[i].OpenErr = "" })
		}
		if f.Dir {
			drop(func(c *CLISpec) { c.Files[i].Dir = false })
		}
		if f.NoSize {
			drop(func(c *CLISpec) { c.Files[i].NoSize = false })
		}
		if len(f.Data) > 1 {
			drop(func(c *CLISpec) { c.Files[i].Data = Src("a") })
		}
		for _, k := range cuts(len(f.Data)) {
			k := k
			drop(func(c *CLISpec) {
				d := c.Files[i].Data
				c.Files[i].Data = append(append(Src{}, d[:k[0]]...), d[k[1]:]...)
				if c.Files[i].ReadOff > len(c.Files[i].Data) {
					c.Files[i].ReadOff = len(c.Files[i].Data)
				}
			})
			if len(out) > 1500 {
				break
			}
		}
	}
	return out
}

func init() {
	cli := func(id, rule string, gen func(*rng, int, bool) *Scenario) {
		register(&prop{
			id: id, quick: 25000, thorough: 400000, chunk: 60, gen: gen, run: runCLIProp, shrink: shrinkCLI,
			rule:   rule,
			states: "distinct (number of files, first failing one, documents completed, way of ending, status, faults that fired, system calls made)",
			real:   []string{"cmd/estree main", "flag, log, bufio, encoding/json, path/filepath", "lexer, parser, ast"},
			stub:   []string{"os (files, standard streams, process exit and death: simulated in memory)", "log.Fatal's exit", "signals"},
		})
	}
	common := "a run is one execution of cmd/estree's main in a process of its own with a simulated file system, standard streams and process: 0 to 60 arguments, files that cannot be opened, are directories, cannot be read completely, do not parse, arrive in short reads or fail to close, a limit on descriptors, standard output or error that fails (for ever or once) after some bytes, with or without SIGPIPE, and death at a system call, within a write or between two statements"
	cli("C12", common+"; the bytes accepted by standard output are compared with documents made by the library; non-trivial if there is an argument; distinct by the whole environment", genCLI)
	cli("C13", common+"; status and diagnostics are compared with what failed; non-trivial if there is an argument; distinct by the whole environment", genCLI)
	cli("C14", common+", or up to 1200 files; the simulated file system counts; non-trivial if there is an argument; distinct by the whole environment", genC14)
	cli("C21", "a run is one execution of cmd/estree's main as for C12, without death, in which opening or reading a file may take for ever, at any byte; when the tool can do nothing more, standard output has to have accepted the documents of all files before the first that fails or takes for ever; non-trivial if there is an argument; distinct by the whole environment", genC21)
}
