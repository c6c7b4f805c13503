package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string
	Seed     uint64
	Tier     string
	Index    int
	Class    string
	Message  string
	Digest   string
	Scenario *Scenario
	Before   []*Scenario `json:",omitempty"` // runs that have to precede it in the process
	Trace    []string    `json:",omitempty"`
	Minimal  string
	How      string
	Scripted bool `json:",omitempty"`
}

// child is a process that runs scenarios.
type child struct {
	started int // last index that was started
	f       *finding
	rep     *report
	result  *finding
	samples []json.RawMessage
	crash   string // why the process ended early
	timeout bool
	stuck   bool
}

func childEnv(dir string) []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			env = append(env, e)
		}
	}
	return append(env, "GORACE=exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=single", "VERIF_TMP="+dir)
}

// spawn runs a child. If scen is not nil, it is given those scenarios. The
// child may take idle time between messages before it is ended.
func spawn(bin string, args []string, scen []*Scenario, idle time.Duration, stop <-chan struct{}) (*child, error) {
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	out, err := os.OpenFile(filepath.Join(dir, "output"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o600)
	if err != nil {
		return nil, err
	}
	defer out.Close()
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer rd.Close()
	cmd := exec.Command(bin, args...)
	cmd.Stdout, cmd.Stderr = out, out
	cmd.Dir = dir
	cmd.Env = childEnv(dir)
	cmd.ExtraFiles = []*os.File{wr}
	if scen != nil {
		b, err := json.Marshal(scen)
		if err != nil {
			return nil, err
		}
		in, err := os.Create(filepath.Join(dir, "scenarios"))
		if err != nil {
			return nil, err
		}
		defer in.Close()
		if _, err := in.Write(b); err != nil {
			return nil, err
		}
		if _, err := in.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
		cmd.ExtraFiles = append(cmd.ExtraFiles, in)
	}
	if err := cmd.Start(); err != nil {
		wr.Close()
		return nil, err
	}
	wr.Close()
	c := &child{started: -1}
	lines := make(chan string, 1024)
	go func() {
		b := bufio.NewReaderSize(rd, 1<<16)
		for {
			l, err := b.ReadString('\n')
			if l != "" {
				lines <- strings.TrimSuffix(l, "\n")
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	timer := time.NewTimer(idle)
	complete := false
	stopped := false
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(idle)
			if len(l) < 3 {
				continue
			}
			switch l[0] {
			case 'S':
				c.started, _ = strconv.Atoi(l[2:])
			case 'V':
				c.f = &finding{}
				err = json.Unmarshal([]byte(l[2:]), c.f)
			case 'A':
				c.rep = &report{}
				err = json.Unmarshal([]byte(l[2:]), c.rep)
				complete = true
			case 'R':
				c.result = &finding{}
				err = json.Unmarshal([]byte(l[2:]), c.result)
				complete = true
			case 'P':
				c.samples = append(c.samples, json.RawMessage(l[2:]))
			}
			if err != nil {
				cmd.Process.Kill()
				cmd.Wait()
				return nil, fmt.Errorf("bad message from a worker: %v", err)
			}
		case <-timer.C:
			c.timeout = true
			cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			cmd.Process.Kill()
			break loop
		case <-stop:
			stopped = true
			cmd.Process.Kill()
			break loop
		}
	}
	go func() {
		for range lines {
		}
	}()
	werr := cmd.Wait()
	if stopped {
		return c, errStopped
	}
	if !complete {
		b, _ := os.ReadFile(filepath.Join(dir, "output"))
		c.crash = crashText(b)
		if c.timeout {
			c.crash = "no progress for " + idle.String()
		} else if c.crash == "" {
			c.crash = fmt.Sprint("the process ended: ", werr)
		}
	}
	return c, nil
}

var errStopped = fmt.Errorf("stopped")

// crashText extracts what matters from the last words of a process.
func crashText(b []byte) string {
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			keep = append(keep, l)
		} else if strings.Contains(l, "/ecmascript/") && strings.Contains(l, ".go:") {
			if i := strings.LastIndex(l, "/ecmascript/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			keep = append(keep, l)
		}
		if len(keep) >= 10 {
			break
		}
	}
	return strings.Join(keep, "; ")
}

// crashClass says whether a crash is one of the simulated code's, and which.
func crashClass(c *child) string {
	switch {
	case c.timeout:
		return ""
	case strings.Contains(c.crash, "stack exceeds") || strings.Contains(c.crash, "stack overflow"):
		return "crash: stack exhausted"
	case strings.Contains(c.crash, "ecmascript/") && !strings.Contains(c.crash, "verifsim/check"):
		return "crash"
	case strings.HasPrefix(c.crash, "fatal error: concurrent map"):
		return "crash: concurrent map access"
	}
	return ""
}

type totals struct {
	report
	states   map[uint64]bool
	distinct map[uint64]bool
	samples  []json.RawMessage
}

func (t *totals) add(c *child) {
	if c.rep == nil {
		return
	}
	t.Runs += c.rep.Runs
	t.Evals += c.rep.Evals
	t.Steps += c.rep.Steps
	for k, v := range c.rep.Faults {
		t.Faults[k] += v
	}
	for k, v := range c.rep.Notes {
		t.Notes[k] += v
	}
	for _, k := range c.rep.States {
		t.states[k] = true
	}
	for _, k := range c.rep.Distinct {
		t.distinct[k] = true
	}
	t.samples = append(t.samples, c.samples...)
}

func workers(p *prop) int {
	if *flagWorkers > 0 {
		return *flagWorkers
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

const idleLimit = 150 * time.Second

// explore checks a property.
func explore() int {
	p := props[*flagProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		return 3
	}
	start := time.Now()
	runs, limit := p.quick, 400*time.Second
	if deep() {
		runs, limit = p.thorough, 3*time.Hour
	}
	if *flagRuns > 0 {
		runs = *flagRuns
	}
	t := &totals{states: map[uint64]bool{}, distinct: map[uint64]bool{}}
	t.Faults, t.Notes = map[string]int{}, map[string]int{}
	stop := make(chan struct{})
	var mu sync.Mutex
	next, cutoff := 0, runs // indexes from cutoff on are of no interest
	var found *finding
	var foundFrom int
	var fatal error
	digests := map[int]uint64{}
	var wg sync.WaitGroup
	args := func(from, to int) []string {
		return []string{"-worker", "-prop", p.id, "-tier", *flagTier, "-seed", strconv.FormatUint(*flagSeed, 10), "-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-verif", *flagVerif, "-repo", *flagRepo}
	}
	for w := 0; w < workers(p); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				from := next
				if from >= cutoff || fatal != nil || time.Since(start) > limit {
					mu.Unlock()
					return
				}
				to := from + p.chunk
				if to > runs {
					to = runs
				}
				next = to
				mu.Unlock()
				c, err := spawn(selfFor(p), args(from, to), nil, idleLimit, stop)
				mu.Lock()
				if err != nil {
					fatal = err
					mu.Unlock()
					return
				}
				t.add(c)
				if c.rep != nil {
					digests[from] = c.rep.Digest
				}
				f := c.f
				if f == nil && c.crash != "" {
					class := crashClass(c)
					if class == "" {
						fatal = fmt.Errorf("run %d of %s failed: %s", c.started, p.id, c.crash)
						mu.Unlock()
						return
					}
					f = &finding{Index: c.started, Class: class, Msg: c.crash, Scenario: p.scenario(*flagSeed, c.started, deep())}
				}
				if f != nil && (found == nil || f.Index < found.Index) {
					found, foundFrom = f, from
					cutoff = from
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fatal != nil && found == nil {
		fmt.Fprintln(os.Stderr, "ERROR:", fatal)
		return 3
	}
	if found == nil && t.Runs < runs {
		fmt.Printf("note: only %d of %d runs within the time limit\n", t.Runs, runs)
	}
	// The same seed has to give the same execution.
	rerun := 0
	mismatch := 0
	if found == nil && runs > 0 {
		to := p.chunk
		if to > runs {
			to = runs
		}
		c, err := spawn(selfFor(p), args(0, to), nil, idleLimit, nil)
		if err == nil && c.rep != nil {
			rerun = c.rep.Runs
			if c.rep.Digest != digests[0] {
				mismatch = 1
			}
		}
	}
	var path string
	if found != nil {
		path = settle(p, found, foundFrom)
	}
	wall := time.Since(start).Seconds()
	if err := writeEvidence(p, t, wall, found != nil, rerun, mismatch); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 3
	}
	if found != nil {
		fmt.Printf("%s: %s\n", found.Class, short(found.Msg, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		return 1
	}
	fmt.Printf("%s held in %d runs (%d simulated executions, %d distinct cases, %d states, %.1f s)\n", p.id, t.Runs, t.Evals, len(t.distinct), len(t.states), wall)
	return 0
}

// runOne runs scenarios in a process of their own and returns the class of
// violation that the last one shows.
func runOne(p *prop, list []*Scenario) (*finding, error) {
	c, err := spawn(selfFor(p), []string{"-one", "-repo", *flagRepo, "-verif", *flagVerif}, list, idleLimit, nil)
	if err != nil {
		return nil, err
	}
	if c.crash != "" {
		class := crashClass(c)
		if class == "" {
			return nil, fmt.Errorf("%s", c.crash)
		}
		if c.started != len(list)-1 {
			return &finding{}, nil
		}
		return &finding{Class: class, Msg: c.crash}, nil
	}
	return c.result, nil
}

// settle confirms and minimises a violation and writes its replay file.
func settle(p *prop, f *finding, from int) string {
	rp := &Replay{Property: p.id, Seed: *flagSeed, Tier: *flagTier, Index: f.Index, Class: f.Class, Message: f.Msg, Scenario: f.Scenario, Trace: f.Trace}
	deadline := time.Now().Add(60 * time.Second)
	same := func(list []*Scenario) *finding {
		g, err := runOne(p, list)
		if err != nil || g.Class != f.Class {
			return nil
		}
		return g
	}
	var before []*Scenario
	got := same([]*Scenario{f.Scenario})
	if got == nil {
		// It may depend on what the process did before.
		for i := from; i < f.Index; i++ {
			before = append(before, p.scenario(*flagSeed, i, deep()))
		}
		got = same(append(append([]*Scenario{}, before...), f.Scenario))
		if got == nil {
			rp.Minimal = "not reproduced in another process"
			return save(p, rp)
		}
		for size := (len(before) + 1) / 2; size > 0 && time.Now().Before(deadline); {
			shorter := false
			for at := 0; at+size <= len(before); at += size {
				b := append(append([]*Scenario{}, before[:at]...), before[at+size:]...)
				if g := same(append(append([]*Scenario{}, b...), f.Scenario)); g != nil {
					before, got, shorter = b, g, true
					break
				}
				if time.Now().After(deadline) {
					break
				}
			}
			if !shorter {
				size /= 2
			}
		}
	}
	best := f.Scenario
	tried, taken := 0, 0
	// Explicit schedules first.
	if best.Sch != nil && !best.Sch.Only && len(f.Slots) > 0 {
		c := best.clone()
		c.Sch.Fixed, c.Sch.Only = f.Slots, true
		if g := same(append(append([]*Scenario{}, before...), c)); g != nil {
			best, got = c, g
		}
	}
	complete := false
	for time.Now().Before(deadline) && !complete {
		cand := shrinkSchedule(best)
		if p.shrink != nil {
			cand = append(p.shrink(best), cand...)
		}
		complete = true
		for at := 0; at < len(cand) && time.Now().Before(deadline); at += 8 {
			n := len(cand) - at
			if n > 8 {
				n = 8
			}
			res := make([]*finding, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					res[k] = same(append(append([]*Scenario{}, before...), cand[at+k]))
				}(k)
			}
			wg.Wait()
			tried += n
			hit := -1
			for k := 0; k < n && hit < 0; k++ {
				if res[k] != nil {
					hit = k
				}
			}
			if hit >= 0 {
				best, got = cand[at+hit], res[hit]
				taken++
				complete = false
				break
			}
		}
		if !complete && !time.Now().Before(deadline) {
			break
		}
	}
	rp.Scenario, rp.Before = best, before
	rp.Message, rp.Trace = got.Msg, got.Trace
	rp.Digest = fmt.Sprintf("%016x", got.Digest)
	rp.Minimal = fmt.Sprintf("%d of %d simplifications applied", taken, tried)
	if complete {
		rp.Minimal += "; no further one keeps the violation"
	}
	*f = finding{Index: f.Index, Class: f.Class, Msg: got.Msg, Scenario: best}
	return save(p, rp)
}

func save(p *prop, rp *Replay) string {
	rp.How = "./replay FILE (in /verif)"
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(replayDir(), 0o755)
	path := filepath.Join(replayDir(), fmt.Sprintf("%s-%d-%d.json", p.id, rp.Seed, rp.Index))
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// replay runs a replay file again.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[rp.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
		return 3
	}
	g, err := runOne(p, append(append([]*Scenario{}, rp.Before...), rp.Scenario))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, t := range g.Trace {
		fmt.Println(" ", t)
	}
	if g.Class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", g.Class, short(g.Msg, 2000))
	if d := fmt.Sprintf("%016x", g.Digest); g.Class == rp.Class && (d == rp.Digest || strings.HasPrefix(g.Class, "crash")) {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Println("not the execution recorded in the file")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	return 1
}

func writeEvidence(p *prop, t *totals, wall float64, bad bool, rerun, mismatch int) error {
	tier := *flagTier
	viol := 0
	if bad {
		viol = 1
	}
	perHour := func(n int) int { return int(float64(n) / wall * 3600) }
	var samples []interface{}
	for _, s := range t.samples {
		var v interface{}
		d := json.NewDecoder(bytes.NewReader(s))
		d.UseNumber()
		if d.Decode(&v) == nil {
			if len(s) > 3000 {
				v = short(string(s), 3000)
			}
			samples = append(samples, v)
		}
		if len(samples) == 3 {
			break
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	faults := map[string]int{}
	for k, v := range t.Faults {
		faults[k] = v
	}
	notes := map[string]int{}
	for k, v := range t.Notes {
		notes[k] = v
	}
	det := "not checked (a violation was found)"
	if rerun > 0 {
		det = fmt.Sprintf("the first %d runs were done twice, with equal digests of all outcomes", rerun)
		if mismatch > 0 {
			det = fmt.Sprintf("the first %d runs were done twice, with DIFFERENT digests", rerun)
		}
	}
	ev := map[string]interface{}{
		"property": p.id,
		"tier":     tier,
		"seed":     *flagSeed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":               t.Evals,
			"distinct_nontrivial":       len(t.distinct),
			"rule":                      p.rule,
			"samples":                   samples,
			"simulated_runs":            t.Runs,
			"simulated_runs_per_hour":   perHour(t.Runs),
			"seeds_per_hour":            perHour(t.Runs),
			"executions_per_hour":       perHour(t.Evals),
			"simulated_time":            fmt.Sprintf("%d steps of the instrumented code (it reads no clock; a step is a statement)", t.Steps),
			"faults_injected":           faults,
			"outcomes":                  notes,
			"distinct_states":           len(t.states),
			"distinct_states_measure":   p.states,
			"components_running_real":   p.real,
			"components_running_a_stub": p.stub,
			"determinism":               det,
		},
		"assumptions": []string{
			"every run index gives its own seed; run i of seed s is always the same execution",
			"instrumentation (a counter in front of every statement, redirected imports of os, log, fmt, sync, io/ioutil) does not change behaviour",
		},
		"wall_s":     wall,
		"violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*flagVerif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644)
}

var _ = sort.Strings
