// Command check runs the simulations that decide the properties.
//
//	check -prop C01 -tier quick     explore; exit 0, 1 (violation) or 3 (error)
//	check -replay FILE              run a replay file again
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
)

// The command under test has the default flag set to itself.
var flags = flag.NewFlagSet("simcheck", flag.ExitOnError)

var (
	flagProp    = flags.String("prop", "", "property")
	flagTier    = flags.String("tier", "quick", "quick or thorough")
	flagSeed    = flags.Uint64("seed", 1, "seed")
	flagReplay  = flags.String("replay", "", "replay file")
	flagWorker  = flags.Bool("worker", false, "")
	flagOne     = flags.Bool("one", false, "")
	flagEval    = flags.Bool("eval", false, "")
	flagSoak    = flags.Bool("soak", false, "")
	flagCLI     = flags.Bool("cli", false, "")
	flagFrom    = flags.Int("from", 0, "")
	flagTo      = flags.Int("to", 0, "")
	flagRuns    = flags.Int("runs", 0, "number of runs, if not that of the tier")
	flagIndex   = flags.Int("index", -1, "run only this index and show what happens")
	flagVerif   = flags.String("verif", "/verif", "directory for evidence and replays")
	flagRepo    = flags.String("repo", "/repo", "repository")
	flagWorkers = flags.Int("workers", 0, "")
	flagAnswers = flags.Bool("answers", false, "")
)

func main() {
	flags.Parse(os.Args[1:])
	debug.SetMaxStack(256 << 20)
	switch {
	case *flagWorker:
		worker()
	case *flagOne:
		one()
	case *flagEval:
		evalJobs()
	case *flagSoak:
		soakJobs()
	case *flagCLI:
		cliMain()
	case *flagAnswers:
		answers()
	case *flagReplay != "":
		os.Exit(replay(*flagReplay))
	case *flagIndex >= 0:
		show()
	default:
		os.Exit(explore())
	}
}

func deep() bool { return *flagTier == "thorough" }

func propID(id string) uint64 { return hash64([]byte(id)) }

// scenario makes up the scenario with an index.
func (p *prop) scenario(seed uint64, i int, deep bool) *Scenario {
	r := newRng(seed, propID(p.id), uint64(i))
	s := p.gen(r, i, deep)
	s.Prop = p.id
	return s
}

// report is what a worker tells about the runs of a chunk.
type report struct {
	Runs     int
	Evals    int
	Steps    uint64
	Faults   map[string]int
	Notes    map[string]int
	States   []uint64
	Distinct []uint64
	Digest   uint64
}

// finding is what a worker tells about a violation.
type finding struct {
	Index    int
	Class    string
	Msg      string
	Digest   uint64
	Scenario *Scenario
	Trace    []string
	Slots    []Slot
}

var comm *os.File

func tell(kind string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	comm.Write([]byte(kind + " " + string(b) + "\n"))
}

func setup() {
	runtime.GOMAXPROCS(1)
	comm = os.NewFile(3, "comm")
}

func worker() {
	setup()
	p := props[*flagProp]
	rep := &report{Faults: map[string]int{}, Notes: map[string]int{}}
	states, distinct := map[uint64]bool{}, map[uint64]bool{}
	for i := *flagFrom; i < *flagTo; i++ {
		comm.Write([]byte("S " + strconv.Itoa(i) + "\n"))
		s := p.scenario(*flagSeed, i, deep())
		c := newCtx()
		execute(p, s, c)
		rep.Runs++
		rep.Evals += c.evals
		rep.Steps += c.steps
		for k, v := range c.faults {
			rep.Faults[k] += v
		}
		for k, v := range c.notes {
			rep.Notes[k] += v
		}
		for k := range c.states {
			states[k] = true
		}
		for k := range c.distinct {
			distinct[k] = true
		}
		rep.Digest = rep.Digest*1099511628211 ^ c.digest
		if i < 2 {
			tell("P", s)
		}
		if c.viol != nil {
			tell("V", finding{i, c.viol.Class, c.viol.Msg, c.digest, s, c.trace, c.slots})
			break
		}
	}
	for k := range states {
		rep.States = append(rep.States, k)
	}
	for k := range distinct {
		rep.Distinct = append(rep.Distinct, k)
	}
	tell("A", rep)
	os.Exit(0)
}

// execute runs a scenario. Panics of the machinery are errors of it.
func execute(p *prop, s *Scenario, c *ctx) {
	out0 := outputSize()
	p.run(s, c)
	if n := outputSize(); n > out0 && p.id == "C11" {
		c.fail("output", "%d bytes were written to standard output or standard error", n-out0)
	}
}

// outputSize returns how much was written to the standard streams, which are
// one file in workers.
func outputSize() int64 {
	var n int64
	for _, f := range []*os.File{os.Stdout, os.Stderr} {
		if fi, err := f.Stat(); err == nil && fi.Mode().IsRegular() {
			n += fi.Size()
		}
	}
	return n
}

// one runs the scenario given on descriptor 4, after those before it.
func one() {
	setup()
	var list []*Scenario
	if err := json.NewDecoder(os.NewFile(4, "scenario")).Decode(&list); err != nil {
		fmt.Fprintln(os.Stderr, "bad scenario:", err)
		os.Exit(3)
	}
	for i, s := range list {
		p := props[s.Prop]
		c := newCtx()
		comm.Write([]byte("S " + strconv.Itoa(i) + "\n"))
		execute(p, s, c)
		if i == len(list)-1 {
			f := finding{Digest: c.digest, Trace: c.trace, Slots: c.slots}
			if c.viol != nil {
				f.Class, f.Msg = c.viol.Class, c.viol.Msg
			}
			tell("R", f)
		}
	}
	os.Exit(0)
}

// show runs one index in this process.
func show() {
	comm, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	runtime.GOMAXPROCS(1)
	p := props[*flagProp]
	s := p.scenario(*flagSeed, *flagIndex, deep())
	b, _ := json.MarshalIndent(s, "", " ")
	fmt.Printf("%s\n", b)
	c := newCtx()
	execute(p, s, c)
	for _, t := range c.trace {
		fmt.Println(t)
	}
	fmt.Println("evals", c.evals, "steps", c.steps, "faults", c.faults, "notes", c.notes)
	if c.viol != nil {
		fmt.Println("VIOLATION", c.viol.Class, c.viol.Msg)
	}
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

// selfFor returns the binary that a property is checked with.
func selfFor(p *prop) string {
	s := strings.TrimSuffix(self(), "-race")
	if p.race {
		s += "-race"
	}
	return s
}

func replayDir() string { return filepath.Join(*flagVerif, "replays") }
