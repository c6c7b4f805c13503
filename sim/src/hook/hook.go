// Package hook is the seam between the instrumented code and the simulator.
//
// A call of Y stands in front of every statement of the instrumented code. It
// counts steps; when the count reaches a limit that the simulator has set, the
// caller is handed over to the simulator: it is either preempted, or, when it
// used up its budget of steps, ended.
package hook

import (
	"bytes"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

const never = ^uint64(0)

var (
	steps uint64
	limit uint64 = never

	// owner is the goroutine the budget belongs to in sequential mode.
	owner uint64
	over  bool

	// expected is the number of goroutines there should be. If there are
	// more, callers are identified before they are dealt with.
	expected int

	// killAt is called once the number of steps set by SetKill was taken.
	killAt func()

	sched *Sched
)

// Y is a yield point.
//
//go:norace
func Y() {
	steps++
	if steps >= limit {
		slow()
	}
}

//go:norace
func slow() {
	if killAt != nil {
		k := killAt
		killAt = nil
		limit = never
		k()
		return
	}
	if sched != nil {
		sched.preempt()
		return
	}
	if owner != 0 && goid() == owner {
		over = true
		owner = 0
		limit = never
		runtime.Goexit()
	}
}

// Steps returns the number of steps taken so far.
//
//go:norace
func Steps() uint64 { return steps }

// SetKill calls f in the middle of the execution after n more steps.
func SetKill(n uint64, f func()) {
	killAt = f
	limit = steps + n
}

// Begin sets a budget of steps for the calling goroutine. When it is used up,
// the goroutine ends.
//
//go:norace
func Begin(budget uint64) {
	owner = goid()
	over = false
	limit = steps + budget
}

// End ends the budget set by Begin.
//
//go:norace
func End() {
	owner = 0
	limit = never
}

// Over returns whether the last budget was used up.
//
//go:norace
func Over() bool { return over }

func goid() uint64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i >= 0 {
		b = b[:i]
	}
	n, _ := strconv.ParseUint(string(b), 10, 64)
	return n
}

// Task states.
const (
	Runnable = iota
	Blocked  // waiting for a simulated lock
	Stalled  // waiting for input that will never arrive
	External // blocked by something that is not simulated
	Done
)

var stateNames = [...]string{"runnable", "blocked on a lock", "stalled", "blocked", "done"}

// Task is a simulated thread.
type Task struct {
	ID    int
	Name  string
	State int

	// Over is set when the task used up its budget of steps.
	Over bool

	// Steps is the number of steps the task took.
	Steps  uint64
	Budget uint64

	// Slices is the number of times the task was scheduled.
	Slices int

	fn      func()
	wake    chan struct{}
	goid    uint64
	started bool
	begin   uint64
	wait    interface{}
}

// StateName describes the state of the task.
func (t *Task) StateName() string { return stateNames[t.State] }

// Sched is a scheduler that runs one task at a time.
type Sched struct {
	// Decide picks one of the runnable tasks and for how many steps it runs.
	Decide func(runnable []*Task) (*Task, uint64)

	// MaxSlices bounds the number of scheduling decisions.
	MaxSlices int

	// Aborted is set when the run was cut off because of MaxSlices.
	Aborted bool

	Tasks []*Task

	cur    *Task
	ended  bool
	back   chan struct{}
	wd     chan struct{}
	spawns int
}

// NewSched creates a scheduler.
func NewSched() *Sched {
	return &Sched{back: make(chan struct{}), wd: make(chan struct{}, 1)}
}

// Add adds a task.
func (s *Sched) Add(name string, budget uint64, fn func()) *Task {
	t := &Task{ID: len(s.Tasks), Name: name, Budget: budget, fn: fn, wake: make(chan struct{}, 1)}
	s.Tasks = append(s.Tasks, t)
	return t
}

// Go runs a function in a new thread, which is a task if a scheduler is
// active.
func Go(f func()) {
	s := sched
	if s == nil {
		go f()
		return
	}
	s.Add("spawned", 1<<40, f)
}

var beat uint64

// Run runs the tasks until none of them can go on.
func (s *Sched) Run() {
	sched = s
	defer s.stop()
	stop := make(chan struct{})
	defer close(stop)
	go s.watch(stop)

	for n := 0; ; n++ {
		var runnable []*Task
		for _, t := range s.Tasks {
			if t.State == Runnable {
				runnable = append(runnable, t)
			}
		}
		if len(runnable) == 0 {
			ext := false
			for _, t := range s.Tasks {
				if t.State == External {
					ext = true
				}
			}
			if !ext {
				return
			}
			// Nothing that is simulated can unblock these. Give them the
			// time to notice what already happened.
			time.Sleep(200 * time.Millisecond)
			again := false
			for _, t := range s.Tasks {
				if t.State == Runnable {
					again = true
				}
			}
			if again {
				continue
			}
			return
		}
		if s.MaxSlices > 0 && n >= s.MaxSlices {
			s.Aborted = true
			return
		}
		t, slice := s.Decide(runnable)
		s.resume(t, slice)
	}
}

//go:norace
func (s *Sched) stop() {
	s.ended = true
	sched = nil
	limit = never
}

//go:norace
func (s *Sched) resume(t *Task, slice uint64) {
	atomic.AddUint64(&beat, 1)
	t.Slices++
	s.cur = t
	if left := t.Budget - t.Steps; slice > left {
		slice = left
	}
	if slice == 0 {
		slice = 1
	}
	t.begin = steps
	limit = steps + slice
	if !t.started {
		t.started = true
		// The start of a task orders what was set up before the run before
		// the task, which is as it should be.
		go s.main(t)
	} else {
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
	}
	raceDisable()
	select {
	case <-s.back:
	case <-s.wd:
		// The task is blocked by something that is not simulated.
		t.State = External
	}
	raceEnable()
}

//go:norace
func (s *Sched) main(t *Task) {
	t.goid = goid()
	defer s.done(t)
	t.fn()
}

// done runs deferred. Everything the task did is ordered before what follows
// the end of the run, but not before anything the other tasks do.
//
//go:norace
func (s *Sched) done(t *Task) {
	wasext := t.State == External
	t.account()
	t.State = Done
	raceReleaseMerge(s)
	if wasext || s.ended {
		return
	}
	raceDisable()
	s.back <- struct{}{}
	raceEnable()
}

//go:norace
func (t *Task) account() {
	t.Steps += steps - t.begin
	t.begin = steps
}

// preempt is called by a task that used up its slice.
//
//go:norace
func (s *Sched) preempt() {
	t := s.cur
	if id := goid(); t == nil || t.goid != id {
		// This is a thread that the scheduler does not know, or one that was
		// blocked by something that is not simulated and goes on again.
		for _, u := range s.Tasks {
			if u.goid == id && u.State == External {
				u.State = Runnable
				raceDisable()
				<-u.wake
				raceEnable()
				return
			}
		}
		return
	}
	t.account()
	if t.Steps >= t.Budget {
		t.Over = true
		limit = never
		runtime.Goexit()
	}
	t.park()
}

//go:norace
func (t *Task) park() {
	s := sched
	raceDisable()
	s.back <- struct{}{}
	<-t.wake
	raceEnable()
}

// Active returns whether the caller is a task of an active scheduler.
//
//go:norace
func Active() bool {
	return sched != nil && sched.cur != nil && sched.cur.goid == goid()
}

// Yield hands the control to the scheduler.
//
//go:norace
func Yield() {
	if Active() {
		t := sched.cur
		t.account()
		t.park()
	}
}

// Stall blocks the calling task for ever.
//
//go:norace
func Stall() {
	t := sched.cur
	t.account()
	t.State = Stalled
	s := sched
	raceDisable()
	s.back <- struct{}{}
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// Abandon ends the tasks that are stalled, and waits for them to end. It may be
// called once Run returned.
//
//go:norace
func (s *Sched) Abandon() {
	for _, t := range s.Tasks {
		if t.State == Stalled {
			raceDisable()
			t.wake <- struct{}{}
			raceEnable()
			for i := 0; i < 1000 && t.State == Stalled; i++ {
				if i < 100 {
					runtime.Gosched()
				} else {
					time.Sleep(time.Millisecond)
				}
			}
		}
	}
}

// Block blocks the calling task until what it waits for is unblocked.
//
//go:norace
func Block(on interface{}) {
	t := sched.cur
	t.account()
	t.State = Blocked
	t.wait = on
	t.park()
}

// Unblock makes the tasks runnable that are blocked on something.
//
//go:norace
func Unblock(on interface{}) {
	if sched == nil {
		return
	}
	for _, t := range sched.Tasks {
		if t.State == Blocked && t.wait == on {
			t.State = Runnable
			t.wait = nil
		}
	}
}

// watch notices when the current task is blocked by something that is not
// simulated.
//
//go:norace
func (s *Sched) watch(stop chan struct{}) {
	last, idle := uint64(0), 0
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		now := atomic.LoadUint64(&beat)<<32 + steps
		if now != last {
			last, idle = now, 0
			continue
		}
		idle++
		if idle >= 4 && s.cur != nil && s.cur.State == Runnable && blocked(s.cur.goid) {
			idle = 0
			select {
			case s.wd <- struct{}{}:
			default:
			}
		}
	}
}

// blocked returns whether a goroutine is blocked.
func blocked(id uint64) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	head := []byte("goroutine " + strconv.FormatUint(id, 10) + " ")
	i := bytes.Index(buf, head)
	if i < 0 {
		return false
	}
	line := buf[i+len(head):]
	if j := bytes.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	for _, s := range []string{"chan ", "select", "semacquire", "sync.", "sleep", "IO wait"} {
		if bytes.Contains(line, []byte(s)) {
			return true
		}
	}
	return false
}
