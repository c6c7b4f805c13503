package main

import (
	"github.com/jchv/cleansheets/verifsim/hook"
)

// decide returns a scheduling function that follows the choices, and records
// what it decided.
func (ch *Choices) decide(c *ctx) func([]*hook.Task) (*hook.Task, uint64) {
	r := newRng(ch.Seed, 0x5ced)
	at := 0
	last := -1
	// One of the tasks is preferred in priority-based schedules.
	prio := map[int]int{}
	change := r.in(1, 40)
	n := 0
	return func(run []*hook.Task) (*hook.Task, uint64) {
		n++
		pick := func(id int) *hook.Task {
			for _, t := range run {
				if t.ID == id {
					return t
				}
			}
			return nil
		}
		var t *hook.Task
		var steps uint64
		for at < len(ch.Fixed) && t == nil {
			s := ch.Fixed[at]
			at++
			t, steps = pick(s.Task), s.Steps
		}
		if t == nil && ch.Only {
			t, steps = run[0], 1<<40
		}
		if t == nil {
			switch ch.Style {
			case 0: // short slices, any task
				t = run[r.n(len(run))]
				steps = uint64(r.in(1, 12))
			case 1: // slices of very different lengths
				t = run[r.n(len(run))]
				steps = uint64(1) << uint(r.n(14))
				steps += uint64(r.n(int(steps) + 1))
			case 2: // priorities that change now and then
				if n%change == 0 {
					prio = map[int]int{}
				}
				best := -1
				for _, u := range run {
					if _, ok := prio[u.ID]; !ok {
						prio[u.ID] = r.n(1000)
					}
					if best < 0 || prio[u.ID] > prio[best] {
						best = u.ID
					}
				}
				t = pick(best)
				steps = uint64(r.in(1, 300))
			default: // in turns, a few steps each
				for i, u := range run {
					if u.ID > last {
						t = run[i]
						break
					}
				}
				if t == nil {
					t = run[0]
				}
				steps = uint64(1 + ch.Style%7)
			}
		}
		last = t.ID
		if len(c.slots) < 200000 {
			c.slots = append(c.slots, Slot{t.ID, steps})
		}
		return t, steps
	}
}

// shrinkSchedule removes and merges decisions.
func shrinkSchedule(s *Scenario) []*Scenario {
	if s.Sch == nil || !s.Sch.Only {
		return nil
	}
	var out []*Scenario
	n := len(s.Sch.Fixed)
	for _, k := range cuts(n) {
		c := s.clone()
		c.Sch.Fixed = append(append([]Slot{}, s.Sch.Fixed[:k[0]]...), s.Sch.Fixed[k[1]:]...)
		out = append(out, c)
		if len(out) > 300 {
			break
		}
	}
	return out
}
