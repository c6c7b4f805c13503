//go:build !race
// +build !race

package hook

import "unsafe"

const Race = false

func raceDisable() {}
func raceEnable()  {}

func raceReleaseMerge(s *Sched) {}

// Acquire orders what was released before what follows.
func Acquire(p unsafe.Pointer) {}

// Release orders what the caller did before what follows an Acquire.
func Release(p unsafe.Pointer) {}

// RaceErrors returns the number of data races that were detected.
func RaceErrors() int { return 0 }

// Join orders everything the tasks did before what follows.
func (s *Sched) Join() {}

// Quiet hides the synchronisation that follows from the race detector.
func Quiet() { raceDisable() }

// Loud ends what Quiet began.
func Loud() { raceEnable() }
