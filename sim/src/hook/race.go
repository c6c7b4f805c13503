//go:build race
// +build race

package hook

import (
	"runtime"
	"unsafe"
)

const Race = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceReleaseMerge(s *Sched) { runtime.RaceReleaseMerge(unsafe.Pointer(s)) }

// Acquire orders what was released before what follows.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release orders what the caller did before what follows an Acquire.
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors returns the number of data races that were detected.
func RaceErrors() int { return runtime.RaceErrors() }

// Join orders everything the tasks did before what follows.
func (s *Sched) Join() { runtime.RaceAcquire(unsafe.Pointer(s)) }

// Quiet hides the synchronisation that follows from the race detector.
func Quiet() { raceDisable() }

// Loud ends what Quiet began.
func Loud() { raceEnable() }
