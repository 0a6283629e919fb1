//go:build !race

package vsched

import "unsafe"

// RaceEnabled tells whether the race detector is on.
const RaceEnabled = false

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
