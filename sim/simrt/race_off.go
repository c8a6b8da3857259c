//go:build !race

package zzrt

import "unsafe"

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = false

func raceDisable()                           {}
func raceEnable()                            {}
func raceAcquire(p unsafe.Pointer)           {}
func raceRelease(p unsafe.Pointer)           {}
func raceReleaseMerge(p unsafe.Pointer)      {}
func raceReadRange(p unsafe.Pointer, n int)  {}
func raceWriteRange(p unsafe.Pointer, n int) {}

// RaceErrors returns the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
