//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the race oracle is compiled in.
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far in this process.
//
//go:norace
func RaceErrors() int { return runtime.RaceErrors() }
