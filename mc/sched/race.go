//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

var joinVar int64

func init() {
	RaceErrors = runtime.RaceErrors
	RaceMerge = func() { runtime.RaceReleaseMerge(unsafe.Pointer(&joinVar)) }
	RaceJoinAll = func() { runtime.RaceAcquire(unsafe.Pointer(&joinVar)) }
}

// RaceOn reports a race build.
const RaceOn = true

// Acquire/Release/ReleaseMerge forward synchronisation edges to the detector.
//
//go:noinline
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:noinline
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:noinline
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
