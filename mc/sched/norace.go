//go:build !race

package sched

import "unsafe"

// RaceOn reports a race build.
const RaceOn = false

//go:noinline
func Acquire(p unsafe.Pointer) {}

//go:noinline
func Release(p unsafe.Pointer) {}

//go:noinline
func ReleaseMerge(p unsafe.Pointer) {}
