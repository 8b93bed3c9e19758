//go:build race

package mcs

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether data races are detected.
const RaceEnabled = true

//go:norace
func runtime_RaceDisable() { runtime.RaceDisable() }

//go:norace
func runtime_RaceEnable() { runtime.RaceEnable() }

//go:norace
func runtime_RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func runtime_RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Acquire, Release and ReleaseMerge create the ordering of a primitive.
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Races returns the number of races reported so far.
//
//go:norace
func Races() int { return runtime.RaceErrors() }
