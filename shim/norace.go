//go:build !race

package mcs

import "unsafe"

// RaceEnabled reports whether data races are detected.
const RaceEnabled = false

func runtime_RaceDisable()                      {}
func runtime_RaceEnable()                       {}
func runtime_RaceAcquire(p unsafe.Pointer)      {}
func runtime_RaceReleaseMerge(p unsafe.Pointer) {}
func Acquire(p unsafe.Pointer)                  {}
func Release(p unsafe.Pointer)                  {}
func ReleaseMerge(p unsafe.Pointer)             {}
func Races() int                                { return 0 }
