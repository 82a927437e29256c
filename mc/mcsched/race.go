//go:build race

package mcsched

import (
	"runtime"
	"unsafe"
)

// Race tells whether the race detector watches.
const Race = true

func raceDisable()             { runtime.RaceDisable() }
func raceEnable()              { runtime.RaceEnable() }
func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Races is the number of data races seen so far.
func Races() int { return runtime.RaceErrors() }

// Sync orders what the callers did before it and do after it.
func Sync(p *byte) { raceAcquire(p); raceReleaseMerge(p) }

// Acquire orders what was done before Release before what the caller does now.
func Acquire(p *byte) { raceAcquire(p) }

// Release is the other side of Acquire.
func Release(p *byte) { raceReleaseMerge(p) }
