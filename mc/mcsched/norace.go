//go:build !race

package mcsched

// Race tells whether the race detector watches.
const Race = false

func raceDisable()             {}
func raceEnable()              {}
func raceAcquire(p *byte)      {}
func raceReleaseMerge(p *byte) {}

// Races is the number of data races seen so far.
func Races() int { return 0 }

// Sync orders what the callers did before it and do after it.
func Sync(p *byte) {}

// Acquire orders what was done before Release before what the caller does now.
func Acquire(p *byte) {}

// Release is the other side of Acquire.
func Release(p *byte) {}
