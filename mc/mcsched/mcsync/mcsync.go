// Package mcsync replaces package sync in the instrumented copy of the code
// under test: the same operations, made visible to the scheduler. Only what
// the originals promise is an ordering for the race detector.
package mcsync

import (
	"sync"
	"verifmc/mcsched"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

type Mutex struct {
	held bool
	hb   byte
}

//go:norace
func (m *Mutex) Ready() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	mcsched.Yield()
	mcsched.Block(m)
	m.held = true
	mcsched.Sync(&m.hb)
}

//go:norace
func (m *Mutex) TryLock() bool {
	mcsched.Yield()
	if m.held {
		return false
	}
	m.held = true
	mcsched.Sync(&m.hb)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	mcsched.Sync(&m.hb)
	m.held = false
	mcsched.Yield()
}

type RWMutex struct {
	writer  bool
	readers int
	hb      byte
	rd      byte
}

type canWrite struct{ m *RWMutex }
type canRead struct{ m *RWMutex }

//go:norace
func (c *canWrite) Ready() bool { return !c.m.writer && c.m.readers == 0 }

//go:norace
func (c *canRead) Ready() bool { return !c.m.writer }

//go:norace
func (m *RWMutex) Lock() {
	mcsched.Yield()
	mcsched.Block(&canWrite{m})
	m.writer = true
	mcsched.Sync(&m.hb)
	mcsched.Sync(&m.rd)
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	mcsched.Sync(&m.hb)
	m.writer = false
	mcsched.Yield()
}

//go:norace
func (m *RWMutex) RLock() {
	mcsched.Yield()
	mcsched.Block(&canRead{m})
	m.readers++
	mcsched.Acquire(&m.hb)
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	mcsched.Release(&m.rd)
	m.readers--
	mcsched.Yield()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	mcsched.Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	mcsched.Sync(&m.hb)
	mcsched.Sync(&m.rd)
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	mcsched.Yield()
	if m.writer {
		return false
	}
	m.readers++
	mcsched.Acquire(&m.hb)
	return true
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	mcsched.Yield()
	if o.done {
		mcsched.Acquire(&o.m.hb)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finished()
		f()
	}
}

//go:norace
func (o *Once) finished() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool always returns what was put last: the most revealing legal behaviour.
type Pool struct {
	New   func() interface{}
	items []interface{}
	hb    byte
}

//go:norace
func (p *Pool) Get() interface{} {
	mcsched.Yield()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		mcsched.Acquire(&p.hb)
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x != nil {
		mcsched.Release(&p.hb)
		l := make([]interface{}, len(p.items)+1)
		for i, y := range p.items { // copy() is seen by the race detector
			l[i] = y
		}
		l[len(l)-1] = x
		p.items = l
	}
	mcsched.Yield()
}

type Cond struct {
	L       Locker
	waiting int
	woken   int
	hb      byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Ready() bool { return c.woken > 0 }

func (c *Cond) Wait() {
	c.begin()
	c.L.Unlock()
	c.end()
	c.L.Lock()
}

//go:norace
func (c *Cond) begin() { c.waiting++ }

//go:norace
func (c *Cond) end() {
	mcsched.Yield()
	mcsched.Block(c)
	c.woken--
	mcsched.Acquire(&c.hb)
}

//go:norace
func (c *Cond) wake(n int) {
	mcsched.Release(&c.hb)
	c.waiting -= n
	c.woken += n
	mcsched.Yield()
}

//go:norace
func (c *Cond) Signal() {
	if c.waiting > 0 {
		c.wake(1)
	}
}

//go:norace
func (c *Cond) Broadcast() { c.wake(c.waiting) }

type WaitGroup struct {
	n  int
	hb byte
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		mcsched.Release(&w.hb)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	mcsched.Yield()
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	mcsched.Yield()
	mcsched.Block(w)
	mcsched.Acquire(&w.hb)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcsched.Go(func() { defer w.Done(); f() })
}
