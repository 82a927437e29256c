// Package mcsched is linked into the instrumented copy of the code under
// test. It owns the sources of nondeterminism of that code: which goroutine
// runs between two statements, and the order map entries are visited in. It
// also counts executed statements, so that "does not terminate" is a
// deterministic verdict and not a matter of wall clock time.
package mcsched

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// MaxPoints bounds the number of instrumented statements.
const MaxPoints = 1 << 16

var (
	// Cov marks the statements that were executed.
	Cov [MaxPoints]bool
	// Names is set by the instrumented program: file:line of each point.
	steps  uint64
	budget uint64 = 1 << 62
	active *Sched
)

// Hang is the panic value of an execution that used up its step budget.
type Hang struct{ Steps uint64 }

func (h Hang) Error() string {
	return fmt.Sprintf("no termination within %d statements", h.Steps)
}

// Divergence is the panic value of a replay that does not fit the execution.
type Divergence string

// P is called before every statement of the code under test.
//
//go:norace
func P(id int) {
	Cov[id&(MaxPoints-1)] = true
	steps++
	if steps > budget {
		panic(Hang{budget})
	}
	if active != nil {
		active.point(id)
	}
}

// Begin starts a new budget.
func Begin(b uint64) { steps = 0; budget = b }

// End lifts the budget and returns the number of steps used.
func End() uint64 { budget = 1 << 62; return steps }

// Steps returns the steps since Begin.
func Steps() uint64 { return steps }

// ---------------------------------------------------------------------
// map order

// Order decides the visiting order of the n keys of one map loop: it returns
// a permutation of 0..n-1 of the sorted keys. nil means sorted.
var Order func(n int) []int

func permute(n int) []int {
	if Order == nil || n < 2 {
		return nil
	}
	return Order(n)
}

// StringKeys returns the keys of a map with string keys in the order to visit.
func StringKeys(m interface{}) []string {
	v := reflect.ValueOf(m)
	keys := make([]string, 0, v.Len())
	for _, k := range v.MapKeys() {
		keys = append(keys, k.String())
	}
	sort.Strings(keys)
	if p := permute(len(keys)); p != nil {
		res := make([]string, len(keys))
		for i, j := range p {
			res[i] = keys[j]
		}
		return res
	}
	return keys
}

// IntKeys is StringKeys for int keys.
func IntKeys(m interface{}) []int {
	v := reflect.ValueOf(m)
	keys := make([]int, 0, v.Len())
	for _, k := range v.MapKeys() {
		keys = append(keys, int(k.Int()))
	}
	sort.Ints(keys)
	if p := permute(len(keys)); p != nil {
		res := make([]int, len(keys))
		for i, j := range p {
			res[i] = keys[j]
		}
		return res
	}
	return keys
}

// ---------------------------------------------------------------------
// threads
//
// Handing over from one thread to the next must not order their memory
// accesses in the eyes of the race detector, which watches every explored
// schedule when the framework is built with -race: only the synchronisation
// of the code under test does. So the channels used for it are operated with
// RaceDisable, and all functions that touch the state of the scheduler are
// norace (and use no append, which the runtime instruments itself).

// Switch is a scheduling decision: when the running thread reaches its
// Step'th scheduling point of the execution, Thread continues instead. Steps
// count the points of all threads. Decisions at the end of a thread (where
// somebody else has to run) use the same numbering.
type Switch struct {
	Step   int `json:"step"`
	Thread int `json:"thread"`
}

// Waiter is something a thread can wait for.
type Waiter interface{ Ready() bool }

type thread struct {
	id    int
	wake  chan struct{}
	done  bool
	wait  Waiter // not enabled before it is ready
	panic interface{}
	body  func()
}

// Sched runs threads one at a time and switches between them exactly at the
// planned points.
type Sched struct {
	threads []*thread
	cur     *thread
	plan    []Switch
	step    int
	finish  chan struct{}
	killing bool
	join    byte
	at      int
	// Masks[i] are the threads that could have run at step i, the running
	// thread excluded, as bits; Forced[i]: the running one could not
	// continue; At[i]: the statement; Who[i]: the running thread.
	Masks    []uint16
	Forced   []bool
	At       []int32
	Who      []uint8
	Deadlock bool
	Diverged string
	// Stuck: a thread waits for something the scheduler does not know of.
	// Nothing is known about this execution, and its threads are lost.
	Stuck bool
}

// stuckAfter is the time no thread may reach a scheduling point in.
const stuckAfter = 20 * time.Second

// await waits for the end of the execution, or until it is stuck.
//
//go:norace
func (s *Sched) await() bool {
	t := time.NewTicker(stuckAfter)
	defer t.Stop()
	for last := -1; ; {
		select {
		case <-s.finish:
			return true
		case <-t.C:
			if last == s.step {
				return false
			}
			last = s.step
		}
	}
}

type killed struct{}

// Run executes the bodies under the plan and returns the finished scheduler.
// Panics of the bodies are in Panics.
//
//go:norace
func Run(plan []Switch, bodies ...func()) *Sched {
	s := &Sched{plan: plan, finish: make(chan struct{}, 1)}
	s.Masks = make([]uint16, 0, 1<<15)
	s.Forced = make([]bool, 0, 1<<15)
	s.At = make([]int32, 0, 1<<15)
	s.Who = make([]uint8, 0, 1<<15)
	for _, b := range bodies {
		s.spawn(b)
	}
	active = s
	s.cur = s.threads[0]
	s.threads[0].wake <- struct{}{}
	raceDisable()
	ended := s.await()
	raceEnable()
	if !ended {
		active = nil
		s.Stuck = true
		return s
	}
	raceAcquire(&s.join)
	active = nil
	if len(s.plan) > 0 && s.Diverged == "" {
		s.Diverged = fmt.Sprintf("planned switch at step %d was never reached", s.plan[0].Step)
	}
	return s
}

//go:norace
func (s *Sched) spawn(b func()) {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1), body: b}
	l := make([]*thread, len(s.threads)+1)
	for i, o := range s.threads { // copy() is seen by the race detector
		l[i] = o
	}
	l[len(l)-1] = t
	s.threads = l
	go s.main(t)
}

//go:norace
func (s *Sched) main(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	s.call(t)
	raceReleaseMerge(&s.join)
	t.done = true
	if s.killing {
		s.next(t)
		return
	}
	s.decide(t, true)
}

//go:norace
func (s *Sched) call(t *thread) {
	defer s.caught(t)
	if !s.killing {
		t.body()
	}
}

//go:norace
func (s *Sched) caught(t *thread) {
	if r := recover(); r != nil {
		if _, ok := r.(killed); !ok {
			t.panic = r
		}
	}
}

// Panics returns the panic value of each thread, nil for none.
func (s *Sched) Panics() []interface{} {
	var res []interface{}
	for _, t := range s.threads {
		res = append(res, t.panic)
	}
	return res
}

// Steps is the number of scheduling points of the execution.
func (s *Sched) Steps() int { return s.step }

// Thread tells whether thread i could have run at the step.
func (s *Sched) Thread(step, i int) bool { return s.Masks[step]&(1<<uint(i)) != 0 }

// Me is the number of the running thread.
//
//go:norace
func (s *Sched) Me() int { return s.cur.id }

//go:norace
func (s *Sched) enabled(except *thread) uint16 {
	var res uint16
	for _, t := range s.threads {
		if t == except || t.done {
			continue
		}
		if t.wait != nil && !t.wait.Ready() {
			continue
		}
		res |= 1 << uint(t.id)
	}
	return res
}

// point is called by the running thread.
//
//go:norace
func (s *Sched) point(id int) {
	if s.killing {
		panic(killed{})
	}
	s.at = id
	s.decide(s.cur, false)
}

//go:norace
func (s *Sched) record(who int, en uint16, forced bool) {
	if n := len(s.Masks); n == cap(s.Masks) {
		m, f, a, w := make([]uint16, n, 2*n), make([]bool, n, 2*n), make([]int32, n, 2*n), make([]uint8, n, 2*n)
		for i := 0; i < n; i++ { // copy() is seen by the race detector
			m[i], f[i], a[i], w[i] = s.Masks[i], s.Forced[i], s.At[i], s.Who[i]
		}
		s.Masks, s.Forced, s.At, s.Who = m, f, a, w
	}
	n := len(s.Masks)
	s.Masks, s.Forced, s.At, s.Who = s.Masks[:n+1], s.Forced[:n+1], s.At[:n+1], s.Who[:n+1]
	s.Masks[n], s.Forced[n], s.At[n], s.Who[n] = en, forced, int32(s.at), uint8(who)
}

// decide records the choices at this step and hands over if planned, or if
// forced, to the first enabled thread.
//
//go:norace
func (s *Sched) decide(me *thread, forced bool) {
	en := s.enabled(me)
	i := s.step
	s.step++
	s.record(me.id, en, forced)
	target := -1
	if len(s.plan) > 0 && s.plan[0].Step == i {
		target = s.plan[0].Thread
		s.plan = s.plan[1:]
		if target < 0 || target > 15 || en&(1<<uint(target)) == 0 {
			s.Diverged = "the planned thread is not enabled"
			s.kill(me)
			return
		}
	} else if forced {
		if en == 0 {
			for _, t := range s.threads {
				if !t.done {
					s.Deadlock = true
				}
			}
			if s.Deadlock {
				s.kill(me)
				return
			}
			s.end()
			return
		}
		for target = 0; en&(1<<uint(target)) == 0; target++ {
		}
	}
	if target < 0 {
		return
	}
	s.hand(s.threads[target])
	if !me.done {
		raceDisable()
		<-me.wake
		raceEnable()
		if s.killing {
			panic(killed{})
		}
	}
}

//go:norace
func (s *Sched) end() {
	raceDisable()
	s.finish <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sched) hand(t *thread) {
	t.wait = nil
	s.cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

// kill ends the execution: every other thread is woken to unwind.
//
//go:norace
func (s *Sched) kill(me *thread) {
	s.killing = true
	if me.done {
		s.next(me)
		return
	}
	panic(killed{})
}

//go:norace
func (s *Sched) next(me *thread) {
	for _, t := range s.threads {
		if t != me && !t.done {
			s.hand(t)
			return
		}
	}
	s.end()
}

// Block suspends the running thread until ready. Outside of an execution it
// must already be ready.
//
//go:norace
func Block(w Waiter) {
	if active == nil {
		if !w.Ready() {
			panic("mcsched: deadlock, nobody can release this lock")
		}
		return
	}
	s := active
	for !w.Ready() {
		me := s.cur
		me.wait = w
		s.decide(me, true)
		me.wait = nil
	}
}

// Yield is a scheduling point of the synchronisation primitives.
//
//go:norace
func Yield() {
	if active != nil {
		active.point(-1)
	}
}

// canSend and canReceive wait for a channel with a buffer. (For one without,
// or of several goroutines, the operation itself waits.)
type canSend struct{ v reflect.Value }
type canReceive struct{ v reflect.Value }

//go:norace
func (c canSend) Ready() bool {
	return c.v.IsNil() || c.v.Cap() == 0 || c.v.Len() < c.v.Cap()
}

//go:norace
func (c canReceive) Ready() bool {
	return c.v.IsNil() || c.v.Cap() == 0 || c.v.Len() > 0
}

// WaitSend is called before a statement that sends to the channel, and
// WaitReceive before one that receives from it.
//
//go:norace
func WaitSend(ch interface{}) {
	if active != nil {
		active.point(-1)
		Block(canSend{reflect.ValueOf(ch)})
	}
}

//go:norace
func WaitReceive(ch interface{}) {
	if active != nil {
		active.point(-1)
		Block(canReceive{reflect.ValueOf(ch)})
	}
}

// GoCall is Go of a call.
func GoCall(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		want := reflect.Type(nil)
		if t.IsVariadic() && i >= t.NumIn()-1 {
			want = t.In(t.NumIn() - 1).Elem()
		} else {
			want = t.In(i)
		}
		if in[i] = reflect.ValueOf(a); a == nil {
			in[i] = reflect.Zero(want)
		} else if !in[i].Type().AssignableTo(want) {
			in[i] = in[i].Convert(want)
		}
	}
	Go(func() { v.Call(in) })
}

// Go starts f as a further thread of the execution.
//
//go:norace
func Go(f func()) {
	if active == nil || len(active.threads) > 15 {
		go f()
		return
	}
	active.spawn(f)
}
