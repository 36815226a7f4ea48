// Package rt is the run-time part of the simulator: the cooperative scheduler
// that the instrumented library code calls into before every statement.
//
// Exactly one task goroutine runs at a time. Control moves from one task to
// another only inside Y, YH, Block or at the end of an operation, and always as
// decided by the Scheduler of the run. The hand-over uses plain variables and
// runtime.Gosched in functions the race detector does not see, so in a -race
// build the simulator adds no happens-before edges of its own between tasks.
package rt

import (
	"runtime"
	"sync"
	"unsafe"
)

const never = int64(1) << 62

// Exhausted is the value of the panic that ends a use of the library inside Quiet
// that does not come to an end.
const Exhausted = "step budget exhausted"

// Stuck is the value of the panic that ends a use of the library inside Quiet
// that waits for a task that never runs again.
const Stuck = "waits for ever for another goroutine"

// maxSpawn bounds the tasks started by the library itself in one run.
const maxSpawn = 64

// Reasons for entering the slow path of a yield.
const (
	EvYield   = iota // preemption point inside an operation
	EvOpEnd          // between two operations
	EvTaskEnd        // task finished, frozen or killed
	EvBlock          // task has to wait for another one
)

// Task states.
const (
	StReady = iota
	StDone
	StFrozen
	StDying
)

// Task is a simulated goroutine.
type Task struct {
	ID      int
	State   int
	OpID    int32 // operation being executed, 0 between operations
	LastOp  int32 // most recent operation
	OpSteps int64 // yields executed in the current operation
	Work    int64 // elements handled in the current operation by calls that are not instrumented
	Blocked bool
	Root    int // the task of the program that it belongs to

	// per-operation limits, set by BeginOp
	freezeAt int64
	budget   int64

	switchAt  int64
	blockStep int64
}

// Decision records a context switch.
type Decision struct {
	Task int   `json:"t"`  // task that was running, -1: start of the run
	Op   int32 `json:"op"` // its current or most recent operation
	At   int64 `json:"at"` // yields into the operation, -1: after it, -2: end of the task
	To   int   `json:"to"`
	Site int32 `json:"site,omitempty"`
}

// Strategy chooses preemption points and successors.
type Strategy interface {
	// NextSwitch returns the OpSteps value at which the task is preempted next.
	NextSwitch(t *Task) int64
	// Pick chooses the next task among the runnable ones.
	Pick(cur *Task, ev int, runnable []*Task) *Task
	// Hot is asked at memory-ordering relevant statements and tells whether to
	// preempt there.
	Hot(t *Task) bool
}

// Run is one simulated execution.
type Run struct {
	Tasks []*Task
	Strat Strategy

	Steps     int64 // total yields
	Switches  int64
	Inside    int64 // switches inside an operation
	Trace     []Decision
	TraceHash uint64

	FrozenCount   int
	Budgeted      []int // tasks that ran out of budget
	BudgetAt      int64 // steps made by the first of them
	Deadlocked    []int // tasks that waited for ever
	FreezeOnBlock bool
	BlockEvents   int64
	Spawned       int   // tasks started by the library
	SpawnPanic    any   // panic in one of them
	SpawnPanicOp  int32 // operation that started it

	spawnWG  sync.WaitGroup
	cur      *Task
	quiet    int
	killing  bool
	finished bool
	blockSeq int
	runnable []*Task
}

// R is the active run, nil when the library is used outside of a simulation.
var R *Run

// Extra is added to every step budget of the current run (very long keys).
var Extra int64

// steps/limit implement the fast path: a yield is a counter increment.
var steps, limit int64 = 0, never

var hotOn bool

// cur is the id of the task holding the token; -1: the main goroutine.
var token int = -1

// Y is called before every statement of the library.
//
//go:norace
//go:noinline
func Y(site int32) {
	steps++
	if steps >= limit {
		slow(site, false)
	}
}

// YH is called before statements that touch shared memory or channels.
//
//go:norace
//go:noinline
func YH(site int32) {
	steps++
	if steps >= limit || hotOn {
		slow(site, true)
	}
}

//go:norace
func setLimit(t *Task) {
	l := t.switchAt
	if t.budget < l {
		l = t.budget
	}
	if t.freezeAt < l {
		l = t.freezeAt
	}
	limit = l
}

//go:norace
func slow(site int32, hot bool) {
	r := R
	if r == nil || r.quiet > 0 {
		if steps >= limit {
			limit = never
			panic(Exhausted)
		}
		return
	}
	t := r.cur
	if t == nil || t.OpID == 0 {
		return
	}
	if t.State == StDying {
		// deferred functions of a killed task run to completion
		return
	}
	if r.killing {
		t.State = StDying
		steps = 0
		limit = never
		runtime.Goexit()
	}
	if steps >= t.budget {
		if len(r.Budgeted) == 0 {
			r.BudgetAt = steps
		}
		r.Budgeted = append(r.Budgeted, t.ID)
		t.OpSteps = steps
		t.State = StDying
		limit = never
		runtime.Goexit()
	}
	if steps >= t.freezeAt {
		t.OpSteps = steps
		t.State = StFrozen
		r.Steps += steps
		r.FrozenCount++
		t.freezeAt = never
		r.next(t, EvTaskEnd, site)
		// only comes back to be killed
		t.State = StDying
		steps = 0
		limit = never
		runtime.Goexit()
	}
	sw := false
	if steps >= t.switchAt {
		sw = true
	} else if hot && hotOn && r.Strat.Hot(t) {
		sw = true
	}
	if !sw {
		return
	}
	t.OpSteps = steps
	r.next(t, EvYield, site)
	if r.killing {
		t.State = StDying
		limit = never
		runtime.Goexit()
	}
	t.switchAt = r.Strat.NextSwitch(t)
	setLimit(t)
}

// next hands the token to the next task and returns when the caller's task is
// scheduled again (immediately if it is chosen itself).
//
//go:norace
func (r *Run) next(t *Task, ev int, site int32) {
	run := r.runnable[:0]
	for _, o := range r.Tasks {
		if o.State == StReady && !o.Blocked && (o != t || ev != EvTaskEnd) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		// everybody who could run is waiting: let them try again
		for _, o := range r.Tasks {
			if o.State == StReady && (o != t || ev != EvTaskEnd) {
				o.Blocked = false
				run = append(run, o)
			}
		}
	}
	r.runnable = run
	if len(run) == 0 {
		// nothing left to run, back to the main goroutine
		if t != nil {
			t.OpSteps = steps
		}
		r.finished = true
		r.give(t, -1)
		return
	}
	n := r.Strat.Pick(t, ev, run)
	r.record(t, ev, site, n)
	if n == t {
		return
	}
	if t != nil {
		t.OpSteps = steps
	}
	r.give(t, n.ID)
}

//go:norace
func (r *Run) record(t *Task, ev int, site int32, n *Task) {
	if n == t {
		return
	}
	r.Switches++
	var d Decision
	d.To = n.ID
	d.Site = site
	d.Task = -1
	if t != nil {
		d.Task = t.ID
		d.Op = t.LastOp
		d.At = At(t, ev)
		if ev == EvYield || ev == EvBlock {
			r.Inside++
		}
	}
	h := r.TraceHash
	h = (h ^ uint64(uint32(d.Op))) * 1099511628211
	h = (h ^ uint64(uint32(d.Site))) * 1099511628211
	h = (h ^ uint64(d.At)) * 1099511628211
	h = (h ^ uint64(uint32(d.To))) * 1099511628211
	r.TraceHash = h
	if len(r.Trace) < cap(r.Trace) {
		r.Trace = append(r.Trace, d)
	}
}

// At is the position recorded for a switch away from t.
//
//go:norace
func At(t *Task, ev int) int64 {
	if ev == EvOpEnd {
		return -1
	}
	if ev == EvTaskEnd && t.State != StFrozen {
		return -2
	}
	return t.OpSteps
}

//go:norace
func (r *Run) give(t *Task, to int) {
	if t == nil {
		token = to
		for token != -1 {
			runtime.Gosched()
		}
		r.cur = nil
		return
	}
	me := t.ID
	token = to
	if t.State == StDone || t.State == StDying {
		return
	}
	for token != me {
		runtime.Gosched()
	}
	r.cur = t
	steps = t.OpSteps
	if t.OpID == 0 {
		limit = never
	} else {
		setLimit(t)
	}
}

// Wait is the first thing a task goroutine does: it waits for its first turn.
//
//go:norace
func Wait(t *Task) {
	for token != t.ID {
		runtime.Gosched()
	}
	R.cur = t
	if R.killing {
		t.State = StDying
		runtime.Goexit()
	}
}

// Start runs the simulation until no task can run any more.
//
//go:norace
func (r *Run) Start() {
	R = r
	steps, limit = 0, never
	r.TraceHash = 14695981039346656037
	r.runnable = make([]*Task, 0, len(r.Tasks)+maxSpawn)
	r.Budgeted = make([]int, 0, len(r.Tasks)+maxSpawn)
	r.Deadlocked = make([]int, 0, len(r.Tasks)+maxSpawn)
	r.next(nil, EvTaskEnd, 0)
}

// Kill disposes of the tasks that are still there (frozen ones).
//
//go:norace
func (r *Run) Kill() {
	r.killing = true
	limit = 0
	for _, t := range r.Tasks {
		if t.State == StDone || t.State == StDying {
			continue
		}
		token = t.ID
		for token != -1 {
			runtime.Gosched()
		}
	}
	limit = never
	steps = 0
	R = nil
	r.cur = nil
	r.spawnWG.Wait()
}

// EndTask gives the token away for good. It is called from a deferred function,
// so it also runs when the task is killed.
//
//go:norace
func EndTask(t *Task) {
	r := R
	if r.killing {
		t.State = StDone
		token = -1
		return
	}
	t.State = StDone
	r.Steps += steps
	steps = 0
	limit = never
	r.next(t, EvTaskEnd, 0)
}

// BeginOp marks the start of a library operation.
//
//go:norace
func BeginOp(t *Task, id int32, freezeAt, budget int64) {
	t.OpID = id
	t.LastOp = id
	t.freezeAt = freezeAt
	if freezeAt <= 0 {
		t.freezeAt = never
	}
	t.budget = budget
	t.Work = 0
	t.blockStep = -1
	R.blockSeq = 0
	steps = 0
	t.OpSteps = 0
	t.switchAt = R.Strat.NextSwitch(t)
	setLimit(t)
}

// EndOp marks the end of a library operation and returns the steps it took.
//
//go:norace
func EndOp(t *Task) int64 {
	s := steps
	R.Steps += s
	steps = 0
	limit = never
	t.OpSteps = 0
	t.OpID = 0
	return s
}

// OpBoundary lets another task run between two operations of this one.
//
//go:norace
func OpBoundary(t *Task) {
	r := R
	r.next(t, EvOpEnd, 0)
	if r.killing {
		t.State = StDying
		runtime.Goexit()
	}
	steps = 0
	limit = never
}

// Quiet runs harness-internal uses of the library without preemption. It panics
// if they do not come to an end within a number of steps that is ample for a
// tree of the given size.
//
//go:norace
func Quiet(size int, f func()) {
	s, l := steps, limit
	steps, limit = 0, 500_000+5000*int64(size)+Extra
	if r := R; r != nil {
		r.quiet++
	}
	defer quietEnd(R, s, l)
	f()
}

//go:norace
func quietEnd(r *Run, s, l int64) {
	if r != nil {
		r.quiet--
	}
	steps, limit = s, l
}

// SetHot turns the extra preemption points at shared-memory statements on.
//
//go:norace
func SetHot(on bool) { hotOn = on }

// Block is called by the synchronisation shims when the running task has to wait
// for another one. It returns when it is worth trying again.
//
//go:norace
func Block() {
	r := R
	if r == nil || r.cur == nil {
		// nobody else can run
		limit = never
		panic(Stuck)
	}
	t := r.cur
	if t.State == StDying || r.killing {
		if t.State != StDying {
			t.State = StDying
			limit = never
		}
		runtime.Goexit()
	}
	q := r.quiet
	if q == 0 {
		r.BlockEvents++
		if r.FreezeOnBlock {
			// Freeze everybody else who is inside an operation: whoever is being
			// waited for never comes back. Goroutines started by the operation
			// itself belong to it.
			for _, o := range r.Tasks {
				if (o.Root != t.Root || o.LastOp != t.LastOp) && o.State == StReady && o.OpID != 0 && o.OpSteps > 0 {
					o.State = StFrozen
					r.FrozenCount++
				}
			}
		}
	}
	if t.blockStep == steps {
		r.blockSeq++
	} else {
		r.blockSeq = 0
	}
	t.blockStep = steps
	if r.blockSeq > 2*len(r.Tasks)+2 {
		if q > 0 {
			limit = never
			panic(Stuck)
		}
		r.Deadlocked = append(r.Deadlocked, t.ID)
		t.OpSteps = steps
		t.State = StDying
		limit = never
		runtime.Goexit()
	}
	t.Blocked = true
	s, l := steps, limit
	t.OpSteps = steps
	r.quiet = 0
	r.next(t, EvBlock, -1)
	r.quiet = q
	t.Blocked = false
	if r.killing {
		t.State = StDying
		limit = never
		runtime.Goexit()
	}
	if q > 0 {
		steps, limit = s, l
		return
	}
	setLimit(t)
}

// Unblock tells the scheduler that a resource was released.
//
//go:norace
func Unblock() {
	r := R
	if r == nil {
		return
	}
	for _, o := range r.Tasks {
		o.Blocked = false
	}
	r.blockSeq = 0
}

// Go runs a goroutine started by the library as a task of its own. Inside Quiet
// its body runs to completion at once, which is one of the legal schedules.
func Go(f func()) {
	r := R
	if r == nil || r.quiet > 0 || r.cur == nil || r.Spawned >= maxSpawn {
		f()
		return
	}
	t := r.spawn()
	r.spawnWG.Add(1)
	go func() {
		defer r.spawnWG.Done()
		defer EndTask(t)
		defer func() {
			if p := recover(); p != nil {
				spawnPanic(r, t, p)
			}
		}()
		Wait(t)
		spawnBegin(r, t)
		f()
	}()
}

//go:norace
func (r *Run) spawn() *Task {
	r.Spawned++
	p := r.cur
	t := &Task{ID: len(r.Tasks), Root: p.Root, OpID: p.LastOp, LastOp: p.LastOp, freezeAt: never, budget: p.budget, blockStep: -1}
	r.Tasks = append(r.Tasks, t)
	return t
}

//go:norace
func spawnBegin(r *Run, t *Task) {
	steps = 0
	t.OpSteps = 0
	t.switchAt = r.Strat.NextSwitch(t)
	setLimit(t)
}

//go:norace
func spawnPanic(r *Run, t *Task, p any) {
	if r.SpawnPanic == nil {
		r.SpawnPanic = p
		r.SpawnPanicOp = t.LastOp
	}
}

var resets []func()

// OnReset registers a function that restores package-level state of the library.
func OnReset(f func()) { resets = append(resets, f) }

// Reset restores the package-level state of the library to that of a new process.
func Reset() {
	offers = nil
	for _, f := range resets {
		f()
	}
}

// An offer is a value waiting in Send on an unbuffered channel.
type offer struct {
	ch    unsafe.Pointer
	c     any // chan T of capacity one that carries the value
	taken bool
	next  *offer
}

// offers are the pending sends of the current run. Two simulated tasks never wait
// in the real channel at the same time, so their rendezvous has to be simulated.
// A list: copying slices would be seen by the race detector.
var offers *offer

//go:norace
func takeOffer(ch unsafe.Pointer) *offer {
	for p := &offers; *p != nil; p = &(*p).next {
		if o := *p; o.ch == ch {
			o.taken = true
			*p = o.next
			return o
		}
	}
	return nil
}

//go:norace
func putOffer(ch unsafe.Pointer, c any) *offer {
	o := &offer{ch: ch, c: c}
	p := &offers
	for *p != nil {
		p = &(*p).next
	}
	*p = o
	return o
}

//go:norace
func (o *offer) carrier() any { return o.c }

//go:norace
func (o *offer) done() bool { return o.taken }

// Recv receives from a channel without blocking the whole simulation.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is Recv with the ok result.
func Recv2[T any](ch <-chan T) (T, bool) {
	for {
		if o := takeOffer(*(*unsafe.Pointer)(unsafe.Pointer(&ch))); o != nil {
			Unblock()
			return <-o.carrier().(chan T), true
		}
		select {
		case v, ok := <-ch:
			Unblock()
			return v, ok
		default:
			Block()
		}
	}
}

// Send sends to a channel without blocking the whole simulation.
func Send[T any](ch chan<- T, v T) {
	if ch != nil && cap(ch) == 0 {
		select {
		case ch <- v: // panics if the channel is closed
			return
		default:
		}
		c := make(chan T, 1)
		c <- v
		o := putOffer(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), c)
		Unblock()
		if r := R; r == nil || r.quiet > 0 {
			return // the receiver is the caller of Go
		}
		for !o.done() {
			Block()
		}
		return
	}
	for {
		select {
		case ch <- v:
			Unblock()
			return
		default:
			Block()
		}
	}
}
