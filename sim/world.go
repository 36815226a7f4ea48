package sim

import (
	"fmt"
	"sync"
	"sync/atomic"
	"weak"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"

	"verifsim/rt"
)

type tree = adaptive.RadixTree[any]

// Fault kinds, counted when they actually happen.
const (
	FAbort      = iota // transaction dropped with uncommitted writes
	FFreeze            // task frozen for ever inside an operation
	FStall             // task preempted inside an operation and kept off the processor
	FScribble          // caller overwrote a key buffer after the call
	FGuard             // key passed with spare capacity and guard bytes
	FShared            // key slice shared between tasks
	FAppend            // caller appended to a returned key
	FLateNotify        // notification issued after other operations of the same task
	FRepeatNtfy        // Notify without anything left to notify
	FRecommit          // commit of an already committed transaction
	FContinue          // transaction written to after a commit
	FConflict          // lost compare-and-swap of the head version
	FStaleBase         // transaction begun from a version that is not the latest
	FLateWatch         // watch registered on a version that already has successors
	FWalkStop          // walk stopped by its callback
	FWalkPanic         // callback of a walk panics
	FIterPause         // iterator left open across other operations
	FMove              // transaction handed to another task
	FCount
)

var FaultNames = [...]string{"txn_abort", "freeze_forever", "stall_inside_op", "scribble_key_buffer", "spare_capacity_guard", "shared_key_slice", "append_to_returned_key", "late_notify", "repeat_notify", "recommit", "continue_after_commit", "head_conflict", "stale_base", "late_watch", "walk_stopped", "callback_panics", "iterator_paused", "txn_moved_between_tasks"}

// Ver is a tree version with its model.
type Ver struct {
	id       int
	tree     *tree
	snap     Snap
	birth    []uint64
	in       *Edge // how it was derived
	sibs     int   // tracking transactions that notified from here
	kids     int
	noteFrom bool // a notification of a transaction begun here has started
	bad      bool // its contents were wrong from the start
}

// Edge is a committed step from one version to the next.
type Edge struct {
	from, to *Ver
	full     bool // every write of the step was tracked
	writes   map[string]bool
	started  bool
	done     bool
}

// TxnState is a transaction with its model.
type TxnState struct {
	tx        *adaptive.Txn[any]
	base      *Ver
	first     *Ver // base when the transaction, or the one it was cloned from, began
	m         map[string]any
	snap      Snap // cache of m
	snapOK    bool
	track     bool
	written   map[string]bool // since the last commit
	inherited bool            // carries writes of the transaction it was cloned from
	family    bool            // cloned, or a clone was made from it
	commits   int
	lastVer   *Ver
	pending   []*Edge // committed, not yet notified
	puts      []int   // values written since the last commit
	parents   []*Ver  // versions with commits not yet notified of the transaction it was cloned from
	opsSince  int     // operations since the last commit
	lin       int     // 1: head swap won, 2: lost
	notified  int
	watches   []*Watch // obtained since the last commit
	work      int      // keys written since the last notification, repetitions included
}

func (s *TxnState) snapshot() Snap {
	if !s.snapOK {
		s.snap = snapOf(s.m)
		s.snapOK = true
	}
	return s.snap
}

// olds are the versions that the next notification may compare with.
func (s *TxnState) olds() []*Ver {
	vs := append([]*Ver{}, s.parents...)
	for _, e := range s.pending {
		vs = append(vs, e.from)
	}
	return vs
}

func (s *TxnState) put(k string, v any) {
	if v != nil {
		s.puts = append(s.puts, number(v))
	}
	s.m[k] = v
	s.written[k] = true
	s.snapOK = false
}

func (s *TxnState) del(k string) {
	delete(s.m, k)
	s.written[k] = true
	s.snapOK = false
}

// Watch is a registered watch channel.
type Watch struct {
	ver    *Ver // nil if obtained inside a transaction that has not been committed since
	key    string
	prefix bool
	stored bool
	ch     <-chan struct{}
	closed bool
	op     int32
	// of a channel obtained inside a transaction
	base *Ver
	was  Snap  // what was watched at that time
	in   *Edge // the step that was committed then
}

type arena struct {
	buf  []byte
	want []byte
	op   int32
}

// World is the state shared by the tasks of a run. In a -race build the tasks
// share nothing but the atomic boards and read-only data.
type World struct {
	P     *Program
	race  bool
	run   *rt.Run
	strat rt.Strategy

	board [4]atomic.Pointer[Ver]
	mail  [4]atomic.Pointer[TxnState]

	sharedBufs map[string][]byte
	sharedBack []byte
	sharedWant []byte

	tasks         []*taskCtx
	wg            sync.WaitGroup
	viol          []*Violation
	stop          bool
	nVer          int
	watches       []*Watch
	edges         []*Edge
	arenas        []arena
	returned      []arena // keys
	notes         int
	curOp         int32
	born          []*Ver // versions to ask again at the end
	prefixDeleted bool   // a prefix delete has been started
	untracked     bool   // a clone without tracking has been committed
	blobs         []weak.Pointer[blob]
	maxKey        int // length of the longest key mentioned by the program
	maxSize       int // keys mentioned by the program, bounds the size of every version

	// statistics
	Stats RunStats
}

// RunStats describes a finished run.
type RunStats struct {
	Ops       int64
	Steps     int64
	Switches  int64
	Inside    int64
	TraceHash uint64
	Faults    [FCount]int64
	Kinds     [KindCount]int64
	Checks    int64
	Watches   int64
	Woken     int64
	Versions  int64
	MaxKeys   int
	Blocks    int64
	MaxOp     int64
	Released  int64
}

// Result of a run.
type Result struct {
	Stats RunStats
	Viol  []*Violation
	Trace []rt.Decision
	Cut   bool
}

type taskCtx struct {
	w      *World
	t      *rt.Task
	ops    []Op
	vers   [8]*Ver
	txns   [4]*TxnState
	iters  [4]*iterState
	faults [FCount]int64
	kinds  [KindCount]int64
	nOps   int64
	maxOp  int64
	sink   uint64
	steps  int64 // of the current operation
	units  int   // the number of keys it may pay for, -1 if any number
	done   bool  // all operations were executed
	given  int64 // the operation that last returned a key
	nGiven int   // the keys it returned
	end    KV    // what came with the end of an iteration
}

// traceBuf is reused by all runs; a run with more switches than that is recorded
// incompletely (Result.Cut).
var traceBuf = make([]rt.Decision, 0, 1<<20)

// Exec runs a program under a schedule: ds != nil replays it, otherwise the
// strategy is derived from seed.
func Exec(p *Program, seed uint64, ds []rt.Decision, race bool) *Result {
	rt.Reset()
	w := &World{P: p, race: race}
	w.maxSize, w.maxKey, rt.Extra = sizes(p)
	if !w.safeSetup() {
		return &Result{Stats: w.Stats, Viol: w.viol}
	}
	run := &rt.Run{FreezeOnBlock: p.FreezeOnBlock}
	run.Trace = traceBuf[:0]
	run.Tasks = make([]*rt.Task, 0, len(p.Tasks)+64)
	w.run = run
	hot := false
	if ds != nil {
		run.Strat = newReplayStrat(ds)
	} else {
		s, _ := NewRandStrat(seed, p)
		run.Strat = s
		hot = s.hotP > 0
	}
	w.strat = run.Strat
	for i, ops := range p.Tasks {
		t := &rt.Task{ID: i, Root: i}
		run.Tasks = append(run.Tasks, t)
		c := &taskCtx{w: w, t: t, ops: ops}
		c.vers[0] = w.board[0].Load()
		w.tasks = append(w.tasks, c)
	}
	rt.R = run
	rt.SetHot(hot)
	rt.CountWork(p.Prop == "C17" && !race)
	for _, c := range w.tasks {
		w.wg.Add(1)
		go c.main()
	}
	run.Start()
	rt.SetHot(false)
	rt.CountWork(false)
	if !race {
		w.finish()
	}
	run.Kill()
	w.wg.Wait()
	w.collect()
	if p.Prop == "C18" && len(w.viol) == 0 && !race {
		w.release()
	}
	return &Result{Stats: w.Stats, Viol: w.viol, Trace: append([]rt.Decision{}, run.Trace...), Cut: run.Switches > int64(len(run.Trace))}
}

func (c *taskCtx) main() {
	defer c.w.wg.Done()
	defer rt.EndTask(c.t)
	rt.Wait(c.t)
	for i := range c.ops {
		if !c.w.race && c.w.stop {
			return
		}
		c.exec(&c.ops[i])
	}
	c.done = true
}

// sizes returns a bound for the number of keys of every version, the length of the
// longest key, and what very long keys add to the step budgets.
func sizes(p *Program) (n, long int, extra int64) {
	n = len(p.Init)
	for i := range p.Init {
		long = max(long, len(p.Init[i].Key))
	}
	for _, t := range p.Tasks {
		for i := range t {
			n += 1 + len(t[i].Keys)
			long = max(long, len(t[i].Key))
			for _, k := range t[i].Keys {
				long = max(long, len(k))
			}
		}
	}
	if long > 64 {
		extra = 60 * int64(long) * int64(n+40)
	}
	return n, long, extra
}

// safeSetup reports false if the initial version could not even be built.
func (w *World) safeSetup() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			tags := []string{"C02", "panic"}
			if r == rt.Exhausted || r == rt.Stuck {
				tags = append(tags, "C15")
			}
			w.failNow(0, tags, "building the initial version panics: %v", r)
		}
	}()
	rt.Quiet(len(w.P.Init)+w.P.Age, w.setup)
	return true
}

func (w *World) setup() {
	// shared key slices, carved out of one buffer with guard bytes
	w.sharedBufs = map[string][]byte{}
	n := 0
	for _, p := range w.P.Probes {
		n += len(p) + 24
	}
	w.sharedBack = make([]byte, n+24)
	for i := range w.sharedBack {
		w.sharedBack[i] = 0xA5
	}
	pos := 8
	for _, p := range w.P.Probes {
		copy(w.sharedBack[pos:], p)
		w.sharedBufs[string(p)] = w.sharedBack[pos : pos+len(p) : pos+len(p)+16]
		pos += len(p) + 24
	}
	w.sharedWant = bcopy(w.sharedBack)

	t := adaptive.NewRadixTree[any]()
	if w.P.Age > 0 {
		n := 0
		if w.P.Age%2 == 1 {
			one := 600
			if w.P.Prop == "C17" {
				one = 6000
			}
			for ; n < one; n++ {
				t, _, _ = t.Insert([]byte("age"), n)
			}
		}
		tx := t.Txn()
		for ; n < w.P.Age; n++ {
			tx.Insert([]byte("age"), n)
		}
		tx.Delete([]byte("age"))
		t = tx.Commit()
	}
	tx := t.Txn()
	tx.TrackMutate(w.P.InitTrack)
	m := map[string]any{}
	for _, s := range w.P.Init {
		if s.Del {
			tx.Delete(bcopy(s.Key))
			delete(m, string(s.Key))
		} else {
			tx.Insert(bcopy(s.Key), w.give(s.Val))
			m[string(s.Key)] = val(s.Val)
		}
	}
	v := &Ver{tree: tx.Commit(), snap: snapOf(m)}
	w.nVer = 1
	if w.P.Birth && !w.race {
		v.birth = battery(v.tree, w.P.Probes)
	}
	if !w.race {
		w.checkContents(0, v, []string{"C02", "C04"})
	}
	for i := range w.board {
		w.board[i].Store(v)
	}
}

func (w *World) finish() {
	for _, id := range w.run.Budgeted {
		t := w.run.Tasks[id]
		op := w.tasks[t.Root].op(t.LastOp)
		tags := []string{"C15"}
		if w.run.FrozenCount == 0 {
			tags = append(tags, kindTags(op)...)
		}
		w.failNow(t.LastOp, tags, "%s did not finish within %d of its own steps", opName(op), w.run.BudgetAt)
	}
	for _, id := range w.run.Deadlocked {
		t := w.run.Tasks[id]
		op := w.tasks[t.Root].op(t.LastOp)
		w.failNow(t.LastOp, []string{"C15"}, "%s waits for ever for another goroutine (%d frozen)", opName(op), w.run.FrozenCount)
	}
	if w.run.SpawnPanic != nil {
		w.failNow(w.run.SpawnPanicOp, []string{"C02", "C16"}, "a goroutine started by the library panics: %v", w.run.SpawnPanic)
	}
	w.checkArenas()
	w.scanWatches(0)
	if w.P.Birth && len(w.viol) == 0 {
		for i := range w.board {
			v := w.board[i].Load()
			w.recheckQuiet(v)
		}
		for _, v := range w.born {
			w.recheckQuiet(v)
		}
	}
}

func (w *World) collect() {
	s := &w.Stats
	s.Steps = w.run.Steps
	s.Switches = w.run.Switches
	s.Inside = w.run.Inside
	s.TraceHash = w.run.TraceHash
	s.Blocks = w.run.BlockEvents
	for _, c := range w.tasks {
		s.Ops += c.nOps
		for i, n := range c.faults {
			s.Faults[i] += n
		}
		for i, n := range c.kinds {
			s.Kinds[i] += n
		}
		if c.maxOp > s.MaxOp {
			s.MaxOp = c.maxOp
		}
	}
	s.Faults[FFreeze] += int64(w.run.FrozenCount)
	if r, ok := w.strat.(*randStrat); ok {
		s.Faults[FStall] += r.Stall
	}
	s.Versions = int64(w.nVer)
	s.Watches = int64(len(w.watches))
	for _, x := range w.watches {
		if x.closed {
			s.Woken++
		}
	}
}

func (c *taskCtx) op(id int32) *Op {
	for i := range c.ops {
		if c.ops[i].ID == id {
			return &c.ops[i]
		}
	}
	return nil
}

func opName(o *Op) string {
	if o == nil {
		return "operation"
	}
	switch o.K {
	case TBulkIns, TBulkDel:
		return fmt.Sprintf("%s(%d keys)", o.K, len(o.Keys))
	}
	return fmt.Sprintf("%s(%s)", o.K, qk(o.Key))
}

func qk(k []byte) string {
	if len(k) > 40 {
		return fmt.Sprintf("%q...[%d]", k[:40], len(k))
	}
	return fmt.Sprintf("%q", k)
}

func (w *World) failNow(op int32, tags []string, f string, a ...any) {
	if len(w.viol) < 64 {
		w.viol = append(w.viol, &Violation{Tags: tags, Op: op, Msg: fmt.Sprintf(f, a...)})
	}
	for _, t := range tags {
		if t == w.P.Prop {
			w.stop = true
		}
	}
	if w.P.Prop == "C13" {
		w.stop = true
	}
}

// stuck records that reading the outcome of an operation has to wait for a
// goroutine that is frozen.
func (w *World) stuck(op int32) {
	w.failNow(op, []string{"C15"}, "a read %s", rt.Stuck)
}

// kindTags maps an operation to the properties its result belongs to.
func kindTags(o *Op) []string {
	if o == nil {
		return nil
	}
	switch o.K {
	case VDelPrefix, TDelPrefix:
		return []string{"C03"}
	case VWalk, VIter, TIter:
		return []string{"C06"}
	case VLB, TLB:
		if o.B == 1 {
			return []string{"C06", "C07"}
		}
		return []string{"C07"}
	case VRev, TRev:
		return []string{"C08"}
	case VLP, VPath, TLP, TPath:
		return []string{"C09"}
	case VMin, VMax, TMinMax:
		return []string{"C10"}
	case VNodes, TNodes:
		return []string{"C19"}
	case IOpen, INext:
		switch o.C {
		case itFwd, itPrefix:
			return []string{"C06"}
		case itLB:
			return []string{"C07"}
		case itLBAll:
			return []string{"C06", "C07"}
		case itPath:
			return []string{"C09"}
		default:
			return []string{"C08"}
		}
	case VWatch, VWatchP, TWatch, TWatchP:
		return []string{"C11"}
	case VRecheck:
		return []string{"C01"}
	case TClone:
		return []string{"C05"}
	case TCommit, TCommitOnly, TNotify, TLinear:
		return []string{"C16", "C02"}
	case TAbort:
		return []string{"C04"}
	case TRecheck:
		return []string{"C04"}
	}
	return []string{"C02"}
}

// checkContents compares a version with its model.
func (w *World) checkContents(op int32, v *Ver, tags []string) {
	var msg string
	func() {
		defer func() {
			if r := recover(); r == rt.Stuck {
				w.stuck(op)
			} else if r != nil {
				msg = fmt.Sprintf("panic while reading version: %v", r)
			}
		}()
		rt.Quiet(len(v.snap), func() { msg = w.diff(v.tree, v.snap) })
	}()
	w.Stats.Checks++
	if len(v.snap) > w.Stats.MaxKeys {
		w.Stats.MaxKeys = len(v.snap)
	}
	if msg != "" {
		v.bad = true
		w.failNow(op, tags, "committed version: %s", msg)
	}
}

// diff compares the contents of a tree with a model: length, lookup of every key
// and of the probe keys, forward iteration, and for C03 all other iterations. It
// returns "" if they agree.
func (w *World) diff(t *tree, s Snap) string {
	if t.Len() != len(s) {
		return fmt.Sprintf("length %d, want %d", t.Len(), len(s))
	}
	for _, kv := range s {
		v, ok := t.Get([]byte(kv.K))
		if !ok || !eq(v, kv.V) {
			return fmt.Sprintf("lookup of %s gives %v,%v, want %v,true", qk([]byte(kv.K)), v, ok, kv.V)
		}
	}
	for _, p := range w.P.Probes {
		v, ok := t.Get(p)
		x, xok := s.get(string(p))
		if ok != xok || !eq(v, x) {
			return fmt.Sprintf("lookup of %s gives %v,%v, want %v,%v", qk(p), v, ok, x, xok)
		}
	}
	it := t.Root().Iterator()
	it.SeekPrefix(nil)
	if d := diffSeq(it.Next, s); d != "" || w.P.Prop != "C03" {
		return d
	}
	if d := diffSeq(t.Root().ReverseIterator().Previous, s.rev()); d != "" {
		return "reverse " + d
	}
	for i := 0; i < 2 && len(w.P.Probes) > 0; i++ {
		p := w.P.Probes[(len(s)*2+i)%len(w.P.Probes)]
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound(p)
		if d := diffSeq(it.Next, s.from(string(p))); d != "" {
			return "lower-bound " + d
		}
		if d := diffSeq(t.Root().PathIterator(p).Next, s.prefixesOf(string(p))); d != "" {
			return "path " + d
		}
		ri := t.Root().ReverseIterator()
		ri.SeekReverseLowerBound(p)
		if d := diffSeq(ri.Previous, s.upTo(string(p)).rev()); d != "" {
			return "reverse lower-bound " + d
		}
	}
	return ""
}

func diffSeq(next func() ([]byte, any, bool), s Snap) string {
	for i := 0; ; i++ {
		k, v, ok := next()
		if !ok {
			if i != len(s) {
				return fmt.Sprintf("iteration ends after %d keys, want %d (next %s)", i, len(s), qk([]byte(s[i].K)))
			}
			return ""
		}
		if i >= len(s) {
			return fmt.Sprintf("iteration yields %s after the last key", qk(k))
		}
		if !sameKey(k, s[i].K) || !eq(v, s[i].V) {
			return fmt.Sprintf("iteration yields %s=%v at position %d, want %s=%v", qk(k), v, i, qk([]byte(s[i].K)), s[i].V)
		}
	}
}

type hasher uint64

func (h *hasher) u(x uint64) {
	for i := 0; i < 8; i++ {
		*h = (*h ^ hasher(x&255)) * 1099511628211
		x >>= 8
	}
}

func (h *hasher) kv(k []byte, v any, ok bool) {
	if !ok {
		h.u(0xdead)
		return
	}
	for _, b := range k {
		*h = (*h ^ hasher(b)) * 1099511628211
	}
	h.u(uint64(len(k)))
	switch x := v.(type) {
	case int:
		h.u(uint64(x))
	case odd:
		h.u(uint64(x.n))
	default:
		h.u(0xbeef)
	}
}

var batteryNames = []string{"Len", "Walk", "forward iteration", "reverse iteration", "Minimum", "Maximum", "lookups", "longest prefixes", "lower bounds", "reverse lower bounds", "prefix iterations", "path iterations"}

// battery asks a version a fixed set of questions and returns a fingerprint of
// each answer.
func battery(t *tree, probes [][]byte) []uint64 {
	out := make([]uint64, 0, len(batteryNames))
	add := func(f func(h *hasher)) {
		h := hasher(14695981039346656037)
		f(&h)
		out = append(out, uint64(h))
	}
	if len(probes) > 8 {
		probes = probes[:8]
	}
	seq := func(h *hasher, next func() ([]byte, any, bool), max int) {
		for i := 0; i < max; i++ {
			k, v, ok := next()
			h.kv(k, v, ok)
			if !ok {
				return
			}
		}
	}
	const all = 1 << 20
	add(func(h *hasher) { h.u(uint64(t.Len())) })
	add(func(h *hasher) {
		t.Walk(func(k []byte, v any) bool {
			h.kv(k, v, true)
			return false
		})
	})
	add(func(h *hasher) {
		it := t.Root().Iterator()
		it.SeekPrefix(nil)
		seq(h, it.Next, all)
	})
	add(func(h *hasher) { seq(h, t.Root().ReverseIterator().Previous, all) })
	add(func(h *hasher) { h.kv(leafKV(t.Minimum())) })
	add(func(h *hasher) { h.kv(leafKV(t.Maximum())) })
	add(func(h *hasher) {
		for _, p := range probes {
			v, ok := t.Get(p)
			h.kv(p, v, ok)
		}
	})
	add(func(h *hasher) {
		for _, p := range probes {
			h.kv(t.LongestPrefix(p))
		}
	})
	add(func(h *hasher) {
		for _, p := range probes {
			it := t.Root().LowerBoundIterator()
			it.SeekLowerBound(p)
			seq(h, it.Next, 3)
		}
	})
	add(func(h *hasher) {
		for _, p := range probes {
			it := t.Root().ReverseIterator()
			it.SeekReverseLowerBound(p)
			seq(h, it.Previous, 3)
		}
	})
	add(func(h *hasher) {
		for _, p := range probes {
			it := t.Root().Iterator()
			it.SeekPrefix(p)
			seq(h, it.Next, 5)
		}
	})
	add(func(h *hasher) {
		for i := 0; i < 2 && i < len(probes); i++ {
			seq(h, t.Root().PathIterator(probes[i]).Next, all)
		}
	})
	return out
}

func leafKV(l *adaptive.NodeLeaf[any]) ([]byte, any, bool) {
	if l == nil {
		return nil, nil, false
	}
	it := l.Iterator()
	it.SeekPrefix(nil)
	return it.Next()
}

func diffBattery(a, b []uint64) string {
	for i := range a {
		if a[i] != b[i] {
			return batteryNames[i]
		}
	}
	return ""
}

// recheckTags are the properties violated by a version whose answers changed.
func (w *World) recheckTags() []string {
	t := []string{"C01", "C04"}
	if w.prefixDeleted {
		t = append(t, "C03")
	}
	return t
}

func (w *World) recheckQuiet(v *Ver) {
	var got []uint64
	var p any
	func() {
		defer func() { p = recover() }()
		rt.Quiet(len(v.snap), func() { got = battery(v.tree, w.P.Probes) })
	}()
	if p == rt.Stuck {
		w.stuck(0)
		return
	}
	if p != nil {
		w.failNow(0, w.recheckTags(), "version %d: panic when asked again: %v", v.id, p)
		return
	}
	if d := diffBattery(v.birth, got); d != "" {
		w.failNow(0, w.recheckTags(), "version %d: %s answers differently than when the version was created", v.id, d)
	}
}
