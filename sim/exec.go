package sim

import (
	"errors"
	"fmt"
	"strings"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"

	"verifsim/rt"
)

// Iterator kinds of IOpen.
const (
	itFwd = iota
	itPrefix
	itLB
	itRev
	itRevPrefix
	itRevLB
	itPath
	itLBAll // lower-bound iterator that was not seeked
	itKinds
)

var itNames = [...]string{"forward", "prefix", "lower-bound", "reverse", "reverse prefix", "reverse lower-bound", "path", "not seeked lower-bound"}

type iterState struct {
	next func() ([]byte, any, bool)
	want Snap
	pos  int
	kind int
	ends int
	ver  *Ver
	lock int64 // operations of the task when it was last advanced
}

const bigBudget = 300_000

// do runs one library operation under the scheduler. It reports whether it
// panicked.
func (c *taskCtx) do(o *Op, size int, f func()) (bad bool) {
	c.nOps++
	c.kinds[o.K]++
	budget := int64(bigBudget) + 1500*int64(size+c.w.maxSize) + rt.Extra
	if c.w.race {
		budget = 1<<25 + rt.Extra
	}
	var p any
	func() {
		defer func() {
			if p = recover(); p != nil {
				bad = true
			}
		}()
		rt.BeginOp(c.t, o.ID, o.Freeze, budget)
		f()
	}()
	n := rt.EndOp(c.t)
	if !bad {
		c.steps += n + c.t.Work
	}
	if n > c.maxOp {
		c.maxOp = n
	}
	if bad && !c.w.race {
		c.w.failNow(o.ID, append([]string{"panic"}, kindTags(o)...), "%s panics: %v", opName(o), p)
	}
	return bad
}

func (c *taskCtx) fail(o *Op, tags []string, f string, a ...any) {
	c.w.failNow(o.ID, tags, "%s: %s", opName(o), fmt.Sprintf(f, a...))
}

// key prepares the slice passed to the library and returns a function to call
// after the operation.
func (c *taskCtx) key(o *Op, k []byte) ([]byte, func()) {
	nop := func() {}
	mode := o.Buf
	if c.w.P.PlainBuffers {
		mode = BufExact
	}
	switch mode {
	case BufGuard, BufScribble:
		back := make([]byte, len(k)+24)
		for i := range back {
			back[i] = 0xA5
		}
		copy(back[8:], k)
		s := back[8 : 8+len(k) : 8+len(k)+16]
		c.faults[FGuard]++
		want := bcopy(back)
		return s, func() {
			if !c.w.race && string(want) != string(back) {
				c.fail(o, []string{"C13"}, "wrote to the caller's buffer: %x became %x", want, back)
			}
			if mode == BufScribble {
				c.faults[FScribble]++
				for i := range back {
					back[i] = 0x5A ^ byte(i*37)
				}
				if !c.w.race {
					c.w.arenas = append(c.w.arenas, arena{back, bcopy(back), o.ID})
				}
			}
		}
	case BufShared:
		if s, ok := c.w.sharedBufs[string(k)]; ok {
			c.faults[FShared]++
			return s, func() {
				if !c.w.race {
					c.w.checkShared(o)
				}
			}
		}
	}
	return bcopy(k), nop
}

func (w *World) checkShared(o *Op) {
	if string(w.sharedWant) != string(w.sharedBack) {
		w.failNow(o.ID, []string{"C13"}, "%s: wrote to a key slice (or beyond it) shared by its callers", opName(o))
		copy(w.sharedBack, w.sharedWant)
	}
}

func (w *World) checkArenas() {
	for _, a := range w.returned {
		if string(a.buf) != string(a.want) {
			w.failNow(a.op, []string{"C13"}, "operation %d: the key %s it returned has become %s", a.op, qk(a.want), qk(a.buf))
			return
		}
	}
	for _, a := range w.arenas {
		if string(a.buf) != string(a.want) {
			w.failNow(a.op, []string{"C13"}, "operation %d: the library wrote to the caller's buffer after the call had returned", a.op)
			return
		}
	}
}

// use reads a returned key (and appends to it if the operation says so). Some are
// kept until the end.
func (c *taskCtx) use(o *Op, k []byte) {
	if !c.w.race && len(k) > 0 && len(c.w.returned) < 1000 {
		if c.given != c.nOps {
			c.given, c.nGiven = c.nOps, 0
		}
		if c.nGiven++; c.nGiven < 8 {
			c.w.returned = append(c.w.returned, arena{k, bcopy(k), o.ID})
		}
	}
	if o.Buf == BufAppend && !c.w.P.PlainBuffers {
		c.faults[FAppend]++
		if c.w.race {
			// Two callers who append to the same key are on their own
			k = k[:len(k):len(k)]
		}
		k2 := append(k, 0xEE, 0xEE, 0xEE)
		c.sink += uint64(len(k2))
	}
	for _, b := range k {
		c.sink += uint64(b)
	}
}

// seq drains an iterator. It asks twice more after the end.
func (c *taskCtx) seq(o *Op, next func() ([]byte, any, bool), max int) (Snap, bool) {
	var out Snap
	c.end = KV{}
	for {
		k, v, ok := next()
		if !ok {
			c.end = KV{string(k), v}
			break
		}
		c.use(o, k)
		out = append(out, KV{string(k), v})
		if len(out) > max {
			return out, true
		}
	}
	for i := 0; i < 2; i++ {
		if k, v, ok := next(); ok {
			out = append(out, KV{string(k), v})
			return out, false
		}
	}
	return out, true
}

func (c *taskCtx) cmpSeq(o *Op, what string, got Snap, ended bool, want Snap) {
	if c.w.race {
		return
	}
	c.w.Stats.Checks++
	tags := kindTags(o)
	if !ended {
		c.fail(o, tags, "%s goes on after reporting its end", what)
		return
	}
	for i := range got {
		if i >= len(want) {
			c.fail(o, tags, "%s yields %s after the last expected key (%d expected)", what, qk([]byte(got[i].K)), len(want))
			return
		}
		if !got[i].eq(want[i]) {
			c.fail(o, tags, "%s yields %s=%v at position %d, want %s=%v", what, qk([]byte(got[i].K)), got[i].V, i, qk([]byte(want[i].K)), want[i].V)
			return
		}
	}
	if len(got) < len(want) {
		c.fail(o, tags, "%s ends after %d keys, want %d (next %s)", what, len(got), len(want), qk([]byte(want[len(got)].K)))
	}
}

func (c *taskCtx) newVer(o *Op, t *tree, snap Snap, in *Edge, tags ...string) *Ver {
	v := &Ver{tree: t, snap: snap, in: in}
	if c.w.race {
		return v
	}
	v.id = c.w.nVer
	c.w.nVer++
	if in != nil {
		in.to = v
		in.from.kids++
	}
	c.w.checkContents(o.ID, v, tags)
	if c.w.P.Birth {
		func() {
			defer func() {
				if r := recover(); r == rt.Stuck {
					c.w.stuck(o.ID)
				} else if r != nil {
					c.w.failNow(o.ID, []string{"C02"}, "panic while reading a new version: %v", r)
				}
			}()
			rt.Quiet(len(snap), func() { v.birth = battery(t, c.w.P.Probes) })
			if len(c.w.born) < 64 && (len(snap) < 1000 || len(c.w.born) < 8) {
				c.w.born = append(c.w.born, v)
			}
		}()
	}
	return v
}

func (c *taskCtx) exec(o *Op) {
	if c.exec2(o) {
		if !c.w.race {
			c.w.scanWatches(o.ID)
		}
		rt.OpBoundary(c.t)
	}
}

// exec2 catches panics of the library in harness-internal uses around the
// operation proper.
func (c *taskCtx) exec2(o *Op) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = true
			rt.EndOp(c.t)
			if r == rt.Stuck {
				c.w.stuck(o.ID)
			} else if !c.w.race {
				c.w.failNow(o.ID, append([]string{"panic"}, kindTags(o)...), "%s: panic while checking its result: %v", opName(o), r)
			}
		}
	}()
	c.steps, c.units = 0, 1
	ok = c.exec1(o)
	if !c.w.race && c.w.P.Prop == "C17" && c.units >= 0 && len(c.w.viol) == 0 {
		c.cost(o)
	}
	return ok
}

// stepsPerByte is what an operation may cost per byte of a key.
const stepsPerByte = 2000

// cost compares the number of steps an operation took with the number of keys it
// was about.
func (c *taskCtx) cost(o *Op) {
	c.w.Stats.Checks++
	if limit := stepsPerByte * int64(c.w.maxKey+2) * int64(c.units); c.steps > limit {
		c.fail(o, []string{"C17"}, "took %d steps for %d keys of at most %d bytes, more than %d", c.steps, c.units, c.w.maxKey, limit)
	}
}

func (c *taskCtx) treeOf(o *Op) (t *tree, s Snap, ok bool) {
	switch o.K {
	case TIter, TRev, TLB, TMinMax, TLP, TPath, TLen, TRecheck, TGet, TWatch, TNodes, TWatchP:
		x := c.txns[o.A&3]
		if x == nil {
			return nil, nil, false
		}
		if !c.w.race {
			s = x.snapshot()
		}
		return x.tx.GetTree(), s, true
	}
	v := c.vers[o.A&7]
	if v == nil {
		return nil, nil, false
	}
	return v.tree, v.snap, true
}

// exec1 executes an operation; false if it was not applicable.
func (c *taskCtx) exec1(o *Op) bool {
	w := c.w
	switch o.K {
	case VLoad:
		v := w.board[o.B&3].Load()
		c.vers[o.A&7] = v
		return c.note(o)
	case VPub:
		v := c.vers[o.A&7]
		if v == nil || w.P.Linear {
			return false
		}
		w.board[o.B&3].Store(v)
		return c.note(o)
	case VClone:
		v := c.vers[o.A&7]
		if v == nil {
			return false
		}
		var t *tree
		if c.do(o, len(v.snap), func() { t = v.tree.Clone() }) {
			return true
		}
		e := &Edge{from: v}
		n := c.newVer(o, t, v.snap, e, "C02")
		if !w.race && n.birth != nil {
			if d := diffBattery(v.birth, n.birth); d != "" {
				c.fail(o, []string{"C01"}, "%s of the clone answers differently than the original", d)
			}
		}
		c.vers[o.B&7] = n
		return true
	case VInsert, VDelete, VDelPrefix:
		return c.oneShot(o)
	case VGet, TGet, VWatch, TWatch:
		return c.get(o)
	case VLen, TLen:
		t, s, ok := c.treeOf(o)
		if !ok {
			return false
		}
		n := 0
		if c.do(o, len(s), func() { n = t.Len() }) || w.race {
			return true
		}
		w.Stats.Checks++
		if n != len(s) {
			c.fail(o, []string{"C02"}, "length %d, want %d", n, len(s))
		}
		return true
	case VWalk:
		v := c.vers[o.A&7]
		if v == nil {
			return false
		}
		var got Snap
		limit := 2*len(v.snap) + 16
		if w.race {
			limit = 1 << 30
		}
		quit := o.B == 3 && (o.N == 0 || o.N <= len(v.snap)) && len(v.snap) > 0
		bad := c.do(o, len(v.snap), func() {
			if quit {
				defer func() {
					if r := recover(); r != nil && r != errCallback {
						panic(r)
					}
				}()
			}
			if o.B == 2 {
				nodes := 0
				v.tree.DFS(func(adaptive.Node[any]) { nodes++ })
			}
			v.tree.Walk(func(k []byte, x any) bool {
				if o.B == 1 && len(got)%8 == 0 {
					c.nested(o, v, k, x)
				}
				c.use(o, k)
				got = append(got, KV{string(k), x})
				if quit && len(got) >= max(o.N, 1) {
					panic(errCallback)
				}
				return o.N > 0 && len(got) >= o.N || len(got) > limit
			})
		})
		c.units = 1 + 2*len(got)
		if o.B == 2 {
			c.units = -1
		}
		if bad || w.race {
			return true
		}
		want := v.snap
		if o.N > 0 && o.N <= len(want) {
			want = want[:o.N]
			c.faults[FWalkStop]++
		} else if quit {
			want = want[:1]
		}
		if quit {
			c.faults[FWalkPanic]++
		}
		c.cmpSeq(o, "walk", got, true, want)
		return true
	case VMin, VMax, TMinMax:
		t, s, ok := c.treeOf(o)
		if !ok {
			return false
		}
		min := o.K == VMin || o.K == TMinMax && o.B == 0
		var k []byte
		var x any
		var found bool
		bad := c.do(o, len(s), func() {
			if min {
				k, x, found = leafKV(t.Minimum())
			} else {
				k, x, found = leafKV(t.Maximum())
			}
		})
		c.use(o, k)
		if bad || w.race {
			return true
		}
		w.Stats.Checks++
		if len(s) == 0 {
			if found {
				c.fail(o, []string{"C10"}, "empty tree gives %s", qk(k))
			}
			return true
		}
		e := s[0]
		if !min {
			e = s[len(s)-1]
		}
		if !found || !sameKey(k, e.K) || !eq(x, e.V) {
			c.fail(o, []string{"C10"}, "gives %s=%v,%v, want %s=%v", qk(k), x, found, qk([]byte(e.K)), e.V)
		}
		return true
	case VLP, TLP:
		return c.longest(o)
	case VIter, VLB, VRev, VPath, TIter, TRev, TLB, TPath:
		return c.iterate(o)
	case VRecheck:
		v := c.vers[o.A&7]
		if v == nil || !w.race && v.birth == nil {
			return false
		}
		var got []uint64
		c.units = -1
		if c.do(o, len(v.snap)*4, func() { got = battery(v.tree, w.P.Probes) }) || w.race {
			return true
		}
		w.Stats.Checks++
		if d := diffBattery(v.birth, got); d != "" {
			c.fail(o, w.recheckTags(), "version %d: %s answers differently than when the version was created", v.id, d)
		}
		return true
	case VNodes, TNodes:
		return c.nodes(o)
	case VWatchP, TWatchP:
		return c.watchPrefix(o)
	case IOpen:
		return c.iopen(o)
	case INext:
		return c.inext(o)
	}
	return c.execTxn(o)
}

// errCallback is what callbacks panic with.
var errCallback = errors.New("callback")

// note counts a harness-only operation.
func (c *taskCtx) note(o *Op) bool {
	c.kinds[o.K]++
	c.nOps++
	rt.BeginOp(c.t, o.ID, 0, 1<<60)
	rt.EndOp(c.t)
	return true
}

func (c *taskCtx) oneShot(o *Op) bool {
	w := c.w
	v := c.vers[o.A&7]
	if v == nil {
		return false
	}
	key, after := c.key(o, o.Key)
	if o.K == VDelPrefix && !w.race {
		w.prefixDeleted = true
	}
	var nt *tree
	var old any
	var ok bool
	bad := c.do(o, len(v.snap), func() {
		switch o.K {
		case VInsert:
			nt, old, ok = v.tree.Insert(key, w.give(o.Val))
		case VDelete:
			nt, old, ok = v.tree.Delete(key)
		default:
			nt, ok = v.tree.DeletePrefix(key)
		}
	})
	after()
	if bad {
		return true
	}
	if w.race {
		c.vers[o.B&7] = c.newVer(o, nt, nil, nil)
		return true
	}
	w.Stats.Checks++
	k := string(o.Key)
	m := v.snap.mapOf()
	wold, wok := m[k]
	e := &Edge{from: v, writes: map[string]bool{}}
	tag := "C02"
	switch o.K {
	case VInsert:
		m[k] = val(o.Val)
	case VDelete:
		delete(m, k)
	default:
		tag = "C03"
		wold, old = nil, nil
		wok = false
		for x := range m {
			if strings.HasPrefix(x, k) {
				delete(m, x)
				c.units++
				wok = true
			}
		}
	}
	if ok != wok || !eq(old, wold) {
		c.fail(o, []string{tag}, "returned %v,%v, want %v,%v", old, ok, wold, wok)
	}
	tags := []string{tag}
	if !v.bad {
		tags = append(tags, "C04")
	}
	c.vers[o.B&7] = c.newVer(o, nt, snapOf(m), e, tags...)
	return true
}

func (c *taskCtx) get(o *Op) bool {
	w := c.w
	t, s, ok := c.treeOf(o)
	if !ok {
		return false
	}
	key, after := c.key(o, o.Key)
	var got any
	var found bool
	var ch <-chan struct{}
	bad := c.do(o, len(s), func() {
		switch o.K {
		case VGet:
			got, found = t.Get(key)
		case TGet:
			got, found = c.txns[o.A&3].tx.Get(key)
		case VWatch:
			ch, got, found = t.GetWatch(key)
		case TWatch:
			ch, got, found = c.txns[o.A&3].tx.GetWatch(key)
		}
	})
	after()
	if bad || w.race {
		if ch != nil {
			select {
			case <-ch:
				c.sink++
			default:
			}
		}
		return true
	}
	w.Stats.Checks++
	want, wok := s.get(string(o.Key))
	if found != wok || !eq(got, want) {
		tags := []string{"C02"}
		if o.K == TGet || o.K == TWatch {
			tags = append(tags, "C04")
			if c.txns[o.A&3].family {
				tags = append(tags, "C05")
			}
		}
		if ch != nil {
			tags = append(tags, "C11")
		}
		c.fail(o, tags, "lookup gives %v,%v, want %v,%v", got, found, want, wok)
	}
	if o.K == VWatch {
		c.register(o, c.vers[o.A&7], ch, false, wok)
	} else if o.K == TWatch {
		c.registerTxn(o, c.txns[o.A&3], ch, false, wok)
	}
	return true
}

func (c *taskCtx) longest(o *Op) bool {
	t, s, ok := c.treeOf(o)
	if !ok {
		return false
	}
	key, after := c.key(o, o.Key)
	var k []byte
	var got any
	var found bool
	bad := c.do(o, len(s), func() {
		if o.K == TLP {
			k, got, found = c.txns[o.A&3].tx.LongestPrefix(key)
		} else {
			k, got, found = t.LongestPrefix(key)
		}
	})
	c.use(o, k)
	if bad || c.w.race {
		after()
		return true
	}
	c.w.Stats.Checks++
	ps := s.prefixesOf(string(o.Key))
	if len(ps) == 0 {
		if found || len(k) > 0 || got != nil {
			c.fail(o, []string{"C09"}, "gives %s=%v,%v, want no match", qk(k), got, found)
		}
		after()
		return true
	}
	e := ps[len(ps)-1]
	if !found || !sameKey(k, e.K) || !eq(got, e.V) {
		c.fail(o, []string{"C09"}, "gives %s=%v,%v, want %s=%v", qk(k), got, found, qk([]byte(e.K)), e.V)
	}
	after()
	return true
}

// open makes an iterator and says what it has to yield.
func openIter(root adaptive.Node[any], s Snap, kind int, key []byte, k string, race bool) (func() ([]byte, any, bool), Snap) {
	var next func() ([]byte, any, bool)
	want := s
	switch kind {
	case itFwd:
		next = root.Iterator().Next
	case itPrefix:
		it := root.Iterator()
		if len(k)%2 == 0 {
			it.SeekPrefix(key)
		} else {
			it.SeekPrefixWatch(key)
		}
		next = looking(it, k)
		want = s.prefix(k)
	case itLB:
		it := root.LowerBoundIterator()
		it.SeekLowerBound(key)
		next = looking(it, k)
		want = s.from(k)
	case itRev:
		next = root.ReverseIterator().Previous
		want = s.rev()
	case itRevPrefix:
		it := root.ReverseIterator()
		if len(k)%2 == 0 {
			it.SeekPrefix(key)
		} else {
			it.SeekPrefixWatch(key)
		}
		next = it.Previous
		want = s.prefix(k).rev()
	case itRevLB:
		it := root.ReverseIterator()
		it.SeekReverseLowerBound(key)
		next = it.Previous
		want = s.upTo(k).rev()
	case itPath:
		next = root.PathIterator(key).Next
		want = s.prefixesOf(k)
	case itLBAll:
		next = root.LowerBoundIterator().Next
	}
	return next, want
}

// looking is the iteration with, for some keys, a look at the position before each
// step, which must not make a difference.
func looking(it interface {
	Front() adaptive.Node[any]
	Path() string
	Next() ([]byte, any, bool)
}, k string) func() ([]byte, any, bool) {
	if len(k)%3 != 1 {
		return it.Next
	}
	return func() ([]byte, any, bool) {
		it.Front()
		it.Path()
		return it.Next()
	}
}

func (o *Op) iterKind() int {
	switch o.K {
	case VIter, TIter:
		if o.B == 0 {
			return itFwd
		}
		return itPrefix
	case VLB, TLB:
		if o.B == 1 {
			return itLBAll
		}
		return itLB
	case VRev, TRev:
		switch o.B {
		case 0:
			return itRev
		case 1:
			return itRevPrefix
		}
		return itRevLB
	case VPath, TPath:
		return itPath
	}
	return o.C
}

func (c *taskCtx) iterate(o *Op) bool {
	t, s, ok := c.treeOf(o)
	if !ok {
		return false
	}
	key, after := c.key(o, o.Key)
	kind := o.iterKind()
	var got, want Snap
	var ended bool
	max := 2*len(s) + 16
	if c.w.race {
		max = 1 << 30
	}
	bad := c.do(o, len(s)*2, func() {
		var next func() ([]byte, any, bool)
		if kind == itPath && o.K == VPath {
			next, want = t.GetPathIterator(key).Next, s.prefixesOf(string(o.Key))
		} else {
			next, want = openIter(t.Root(), s, kind, key, string(o.Key), c.w.race)
		}
		got, ended = c.seq(o, next, max)
	})
	c.units = 1 + len(got)
	after()
	if !bad {
		c.cmpSeq(o, itNames[kind]+" iteration", got, ended, want)
		if !c.w.race && (c.end.K != "" || c.end.V != nil) {
			c.fail(o, kindTags(o), "%s iteration reports its end with %s=%v", itNames[kind], qk([]byte(c.end.K)), c.end.V)
		}
	}
	return true
}

func (c *taskCtx) iopen(o *Op) bool {
	v := c.vers[o.B&7]
	if v == nil {
		return false
	}
	key, after := c.key(o, o.Key)
	st := &iterState{kind: o.C, ver: v}
	bad := c.do(o, len(v.snap), func() {
		st.next, st.want = openIter(v.tree.Root(), v.snap, o.C, key, string(o.Key), c.w.race)
	})
	after()
	st.lock = c.nOps
	if bad {
		st = nil
	}
	c.iters[o.A&3] = st
	return true
}

func (c *taskCtx) inext(o *Op) bool {
	st := c.iters[o.A&3]
	if st == nil {
		return false
	}
	if c.nOps > st.lock {
		c.faults[FIterPause]++
	}
	var got Snap
	oks := make([]bool, 0, o.N)
	o2 := *o
	o2.C = st.kind
	bad := c.do(&o2, len(st.want), func() {
		for i := 0; i < o.N; i++ {
			k, v, ok := st.next()
			c.use(o, k)
			got = append(got, KV{string(k), v})
			oks = append(oks, ok)
			if !ok && i > 1 {
				break
			}
		}
	})
	st.lock = c.nOps
	c.units = len(oks)
	if bad {
		c.iters[o.A&3] = nil
		return true
	}
	if c.w.race {
		return true
	}
	c.w.Stats.Checks++
	for i := range got {
		if st.pos >= len(st.want) {
			if oks[i] {
				c.fail(&o2, kindTags(&o2), "open %s iterator yields %s after its end (%d expected)", itNames[st.kind], qk([]byte(got[i].K)), len(st.want))
				c.iters[o.A&3] = nil
				return true
			}
			if got[i].K != "" || got[i].V != nil {
				c.fail(&o2, kindTags(&o2), "open %s iterator reports its end with %s=%v", itNames[st.kind], qk([]byte(got[i].K)), got[i].V)
			}
			continue
		}
		e := st.want[st.pos]
		if !oks[i] {
			c.fail(&o2, kindTags(&o2), "open %s iterator ends after %d keys, want %d (next %s)", itNames[st.kind], st.pos, len(st.want), qk([]byte(e.K)))
			c.iters[o.A&3] = nil
			return true
		}
		if !got[i].eq(e) {
			c.fail(&o2, kindTags(&o2), "open %s iterator yields %s=%v at position %d, want %s=%v", itNames[st.kind], qk([]byte(got[i].K)), got[i].V, st.pos, qk([]byte(e.K)), e.V)
			c.iters[o.A&3] = nil
			return true
		}
		st.pos++
	}
	return true
}

func (c *taskCtx) watchPrefix(o *Op) bool {
	t, s, ok := c.treeOf(o)
	if !ok {
		return false
	}
	key, after := c.key(o, o.Key)
	var ch <-chan struct{}
	var next func() ([]byte, any, bool)
	bad := c.do(o, len(s), func() {
		if o.B == 0 {
			it := t.Root().Iterator()
			ch = it.SeekPrefixWatch(key)
			next = it.Next
		} else {
			it := t.Root().ReverseIterator()
			ch = it.SeekPrefixWatch(key)
			next = it.Previous
		}
	})
	after()
	if bad {
		return true
	}
	if c.w.race {
		select {
		case <-ch:
			c.sink++
		default:
		}
		next()
		return true
	}
	if o.K == VWatchP {
		c.register(o, c.vers[o.A&7], ch, true, false)
	} else {
		c.registerTxn(o, c.txns[o.A&3], ch, true, false)
	}
	return true
}

// nested uses a version from within the callback of a walk over it.
func (c *taskCtx) nested(o *Op, v *Ver, k []byte, x any) {
	y, ok := v.tree.Get(k)
	n := 0
	v.tree.Walk(func(k []byte, x any) bool {
		n++
		return n == 3
	})
	t, old, _ := v.tree.Delete(k)
	if c.w.race {
		return
	}
	switch {
	case !ok || !eq(x, y):
		c.fail(o, []string{"C06"}, "the callback is given %s=%v but the lookup of the key gives %v,%v", qk(k), x, y, ok)
	case n != min(3, len(v.snap)):
		c.fail(o, []string{"C06"}, "a walk inside the callback visits %d keys of %d", n, len(v.snap))
	case !eq(x, old) || t.Len() != len(v.snap)-1:
		c.fail(o, []string{"C02"}, "deleting %s in the callback of a walk gives %v and %d keys, want %v and %d", qk(k), old, t.Len(), x, len(v.snap)-1)
	}
}
