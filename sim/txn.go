package sim

import (
	"strings"

	"verifsim/rt"
)

func (c *taskCtx) execTxn(o *Op) bool {
	w := c.w
	if o.K == TBegin {
		v := c.vers[o.B&7]
		if v == nil {
			return false
		}
		st := &TxnState{base: v, first: v, track: o.Track, written: map[string]bool{}}
		if c.do(o, len(v.snap), func() {
			st.tx = v.tree.Txn()
			if o.Track {
				st.tx.TrackMutate(true)
			}
		}) {
			return true
		}
		if !w.race {
			st.m = v.snap.mapOf()
			if w.board[0].Load() != v {
				c.faults[FStaleBase]++
			}
		}
		c.txns[o.A&3] = st
		return true
	}
	if o.K == TRecv {
		x := w.mail[o.B&3].Swap(nil)
		if x == nil {
			return false
		}
		c.txns[o.A&3] = x
		return c.note(o)
	}
	x := c.txns[o.A&3]
	if x == nil {
		return false
	}
	x.opsSince++
	if w.P.Linear && x.lin != 0 && o.K != TNotify {
		// the transaction is over
		return false
	}
	switch o.K {
	case TInsert, TDelete:
		key, after := c.key(o, o.Key)
		bad := c.write1(o, x, o.K == TDelete, key, o.Key, o.Val)
		after()
		_ = bad
		return true
	case TBulkIns, TBulkDel:
		return c.bulk(o, x)
	case TDelPrefix:
		return c.delPrefix(o, x)
	case TRecheck:
		c.units = -1
		if w.race {
			t := x.tx.GetTree()
			c.do(o, 0, func() { battery(t, w.P.Probes) })
			return true
		}
		s := x.snapshot()
		var msg string
		if c.do(o, len(s)*2, func() { msg = w.diff(x.tx.GetTree(), s) }) {
			return true
		}
		w.Stats.Checks++
		if msg != "" {
			tags := []string{"C04", "C02"}
			if x.family {
				tags = append(tags, "C05")
			}
			c.fail(o, tags, "transaction: %s", msg)
		}
		return true
	case TClone:
		if w.P.Linear {
			return false
		}
		n := &TxnState{base: x.base, first: x.first, written: map[string]bool{}, family: true}
		if c.do(o, len(x.m), func() { n.tx = x.tx.Clone() }) {
			return true
		}
		x.family = true
		if !w.race {
			n.m = make(map[string]any, len(x.m))
			for k, v := range x.m {
				n.m[k] = v
			}
			n.inherited = x.inherited || len(x.written) > 0
			n.lastVer = nil
			n.parents = x.olds()
			n.puts = append(n.puts, x.puts...)
			var msg string
			rt.Quiet(len(n.m), func() { msg = w.safeDiff(n) })
			w.Stats.Checks++
			if msg != "" {
				c.fail(o, []string{"C05"}, "clone: %s", msg)
			}
		}
		c.txns[o.B&3] = n
		return true
	case TSend:
		c.txns[o.A&3] = nil
		if w.mail[o.B&3].Swap(x) == nil {
			c.faults[FMove]++
		} else {
			c.faults[FMove]++
			c.faults[FAbort]++
		}
		return c.note(o)
	case TTrack:
		if len(x.written) > 0 && !(x.track && o.B == 0) {
			return false
		}
		if o.B == 1 && len(x.pending) > 0 {
			// what would happen to them is not said anywhere
			return false
		}
		x.track = o.B == 0
		c.do(o, 0, func() { x.tx.TrackMutate(x.track) })
		return true
	case TAbort:
		if len(x.written) > 0 || w.race {
			c.faults[FAbort]++
		}
		c.txns[o.A&3] = nil
		return c.note(o)
	case TCommit, TCommitOnly, TLinear:
		return c.commit(o, x)
	case TNotify:
		return c.notify(o, x)
	}
	return false
}

func (x *TxnState) tags(base string) []string {
	t := []string{base, "C04"}
	if x.family {
		t = append(t, "C05")
	}
	return t
}

func (c *taskCtx) write1(o *Op, x *TxnState, del bool, key, k []byte, v int) bool {
	var old any
	var ok bool
	bad := c.do(o, len(x.m), func() {
		if del {
			old, ok = x.tx.Delete(key)
		} else {
			old, ok = x.tx.Insert(key, c.w.give(v))
		}
	})
	if bad || c.w.race {
		return bad
	}
	c.wrote(o, x, del, k, v, old, ok)
	return false
}

// wrote applies a write to the model and checks what the library returned.
func (c *taskCtx) wrote(o *Op, x *TxnState, del bool, k []byte, v int, old any, ok bool) {
	c.w.Stats.Checks++
	if x.commits > 0 && x.opsSince > 0 {
		c.faults[FContinue]++
	}
	x.work++
	wold, wok := x.m[string(k)]
	if del {
		if wok {
			x.del(string(k))
		}
	} else {
		x.put(string(k), val(v))
	}
	if ok != wok || !eq(old, wold) {
		what := "insert"
		if del {
			what = "delete"
		}
		c.fail(o, x.tags("C02"), "%s of %s returned %v,%v, want %v,%v", what, qk(k), old, ok, wold, wok)
	}
}

func (c *taskCtx) bulk(o *Op, x *TxnState) bool {
	type res struct {
		old any
		ok  bool
	}
	rs := make([]res, 0, len(o.Keys))
	bufs := make([][]byte, len(o.Keys))
	for i, k := range o.Keys {
		bufs[i] = bcopy(k)
	}
	bad := c.do(o, len(x.m)+200*len(o.Keys), func() {
		for i := range o.Keys {
			var r res
			if o.K == TBulkDel {
				r.old, r.ok = x.tx.Delete(bufs[i])
			} else {
				r.old, r.ok = x.tx.Insert(bufs[i], c.w.give(o.Val+i))
			}
			rs = append(rs, r)
		}
	})
	if bad || c.w.race {
		return true
	}
	c.units = len(rs)
	for i, r := range rs {
		c.wrote(o, x, o.K == TBulkDel, o.Keys[i], o.Val+i, r.old, r.ok)
	}
	if o.Buf == BufScribble && !c.w.P.PlainBuffers {
		for i := range bufs {
			c.faults[FScribble]++
			for j := range bufs[i] {
				bufs[i][j] ^= 0x5A
			}
		}
	}
	return true
}

func (c *taskCtx) delPrefix(o *Op, x *TxnState) bool {
	w := c.w
	strict := !w.race && w.P.Prop == "C03"
	if strict {
		// attribute only what this operation breaks
		var msg string
		rt.Quiet(len(x.m), func() { msg = w.safeDiff(x) })
		if msg != "" {
			return false
		}
	}
	if !w.race {
		w.prefixDeleted = true
	}
	key, after := c.key(o, o.Key)
	var ok bool
	bad := c.do(o, len(x.m), func() { ok = x.tx.DeletePrefix(key) })
	after()
	if bad || w.race {
		return true
	}
	w.Stats.Checks++
	if x.commits > 0 {
		c.faults[FContinue]++
	}
	want := false
	for k := range x.m {
		if strings.HasPrefix(k, string(o.Key)) {
			want = true
			x.del(k)
			c.units++
		}
	}
	x.work += c.units
	if ok != want {
		c.fail(o, []string{"C03"}, "reported %v, want %v", ok, want)
	}
	var msg string
	rt.Quiet(len(x.m), func() { msg = w.safeDiff(x) })
	if msg != "" {
		c.fail(o, x.tags("C03"), "after it: %s", msg)
	}
	return true
}

func (w *World) safeDiff(x *TxnState) (msg string) {
	defer func() {
		if r := recover(); r == rt.Stuck {
			panic(r)
		} else if r != nil {
			msg = "panic while reading the transaction"
		}
	}()
	return w.diff(x.tx.GetTree(), x.snapshot())
}

func (c *taskCtx) commit(o *Op, x *TxnState) bool {
	w := c.w
	var nt *tree
	if o.K == TLinear && !w.P.Linear {
		return false
	}
	if o.K != TLinear && w.P.Linear {
		return false
	}
	recommit := x.commits > 0 && len(x.written) == 0
	if x.family && !x.track && !w.race {
		w.untracked = true
	}
	var e *Edge
	if !w.race {
		e = &Edge{from: x.base, full: x.track && !x.inherited, writes: x.written}
		w.edges = append(w.edges, e)
		if o.K == TCommit && x.track {
			// the notification starts somewhere inside the call
			c.startNotify(x, e)
		}
	}
	bad := c.do(o, len(x.m), func() {
		if o.K == TCommit {
			nt = x.tx.Commit()
		} else {
			nt = x.tx.CommitOnly()
		}
	})
	if bad {
		c.txns[o.A&3] = nil
		return true
	}
	if w.race {
		v := c.newVer(o, nt, nil, nil)
		old := x.base
		x.base = v
		c.vers[o.B&7] = v
		if o.K == TLinear {
			if w.board[0].CompareAndSwap(old, v) {
				x.lin = 1
			} else {
				x.lin = 2
			}
		}
		return true
	}
	tags := x.tags("C02")
	if x.base.bad {
		tags = tags[:1]
	} else if recommit {
		tags = append(tags, "C16")
	}
	if recommit {
		c.faults[FRecommit]++
	}
	v := c.newVer(o, nt, x.snapshot(), e, tags...)
	x.commits++
	x.opsSince = 0
	x.written = map[string]bool{}
	x.puts = nil
	x.inherited = false
	for _, wt := range x.watches {
		wt.ver, wt.in = v, e
	}
	x.watches = nil
	old := x.base
	x.base = v
	x.lastVer = v
	c.vers[o.B&7] = v
	switch o.K {
	case TCommit:
		if x.track {
			c.units += x.work
			x.work = 0
			c.endNotify(o, x, e)
		}
	default:
		if x.track {
			x.pending = append(x.pending, e)
		}
	}
	if o.K == TLinear {
		if w.board[0].CompareAndSwap(old, v) {
			x.lin = 1
		} else {
			x.lin = 2
			c.faults[FConflict]++
		}
	}
	return true
}

func (c *taskCtx) notify(o *Op, x *TxnState) bool {
	w := c.w
	if w.race {
		if w.P.Linear && x.lin != 1 {
			return false
		}
		c.do(o, 0, func() { x.tx.Notify() })
		return true
	}
	if len(x.written) > 0 || w.P.Linear && x.lin != 1 {
		return false
	}
	if x.track {
		if len(x.pending) == 0 {
			c.faults[FRepeatNtfy]++
		}
		if x.opsSince > 1 {
			c.faults[FLateNotify]++
		}
		c.startNotify(x, nil)
	}
	if c.do(o, 1000+len(x.m), func() { x.tx.Notify() }) {
		return true
	}
	if x.track {
		c.units += x.work
		x.work = 0
		c.endNotify(o, x, nil)
	}
	return true
}
