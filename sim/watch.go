package sim

import (
	"fmt"
	"strings"
)

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// startNotify records that a notification of x has begun. extra is the step being
// committed by the same call, if any.
func (c *taskCtx) startNotify(x *TxnState, extra *Edge) {
	w := c.w
	es := x.pending
	if extra != nil {
		es = append(append([]*Edge{}, es...), extra)
	}
	for _, e := range es {
		e.started = true
		e.from.noteFrom = true
		if len(e.writes) > 0 {
			e.from.sibs++
		}
	}
	w.notes++
}

func (c *taskCtx) endNotify(o *Op, x *TxnState, extra *Edge) {
	es := x.pending
	if extra != nil {
		es = append(append([]*Edge{}, es...), extra)
	}
	for _, e := range es {
		e.done = true
	}
	x.pending = nil
	x.notified++
	for _, wt := range c.w.watches {
		c.w.mustBeClosed(o.ID, wt)
	}
}

// register adds a watch and judges its state at that moment.
func (c *taskCtx) register(o *Op, v *Ver, ch <-chan struct{}, prefix, stored bool) {
	w := c.w
	w.Stats.Checks++
	if ch == nil {
		c.fail(o, []string{"C11"}, "no channel")
		return
	}
	wt := &Watch{ver: v, key: string(o.Key), prefix: prefix, stored: stored, ch: ch, op: o.ID}
	if v.kids > 0 {
		c.faults[FLateWatch]++
	}
	if w.P.Linear && w.board[0].Load() == v && !v.noteFrom && isClosed(ch) {
		c.fail(o, []string{"C12"}, "the latest version hands out a closed channel although no transaction begun from it has notified")
	}
	w.watches = append(w.watches, wt)
	w.mustBeClosed(o.ID, wt)
}

// registerTxn adds a watch obtained inside a transaction.
func (c *taskCtx) registerTxn(o *Op, x *TxnState, ch <-chan struct{}, prefix, stored bool) {
	w := c.w
	w.Stats.Checks++
	if ch == nil {
		c.fail(o, []string{"C11"}, "no channel")
		return
	}
	wt := &Watch{key: string(o.Key), prefix: prefix, stored: stored, ch: ch, op: o.ID, base: x.base}
	wt.was = wt.view(x.snapshot())
	w.watches = append(w.watches, wt)
	x.watches = append(x.watches, wt)
}

// view returns the watched part of s.
func (wt *Watch) view(s Snap) Snap {
	if wt.prefix {
		return s.prefix(wt.key)
	}
	if v, ok := s.get(wt.key); ok {
		return Snap{{wt.key, v}}
	}
	return nil
}

func same(a, b Snap) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// where describes the place of a watch.
func (wt *Watch) where() string {
	switch {
	case wt.ver == nil:
		return fmt.Sprintf("inside a transaction on version %d", wt.base.id)
	case wt.in != nil:
		return fmt.Sprintf("inside the transaction that led to version %d", wt.ver.id)
	}
	return fmt.Sprintf("on version %d", wt.ver.id)
}

// mustBeClosed checks that a watch whose key or prefix was changed by a completed
// notification has fired.
func (w *World) mustBeClosed(op int32, wt *Watch) {
	if wt.closed || wt.ver == nil || isClosed(wt.ch) {
		return
	}
	if wt.in != nil {
		if !wt.in.done || !wt.in.full {
			return
		}
		if !same(wt.was, wt.view(wt.ver.snap)) {
			w.failNow(op, []string{"C11"}, "watch of %s obtained %s (operation %d) is still open after the notification of that transaction, which changed it later", qk([]byte(wt.key)), wt.where(), wt.op)
			wt.closed = true
			return
		}
	}
	for _, e := range w.edges {
		if !e.done || !e.full || len(e.writes) == 0 || !reaches(wt.ver, e.from) {
			continue
		}
		if !e.changes(wt) {
			continue
		}
		tags := []string{"C11"}
		if e.from.sibs > 1 || wt.ver.sibs > 1 {
			tags = append(tags, "C16")
		}
		what := "key"
		if wt.prefix {
			what = "prefix"
		} else if !wt.stored {
			what = "missing key"
		}
		w.failNow(op, tags, "watch of %s %s %s (operation %d) is still open after the notification of the step from version %d to %d that changed it", what, qk([]byte(wt.key)), wt.where(), wt.op, e.from.id, e.to.id)
		wt.closed = true // report once
		return
	}
}

// reaches tells whether from can be reached from v through notified steps.
func reaches(v, from *Ver) bool {
	for x := from; ; {
		if x == v {
			return true
		}
		if x.in == nil || !x.in.done || !x.in.full {
			return false
		}
		x = x.in.from
	}
}

func (e *Edge) changes(wt *Watch) bool {
	for k := range e.writes {
		if k == wt.key && !wt.prefix || wt.prefix && strings.HasPrefix(k, wt.key) {
			a, aok := e.from.snap.get(k)
			b, bok := e.to.snap.get(k)
			if aok != bok || !eq(a, b) {
				return true
			}
		}
	}
	return false
}

// scope returns the prefix that a watch on a version covers at most: the watched one, or
// the longest beginning of a missing key that a stored key shares.
func (wt *Watch) scope() string {
	s := wt.ver.snap
	if wt.prefix || len(s) == 0 {
		return wt.key
	}
	i, n := s.lb(wt.key), 0
	if i > 0 {
		n = lcp(s[i-1].K, wt.key)
	}
	if i < len(s) {
		n = max(n, lcp(s[i].K, wt.key))
	}
	return wt.key[:n]
}

// near tells whether e wrote a key that begins with more of the scope of the watch than
// every key outside it that e left alone. It only rejects watches with keys in their
// scope, taken on the version that e starts from or on one that led to it.
func (e *Edge) near(wt *Watch) bool {
	if wt.stored || wt.ver == nil || wt.in != nil || !e.full || !derived(e.from, wt.ver) {
		return true
	}
	p := wt.scope()
	s := e.from.snap
	if !wt.ver.snap.has(p) || !s.has(p) {
		return true
	}
	i := s.lb(p)
	d := -1
	for j := i - 1; j >= 0; j-- {
		if !e.writes[s[j].K] {
			d = lcp(s[j].K, p)
			break
		}
	}
	for j := i; j < len(s); j++ {
		if !e.writes[s[j].K] && !strings.HasPrefix(s[j].K, p) {
			d = max(d, lcp(s[j].K, p))
			break
		}
	}
	for k := range e.writes {
		if lcp(k, p) > d {
			return true
		}
	}
	return false
}

// derived tells whether v is from or was derived from it.
func derived(v, from *Ver) bool {
	for v != from && v.in != nil {
		v = v.in.from
	}
	return v == from
}

// lcp returns the length of the common beginning of a and b.
func lcp(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// ancestor tells whether version v was derived through e.
func ancestor(e *Edge, v *Ver) bool {
	for x := v; x != nil && x.in != nil; x = x.in.from {
		if x.in == e {
			return true
		}
	}
	return false
}

// scanWatches checks that every channel that closed had a reason to.
func (w *World) scanWatches(op int32) {
	for _, wt := range w.watches {
		if wt.closed || !isClosed(wt.ch) {
			continue
		}
		wt.closed = true
		w.Stats.Checks++
		any, own, key, keyOwn, near := false, false, false, false, false
		for _, e := range w.edges {
			if !e.started || len(e.writes) == 0 {
				continue
			}
			any = true
			anc := ancestor(e, wt.base)
			if wt.ver != nil {
				anc = e != wt.in && ancestor(e, wt.ver)
			}
			if !anc {
				own = true
				near = near || e.near(wt)
			}
			if e.writes[wt.key] {
				key = true
				if !anc {
					keyOwn = true
				}
			}
		}
		fam := func(t ...string) []string {
			if w.untracked {
				t = append(t, "C05")
			}
			return t
		}
		switch {
		case !any:
			w.failNow(op, fam("C12", "C04"), "watch of %s %s (operation %d) fired although nothing has been notified", qk([]byte(wt.key)), wt.where(), wt.op)
		case wt.stored && !key:
			w.failNow(op, fam("C12"), "watch of the stored key %s %s (operation %d) fired although no notified transaction wrote that key", qk([]byte(wt.key)), wt.where(), wt.op)
		case wt.stored && !keyOwn, !own:
			w.failNow(op, fam("C12", "C16"), "watch of %s %s (operation %d) fired although only the transactions that led to that version wrote it", qk([]byte(wt.key)), wt.where(), wt.op)
		case !near:
			w.failNow(op, fam("C12"), "watch of %s %s (operation %d) fired although every key written by a notified transaction is further from %s than a key stored outside that prefix", qk([]byte(wt.key)), wt.where(), wt.op, qk([]byte(wt.scope())))
		}
	}
}
