package sim

import (
	"runtime"
	"weak"

	"verifsim/simsync"
)

// blob is a value whose collection can be observed.
type blob struct {
	n int
	_ [7]int64
}

// give makes the value to be stored for the number v.
func (w *World) give(v int) any {
	if w.P.Prop != "C18" || v == 0 {
		return val(v)
	}
	b := &blob{n: v}
	w.blobs = append(w.blobs, weak.Make(b))
	return b
}

// number is the number of a value other than nil.
func number(x any) int {
	switch x := x.(type) {
	case *blob:
		return x.n
	case odd:
		return x.n
	case int:
		return x
	}
	return 0
}

// release drops everything but one version, open transaction or iterator and reports
// how many of the values it does not hold are still in memory.
func (w *World) release() {
	held := map[int]int{}
	keep, what, snaps, puts := w.kept()
	for _, s := range snaps {
		for _, kv := range s {
			held[number(kv.V)]++
		}
	}
	for _, v := range puts {
		held[v]++
	}
	w.drop()
	simsync.Collect()
	n, example := garbage(w.blobs, held)
	w.Stats.Checks++
	if n > 0 {
		w.failNow(0, []string{"C18"}, "%d values are still in memory after everything but %s was dropped that does not hold them, e.g. value %d", n, what, example)
	}
	if m := len(w.blobs) - n; m > 0 {
		w.Stats.Released += int64(m)
	}
	runtime.KeepAlive(keep)
}

// kept is what is not dropped, and what it may hold. A task that was stopped may
// have left its transactions in the middle of an operation.
func (w *World) kept() (keep any, what string, snaps []Snap, puts []int) {
	for _, c := range w.tasks {
		if !c.done {
			continue
		}
		for _, x := range c.txns {
			if w.P.Keep == 1 && x != nil {
				// It may remember where it began and what it copied since the last
				// commit, and need the versions before it for a notification
				snaps = []Snap{x.snapshot(), x.base.snap, x.first.snap}
				for _, v := range x.olds() {
					snaps = append(snaps, v.snap)
				}
				return x.tx, "a transaction", snaps, x.puts
			}
		}
		for _, st := range c.iters {
			if w.P.Keep == 2 && st != nil {
				return st.next, "an iterator", []Snap{st.ver.snap}, nil
			}
		}
	}
	v := w.board[0].Load()
	return v.tree, "a version", []Snap{v.snap}, nil
}

func (w *World) drop() {
	for i := range w.board {
		w.board[i].Store(nil)
		w.mail[i].Store(nil)
	}
	for _, c := range w.tasks {
		*c = taskCtx{}
	}
	w.tasks, w.watches, w.edges, w.arenas, w.returned, w.born = nil, nil, nil, nil, nil, nil
}

//go:noinline
func garbage(blobs []weak.Pointer[blob], held map[int]int) (n, example int) {
	runtime.GC()
	for _, p := range blobs {
		b := p.Value()
		if b == nil {
			continue
		}
		if held[b.n] > 0 {
			held[b.n]--
			continue
		}
		n++
		example = b.n
	}
	return n, example
}
