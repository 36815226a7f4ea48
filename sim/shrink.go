package sim

import (
	"time"

	"verifsim/rt"
)

// Judge runs a program and returns the violation of its property, if any.
func Judge(p *Program, seed uint64, ds []rt.Decision) (*Violation, *Result) {
	res := Exec(p, seed, ds, false)
	return pick(p, seed, ds, res), res
}

func pick(p *Program, seed uint64, ds []rt.Decision, res *Result) *Violation {
	for _, v := range res.Viol {
		if v.Has(p.Prop) {
			return v
		}
	}
	if p.Prop == "C13" && len(res.Viol) > 0 && !p.PlainBuffers {
		// Wrong answers count only if they go away when every operation gets its
		// own, never reused, exactly sized slice.
		q := *p
		q.PlainBuffers = true
		if ds == nil {
			ds = res.Trace
		}
		if r2 := Exec(&q, seed, ds, false); len(r2.Viol) == 0 {
			return res.Viol[0]
		}
	}
	return nil
}

// Shrink minimises a failing program and schedule. fails runs a candidate and
// returns the schedule it actually followed.
func Shrink(p *Program, ds []rt.Decision, limit time.Duration, fails func(*Program, []rt.Decision) ([]rt.Decision, bool)) (*Program, []rt.Decision) {
	end := time.Now().Add(limit)
	try := func(q *Program, d []rt.Decision) bool {
		if time.Now().After(end) {
			return false
		}
		nd, ok := fails(q, d)
		if ok {
			p, ds = q, nd
		}
		return ok
	}
	for round := 0; round < 6; round++ {
		before := weight(p, ds)
		// whole tasks
		for i := len(p.Tasks) - 1; i >= 0; i-- {
			if len(p.Tasks[i]) > 0 {
				q := clone(p)
				q.Tasks[i] = nil
				try(q, ds)
			}
		}
		// operations
		for i := range p.Tasks {
			chunks(func() int { return len(p.Tasks[i]) }, func(a, b int) bool {
				q := clone(p)
				q.Tasks[i] = append(append([]Op{}, p.Tasks[i][:a]...), p.Tasks[i][b:]...)
				return try(q, ds)
			})
		}
		chunks(func() int { return len(p.Init) }, func(a, b int) bool {
			q := clone(p)
			q.Init = append(append([]Init{}, p.Init[:a]...), p.Init[b:]...)
			return try(q, ds)
		})
		chunks(func() int { return len(ds) }, func(a, b int) bool {
			old, n := ds, len(ds)
			if !try(p, append(append([]rt.Decision{}, ds[:a]...), ds[b:]...)) {
				return false
			}
			if len(ds) >= n {
				// the switches come back elsewhere
				ds = old
				return false
			}
			return true
		})
		for i := range p.Tasks {
			for j := 0; j < len(p.Tasks[i]); j++ {
				if len(p.Tasks[i][j].Keys) > 1 {
					chunks(func() int { return len(p.Tasks[i][j].Keys) }, func(a, b int) bool {
						q := clone(p)
						o := &q.Tasks[i][j]
						ks := p.Tasks[i][j].Keys
						o.Keys = append(append([][]byte{}, ks[:a]...), ks[b:]...)
						return try(q, ds)
					})
				}
				if p.Tasks[i][j].Freeze != 0 {
					q := clone(p)
					q.Tasks[i][j].Freeze = 0
					try(q, ds)
				}
				if p.Tasks[i][j].Buf != 0 {
					q := clone(p)
					q.Tasks[i][j].Buf = 0
					try(q, ds)
				}
				if p.Tasks[i][j].Track {
					q := clone(p)
					q.Tasks[i][j].Track = false
					try(q, ds)
				}
			}
		}
		chunks(func() int { return len(p.Probes) }, func(a, b int) bool {
			q := clone(p)
			q.Probes = append(append([][]byte{}, p.Probes[:a]...), p.Probes[b:]...)
			return try(q, ds)
		})
		if p.Age > 0 {
			q := clone(p)
			q.Age = 0
			try(q, ds)
		}
		if p.InitTrack {
			q := clone(p)
			q.InitTrack = false
			try(q, ds)
		}
		if weight(p, ds) >= before || time.Now().After(end) {
			break
		}
	}
	return p, ds
}

func weight(p *Program, ds []rt.Decision) int {
	n := len(p.Init) + len(ds) + len(p.Probes)
	for _, t := range p.Tasks {
		for _, o := range t {
			n += 1 + len(o.Keys)
		}
	}
	return n
}

func clone(p *Program) *Program {
	q := *p
	q.Tasks = make([][]Op, len(p.Tasks))
	for i := range p.Tasks {
		q.Tasks[i] = append([]Op{}, p.Tasks[i]...)
	}
	return &q
}

// chunks removes ever smaller parts of a list of n() elements.
func chunks(n func() int, del func(a, b int) bool) {
	for size := n(); size > 0; size /= 2 {
		for a := 0; a < n(); {
			b := a + size
			if b > n() {
				b = n()
			}
			if !del(a, b) {
				a = b
			}
		}
	}
}
