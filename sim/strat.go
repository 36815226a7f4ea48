package sim

import "verifsim/rt"

// randStrat covers the random strategies.
type randStrat struct {
	rng   *Rng
	mean  int     // mean distance of preemptions, 0: none inside operations
	stay  float64 // probability of going on with the same task after an operation
	hotP  int     // preempt with probability 1/hotP at shared-memory statements, 0: never
	prio  []int   // priorities (nil: uniform choice)
	stall []int   // remaining scheduling decisions a stalled task sits out
	pSt   float64 // probability that a preemption turns into a stall
	Stall int64   // stalls injected
}

// NewRandStrat makes the strategy of a run from its seed.
func NewRandStrat(seed uint64, p *Program) (*randStrat, string) {
	tasks := len(p.Tasks) + 64 // the library may start goroutines itself
	r := NewRng(Mix(seed, 77))
	s := &randStrat{rng: r, stall: make([]int, tasks)}
	name := ""
	s.stay = []float64{0, 0.3, 0.6, 0.9}[r.Intn(4)]
	switch r.Intn(8) {
	case 0:
		name = "op-atomic"
	case 1, 2:
		name = "walk"
		s.mean = []int{3, 8, 20, 60, 200, 1000}[r.Intn(6)]
	case 3, 4:
		name = "hot"
		s.mean = 100000
		s.hotP = []int{2, 3, 6, 12, 40}[r.Intn(5)]
	case 5, 6:
		name = "stall"
		s.mean = []int{10, 30, 100, 400}[r.Intn(4)]
		if r.Intn(2) == 0 {
			s.hotP = []int{4, 12}[r.Intn(2)]
		}
		s.pSt = 0.4
	default:
		name = "priority"
		s.mean = []int{30, 150, 600, 3000}[r.Intn(4)]
		s.prio = make([]int, tasks)
		for i := range s.prio {
			s.prio[i] = r.Intn(1000) + 1000
		}
	}
	if len(p.Init) > 1500 {
		// keep the number of switches of large runs in proportion
		s.mean *= 100
		s.hotP *= 100
	}
	return s, name
}

//go:norace
func (s *randStrat) NextSwitch(t *rt.Task) int64 {
	if s.mean == 0 {
		return 1 << 60
	}
	return t.OpSteps + s.rng.Geo(s.mean)
}

//go:norace
func (s *randStrat) Hot(t *rt.Task) bool {
	return s.hotP > 0 && s.rng.Intn(s.hotP) == 0
}

//go:norace
func (s *randStrat) Pick(cur *rt.Task, ev int, run []*rt.Task) *rt.Task {
	curOK := false
	for _, o := range run {
		if o == cur {
			curOK = true
		}
	}
	if s.prio != nil {
		if ev == rt.EvYield && cur != nil {
			// change point: the running task drops below everybody
			min := s.prio[cur.ID]
			for _, p := range s.prio {
				if p < min {
					min = p
				}
			}
			s.prio[cur.ID] = min - 1
		}
		best := run[0]
		for _, o := range run {
			if s.prio[o.ID] > s.prio[best.ID] {
				best = o
			}
		}
		return best
	}
	if ev == rt.EvOpEnd && curOK && s.rng.P(s.stay) {
		return cur
	}
	if s.pSt > 0 {
		if ev == rt.EvYield && cur != nil && s.rng.P(s.pSt) {
			s.stall[cur.ID] = 5 + s.rng.Intn(60)
			s.Stall++
		}
		n := 0
		pick := -1
		for i, o := range run {
			if s.stall[o.ID] > 0 {
				s.stall[o.ID]--
				continue
			}
			n++
			if s.rng.Intn(n) == 0 {
				pick = i
			}
		}
		if pick >= 0 {
			return run[pick]
		}
	}
	if ev == rt.EvYield && curOK && len(run) > 1 {
		// prefer somebody else
		for {
			o := run[s.rng.Intn(len(run))]
			if o != cur {
				return o
			}
		}
	}
	return run[s.rng.Intn(len(run))]
}

// replayStrat follows a recorded schedule. Decisions that do not fit the
// execution (while shrinking) are ignored. It uses slices only: the race detector
// looks into map operations even from functions it does not instrument.
type replayStrat struct {
	ds   []rt.Decision
	next []int32 // index of the next decision of the same task, -1: none
	head []int32 // first decision of each task not yet passed; 0 is the start
}

func newReplayStrat(ds []rt.Decision) *replayStrat {
	s := &replayStrat{ds: ds, next: make([]int32, len(ds))}
	for i := len(ds) - 1; i >= 0; i-- {
		t := ds[i].Task + 1
		for len(s.head) <= t {
			s.head = append(s.head, -1)
		}
		s.next[i] = s.head[t]
		s.head[t] = int32(i)
	}
	return s
}

// after tells whether decision d lies behind the point (op, at). Operation ids
// ascend within a task, and -1 and -2 come after everything inside an operation.
//
//go:norace
func after(d *rt.Decision, op int32, at int64) bool {
	if d.Op != op {
		return d.Op > op
	}
	if at < 0 || d.At < 0 {
		if d.At < 0 && at < 0 {
			return d.At < at
		}
		return d.At < 0
	}
	return d.At > at
}

//go:norace
func (s *replayStrat) NextSwitch(t *rt.Task) int64 {
	if t.ID+1 >= len(s.head) {
		return 1 << 60
	}
	for i := s.head[t.ID+1]; i >= 0; i = s.next[i] {
		d := &s.ds[i]
		if d.Op > t.OpID || d.At < 0 && d.Op == t.OpID {
			break
		}
		if d.Op == t.OpID && d.At > t.OpSteps && d.Site >= 0 {
			return d.At
		}
	}
	return 1 << 60
}

//go:norace
func (s *replayStrat) Hot(t *rt.Task) bool { return false }

//go:norace
func (s *replayStrat) Pick(cur *rt.Task, ev int, run []*rt.Task) *rt.Task {
	to := -1
	task, op, at := -1, int32(0), int64(0)
	if cur != nil {
		task, op, at = cur.ID, cur.LastOp, rt.At(cur, ev)
	}
	if task+1 < len(s.head) {
		for i := s.head[task+1]; i >= 0; i = s.next[i] {
			d := &s.ds[i]
			if after(d, op, at) {
				break
			}
			if d.Op == op && d.At == at && (d.Site < 0) == (ev == rt.EvBlock) {
				s.head[task+1] = s.next[i]
				to = d.To
				break
			}
		}
	}
	for _, o := range run {
		if o.ID == to {
			return o
		}
	}
	if ev != rt.EvBlock {
		for _, o := range run {
			if o == cur {
				return o
			}
		}
	}
	for _, o := range run {
		if o != cur {
			return o
		}
	}
	return run[0]
}
