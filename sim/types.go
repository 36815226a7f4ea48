// Package sim is the simulated world: programs of tasks over shared tree
// versions, their generator, their execution under the deterministic scheduler,
// and the reference models that judge the results.
package sim

import (
	"fmt"

	"verifsim/rt"
)

// Kind is an operation kind.
type Kind uint8

const (
	_ Kind = iota
	// versions
	VLoad      // vers[A] = board[B]
	VPub       // board[B] = vers[A]
	VClone     // vers[B] = vers[A].Clone()
	VInsert    // vers[B] = vers[A].Insert(Key)
	VDelete    // vers[B] = vers[A].Delete(Key)
	VDelPrefix // vers[B] = vers[A].DeletePrefix(Key)
	VGet
	VLen
	VWalk // stop after N if N > 0, B: 1 using the version in the callback, 2 after a traversal of the nodes, 3 the callback panics
	VMin
	VMax
	VLP
	VIter    // forward iteration, B: 0 no seek, 1 prefix
	VLB      // lower bound, B: 1 not seeked
	VRev     // reverse iteration, B: 0 no seek, 1 prefix, 2 reverse lower bound
	VPath    // path iteration
	VRecheck // ask the same questions as when the version was created
	VWatch   // watch a key
	VWatchP  // watch a prefix, B: 0 forward iterator, 1 reverse iterator
	// open iterators
	IOpen // iters[A] = iterator of kind C on vers[B]
	INext // advance iters[A] N times
	// transactions
	TBegin     // txns[A] = vers[B].Txn(), Track
	TInsert    // Key, Val
	TDelete    // Key
	TDelPrefix // Key
	TGet
	TLen
	TLP
	TPath
	TIter   // forward iteration of the transaction's current contents, B as VIter
	TRev    // B as VRev
	TLB     //
	TMinMax //
	TWatch  // lookup with watch inside a transaction
	TBulkIns
	TBulkDel
	TRecheck    // compare everything
	TClone      // txns[B] = txns[A].Clone()
	TSend       // hand txns[A] to mailbox B
	TRecv       // txns[A] = mailbox B
	TTrack      // switch tracking on (clones, or once more), or off if B = 1
	TCommit     // vers[B] = Commit
	TCommitOnly // vers[B] = CommitOnly
	TNotify     //
	TAbort      // drop
	TLinear     // CommitOnly, compare-and-swap of the head from the base version, Notify
	TLinearN    // same, notification deferred to a later TNotify
	VNodes      // traverse the nodes and iterate from each, B: 0 forwards, 1 backwards, 2 lower bound without a seek, 3 forwards from the node found for the prefix Key
	TNodes      //
	TWatchP     // watch a prefix inside a transaction, B as VWatchP
	KindCount
)

var kindNames = [...]string{"", "VLoad", "VPub", "VClone", "VInsert", "VDelete", "VDelPrefix", "VGet", "VLen", "VWalk", "VMin", "VMax", "VLP", "VIter", "VLB", "VRev", "VPath", "VRecheck", "VWatch", "VWatchP",
	"IOpen", "INext", "TBegin", "TInsert", "TDelete", "TDelPrefix", "TGet", "TLen", "TLP", "TPath", "TIter", "TRev", "TLB", "TMinMax", "TWatch", "TBulkIns", "TBulkDel", "TRecheck", "TClone", "TSend", "TRecv", "TTrack",
	"TCommit", "TCommitOnly", "TNotify", "TAbort", "TLinear", "TLinearN", "VNodes", "TNodes", "TWatchP"}

func (k Kind) String() string { return kindNames[k] }

func (k Kind) MarshalText() ([]byte, error) { return []byte(kindNames[k]), nil }

func (k *Kind) UnmarshalText(b []byte) error {
	for i, n := range kindNames {
		if n != "" && n == string(b) {
			*k = Kind(i)
			return nil
		}
	}
	return fmt.Errorf("unknown operation %q", b)
}

// Buffer modes: how the key slice of an operation is passed to the library.
const (
	BufExact    = iota // private slice without spare capacity
	BufGuard           // carved out of a larger buffer, guard bytes around it
	BufScribble        // BufGuard, and overwritten by the caller after the call
	BufShared          // one of the slices shared by all tasks
	BufAppend          // BufExact, and the caller appends to the keys returned
)

// Op is one operation of a task.
type Op struct {
	ID     int32    `json:"id"`
	K      Kind     `json:"k"`
	A      int      `json:"a,omitempty"`
	B      int      `json:"b,omitempty"`
	C      int      `json:"c,omitempty"`
	N      int      `json:"n,omitempty"`
	Key    []byte   `json:"key,omitempty"`
	Keys   [][]byte `json:"keys,omitempty"`
	Val    int      `json:"val,omitempty"` // 0: nil value
	Track  bool     `json:"track,omitempty"`
	Buf    int      `json:"buf,omitempty"`
	Freeze int64    `json:"freeze,omitempty"` // freeze the task for ever at this yield of the operation
}

// Init is a step of the construction of the initial version.
type Init struct {
	Del bool   `json:"del,omitempty"`
	Key []byte `json:"key"`
	Val int    `json:"val,omitempty"`
}

// Program is everything one execution does, apart from its schedule.
type Program struct {
	Prop          string   `json:"property"`
	Init          []Init   `json:"init"`
	InitTrack     bool     `json:"init_track,omitempty"`
	Age           int      `json:"age,omitempty"` // writes before the initial version
	Probes        [][]byte `json:"probes"`
	Tasks         [][]Op   `json:"tasks"`
	Linear        bool     `json:"linear,omitempty"`
	Birth         bool     `json:"birth,omitempty"`
	FreezeOnBlock bool     `json:"freeze_on_block,omitempty"`
	PlainBuffers  bool     `json:"plain_buffers,omitempty"` // ignore the buffer modes
	Keep          int      `json:"keep,omitempty"`          // at the end: 0 a version, 1 a transaction, 2 an iterator
}

// Replay is a complete execution: program and schedule.
type Replay struct {
	Property  string        `json:"property"`
	Message   string        `json:"message"`
	Seed      uint64        `json:"run_seed"`
	Index     int64         `json:"run_index"`
	Race      bool          `json:"race,omitempty"`
	Program   *Program      `json:"program"`
	Decisions []rt.Decision `json:"schedule"`
	TraceHash string        `json:"trace_hash"`
	Steps     int64         `json:"steps"`
	Readable  []string      `json:"readable,omitempty"`
	Original  string        `json:"original,omitempty"`
	RaceLog   string        `json:"race_report,omitempty"`
}

// Violation is a failed check.
type Violation struct {
	Tags []string
	Op   int32
	Msg  string
}

func (v *Violation) Has(p string) bool {
	for _, t := range v.Tags {
		if t == p {
			return true
		}
	}
	return false
}

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

//go:norace
func NewRng(seed uint64) *Rng { return &Rng{seed} }

//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// P is true with probability p.
//
//go:norace
func (r *Rng) P(p float64) bool {
	return float64(r.Next()>>11)/(1<<53) < p
}

// Geo returns a number >= 1 with mean about m.
//
//go:norace
func (r *Rng) Geo(m int) int64 {
	if m <= 1 {
		return 1
	}
	// two-sided uniform approximation is enough: mix short and long gaps
	switch r.Next() & 3 {
	case 0:
		return int64(1 + r.Intn(m/2+1))
	case 1, 2:
		return int64(1 + r.Intn(m*2))
	default:
		return int64(1 + r.Intn(m))
	}
}

// Mix derives a seed.
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b+0x632be59bd9b4e019)*0x9e3779b97f4a7c15}
	r.Next()
	return r.Next()
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
