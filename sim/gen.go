package sim

import "strconv"

// profile says what the programs generated for a property look like.
type profile struct {
	tasks    [2]int // number of tasks
	snips    [2]int // snippets per task
	w        [sCount]int
	rd       []Kind // reads of versions
	trd      []Kind // reads of transactions
	its      []int  // kinds of open iterators
	track    float64
	linear   float64
	freeze   float64 // probability that a run has a task frozen inside an operation
	buf      float64 // probability that an operation uses a special buffer mode
	clone    float64 // probability of cloning in a transaction snippet
	delp     int     // weight of prefix deletes among the writes (insert is 10)
	birth    bool
	onBlock  bool
	recheck  float64
	big      int // one in big runs is large
	notifies float64
}

// Snippets.
const (
	sLoad = iota
	sPub
	sTxn
	sCont
	sRead
	sOpen
	sNext
	sWatch
	sOneShot
	sRecheck
	sVClone
	sRecv
	sNotify
	sCount
)

var allReads = []Kind{VGet, VGet, VLen, VWalk, VMin, VMax, VLP, VIter, VLB, VRev, VPath, VNodes}
var allTReads = []Kind{TGet, TGet, TLen, TLP, TPath, TIter, TRev, TLB, TMinMax, TNodes}
var allIts = []int{itFwd, itPrefix, itLB, itRev, itRevPrefix, itRevLB, itPath}

func base() profile {
	p := profile{tasks: [2]int{2, 4}, snips: [2]int{3, 9}, rd: allReads, trd: allTReads, its: allIts, track: 0.3, delp: 1, recheck: 0.1, big: 200, notifies: 0.7}
	p.w = [sCount]int{sLoad: 4, sPub: 3, sTxn: 10, sCont: 4, sRead: 8, sOpen: 1, sNext: 1, sOneShot: 3, sVClone: 1, sRecv: 1, sNotify: 1}
	return p
}

func profileOf(prop string) profile {
	p := base()
	switch prop {
	case "C01":
		p.birth = true
		p.w[sRecheck] = 12
		p.w[sCont] = 8
		p.w[sRead] = 1
		p.freeze = 0.3
		p.clone = 0.15
		p.delp = 2
	case "C02":
		p.rd = []Kind{VGet, VGet, VGet, VLen}
		p.trd = []Kind{TGet, TGet, TGet, TLen, TRecheck}
		p.w[sOneShot] = 8
		p.w[sCont] = 6
		p.w[sWatch] = 1
		p.delp = 1
	case "C03":
		p.delp = 12
		p.w[sOneShot] = 6
		p.birth = true
		p.w[sRecheck] = 3
		p.w[sCont] = 8
	case "C04":
		p.birth = true
		p.freeze = 0.3
		p.recheck = 0.5
		p.w[sRecheck] = 6
		p.w[sCont] = 8
		p.tasks = [2]int{2, 5}
		p.clone = 0.05
		p.w[sWatch] = 2
		p.track = 0.5
	case "C05":
		p.clone = 0.8
		p.w[sWatch] = 2
		p.w[sRecv] = 5
		p.w[sCont] = 14
		p.recheck = 0.5
		p.w[sOneShot] = 1
		p.delp = 2
	case "C06":
		p.rd = []Kind{VWalk, VIter, VIter, VIter}
		p.trd = []Kind{TIter}
		p.its = []int{itFwd, itFwd, itPrefix, itPrefix, itPrefix, itPrefix, itLBAll}
		p.w[sOpen], p.w[sNext] = 6, 9
	case "C07":
		p.rd = []Kind{VLB}
		p.trd = []Kind{TLB}
		p.its = []int{itLB, itLB, itLB, itLB, itLB, itLB, itLBAll}
		p.w[sOpen], p.w[sNext] = 6, 9
	case "C08":
		p.rd = []Kind{VRev}
		p.trd = []Kind{TRev}
		p.its = []int{itRev, itRevPrefix, itRevLB, itRevLB}
		p.w[sOpen], p.w[sNext] = 6, 9
	case "C09":
		p.rd = []Kind{VLP, VPath}
		p.trd = []Kind{TLP, TPath}
		p.its = []int{itPath}
		p.w[sOpen], p.w[sNext] = 2, 3
		p.w[sRead] = 14
	case "C10":
		p.rd = []Kind{VMin, VMax}
		p.trd = []Kind{TMinMax}
		p.w[sOpen], p.w[sNext] = 0, 0
		p.w[sRead] = 14
		p.delp = 3
	case "C11":
		p.track = 0.9
		p.clone = 0.1
		p.linear = 0.4
		p.w[sWatch] = 14
		p.w[sRead] = 1
		p.w[sNotify] = 4
		p.freeze = 0.1
		p.delp = 2
		p.big = 60
		p.notifies = 0.85
	case "C12":
		p.track = 0.7
		p.linear = 0.6
		p.w[sWatch] = 14
		p.w[sRead] = 1
		p.w[sNotify] = 4
		p.freeze = 0.2
		p.clone = 0.1
		p.delp = 2
	case "C13":
		p.buf = 0.8
		p.w[sOpen], p.w[sNext] = 3, 4
		p.w[sWatch] = 1
		p.recheck = 0.3
	case "C14":
		p.buf = 0.15
		p.w[sWatch] = 5
		p.w[sOpen], p.w[sNext] = 3, 4
		p.w[sRecheck] = 1
		p.track = 0.5
		p.w[sNotify] = 3
		p.clone = 0.1
		p.big = 1 << 30
	case "C15":
		p.freeze = 0.9
		p.onBlock = true
		p.w[sWatch] = 8
		p.w[sNotify] = 3
		p.track = 0.7
		p.tasks = [2]int{2, 5}
	case "C17":
		p.big = 3
		p.w[sWatch] = 4
		p.w[sOpen], p.w[sNext] = 4, 4
		p.freeze = 0.1
		p.clone = 0.1
		p.delp = 2
	case "C18":
		p.w[sCont] = 8
		p.w[sPub] = 6
		p.w[sOneShot] = 5
		p.w[sWatch] = 2
		p.w[sOpen], p.w[sNext] = 2, 2
		p.freeze = 0.1
		p.clone = 0.1
		p.delp = 2
		p.track = 0.5
	case "C19":
		p.rd = []Kind{VNodes}
		p.trd = []Kind{TNodes}
		p.w[sOpen], p.w[sNext] = 0, 0
		p.w[sRead] = 12
		p.delp = 2
		p.clone = 0.1
	case "C16":
		p.track = 0.95
		p.clone = 0.1
		p.w[sWatch] = 8
		p.w[sNotify] = 10
		p.w[sCont] = 10
		p.w[sLoad] = 2
		p.w[sPub] = 1
		p.w[sOneShot] = 1
		p.w[sRead] = 1
		p.tasks = [2]int{2, 5}
	}
	return p
}

type gen struct {
	r    *Rng
	p    *Program
	pf   profile
	pool [][]byte
	val  int
	id   int32
	out  []Op
	open [4]bool // transaction slots in use by the current task
	its  [4]bool
	cm   [4]bool // slot has been committed
	nv   int
}

// aged is the number of runs among which one starts with a long history.
func aged(prop string) int {
	switch prop {
	case "C14":
		return 20000
	case "C01", "C03", "C04", "C05":
		return 300
	case "C17":
		return 50
	}
	return 1000
}

// Generate makes the program of a run from its seed.
func Generate(prop string, seed uint64) *Program {
	r := NewRng(Mix(seed, 1))
	g := &gen{r: r, pf: profileOf(prop), p: &Program{Prop: prop}}
	if r.Intn(giants(prop)) == 0 {
		g.giant()
	} else if r.Intn(g.pf.big) == 0 {
		g.big()
	} else if r.Intn(2000) == 0 {
		g.huge()
		g.init()
	} else {
		g.keys()
		g.init()
	}
	if r.Intn(aged(prop)) == 0 {
		// the initial version has about 2^16 writes behind it
		g.p.Age = 1<<16 + 100 - r.Intn(1500)
	}
	g.p.Linear = r.P(g.pf.linear)
	g.p.Birth = g.pf.birth
	g.p.FreezeOnBlock = g.pf.onBlock
	if prop == "C18" {
		g.p.Keep = []int{0, 0, 0, 1, 1, 2}[r.Intn(6)]
	}
	g.probes()
	n := g.pf.tasks[0] + r.Intn(g.pf.tasks[1]-g.pf.tasks[0]+1)
	if r.Intn(8) == 0 && prop != "C14" && prop != "C15" {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.p.Tasks = append(g.p.Tasks, g.task(i))
	}
	if r.P(g.pf.freeze) {
		g.freeze()
	}
	return g.p
}

func (g *gen) bytes(alpha string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[g.r.Intn(len(alpha))]
	}
	return b
}

func (g *gen) add(k []byte) {
	g.pool = append(g.pool, k)
}

var prefLens = []int{0, 0, 1, 2, 8, 9, 10, 11, 12, 20, 21, 33}

var words = []string{"", "a", "foo", "foob", "foobar", "foo/bar/baz", "foo/bar", "foo/zip", "zip", "zipzap", "hello", "help", "test", "team", "toast", "romane", "romanus", "romulus", "rubens", "ruber", "rubicon", "rubicundus"}

const specials = "\x00\x00\x01$#%\x7f\x80\xff\xffa"
const lower = "abcdefghijklmnopqrstuvwxyz"

func (g *gen) family() {
	r := g.r
	switch r.Intn(15) {
	case 0, 1:
		alpha := []string{"ab", "\x00\x01", "\x00a", "$a", "\x00\xff", "abc"}[r.Intn(6)]
		n := 6 + r.Intn(30)
		m := 3 + r.Intn(5)
		for i := 0; i < n; i++ {
			g.add(g.bytes(alpha, r.Intn(m+1)))
		}
	case 2:
		n := 6 + r.Intn(30)
		for i := 0; i < n; i++ {
			g.add(g.bytes(specials, r.Intn(6)))
		}
	case 3, 4, 5, 6:
		g.fan(g.prefix())
	case 7, 8:
		// chain: keys along one long path
		b := g.bytes("ab", 5+r.Intn(60))
		n := 4 + r.Intn(16)
		deep := r.Intn(30) == 0
		if deep {
			b = g.bytes("ab", 70+r.Intn(300))
			n = len(b)
		}
		for i := 0; i < n; i++ {
			l := r.Intn(len(b) + 1)
			if deep {
				l = i
			}
			k := bcopy(b[:l])
			if r.Intn(2) == 0 {
				k = append(k, g.bytes("ab\x00\xff", 1+r.Intn(3))...)
			}
			g.add(k)
		}
	case 9, 10:
		// nested fan-outs
		p := g.prefix()
		n := []int{2, 4, 5, 6, 17, 18, 20}[r.Intn(7)]
		for i := 0; i < n; i++ {
			q := append(bcopy(p), byte(i*13+r.Intn(3)))
			if r.Intn(2) == 0 {
				q = append(q, g.bytes(lower, []int{1, 9, 10, 11, 15}[r.Intn(5)])...)
			}
			m := 1 + r.Intn(5)
			if r.Intn(8) == 0 {
				m = 17 + r.Intn(3)
			}
			if r.Intn(3) == 0 {
				g.add(bcopy(q))
			}
			for j := 0; j < m; j++ {
				g.add(append(bcopy(q), byte(j*11+r.Intn(4))))
			}
		}
	case 11:
		n := 5 + r.Intn(len(words)-5)
		for i := 0; i < n; i++ {
			g.add([]byte(words[r.Intn(len(words))]))
		}
	case 12:
		// decimal numbers, some of them prefixes of others
		p := g.prefix()
		n := 5 + r.Intn(120)
		for i := 0; i < n; i++ {
			g.add(strconv.AppendInt(bcopy(p), int64(r.Intn(3*n)), 10))
		}
	case 13:
		// random identifiers
		n := 5 + r.Intn(120)
		m := 4 + r.Intn(33)
		for i := 0; i < n; i++ {
			g.add(g.bytes("0123456789abcdef", m))
		}
	default:
		// two keys that differ only after a long common part, and friends
		p := g.bytes("xy", 9+r.Intn(30))
		n := 3 + r.Intn(8)
		for i := 0; i < n; i++ {
			k := bcopy(p)
			k[r.Intn(len(k))] ^= byte(1 + r.Intn(3))
			g.add(k)
		}
		g.add(p)
	}
}

func (g *gen) prefix() []byte {
	r := g.r
	n := prefLens[r.Intn(len(prefLens))]
	if r.Intn(25) == 0 {
		n = 250 + r.Intn(60)
	}
	return g.bytes([]string{"ab", lower, specials}[r.Intn(3)], n)
}

func (g *gen) fan(p []byte) {
	r := g.r
	ns := []int{3, 4, 5, 6, 12, 15, 16, 17, 18, 36, 38, 47, 48, 49, 50, 60, 100, 255, 256, 256}
	n := ns[r.Intn(len(ns))]
	off := r.Intn(256)
	step := []int{1, 1, 3, 7, 5, 255}[r.Intn(6)]
	tail := r.Intn(4)
	for i := 0; i < n; i++ {
		k := append(bcopy(p), byte(off+i*step))
		switch tail {
		case 1:
			k = append(k, "tail"...)
		case 2:
			if r.Intn(3) == 0 {
				k = append(k, g.bytes("ab\x00", 1+r.Intn(2))...)
			}
		case 3:
			k = append(k, 0)
		}
		g.add(k)
	}
	if r.Intn(3) == 0 {
		g.add(bcopy(p))
	}
	if r.Intn(4) == 0 && len(p) > 0 {
		g.add(bcopy(p[:r.Intn(len(p))]))
	}
	if r.Intn(3) == 0 {
		// something below one of the children
		c := append(bcopy(p), byte(off+r.Intn(n)*step))
		for i := 0; i < 2+r.Intn(5); i++ {
			g.add(append(bcopy(c), g.bytes(lower, 1+r.Intn(3))...))
		}
	}
}

func (g *gen) keys() {
	g.family()
	for g.r.Intn(3) == 0 {
		g.family()
	}
	if g.r.Intn(4) == 0 {
		g.add([]byte{})
	}
}

func (g *gen) init() {
	r := g.r
	frac := []float64{0, 0.3, 0.6, 0.9, 1, 1}[r.Intn(6)]
	g.p.InitTrack = r.Intn(3) == 0
	for _, k := range g.pool {
		if r.P(frac) {
			g.p.Init = append(g.p.Init, Init{Key: k, Val: g.value()})
		}
	}
	// random insertion order
	in := g.p.Init
	if r.Intn(2) == 0 {
		for i := len(in) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			in[i], in[j] = in[j], in[i]
		}
	}
	if r.Intn(3) == 0 {
		d := []float64{0.2, 0.5, 0.8, 0.95}[r.Intn(4)]
		for _, k := range g.pool {
			if r.P(d) {
				g.p.Init = append(g.p.Init, Init{Del: true, Key: k})
			}
		}
		if r.Intn(3) == 0 {
			for i := 0; i < 3; i++ {
				g.p.Init = append(g.p.Init, Init{Key: g.key(), Val: g.value()})
			}
		}
	}
}

// big makes a large tree: thousands of keys, long transactions.
func (g *gen) big() {
	r := g.r
	n := 2000 + r.Intn(9000)
	p := g.prefix()
	if g.p.Prop == "C17" {
		n *= 2
		p = p[:min(len(p), r.Intn(3))]
	}
	shape := r.Intn(4)
	m := 5 + r.Intn(4)
	for i := 0; i < n; i++ {
		k := bcopy(p)
		switch shape {
		case 2:
			k = append(k, g.bytes("0123456789abcdef", m)...)
		case 3:
			k = strconv.AppendInt(k, int64(i), 10)
		default:
			k = append(k, byte(i>>8), byte(i))
			if i%7 == 0 {
				k = append(k, g.bytes(lower, r.Intn(4))...)
			}
		}
		g.add(k)
		if r.Intn(8) != 0 {
			g.p.Init = append(g.p.Init, Init{Key: k, Val: g.value()})
		}
	}
	if r.Intn(4) == 0 {
		in := g.p.Init
		for i := len(in) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			in[i], in[j] = in[j], in[i]
		}
	}
}

// giants says that one in so many runs of a property has more than 2^16 keys.
func giants(prop string) int {
	switch prop {
	case "C02":
		return 500
	case "C03":
		return 2000
	case "C06", "C07", "C08", "C10", "C11", "C16":
		return 3000
	}
	return 1 << 30
}

// giant makes a tree with more than 2^16 keys, for a short program.
func (g *gen) giant() {
	r := g.r
	p := g.prefix()
	n := 1<<16 + r.Intn(70)
	for i := 0; i < n; i++ {
		k := append(bcopy(p), byte(i>>12), byte(i>>4), byte(i<<4))
		g.add(k)
		g.p.Init = append(g.p.Init, Init{Key: k, Val: g.value()})
	}
	g.pf.tasks = [2]int{1, 1}
	g.pf.snips = [2]int{1, 3}
}

// huge makes few keys with a common part of about 64 KiB.
func (g *gen) huge() {
	r := g.r
	p := g.bytes(lower, []int{65500, 65535, 65536, 65540, 65546, 66000}[r.Intn(6)]+r.Intn(12))
	n := []int{2, 3, 5, 18}[r.Intn(4)]
	for i := 0; i < n; i++ {
		g.add(append(bcopy(p), byte(i*14+r.Intn(3))))
	}
	for i := 0; i < 3; i++ {
		k := bcopy(p)
		j := r.Intn(len(k))
		if r.Intn(2) == 0 {
			j = len(k) - 1 - r.Intn(20)
		}
		k[j] = byte(r.Intn(256))
		g.add(k)
		g.add(bcopy(p[:j]))
	}
	g.add([]byte("a"))
	g.add(p)
}

func (g *gen) value() int {
	g.val++
	switch g.r.Intn(40) {
	case 0:
		return 0
	case 1, 2:
		return 1 + g.r.Intn(2) // not the first time
	}
	return g.val
}

// key picks a key for an operation: mostly from the pool, sometimes a neighbour.
func (g *gen) key() []byte {
	r := g.r
	k := bcopy(g.pool[r.Intn(len(g.pool))])
	switch r.Intn(20) {
	case 0:
		return k[:r.Intn(len(k)+1)]
	case 1:
		return append(k, g.bytes(specials+"b", 1+r.Intn(2))...)
	case 2:
		if len(k) > 0 {
			i := len(k) - 1
			if r.Intn(2) == 0 {
				i = r.Intn(len(k))
			}
			if r.Intn(2) == 0 {
				k[i]++
			} else {
				k[i]--
			}
		}
		return k
	case 3:
		if len(k) > 0 && r.Intn(2) == 0 {
			k[r.Intn(len(k))] = specials[r.Intn(len(specials))]
		}
		return k
	}
	return k
}

// near picks an argument for queries: pool keys, prefixes, neighbours.
func (g *gen) near() []byte {
	r := g.r
	k := g.key()
	switch r.Intn(6) {
	case 0, 1:
		if len(k) > 0 {
			return k[:r.Intn(len(k))]
		}
	case 2:
		k = append(k, g.bytes(specials+"b", 1+r.Intn(2))...)
	case 3:
		if len(k) > 0 {
			k[len(k)-1] += byte(r.Intn(3)) - 1
		}
		if r.Intn(3) == 0 {
			k = append(k, g.bytes(specials, 1+r.Intn(12))...)
		}
	}
	return k
}

func (g *gen) pre() []byte {
	r := g.r
	k := g.key()
	switch r.Intn(8) {
	case 0:
		return k
	case 1:
		return g.near()
	case 2:
		if r.Intn(2) == 0 {
			return nil
		}
	}
	if len(k) > 0 {
		// prefer long prefixes
		n := r.Intn(len(k))
		if m := r.Intn(len(k)); m > n {
			n = m
		}
		return k[:n]
	}
	return k
}

func (g *gen) probes() {
	n := 8 + g.r.Intn(4)
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			g.p.Probes = append(g.p.Probes, g.near())
		} else {
			g.p.Probes = append(g.p.Probes, g.key())
		}
	}
}

func (g *gen) op(o Op) {
	g.id++
	o.ID = g.id
	if g.pf.buf > 0 && g.r.P(g.pf.buf) {
		o.Buf = 1 + g.r.Intn(4)
		if o.Buf == BufShared {
			o.Key = g.p.Probes[g.r.Intn(len(g.p.Probes))]
		}
	}
	g.out = append(g.out, o)
}

func (g *gen) slot() int { // a version slot that probably holds something
	if g.nv == 0 {
		return 0
	}
	return g.r.Intn(g.nv + 1)
}

func (g *gen) dst() int {
	if g.nv < 7 {
		g.nv++
		if g.r.Intn(3) > 0 {
			return g.nv
		}
	}
	return g.r.Intn(g.nv + 1)
}

func (g *gen) task(id int) []Op {
	r := g.r
	g.out = nil
	g.open = [4]bool{}
	g.its = [4]bool{}
	g.cm = [4]bool{}
	g.nv = 0
	n := g.pf.snips[0] + r.Intn(g.pf.snips[1]-g.pf.snips[0]+1)
	tot := 0
	for _, w := range g.pf.w {
		tot += w
	}
	for i := 0; i < n; i++ {
		x := r.Intn(tot)
		s := 0
		for ; s < sCount; s++ {
			if x < g.pf.w[s] {
				break
			}
			x -= g.pf.w[s]
		}
		g.snippet(s)
	}
	// finish what is open
	for a := range g.open {
		if g.open[a] && r.Intn(3) > 0 {
			g.end(a)
		}
	}
	for a := range g.its {
		if g.its[a] && r.Intn(2) == 0 {
			g.op(Op{K: INext, A: a, N: 1000})
		}
	}
	return g.out
}

func (g *gen) snippet(s int) {
	r := g.r
	switch s {
	case sLoad:
		g.op(Op{K: VLoad, A: g.dst(), B: r.Intn(4) * r.Intn(2)})
	case sPub:
		g.op(Op{K: VPub, A: g.slot(), B: r.Intn(4) * r.Intn(2)})
	case sTxn:
		g.txn()
	case sCont:
		a := r.Intn(4)
		for i := 0; i < 4 && !g.open[a]; i++ {
			a = (a + 1) % 4
		}
		if !g.open[a] {
			g.txn()
			return
		}
		if g.p.Linear && g.cm[a] {
			g.op(Op{K: TNotify, A: a})
			g.open[a] = false
			return
		}
		if r.Intn(12) == 0 {
			g.op(Op{K: TTrack, A: a, B: r.Intn(2)})
		}
		g.body(a, 1+r.Intn(4))
		if r.Intn(2) == 0 {
			g.end(a)
		}
	case sRead:
		g.read()
	case sOpen:
		a := r.Intn(4)
		g.its[a] = true
		k := g.pf.its[r.Intn(len(g.pf.its))]
		g.op(Op{K: IOpen, A: a, B: g.slot(), C: k, Key: g.arg(k)})
	case sNext:
		a := r.Intn(4)
		for i := 0; i < 4 && !g.its[a]; i++ {
			a = (a + 1) % 4
		}
		if !g.its[a] {
			g.snippet(sOpen)
			return
		}
		g.op(Op{K: INext, A: a, N: 1 + r.Intn(4)*r.Intn(8)})
	case sWatch:
		for i := 0; i < 1+r.Intn(3); i++ {
			v := g.slot()
			if g.p.Linear && r.Intn(2) == 0 {
				v = g.dst()
				g.op(Op{K: VLoad, A: v})
			}
			if r.Intn(3) == 0 {
				g.op(Op{K: VWatchP, A: v, B: r.Intn(2), Key: g.pre()})
			} else {
				g.op(Op{K: VWatch, A: v, Key: g.key()})
			}
		}
	case sOneShot:
		k := VInsert
		switch x := r.Intn(12 + g.pf.delp); {
		case x >= 12:
			k = VDelPrefix
		case x >= 7:
			k = VDelete
		}
		key := g.key()
		if k == VDelPrefix {
			key = g.pre()
		}
		g.op(Op{K: k, A: g.slot(), B: g.dst(), Key: key, Val: g.value()})
	case sRecheck:
		g.op(Op{K: VRecheck, A: g.slot()})
	case sVClone:
		g.op(Op{K: VClone, A: g.slot(), B: g.dst()})
	case sRecv:
		a := r.Intn(4)
		g.op(Op{K: TRecv, A: a, B: r.Intn(2)})
		g.open[a] = true
		g.cm[a] = false
		g.body(a, 1+r.Intn(4))
		if r.Intn(2) == 0 {
			g.end(a)
		}
	case sNotify:
		a := r.Intn(4)
		for i := 0; i < 4 && !g.cm[a]; i++ {
			a = (a + 1) % 4
		}
		g.op(Op{K: TNotify, A: a})
	}
}

func (g *gen) arg(kind int) []byte {
	switch kind {
	case itPrefix, itRevPrefix:
		return g.pre()
	case itFwd, itRev, itLBAll:
		return nil
	case itPath:
		return append(g.key(), g.bytes(specials+"ab", g.r.Intn(4))...)
	}
	return g.near()
}

func (g *gen) read() {
	r := g.r
	o := Op{K: g.pf.rd[r.Intn(len(g.pf.rd))], A: g.slot()}
	g.readArg(&o)
	g.op(o)
}

func (g *gen) readArg(o *Op) {
	r := g.r
	switch o.K {
	case VGet, TGet:
		o.Key = g.key()
	case VLP, TLP, VPath, TPath:
		o.Key = g.arg(itPath)
		if r.Intn(3) == 0 {
			o.Key = g.near()
		}
	case VIter, TIter:
		o.B = r.Intn(4)
		if o.B > 0 {
			o.Key = g.pre()
		}
	case VLB, TLB:
		o.Key = g.near()
		if r.Intn(12) == 0 {
			o.B = 1
		}
	case VRev, TRev:
		o.B = r.Intn(3)
		if o.B == 1 {
			o.Key = g.pre()
		} else if o.B == 2 {
			o.Key = g.near()
		}
	case TMinMax:
		o.B = r.Intn(2)
	case VNodes, TNodes:
		o.B = r.Intn(4)
		if o.B == 3 {
			o.Key = g.pre()
		}
	case VWalk:
		o.B = max(0, r.Intn(9)-5)
		if r.Intn(3) == 0 {
			o.N = 1 + r.Intn(10)
		}
	}
}

func (g *gen) txn() {
	r := g.r
	a := r.Intn(4)
	for i := 0; i < 4 && g.open[a]; i++ {
		a = (a + 1) % 4
	}
	v := g.slot()
	if g.p.Linear {
		v = 0
		g.op(Op{K: VLoad, A: 0})
	} else if r.Intn(4) == 0 {
		v = g.dst()
		g.op(Op{K: VLoad, A: v, B: r.Intn(2)})
	}
	g.op(Op{K: TBegin, A: a, B: v, Track: r.P(g.pf.track)})
	g.open[a] = true
	g.cm[a] = false
	n := 1 + r.Intn(5)
	if r.Intn(6) == 0 {
		n = 10 + r.Intn(15)
	}
	g.body(a, n)
	if r.Intn(4) > 0 {
		g.end(a)
	}
}

func (g *gen) body(a, n int) {
	r := g.r
	if g.p.Linear && g.cm[a] {
		return
	}
	if r.P(g.pf.clone / 2) {
		a = g.fork(a)
	}
	for i := 0; i < n; i++ {
		if g.pf.w[sWatch] > 0 && r.Intn(6) == 0 {
			if r.Intn(3) == 0 {
				g.op(Op{K: TWatchP, A: a, B: r.Intn(2), Key: g.pre()})
			} else {
				g.op(Op{K: TWatch, A: a, Key: g.key()})
			}
		}
		g.write(a)
		if r.Intn(25) == 0 {
			// no effect on a transaction that tracks already, or else skipped
			g.op(Op{K: TTrack, A: a})
		}
		if r.Intn(3) == 0 {
			o := Op{K: g.pf.trd[r.Intn(len(g.pf.trd))], A: a}
			g.readArg(&o)
			g.op(o)
		}
		if r.P(g.pf.recheck) {
			g.op(Op{K: TRecheck, A: a})
		}
		if r.P(g.pf.clone / 2) {
			a = g.fork(a)
		}
	}
}

// fork clones a transaction and returns the one to continue with.
func (g *gen) fork(a int) int {
	r := g.r
	b := r.Intn(4)
	if b == a {
		return a
	}
	g.op(Op{K: TClone, A: a, B: b})
	g.open[b] = true
	g.cm[b] = false
	if r.P(g.pf.track) && r.Intn(2) == 0 {
		g.op(Op{K: TTrack, A: b})
	}
	if r.Intn(3) == 0 {
		g.op(Op{K: TSend, A: b, B: r.Intn(2)})
		g.open[b] = false
	} else if r.Intn(2) == 0 {
		a, b = b, a
	}
	if r.Intn(2) == 0 {
		g.op(Op{K: TRecheck, A: a})
	}
	return a
}

func (g *gen) write(a int) {
	r := g.r
	switch x := r.Intn(20 + g.pf.delp); {
	case x < 9:
		g.op(Op{K: TInsert, A: a, Key: g.key(), Val: g.value()})
	case x < 18:
		g.op(Op{K: TDelete, A: a, Key: g.key()})
	case x < 20:
		// bulk: a contiguous or random part of the pool
		k := TBulkIns
		if r.Intn(2) == 0 {
			k = TBulkDel
		}
		n := 1 + r.Intn(len(g.pool))
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(min(len(g.pool), 20))
		}
		var ks [][]byte
		st := r.Intn(len(g.pool))
		for i := 0; i < n; i++ {
			ks = append(ks, g.pool[(st+i)%len(g.pool)])
		}
		if r.Intn(2) == 0 {
			for i := len(ks) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		o := Op{K: k, A: a, Keys: ks}
		if k == TBulkIns {
			o.Val = g.val + 1
			g.val += n
		}
		g.op(o)
	default:
		g.op(Op{K: TDelPrefix, A: a, Key: g.pre()})
	}
}

func (g *gen) end(a int) {
	r := g.r
	if g.p.Linear {
		if g.cm[a] || r.Intn(8) == 0 {
			if !g.cm[a] {
				g.op(Op{K: TAbort, A: a})
				g.open[a] = false
			}
			return
		}
		g.op(Op{K: TLinear, A: a, B: g.dst()})
		g.cm[a] = true
		if r.P(g.pf.notifies) {
			g.op(Op{K: TNotify, A: a})
			if r.Intn(4) > 0 {
				g.open[a] = false
			}
		}
		return
	}
	switch r.Intn(10) {
	case 0:
		g.op(Op{K: TAbort, A: a})
		g.open[a] = false
		g.cm[a] = false
	case 1:
		g.op(Op{K: TSend, A: a, B: r.Intn(2)})
		g.open[a] = false
		g.cm[a] = false
	case 2, 3, 4:
		d := g.dst()
		g.op(Op{K: TCommitOnly, A: a, B: d})
		g.cm[a] = true
		g.publish(d)
		if r.P(g.pf.notifies) {
			g.op(Op{K: TNotify, A: a})
		}
		if r.Intn(3) > 0 {
			g.open[a] = false
		}
	default:
		d := g.dst()
		g.op(Op{K: TCommit, A: a, B: d})
		g.cm[a] = true
		g.publish(d)
		if r.Intn(8) == 0 {
			g.op(Op{K: TCommit, A: a, B: g.dst()})
		}
		if r.Intn(3) > 0 {
			g.open[a] = false
		}
	}
}

func (g *gen) publish(d int) {
	if g.r.Intn(2) == 0 {
		g.op(Op{K: VPub, A: d, B: g.r.Intn(4) * g.r.Intn(2)})
	}
}

// freeze picks an operation (or a few) whose task never comes back from it.
func (g *gen) freeze() {
	r := g.r
	n := 1
	if r.Intn(3) == 0 {
		n = 2
	}
	for i := 0; i < n && len(g.p.Tasks) > 1; i++ {
		t := g.p.Tasks[r.Intn(len(g.p.Tasks)-1)]
		if len(t) == 0 {
			continue
		}
		o := &t[r.Intn(len(t))]
		o.Freeze = 1 + int64(r.Intn([]int{5, 30, 150, 600}[r.Intn(4)]))
	}
}
