package sim

import (
	"sort"
	"strings"

	"github.com/absolutelightning/go-immutable-adaptive-radix"
)

// maxNodeKeys bounds the trees whose nodes are traversed: every key is
// iterated over once for each node above it.
const maxNodeKeys = 300

// span is the part of the sorted keys found below a node.
type span struct {
	lo, hi int
	below  []span // of the nodes below it
}

func (s *span) holds(o span) bool { return s.lo <= o.lo && o.hi <= s.hi }

// tiled tells whether the nodes below hold each key once, up to the node's own.
func (s *span) tiled() bool {
	if len(s.below) == 0 {
		return s.hi-s.lo <= 1
	}
	sort.Slice(s.below, func(i, j int) bool { return s.below[i].lo < s.below[j].lo })
	at := s.below[0].lo
	if at > s.lo+1 {
		return false
	}
	for _, b := range s.below {
		if b.lo != at {
			return false
		}
		at = b.hi
	}
	return at == s.hi
}

// nodes traverses the nodes depth first and iterates from each of them.
func (c *taskCtx) nodes(o *Op) bool {
	w := c.w
	t, s, ok := c.treeOf(o)
	if !ok || len(s) > maxNodeKeys {
		return false
	}
	c.units = -1
	if o.B == 3 {
		return c.seekNode(o, t, s)
	}
	var nodes []adaptive.Node[any]
	var runs []Snap
	max := 2*len(s) + 16
	ended := true
	bad := c.do(o, (len(s)+1)*(len(s)+1), func() {
		t.DFS(func(n adaptive.Node[any]) { nodes = append(nodes, n) })
		for i, n := range nodes {
			if w.race && i > 20 {
				break
			}
			var next func() ([]byte, any, bool)
			switch o.B {
			case 0:
				next = n.Iterator().Next
			case 1:
				next = n.ReverseIterator().Previous
			default:
				next = n.LowerBoundIterator().Next
			}
			m := max
			if w.race {
				m = 100
			}
			run, end := c.seq(o, next, m)
			ended = ended && end
			runs = append(runs, run)
		}
	})
	if bad || w.race {
		return true
	}
	w.Stats.Checks++
	tags := kindTags(o)
	if !ended {
		c.fail(o, tags, "an iteration goes on after reporting its end")
		return true
	}
	pos := make(map[string]int, len(s))
	for i, e := range s {
		pos[e.K] = i
	}
	seen := make(map[adaptive.Node[any]]bool, len(nodes))
	var open []span
	closeTop := func() bool {
		top := open[len(open)-1]
		open = open[:len(open)-1]
		if !top.tiled() {
			c.fail(o, tags, "the nodes below one with the %d keys from number %d on do not hold each of them once", top.hi-top.lo, top.lo)
			return false
		}
		if len(open) > 0 {
			up := &open[len(open)-1]
			top.below = nil
			up.below = append(up.below, top)
		}
		return true
	}
	for i, run := range runs {
		if seen[nodes[i]] {
			c.fail(o, tags, "node %d is visited twice", i)
			return true
		}
		seen[nodes[i]] = true
		if o.B == 1 {
			for a, b := 0, len(run)-1; a < b; a, b = a+1, b-1 {
				run[a], run[b] = run[b], run[a]
			}
		}
		var sp span
		for j, e := range run {
			p, ok := pos[e.K]
			if !ok || !e.eq(s[p]) {
				c.fail(o, tags, "iteration from node %d yields %s=%v, which is not stored", i, qk([]byte(e.K)), e.V)
				return true
			}
			if j == 0 {
				sp.lo = p
			}
			if p != sp.lo+j {
				c.fail(o, tags, "iteration from node %d yields %s out of order", i, qk([]byte(e.K)))
				return true
			}
			sp.hi = p + 1
		}
		if i == 0 {
			if len(run) != len(s) {
				c.fail(o, tags, "iteration from the first node yields %d keys, want all %d", len(run), len(s))
				return true
			}
			open = append(open, sp)
			continue
		}
		if len(run) == 0 {
			c.fail(o, tags, "iteration from node %d yields nothing", i)
			return true
		}
		for !open[len(open)-1].holds(sp) {
			if !closeTop() {
				return true
			}
		}
		open = append(open, sp)
	}
	if len(runs) == 0 {
		c.fail(o, tags, "no node is visited")
		return true
	}
	for len(open) > 0 {
		if !closeTop() {
			return true
		}
	}
	return true
}

// seekNode iterates from the node a search for a prefix ends at.
func (c *taskCtx) seekNode(o *Op, t *adaptive.RadixTree[any], s Snap) bool {
	var run Snap
	ended := true
	key, after := c.key(o, o.Key)
	bad := c.do(o, len(s)*2, func() {
		if n := t.Root().Iterator().SeekPrefix(key); n != nil {
			run, ended = c.seq(o, n.Iterator().Next, 2*len(s)+16)
		}
	})
	after()
	if bad || c.w.race {
		return true
	}
	c.w.Stats.Checks++
	tags := kindTags(o)
	if !ended {
		c.fail(o, tags, "an iteration goes on after reporting its end")
		return true
	}
	want := s.prefix(string(o.Key))
	lo := 0
	if len(run) > 0 {
		lo = sort.Search(len(s), func(i int) bool { return s[i].K >= run[0].K })
	}
	found := 0
	for i, e := range run {
		if lo+i >= len(s) || !e.eq(s[lo+i]) {
			c.fail(o, tags, "iteration from the node found for prefix %s yields %s=%v out of order", qk(o.Key), qk([]byte(e.K)), e.V)
			return true
		}
		if strings.HasPrefix(e.K, string(o.Key)) {
			found++
		}
	}
	if found != len(want) {
		c.fail(o, tags, "iteration from the node found for prefix %s yields %d of the %d keys with it", qk(o.Key), found, len(want))
	}
	return true
}
