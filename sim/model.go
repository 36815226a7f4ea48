package sim

import (
	"bytes"
	"sort"
	"strings"
)

// KV is a key with its value.
type KV struct {
	K string
	V any
}

// odd is a kind of value that cannot be compared: the library stores values, it has
// no reason to look at them.
type odd struct {
	n int
	_ []int
}

// val is the value with the number v.
func val(v int) any {
	switch {
	case v == 0:
		return nil
	case v%23 == 0:
		return odd{n: v}
	}
	return v
}

func eq(a, b any) bool {
	if _, ok := a.(*blob); ok {
		return number(a) == number(b)
	}
	if _, ok := b.(*blob); ok {
		return number(a) == number(b)
	}
	if x, ok := a.(odd); ok {
		y, ok := b.(odd)
		return ok && x.n == y.n
	}
	_, ok := b.(odd)
	return !ok && a == b
}

func (a KV) eq(b KV) bool { return a.K == b.K && eq(a.V, b.V) }

// Snap is the reference model of a version: the sorted list of its pairs.
type Snap []KV

func snapOf(m map[string]any) Snap {
	s := make(Snap, 0, len(m))
	for k, v := range m {
		s = append(s, KV{k, v})
	}
	sort.Slice(s, func(i, j int) bool { return s[i].K < s[j].K })
	return s
}

func (s Snap) mapOf() map[string]any {
	m := make(map[string]any, len(s))
	for _, kv := range s {
		m[kv.K] = kv.V
	}
	return m
}

// lb is the index of the first key >= k.
func (s Snap) lb(k string) int {
	return sort.Search(len(s), func(i int) bool { return s[i].K >= k })
}

func (s Snap) get(k string) (any, bool) {
	i := s.lb(k)
	if i < len(s) && s[i].K == k {
		return s[i].V, true
	}
	return nil, false
}

func (s Snap) prefix(p string) Snap {
	i := s.lb(p)
	j := i
	for j < len(s) && strings.HasPrefix(s[j].K, p) {
		j++
	}
	return s[i:j]
}

// has tells whether a key begins with p.
func (s Snap) has(p string) bool {
	i := s.lb(p)
	return i < len(s) && strings.HasPrefix(s[i].K, p)
}

func (s Snap) from(k string) Snap { return s[s.lb(k):] }

func (s Snap) upTo(k string) Snap {
	i := s.lb(k)
	if i < len(s) && s[i].K == k {
		i++
	}
	return s[:i]
}

func (s Snap) rev() Snap {
	r := make(Snap, len(s))
	for i := range s {
		r[len(s)-1-i] = s[i]
	}
	return r
}

// prefixesOf lists the stored prefixes of k, shortest first.
func (s Snap) prefixesOf(k string) Snap {
	var r Snap
	for _, kv := range s {
		if kv.K > k {
			break
		}
		if strings.HasPrefix(k, kv.K) {
			r = append(r, kv)
		}
	}
	return r
}

func bcopy(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func sameKey(a []byte, b string) bool { return bytes.Equal(a, []byte(b)) }
