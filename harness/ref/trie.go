// Package ref holds the reference models. It does not import the code under test.
package ref

import "sort"

// TrieModel is a map of keys to values plus the set of all prefixes.
type TrieModel struct {
	Val      map[string]int
	prefixes map[string]bool
}

func NewTrieModel(keys []string, values []int) *TrieModel {
	m := &TrieModel{Val: map[string]int{}, prefixes: map[string]bool{"": true}}
	for i, k := range keys {
		v := i
		if values != nil {
			v = values[i]
		}
		m.Val[k] = v
		for j := 1; j <= len(k); j++ {
			m.prefixes[k[:j]] = true
		}
	}
	return m
}

func (m *TrieModel) Exact(q string) (int, int) {
	if v, ok := m.Val[q]; ok {
		return v, len(q)
	}
	return -1, 0
}

func (m *TrieModel) Common(q string, off int) [][2]int {
	res := [][2]int{}
	for e := off + 1; e <= len(q); e++ {
		if v, ok := m.Val[q[off:e]]; ok {
			res = append(res, [2]int{v, e})
		}
		if !m.prefixes[q[off:e]] {
			break
		}
	}
	return res
}

// Walk returns the longest n such that base+q[off:off+n] is a prefix of a key.
func (m *TrieModel) Walk(base string, q string) int {
	for n := 0; n < len(q); n++ {
		if !m.prefixes[base+q[:n+1]] {
			return n
		}
	}
	return len(q)
}

func (m *TrieModel) IsPrefix(s string) bool { return m.prefixes[s] }

func SortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
