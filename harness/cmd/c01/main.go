// C01: a built trie answers every query exactly like the map it was built from.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verif/harness/engine"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/dartsclone"
)

func bkeys(keys []string) [][]byte {
	out := make([][]byte, len(keys))
	for i, k := range keys {
		out[i] = []byte(k)
	}
	return out
}

func build(t *engine.T, keys []string, values []int) *dartsclone.DoubleArray {
	bk := bkeys(keys)
	var vals []int
	if values != nil {
		vals = append([]int{}, values...)
	}
	da := dartsclone.NewDoubleArray()
	if err := da.Build(bk, vals, nil); err != nil {
		t.Fail("build", "Build of a valid key list fails: %v", err)
		return nil
	}
	for i, k := range bk {
		if string(k) != keys[i] {
			t.Fail("mutate", "Build changed key %d", i)
		}
	}
	for i := range vals {
		if vals[i] != values[i] {
			t.Fail("mutate", "Build changed value %d", i)
		}
	}
	return da
}

func checkQuery(t *engine.T, da *dartsclone.DoubleArray, m *ref.TrieModel, q string, full bool) bool {
	bq := []byte(q)
	gv, gl := da.ExactMatchSearch(bq)
	wv, wl := m.Exact(q)
	if gv != wv || gl != wl {
		t.Fail("exact", "ExactMatchSearch(%q) = (%d,%d), want (%d,%d)", q, gv, gl, wv, wl)
		return false
	}
	maxOff := 0
	if full {
		maxOff = len(q)
	}
	for off := 0; off <= maxOff; off++ {
		want := m.Common(q, off)
		lims := []int{len(want) + 1}
		if full {
			lims = nil
			for l := 0; l <= len(want)+1; l++ {
				lims = append(lims, l)
			}
		}
		for _, lim := range lims {
			got := da.CommonPrefixSearch(bq, off, lim)
			w := want
			if lim < len(w) {
				w = w[:lim]
			}
			if len(got) != len(w) {
				t.Fail("common", "CommonPrefixSearch(%q,%d,%d) = %v, want %v", q, off, lim, got, w)
				return false
			}
			for i := range w {
				if got[i] != w[i] {
					t.Fail("common", "CommonPrefixSearch(%q,%d,%d) = %v, want %v", q, off, lim, got, w)
					return false
				}
			}
		}
		it := da.CommonPrefixSearchItr(bq, off)
		for i := 0; ; i++ {
			n := it.Next()
			if n != (i < len(want)) {
				t.Fail("iter", "iterator(%q,%d): Next #%d = %v, want %v", q, off, i, n, i < len(want))
				return false
			}
			if !n {
				break
			}
			v, e := it.Get()
			if [2]int{v, e} != want[i] {
				t.Fail("iter", "iterator(%q,%d): result #%d = (%d,%d), want %v", q, off, i, v, e, want[i])
				return false
			}
			t.Transition(1)
		}
		if it.Err() != nil || it.Next() {
			t.Fail("iter", "iterator(%q,%d): error %v or more results after the end", q, off, it.Err())
			return false
		}
	}
	t.Transition(1)
	t.Trace(1)
	return true
}

// checkTraverse walks q in all ways of cutting it into up to three pieces.
func checkTraverse(t *engine.T, da *dartsclone.DoubleArray, m *ref.TrieModel, q string) bool {
	bq := []byte(q)
	n := len(q)
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			cuts := []int{0, a, b, n}
			node := 0
			for p := 0; p < 3; p++ {
				from, to := cuts[p], cuts[p+1]
				r := da.Traverse(bq, from, to, node)
				t.Transition(1)
				l := m.Walk(q[:from], q[from:to])
				if l < to-from {
					if r.Result != -2 || r.Offset != from+l {
						t.Fail("traverse", "Traverse of %q piece [%d,%d) of cuts %v: got %+v, want mismatch at %d", q, from, to, cuts, *r, from+l)
						return false
					}
					// the node returned with a mismatch is the deepest node reached: an
					// empty walk from it must tell whether that prefix is a key
					r2 := da.Traverse(bq, from+l, from+l, r.NodePosition)
					want := -1
					if v, ok := m.Val[q[:from+l]]; ok {
						want = v
					}
					if r2.Result != want {
						t.Fail("traverse", "Traverse of %q cuts %v: node after mismatch at %d gives %d, want %d", q, cuts, from+l, r2.Result, want)
						return false
					}
					break
				}
				want := -1
				if v, ok := m.Val[q[:to]]; ok {
					want = v
				}
				if r.Result != want || r.Offset != to {
					t.Fail("traverse", "Traverse of %q piece [%d,%d) of cuts %v: got %+v, want result %d offset %d", q, from, to, cuts, *r, want, to)
					return false
				}
				node = r.NodePosition
			}
		}
	}
	t.Trace(1)
	return true
}

func checkIterSeqs(t *engine.T, da *dartsclone.DoubleArray, m *ref.TrieModel, q string, depth int) bool {
	want := m.Common(q, 0)
	bq := []byte(q)
	for s := 0; s < 1<<uint(depth); s++ {
		it := da.CommonPrefixSearchItr(bq, 0)
		pos, bad := 0, false
		for d := 0; d < depth; d++ {
			if s>>uint(d)&1 == 0 {
				got := it.Next()
				w := !bad && pos < len(want)
				if got != w {
					t.Fail("iterseq", "iterator over %q, calls %b, call %d: Next=%v want %v", q, s, d, got, w)
					return false
				}
			} else {
				v, e := it.Get()
				if pos < len(want) {
					if v != want[pos][0] || e != want[pos][1] {
						t.Fail("iterseq", "iterator over %q, calls %b, call %d: Get=(%d,%d) want %v", q, s, d, v, e, want[pos])
						return false
					}
					pos++
				} else {
					bad = true
					if v != -1 {
						t.Fail("iterseq", "iterator over %q, calls %b: Get past the end = %d", q, s, v)
						return false
					}
				}
			}
			if (it.Err() != nil) != bad {
				t.Fail("iterseq", "iterator over %q, calls %b, call %d: Err=%v, past the end: %v", q, s, d, it.Err(), bad)
				return false
			}
			t.Transition(1)
		}
		t.State("it", q, pos, fmt.Sprint(bad), fmt.Sprint(want))
	}
	return true
}

// universe of all strings of length 1..max over the alphabet, in byte order
func universe(alpha string, max int) []string {
	var out []string
	var rec func(p string)
	rec = func(p string) {
		if p != "" {
			out = append(out, p)
		}
		if len(p) >= max {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(p + alpha[i:i+1])
		}
	}
	rec("")
	sort.Strings(out)
	return out
}

func queries(alpha string, max int) []string {
	return append([]string{""}, universe(alpha, max)...)
}

func pick(u []string, mask int64) []string {
	var out []string
	for i := range u {
		if mask>>uint(i)&1 == 1 {
			out = append(out, u[i])
		}
	}
	return out
}

const big = 1<<31 - 1

var valueModes = []string{"none", "position", "all equal", "mod 2", "mod 3", "descending", "near 2^31", "large equal"}

func values(mode int, n int) []int {
	v := make([]int, n)
	for i := range v {
		switch mode {
		case 0:
			return nil
		case 1:
			v[i] = i
		case 2:
			v[i] = 0
		case 3:
			v[i] = i % 2
		case 4:
			v[i] = (i / 2) % 3
		case 5:
			v[i] = n - i
		case 6:
			v[i] = big - i%3
		case 7:
			v[i] = 1 << 30
		}
	}
	return v
}

func subsetFamily(name, alpha string, max int, qalpha string, qmax int) *engine.Family {
	u := universe(alpha, max)
	qs := queries(qalpha, qmax)
	mix := engine.NewMix(1<<uint(len(u)), len(valueModes))
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("all %d subsets of the %d strings of length 1..%d over %q, %d value assignments; %d queries (over %q, length 0..%d) at every offset and limit, every split into 3 walks", 1<<uint(len(u)), len(u), max, alpha, len(valueModes), len(qs), qalpha, qmax),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			keys := pick(u, int64(d[0]))
			vals := values(d[1], len(keys))
			t.Input("keys=%q values(%s)=%v", keys, valueModes[d[1]], vals)
			da := build(t, keys, vals)
			if da == nil {
				return
			}
			m := ref.NewTrieModel(keys, vals)
			t.State(fmt.Sprint(keys), fmt.Sprint(vals))
			if d[1] >= 4 {
				// the shape is covered by the other assignments: queries that can be keys only
				for _, q := range u {
					if !checkQuery(t, da, m, q, false) {
						return
					}
				}
				return
			}
			for _, q := range qs {
				if !checkQuery(t, da, m, q, true) {
					return
				}
				if d[1] == 1 && len(q) <= max+1 && len(keys) > 0 {
					if !checkTraverse(t, da, m, q) {
						return
					}
				}
			}
		},
	}
}

// all value partitions for all key sets of size 1..maxKeys
func partitionFamily(name, alpha string, max int, maxKeys int) *engine.Family {
	u := universe(alpha, max)
	var sets []int64
	for m := int64(1); m < 1<<uint(len(u)); m++ {
		c := 0
		for x := m; x != 0; x &= x - 1 {
			c++
		}
		if c <= maxKeys {
			sets = append(sets, m)
		}
	}
	sort.SliceStable(sets, func(i, j int) bool { return len(pick(u, sets[i])) < len(pick(u, sets[j])) })
	// restricted growth strings
	var rgs [][][]int = make([][][]int, maxKeys+1)
	for n := 1; n <= maxKeys; n++ {
		var rec func(cur []int, mx int)
		rec = func(cur []int, mx int) {
			if len(cur) == n {
				rgs[n] = append(rgs[n], append([]int{}, cur...))
				return
			}
			for v := 0; v <= mx; v++ {
				nm := mx
				if v == mx {
					nm++
				}
				rec(append(cur, v), nm)
			}
		}
		rec(nil, 0)
	}
	palette := []int{0, 1, big, 5, 1 << 30, 9, 77}
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("all key sets of 1..%d of the %d strings of length 1..%d over %q with every partition of the keys into equal values", maxKeys, len(u), max, alpha),
		Size:   int64(len(sets)),
		Chunk:  8,
		Run: func(i int64, t *engine.T) {
			keys := pick(u, sets[i])
			t.Input("keys=%q, all value partitions", keys)
			for _, r := range rgs[len(keys)] {
				vals := make([]int, len(keys))
				for k := range r {
					vals[k] = palette[r[k]]
				}
				da := build(t, keys, vals)
				if da == nil {
					t.Fail("build", "keys %q values %v", keys, vals)
					return
				}
				m := ref.NewTrieModel(keys, vals)
				t.State(fmt.Sprint(keys), fmt.Sprint(vals))
				for _, q := range u {
					if !checkQuery(t, da, m, q, false) {
						t.Input("keys=%q values=%v", keys, vals)
						return
					}
				}
			}
		},
	}
}

type large struct {
	name string
	gen  func() ([]string, []int)
}

func grid(n1, n2, n3 int, tail string) []string {
	var keys []string
	for a := 0; a < n1; a++ {
		for b := 0; b < n2; b++ {
			if n3 == 0 {
				keys = append(keys, string([]byte{byte(a + 1), byte(b + 1)})+tail)
				continue
			}
			for c := 0; c < n3; c++ {
				keys = append(keys, string([]byte{byte(a + 1), byte(b + 1), byte(c + 1)})+tail)
			}
		}
	}
	return keys
}

func valsBy(n int, f func(i int) int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = f(i)
	}
	return v
}

func sortKV(keys []string, vals []int) ([]string, []int) {
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
	k2 := make([]string, 0, len(keys))
	var v2 []int
	for n, i := range idx {
		if n > 0 && keys[i] == k2[len(k2)-1] {
			continue
		}
		k2 = append(k2, keys[i])
		if vals != nil {
			v2 = append(v2, vals[i])
		}
	}
	return k2, v2
}

func larges(tier engine.Tier) []large {
	var out []large
	add := func(n string, g func() ([]string, []int)) { out = append(out, large{n, g}) }
	for _, n := range []int{1, 15, 16, 17, 127, 254, 255} {
		n := n
		add(fmt.Sprintf("%d single bytes", n), func() ([]string, []int) {
			var k []string
			for i := 1; i <= n; i++ {
				k = append(k, string([]byte{byte(i)}))
			}
			return k, valsBy(len(k), func(i int) int { return i })
		})
	}
	for _, n1 := range []int{3, 17, 40, 100, 255} {
		for _, mode := range []int{0, 1, 2, 3, 4} {
			n1, mode := n1, mode
			add(fmt.Sprintf("%dx255 two-byte keys, values %s", n1, valueModes[mode]), func() ([]string, []int) {
				k := grid(n1, 255, 0, "")
				return k, values(mode, len(k))
			})
		}
	}
	for _, step := range []int{2, 3, 5, 7, 16} {
		step := step
		for _, mode := range []int{0, 1, 3} {
			mode := mode
			add(fmt.Sprintf("sparse grid step %d values %s", step, valueModes[mode]), func() ([]string, []int) {
				var k []string
				for a := 1; a < 256; a += step {
					for b := (a % step) + 1; b < 256; b += step {
						k = append(k, string([]byte{byte(a), byte(b)}))
						if (a+b)%3 == 0 {
							k = append(k, string([]byte{byte(a), byte(b), byte(255-a) | 1}))
						}
						if b%11 == 0 {
							k = append(k, string([]byte{byte(a)}))
						}
					}
				}
				k, _ = sortKV(k, nil)
				return k, values(mode, len(k))
			})
		}
	}
	// long chains and nested prefixes
	for _, n := range []int{31, 32, 33, 255, 256, 257, 1000, 5000} {
		n := n
		add(fmt.Sprintf("nested prefixes up to %d", n), func() ([]string, []int) {
			var k []string
			s := []byte{}
			for i := 0; i < n; i++ {
				s = append(s, byte(i%255+1))
				k = append(k, string(s))
			}
			return k, valsBy(len(k), func(i int) int { return i % 7 })
		})
	}
	// word-like multi-byte keys: CJK grid with suffix sharing (sudachi stores byte positions)
	add("kanji pairs", func() ([]string, []int) {
		var k []string
		for a := 0; a < 60; a++ {
			k = append(k, string(rune(0x4e00+a*7)))
			for b := 0; b < 60; b++ {
				k = append(k, string([]rune{rune(0x4e00 + a*7), rune(0x3041 + b)}))
				if (a+b)%4 == 0 {
					k = append(k, string([]rune{rune(0x4e00 + a*7), rune(0x3041 + b), 'る'}))
				}
			}
		}
		k, _ = sortKV(k, nil)
		return k, valsBy(len(k), func(i int) int { return i * 5 })
	})
	add("kanji pairs, shared values", func() ([]string, []int) {
		var k []string
		for a := 0; a < 60; a++ {
			for b := 0; b < 60; b++ {
				k = append(k, string([]rune{rune(0x4e00 + a*7), rune(0x3041 + b), 'ま', 'す'}))
				k = append(k, string([]rune{rune(0x4e00 + a*7), rune(0x3041 + b), 'る'}))
			}
		}
		k, _ = sortKV(k, nil)
		return k, valsBy(len(k), func(i int) int { return i % 2 })
	})
	n3 := 34
	if tier == engine.Thorough {
		n3 = 70
	}
	// beyond 2^21 units: long relative offsets, and shared suffixes at both ends
	add("wide trie beyond 2^21 units, distinct values, shared tails at both ends", func() ([]string, []int) {
		k := grid(255, 255, n3, "")
		v := valsBy(len(k), func(i int) int { return i + 10 })
		for _, p := range []string{"\x01\x01\x01", "\x01\x80\x02", "\x80\x80\x03", "\xff\xff\x02", "\xfe\x01\x01"} {
			for _, tl := range []string{"zz", "za", "y"} {
				k = append(k, p+tl)
				v = append(v, len(tl))
			}
		}
		return sortKV(k, v)
	})
	add("wide trie beyond 2^21 units, no values", func() ([]string, []int) {
		k := grid(255, 255, n3, "")
		return k, nil
	})
	return out
}

func checkLarge(t *engine.T, keys []string, vals []int, pairs bool) {
	da := build(t, keys, vals)
	if da == nil {
		return
	}
	t.State(len(keys), fmt.Sprint(da.Length()))
	val := func(i int) int {
		if vals == nil {
			return i
		}
		return vals[i]
	}
	// every key exact; every key as prefix query with its own prefixes found by a stack walk in sorted order
	var stack []int
	buf := make([]byte, 0, 8192)
	for i, k := range keys {
		for len(stack) > 0 {
			p := keys[stack[len(stack)-1]]
			if len(p) < len(k) && k[:len(p)] == p {
				break
			}
			stack = stack[:len(stack)-1]
		}
		buf = append(append(buf[:0], k...), 0xff, 1)
		v, l := da.ExactMatchSearch(buf[:len(k)])
		if v != val(i) || l != len(k) {
			t.Fail("exact", "ExactMatchSearch(%q)=(%d,%d), want (%d,%d)", k, v, l, val(i), len(k))
			return
		}
		if len(keys) < 100000 || i%17 == 0 {
			if len(stack) < 50 {
				got := da.CommonPrefixSearch(buf[:len(k)], 0, len(stack)+2)
				if len(got) != len(stack)+1 {
					t.Fail("common", "CommonPrefixSearch(%q) finds %d keys, want %d", k, len(got), len(stack)+1)
					return
				}
				for j, s := range append(append([]int{}, stack...), i) {
					if got[j] != [2]int{val(s), len(keys[s])} {
						t.Fail("common", "CommonPrefixSearch(%q)[%d]=%v, want %v", k, j, got[j], [2]int{val(s), len(keys[s])})
						return
					}
				}
			}
		}
		t.Transition(1)
		stack = append(stack, i)
	}
	t.Trace(len(keys))
	// absent queries next to every key (sampled by nothing: all for small, fixed stride for wide ones)
	stride := 1
	if len(keys) > 100000 {
		stride = 97
	}
	has := func(s []byte) (int, bool) {
		j := sort.SearchStrings(keys, string(s))
		if j < len(keys) && keys[j] == string(s) {
			return j, true
		}
		return 0, false
	}
	for i := 0; i < len(keys); i += stride {
		k := []byte(keys[i])
		var cand [][]byte
		cand = append(cand, k[:len(k)-1])
		for _, d := range []byte{0, 1, 0x7f, 0x80, 0xff, k[len(k)-1] + 1, k[len(k)-1] - 1} {
			c := append([]byte{}, k...)
			c[len(c)-1] = d
			cand = append(cand, c, append(append([]byte{}, k...), d))
			c2 := append([]byte{}, k...)
			c2[0] = d
			cand = append(cand, c2)
		}
		for _, c := range cand {
			v, l := da.ExactMatchSearch(c)
			j, ok := has(c)
			w, wl := -1, 0
			if ok {
				w, wl = val(j), len(c)
			}
			if v != w || l != wl {
				t.Fail("exact", "ExactMatchSearch(%q)=(%d,%d), want (%d,%d)", c, v, l, w, wl)
				return
			}
			t.Transition(1)
		}
	}
	// every single byte and every pair of bytes as a query
	for a := 0; a < 256; a++ {
		for b := -1; b < 256 && (b < 0 || pairs); b++ {
			q := []byte{byte(a)}
			if b >= 0 {
				q = append(q, byte(b))
			}
			v, _ := da.ExactMatchSearch(q)
			j, ok := has(q)
			w := -1
			if ok {
				w = val(j)
			}
			if v != w {
				t.Fail("exact", "ExactMatchSearch(%q)=%d, want %d", q, v, w)
				return
			}
		}
	}
	// an identical answer after saving and reloading
	var bb bytes.Buffer
	n, err := da.Save(&bb)
	if err != nil || n != bb.Len() || n != da.TotalSize() || n != 4*da.Length() {
		t.Fail("save", "Save wrote %d bytes (err %v), TotalSize %d, Length %d", n, err, da.TotalSize(), da.Length())
		return
	}
	d2 := dartsclone.NewDoubleArray()
	d2.SetBuffer(bb.Bytes())
	if d2.Length() != da.Length() || d2.TotalSize() != da.TotalSize() {
		t.Fail("save", "reloaded array has length %d, want %d", d2.Length(), da.Length())
		return
	}
	for i := 0; i < len(keys); i += stride {
		if v, _ := d2.ExactMatchSearch([]byte(keys[i])); v != val(i) {
			t.Fail("save", "after reload ExactMatchSearch(%q)=%d, want %d", keys[i], v, val(i))
			return
		}
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	var fs []*engine.Family
	fs = append(fs, subsetFamily("sub-a-deep", "a", 6, "ab", 5))
	fs = append(fs, subsetFamily("sub-ab3", "ab", 3, "ab\x00", 4))
	if tier == engine.Thorough {
		fs = append(fs, subsetFamily("sub-hi3", "\x01\xff", 3, "\x01\xff\x00", 4))
		fs = append(fs, subsetFamily("sub-abc2", "a\x80\xff", 2, "a\x80\xffb\x00", 3))
		fs = append(fs, subsetFamily("sub-4x2", "\x01\x02\x03\xfe", 2, "\x01\x02\x03\xfe\x00", 3))
		fs = append(fs, partitionFamily("partitions", "ab", 3, 6))
		fs = append(fs, partitionFamily("partitions3", "a\x80\xff", 2, 6))
		fs = append(fs, partitionFamily("partitions-deep", "ab", 4, 4))
	} else {
		fs = append(fs, subsetFamily("sub-abc2", "a\x80\xff", 2, "a\x80\xffb\x00", 3))
		fs = append(fs, partitionFamily("partitions", "ab", 3, 5))
		fs = append(fs, partitionFamily("partitions3", "a\x80\xff", 2, 4))
	}
	{
		// endings shared at every position: runs of nodes that all have several parents
		n := 70
		if tier == engine.Thorough {
			n = 140
		}
		chars := []string{"the same byte", "a run of bytes", "two bytes in turn", "0xff downwards"}
		shapes := []string{"one key for each ending", "two keys for each ending", "every third ending", "two words with the whole ending", "every ending is a key too", "two endings that differ at the end"}
		vm := []int{0, 1, 2, 3, 6}
		mix := engine.NewMix(n, len(chars), len(shapes), len(vm))
		fs = append(fs, &engine.Family{
			Name: "endings", Bounds: fmt.Sprintf("words that end in the endings of one text of 1..%d bytes (%v; %v) with %d value assignments: every key, every beginning of a key, every ending", n, chars, shapes, len(vm)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				l := q[0] + 1
				var s []byte
				for k := 0; k < l; k++ {
					switch q[1] {
					case 0:
						s = append(s, 'x')
					case 1:
						s = append(s, byte(1+k))
					case 2:
						s = append(s, "xy"[k%2])
					case 3:
						s = append(s, byte(255-k))
					}
				}
				var keys []string
				for k := 0; k < l; k++ {
					e := string(s[k:])
					c := string([]byte{byte(k + 1)})
					switch q[2] {
					case 0:
						keys = append(keys, c+e)
					case 1:
						keys = append(keys, c+e, c+c+c+e)
					case 2:
						if k%3 == 0 {
							keys = append(keys, c+e)
						}
					case 3:
						if k == 0 {
							keys = append(keys, "\x01"+e, "\x02"+e)
						}
					case 4:
						keys = append(keys, "\x02"+string(s[:k+1]), "\x03"+string(s[:k+1]))
					case 5:
						keys = append(keys, c+e+"\x01", c+e+"\x02")
					}
				}
				vals := values(vm[q[3]], len(keys))
				keys, vals = sortKV(keys, vals)
				t.Input("%s of %s, length %d, values %s", shapes[q[2]], chars[q[1]], l, valueModes[vm[q[3]]])
				t.State(i)
				checkLarge(t, keys, vals, false)
			},
		})
	}
	ls := larges(tier)
	fs = append(fs, &engine.Family{
		Name: "large", Bounds: "key families that fill single blocks, more than 16 blocks and more than 2^21 units; every key, neighbours of keys, all 1- and 2-byte queries",
		Size: int64(len(ls)), Chunk: 1, HangSeconds: 300,
		Run: func(i int64, t *engine.T) {
			t.Input("%s", ls[len(ls)-1-int(i)].name)
			k, v := ls[len(ls)-1-int(i)].gen() // biggest first, for load balance
			checkLarge(t, k, v, true)
		},
	})
	// iterator call sequences
	iterDepth := 7
	u := universe("ab", 2)
	qs := universe("ab", 4)
	fs = append(fs, &engine.Family{
		Name: "iterator", Bounds: fmt.Sprintf("all sequences of %d Next/Get calls over all subsets of the strings of length 1..2 over ab and all queries up to length 4", iterDepth),
		Size: int64(1<<uint(len(u))) - 1,
		Run: func(i int64, t *engine.T) {
			keys := pick(u, i+1)
			t.Input("keys=%q", keys)
			da := build(t, keys, nil)
			if da == nil {
				return
			}
			m := ref.NewTrieModel(keys, nil)
			for _, q := range qs {
				if !checkIterSeqs(t, da, m, q, iterDepth) {
					return
				}
			}
			t.Trace(len(qs))
		},
	})
	// files and reuse of the object
	fs = append(fs, &engine.Family{
		Name: "files", Bounds: "save, map from a file at position 0 and at a page offset, clear, rebuild the same object with another set (all ordered pairs of 14 subsets)",
		Size: 14 * 14,
		Run: func(i int64, t *engine.T) {
			mk := func(j int64) []string { return pick(u, (j*4+3)%63+1) }
			k1, k2 := mk(i/14), mk(i%14)
			t.Input("first %q then %q", k1, k2)
			da := build(t, k1, nil)
			if da == nil {
				return
			}
			m1, m2 := ref.NewTrieModel(k1, nil), ref.NewTrieModel(k2, values(3, len(k2)))
			saved := append([]byte{}, da.ByteArray()...)
			if err := da.Build(bkeys(k2), values(3, len(k2)), nil); err != nil {
				t.Fail("rebuild", "second Build: %v", err)
				return
			}
			d1 := dartsclone.NewDoubleArray()
			d1.SetBuffer(saved)
			path := filepath.Join(scratch, fmt.Sprintf("t%d", i))
			os.MkdirAll(scratch, 0755)
			for _, pos := range []int64{0, 4096} {
				f, err := os.Create(path)
				if err != nil {
					panic(err)
				}
				f.Write(make([]byte, pos))
				if _, err := da.Save(f); err != nil {
					t.Fail("save", "%v", err)
				}
				sz := int64(da.TotalSize())
				d3 := dartsclone.NewDoubleArray()
				p, s := pos, sz
				if pos == 0 {
					p, s = -1, 0
				}
				if err := d3.Open(f, p, s); err != nil {
					t.Fail("open", "Open at %d: %v", pos, err)
					f.Close()
					return
				}
				f.Close()
				for _, q := range qs {
					if !checkQuery(t, da, m2, q, false) || !checkQuery(t, d1, m1, q, false) || !checkQuery(t, d3, m2, q, false) {
						return
					}
				}
				if d3.Length() != da.Length() {
					t.Fail("open", "length %d, want %d", d3.Length(), da.Length())
				}
				if err := d3.Close(); err != nil {
					t.Fail("close", "%v", err)
				}
			}
			os.Remove(path)
			d5 := dartsclone.NewDoubleArray()
			d5.SetArray(da.Array())
			for _, q := range qs {
				if !checkQuery(t, d5, m2, q, false) {
					return
				}
			}
			if !bytes.Equal(d5.ByteArray(), da.ByteArray()) {
				t.Fail("setarray", "SetArray gives other bytes")
			}
			t.State(fmt.Sprint(k1, k2))
		},
	})
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID:          "C01",
		Level:       "model_checking",
		Rule:        "a state is a distinct key set with its values (reference map); a transition is one model query step compared with the array; a trace is one complete query (all offsets, limits, walks) or key",
		Assumptions: []string{"key sets outside the enumerated universes behave like those inside (small-scope hypothesis); very large arrays are covered by fixed families only"},
		Families:    families,
	})
}
