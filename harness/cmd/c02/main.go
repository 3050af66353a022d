// C02: trie construction rejects invalid key lists with an error.
package main

import (
	"fmt"
	"strings"

	"verif/harness/engine"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/dartsclone"
)

func universe(alpha string, max int) []string {
	out := []string{""}
	s := engine.NewStrings(len(alpha), max)
	for i := int64(1); i < s.Size(); i++ {
		b := []byte{}
		for _, c := range s.Get(i) {
			b = append(b, alpha[c])
		}
		out = append(out, string(b))
	}
	return out
}

func bkeys(keys []string) [][]byte {
	out := make([][]byte, len(keys))
	for i, k := range keys {
		out[i] = []byte(k)
	}
	return out
}

// verdict of the specification: "", "error" or "dup"
func verdict(keys []string, values []int) string {
	dup := false
	for i, k := range keys {
		if strings.IndexByte(k, 0) >= 0 {
			return "error"
		}
		if values != nil && (k == "" || values[i] < 0 || values[i] > 1<<31-1) {
			return "error"
		}
		if i > 0 && k < keys[i-1] {
			return "error"
		}
		if i > 0 && k == keys[i-1] {
			dup = true
		}
	}
	if dup {
		return "dup"
	}
	return ""
}

// brief shows a list.
func brief(keys []string) string {
	if len(keys) > 60 || len(keys) > 0 && len(keys[0]) > 60 {
		return fmt.Sprintf("(%d keys)", len(keys))
	}
	return fmt.Sprintf("%q", keys)
}

func briefV(v []int) string {
	if len(v) > 60 {
		return fmt.Sprintf("(%d values)", len(v))
	}
	return fmt.Sprint(v)
}

func try(t *engine.T, u []string, keys []string, values []int, cb bool) {
	want := verdict(keys, values)
	da := dartsclone.NewDoubleArray()
	var f dartsclone.ProgressFunc
	if cb {
		f = func(int, int) {}
	}
	err := da.Build(bkeys(keys), values, f)
	t.Transition(len(keys))
	t.Trace(1)
	switch {
	case want == "error" && err == nil:
		t.Fail("accepted", "Build(%s, %s) succeeds on an invalid list", brief(keys), briefV(values))
		return
	case want == "" && err != nil:
		t.Fail("rejected", "Build(%s, %s) rejects a valid list: %v", brief(keys), briefV(values), err)
		return
	}
	t.Outcome(want + "/" + fmt.Sprint(err != nil))
	if err == nil {
		var k2 []string
		var v2 []int
		for i, k := range keys {
			if i > 0 && k == keys[i-1] {
				continue
			}
			k2 = append(k2, k)
			if values != nil {
				v2 = append(v2, values[i])
			} else {
				v2 = append(v2, i)
			}
		}
		m := ref.NewTrieModel(k2, v2)
		for _, q := range u {
			v, l := da.ExactMatchSearch([]byte(q))
			wv, wl := m.Exact(q)
			if v != wv || l != wl {
				t.Fail("wrong", "after Build(%s, %s): ExactMatchSearch(%q)=(%d,%d), want (%d,%d)", brief(keys), briefV(values), q, v, l, wv, wl)
				return
			}
		}
	} else {
		// the object must still be usable for a new build
		k := []string{"a", "ab", "b"}
		if err := da.Build(bkeys(k), []int{7, 8, 7}, f); err != nil {
			t.Fail("reuse", "valid build after the failed Build(%s, %s): %v", brief(keys), briefV(values), err)
			return
		}
		m := ref.NewTrieModel(k, []int{7, 8, 7})
		for _, q := range append([]string{"a", "ab", "b"}, u...) {
			v, l := da.ExactMatchSearch([]byte(q))
			wv, wl := m.Exact(q)
			if v != wv || l != wl {
				t.Fail("reuse", "valid build after the failed Build(%s, %s): ExactMatchSearch(%q)=(%d,%d), want (%d,%d)", brief(keys), briefV(values), q, v, l, wv, wl)
				return
			}
		}
	}
	t.State(strings.Join(keys, "\xfe"), fmt.Sprint(len(keys), values))
}

func seqFamily(name, alpha string, maxKey, n int) *engine.Family {
	u := universe(alpha, maxKey)
	mix := engine.NewStrings(len(u), n)
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences (any order, repeats) of 0..%d of the %d strings of length 0..%d over %q, without values, with distinct, equal and mixed values", n, len(u), maxKey, alpha),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			ix := mix.Get(i)
			keys := make([]string, len(ix))
			for k, x := range ix {
				keys[k] = u[x]
			}
			t.Input("keys=%q", keys)
			try(t, u, keys, nil, i%2 == 0)
			if len(keys) == 0 {
				return
			}
			for m := 0; m < 3 && !t.Failed(); m++ {
				v := make([]int, len(keys))
				for k := range v {
					switch m {
					case 0:
						v[k] = k
					case 1:
						v[k] = 3
					case 2:
						v[k] = 1<<31 - 1 - k%2
					}
				}
				try(t, u, keys, v, i%2 == 1)
			}
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	var fs []*engine.Family
	fs = append(fs, seqFamily("seq-ab0", "ab\x00", 2, 4))
	fs = append(fs, seqFamily("seq-a0-deep", "a\x00", 3, 4))
	fs = append(fs, seqFamily("seq-hi", "\x01\x80\xff", 1, 5))
	if tier == engine.Thorough {
		fs = append(fs, seqFamily("seq-ab-5", "ab", 2, 6))
		fs = append(fs, seqFamily("seq-a0-5", "a\x00", 2, 6))
		fs = append(fs, seqFamily("seq-abc0", "ac\x00\xff", 2, 4))
	}
	// values at the boundaries, for all sorted sets
	u := []string{"a", "aa", "ab", "b", "ba", "bb"}
	bv := []int{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 5, 1 << 62, -1, -2, -1 << 31, -1 << 62}
	maxN := 3
	if tier == engine.Thorough {
		maxN = 4
	}
	var sets [][]string
	for m := int64(1); m < 64; m++ {
		ix := engine.Subset(m, 6)
		if len(ix) <= maxN {
			var s []string
			for _, x := range ix {
				s = append(s, u[x])
			}
			sets = append(sets, s)
		}
	}
	nv := 1
	for i := 0; i < maxN; i++ {
		nv *= len(bv)
	}
	mix := engine.NewMix(len(sets), nv)
	fs = append(fs, &engine.Family{
		Name:   "values",
		Bounds: fmt.Sprintf("all sorted key sets of size 1..%d from %q with every assignment of the values %v", maxN, u, bv),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			keys := sets[d[0]]
			v := make([]int, len(keys))
			x := d[1]
			for k := range v {
				v[k] = bv[x%len(bv)]
				x /= len(bv)
			}
			if x != 0 {
				return // same assignment as a smaller index
			}
			t.Input("keys=%q values=%v", keys, v)
			try(t, u, keys, v, false)
		},
	})
	// an invalid entry at each position of a long valid list
	long := 40
	if tier == engine.Thorough {
		long = 300
	}
	kinds := []string{"swap with next", "repeat later", "nul inside", "nul at end", "nul at start", "prefix after its extension", "negative", "empty", "too big"}
	kindList := strings.Join(kinds, ", ")
	// violate makes a list of n+2 keys with a violation of a kind at a position.
	violate := func(n, pos, kind, vm, deep int) ([]string, []int, bool) {
		var keys []string
		var vals []int
		prefix := strings.Repeat("p", deep)
		for k := 0; k < n+2; k++ {
			keys = append(keys, prefix+fmt.Sprintf("k%06dxy", k/2)+strings.Repeat("z", k%2))
			if vm == 1 {
				vals = append(vals, k*3)
			} else if vm == 2 {
				vals = append(vals, k%2)
			}
		}
		at := len(keys[pos]) - len("000xy") // a place within the key
		switch kind {
		case 0:
			keys[pos], keys[pos+1] = keys[pos+1], keys[pos]
		case 1:
			keys[n+1] = keys[pos]
		case 2:
			keys[pos] = keys[pos][:at] + "\x00" + keys[pos][at:]
		case 3:
			keys[pos] += "\x00"
		case 4:
			keys[pos] = "\x00" + keys[pos]
		case 5:
			keys[pos+1] = keys[pos][:at]
		case 6:
			if vm == 0 {
				return nil, nil, false
			}
			vals[pos] = -1 - pos
		case 7:
			keys[pos] = ""
		case 8:
			if vm == 0 {
				return nil, nil, false
			}
			vals[pos] = 1<<31 + pos
		}
		return keys, vals, true
	}
	mix2 := engine.NewMix(long, len(kinds), 3)
	fs = append(fs, &engine.Family{
		Name:   "long",
		Bounds: fmt.Sprintf("one violation of each kind (%s) at each of %d positions of a long list, without values, with distinct and with shared values", kindList, long),
		Size:   mix2.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix2.Get(i)
			keys, vals, ok := violate(long, d[0], d[1], d[2], 0)
			if !ok {
				return
			}
			t.Input("%s at %d, values mode %d", kinds[d[1]], d[0], d[2])
			try(t, keys[:3], keys, vals, true)
		},
	})
	// the same in large lists and far inside long keys
	shapes := [][2]int{{300, 300}, {40, 5000}, {3000, 64}, {20000, 0}, {70000, 0}}
	if tier == engine.Thorough {
		shapes = append(shapes, [2]int{300000, 0}, [2]int{1000, 3000}, [2]int{40, 70000})
	}
	mix3 := engine.NewMix(len(shapes), 7, len(kinds)+1, 3)
	fs = append(fs, &engine.Family{
		Name:   "large",
		Bounds: fmt.Sprintf("lists of n keys with a common prefix of m bytes, (n, m) in %v, without and with one violation of each kind (%s) at the begin, in the middle and at the end, without values, with distinct and with shared values", shapes, kindList),
		Size:   mix3.Size(), Chunk: 1,
		Run: func(i int64, t *engine.T) {
			d := mix3.Get(i)
			n := shapes[d[0]][0]
			pos := []int{0, 1, n / 3, n/2 + 1, n - 2, n - 1, n}[d[1]]
			if d[2] == len(kinds) && d[1] > 0 {
				return
			}
			keys, vals, ok := violate(n, pos, d[2], d[3], shapes[d[0]][1])
			if !ok {
				return
			}
			what := "no violation"
			if d[2] < len(kinds) {
				what = kinds[d[2]]
			}
			t.Input("%d keys with a prefix of %d bytes: %s at %d, values mode %d", n, shapes[d[0]][1], what, pos, d[3])
			try(t, []string{keys[2], keys[n/2], keys[n]}, keys, vals, false)
		},
	})
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C02", Level: "model_checking", Families: families,
		Rule: "a state is a distinct (key list, values) pair with the verdict of the specification; a transition is one key given to Build; a trace is one complete Build compared with the verdict and, when it succeeds, queried",
	})
}
