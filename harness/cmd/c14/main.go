// C14: any replacement sequence keeps text and offsets aligned with the original.
package main

import (
	"fmt"
	"strings"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const charDef = "0x3041..0x3093 HIRAGANA\n0x61..0x7A ALPHA\n0x3B1..0x3C9 GREEK\n0x62 GREEK\n0x63 CYRILLIC\n0x430..0x44F CYRILLIC\n0x20000..0x2FFFF KANJI\n0x4E00 KANJI KANJINUMERIC\n0x30..0x39 NUMERIC\n0x4E8C NUMERIC KANJI\n"

var ranges, _ = ref.ParseRanges(charDef)

func cats(c rune) uint32 { return ref.CatsOf(ranges, c) }

func grammar() *dictionary.Grammar {
	cc, err := gs.Cat(charDef)
	if err != nil {
		panic(err)
	}
	return &dictionary.Grammar{CharCategory: cc}
}

type op struct {
	b, e int
	r    []rune
}

func (o op) String() string { return fmt.Sprintf("[%d,%d)=%q", o.b, o.e, string(o.r)) }

// model is a text edited as a plain slice.
type model struct {
	orig []rune
	r    []rune
	off  []int
}

func newModel(s string) *model {
	m := &model{orig: []rune(s), r: []rune(s)}
	for i := 0; i <= len(m.r); i++ {
		m.off = append(m.off, i)
	}
	return m
}

func (m *model) apply(o op) *model {
	n := &model{orig: m.orig}
	n.r = append(append(append([]rune{}, m.r[:o.b]...), o.r...), m.r[o.e:]...)
	n.off = append([]int{}, m.off[:o.b]...)
	for range o.r {
		n.off = append(n.off, m.off[o.b])
	}
	n.off = append(n.off, m.off[o.e:]...)
	return n
}

// compare checks all views of a finished text; when all is false only some.
func compare(m *model, orig string, in *gosudachi.InputText, all bool) string {
	x := ref.NewText(m.r, m.off, m.orig, cats)
	if in.OriginalText != orig {
		return fmt.Sprintf("the original text became %q", in.OriginalText)
	}
	if in.GetText() != x.S || string(in.GetByteText()) != x.S {
		return fmt.Sprintf("text %q (bytes %q), want %q", in.GetText(), in.GetByteText(), x.S)
	}
	n := len(x.S)
	for i := 0; i <= n; i++ {
		if g, w := in.GetOffsetTextLength(i), x.CharAt(i); g != w {
			return fmt.Sprintf("byte %d is in character %d, want %d", i, g, w)
		}
		if g, w := in.GetOriginalIndex(i), m.off[x.CharAt(i)]; g != w {
			return fmt.Sprintf("byte %d comes from original character %d, want %d", i, g, w)
		}
		if i == n {
			break
		}
		al := x.ByteAt(x.CharAt(i)) == i
		if in.IsCharAlignment(i) != al {
			return fmt.Sprintf("byte %d: character alignment is %v", i, !al)
		}
		if g, w := in.CanBow(i), x.CanBegin(i); g != w {
			return fmt.Sprintf("byte %d: a word can begin is %v", i, g)
		}
		if g, w := in.GetCharCategoryTypes(i), x.Cats(i); g != w {
			return fmt.Sprintf("byte %d: classes %#x, want %#x", i, g, w)
		}
		if g, w := in.GetCharCategoryContinuousLength(i), x.RunEnd(i)-i; g != w {
			return fmt.Sprintf("byte %d: class run of %d bytes, want %d", i, g, w)
		}
		if !al {
			continue
		}
		c := x.CharAt(i)
		hi := len(m.r)
		if !all && hi > c+5 {
			hi = c + 5
		}
		for k := 0; c+k <= hi; k++ {
			if g, w := in.GetCodePointsOffsetLength(i, k), x.ByteAt(c+k)-i; g != w {
				return fmt.Sprintf("byte %d: %d characters are %d bytes, want %d", i, k, g, w)
			}
		}
		if all || c%1000 == 0 {
			if g, w := in.GetCodePointsOffsetLength(i, len(m.r)-c+1), n-i; g != w {
				return fmt.Sprintf("byte %d: the rest is %d bytes, want %d", i, g, w)
			}
		}
		for d := c; d <= hi; d++ {
			j := x.ByteAt(d)
			if all || d < c+2 && (n < 50000 || c > len(m.r)-2 || c&0x7fff < 1 || c&0x7fff > 0x7ffe) {
				if g := in.GetSubstring(i, j); g != x.S[i:j] {
					return fmt.Sprintf("substring [%d,%d) is %q, want %q", i, j, g, x.S[i:j])
				}
			}
			if g := in.CodePointCount(i, j); g != d-c {
				return fmt.Sprintf("[%d,%d) has %d characters, want %d", i, j, g, d-c)
			}
			if j > i {
				if g, w := in.GetCharCategoryTypesRange(i, j), x.RangeCats(i, j); g != w {
					return fmt.Sprintf("[%d,%d) has common classes %#x, want %#x", i, j, g, w)
				}
			}
		}
	}
	return ""
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	g := grammar()

	// 1. all edit sequences
	for _, cfg := range []struct {
		name  string
		sym   []string
		max   int
		reps  []string
		depth int
	}{
		{"edits-2", []string{"a", "あ", "𠮷"}, 3, []string{"", "b", "い", "b𠮷", "いい", "い𠮷b", "bbb"}, 2},
		{"edits-3", []string{"a", "あ"}, 3, []string{"", "𠮷", "bい", "い𠮷b"}, 3},
		{"edits-deep", []string{"あ"}, 2, []string{"", "b", "い𠮷"}, 4},
	} {
		cfg := cfg
		if thorough {
			cfg.max++
			if cfg.depth < 3 {
				cfg.depth++
			}
		}
		sp := engine.NewStrings(len(cfg.sym), cfg.max)
		nreps := len(cfg.reps)
		maxRanges := (cfg.max + 1) * (cfg.max + 2) / 2
		fs = append(fs, &engine.Family{
			Name: cfg.name, Bounds: fmt.Sprintf("all texts of up to %d characters over %q, all sequences of up to %d replacements with every range and %d replacement strings %q; every state's every view", cfg.max, cfg.sym, cfg.depth, nreps, cfg.reps),
			Size: sp.Size() * int64(maxRanges*nreps),
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i / int64(maxRanges*nreps)) {
					x += cfg.sym[k]
				}
				k := int(i % int64(maxRanges*nreps))
				m0 := newModel(x)
				// the first replacement
				rk, rep := k/nreps, k%nreps
				var first op
				found := false
				for b, c := 0, 0; b <= len(m0.r) && !found; b++ {
					for e := b; e <= len(m0.r); e++ {
						if c == rk {
							first = op{b, e, []rune(cfg.reps[rep])}
							found = true
						}
						c++
					}
				}
				if !found {
					return
				}
				t.Input("text %q first %v", x, first)
				var walk func(m *model, ops []op)
				walk = func(m *model, ops []op) {
					if t.Failed() {
						return
					}
					bd := gosudachi.NewInputTextBuilder(x, g)
					for _, o := range ops {
						bd.Replace(o.b, o.e, append([]rune{}, o.r...))
					}
					if s := string(bd.GetText()); s != string(m.r) {
						t.Fail("text", "text %q after %v is %q, want %q", x, ops, s, string(m.r))
						return
					}
					if e := compare(m, x, bd.Build(), true); e != "" {
						t.Fail("views", "text %q after %v: %s", x, ops, e)
						return
					}
					t.State(string(m.r), fmt.Sprint(m.off))
					t.Trace(1)
					if len(ops) == cfg.depth {
						return
					}
					for b := 0; b <= len(m.r); b++ {
						for e := b; e <= len(m.r); e++ {
							for _, r := range cfg.reps {
								o := op{b, e, []rune(r)}
								t.Transition(1)
								walk(m.apply(o), append(ops[:len(ops):len(ops)], o))
							}
						}
					}
				}
				if rk == 0 && rep == 0 {
					if e := compare(m0, x, gosudachi.NewInputTextBuilder(x, g).Build(), true); e != "" {
						t.Fail("views", "text %q unedited: %s", x, e)
						return
					}
				}
				t.Transition(1)
				walk(m0.apply(first), []op{first})
			},
		})
	}

	// 2. texts with classes: every text, unedited
	{
		sym := []string{"a", "b", "c", "β", "я", "1", "一", "二", "あ", "\x80", "\n", "\u0000", "𠮷", "é"}
		n := 4
		if thorough {
			n = 5
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "views", Bounds: fmt.Sprintf("all texts of up to %d characters over %q (characters with one and two classes, letters, bytes that are not UTF-8), every index of every view; and after deleting, replacing and inserting one character at each place", n, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				t.Input("text %q", x)
				t.State(x)
				t.Trace(1)
				m := newModel(x)
				if e := compare(m, x, gosudachi.NewInputTextBuilder(x, g).Build(), true); e != "" {
					t.Fail("views", "text %q: %s", x, e)
					return
				}
				for b := 0; b <= len(m.r); b++ {
					for e := b; e <= b+1 && e <= len(m.r); e++ {
						for _, r := range []string{"", "二", "b1"} {
							o := op{b, e, []rune(r)}
							bd := gosudachi.NewInputTextBuilder(x, g)
							bd.Replace(b, e, o.r)
							t.Transition(1)
							if c := compare(m.apply(o), x, bd.Build(), true); c != "" {
								t.Fail("views", "text %q after %v: %s", x, o, c)
								return
							}
						}
					}
				}
			},
		})
	}

	// 3. a finished text is not changed by later edits, nor edits by reading
	{
		sym := []string{"a", "あ", "𠮷"}
		reps := []string{"", "b", "いい", "い𠮷b"}
		sp := engine.NewStrings(len(sym), 3)
		mix := engine.NewMix(len(reps), len(reps))
		fs = append(fs, &engine.Family{
			Name: "snapshots", Bounds: fmt.Sprintf("all texts of up to 3 characters over %q, every pair of replacements with %q, with the text built and read after each; every earlier view re-read at the end", sym, reps),
			Size: sp.Size() * mix.Size(),
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i / mix.Size()) {
					x += sym[k]
				}
				d := mix.Get(i % mix.Size())
				t.Input("text %q replacements %q %q", x, reps[d[0]], reps[d[1]])
				m0 := newModel(x)
				for b := 0; b <= len(m0.r); b++ {
					for e := b; e <= len(m0.r); e++ {
						o1 := op{b, e, []rune(reps[d[0]])}
						m1 := m0.apply(o1)
						for b2 := 0; b2 <= len(m1.r); b2++ {
							for e2 := b2; e2 <= len(m1.r); e2++ {
								o2 := op{b2, e2, []rune(reps[d[1]])}
								m2 := m1.apply(o2)
								bd := gosudachi.NewInputTextBuilder(x, g)
								i0 := bd.Build()
								r1, r2 := append([]rune{}, o1.r...), append([]rune{}, o2.r...)
								bd.Replace(b, e, r1)
								for k := range r1 {
									r1[k] = 'x' // the replacement belongs to the caller
								}
								i1, g1 := bd.Build(), bd.GetText()
								s1 := string(g1)
								for k := range g1 {
									g1[k] = 'x'
								}
								bd.Replace(b2, e2, r2)
								i2 := bd.Build()
								t.Transition(2)
								t.Trace(3)
								t.State(x, o1, o2)
								for k, c := range []string{compare(m0, x, i0, true), compare(m1, x, i1, true), compare(m2, x, i2, true)} {
									if c != "" {
										t.Fail("snapshot", "text %q, %v then %v, view after %d edits: %s", x, o1, o2, k, c)
										return
									}
								}
								if s1 != string(m1.r) {
									t.Fail("snapshot", "text %q after %v reads %q", x, o1, s1)
									return
								}
							}
						}
					}
				}
			},
		})
	}

	// 4. long texts edited from left to right as the plug-ins do
	{
		lens := []int{100, 1000, 2000}
		if thorough {
			lens = append(lens, 5000, 10000)
		}
		steps := []int{1, 2, 7}
		reps := []string{"", "b", "いい", "い𠮷b", "xxxxxxxxxx"}
		mix := engine.NewMix(len(lens), len(steps), 3, len(reps))
		fs = append(fs, &engine.Family{
			Name: "long", Bounds: fmt.Sprintf("texts of %v characters, every %v-th range of 0..2 characters replaced from left to right by one of %q", lens, steps, reps),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				x := strings.Repeat("aあ𠮷1", lens[d[0]]/4)
				t.Input("%d characters, step %d, range %d, replacement %q", lens[d[0]], steps[d[1]], d[2], reps[d[3]])
				t.State(i)
				m := newModel(x)
				bd := gosudachi.NewInputTextBuilder(x, g)
				// the model edits pieces and joins them once
				var r []rune
				var off []int
				rep := []rune(reps[d[3]])
				delta := 0
				pos := 0
				for p := 0; p+d[2] <= len(m.r); p += steps[d[1]] + d[2] {
					r = append(r, m.r[pos:p]...)
					off = append(off, m.off[pos:p]...)
					bd.Replace(p+delta, p+d[2]+delta, rep)
					t.Transition(1)
					for range rep {
						off = append(off, p)
					}
					r = append(r, rep...)
					delta += len(rep) - d[2]
					pos = p + d[2]
				}
				r = append(r, m.r[pos:]...)
				off = append(off, m.off[pos:]...)
				t.Trace(1)
				if c := compare(&model{m.orig, r, off}, x, bd.Build(), false); c != "" {
					t.Fail("long", "%s", c)
				}
			},
		})
	}
	// 5. texts, ranges and replacements of more than 2^16 characters
	{
		lens := []int{70000}
		if thorough {
			lens = append(lens, 65530, 140000, 300000)
		}
		at := []int{0, 1, 32767, 65500, 65529}
		sizes := []int{0, 1, 40000}
		mix := engine.NewMix(len(lens), len(at), len(sizes), len(sizes), 2)
		fs = append(fs, &engine.Family{
			Name: "huge", Bounds: fmt.Sprintf("texts of %v characters, a range of each of %v characters at each of %v replaced by each of %v characters, before or after a replacement at the end of the text (substrings at selected places, all other views everywhere)", lens, sizes, at, sizes),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				n := lens[d[0]]
				x := strings.Repeat("aあ𠮷1二b", n/6+1)
				x = string([]rune(x)[:n])
				b := at[d[1]]
				e := b + sizes[d[2]]
				if e > n {
					return
				}
				ops := []op{{b, e, []rune(strings.Repeat("い𠮷b", sizes[d[3]]/3+1))[:sizes[d[3]]]}}
				if d[4] == 1 {
					ops = append([]op{{n - 1, n, []rune("終わり")}}, ops...)
				} else {
					k := n - sizes[d[2]] + sizes[d[3]]
					ops = append(ops, op{k - 1, k, nil})
				}
				t.Input("%d characters, [%d,%d) replaced by %d characters, order %d", n, b, e, sizes[d[3]], d[4])
				t.State(i)
				m := newModel(x)
				bd := gosudachi.NewInputTextBuilder(x, g)
				for _, o := range ops {
					m = m.apply(o)
					bd.Replace(o.b, o.e, o.r)
					t.Transition(1)
				}
				t.Trace(1)
				if c := compare(m, x, bd.Build(), false); c != "" {
					t.Fail("huge", "%s", c)
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C14", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct edited text with its offsets; a transition is one replacement applied on the real builder and on the model; a trace is one history replayed on the real builder with all views of the finished text compared",
		Assumptions: []string{"an empty range is taken to begin at the character that follows it"},
	})
}
