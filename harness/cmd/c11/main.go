// C11: a tokenizer's answer does not depend on what it tokenized before.
package main

import (
	"fmt"
	"io"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

var scratchDir string

type config struct {
	name  string
	open  func() *gosudachi.JapaneseDictionary
	texts []string
}

func set(name string) world.Set {
	for _, s := range world.Sets {
		if s.Name == name {
			return s
		}
	}
	panic(name)
}

func configs() []config {
	mecab := func(unk string) func() *gosudachi.JapaneseDictionary {
		return func() *gosudachi.JapaneseDictionary {
			sys, _ := world.Dics(scratchDir, false)
			cd := tk.File(scratchDir, "world-char.def", []byte(world.CharDef))
			return tk.Must(tk.Conf{Sys: sys, CharDef: cd,
				OOV:  []gosudachi.OovProviderPlugin{tk.MeCabOOV(cd, tk.File(scratchDir, "partial-unk.def", []byte(unk)))},
				Path: []gosudachi.PathRewritePlugin{tk.JoinNumeric(true), tk.JoinKatakana(world.N, 2)}})
		}
	}
	return []config{
		{"bare", func() *gosudachi.JapaneseDictionary { return set("bare").Open(scratchDir) },
			[]string{"", "あ", "あい", "aa", "あいあいab", "aあa", "東京都い", "xyz", "abb", "い", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}},
		{"shipped", func() *gosudachi.JapaneseDictionary { return set("shipped").Open(scratchDir) },
			[]string{"", "あいあ", "1,234", "㌢ーーカナ", "カァ", "1.5", "一十", "1,2", "東京都あいｶﾞ", "\x80", "Ａb〜"}},
		{"user", func() *gosudachi.JapaneseDictionary { return set("user").Open(scratchDir) },
			[]string{"", "東京都い", "都い1", "12", "カカカ", "一,", "あいあいあいあいあいあい", "ｱｱﾞ", "京都", "1.", "km"}},
		{"partial", mecab("HIRAGANA,1,1,7000," + world.N + "\nNUMERIC,2,2,600," + world.NUM + "\n"),
			[]string{"", "あう", "ううう", "東x", "あx東京", "x", "333", "漢", "あいあ漢", "3,33", "カカ"}},
	}
}

// answer is everything that can be read from a result.
type answer struct {
	err    bool
	morphs []gs.Morph
	parts  string
}

func read(ms *gosudachi.MorphemeList, err error) answer {
	if err != nil {
		return answer{err: true}
	}
	a := answer{morphs: gs.Morphs(ms)}
	var b strings.Builder
	for i := 0; i < ms.Length(); i++ {
		fmt.Fprintf(&b, "%s|%s|%d %d %s;", gs.Show(gs.Morphs(ms.Get(i).Split("A"))), gs.Show(gs.Morphs(ms.Get(i).Split("B"))), ms.GetBegin(i), ms.GetEnd(i), ms.GetSurface(i))
	}
	fmt.Fprintf(&b, "cost %d", ms.GetInternalCost())
	a.parts = b.String()
	return a
}

func (a answer) same(b answer) bool {
	return a.err == b.err && gs.Equal(a.morphs, b.morphs) && a.parts == b.parts
}

func (a answer) String() string {
	if a.err {
		return "error"
	}
	return gs.Show(a.morphs) + " " + a.parts
}

type call struct {
	text, mode string
	dump       bool
	tok        int
}

func (c call) String() string { return fmt.Sprintf("%d:%s%q", c.tok, c.mode, c.text) }

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	depth, toks := 3, 2
	if tier == engine.Thorough {
		depth = 4
	}
	var fs []*engine.Family
	for _, c := range configs() {
		c := c
		var calls []call
		for _, x := range c.texts {
			for _, m := range []string{"C", "A"} {
				calls = append(calls, call{text: x, mode: m})
			}
		}
		calls = append(calls, call{c.texts[2], "B", false, 0}, call{c.texts[4], "C", true, 0}, call{c.texts[8], "A", true, 0})
		// the second tokenizer uses a part of the menu
		for _, k := range []int{1, 3, 4, 8, 9} {
			calls = append(calls, call{c.texts[k], "C", false, 1})
		}
		var once sync.Once
		var want []answer
		fresh := func() {
			once.Do(func() {
				for _, x := range calls {
					d := c.open()
					want = append(want, read(d.Create().Tokenize(x.mode, x.text)))
					d.Close()
				}
			})
		}
		n := len(calls)
		fs = append(fs, &engine.Family{
			Name: "histories-" + c.name, Bounds: fmt.Sprintf("every sequence of up to %d calls from a menu of %d (texts %q, modes, dump output, %d tokenizers of one dictionary); all results read again after every call", depth, n, c.texts, toks),
			Size: int64(n * n), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				fresh()
				t.Input("begins with %v, %v", calls[int(i)/n], calls[int(i)%n])
				d := c.open()
				defer d.Close()
				// one history: fresh tokenizers of a dictionary that other histories have used
				var run func(h []int) bool
				run = func(h []int) bool {
					tz := [2]*gosudachi.JapaneseTokenizer{d.Create(), d.Create()}
					var got []*gosudachi.MorphemeList
					for k, x := range h {
						z := tz[calls[x].tok]
						z.DumpOutput = nil
						if calls[x].dump {
							z.DumpOutput = io.Discard
						}
						ms, err := z.Tokenize(calls[x].mode, calls[x].text)
						t.Transition(1)
						var show []string
						for _, y := range h[:k+1] {
							show = append(show, calls[y].String())
						}
						if a := read(ms, err); !a.same(want[x]) {
							t.Fail("answer", "%s: after %v: %v, a fresh tokenizer gives %v", c.name, show, a, want[x])
							return false
						}
						got = append(got, ms)
						for y := range got {
							if want[h[y]].err {
								continue
							}
							if a := read(got[y], nil); !a.same(want[h[y]]) {
								t.Fail("earlier", "%s: after %v the result of call %d has become %v, it was %v", c.name, show, y, a, want[h[y]])
								return false
							}
						}
					}
					t.Trace(1)
					return true
				}
				var walk func(h []int) bool
				walk = func(h []int) bool {
					if len(h) == depth {
						t.State(c.name, fmt.Sprint(h))
						return run(h)
					}
					for x := 0; x < n; x++ {
						if !walk(append(h[:len(h):len(h)], x)) {
							return false
						}
					}
					return true
				}
				walk([]int{int(i) / n, int(i) % n})
			},
		})
	}
	// numerals: the joining keeps a parser of its own
	{
		sym := []string{"1", "000", ",", ".", "万"}
		ln := 4
		if tier == engine.Thorough {
			ln = 5
		}
		sp := engine.NewStrings(len(sym), ln)
		c := configs()[1]
		var once sync.Once
		var want []string
		line := func(ms *gosudachi.MorphemeList, err error) string {
			if err != nil {
				return "error"
			}
			return gs.Show(gs.Morphs(ms))
		}
		fs = append(fs, &engine.Family{
			Name: "numerals", Bounds: fmt.Sprintf("every pair of texts of up to %d symbols over %q one after the other on one tokenizer", ln, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				once.Do(func() {
					for k := int64(0); k < sp.Size(); k++ {
						d := c.open()
						want = append(want, line(d.Create().Tokenize("C", world.Text(sp, sym, k))))
						d.Close()
					}
				})
				first := world.Text(sp, sym, i)
				t.Input("after %q", first)
				t.State("numerals", i)
				d := c.open()
				defer d.Close()
				tz := d.Create()
				for k := int64(0); k < sp.Size(); k++ {
					second := world.Text(sp, sym, k)
					t.Transition(2)
					if a := line(tz.Tokenize("C", first)); a != want[i] {
						t.Fail("numerals-again", "%q again: %s, it was %s", first, a, want[i])
						return
					}
					if a := line(tz.Tokenize("C", second)); a != want[k] {
						t.Fail("numerals", "%q after %q: %s, a fresh tokenizer gives %s", second, first, a, want[k])
						return
					}
				}
				t.Trace(1)
			},
		})
	}
	// long histories: one text after another, many times
	{
		cs := configs()
		reps := 40
		fs = append(fs, &engine.Family{
			Name: "rounds", Bounds: fmt.Sprintf("every rotation of the menu repeated %d times on one tokenizer", reps),
			Size: int64(len(cs) * 11), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				c := cs[int(i)/11]
				r := int(i) % 11
				d := c.open()
				defer d.Close()
				var want []answer
				for _, x := range c.texts {
					f := c.open()
					want = append(want, read(f.Create().Tokenize("C", x)))
					f.Close()
				}
				t.Input("%s from %d", c.name, r)
				t.State("rounds", i)
				tz := d.Create()
				for k := 0; k < reps*len(c.texts); k++ {
					x := (k + k/len(c.texts)*r + r) % len(c.texts)
					t.Transition(1)
					if a := read(tz.Tokenize("C", c.texts[x])); !a.same(want[x]) {
						t.Fail("rounds", "%s: call %d, %q: %v, a fresh tokenizer gives %v", c.name, k, c.texts[x], a, want[x])
						return
					}
				}
				t.Trace(1)
			},
		})
	}
	// more calls, and more tokenizers, than any counter of 16 bits
	{
		cs := configs()
		const n = 66000
		fs = append(fs, &engine.Family{
			Name: "many-calls", Bounds: fmt.Sprintf("%d calls on one tokenizer, on a new tokenizer each, and on two in turn, one text or all texts of a menu in turn", n),
			Size: int64(len(cs) * 6), Chunk: 1, HangSeconds: 120,
			Run: func(i int64, t *engine.T) {
				c := cs[int(i)/6]
				kind, all := int(i)%3, int(i)%6/3 == 1
				texts := c.texts
				if !all {
					texts = []string{c.texts[1]}
				}
				d := c.open()
				defer d.Close()
				var want []answer
				for _, x := range texts {
					f := c.open()
					want = append(want, read(f.Create().Tokenize("C", x)))
					f.Close()
				}
				t.Input("%s, kind %d, all texts %v", c.name, kind, all)
				t.State("many", i)
				tz := []*gosudachi.JapaneseTokenizer{d.Create(), d.Create()}
				for k := 0; k < n; k++ {
					z := tz[0]
					switch kind {
					case 1:
						z = d.Create()
					case 2:
						z = tz[k%2]
					}
					x := (k + k/len(texts)) % len(texts)
					t.Transition(1)
					if a := read(z.Tokenize("C", texts[x])); !a.same(want[x]) {
						t.Fail("many", "%s: call %d, %q: %v, a fresh tokenizer gives %v", c.name, k, texts[x], a, want[x])
						return
					}
				}
				t.Trace(1)
			},
		})
	}
	// long texts, and long texts that fail, before and after others
	{
		lens := []int{300, 1000, 4097, 9000, 70000}
		type txt struct{ name, s string }
		menu := func(c config) []txt {
			var m []txt
			unit, bad := "あいう", "x"
			if c.name == "shipped" {
				unit, bad = "あいカー1", ""
			}
			for _, x := range c.texts {
				m = append(m, txt{fmt.Sprintf("%q", x), x})
			}
			if c.name == "bare" {
				bad = ""
			}
			for _, l := range lens {
				if l > 10000 && c.name != "bare" {
					continue // the provider takes quadratic time
				}
				for _, u := range []string{unit, "東京都う"} {
					s := strings.Repeat(u, l/len(u)+1)
					if bad == "" || u == unit {
						m = append(m, txt{fmt.Sprintf("%q to %d bytes", u, len(s)), s})
					}
					if bad != "" && (u == unit || l > 4000) {
						m = append(m, txt{fmt.Sprintf("%q to %d bytes and %q", u, len(s), bad), s + bad})
					}
				}
			}
			return m
		}
		var cs []config
		for _, c := range configs() {
			if c.name != "user" {
				cs = append(cs, c)
			}
		}
		type job struct {
			c    int
			a, b int
		}
		var jobs []job
		for ci, c := range cs {
			m := menu(c)
			for a := range m {
				for b := range m {
					// short texts before and after long ones: a part of the menu
					if sa, sb := a < len(c.texts), b < len(c.texts); !(sa && sb) && (!sa || a%2 == 1) && (!sb || b%2 == 1) {
						jobs = append(jobs, job{ci, a, b})
					}
				}
			}
		}
		type fresh struct {
			once sync.Once
			want []answer
		}
		fr := make([]fresh, len(cs))
		fs = append(fs, &engine.Family{
			Name: "long-texts", Bounds: fmt.Sprintf("every two texts of a menu with texts of %v bytes (the last with the bare set only), some of which fail at their end, one after the other and the first again on one tokenizer; earlier results read again", lens),
			Size: int64(len(jobs)), HangSeconds: 120,
			Run: func(i int64, t *engine.T) {
				j := jobs[i]
				c := cs[j.c]
				m := menu(c)
				f := &fr[j.c]
				f.once.Do(func() {
					for _, x := range m {
						d := c.open()
						f.want = append(f.want, quick(d.Create().Tokenize("C", x.s)))
						d.Close()
					}
				})
				t.Input("%s: %s, then %s", c.name, m[j.a].name, m[j.b].name)
				t.State("long", i)
				d := c.open()
				defer d.Close()
				tz := d.Create()
				type res struct {
					k   int
					ms  *gosudachi.MorphemeList
					err error
				}
				var rs []res
				for n, k := range []int{j.a, j.b, j.a} {
					ms, err := tz.Tokenize("C", m[k].s)
					rs = append(rs, res{k, ms, err})
					t.Transition(1)
					for q, r := range rs {
						if a := quick(r.ms, r.err); !a.same(f.want[r.k]) {
							t.Fail("long", "%s: after call %d the result of call %d, %s, has %d words and error %v, that of a fresh tokenizer %d and %v, or they differ", c.name, n, q, m[r.k].name, len(a.morphs), a.err, len(f.want[r.k].morphs), f.want[r.k].err)
							return
						}
					}
				}
				t.Trace(1)
			},
		})
	}
	return fs
}

// quick is read for long texts: the surface of a morpheme costs the length of
// the text, so that only the first and the last ones are read in full.
func quick(ms *gosudachi.MorphemeList, err error) answer {
	if err != nil {
		return answer{err: true}
	}
	n := ms.Length()
	if n <= 100 {
		return read(ms, nil)
	}
	a := answer{morphs: make([]gs.Morph, n)}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i < 5 || i >= n-5 {
			m := ms.Get(i)
			fmt.Fprintf(&b, "%d %d %s %v %s;", ms.GetBegin(i), ms.GetEnd(i), ms.GetSurface(i), m.PartOfSpeech(), m.NormalizedForm())
		}
		a.morphs[i] = gs.Morph{Begin: ms.GetBegin(i), End: ms.GetEnd(i), DicId: ms.GetDictionaryId(i), WordId: ms.GetWordId(i), OOV: ms.IsOOV(i)}
	}
	fmt.Fprintf(&b, "cost %d", ms.GetInternalCost())
	a.parts = b.String()
	return a
}

func main() {
	engine.Main(&engine.Check{
		ID: "C11", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct history of calls; a transition is one call whose answer was compared with that of a fresh tokenizer of a fresh dictionary, with all earlier results read again; a trace is one complete history on the real tokenizer",
		Assumptions: []string{"errors are compared by their presence, not their text"},
	})
}
