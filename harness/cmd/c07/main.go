// C07: morphemes tile the original text exactly.
package main

import (
	"fmt"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

var (
	scratchDir string
	mu         sync.Mutex
	dics       = map[string]*gosudachi.JapaneseDictionary{}
)

func dict(s world.Set) *gosudachi.JapaneseDictionary {
	mu.Lock()
	defer mu.Unlock()
	if dics[s.Name] == nil {
		dics[s.Name] = s.Open(scratchDir)
	}
	return dics[s.Name]
}

// slice gives the bytes of characters [b,e) of a text.
func slice(text string, b, e int) string {
	i, from := 0, len(text)
	for p := range text {
		if i == b {
			from = p
		}
		if i == e {
			return text[from:p]
		}
		i++
	}
	return text[from:]
}

func check(t *engine.T, text string) {
	checkSets(t, text, func(world.Set) bool { return true }, "A", "B", "C")
}

func checkSets(t *engine.T, text string, with func(world.Set) bool, modes ...string) {
	for _, s := range world.Sets {
		if !with(s) {
			continue
		}
		tz := dict(s).Create()
		for _, m := range modes {
			ms, err := tz.Tokenize(m, text)
			if err != nil && !s.MeCab {
				// only some letters are words and no provider fills the gaps
				t.Outcome("no path")
				continue
			}
			if err != nil {
				t.Fail("error", "%s, mode %s, text %q: %v", s.Name, m, text, err)
				return
			}
			t.Trace(1)
			t.Transition(ms.Length())
			if text == "" && ms.Length() != 0 {
				t.Fail("empty", "%s, mode %s: the empty text has %d morphemes", s.Name, m, ms.Length())
				return
			}
			bad := tk.Tile(ms, text)
			for i := 0; bad == "" && i < ms.Length(); i++ {
				o := ms.Get(i)
				want := slice(text, o.Begin(), o.End())
				if len(text) < 500 && (o.Surface() != want || ms.GetSurface(i) != want) {
					bad = fmt.Sprintf("morpheme %d [%d,%d) has surface %q, want %q", i, o.Begin(), o.End(), o.Surface(), want)
				}
				// the pieces of a morpheme tile its range
				if m == "C" && len(text) < 500 {
					for _, k := range []string{"A", "B", "C"} {
						ps := o.Split(k)
						at, all := o.Begin(), ""
						for j := 0; j < ps.Length(); j++ {
							q := ps.Get(j)
							if q.Begin() != at || q.End() < at {
								bad = fmt.Sprintf("split %s of morpheme %d: piece %d is [%d,%d)", k, i, j, q.Begin(), q.End())
							}
							at = q.End()
							all += q.Surface()
						}
						if at != o.End() || all != want {
							bad = fmt.Sprintf("split %s of morpheme %d [%d,%d) ends at %d with surfaces %q", k, i, o.Begin(), o.End(), at, all)
						}
					}
				}
			}
			if bad != "" {
				if len(text) > 100 {
					text = text[:100] + "..."
				}
				t.Fail("tile", "%s, mode %s, text %q: %s", s.Name, m, text, bad)
				return
			}
		}
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	for _, c := range []struct {
		name string
		sym  []string
		n    int
	}{
		{"mixed", []string{"あ", "い", "東", "京", "都", "1", "一", ",", ".", "カ", "ァ", "ー", "〜", "㌢", "ｶ", "ﾞ", "Ａ", "b", "𠮷", "\u0301", "\x80", "㎞", "Ⅲ"}, 3},
		{"split", []string{"あ", "い", "東京", "都", "𠮷", "ａ", "b"}, 5},
		{"normalise", []string{"㌢", "ｶﾞ", "ｱｱﾞ", "ー", "〜", "\uFDFA", "é", "e\u0301", "A", "あ", "\xff"}, 4},
		{"numbers", []string{"1", "２", "十", "，", ".", "0", "あ", "㌢"}, 5},
		{"katakana", []string{"カ", "ナ", "ァ", "ー", "アイ", "あ", "ｱ", "一"}, 5},
		{"bytes", []string{"\x80", "\xe3", "\xe3\x81", "\xff", "あ", "a", "\n", "\x00", "\xf0\x9f", "〜"}, 4},
	} {
		c := c
		if thorough {
			c.n++
		}
		sp := engine.NewStrings(len(c.sym), c.n)
		fs = append(fs, &engine.Family{
			Name: c.name, Bounds: fmt.Sprintf("all texts of up to %d pieces over %q, %d plug-in and dictionary sets, modes A, B, C and every split of every morpheme", c.n, c.sym, len(world.Sets)),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				x := world.Text(sp, c.sym, i)
				t.Input("%q", x)
				t.State(x)
				check(t, x)
			},
		})
	}
	lens := []int{100, 500, 1500}
	pats := []string{"あいあ", "㌢", "ーー", "ｶﾞ1", "東京都い", "カ〜", "1,000", "\x80あ", "Ａ", "𠮷い"}
	fs = append(fs, &engine.Family{
		Name: "long", Bounds: fmt.Sprintf("%q repeated %v times", pats, lens),
		Size: int64(len(pats) * len(lens)), Chunk: 1, HangSeconds: 120,
		Run: func(i int64, t *engine.T) {
			x := strings.Repeat(pats[int(i)/len(lens)], lens[int(i)%len(lens)])
			t.Input("%q %d times", pats[int(i)/len(lens)], lens[int(i)%len(lens)])
			t.State(i)
			check(t, x)
		},
	})
	// joined words of more bytes than 15 and 16 bits count
	vpats := []string{"ヌ", "1", "カ", "ー", "ｶﾞヌ", "，000"}
	vlens := []int{32769, 65538}
	if thorough {
		vlens = append(vlens, 32766, 65535, 98304, 131073)
	}
	fs = append(fs, &engine.Family{
		Name: "very long", Bounds: fmt.Sprintf("runs of %q of %v bytes, alone and between other words, with the joining plug-in sets that propose no long unknown words, mode C", vpats, vlens),
		Size: int64(len(vpats) * len(vlens) * 2), Chunk: 1, HangSeconds: 120,
		Run: func(i int64, t *engine.T) {
			p, n := vpats[int(i/2)/len(vlens)], vlens[int(i/2)%len(vlens)]
			x := strings.Repeat(p, n/len(p))
			if i%2 == 1 {
				x = "あい" + x + "東京都"
			}
			t.Input("%q, %d bytes", p, len(x))
			t.State(i)
			checkSets(t, x, func(s world.Set) bool { return !s.MeCab && (s.Kana || s.Numeric) }, "C")
		},
	})
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C07", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct text; a transition is one morpheme of a result, with its place and surface checked; a trace is one tokenization by the real tokenizer",
		Assumptions: []string{"the splits of the dictionaries cover their words", "no input plug-in deletes characters"},
	})
}
