// C09: tokenization is total under the shipped plugin configuration.
package main

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
)

const posN = "名詞,普通名詞,一般,*,*,*"
const posNum = "名詞,数詞,*,*,*,*"

var scratchDir string

func asset(name string) string {
	f, err := data.Assets.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func w(head string, l, r, c int, pos, a string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,r,n,*,C,%s,%s,*\n", head, l, r, c, head, pos, a, a)
}

// lexicons: one without any word that a text could match, one with a few.
func lexicon(k int) string {
	var b strings.Builder
	b.WriteString("記,-1,-1,0,記," + posN + ",r,n,*,A,*,*,*\n")
	b.WriteString("記,-1,-1,0,記," + posNum + ",r,n,*,A,*,*,*\n")
	seen := map[string]bool{}
	for _, l := range ref.Lines(asset("unk.def")) {
		f := strings.Split(l, ",")
		if len(f) < 10 {
			continue
		}
		p := strings.Join(f[4:10], ",")
		if !seen[p] {
			seen[p] = true
			b.WriteString("記,-1,-1,0,記," + p + ",r,n,*,A,*,*,*\n")
		}
	}
	n := strings.Count(b.String(), "\n")
	if k == 1 {
		b.WriteString(w("あ", 1, 1, 5000, posN, "*") + w("漢", 5968, 1, 4000, posN, "*"))
		b.WriteString(w("あ漢", 1, 2, 3000, posN, fmt.Sprintf("%d/%d", n, n+1)))
		b.WriteString(w("カ", 2, 2, 3000, posN, "*") + w("1", 3, 3, 10, posNum, "*") + w("一", 3, 3, 10, posNum, "*"))
		b.WriteString(w(`\u002C`, 4, 4, 10, posN, "*") + w(".", 4, 4, 10, posN, "*") + w("a", 4, 4, 10, posN, "*"))
	}
	return b.String()
}

// settings are those that are shipped; only the dictionary is ours.
func open(dic string) *gosudachi.JapaneseDictionary {
	s := gosudachi.NewSettingsJSON()
	if err := s.ParseSettingsJSON("", strings.NewReader(asset("sudachi.json"))); err != nil {
		panic(err)
	}
	in, err := s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin)
	if err != nil {
		panic(err)
	}
	oov, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
	if err != nil {
		panic(err)
	}
	path, err := s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin)
	if err != nil {
		panic(err)
	}
	edit, err := s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
	if err != nil {
		panic(err)
	}
	cfg := *s.GetBaseConfig()
	cfg.SystemDict = dic
	d, err := gosudachi.NewJapaneseDictionary(&cfg, in, oov, path, edit)
	if err != nil {
		panic(fmt.Sprintf("the shipped configuration is refused: %v", err))
	}
	return d
}

var (
	mu   sync.Mutex
	dics [2]*gosudachi.JapaneseDictionary
)

func dict(k int) *gosudachi.JapaneseDictionary {
	mu.Lock()
	defer mu.Unlock()
	if dics[k] == nil {
		// a connection matrix as large as the shipped unknown-word definitions
		// need; entries that are not listed cost nothing
		m := "5969 5969\n1 1 -300\n5968 5968 700\n5139 5139 -2000\n4785 4785 900\n"
		b, err := gs.Sys(lexicon(k), m, gs.Opts{Desc: "s", Time: 1})
		if err != nil {
			panic(err)
		}
		p := tk.File(scratchDir, fmt.Sprintf("sys%d.dic", k), b)
		b = nil
		dics[k] = open(p)
		os.Remove(p)
	}
	return dics[k]
}

func check(t *engine.T, text string, modes string) {
	for k := 0; k < 2; k++ {
		tz := dict(k).Create()
		for _, m := range modes {
			t.Trace(1)
			ms, err := tz.Tokenize(string(m), text)
			x := text
			if len(x) > 60 {
				x = fmt.Sprintf("%s... (%d bytes)", x[:60], len(x))
			}
			if err != nil {
				t.Fail("error", "dictionary %d, mode %c, text %q: %v", k, m, x, err)
				return
			}
			n := ms.Length()
			t.Transition(n)
			step := 1 + n/200
			at := 0
			for i := 0; i < n; i++ {
				if ms.GetBegin(i) != at || ms.GetEnd(i) < at {
					t.Fail("tile", "dictionary %d, mode %c, text %q: morpheme %d is [%d,%d), the one before ended at %d", k, m, x, i, ms.GetBegin(i), ms.GetEnd(i), at)
					return
				}
				at = ms.GetEnd(i)
				if i%step == 0 {
					o := ms.Get(i)
					if len(o.PartOfSpeech()) != 6 {
						t.Fail("pos", "dictionary %d, mode %c, text %q: part of speech %q", k, m, x, o.PartOfSpeech())
						return
					}
					_, _, _, _, _ = o.Surface(), o.NormalizedForm(), o.DictionaryForm(), o.ReadingForm(), o.GetWordInfo()
					_, _, _ = o.IsOOV(), o.GetDictionaryId(), o.GetWordId()
					_, _ = o.Split("A"), o.Split("B")
				}
			}
			if at != utf8.RuneCountInString(text) {
				t.Fail("tile", "dictionary %d, mode %c, text %q: the last morpheme ends at %d of %d", k, m, x, at, utf8.RuneCountInString(text))
				return
			}
		}
	}
}

// representatives picks one character for each set of classes of the shipped definition.
func representatives() []string {
	rs, _ := ref.ParseRanges(asset("char.def"))
	by := map[uint32]rune{}
	for c := rune(1); c < 0x30000; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		m := ref.CatsOf(rs, c)
		if o, ok := by[m]; !ok || o < 0x21 {
			by[m] = c
		}
	}
	var out []string
	for _, c := range by {
		out = append(out, string(c))
	}
	sort.Strings(out)
	return out
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. every code point alone and in company
	{
		const step = 64
		ctx := [][2]string{{"", ""}, {"あ", "漢"}, {"1", "カ"}}
		if thorough {
			ctx = append(ctx, [2]string{"a", "ー"}, [2]string{"ア", "ャ"}, [2]string{".", ","}, [2]string{"\u0301", "\u0301"})
		}
		fs = append(fs, &engine.Family{
			Name: "code-points", Bounds: fmt.Sprintf("every code point 0..0x10FFFF (each surrogate as its three bytes), between each of %q", ctx),
			Size: 0x110000 / step,
			Run: func(i int64, t *engine.T) {
				t.Input("code points from %#x", i*step)
				t.State(i)
				for c := rune(i * step); c < rune((i+1)*step); c++ {
					s := string(c)
					if c >= 0xD800 && c < 0xE000 {
						b := []byte{0xED, 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
						s = string(b)
					}
					for _, x := range ctx {
						check(t, x[0]+s+x[1], "C")
						if t.Failed() {
							return
						}
					}
				}
			},
		})
	}

	// 2. all short texts over a representative of every class set
	{
		sym := append(representatives(), "1", "一", "十", "万", "ア", "ャ", "ー", "〜", "・", ",", ".", "Ａ", "㌢", "ｶ", "ﾞ", "\u0301", "\x80", "\n", "\u0000", "漢", "𠮷", "\uFDFA", "\u200D")
		seen := map[string]bool{}
		k := 0
		for _, s := range sym {
			if !seen[s] {
				seen[s] = true
				sym[k] = s
				k++
			}
		}
		sym = sym[:k]
		n, modes := 3, "AC"
		if thorough {
			n, modes = 4, "AC"
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "class-texts", Bounds: fmt.Sprintf("all texts of up to %d characters over %q (one character for each set of classes in the shipped definition, and special ones)", n, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				t.Input("%q", x)
				t.State(x)
				check(t, x, modes)
			},
		})
	}

	// 3. all short byte strings
	{
		by := []byte{0, '\n', 'a', '1', 0x7f, 0x80, 0x81, 0xa0, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xe3, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, ','}
		n := 3
		if thorough {
			n = 5
		}
		sp := engine.NewStrings(len(by), n)
		fs = append(fs, &engine.Family{
			Name: "bytes", Bounds: fmt.Sprintf("every string of one or two bytes, and all strings of up to %d bytes over % x", n, by),
			Size: sp.Size() + 65536 + 256,
			Run: func(i int64, t *engine.T) {
				var b []byte
				switch {
				case i < 256:
					b = []byte{byte(i)}
				case i < 65536+256:
					i -= 256
					b = []byte{byte(i >> 8), byte(i)}
				default:
					for _, k := range sp.Get(i - 65536 - 256) {
						b = append(b, by[k])
					}
				}
				t.Input("% x", b)
				t.State(string(b))
				check(t, string(b), "C")
			},
		})
	}

	// 4. long runs of one character
	{
		sym := append(representatives(), "1", "十", "ア", "ャ", "ー", "・", ",", "\u0301", "\x80", "漢", "𠮷")
		lens := []int{128, 256, 8192, 10923}
		letters := []int{32767, 32768, 65535, 65536, 70000}
		if thorough {
			lens = append(lens, 126, 127, 255, 8191, 10922, 16384, 21846)
		}
		n := len(lens) + len(letters)
		fs = append(fs, &engine.Family{
			Name: "long-runs", Bounds: fmt.Sprintf("runs of %v times each of %q, and of %v letters and digits-in-words", lens, sym, letters),
			Size: int64(len(sym)*len(lens) + 4*len(letters)), Chunk: 1, HangSeconds: 200,
			Run: func(i int64, t *engine.T) {
				var x string
				if i < int64(len(sym)*len(lens)) {
					x = strings.Repeat(sym[int(i)/len(lens)], lens[int(i)%len(lens)])
				} else {
					i -= int64(len(sym) * len(lens))
					x = strings.Repeat([]string{"a", "я", "λ", "é"}[int(i)/len(letters)], letters[int(i)%len(letters)])
				}
				t.Input("%d bytes of %q", len(x), x[:4])
				t.State(len(x), x[:4])
				check(t, x, "C")
			},
		})
		_ = n
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C09", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct text (or block of 64 code points); a transition is one morpheme of a result read completely; a trace is one tokenization by the real tokenizer with the shipped plug-in settings and definitions",
		Assumptions: []string{"the system dictionary and its connection matrix are ours, with the matrix as large as the shipped unknown-word definitions require and no inhibited connections"},
	})
}
