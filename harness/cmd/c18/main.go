// C18: katakana unknown words are joined maximally and nothing else is touched.
package main

import (
	"fmt"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

const joinPOS = "名詞,固有名詞,連結,*,*,*"

const charDef = `DEFAULT 0 1 0
HIRAGANA 0 1 2
KATAKANA %s
KANJI 0 0 1
ALPHA 1 1 0
0x0061..0x007A ALPHA
0x3041..0x309F HIRAGANA
0x30A1..0x30FA KATAKANA
0x30FC KATAKANA HIRAGANA NOOOVBOW
0x30FD KATAKANA KANJI
0x30A1 NOOOVBOW
0x4E00..0x9FFF KANJI
0x2A6D6 KATAKANA
`

const unkDef = "DEFAULT,0,0,5000," + world.SYM + "\nHIRAGANA,0,0,5000," + world.N + "\nKATAKANA,0,0,%d," + world.N + "\nKATAKANA,0,0,%d," + world.V + "\nKANJI,0,0,5000," + world.N + "\nALPHA,0,0,5000," + world.N + "\n"

// conf is a configuration of the tokenizer.
type conf struct {
	words  []string // headwords of the lexicon
	costs  []int
	min    int
	mecab  int      // 0: none, 1: whole runs, 2: up to two characters, 3: both and always
	marks  bool     // input rewriting before
	utf16  bool     // encoding
	posIdx string   // part of speech to give
	forms  []string // written forms of the words, if they are not the headwords
}

type rig struct {
	c             conf
	d             *gosudachi.JapaneseDictionary
	before, after *tk.Probe
	tz            *gosudachi.JapaneseTokenizer
	ranges        []ref.Range
}

var mecabDefs = []string{"", "0 1 0", "0 0 2", "1 1 2"}

func newRig(scratch string, c conf) *rig {
	src := world.Row("標", 0, 0, 30000, joinPOS, "標", "*", "*") + world.Row("標", 0, 0, 30001, world.SYM, "標", "*", "*") +
		world.Row("標", 0, 0, 30001, world.V, "標", "*", "*") + world.Row("標", 0, 0, 30001, world.N, "標", "*", "*")
	for i, w := range c.words {
		form := w
		if c.forms != nil {
			form = c.forms[i]
		}
		src += world.RowS(w, form, 0, 0, c.costs[i], world.N, fmt.Sprintf("正%s%d", w, i), "*", "*")
	}
	b, err := gs.Sys(src, gs.Matrix(1, 1, func(int, int) int { return 0 }), gs.Opts{Time: 1, UTF16: c.utf16})
	if err != nil {
		panic(err)
	}
	def := fmt.Sprintf(charDef, mecabDefs[max(c.mecab, 1)])
	r := &rig{c: c, before: &tk.Probe{Lattice: true}, after: &tk.Probe{}}
	r.ranges, _ = ref.ParseRanges(def)
	tc := tk.Conf{Sys: tk.File(scratch, fmt.Sprintf("l-%x.dic", fnv(string(b))), b), CharDef: tk.File(scratch, fmt.Sprintf("char-%d.def", c.mecab), []byte(def)), UTF16: c.utf16}
	if c.mecab > 0 {
		tc.OOV = append(tc.OOV, tk.MeCabOOV(tc.CharDef, tk.File(scratch, "unk.def", []byte(fmt.Sprintf(unkDef, 900, 800)))))
	}
	if c.marks {
		tc.In = append(tc.In, tk.Prolonged([]string{"ー", "〜"}, "ー"), tk.DefaultInput(tk.File(scratch, "rewrite.def", []byte("ｶﾅ カナ\nﾅｶ ナ\n"))))
	}
	tc.OOV = append(tc.OOV, tk.SimpleOOV(world.SYM, 0, 0, 1500))
	tc.Path = []gosudachi.PathRewritePlugin{r.before, tk.JoinKatakana(c.posIdx, c.min), r.after}
	r.d = tk.Must(tc)
	r.tz = r.d.Create()
	return r
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func show(ns []tk.Node) string {
	var p []string
	for _, n := range ns {
		m := ""
		if n.OOV {
			m = "?"
		}
		p = append(p, n.Info.Surface+m)
	}
	return strings.Join(p, "|")
}

var katakana, noBegin = ref.ClassBit("KATAKANA"), ref.ClassBit("NOOOVBOW")

func (r *rig) check(t *engine.T, text string) bool {
	if text == "" {
		return true
	}
	t.Trace(1)
	calls := r.after.Calls
	ms, err := r.tz.Tokenize("C", text)
	if err != nil {
		t.Fail("error", "text %q: %v", text, err)
		return false
	}
	if r.after.Calls != calls+1 {
		t.Fail("harness", "text %q: the path was not observed", text)
		return false
	}
	p, q := r.before.Path, r.after.Path
	fail := func(key, f string, a ...interface{}) bool {
		t.Fail(key, "text %q, words %q, minimum length %d, unknown words %d: %s\n  before: %s\n  after:  %s", text, r.c.words, r.c.min, r.c.mecab, fmt.Sprintf(f, a...), show(p), show(q))
		return false
	}
	x := ref.Plain(string(r.before.Input.GetByteText()), func(c rune) uint32 { return ref.CatsOf(r.ranges, c) })
	is := func(n tk.Node) bool { return x.RangeCats(n.Begin, n.End)&katakana != 0 }
	var want []tk.Node
	joined := map[int]string{}
	for i := 0; i < len(p); {
		if !is(p[i]) {
			want = append(want, p[i])
			i++
			continue
		}
		j := i
		trigger := false
		for ; j < len(p) && is(p[j]); j++ {
			if p[j].OOV || x.CharAt(p[j].End)-x.CharAt(p[j].Begin) < r.c.min {
				trigger = true
			}
		}
		k := i
		if trigger {
			for ; k < j && x.Cats(p[k].Begin)&noBegin != 0; k++ {
			}
		}
		if !trigger || j-k < 2 {
			want = append(want, p[i:j]...)
			t.Outcome("run left alone")
		} else {
			want = append(want, p[i:k]...)
			for _, n := range p[k:j] {
				joined[len(want)] += n.Info.Surface
			}
			want = append(want, tk.Node{Begin: p[k].Begin, End: p[j-1].End})
			if k > i {
				t.Outcome("run joined after its first words")
			} else {
				t.Outcome("run joined")
			}
		}
		i = j
	}
	if len(q) != len(want) {
		return fail("count", "%d words, want %d", len(q), len(want))
	}
	for i, w := range want {
		g := q[i]
		t.Transition(1)
		if g.Begin != w.Begin || g.End != w.End {
			return fail("range", "word %d is [%d,%d), want [%d,%d)", i, g.Begin, g.End, w.Begin, w.End)
		}
		s, isJoined := joined[i]
		if !isJoined {
			if fmt.Sprintf("%+v", g) != fmt.Sprintf("%+v", w) {
				return fail("touched", "word %d was changed from %+v to %+v", i, w, g)
			}
			continue
		}
		var best *tk.Node
		for k := range r.before.Nodes {
			n := &r.before.Nodes[k]
			if n.Begin == w.Begin && n.End == w.End && (best == nil || n.Cost < best.Cost) {
				best = n
			}
		}
		if best != nil {
			if g.Cost != best.Cost {
				return fail("candidate", "word %d costs %d, the cheapest candidate for its range costs %d", i, g.Cost, best.Cost)
			}
			found := false
			for _, n := range r.before.Nodes {
				if fmt.Sprintf("%+v", g) == fmt.Sprintf("%+v", n) {
					found = true
				}
			}
			if !found {
				return fail("candidate", "word %d %+v is not a candidate of the lattice", i, g)
			}
			if best.Begin != best.End && best.Info.Surface != x.S[w.Begin:w.End] {
				t.Outcome("replaced by a candidate of another written form")
			} else {
				t.Outcome("replaced by a candidate")
			}
			continue
		}
		pos := strings.Join(r.d.GetPartOfSpeechString(g.Info.PosId), ",")
		if !g.OOV || pos != r.c.posIdx || g.Info.Surface != s || g.Info.NormalizedForm != s || g.Info.DictionaryForm != s || g.Info.ReadingForm != "" {
			return fail("joined", "joined word %d is %+v (%s)", i, g, pos)
		}
		t.Outcome("joined as unknown word")
	}
	if why := tk.Tile(ms, text); why != "" {
		return fail("tiling", "%s", why)
	}
	return true
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	x := 0
	if thorough {
		x = 1
	}

	// 1. lexicons
	{
		menu := []string{"カ", "カナ", "ーカ", "ナー", "ァ", "あ", "カあ", "ァカ"}
		type cost func(i int, w string) int
		costs := []cost{
			func(i int, w string) int { return 100 * len([]rune(w)) },
			func(i int, w string) int { return 1000 - 10*i },
		}
		mix := engine.NewMix(1<<len(menu), len(costs), 4, 4)
		if !thorough {
			mix = engine.NewMix(1<<len(menu), 1, 3, 4)
		}
		sp := engine.NewStrings(5, 4+x)
		sym := []string{"カ", "ナ", "ァ", "ー", "あ"}
		fs = append(fs, &engine.Family{
			Name:   "lexicons",
			Bounds: fmt.Sprintf("every subset of the words %q, minimum lengths 0..%d, unknown words of single characters, of runs, of up to two characters and of both; all texts of 0..%d symbols over %q", menu, 2+x, 4+x, sym),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				c := conf{min: d[2], mecab: d[3], posIdx: joinPOS}
				for k, w := range menu {
					if d[0]>>k&1 != 0 {
						c.words = append(c.words, w)
						c.costs = append(c.costs, costs[d[1]](k, w))
					}
				}
				r := newRig(scratch, c)
				for k := int64(0); k < sp.Size(); k++ {
					text := world.Text(sp, sym, k)
					t.Input("%q %+v", text, c)
					t.State(d, text)
					if !r.check(t, text) {
						return
					}
				}
			},
		})
	}

	// 2. longer texts
	strs := func(name string, confs []conf, sym []string, n int) {
		sp := engine.NewStrings(len(sym), n)
		pools := make([]sync.Pool, len(confs))
		for k := range confs {
			c := confs[k]
			pools[k].New = func() interface{} { return newRig(scratch, c) }
		}
		const step = 64
		blocks := (sp.Size() + step - 1) / step
		fs = append(fs, &engine.Family{
			Name:   name,
			Bounds: fmt.Sprintf("all texts of 0..%d symbols over %q under %d configurations", n, sym, len(confs)),
			Size:   blocks * int64(len(confs)),
			Run: func(i int64, t *engine.T) {
				p := &pools[i%int64(len(confs))]
				r := p.Get().(*rig)
				defer p.Put(r)
				for k := i / int64(len(confs)) * step; k < (i/int64(len(confs))+1)*step && k < sp.Size(); k++ {
					text := world.Text(sp, sym, k)
					t.Input("%q %+v", text, r.c)
					t.State(name, i%int64(len(confs)), text)
					if !r.check(t, text) {
						return
					}
				}
			},
		})
	}
	words := []string{"カ", "カナ", "カナカ", "ナカ", "ー", "ァカ", "あ", "あー", "カカナー", "𪛖カ", "ヽ", "カあ"}
	costs := []int{400, 300, 2000, 350, 500, 200, 100, 300, 3000, 100, 100, 50}
	var confs []conf
	for _, m := range []int{0, 1, 2, 3, 5} {
		for mecab := 0; mecab < 4; mecab++ {
			confs = append(confs, conf{words: words, costs: costs, min: m, mecab: mecab, posIdx: joinPOS, utf16: m == 2})
		}
	}
	strs("texts", confs[:16], []string{"カ", "ナ", "ー", "ァ", "あ"}, 6+x)
	strs("classes", confs, []string{"カ", "ヽ", "ー", "ァ", "あ", "𪛖", "漢", "亜"}, 4+x)
	var mk []conf
	for _, c := range confs[4:12] {
		c.marks = true
		mk = append(mk, c)
	}
	strs("rewritten", mk, []string{"ｶ", "ﾅ", "ーー", "〜", "ガ", "カ", "ﾞ", "あ"}, 4+x)

	// words that are written alike or otherwise than they are spelled
	{
		prices := []int{0, 3000, 2000, 1000}
		forms := [][]string{nil, {"か", "ナナナ", "x"}, {"カカカ", "n", "カナカナ"}, {"カナ", "カナ", "かな漢"}}
		mix := engine.NewMix(4, 4, 4, len(forms), 4, 2, 8)
		sp := engine.NewStrings(3, 3+x)
		sym := []string{"カ", "ナ", "あ"}
		fs = append(fs, &engine.Family{
			Name:   "homographs",
			Bounds: fmt.Sprintf("up to three words カナ with every assignment of the costs %v, together with every subset of {カ, ナ, ナカ}, written as they are spelled, shorter or longer; minimum lengths 1..4; unknown words of single characters and of runs; all texts of 0..%d symbols over %q", prices[1:], 3+x, sym),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				c := conf{min: d[4] + 1, mecab: d[5], posIdx: joinPOS}
				if d[3] > 0 {
					c.forms = []string{}
				}
				add := func(w string, cost, k int) {
					c.words = append(c.words, w)
					c.costs = append(c.costs, cost)
					if d[3] > 0 {
						c.forms = append(c.forms, forms[d[3]][k%3])
					}
				}
				for k := 0; k < 3; k++ {
					if d[k] > 0 {
						add("カナ", prices[d[k]], 2+k)
					}
				}
				for k, w := range []string{"カ", "ナ", "ナカ"} {
					if d[6]>>k&1 != 0 {
						add(w, 200+k, k)
					}
				}
				r := newRig(scratch, c)
				for k := int64(0); k < sp.Size(); k++ {
					text := world.Text(sp, sym, k)
					t.Input("%q %+v", text, c)
					t.State(d, text)
					if !r.check(t, text) {
						return
					}
				}
			},
		})
	}

	// 2a. long words
	{
		lens := []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 21, 22, 31, 32, 33, 42, 43, 63, 64, 65, 84, 85}
		pats := []string{"カ", "カナ", "ナァ"}
		mix := engine.NewMix(len(lens), len(pats), 2, 2, 2, 2)
		fs = append(fs, &engine.Family{
			Name:   "long-words",
			Bounds: fmt.Sprintf("a word of each of %v characters of %q, once or twice, shorter words as well or not; it is dearer than words of single characters and unknown words of runs; the text is the word, shorter, longer, between others", lens, pats),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				n := lens[d[0]]
				run := []rune(strings.Repeat(pats[d[1]], n+2))
				long := string(run[:n])
				c := conf{words: []string{"カ", "ナ", "ァ", long}, costs: []int{100, 90, 80, 32000}, min: 2 + 3*d[4], mecab: d[5] * 2, posIdx: joinPOS}
				if d[2] == 1 {
					c.words = append(c.words, long)
					c.costs = append(c.costs, 31000)
				}
				if d[3] == 1 {
					c.words = append(c.words, string(run[:n-1]), string(run[1:n]))
					c.costs = append(c.costs, 31500, 32100)
				}
				r := newRig(scratch, c)
				t.Input("%d characters of %q, twice %v, shorter ones %v", n, pats[d[1]], d[2] == 1, d[3] == 1)
				t.State(d)
				for _, x := range []string{long, "あ" + long, long + "あ", "漢" + long + "a" + long, string(run[:n-1]), string(run[1:n]) + "あ", string(run[:n+1]), "あ" + string(run[:n+2]) + "あ"} {
					if !r.check(t, x) {
						return
					}
				}
			},
		})
	}

	// 3. long runs
	{
		pats := []string{"カ", "ナ", "ー", "カナ", "ナー", "ァカ", "ヌ", "カあ", "カカナ"}
		lens := []int{2, 3, 10, 100, 1000}
		if thorough {
			lens = append(lens, 10000)
		}
		mix := engine.NewMix(len(pats), len(lens), len(confs))
		fs = append(fs, &engine.Family{
			Name:   "long",
			Bounds: fmt.Sprintf("%q repeated %v times after and before other words", pats, lens),
			Size:   mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				if d[1] > 3 && confs[d[2]].mecab%2 == 1 {
					return // unknown words of whole runs at every position take quadratic space
				}
				s := strings.Repeat(pats[d[0]], lens[d[1]])
				t.Input("%q times %d, %+v", pats[d[0]], lens[d[1]], confs[d[2]])
				t.State(d)
				r := newRig(scratch, confs[d[2]])
				for _, text := range []string{s, "あ" + s + "a", "ー" + s + "あ" + s, s + "漢" + s + "ァ"} {
					if !r.check(t, text) {
						return
					}
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C18", Level: "model_checking",
		Rule:        "the path is recorded before and after the joining together with all candidates of the lattice; every maximal run of katakana words with an unknown or too short word must have become one word without the leading words that cannot begin a word, all other words must be identical",
		Assumptions: []string{"a word is a katakana word if all its characters have the class in common and it lies in one run of characters with a common class, runs being taken from the left as long as possible"},
		Families:    families,
	})
}
