// C08: the chosen path is a minimum-cost path and never uses an inhibited connection.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
)

const posN = "名詞,普通名詞,一般,*,*,*"
const posO = "記号,*,*,*,*,*"

var scratchDir string
var seq int64

func w(head string, l, r, c int) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,r,n,*,A,*,*,*\n", head, l, r, c, head, posN)
}

const charDef = "DEFAULT 0 1 0\n0x3041..0x3093 HIRAGANA\n0x61..0x7A ALPHA\n0x30..0x39 NUMERIC\n0x3B1..0x3C9 GREEK\n0x62 GREEK\n0x30E3 NOOOVBOW\n"

var ranges, _ = ref.ParseRanges(charDef)

func cats(c rune) uint32 { return ref.CatsOf(ranges, c) }

func charFile() string { return tk.File(scratchDir, "char.def", []byte(charDef)) }

type setup struct {
	conf  *ref.Conf
	probe *tk.Probe
	d     *gosudachi.JapaneseDictionary
}

// open compiles and opens a dictionary.
func open(lex, matrix string, oovCost int) *setup {
	lex += "記,-1,-1,0,記," + posO + ",r,n,*,A,*,*,*\n"
	b, err := gs.Sys(lex, matrix, gs.Opts{Desc: "s", Time: 1})
	if err != nil {
		panic(err)
	}
	m, v, why := ref.Compile([]string{lex}, matrix, nil, false)
	if v == ref.Reject {
		panic(why)
	}
	s := &setup{probe: &tk.Probe{Lattice: true}}
	s.conf = &ref.Conf{Dicts: []*ref.Dict{m}, Cats: cats, OOV: []ref.Provider{ref.SimpleProvider(posO, 0, 0, oovCost)}}
	p := tk.File(scratchDir, fmt.Sprintf("d%d.dic", atomic.AddInt64(&seq, 1)), b)
	s.d = tk.Must(tk.Conf{Sys: p, CharDef: charFile(), OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(posO, 0, 0, oovCost)}, Path: []gosudachi.PathRewritePlugin{s.probe}})
	os.Remove(p)
	return s
}

func (s *setup) run(t *engine.T, tz *gosudachi.JapaneseTokenizer, text string, cands bool) {
	if text == "" {
		return
	}
	t.Trace(1)
	p, m := tk.CheckBest(s.conf, ref.Plain(text, cats), text, s.d, tz, s.probe, cands)
	if m != "" {
		if len(text) > 60 {
			text = fmt.Sprintf("%s... (%d bytes)", text[:60], len(text))
		}
		t.Fail("best", "text %q: %s", text, m)
		return
	}
	if p == nil {
		t.Outcome("no path: fails")
	} else {
		t.Outcome("minimum found")
		t.Transition(len(p))
	}
}

func allTexts(sym []string, max int) []string {
	sp := engine.NewStrings(len(sym), max)
	var out []string
	for i := int64(1); i < sp.Size(); i++ {
		s := ""
		for _, x := range sp.Get(i) {
			s += sym[x]
		}
		out = append(out, s)
	}
	return out
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. all connection matrices over a few values
	{
		vals := []int{0, 7, -5, 32767}
		texts := allTexts([]string{"あ", "い"}, 4)
		lexs := []string{
			w("あ", 0, 1, 3) + w("い", 1, 0, 4) + w("あい", 1, 1, 10),
			w("あ", 1, 1, 3) + w("あ", 0, 0, 9) + w("い", 1, 0, 2) + w("いあ", 0, 1, -20),
			w("あ", 0, 0, 0) + w("ああ", 1, 1, 0) + w("ああ", 0, 1, 0) + w("い", 1, 0, 0),
			w("あ", 0, 1, 3) + w("いい", 1, 0, 4) + w("あいい", 1, 1, -10),
		}
		mix := engine.NewMix(len(vals), len(vals), len(vals), len(vals), len(lexs), 2)
		fs = append(fs, &engine.Family{
			Name: "matrices", Bounds: fmt.Sprintf("every 2x2 connection matrix over %v (32767 is inhibited), %d lexicons, 2 unknown-word costs, all %d texts of up to 4 characters over two", vals, len(lexs), len(texts)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				m := gs.Matrix(2, 2, func(x, y int) int { return vals[d[2*x+y]] })
				s := open(lexs[d[4]], m, []int{50, -50}[d[5]])
				defer s.d.Close()
				t.Input("matrix %s lexicon %s", strings.ReplaceAll(m, "\n", ";"), lexs[d[4]])
				t.State(m, lexs[d[4]], d[5])
				tz := s.d.Create()
				for _, x := range texts {
					s.run(t, tz, x, true)
					if t.Failed() {
						return
					}
				}
			},
		})
	}

	// 2. all small lexicons
	{
		rows := []string{
			w("あ", 0, 0, 5), w("あ", 1, 2, 4), w("い", 2, 1, 5), w("い", 0, 0, -30), w("あい", 1, 1, 9), w("いあ", 2, 0, 11),
			w("ああ", 1, 0, 10), w("あいあ", 2, 2, 14), w("いいあ", 0, 1, 32767), w("ああああ", 1, 1, -32768), w("い", 1, 1, 32767), w("い", -1, -1, 1),
		}
		n, tl := 3, 4
		if thorough {
			n, tl = 4, 6
		}
		sp := engine.NewStrings(len(rows), n)
		texts := allTexts([]string{"あ", "い"}, tl)
		ms := []string{
			gs.Matrix(3, 3, func(x, y int) int { return 3*x - 2*y }),
			gs.Matrix(3, 3, func(x, y int) int {
				if (x+y)%3 == 0 && x > 0 {
					return 32767
				}
				return 5 - x*y
			}),
			gs.Matrix(3, 3, func(x, y int) int {
				if x == y && x > 0 {
					return 32766
				}
				return -32768 + 60000*((x+2*y)%2)
			}),
		}
		fs = append(fs, &engine.Family{
			Name: "lexicons", Bounds: fmt.Sprintf("every list of 0..%d rows from %d (homographs, overlaps, extreme costs), %d connection matrices, all %d texts of up to %d characters over two", n, len(rows), len(ms), len(texts), tl),
			Size: sp.Size() * int64(len(ms)),
			Run: func(i int64, t *engine.T) {
				m := ms[i%int64(len(ms))]
				lex := ""
				for _, x := range sp.Get(i / int64(len(ms))) {
					lex += rows[x]
				}
				s := open(lex, m, 25)
				defer s.d.Close()
				t.Input("matrix %s lexicon %s", strings.ReplaceAll(m, "\n", ";"), lex)
				t.State(m, lex)
				tz := s.d.Create()
				for _, x := range texts {
					s.run(t, tz, x, true)
					if t.Failed() {
						return
					}
				}
			},
		})
	}

	// 3. where words may begin: letters, other classes, characters that cannot begin an unknown word
	{
		sym := []string{"a", "b", "β", "1", "あ", "ャ", "𠮷"}
		n := 4
		if thorough {
			n = 6
		}
		sp := engine.NewStrings(len(sym), n)
		lexs := []string{
			"",
			w("a", 0, 0, 5) + w("ab", 0, 1, 5) + w("b", 1, 0, -100) + w("β", 1, 1, 3) + w("1", 1, 1, 2) + w("あ", 0, 1, 1),
			w("aa", 1, 1, -50) + w("bβ", 0, 1, -50) + w("1a", 1, 1, -60) + w("あa", 1, 0, 5) + w("𠮷", 0, 0, 7) + w("a𠮷", 1, 1, -7) + w("ャ", 1, 0, 7),
			w("ab", 1, 1, -50) + w("ba", 0, 1, -50) + w("β1", 0, 0, 0) + w("ャあ", 0, 0, 0) + w("𠮷ャ", 0, 0, 0),
		}
		var ss [4]*setup
		m := gs.Matrix(2, 2, func(x, y int) int { return 3*x - 2*y })
		fs = append(fs, &engine.Family{
			Name: "word-beginnings", Bounds: fmt.Sprintf("all %d texts of up to %d characters over %q (several classes, one in two, one that cannot begin an unknown word, one of four bytes), %d lexicons", sp.Size(), n, sym, len(lexs)),
			Size: sp.Size(), Serial: true,
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				t.Input("text %q", x)
				t.State(x)
				for k := range lexs {
					if ss[k] == nil {
						ss[k] = open(lexs[k], m, 25)
					}
					s := ss[k]
					s.run(t, s.d.Create(), x, true)
				}
			},
		})
	}

	// 4. totals far beyond 32 bits
	{
		lens := []int{1, 2, 100, 32767, 32768, 40000, 70000, 140000}
		if thorough {
			lens = append(lens, 140000, 300000)
		}
		costs := []int{32767, -32768, 0}
		conns := []int{32766, -32768, 1}
		mix := engine.NewMix(len(lens), len(costs), len(conns), 2)
		fs = append(fs, &engine.Family{
			Name: "long-texts", Bounds: fmt.Sprintf("texts of %v characters where every word has cost %v and every connection %v, with one or two words per position; totals up to %d", lens, costs, conns, 65533*lens[len(lens)-1]),
			Size: mix.Size(), Chunk: 1, HangSeconds: 120,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				lex := w("あ", 0, 0, costs[d[1]])
				if d[3] == 1 {
					lex += w("ああ", 0, 0, costs[(d[1]+1)%3]) + w("あ", 0, 0, 5)
				}
				s := open(lex, gs.Matrix(1, 1, func(x, y int) int { return conns[d[2]] }), 100)
				defer s.d.Close()
				s.probe.Lattice = false
				x := strings.Repeat("あ", lens[d[0]])
				t.Input("%d characters, word cost %d, connection cost %d, variant %d", lens[d[0]], costs[d[1]], conns[d[2]], d[3])
				t.State(d[0], d[1], d[2], d[3])
				s.run(t, s.d.Create(), x, false)
			},
		})
	}
	fs = append(fs, rectangular(thorough), sources(thorough), crowds(thorough))
	return fs
}

// crowds: many words that begin and that end at one place.
func crowds(thorough bool) *engine.Family {
	ns := []int{2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255}
	ls := []int{17, 33, 65, 84}
	mul := []int{1, 4}
	mix := engine.NewMix(len(ns)+len(ls)*len(mul), 3, 2)
	m := gs.Matrix(3, 3, func(x, y int) int { return 3*x - 2*y + x*y })
	return &engine.Family{
		Name: "crowds", Bounds: fmt.Sprintf("%v homographs, and words of all lengths up to %v characters with %v homographs each, all ending and beginning at the same place; the first, the middle or the last is the cheapest or all costs differ; a word before, after and on both sides", ns, ls, mul),
		Size: mix.Size(), Chunk: 1, HangSeconds: 120,
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			n, lens := 0, 1
			if d[0] < len(ns) {
				n = ns[d[0]]
			} else {
				k := d[0] - len(ns)
				lens = ls[k%len(ls)]
				n = lens * mul[k/len(ls)]
			}
			best := []int{0, n / 2, n - 1}[d[1]]
			lex := w("い", 1, 2, 3) + w("い", 2, 0, 4)
			for j := 0; j < n; j++ {
				c := 100
				if d[2] == 1 {
					c = 100 + (j*37)%n
				}
				if j == best {
					c = -50
				}
				if lens > 1 {
					c = c/3 + 60*(j%lens)
				}
				lex += w(strings.Repeat("あ", 1+j%lens), j%3, j/3%3, c)
			}
			t.Input("%d words of up to %d characters, the cheapest is number %d, costs differ: %v", n, lens, best, d[2] == 1)
			t.State(d[0], d[1], d[2])
			s := open(lex, m, 100)
			defer s.d.Close()
			long := strings.Repeat("あ", lens)
			for _, x := range []string{"あ", "あい", "いあ", "いあい", long, long + "い", "い" + long + "い", long + long[:len(long)/6*3] + "いあ"} {
				s.run(t, s.d.Create(), x, true)
			}
		},
	}
}

// rectangular: matrices that are not square.
func rectangular(thorough bool) *engine.Family {
	sizes := [][2]int{{1, 4}, {4, 1}, {2, 4}, {4, 2}, {2, 3}, {3, 2}, {1, 2}, {2, 1}}
	n := 3
	if thorough {
		n = 4
	}
	type rw struct {
		head    string
		l, r, c int
	}
	rows := []rw{{"あ", 0, 0, 5}, {"あ", 1, 1, 4}, {"い", 3, 0, 5}, {"い", 0, 3, -3}, {"い", 2, 1, 1}, {"あい", 3, 1, 9}, {"いあ", 1, 3, 6}, {"ああ", 2, 2, 2}}
	sp := engine.NewStrings(len(rows), n)
	texts := allTexts([]string{"あ", "い"}, 4)
	mix := engine.NewMix(len(sizes), 3)
	return &engine.Family{
		Name: "rectangular", Bounds: fmt.Sprintf("matrices of the sizes %v with three contents (distinct costs, one inhibited cell in every row, extremes), every list of 0..%d rows from %d with ids within them, all %d texts", sizes, n, len(rows), len(texts)),
		Size: mix.Size() * sp.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i % mix.Size())
			z := sizes[d[0]]
			lex := ""
			for _, x := range sp.Get(i / mix.Size()) {
				lex += w(rows[x].head, rows[x].l%z[1], rows[x].r%z[0], rows[x].c)
			}
			m := gs.Matrix(z[0], z[1], func(x, y int) int {
				switch {
				case d[1] == 0:
					return 13*x - 29*y
				case d[1] == 1 && (x+y)%3 == 1:
					return 32767
				case d[1] == 2:
					return []int{32766, -32768, 0}[(2*x+y)%3]
				}
				return 7*y - 5*x
			})
			s := open(lex, m, 25)
			defer s.d.Close()
			t.Input("matrix %s lexicon %s", strings.ReplaceAll(m, "\n", ";"), lex)
			t.State(m, lex)
			tz := s.d.Create()
			for _, x := range texts {
				s.run(t, tz, x, true)
				if t.Failed() {
					return
				}
			}
		},
	}
}

// sources: words of the system dictionary, of user dictionaries and of two providers compete, some pairs are inhibited by a plug-in.
func sources(thorough bool) *engine.Family {
	n := 3
	if thorough {
		n = 4
	}
	lex := w("あ", 0, 1, 100) + w("い", 1, 0, 120) + w("あい", 1, 1, 300) + w("1", 2, 2, 90) + w("記", -1, -1, 0) + fmt.Sprintf("記,-1,-1,0,記,%s,r,n,*,A,*,*,*\n", posO)
	users := []string{
		w("あ", 1, 2, 60) + w("い1", 0, 0, 150),
		w("あ", 0, 1, 100) + w("いあ", 2, 1, -200) + w("1", -1, -1, -999),
		w("あい", 1, 1, 32767) + w("11", 2, 0, -32767),
		w("い", 1, 0, -1) + w("い", 2, 2, 1),
	}
	matrix := gs.Matrix(3, 3, func(x, y int) int { return 40*x - 25*y + 11*((x*y)%2) })
	sets := [][][]int{nil, {{0, 1}}, {{1, 1}, {2, 0}}, {{0, 0}, {1, 0}, {2, 2}}, {{0, 2}, {1, 2}, {2, 1}, {1, 1}}}
	chars := charDef + "HIRAGANA 1 1 2\nNUMERIC 1 1 0\n"
	unk := "HIRAGANA,1,1,260," + posN + "\nHIRAGANA,2,0,240," + posO + "\nNUMERIC,0,2,170," + posN + "\nDEFAULT,0,0,500," + posO + "\n"
	defs, v := ref.ParseClasses(chars)
	if v == ref.Reject {
		panic("classes")
	}
	um, v := ref.ParseUnk(unk, defs, func(string) bool { return true })
	if v == ref.Reject {
		panic("unk")
	}
	lists := engine.NewStrings(len(users), 2)
	mix := engine.NewMix(len(sets), 3)
	texts := allTexts([]string{"あ", "い", "1"}, n+1)
	return &engine.Family{
		Name: "sources", Bounds: fmt.Sprintf("every list of 0..2 of %d user dictionaries, %d sets of pairs inhibited by the plug-in, three lists of providers, all %d texts of up to %d characters over three, each text twice", len(users), len(sets), len(texts), n+1),
		Size: mix.Size() * lists.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i % mix.Size())
			b, err := gs.Sys(lex, matrix, gs.Opts{Desc: "s", Time: 1})
			if err != nil {
				panic(err)
			}
			m, v, why := ref.Compile([]string{lex}, matrix, nil, false)
			if v == ref.Reject {
				panic(why)
			}
			conf := &ref.Conf{Dicts: []*ref.Dict{m}, Cats: cats, Inhibit: map[[2]int]bool{}}
			id := atomic.AddInt64(&seq, 1)
			sys := tk.File(scratchDir, fmt.Sprintf("s%d.dic", id), b)
			defer os.Remove(sys)
			var files []string
			for k, x := range lists.Get(i / mix.Size()) {
				ub, err := gs.User(users[x], b, gs.Opts{Desc: "u", Time: 1})
				if err != nil {
					panic(err)
				}
				um, v, why := ref.Compile([]string{users[x]}, "", m, false)
				if v == ref.Reject {
					panic(why)
				}
				f := tk.File(scratchDir, fmt.Sprintf("u%d-%d.dic", id, k), ub)
				defer os.Remove(f)
				files = append(files, f)
				conf.Dicts = append(conf.Dicts, um)
			}
			for _, p := range sets[d[0]] {
				conf.Inhibit[[2]int{p[0], p[1]}] = true
			}
			probe := &tk.Probe{Lattice: true}
			c := tk.Conf{Sys: sys, CharDef: charFile(), User: files, Path: []gosudachi.PathRewritePlugin{probe}}
			if d[1] > 0 {
				c.OOV = append(c.OOV, tk.MeCabOOV(tk.File(scratchDir, "classes.def", []byte(chars)), tk.File(scratchDir, "unk.def", []byte(unk))))
				conf.OOV = append(conf.OOV, ref.ClassProvider(defs, um))
			}
			if d[1] < 2 {
				c.OOV = append(c.OOV, tk.SimpleOOV(posO, 0, 0, 333))
				conf.OOV = append(conf.OOV, ref.SimpleProvider(posO, 0, 0, 333))
			}
			if len(sets[d[0]]) > 0 {
				var pairs []*[]int
				for k := range sets[d[0]] {
					pairs = append(pairs, &sets[d[0]][k])
				}
				c.Edit = []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(pairs)}
			}
			s := &setup{conf: conf, probe: probe, d: tk.Must(c)}
			defer s.d.Close()
			t.Input("user dictionaries %v, inhibited %v, providers %d", lists.Get(i/mix.Size()), sets[d[0]], d[1])
			t.State("sources", i)
			tz := s.d.Create()
			for _, x := range texts {
				for k := 0; k < 2; k++ {
					s.run(t, tz, x, true)
				}
				if t.Failed() {
					return
				}
			}
		},
	}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C08", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct lexicon and matrix, or text; a transition is one word of a chosen path; a trace is one tokenization whose candidate set was compared with the model's and whose path cost was compared with the minimum over all model paths",
		Assumptions: []string{"candidates and path are observed through a path rewriting plug-in placed first", "ties may be broken either way", "where a reachable position has no candidate at all (no provider proposes one) the tokenizer may fail"},
	})
}
