// C15: unknown-word candidates follow the character definition exactly.
package main

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const (
	posN = "名詞,普通名詞,一般,*,*,*"
	posO = "記号,*,*,*,*,*"
	posV = "動詞,一般,*,*,五段-カ行,終止形-一般"
)

// x: KANJI, y: NUMERIC, z: both, w: three classes, d: no class (DEFAULT), n: cannot begin a word, も KANJI (three bytes), 𠮷 KANJI and NUMERIC (four bytes)
const ranges = "0x78 KANJI\n0x79 NUMERIC\n0x7A KANJI NUMERIC\n0x77 KANJI NUMERIC SYMBOL\n0x6E NOOOVBOW KANJI\n0x3082 KANJI\n0x20BB7 NUMERIC KANJI\n"

var scratchDir string
var seq int64

func w(head string, l, r, c int, pos string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,r,n,*,A,*,*,*\n", head, l, r, c, head, pos)
}

const matrix = "3 3\n0 0 0\n0 1 5\n0 2 -5\n1 0 1\n1 1 2\n1 2 3\n2 0 3\n2 1 -9\n2 2 4\n"

var (
	lexicon = w("記", -1, -1, 0, posO) + w("動", -1, -1, 0, posV) + w("名", -1, -1, 0, posN)
	words   = w("x", 1, 1, 10, posN) + w("zy", 1, 2, -10, posN) + w("も", 2, 1, 0, posV)
)

func grammar() *dictionary.Grammar {
	b, err := gs.Sys(lexicon, matrix, gs.Opts{Desc: "s", Time: 1})
	if err != nil {
		panic(err)
	}
	g, _ := gs.Load(b, false)
	cc, err := gs.Cat(ranges)
	if err != nil {
		panic(err)
	}
	g.CharCategory = cc
	return g
}

var ranges2, _ = ref.ParseRanges(ranges)

func cats(c rune) uint32 { return ref.CatsOf(ranges2, c) }

func knownPOS(p string) bool { return p == posN || p == posO || p == posV }

// plugin sets up a real provider on definition texts.
func plugin(g *dictionary.Grammar, char, unk string) (gosudachi.OovProviderPlugin, error) {
	n := atomic.AddInt64(&seq, 1)
	cf := tk.File(scratchDir, fmt.Sprintf("char%d.def", n), []byte(char))
	uf := tk.File(scratchDir, fmt.Sprintf("unk%d.def", n), []byte(unk))
	defer os.Remove(cf)
	defer os.Remove(uf)
	p := tk.MeCabOOV(cf, uf)
	return p, p.SetUp(g)
}

// models reads the definitions with the model.
func models(char, unk string) (ref.Provider, ref.Verdict) {
	classes, v := ref.ParseClasses(char)
	if v == ref.Reject {
		return nil, v
	}
	us, v2 := ref.ParseUnk(unk, classes, knownPOS)
	if v2 == ref.Reject {
		return nil, v2
	}
	if v2 == ref.Either {
		v = v2
	}
	return ref.ClassProvider(classes, us), v
}

// list renders candidates with repetitions.
func list(cs []ref.Cand) []string {
	var out []string
	for _, c := range cs {
		s := c.String()
		if len(s) > 200 {
			s = fmt.Sprintf("[%d,%d) ... %d,%d,%d %s %v", c.B, c.E, c.Left, c.Right, c.Cost, c.POS, c.OOV)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// compare asks the provider at every position of a text.
func compare(t *engine.T, g *dictionary.Grammar, p gosudachi.OovProviderPlugin, m ref.Provider, text string, at func(i int) bool) {
	compareWith(t, g, cats, p, m, text, at)
}

func compareWith(t *engine.T, g *dictionary.Grammar, cats func(rune) uint32, p gosudachi.OovProviderPlugin, m ref.Provider, text string, at func(i int) bool) {
	in := gosudachi.NewInputTextBuilder(text, g).Build()
	x := ref.Plain(text, cats)
	for i := 0; i < len(text); i++ {
		if x.ByteAt(x.CharAt(i)) != i || at != nil && !at(i) {
			continue
		}
		for _, has := range []bool{false, true} {
			t.Transition(1)
			nodes, err := gosudachi.GetOOV(p, in, i, has)
			if err != nil {
				t.Fail("error", "text %q at %d, words exist: %v: %v", text, i, has, err)
				return
			}
			var got []ref.Cand
			for _, n := range nodes {
				o := tk.NodeOf(n)
				pos := fmt.Sprint(o.Info.PosId)
				if o.Info.PosId >= 0 && int(o.Info.PosId) < g.GetPartOfSpeechSize() {
					pos = strings.Join(g.GetPartOfSpeechString(o.Info.PosId), ",")
				}
				c := ref.Cand{B: o.Begin, E: o.End, Left: o.Left, Right: o.Right, Cost: o.Cost, Dic: -1, Word: -1, OOV: o.OOV, POS: pos, Surface: o.Info.Surface}
				got = append(got, c)
				if o.Info.NormalizedForm != o.Info.Surface || o.Info.DictionaryForm != o.Info.Surface || o.Info.ReadingForm != "" {
					t.Fail("forms", "text %q: candidate %v has forms %q %q %q", text, c, o.Info.NormalizedForm, o.Info.DictionaryForm, o.Info.ReadingForm)
					return
				}
			}
			gl, wl := list(got), list(m(x, i, has))
			if strings.Join(gl, "\n") != strings.Join(wl, "\n") {
				if len(text) > 60 {
					text = text[:60] + "..."
				}
				t.Fail("candidates", "text %q at %d, words exist: %v: %s (%d proposed, %d expected)", text, i, has, tk.Diff(gl, wl), len(gl), len(wl))
				return
			}
		}
	}
	t.Trace(1)
}

func allTexts(sym []string, max int) []string {
	sp := engine.NewStrings(len(sym), max)
	var out []string
	for i := int64(1); i < sp.Size(); i++ {
		s := ""
		for _, x := range sp.Get(i) {
			s += sym[x]
		}
		out = append(out, s)
	}
	return out
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	g := grammar()

	// 1. all settings of two classes
	{
		n, maxLen := 4, 4
		if thorough {
			n, maxLen = 5, 6
		}
		texts := allTexts([]string{"x", "y", "z", "d"}, n)
		mix := engine.NewMix(2, 2, maxLen, 2, 2, maxLen, 3)
		fs = append(fs, &engine.Family{
			Name: "settings", Bounds: fmt.Sprintf("all settings of always/group/length 0..%d of two classes and three of the default class, all %d texts of up to %d characters with the one, the other, both and no class, every position, with and without words", maxLen-1, len(texts), n),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				char := fmt.Sprintf("DEFAULT %s\nKANJI %d %d %d\nNUMERIC %d %d %d\n", []string{"0 1 0", "1 0 1", "0 0 0"}[d[6]], d[0], d[1], d[2], d[3], d[4], d[5])
				unk := "DEFAULT,0,0,100," + posO + "\nKANJI,1,2,10," + posN + "\nKANJI,2,1,-20," + posV + "\nNUMERIC,1,1,30," + posN + "\n"
				t.Input("%q", char)
				p, err := plugin(g, char, unk)
				if err != nil {
					t.Fail("refused", "definitions are refused: %v", err)
					return
				}
				m, v := models(char, unk)
				if v != ref.Accept {
					panic("model")
				}
				for _, x := range texts {
					t.State(char, x)
					compare(t, g, p, m, x, nil)
					if t.Failed() {
						return
					}
				}
			},
		})
	}

	// 2. all texts over characters of every kind
	{
		sym := []string{"x", "y", "z", "w", "d", "n", "も", "𠮷"}
		n := 4
		if thorough {
			n = 6
		}
		chars := []string{
			"DEFAULT 0 1 0\nKANJI 0 0 2\nNUMERIC 1 1 0\nSYMBOL 1 1 3\nNOOOVBOW 1 0 2\n",
			"DEFAULT 1 0 2\nKANJI 1 1 2\nNUMERIC 0 0 3\nSYMBOL 0 1 1\n",
			"DEFAULT 0 0 1\nNUMERIC 0 1 -1\nNOOOVBOW 0 1 0\nSYMBOL 1 0 100\n",
		}
		unk := "DEFAULT,0,0,100," + posO + "\nNUMERIC,1,1,30," + posN + "\nNUMERIC,1,1,32767," + posV + "\n"
		unks := []string{
			unk + "KANJI,1,2,-32768," + posN + "\nSYMBOL,2,0,0," + posO + "\nNOOOVBOW,1,2,3," + posN + "\n",
			unk + "KANJI,0,0,0," + posN + ",x\nKANJI,0,0,0," + posN + "\n",
			unk,
		}
		var ps [3]gosudachi.OovProviderPlugin
		var ms [3]ref.Provider
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "texts", Bounds: fmt.Sprintf("all texts of up to %d characters over %q (one, two, three and no classes; 1, 3 and 4 bytes), three definitions, every position", n, sym),
			Size: sp.Size(), Serial: true,
			Run: func(i int64, t *engine.T) {
				if ps[0] == nil {
					for k := range ps {
						var err error
						if ps[k], err = plugin(g, chars[k], unks[k]); err != nil {
							panic(err)
						}
						ms[k], _ = models(chars[k], unks[k])
					}
				}
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				t.Input("%q", x)
				t.State(x)
				for k := range ps {
					compare(t, g, ps[k], ms[k], x, nil)
				}
			},
		})
	}

	// 3. long runs
	{
		lens := []int{254, 255, 256, 10922, 10923, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537}
		if thorough {
			lens = append(lens, 21845, 21846, 98302, 131072, 200000)
		}
		mix := engine.NewMix(len(lens), 2, 3)
		fs = append(fs, &engine.Family{
			Name: "long-runs", Bounds: fmt.Sprintf("runs of %v characters of 1 and 3 bytes, three definitions, positions at both ends, with the run as the whole text, and followed by others", lens),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				char := []string{"KANJI 1 1 2\nDEFAULT 0 1 0\n", "KANJI 0 0 3\nDEFAULT 0 1 0\n", "KANJI 1 1 0\nDEFAULT 0 1 0\n"}[d[2]]
				unk := "KANJI,1,2,10," + posN + "\nDEFAULT,1,2,10," + posN + "\n"
				p, err := plugin(g, char, unk)
				if err != nil {
					panic(err)
				}
				m, _ := models(char, unk)
				c := []string{"x", "も"}[d[1]]
				t.Input("%d times %q, %q", lens[d[0]], c, char)
				t.State(i)
				for _, x := range []string{strings.Repeat(c, lens[d[0]]), "d" + strings.Repeat(c, lens[d[0]]) + "dd"} {
					compare(t, g, p, m, x, func(i int) bool { return i < 8 || i > len(x)-8 })
				}
			},
		})
	}

	// 3a. limits of the length
	{
		lim := []int{7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1025}
		mix := engine.NewMix(len(lim), 4, 2, 5)
		fs = append(fs, &engine.Family{
			Name: "limits", Bounds: fmt.Sprintf("length limits of %v, always and grouped or not, runs of 1 and 3 byte characters that are up to two shorter and longer than the limit, with and without a class in common with the characters after it, every position of the text's first and last four bytes", lim),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				char := fmt.Sprintf("KANJI %d %d %d\nDEFAULT 0 1 0\n", d[1]%2, d[1]/2, lim[d[0]])
				unk := "KANJI,1,2,10," + posN + "\nKANJI,2,1,11," + posV + "\nDEFAULT,1,2,10," + posN + "\n"
				p, err := plugin(g, char, unk)
				if err != nil {
					panic(err)
				}
				m, _ := models(char, unk)
				c := []string{"x", "も"}[d[2]]
				n := lim[d[0]] - 2 + d[3]
				t.Input("%d times %q, %q", n, c, char)
				t.State(i)
				for _, x := range []string{strings.Repeat(c, n), "d" + strings.Repeat(c, n) + "zd", strings.Repeat(c, n) + "yy"} {
					compare(t, g, p, m, x, func(i int) bool { return i < 4 || i > len(x)-4 })
				}
			},
		})
	}

	// 4. malformed definitions
	{
		cl := []string{
			"DEFAULT 0 1 0", "KANJI 1 1 2", "KANJI 1 1", "KANJI", "KANJI 0 0 x", "KANJI 1 1 2 # c", "KANJI 1 1 2147483648", "KANJI 2 3 1", "NOSUCH 1 1 1", "kanji 1 1 1", "DEFAULT 1 0 1", "# KANJI 1 1 1", "", "0x78 KANJI", "\tKANJI 0 1 1", "KANJI\t0\t1\t1", "KANJI 0 0 +1", "KANJI 0 0 1.5", "KANJI 0 0 99999999999999999999",
		}
		ul := []string{
			"DEFAULT,0,0,1," + posN, "KANJI,1,2,3," + posV, "KANJI,1,2,3," + posV + ",extra", "KANJI,1,2,3,名詞,普通名詞,一般,*,*", "KANJI,1,2,3,名詞,普通名詞,一般,*,*,", "NOSUCH,0,0,1," + posN, "NUMERIC,0,0,1," + posN, "KANJI,x,0,1," + posN, "KANJI,0,,1," + posN, "KANJI,0,0,1.5," + posN, "KANJI,32768,0,1," + posN, "KANJI,0,-32769,1," + posN, "KANJI,0,0,40000," + posN, "KANJI,0,0,1,未知,*,*,*,*,*", "KANJI", "KANJI ,0,0,1," + posN, "KANJI,0,0, 1," + posN, "DEFAULT,0,0,1," + posN,
		}
		mix := engine.NewMix(len(cl), len(cl), len(ul), len(ul)+1)
		texts := []string{"x", "dxx", "yz"}
		fs = append(fs, &engine.Family{
			Name: "malformed", Bounds: fmt.Sprintf("every pair of %d class lines with every pair of %d unknown-word lines, with and without a final newline", len(cl), len(ul)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				char := cl[d[0]] + "\n" + cl[d[1]]
				unk := ul[d[2]]
				if d[3] > 0 {
					unk += "\n" + ul[d[3]-1] + "\n"
				}
				t.Input("char.def %q unk.def %q", char, unk)
				t.State(char, unk)
				m, v := models(char, unk)
				p, err := plugin(g, char, unk)
				switch {
				case v == ref.Reject && err == nil:
					t.Fail("accepted", "malformed definitions %q, %q are accepted", char, unk)
				case v == ref.Accept && err != nil:
					t.Fail("rejected", "definitions %q, %q are refused: %v", char, unk, err)
				case err == nil && v == ref.Accept:
					t.Outcome("accepted")
					if strings.Contains(char, "2147483648") {
						return
					}
					for _, x := range texts {
						compare(t, g, p, m, x, nil)
					}
				default:
					t.Outcome("rejected")
				}
			},
		})
	}

	// 4b. lines that do not fit into a buffer
	{
		lens := engine.LongLines(tier)
		cl := [][2]string{{"KANJI 1 1 2~", " "}, {"#~", " KANJI 1 1 2"}, {"KANJI~1 0 2", " \t"}, {"~", " "}}
		ul := [][2]string{{"KANJI,1,2,3," + posV + ",~", "x,"}, {"", ""}}
		ends := []string{"\n", "\r\n", ""}
		mix := engine.NewMix(len(lens), len(cl), len(ul), len(ends), 2)
		texts := []string{"x", "dxx", "yz"}
		fs = append(fs, &engine.Family{
			Name: "long-lines", Bounds: fmt.Sprintf("class lines of each of %v bytes of %d kinds and unknown-word lines with as many extra columns, line ends %q, before and after other lines", lens, len(cl), ends),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				n := lens[d[0]]
				cline, uline := engine.PadTo(cl[d[1]][0], cl[d[1]][1], n), "KANJI,1,2,3,"+posV
				if d[2] == 0 {
					uline = engine.PadTo(ul[0][0], ul[0][1], n)
				}
				end := ends[d[3]]
				var char, unk string
				if d[4] == 0 || end == "" {
					char, unk = "DEFAULT 0 1 0\nHIRAGANA 0 0 1\n"+cline+end, "DEFAULT,0,0,1,"+posN+"\nHIRAGANA,0,1,1,"+posN+"\n"+uline+end
				} else {
					char, unk = cline+end+"DEFAULT 0 1 0"+end+"HIRAGANA 0 0 1", uline+end+"DEFAULT,0,0,1,"+posN+end+"HIRAGANA,0,1,1,"+posN
				}
				if !strings.Contains(cline, "KANJI") || cline[0] == '#' {
					char = "KANJI 0 1 1\n" + char
				}
				t.Input("%d bytes, %v", n, d[1:])
				t.State(char, unk)
				m, v := models(char, unk)
				if v == ref.Reject {
					panic("harness: not valid")
				}
				p, err := plugin(g, char, unk)
				if err != nil {
					t.Fail("rejected", "definitions with lines of %d bytes are refused: %v", n, err)
					return
				}
				for _, x := range texts {
					compare(t, g, p, m, x, nil)
				}
			},
		})
	}

	// 5. the fallback provider
	{
		sym := []string{"x", "d", "も", "𠮷", "\x80", "n"}
		n := 5
		sp := engine.NewStrings(len(sym), n)
		mix := engine.NewMix(3, 3)
		poss := []string{posN, posO, posV}
		par := [][3]int{{0, 0, 0}, {2, 1, -32768}, {1, 2, 32767}}
		fs = append(fs, &engine.Family{
			Name: "fallback", Bounds: fmt.Sprintf("the one-character provider with three parts of speech and three parameter sets, all texts of up to %d characters over %q, every position, with and without words", n, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				x = string([]rune(x))
				t.Input("%q", x)
				t.State(x)
				for k := int64(0); k < mix.Size(); k++ {
					d := mix.Get(k)
					c := par[d[1]]
					p := tk.SimpleOOV(poss[d[0]], c[0], c[1], c[2])
					if err := p.SetUp(g); err != nil {
						t.Fail("setup", "%v", err)
						return
					}
					compare(t, g, p, ref.SimpleProvider(poss[d[0]], c[0], c[1], c[2]), x, nil)
				}
			},
		})
	}

	// 6. inside the tokenizer: provider lists
	{
		type prov struct {
			name string
			real func() gosudachi.OovProviderPlugin
			mod  ref.Provider
		}
		var provs []prov
		mk := func(name, char, unk string) {
			m, v := models(char, unk)
			if v != ref.Accept {
				panic(name)
			}
			cf := func() string { return tk.File(scratchDir, name+"-char.def", []byte(ranges+char)) }
			uf := func() string { return tk.File(scratchDir, name+"-unk.def", []byte(unk)) }
			provs = append(provs, prov{name, func() gosudachi.OovProviderPlugin { return tk.MeCabOOV(cf(), uf()) }, m})
		}
		mk("never", "DEFAULT 0 1 0\nKANJI 0 1 2\nNUMERIC 0 0 1\n", "DEFAULT,0,0,100,"+posO+"\nKANJI,1,2,10,"+posN+"\nNUMERIC,2,1,20,"+posN+"\n")
		mk("always", "DEFAULT 1 1 0\nKANJI 1 0 2\nNUMERIC 1 1 0\nNOOOVBOW 1 1 1\n", "DEFAULT,0,0,110,"+posO+"\nKANJI,1,2,10,"+posV+"\nNUMERIC,2,1,20,"+posN+"\nNOOOVBOW,1,1,1,"+posO+"\n")
		mk("partial", "NUMERIC 0 1 0\n", "NUMERIC,2,1,20,"+posV+"\n")
		provs = append(provs, prov{"one", func() gosudachi.OovProviderPlugin { return tk.SimpleOOV(posO, 1, 1, 300) }, ref.SimpleProvider(posO, 1, 1, 300)})
		sel := engine.NewStrings(len(provs), 3)
		n := 3
		if thorough {
			n = 4
		}
		texts := allTexts([]string{"x", "y", "z", "d", "n", "も"}, n)
		fs = append(fs, &engine.Family{
			Name: "provider-lists", Bounds: fmt.Sprintf("every list of 0..3 providers from %d, with and without dictionary words, all %d texts of up to %d characters: the candidates in the lattice, and the path", len(provs), len(texts), n),
			Size: sel.Size() * 2,
			Run: func(i int64, t *engine.T) {
				lex := lexicon
				if i%2 == 1 {
					lex += words
				}
				b, err := gs.Sys(lex, matrix, gs.Opts{Desc: "s", Time: 1})
				if err != nil {
					panic(err)
				}
				md, v, why := ref.Compile([]string{lex}, matrix, nil, false)
				if v == ref.Reject {
					panic(why)
				}
				probe := &tk.Probe{Lattice: true}
				conf := &ref.Conf{Dicts: []*ref.Dict{md}, Cats: cats}
				var rs []gosudachi.OovProviderPlugin
				name := ""
				for _, k := range sel.Get(i / 2) {
					rs = append(rs, provs[k].real())
					conf.OOV = append(conf.OOV, provs[k].mod)
					name += provs[k].name + " "
				}
				p := tk.File(scratchDir, fmt.Sprintf("p%d.dic", atomic.AddInt64(&seq, 1)), b)
				defer os.Remove(p)
				t.Input("providers %s, words %v", name, i%2 == 1)
				d, err := tk.Open(tk.Conf{Sys: p, CharDef: tk.File(scratchDir, "tok-char.def", []byte(ranges)), OOV: rs, Path: []gosudachi.PathRewritePlugin{probe}})
				if err != nil {
					if len(rs) == 0 {
						t.Outcome("no provider: refused")
						return
					}
					t.Fail("open", "%v", err)
					return
				}
				defer d.Close()
				for _, x := range texts {
					t.State(name, i%2, x)
					t.Trace(1)
					if _, m := tk.CheckBest(conf, ref.Plain(x, cats), x, d, d.Create(), probe, true); m != "" {
						t.Fail("lattice", "providers %s, text %q: %s", name, x, m)
						return
					}
				}
			},
		})
	}

	// 6a. many definitions and many providers
	{
		ns := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1000}
		texts := []string{"x", "xx", "xyx", "zd", "nnx", "もxxも", "dxxxxxxxxxxd"}
		fs = append(fs, &engine.Family{
			Name: "many", Bounds: fmt.Sprintf("one provider with %v lines for a class and as many for another one, lists of as many providers, with and without dictionary words, %d texts: the candidates in the lattice, and the path", ns, len(texts)),
			Size: int64(len(ns)) * 4, Chunk: 1,
			Run: func(i int64, t *engine.T) {
				n, list := ns[i/4], i/2%2 == 1
				lex := lexicon
				if i%2 == 1 {
					lex += words
				}
				b, err := gs.Sys(lex, matrix, gs.Opts{Desc: "s", Time: 1})
				if err != nil {
					panic(err)
				}
				md, v, why := ref.Compile([]string{lex}, matrix, nil, false)
				if v == ref.Reject {
					panic(why)
				}
				probe := &tk.Probe{Lattice: true}
				conf := &ref.Conf{Dicts: []*ref.Dict{md}, Cats: cats}
				var rs []gosudachi.OovProviderPlugin
				if list {
					for k := 0; k < n; k++ {
						c := (k*7)%n + 200
						rs = append(rs, tk.SimpleOOV(posO, k%3, k/3%3, c))
						conf.OOV = append(conf.OOV, ref.SimpleProvider(posO, k%3, k/3%3, c))
					}
				} else {
					char := "DEFAULT 1 1 0\nKANJI 1 1 3\nNUMERIC 0 0 2\n"
					unk := "DEFAULT,0,0,110," + posO + "\n"
					for k := 0; k < n; k++ {
						unk += fmt.Sprintf("KANJI,%d,%d,%d,%s\nNUMERIC,%d,%d,%d,%s\n", k%3, k/3%3, 500-k, []string{posN, posV}[k%2], k/3%3, k%3, 200+k, posN)
					}
					m, v := models(char, unk)
					if v != ref.Accept {
						panic("many")
					}
					conf.OOV = append(conf.OOV, m)
					q := atomic.AddInt64(&seq, 1)
					rs = append(rs, tk.MeCabOOV(tk.File(scratchDir, fmt.Sprintf("many%d-char.def", q), []byte(ranges+char)), tk.File(scratchDir, fmt.Sprintf("many%d-unk.def", q), []byte(unk))))
				}
				p := tk.File(scratchDir, fmt.Sprintf("p%d.dic", atomic.AddInt64(&seq, 1)), b)
				defer os.Remove(p)
				t.Input("%d, a list of providers: %v, words %v", n, list, i%2 == 1)
				d, err := tk.Open(tk.Conf{Sys: p, CharDef: tk.File(scratchDir, "tok-char.def", []byte(ranges)), OOV: rs, Path: []gosudachi.PathRewritePlugin{probe}})
				if err != nil {
					t.Fail("open", "%v", err)
					return
				}
				defer d.Close()
				for _, x := range texts {
					t.State("many", i, x)
					t.Trace(1)
					if _, m := tk.CheckBest(conf, ref.Plain(x, cats), x, d, d.Create(), probe, true); m != "" {
						if len(m) > 400 {
							m = m[:400] + "..."
						}
						t.Fail("lattice", "%d, list %v, text %q: %s", n, list, x, m)
						return
					}
				}
			},
		})
	}

	// 7. the shipped definitions, as embedded
	{
		var (
			once   sync.Once
			sg     *dictionary.Grammar
			sm     ref.Provider
			scats  func(rune) uint32
			ps     []gosudachi.OovProviderPlugin
			broken string
		)
		setup := func() {
			char, unk := asset("char.def"), asset("unk.def")
			classes, v := ref.ParseClasses(char)
			if v == ref.Reject {
				panic("char.def")
			}
			rs, err := ref.ParseRanges(char)
			if err != ref.Accept {
				panic("char.def ranges")
			}
			scats = func(c rune) uint32 { return ref.CatsOf(rs, c) }
			lex, seen := "", map[string]bool{}
			for _, l := range ref.Lines(unk) {
				p := strings.Join(strings.Split(l, ",")[4:10], ",")
				if !seen[p] {
					seen[p] = true
					lex += w("記", -1, -1, 0, p)
				}
			}
			us, v := ref.ParseUnk(unk, classes, func(p string) bool { return seen[p] })
			if v == ref.Reject {
				panic("unk.def")
			}
			sm = ref.ClassProvider(classes, us)
			b, e := gs.Sys(lex, "5969 5969\n", gs.Opts{Desc: "s", Time: 1})
			if e != nil {
				panic(e)
			}
			sg, _ = gs.Load(b, false)
			if sg.CharCategory, e = gs.Cat(char); e != nil {
				panic(e)
			}
			// no options, empty ones, and the files themselves
			ps = append(ps, gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{}), tk.MeCabOOV("", ""))
			cf, uf := tk.File(scratchDir, "shipped-char.def", []byte(char)), tk.File(scratchDir, "shipped-unk.def", []byte(unk))
			ps = append(ps,
				gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cf}),
				gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{UnkDef: &uf}))
			for k, p := range ps {
				if e := p.SetUp(sg); e != nil {
					broken = fmt.Sprintf("the shipped definitions (%d) are refused: %v", k, e)
				}
			}
		}
		sym := []string{"あ", "ア", "ー", "漢", "一", "1", "a", "α", "、", " ", "\u0301", "é", "ｶ", "𠮷", "я", "々", "〇", "\u3099"}
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "shipped", Bounds: fmt.Sprintf("the definitions that are built in, named by no option, by empty ones and half by files: all texts of up to %d characters over %q, every position, with and without words", n, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				once.Do(setup)
				if broken != "" {
					t.Fail("shipped", "%s", broken)
					return
				}
				x := ""
				for _, k := range sp.Get(i) {
					x += sym[k]
				}
				t.Input("%q", x)
				t.State("shipped", x)
				for k := range ps {
					if k == 0 || i%4 == int64(k) || len(x) < 8 {
						compareWith(t, sg, scats, ps[k], sm, x, nil)
					}
				}
			},
		})
	}
	return fs
}

func asset(name string) string {
	f, err := data.Assets.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func main() {
	engine.Main(&engine.Check{
		ID: "C15", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct pair of definitions and text; a transition is one call of the provider at one position whose candidate list was compared with the model's; a trace is one text (all positions, or one lattice)",
		Assumptions: []string{"a run of characters is the longest from the left that has a class in common", "a blank line in unk.def counts as malformed, as it does for the tool", "the order of candidates is not compared"},
	})
}
