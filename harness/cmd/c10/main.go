// C10: modes A, B and C differ only by splitting each C-unit as its entry says.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

var scratchDir string
var seq int64

type tok struct {
	name  string
	d     *gosudachi.JapaneseDictionary
	probe *tk.Probe
	dicts []*ref.Dict
}

// pieces are the units of a word for a mode, as (dictionary, word).
func pieces(dicts []*ref.Dict, dic, word int, mode string) [][2]int {
	var ids []int32
	switch mode {
	case "A":
		ids = dicts[dic].Words[word].A
	case "B":
		ids = dicts[dic].Words[word].B
	}
	if len(ids) < 2 {
		return [][2]int{{dic, word}}
	}
	var out [][2]int
	for _, id := range ids {
		if id>>28 != 0 {
			out = append(out, [2]int{dic, int(id & 0xfffffff)})
		} else {
			out = append(out, [2]int{0, int(id)})
		}
	}
	return out
}

func slice(text string, b, e int) string {
	i, from := 0, len(text)
	for p := range text {
		if i == b {
			from = p
		}
		if i == e {
			return text[from:p]
		}
		i++
	}
	return text[from:]
}

// morph is what a word of a dictionary at a range must read as.
func (k *tok) morph(dic, word, b, e int, in *gosudachi.InputText, text string) gs.Morph {
	w := k.dicts[dic].Words[word]
	df := w.Surface
	if w.DicForm >= 0 {
		df = k.dicts[dic].Words[w.DicForm].Surface
	}
	ob, oe := in.GetOriginalIndex(b), in.GetOriginalIndex(e)
	return gs.Morph{Begin: ob, End: oe, Surface: slice(text, ob, oe), POS: strings.Join(w.POS[:], ","), Norm: w.Norm, Dict: df, Read: w.Reading, DicId: dic, WordId: dic<<28 | word}
}

func (k *tok) check(t *engine.T, text string) {
	tz := k.d.Create()
	calls := k.probe.Calls
	cs, err := tz.Tokenize("C", text)
	if err != nil {
		t.Outcome("no path")
		for _, m := range []string{"A", "B"} {
			if _, err := tz.Tokenize(m, text); err == nil {
				t.Fail("error", "%s, text %q fails in mode C but not in mode %s", k.name, text, m)
			}
		}
		return
	}
	if text == "" {
		return
	}
	if k.probe.Calls != calls+1 {
		panic("path not observed")
	}
	in := k.probe.Input
	path := append([]tk.Node{}, k.probe.Path...)
	c := gs.Morphs(cs)
	if len(c) != len(path) {
		t.Fail("C", "%s, text %q: %d morphemes for a path of %d words", k.name, text, len(c), len(path))
		return
	}
	// the words of mode C
	for i, n := range path {
		if n.DicId >= 0 {
			if want := k.morph(n.DicId, n.WordId&0xfffffff, n.Begin, n.End, in, text); c[i] != want {
				t.Fail("C", "%s, text %q: morpheme %d is %v, want %v", k.name, text, i, c[i], want)
				return
			}
		}
	}
	for _, mode := range []string{"A", "B"} {
		var want []gs.Morph
		var per [][]gs.Morph
		for i, n := range path {
			var one []gs.Morph
			if n.DicId < 0 {
				one = append(one, c[i]) // joined or unknown
			} else {
				ps := pieces(k.dicts, n.DicId, n.WordId&0xfffffff, mode)
				b := n.Begin
				for j, p := range ps {
					e := b + len(k.dicts[p[0]].Words[p[1]].Head)
					if len(ps) == 1 {
						e = n.End
					}
					one = append(one, k.morph(p[0], p[1], b, e, in, text))
					if j == len(ps)-1 && e != n.End {
						panic("the units of the fixture do not cover the word")
					}
					b = e
				}
			}
			per = append(per, one)
			want = append(want, one...)
		}
		ms, err := tz.Tokenize(mode, text)
		t.Trace(1)
		if err != nil {
			t.Fail("error", "%s, text %q fails in mode %s: %v", k.name, text, mode, err)
			return
		}
		got := gs.Morphs(ms)
		if !gs.Equal(got, want) {
			t.Fail("mode", "%s, text %q, mode %s:\n got  %s\n want %s", k.name, text, mode, gs.Show(got), gs.Show(want))
			return
		}
		if len(want) > len(c) {
			t.Outcome("split in mode " + mode)
		}
		for i := range c {
			t.Transition(1)
			g := gs.Morphs(cs.Get(i).Split(mode))
			if !gs.Equal(g, per[i]) {
				t.Fail("split", "%s, text %q, split %s of morpheme %d:\n got  %s\n want %s", k.name, text, mode, i, gs.Show(g), gs.Show(per[i]))
				return
			}
			// the pieces can be split again
			sub := cs.Get(i).Split(mode)
			for j := 0; j < sub.Length(); j++ {
				m := per[i][j]
				if m.DicId < 0 || m.OOV {
					continue
				}
				for _, m2 := range []string{"A", "B", "C"} {
					var w2 []gs.Morph
					dic, wd := m.DicId, m.WordId&0xfffffff
					ps := pieces(k.dicts, dic, wd, m2)
					if len(ps) == 1 {
						w2 = []gs.Morph{m}
					} else {
						// place the units over the normalised bytes of the piece
						b := path[i].Begin
						for x := 0; x < j; x++ {
							b += len(k.dicts[per[i][x].DicId].Words[per[i][x].WordId&0xfffffff].Head)
						}
						for _, p := range ps {
							e := b + len(k.dicts[p[0]].Words[p[1]].Head)
							w2 = append(w2, k.morph(p[0], p[1], b, e, in, text))
							b = e
						}
					}
					if g := gs.Morphs(sub.Get(j).Split(m2)); !gs.Equal(g, w2) {
						t.Fail("resplit", "%s, text %q, split %s of piece %d of morpheme %d:\n got  %s\n want %s", k.name, text, m2, j, i, gs.Show(g), gs.Show(w2))
						return
					}
				}
			}
		}
	}
	for _, mode := range []string{"C", "", "a", "b", "AB", "X"} {
		for i := range c {
			if g := gs.Morphs(cs.Get(i).Split(mode)); len(g) != 1 || g[0] != c[i] {
				t.Fail("other", "%s, text %q, split %q of morpheme %d gives %s", k.name, text, mode, i, gs.Show(g))
				return
			}
		}
	}
	if a := gs.Morphs(cs); !gs.Equal(a, c) {
		t.Fail("changed", "%s, text %q: splitting changed the result", k.name, text)
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. every pair of splits of a compound
	{
		base := []string{"あ", "𠮷", "a", "う"}
		menu := func(k int) []string {
			// words 0..3 are the base, 4 is the compound of the first two, 5 of
			// the last two, 6 the whole
			if k == 2 {
				return []string{"*", "%d/%d", "%d", "6"}
			}
			return []string{"*", "%d/%d/%d", "4/%d", "%d/5", "6", "%d"}
		}
		type cfg struct {
			heads [3]int
			k     int
			a, b  string
		}
		var cfgs []cfg
		for k := 2; k <= 3; k++ {
			sp := engine.NewMix(len(base), len(base), len(base))
			for i := int64(0); i < sp.Size(); i++ {
				h := sp.Get(i)
				if k == 2 && h[2] != 0 {
					continue
				}
				x, y, z := h[0], h[1], h[2]
				f := func(s string) string {
					switch {
					case s == "4/%d":
						return fmt.Sprintf(s, z)
					case s == "%d/5":
						return fmt.Sprintf(s, x)
					}
					switch strings.Count(s, "%d") {
					case 1:
						return fmt.Sprintf(s, x)
					case 2:
						return fmt.Sprintf(s, x, y)
					case 3:
						return fmt.Sprintf(s, x, y, z)
					}
					return s
				}
				for _, a := range menu(k) {
					for _, b := range menu(k) {
						cfgs = append(cfgs, cfg{[3]int{x, y, z}, k, f(a), f(b)})
					}
				}
			}
		}
		fs = append(fs, &engine.Family{
			Name: "splits", Bounds: fmt.Sprintf("%d compounds of two and three words (of 3, 4 and 1 bytes, one that is never found by itself) with every combination of A and B splits (none, one unit, all units, nested compounds), in the system and in a user dictionary, both encodings, with written forms that are the headwords or that differ from them in length", len(cfgs)),
			Size: int64(len(cfgs)) * 4,
			Run: func(i int64, t *engine.T) {
				c := cfgs[i/4]
				written := func(h string) string { return h }
				if i/2%2 == 1 {
					written = func(h string) string {
						return map[string]string{"あ": "亜々", "𠮷": "k", "a": "エー"}[h] + h[len(h)/4*4:]
					}
				}
				lex := ""
				for j, h := range base {
					l := j % 2
					if j == 3 {
						l = -1
					}
					lex += world.RowS(h, written(h), l, 0, 100, world.N, h+"n", "*", "*")
				}
				x, y, z := base[c.heads[0]], base[c.heads[1]], base[c.heads[2]]
				whole := x + y
				if c.k == 3 {
					whole += z
				}
				lex += world.RowS(x+y, written(x)+y, 0, 0, 5000, world.V, "4", "*", fmt.Sprintf("%d/%d", c.heads[0], c.heads[1]))
				lex += world.RowS(y+z, y+written(z), 0, 0, 5000, world.V, "5", fmt.Sprintf("%d/%d", c.heads[1], c.heads[2]), "*")
				row := func(a, b string) string { return world.RowS(whole, written(x), 0, 0, -5000, world.N, "6", a, b) }
				o := gs.Opts{Desc: "s", Time: 1, UTF16: i%2 == 1}
				sysLex := lex + row(c.a, c.b) + world.Row("記", -1, 0, 0, world.SYM, "記", "*", "*")
				usr := ""
				u := func(s string) string {
					if s == "6" {
						return "U0"
					}
					return s
				}
				usr = strings.Replace(row(u(c.a), u(c.b)), ",0,0,-5000,", ",0,0,-9000,", 1)
				mat := gs.Matrix(2, 2, func(l, r int) int { return l - r })
				b, err := gs.Sys(sysLex, mat, o)
				if err != nil {
					panic(err)
				}
				ub, err := gs.User(usr, b, o)
				if err != nil {
					panic(err)
				}
				md, v, why := ref.Compile([]string{sysLex}, mat, nil, o.UTF16)
				if v == ref.Reject {
					panic(why)
				}
				mu, v, why := ref.Compile([]string{usr}, "", md, o.UTF16)
				if v == ref.Reject {
					panic(why)
				}
				n := atomic.AddInt64(&seq, 1)
				sp := tk.File(scratchDir, fmt.Sprintf("s%d", n), b)
				up := tk.File(scratchDir, fmt.Sprintf("u%d", n), ub)
				defer os.Remove(sp)
				defer os.Remove(up)
				t.Input("compound %q A %s B %s", whole, c.a, c.b)
				t.State(whole, c.a, c.b, i%4)
				for _, user := range []bool{false, true} {
					probe := &tk.Probe{}
					cf := tk.Conf{Sys: sp, UTF16: o.UTF16, CharDef: tk.File(scratchDir, "char.def", []byte("DEFAULT 0 1 0\n")), OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(world.SYM, 0, 0, 5000)}, Path: []gosudachi.PathRewritePlugin{probe}}
					if user {
						cf.User = []string{up}
					}
					d := tk.Must(cf)
					k := &tok{fmt.Sprintf("user %v", user), d, probe, []*ref.Dict{md, mu}}
					for _, x := range []string{whole, "x" + whole + "い", whole + whole, "あ" + whole + "𠮷" + whole + "a", x, y + z} {
						k.check(t, x)
						if t.Failed() {
							break
						}
					}
					d.Close()
				}
			},
		})
	}

	// many units
	{
		ns := []int{2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 84, 85, 99, 100, 101, 126, 127}
		bases := [][]string{{"a", "b"}, {"あ", "い"}, {"a", "い", "bc"}}
		sel := func(b, n int) ([]int, string) {
			var ids []int
			whole := ""
			for j := 0; j < n; j++ {
				x := (j*j + j/3) % len(bases[b])
				ids = append(ids, x)
				whole += bases[b][x]
			}
			return ids, whole
		}
		join := func(ids []int) string {
			var s []string
			for _, x := range ids {
				s = append(s, fmt.Sprint(x))
			}
			return strings.Join(s, "/")
		}
		fs = append(fs, &engine.Family{
			Name: "many-units", Bounds: fmt.Sprintf("compounds of %v words with as many A units, B units of two halves or as many, also as units of a longer compound, in the system, in a user dictionary, and in the second user dictionary with words of its own, three sets of words, both encodings", ns),
			Size: int64(len(ns) * len(bases) * 4), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				utf16, halves := i%2 == 1, i/2%2 == 1
				b := int(i / 4 % int64(len(bases)))
				n := ns[i/4/int64(len(bases))]
				ids, whole := sel(b, n)
				if len(whole) > 255 {
					t.Outcome("too long")
					return
				}
				o := gs.Opts{Desc: "s", Time: 1, UTF16: utf16}
				lex := ""
				for j := 0; j < 3; j++ {
					h := "ん"
					if j < len(bases[b]) {
						h = bases[b][j]
					}
					lex += world.RowS(h, h, 0, 0, 100, world.N, h+"n", "*", "*")
				}
				_, first := sel(b, n/2)
				second := whole[len(first):]
				rows := func(u string) string {
					as := u + strings.Replace(join(ids), "/", "/"+u, -1)
					bs := as
					if halves {
						bs = u + "3/" + u + "4"
					}
					return world.RowS(whole, whole, 0, 0, -5000, world.N, "w", as, bs)
				}
				lex += world.RowS(first, first, -1, 0, 0, world.V, "x", "*", "*")
				lex += world.RowS(second, second, -1, 0, 0, world.V, "y", "@", "*")
				own := strings.Replace(strings.Replace(lex, ",0,0,100,", ",0,0,90,", -1), "@", "U"+strings.Replace(join(ids[n/2:]), "/", "/U", -1), 1) + strings.Replace(rows("U"), ",0,0,-5000,", ",0,0,-12000,", 1)
				sysLex := strings.Replace(lex, "@", join(ids[n/2:]), 1) + rows("") + world.Row("記", -1, 0, 0, world.SYM, "記", "*", "*")
				usr := strings.Replace(rows(""), ",0,0,-5000,", ",0,0,-9000,", 1)
				mat := gs.Matrix(1, 1, func(l, r int) int { return 0 })
				md, v, why := ref.Compile([]string{sysLex}, mat, nil, utf16)
				if v == ref.Reject {
					panic(why)
				}
				mu, v, why := ref.Compile([]string{usr}, "", md, utf16)
				if v == ref.Reject {
					panic(why)
				}
				sb, err := gs.Sys(sysLex, mat, o)
				if err != nil {
					panic(err)
				}
				ub, err := gs.User(usr, sb, o)
				if err != nil {
					panic(err)
				}
				q := atomic.AddInt64(&seq, 1)
				sp := tk.File(scratchDir, fmt.Sprintf("s%d", q), sb)
				up := tk.File(scratchDir, fmt.Sprintf("u%d", q), ub)
				defer os.Remove(sp)
				defer os.Remove(up)
				mo, v, why := ref.Compile([]string{own}, "", md, utf16)
				if v == ref.Reject {
					panic(why)
				}
				ob, err := gs.User(own, sb, o)
				if err != nil {
					panic(err)
				}
				op := tk.File(scratchDir, fmt.Sprintf("o%d", q), ob)
				defer os.Remove(op)
				t.Input("%d units of %q, halves %v", n, bases[b], halves)
				t.State(n, b, i%4)
				for user := 0; user < 3; user++ {
					probe := &tk.Probe{}
					cf := tk.Conf{Sys: sp, UTF16: utf16, CharDef: tk.File(scratchDir, "char.def", []byte("DEFAULT 0 1 0\n")), OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(world.SYM, 0, 0, 5000)}, Path: []gosudachi.PathRewritePlugin{probe}}
					cf.User = []string{up, op}[:user]
					d := tk.Must(cf)
					k := &tok{fmt.Sprintf("%d user dictionaries", user), d, probe, []*ref.Dict{md, mu, mo}}
					for _, x := range []string{whole, "x" + whole + "い", whole + whole} {
						k.check(t, x)
						if t.Failed() {
							break
						}
					}
					d.Close()
				}
			},
		})
	}

	// 2. the complete fixture
	sets := append(append([]world.Set{}, world.Sets...), world.Set{Name: "words with high numbers", Default: true, MeCab: true, User: true, Far: true})
	for _, c := range []struct {
		name string
		sym  []string
		n    int
	}{
		{"words", []string{"あ", "い", "東京", "都", "𠮷", "a", "b"}, 5},
		{"normalised", []string{"あ", "い", "㌢", "Ａ", "ｂ", "ｶﾞ", "〜", "東京都", "1", "𠮷", "カ"}, 4},
	} {
		c := c
		if thorough {
			c.n++
		}
		sp := engine.NewStrings(len(c.sym), c.n)
		// the probe of a dictionary belongs to one worker: one case per set and block of texts
		const block = 1 << 11
		blocks := (sp.Size() + block - 1) / block
		fs = append(fs, &engine.Family{
			Name: c.name, Bounds: fmt.Sprintf("all texts of up to %d pieces over %q with %d plug-in and dictionary sets", c.n, c.sym, len(sets)),
			Size: blocks * int64(len(sets)), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				s := sets[i%int64(len(sets))]
				s.Probe = &tk.Probe{}
				d := s.Open(scratchDir)
				defer d.Close()
				k := &tok{s.Name, d, s.Probe, s.Models()}
				t.Input("set %s, texts from %d", s.Name, i/int64(len(sets))*block)
				for x := i / int64(len(sets)) * block; x < (i/int64(len(sets))+1)*block && x < sp.Size(); x++ {
					text := world.Text(sp, c.sym, x)
					t.State(s.Name, text)
					k.check(t, text)
					if t.Failed() {
						return
					}
				}
			},
		})
	}
	// 3. words far behind the beginning of a long text
	{
		lens := []int{127, 255, 1023, 4095, 10922, 16383, 32767, 65535, 70000}
		if thorough {
			lens = append(lens, 131071, 200000)
		}
		tails := []string{"東京都いあ", "𠮷い東京都あい", "あいあab1いあい", "aabα都い"}
		mix := engine.NewMix(len(sets), len(lens), len(tails), 2)
		fs = append(fs, &engine.Family{
			Name: "far", Bounds: fmt.Sprintf("%q after unknown words of %v characters of one and of two bytes, with %d plug-in and dictionary sets", tails, lens, len(sets)),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				s := sets[q[0]]
				if !s.MeCab {
					t.Outcome("no long unknown words")
					return
				}
				s.Probe = &tk.Probe{}
				d := s.Open(scratchDir)
				defer d.Close()
				k := &tok{s.Name, d, s.Probe, s.Models()}
				c := []string{"α", "z"}[q[3]]
				t.Input("set %s, %d times %s and %q", s.Name, lens[q[1]], c, tails[q[2]])
				t.State(q)
				k.check(t, strings.Repeat(c, lens[q[1]])+tails[q[2]])
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C10", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct compound with its splits, or a plug-in set and text; a transition is one morpheme split on demand; a trace is one tokenization in mode A or B compared morpheme by morpheme with the mode-C path split by the model",
		Assumptions: []string{"the units of a word cover its headword"},
	})
}
