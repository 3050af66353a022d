// C05: user dictionaries layer over the system dictionary without mixing identities.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const (
	posN = "名詞,普通名詞,一般,*,*,*"
	posV = "動詞,一般,*,*,五段,終止形"
	posO = "記号,*,*,*,*,*"
	posU = "名詞,固有名詞,一般,*,*,*"
	posW = "独自,*,*,*,*,*"
)

var sysLex = gs.Word("a", 0, 1, 100, posN, "a", "エー", "*", "A", "*", "*", "*") +
	gs.Word("b", 1, 0, 200, posV, "b", "ビー", "0", "A", "*", "*", "*") +
	gs.Word("ab", 2, 2, 300, posN, "AB", "エービー", "*", "C", "0/1", "0/1", "0/1") +
	gs.Word("c", -1, -1, 400, posO, "c", "", "*", "A", "*", "*", "*") +
	gs.Word("あ", 0, 0, -5, posV, "ア", "あ", "3", "A", "*", "*", "*")

var matrix = gs.Matrix(3, 3, func(x, y int) int { return 10*x + y })

type tmpl struct {
	name string
	lex  string
	v1   bool
}

func colRef(s string) string { return strings.ReplaceAll(s, ",", `\u002C`) }

var tmpls = []tmpl{
	{"system POS only, references to system words", gs.Word("a", 1, 1, 11, posN, "ua", "ユーエー", "*", "A", "*", "*", "*") +
		gs.Word("abc", 0, 2, 12, posO, "abc", "r", "0", "C", "0/1/3", colRef("ab,"+posN+",エービー")+"/3", "0/1/3"), false},
	{"one new POS, references to own words", gs.Word("a", 2, 0, 21, posU, "a1", "エー", "*", "A", "*", "*", "*") +
		gs.Word("bc", 0, 0, 22, posU, "bc", "r", "0", "A", "*", "*", "*") +
		gs.Word("abc", 1, 2, 23, posV, "abc", "r", "2", "C", "U0/U1", "*", "U0/U1"), false},
	{"two new POS, one shared, mixed references", gs.Word("b", 0, 0, 31, posW, "b", "r", "*", "A", "*", "*", "*") +
		gs.Word("ab", 0, 1, 32, posU, "ab", "r", "0", "B", "0/U0", "U0/0", colRef("b,"+posW+",r")+"/"+colRef("a,"+posN+",エー")) +
		gs.Word("あ", -1, 0, 33, posW, "い", "い", "*", "A", "*", "*", "*"), false},
	{"first version, without POS of its own", gs.Word("a", 1, 2, 41, posV, "a3", "r", "*", "A", "*", "*", "*") +
		gs.Word("あa", 2, 1, 42, posN, "あa", "r", "*", "C", "4/U0", "4/0", "U1"), true},
	{"extreme costs, unindexed word", gs.Word("c", 0, 0, -32767, posU, "c4", "r", "*", "A", "*", "*", "*") +
		gs.Word("c", -1, -1, 32767, posN, "c4'", "", "*", "A", "*", "*", "*") +
		gs.Word("a", 0, 0, 32767, posN, "", "", "1", "C", "U1/U1", "U1/0", "*"), false},
	{"no words", "", false},
	{"new POS with empty and starred columns", gs.Word("a", 0, 0, 61, ",,,,,", "a6", "r", "*", "A", "*", "*", "*") +
		gs.Word("ab", 0, 0, 62, posW, "ab6", "r", "*", "C", "U0/1", "U0/"+colRef("b,"+posV+",ビー"), "*") +
		gs.Word("b", 0, 0, 63, posU, "b6", "r", "*", "A", "*", "*", "*"), false},
}

type fixture struct {
	once  [2]sync.Once
	sys   [2]string
	model [2]*ref.Dict
	user  [2][]string
	um    [2][]*ref.Dict
	char  string
}

var fx fixture
var scratchDir string

func (f *fixture) get(u int) {
	f.once[u].Do(func() {
		u16 := u == 1
		o := gs.Opts{UTF16: u16, Desc: "x", Time: 1}
		b, err := gs.Sys(sysLex, matrix, o)
		if err != nil {
			panic(err)
		}
		m, v, why := ref.Compile([]string{sysLex}, matrix, nil, u16)
		if v != ref.Accept {
			panic(why)
		}
		f.model[u] = m
		f.sys[u] = tk.File(scratchDir, fmt.Sprintf("sys%d.dic", u), b)
		f.char = tk.File(scratchDir, "char.def", []byte("DEFAULT 0 1 0\n0x3042 HIRAGANA\n"))
		for i, t := range tmpls {
			b, err := gs.User(t.lex, b, o)
			if err != nil {
				panic(fmt.Sprintf("template %d: %v", i, err))
			}
			um, v, why := ref.Compile([]string{t.lex}, "", m, u16)
			if v != ref.Accept {
				panic(fmt.Sprintf("template %d: %s", i, why))
			}
			if t.v1 {
				b = gs.FirstVersion(b)
			}
			f.user[u] = append(f.user[u], tk.File(scratchDir, fmt.Sprintf("user%d-%d.dic", u, i), b))
			f.um[u] = append(f.um[u], um)
		}
	})
}

func retag(a []int32, dic int) []int32 {
	var out []int32
	for _, x := range a {
		if x&(1<<28) != 0 {
			x = x&0xfffffff | int32(uint32(dic)<<28)
		}
		out = append(out, x)
	}
	return out
}

// wantNode describes a candidate the model expects.
func wantNode(dic, idx int, w *ref.Word, d *ref.Dict) string {
	df := w.Surface
	if w.DicForm >= 0 {
		df = d.Words[w.DicForm].Surface
	}
	id := int(uint32(dic)<<28 | uint32(idx))
	return fmt.Sprintf("dic=%d word=%d ids=%d,%d cost=%d surface=%q len=%d pos=%q norm=%q dict=%d:%q read=%q A=%v B=%v S=%v",
		dic, id, w.Left, w.Right, w.Cost, w.Surface, len(w.Head), w.POS[:], w.Norm, w.DicForm, df, w.Reading, retag(w.A, dic), retag(w.B, dic), retag(w.WS, dic))
}

func gotNode(d *gosudachi.JapaneseDictionary, n tk.Node) string {
	i := n.Info
	pos := []string{fmt.Sprintf("no part of speech %d", i.PosId)}
	if i.PosId >= 0 && int(i.PosId) < d.GetPartOfSpeechSize() {
		pos = d.GetPartOfSpeechString(i.PosId)
	}
	return fmt.Sprintf("dic=%d word=%d ids=%d,%d cost=%d surface=%q len=%d pos=%q norm=%q dict=%d:%q read=%q A=%v B=%v S=%v",
		n.DicId, n.WordId, n.Left, n.Right, n.Cost, i.Surface, i.HeadwordLength, pos, i.NormalizedForm, i.DictionaryFormWordId, i.DictionaryForm, i.ReadingForm, i.AUnitSplit, i.BUnitSplit, i.WordStructure)
}

var texts = []string{"a", "b", "ab", "abc", "bc", "c", "あ", "あa", "いc", "abcab", "あab", "z", "aあbc"}

func checkSet(t *engine.T, u int, files []string, models []*ref.Dict) {
	checkSetOver(t, u, fx.sys[u], fx.model[u], files, models, texts)
}

// checkSetOver checks a list of user dictionaries over a system dictionary.
func checkSetOver(t *engine.T, u int, sysFile string, sm *ref.Dict, files []string, models []*ref.Dict, texts []string) {
	p := &tk.Probe{Lattice: true}
	d, err := tk.Open(tk.Conf{Sys: sysFile, CharDef: fx.char, User: files, UTF16: u == 1,
		OOV:  []gosudachi.OovProviderPlugin{tk.SimpleOOV(posO, 0, 0, 10000)},
		Path: []gosudachi.PathRewritePlugin{p}})
	if len(models) > 15 {
		if err == nil {
			t.Fail("sixteen", "%d user dictionaries are accepted", len(models))
			d.Close()
		}
		t.Outcome("refused")
		t.Trace(1)
		return
	}
	if err != nil {
		t.Fail("refused", "loading fails: %v", err)
		return
	}
	defer d.Close()
	all := append([]*ref.Dict{sm}, models...)
	tz := d.Create()
	for _, text := range texts {
		for pass := 0; pass < 2; pass++ {
			ms, err := tz.Tokenize("C", text)
			if err != nil {
				t.Fail("error", "tokenizing %q: %v", text, err)
				return
			}
			t.Trace(1)
			got := map[[2]int][]string{}
			reach := map[int]bool{0: true}
			for _, n := range p.Nodes {
				reach[n.End] = true
				if !n.OOV {
					k := [2]int{n.Begin, n.End}
					got[k] = append(got[k], gotNode(d, n))
				}
			}
			want := map[[2]int][]string{}
			cand := map[string]bool{}
			for b := 0; b < len(text); b++ {
				if !reach[b] {
					continue
				}
				for di, dm := range all {
					for i := range dm.Words {
						w := &dm.Words[i]
						if w.Indexed && strings.HasPrefix(text[b:], w.Head) {
							k := [2]int{b, b + len(w.Head)}
							want[k] = append(want[k], wantNode(di, i, w, dm))
							cand[fmt.Sprintf("%d %d %d", di, i, b)] = true
						}
					}
				}
			}
			t.Transition(len(cand))
			keys := map[[2]int]bool{}
			for k := range got {
				keys[k] = true
			}
			for k := range want {
				keys[k] = true
			}
			for k := range keys {
				g, w := got[k], want[k]
				sort.Strings(g)
				sort.Strings(w)
				if strings.Join(g, "\n") != strings.Join(w, "\n") {
					t.Fail("lookup", "text %q [%d,%d):\ngot\n%s\nwant\n%s", text, k[0], k[1], strings.Join(g, "\n"), strings.Join(w, "\n"))
					return
				}
			}
			// the morphemes that come out are words of the model, with their identity
			for i := 0; i < ms.Length(); i++ {
				m := ms.Get(i)
				if m.IsOOV() {
					continue
				}
				di := m.GetDictionaryId()
				idx := m.GetWordId() & 0xfffffff
				if di < 0 || di >= len(all) || idx >= len(all[di].Words) || m.GetWordId()>>28 != di {
					t.Fail("identity", "text %q: morpheme of dictionary %d word %#x", text, di, m.GetWordId())
					return
				}
				w := all[di].Words[idx]
				if strings.Join(m.PartOfSpeech(), ",") != strings.Join(w.POS[:], ",") || m.NormalizedForm() != w.Norm || m.ReadingForm() != w.Reading {
					t.Fail("identity", "text %q: morpheme %s/%v does not belong to dictionary %d word %d", text, m.NormalizedForm(), m.PartOfSpeech(), di, idx)
					return
				}
				// pieces on demand
				for _, mode := range []string{"A", "B"} {
					ids := w.A
					if mode == "B" {
						ids = w.B
					}
					if len(ids) < 2 {
						continue
					}
					ps := m.Split(mode)
					if ps.Length() != len(ids) {
						t.Fail("split", "text %q: %d pieces in mode %s, want %d", text, ps.Length(), mode, len(ids))
						return
					}
					for j, id := range retag(ids, di) {
						q := ps.Get(j)
						qd := int(uint32(id) >> 28)
						qw := all[qd].Words[id&0xfffffff]
						if q.GetWordId() != int(uint32(id)) || q.GetDictionaryId() != qd || strings.Join(q.PartOfSpeech(), ",") != strings.Join(qw.POS[:], ",") || q.NormalizedForm() != qw.Norm {
							t.Fail("split", "text %q: piece %d in mode %s is dictionary %d word %#x %q %v", text, j, mode, q.GetDictionaryId(), q.GetWordId(), q.NormalizedForm(), q.PartOfSpeech())
							return
						}
					}
				}
			}
		}
	}
}

func seqFamily(name, bounds string, u int, n int64, get func(i int64) []int) *engine.Family {
	return &engine.Family{
		Name: name, Bounds: bounds, Size: n,
		Run: func(i int64, t *engine.T) {
			fx.get(u)
			ix := get(i)
			var files []string
			var models []*ref.Dict
			for _, x := range ix {
				files = append(files, fx.user[u][x])
				models = append(models, fx.um[u][x])
			}
			t.Input("user dictionaries %v (of: %s), utf16=%v", ix, names(ix), u == 1)
			t.State(u, fmt.Sprint(ix))
			checkSet(t, u, files, models)
		},
	}
}

func names(ix []int) string {
	var s []string
	for _, x := range ix {
		s = append(s, tmpls[x].name)
		if len(s) > 4 {
			break
		}
	}
	return strings.Join(s, "; ")
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	n := 4
	if tier == engine.Thorough {
		n = 6
	}
	sp := engine.NewStrings(len(tmpls), n)
	sp2 := engine.NewStrings(len(tmpls), n-1)
	var fs []*engine.Family
	fs = append(fs,
		seqFamily("sequences", fmt.Sprintf("all sequences of 0..%d user dictionaries from %d templates (repeats included), %d texts twice", n, len(tmpls), len(texts)), 0, sp.Size(), sp.Get),
		seqFamily("sequences-utf16", fmt.Sprintf("all sequences of 0..%d user dictionaries from %d templates in UTF-16 dictionaries", n-1, len(tmpls)), 1, sp2.Size(), sp2.Get))
	// long lists: lengths 4..16, each template as the odd one out at each position of a rotation
	type long struct{ ix []int }
	var longs []long
	for l := n + 1; l <= 16; l++ {
		for a := range tmpls {
			var r []int
			for k := 0; k < l; k++ {
				r = append(r, (a+k)%len(tmpls))
			}
			longs = append(longs, long{r})
		}
		if l >= 14 || tier == engine.Thorough {
			for a := range tmpls {
				for b := range tmpls {
					for k := 0; k < l; k++ {
						r := make([]int, l)
						for j := range r {
							r[j] = a
						}
						r[k] = b
						longs = append(longs, long{r})
						if tier == engine.Quick {
							k += 4
						}
					}
				}
			}
		}
	}
	longs = append(longs, long{make([]int, 17)})
	fs = append(fs, seqFamily("long-lists", fmt.Sprintf("lists of %d..17 user dictionaries: every rotation of the templates, and (14..16, thorough: all lengths) every pair of templates with one odd one out at stepped positions; 16 and 17 must be refused", n+1), 0, int64(len(longs)), func(i int64) []int { return longs[i].ix }))
	fs = append(fs, manyPOS(), byContent(n-1), manyWords())
	return fs
}

// manyWords: numbers of words that need more than two bytes, in every dictionary.
func manyWords() *engine.Family {
	const n = 66000
	lexicon := func(c byte, u bool, pos string) string {
		var sb strings.Builder
		own := ""
		if u {
			own = "U"
		}
		for j := 0; j < n; j++ {
			a := fmt.Sprintf("%s%d/%s%d/%d", own, n-1-j, own, j, j)
			b := fmt.Sprintf("%d/%s%d", n-1-j, own, (j+65536)%n)
			fmt.Fprintf(&sb, "%c%d,%d,%d,%d,%c%d,%s,r%d,n%d,%d,C,%s,%s,%s%d\n", c, j, j%3, (j+1)%3, j%20000-10000, c, j, pos, j, j, n-1-j, a, b, own, n-1-j)
		}
		return sb.String()
	}
	// words whose numbers need more than 20 bits: only some are indexed
	const huge = 1<<20 + 70000
	some := map[int]bool{}
	for _, j := range []int{0, 1, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 65536, huge - 1} {
		some[j] = true
	}
	hugeLexicon := func(c byte, u bool) string {
		var sb strings.Builder
		own := ""
		if u {
			own = "U"
		}
		for j := 0; j < huge; j++ {
			if !some[j] {
				fmt.Fprintf(&sb, "x,-1,0,0,x,%s,x,x,*,A,*,*,*\n", posN)
				continue
			}
			a := fmt.Sprintf("%s%d/%s%d/%d", own, huge-1-j, own, j, j%9)
			b := fmt.Sprintf("%d/%s%d", j%8, own, 1<<20)
			fmt.Fprintf(&sb, "%c%d,%d,%d,%d,%c%d,%s,r%d,n%d,%d,C,%s,%s,%s%d\n", c, j, j%3, (j+1)%3, j%20000-10000, c, j, posN, j, j, huge-1-j, a, b, own, huge-1-j)
		}
		return sb.String()
	}
	return &engine.Family{
		Name: "many-words", Bounds: fmt.Sprintf("a system dictionary and 0..2 user dictionaries of %d words each, every word with units of its own and of the system dictionary, in both encodings; texts with words around 2^8, 2^15 and 2^16 and at both ends; a system and a user dictionary of more than 2^20 words; words given by their columns", n),
		Size: 8, Chunk: 1, HangSeconds: 300,
		Run: func(i int64, t *engine.T) {
			fx.get(0)
			u := int(i % 2)
			k := int(i / 2)
			if i >= 6 {
				u, k = 0, int(i-6)
			}
			base := ""
			switch i {
			case 6:
				base = hugeLexicon('s', false)
			case 7:
				for j := 0; j < 10; j++ {
					base += gs.Word(fmt.Sprintf("s%d", j), 0, 0, 0, posN, "s", "r", "*", "A", "*", "*", "*")
				}
			default:
				base = lexicon('s', false, posN)
			}
			sl := base + gs.Word("zz", 0, 0, 0, posO, "zz", "r", "*", "A", "*", "*", "*")
			o := gs.Opts{UTF16: u == 1, Desc: "x", Time: 1}
			b, err := gs.Sys(sl, matrix, o)
			if err != nil {
				t.Fail("many", "compiling %d words: %v", n, err)
				return
			}
			m, v, why := ref.Compile([]string{sl}, matrix, nil, u == 1)
			if v != ref.Accept {
				panic(why)
			}
			sys := tk.File(scratchDir, fmt.Sprintf("many%d.dic", i), b)
			var files []string
			var models []*ref.Dict
			for x := 0; x < k; x++ {
				var ul string
				if i == 7 {
					ul = hugeLexicon('u', true)
				} else {
					ul = lexicon("uv"[x], true, []string{posU, posW}[x])
					// words given by their columns, of this and of the system dictionary
					for _, j := range []int{0, 127, 255, 256, 20001, 32767, 32768, 65535, 65536, n - 1} {
						a := strings.ReplaceAll(fmt.Sprintf("%c%d,%s,r%d", "uv"[x], j, []string{posU, posW}[x], j), ",", `\u002C`)
						b := strings.ReplaceAll(fmt.Sprintf("s%d,%s,r%d", j, posN, j), ",", `\u002C`)
						ul += gs.Word(fmt.Sprintf("%cc%d", "uv"[x], j), 0, 1, 1, posN, "c", "c", "*", "C", a+"/"+b, b+"/0", b+"/"+a)
					}
				}
				ub, err := gs.User(ul, b, o)
				if err != nil {
					t.Fail("many", "compiling %d user words: %v", n, err)
					return
				}
				um, v, why := ref.Compile([]string{ul}, "", m, u == 1)
				if v != ref.Accept {
					panic(why)
				}
				files = append(files, tk.File(scratchDir, fmt.Sprintf("many%d-%d.dic", i, x), ub))
				models = append(models, um)
			}
			t.Input("%d user dictionaries of %d words, utf16=%v", k, n, u == 1)
			t.State("many", i)
			var texts []string
			for _, c := range "suv" {
				for _, j := range []int{0, 255, 256, 32767, 32768, 65535, 65536, 65537, n - 1} {
					texts = append(texts, fmt.Sprintf("%c%d", c, j), fmt.Sprintf("%cc%d", c, j))
				}
			}
			if i >= 6 {
				texts = nil
				for _, c := range "su" {
					for j := range some {
						texts = append(texts, fmt.Sprintf("%c%d", c, j))
					}
				}
				sort.Strings(texts)
			}
			checkSetOver(t, u, sys, m, files, models, texts)
		},
	}
}

// byContent looks words up by headword, part of speech and reading in a set of lexicons.
func byContent(n int) *engine.Family {
	sp := engine.NewStrings(len(tmpls), n)
	return &engine.Family{
		Name: "words-by-content", Bounds: fmt.Sprintf("all sequences of 0..%d user dictionaries, every combination of a headword, a part of speech number of the whole set (and the numbers around the bounds) and a reading that occurs in them, in both encodings", n),
		Size: 2 * sp.Size(),
		Run: func(i int64, t *engine.T) {
			u := int(i % 2)
			fx.get(u)
			ix := sp.Get(i / 2)
			t.Input("user dictionaries %v (of: %s), utf16=%v", ix, names(ix), u == 1)
			open := func(f string) *dictionary.BinaryDictionary {
				b, err := dictionary.NewBinaryDictionary(f, u == 1)
				if err != nil {
					panic(err)
				}
				return b
			}
			sys := open(fx.sys[u])
			defer sys.Close()
			g := sys.Grammar
			set := dictionary.NewLexiconSet(sys.Lexicon)
			all := []*ref.Dict{fx.model[u]}
			base := []int{0}
			pos := [][6]string{}
			pos = append(pos, fx.model[u].POS...)
			words := len(fx.model[u].Words)
			for _, x := range ix {
				b := open(fx.user[u][x])
				defer b.Close()
				base = append(base, len(pos))
				all = append(all, fx.um[u][x])
				set.Add(b.Lexicon, int32(g.GetPartOfSpeechSize()))
				if b.Grammar != nil {
					g.AddPosList(b.Grammar)
				}
				pos = append(pos, fx.um[u][x].POS...)
				words += len(fx.um[u][x].Words)
			}
			if g.GetPartOfSpeechSize() != len(pos) || int(set.Size()) != words || set.IsFull() != (len(ix) >= 15) {
				t.Fail("size", "%d parts of speech and %d words, want %d and %d", g.GetPartOfSpeechSize(), set.Size(), len(pos), words)
				return
			}
			t.State("content", u, fmt.Sprint(ix))
			// the number that a part of speech of a word has in the set
			number := func(d int, w *ref.Word) int {
				for k, p := range all[0].POS {
					if p == w.POS {
						return k
					}
				}
				for k, p := range all[d].POS {
					if p == w.POS {
						return base[d] + k
					}
				}
				panic("no part of speech")
			}
			heads, reads := map[string]bool{"zz": true, "": true}, map[string]bool{"": true}
			for d, m := range all {
				for k := range m.Words {
					w := &m.Words[k]
					heads[w.Surface] = true
					reads[w.Reading] = true
					id := int32(uint32(d)<<28 | uint32(k))
					wi := set.GetWordInfo(id)
					if int(wi.PosId) != number(d, w) || set.GetDictionaryId(id) != d {
						t.Fail("number", "word %d of dictionary %d has part of speech %d, want %d", k, d, wi.PosId, number(d, w))
						return
					}
				}
			}
			for h := range heads {
				for r := range reads {
					for p := -1; p <= len(pos); p++ {
						want := int32(-1)
						for k := 1; k <= len(all); k++ {
							d := k % len(all)
							for j := range all[d].Words {
								w := &all[d].Words[j]
								if want < 0 && w.Surface == h && w.Reading == r && number(d, w) == p {
									want = int32(uint32(d)<<28 | uint32(j))
								}
							}
							if want >= 0 {
								break
							}
						}
						t.Transition(1)
						if want >= 0 {
							t.Outcome("found")
						} else {
							t.Outcome("not found")
						}
						if got := set.GetWordId(h, int16(p), r); got != want {
							t.Fail("content", "%q, part of speech %d, %q: word %#x, want %#x", h, p, r, got, want)
							return
						}
					}
				}
			}
			t.Trace(1)
		},
	}
}

// manyPOS: two dictionaries whose parts of speech together go around the limit of 16-bit ids.
func manyPOS() *engine.Family {
	type c struct{ a, b int }
	sys := 3 // POS of the system dictionary
	cases := []c{{16000, 32767 - sys - 16000 - 1}, {16000, 32767 - sys - 16000}, {16000, 32767 - sys - 16000 + 1}, {16000, 32767 - sys - 16000 + 2}, {1, 32764}, {20000, 20000}}
	return &engine.Family{
		Name: "many-parts-of-speech", Bounds: fmt.Sprintf("two user dictionaries whose new parts of speech number %v", cases), Size: int64(len(cases)),
		Run: func(i int64, t *engine.T) {
			fx.get(0)
			var files []string
			var models []*ref.Dict
			n := [2]int{cases[i].a, cases[i].b}
			sysb, err := gs.Sys(sysLex, matrix, gs.Opts{Desc: "x", Time: 1})
			if err != nil {
				panic(err)
			}
			for k := 0; k < 2; k++ {
				var sb strings.Builder
				for j := 0; j < n[k]; j++ {
					h := "z"
					if j == 0 {
						h = "b"
					} else if j == n[k]-1 {
						h = "a"
					}
					fmt.Fprintf(&sb, "%s,%d,0,%d,%s,品詞%d,%d,*,*,*,*,r,n,*,A,*,*,*\n", h, map[bool]int{true: -1, false: 0}[h == "z"], j%1000, h, k, j)
				}
				m, v, why := ref.Compile([]string{sb.String()}, "", fx.model[0], false)
				if v == ref.Reject {
					panic(why)
				}
				b, err := gs.User(sb.String(), sysb, gs.Opts{Desc: "x", Time: 1})
				if err != nil {
					t.Outcome("not compiled")
					return
				}
				files = append(files, tk.File(scratchDir, fmt.Sprintf("many%d-%d.dic", i, k), b))
				models = append(models, m)
			}
			t.Input("new parts of speech: %v", n)
			total := len(fx.model[0].POS) + len(models[0].POS) + len(models[1].POS)
			t.State("many", total)
			if total > 32767 {
				d, err := tk.Open(tk.Conf{Sys: fx.sys[0], CharDef: fx.char, User: files, OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(posO, 0, 0, 10000)}})
				if err != nil {
					t.Outcome("too many parts of speech refused")
					t.Trace(1)
					return
				}
				d.Close()
			}
			checkSet(t, 0, files, models)
		},
		Serial: true,
	}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C05", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct list of user dictionaries (and encoding); a transition is one candidate word of one text whose complete content was compared with the model of its own dictionary; a trace is one tokenization whose lattice was compared",
		Assumptions: []string{"candidates are observed through a path rewriting plug-in, which receives the lattice"},
	})
}
