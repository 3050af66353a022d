// C26: a morpheme reports exactly what its dictionary entry says.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

const (
	posV  = "動詞,一般,*,*,五段-カ行,終止形-一般"
	posN  = "名詞,普通名詞,一般,*,*,*"
	posS  = "補助記号,一般,*,*,*,*"
	posM  = "名詞,数詞,*,*,*,*"
	posU1 = "名詞,固有名詞,一,*,*,*"
	posU2 = "名詞,固有名詞,二,*,*,*"
)

// row: headword, left, right, cost, surface, part of speech, reading, normalised form, dictionary form, A, B
func row(head string, cost int, surface, pos, reading, norm, dicForm, a, b string) string {
	lr := "0,0"
	if cost == none {
		lr, cost = "-1,-1", 0
	}
	mode := "A"
	if a != "*" || b != "*" {
		mode = "C"
	}
	return fmt.Sprintf("%s,%s,%d,%s,%s,%s,%s,%s,%s,%s,%s,*\n", head, lr, cost, surface, pos, reading, norm, dicForm, mode, a, b)
}

const none = 1 << 20

// no two indexed words of all dictionaries have the same headword, and every
// word is cheaper than an unknown word
var sysLex = strings.Join([]string{
	row("あ", 100, "あ", posN, "ア", "亜", "*", "*", "*"),               // 0
	row("い", 110, "イ", posV, "イイ", "言う", "5", "*", "*"),             // 1 the dictionary form comes later
	row("あい", 120, "あい", posN, "アイ", "愛", "*", "0/1", "*"),          // 2
	row("あいう", 130, "藍う", posV, "", "", "2", "2/7", "0/8"),          // 3 defaults
	row("う", 140, "う", posS, "ウ", "う", "4", "*", "*"),               // 4 refers to itself
	row("いう", none, "いう", posV, "イウ", "云う", "*", "*", "*"),          // 5 only reachable
	row("ab", 150, "AB", posN, "エービー", "ＡＢ", "0", "11/12", "11/12"), // 6
	row("う", none, "う", posN, "ウー", "宇", "1", "*", "*"),             // 7 the same headword, not indexed
	row("いう", none, "いう", posU0, "", "言", "*", "*", "*"),            // 8
	row("1", 50, "1", posM, "イチ", "1", "*", "*", "*"),               // 9
	row("2", 50, "2", posM, "ニ", "", "9", "*", "*"),                 // 10
	row("a", 200, "a", posN, "エー", "a", "*", "*", "*"),              // 11
	row("b", 210, "b", posS, "", "ビー", "11", "*", "*"),              // 12
	row("カ", 300, "カ", posN, "か", "蚊", "*", "*", "*"),               // 13
	row("カナカ", 250, "カナカ", posV, "かなか", "仮名か", "13", "*", "*"),      // 14
	row("3", 50, "三", posS, "サン", "さん", "*", "*", "*"),              // 15
}, "")

const posU0 = "代名詞,*,*,*,*,*"

var userLex = []string{
	strings.Join([]string{
		row("え", -500, "絵", posU1, "エ", "絵画", "1", "*", "*"),           // 0
		row("えあ", -510, "絵あ", posN, "エア", "", "0", "U0/0", "U0/U2"),    // 1
		row("あ", none, "阿", posU1, "オ", "お", "*", "*", "*"),            // 2
		row("あいえ", -900, "あいえ", posV, "", "愛絵", "2", "2/U0", "0/1/U0"), // 3
	}, ""),
	strings.Join([]string{
		row("お", -500, "緒", posU2, "オ", "", "*", "*", "*"),            // 0
		row("おう", -520, "王", posU1, "オウ", "キング", "0", "U0/4", "U0/7"), // 1 shares a part of speech with the first
		row("おあ", -530, "おあ", posU2, "", "", "1", "U0/U3", "*"),       // 2
		row("あ", none, "唖", posN, "ア", "啞", "2", "*", "*"),            // 3
	}, ""),
	strings.Join([]string{
		row("かき", -600, "柿", posS, "カキ", "牡蠣", "*", "0/1", "U1/U2"), // 0
		row("か", none, "か", posU2, "ガ", "が", "0", "*", "*"),
		row("き", none, "き", posU0, "ギ", "ぎ", "1", "*", "*"),
	}, ""),
}

const charDef = `DEFAULT 0 1 0
ALPHA 1 1 0
NUMERIC 0 1 0
KATAKANA 1 1 2
0x0061..0x007A ALPHA
0x0030..0x0039 NUMERIC
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
`
const unkDef = "ALPHA,0,0,9000," + posN + "\nKATAKANA,0,0,9500," + posS + "\nNUMERIC,0,0,9500," + posM + "\n"

// config of a dictionary
type config struct {
	name    string
	users   []int // numbers of user dictionaries, in order
	mecab   bool
	numeric int // 0 no joining, 1 joining with the forms kept, 2 normalising
	kana    bool
	utf16   bool
	input   bool
	far     bool // the words of every dictionary have numbers that do not fit in two bytes
}

var configs = []config{
	{name: "system dictionary alone"},
	{name: "definition driven provider", mecab: true, input: true},
	{name: "one user dictionary", users: []int{0}, input: true},
	{name: "two user dictionaries", users: []int{0, 1}, mecab: true},
	{name: "two user dictionaries in the other order", users: []int{1, 0}, input: true},
	{name: "three user dictionaries in UTF-16", users: []int{2, 1, 0}, utf16: true, mecab: true, input: true},
	{name: "joined numerals and katakana", users: []int{1}, mecab: true, numeric: 1, kana: true, input: true},
	{name: "normalised numerals", users: []int{0, 1, 2}, mecab: true, numeric: 2, utf16: true},
	{name: "joined katakana", kana: true, users: []int{0}},
	{name: "words with high numbers", users: []int{0, 2}, far: true, mecab: true, kana: true, numeric: 1},
}

type fixture struct {
	d      *gosudachi.JapaneseDictionary
	models []*ref.Dict
	first  *tk.Probe
	last   *tk.Probe
	// indexed headwords
	heads map[string][2]int
}

var (
	scratchDir string
	mu         sync.Mutex
	fxs        = map[string][]*fixture{} // that no case uses
	files      = map[string]string{}
)

func file(name string, build func() ([]byte, error)) string {
	if p, ok := files[name]; ok {
		return p
	}
	b, err := build()
	if err != nil {
		panic(err)
	}
	p := tk.File(scratchDir, name, b)
	files[name] = p
	return p
}

const matrix = "1 1\n0 0 0\n"

// use runs fn with a dictionary of the configuration and the user lexicons.
func (c config) use(lex []string, fn func(f *fixture)) {
	key := fmt.Sprint(c, len(lex))
	mu.Lock()
	var f *fixture
	if l := fxs[key]; len(l) > 0 {
		f = l[len(l)-1]
		fxs[key] = l[:len(l)-1]
	} else {
		f = c.open(lex)
	}
	mu.Unlock()
	fn(f)
	mu.Lock()
	fxs[key] = append(fxs[key], f)
	mu.Unlock()
}

func (c config) open(lex []string) *fixture {
	o := gs.Opts{UTF16: c.utf16, Desc: "c26", Time: 1}
	var sysBytes []byte
	sysLex, n := sysLex, 0
	if c.far {
		n = gs.Far
		sysLex = gs.Filler(n, posN) + gs.Shift(sysLex, n)
	}
	sys := file(fmt.Sprint("sys", c.utf16, n), func() ([]byte, error) { return gs.Sys(sysLex, matrix, o) })
	sysBytes, err := gs.Sys(sysLex, matrix, o)
	if err != nil {
		panic(err)
	}
	sm, v, why := ref.Compile([]string{sysLex}, matrix, nil, false)
	if v == ref.Reject {
		panic(why)
	}
	f := &fixture{models: []*ref.Dict{sm}, heads: map[string][2]int{}}
	cd := tk.File(scratchDir, "char.def", []byte(charDef))
	cf := tk.Conf{Sys: sys, CharDef: cd, UTF16: c.utf16}
	for _, u := range c.users {
		u := u
		ul := lex[u]
		if c.far {
			ul = gs.Filler(n, posU2) + gs.Shift(ul, n)
		}
		cf.User = append(cf.User, file(fmt.Sprint("user", u, c.utf16, len(lex), n), func() ([]byte, error) { return gs.User(ul, sysBytes, o) }))
		m, v, why := ref.Compile([]string{ul}, "", sm, false)
		if v == ref.Reject {
			panic(why)
		}
		f.models = append(f.models, m)
	}
	for d, m := range f.models {
		for w, x := range m.Words {
			if x.Indexed {
				if o, ok := f.heads[x.Head]; ok {
					panic(fmt.Sprint("harness: two words ", x.Head, o))
				}
				f.heads[x.Head] = [2]int{d, w}
			}
		}
	}
	if c.input {
		cf.In = append(cf.In, tk.DefaultInput(tk.File(scratchDir, "rewrite.def", []byte("ｶﾅ カナ\n㌃ あい\n"))))
	}
	if c.mecab {
		cf.OOV = append(cf.OOV, tk.MeCabOOV(cd, tk.File(scratchDir, "unk.def", []byte(unkDef))))
	}
	cf.OOV = append(cf.OOV, tk.SimpleOOV(posU0, 0, 0, 10000))
	f.first, f.last = &tk.Probe{}, &tk.Probe{}
	cf.Path = append(cf.Path, f.first)
	if c.numeric > 0 {
		cf.Path = append(cf.Path, tk.JoinNumeric(c.numeric == 2))
	}
	if c.kana {
		cf.Path = append(cf.Path, tk.JoinKatakana(posS, 3))
	}
	cf.Path = append(cf.Path, f.last)
	f.d = tk.Must(cf)
	return f
}

// want is what a morpheme has to report.
type want struct {
	begin, end      int // bytes of the normalised text
	surface         string
	pos             string
	norm, dic, read string
	anyNorm         bool
	oov             bool
	dict, word      int
	entry           *ref.Word
}

func (w want) String() string {
	return fmt.Sprintf("[%d,%d) %s %q %q %q oov %v dictionary %d word %#x", w.begin, w.end, w.pos, w.norm, w.dic, w.read, w.oov, w.dict, w.word)
}

// entry is what the morpheme of a word reports.
func (f *fixture) entry(d, w int, begin int) want {
	x := &f.models[d].Words[w]
	dic := x.Surface
	if x.DicForm >= 0 {
		dic = f.models[d].Words[x.DicForm].Surface
	}
	return want{begin: begin, end: begin + len(x.Head), surface: x.Surface, pos: strings.Join(x.POS[:], ","), norm: x.Norm, dic: dic, read: x.Reading, dict: d, word: d<<28 | w, entry: x}
}

// pieces are the units of a word.
func (f *fixture) pieces(w want, mode string) []want {
	if w.entry == nil || mode == "C" {
		return []want{w}
	}
	ids := w.entry.B
	if mode == "A" {
		ids = w.entry.A
	}
	if len(ids) < 2 {
		return []want{w}
	}
	var out []want
	at := w.begin
	for _, id := range ids {
		d := 0
		if id>>28 != 0 {
			d = w.dict
		}
		p := f.entry(d, int(id&0xfffffff), at)
		at = p.end
		out = append(out, p)
	}
	return out
}

func isKana(s string) bool {
	for _, r := range s {
		if r < 0x30a1 || r > 0x30ff {
			return false
		}
	}
	return true
}

func isNum(s string) bool { return strings.Trim(s, "0123456789") == "" }

// expect gives the morphemes of mode C from the ranges of the path.
func (f *fixture) expect(c config, text string, first, last []tk.Node) ([]want, string) {
	single := func(b, e int) want {
		s := text[b:e]
		if id, ok := f.heads[s]; ok {
			return f.entry(id[0], id[1], b)
		}
		w := want{begin: b, end: e, surface: s, norm: s, dic: s, oov: true, dict: -1, word: -1, pos: posU0}
		if c.mecab {
			switch {
			case strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") == "":
				w.pos = posN
			case isKana(s):
				w.pos = posS
			case isNum(s):
				w.pos = posM
			}
		}
		return w
	}
	var out []want
	k := 0
	for _, n := range last {
		var in []want
		for k < len(first) && first[k].End <= n.End {
			in = append(in, single(first[k].Begin, first[k].End))
			k++
		}
		if len(in) == 0 || in[0].begin != n.Begin || in[len(in)-1].end != n.End {
			return nil, fmt.Sprintf("[%d,%d) of the final path is not made of words of the path before", n.Begin, n.End)
		}
		s := text[n.Begin:n.End]
		w := in[0]
		switch {
		case len(in) == 1 && c.numeric == 2 && isNum(s):
			w.anyNorm = true // a single digit may be normalised
		case len(in) == 1:
		case c.numeric > 0 && isNum(s):
			w = want{begin: n.Begin, end: n.End, dict: -1, word: -1, pos: in[0].pos, anyNorm: c.numeric == 2}
			for _, x := range in {
				w.surface += x.surface
				w.norm += x.norm
				w.dic += x.dic
				w.read += x.read
			}
		case c.kana && isKana(s):
			if id, ok := f.heads[s]; ok {
				w = f.entry(id[0], id[1], n.Begin)
			} else {
				w = want{begin: n.Begin, end: n.End, surface: s, norm: s, dic: s, oov: true, dict: -1, word: -1, pos: posS}
			}
		default:
			return nil, fmt.Sprintf("%q was joined from %d words", s, len(in))
		}
		out = append(out, w)
	}
	if k != len(first) {
		return nil, "the final path lacks words"
	}
	return out, ""
}

// slice gives the characters [b, e) of a text; bytes that are not valid UTF-8 count one each.
func slice(text string, b, e int) string {
	i, from := 0, len(text)
	for p := range text {
		if i == b {
			from = p
		}
		if i == e {
			return text[from:p]
		}
		i++
	}
	return text[from:]
}

// compare checks one morpheme through every accessor.
func compare(l *gosudachi.MorphemeList, i int, w want, in *gosudachi.InputText) string {
	m := l.Get(i)
	for k := 0; k < 2; k++ {
		var bad []string
		eq := func(what string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) {
				bad = append(bad, fmt.Sprintf("%s is %v, want %v", what, got, want))
			}
		}
		eq("part of speech", strings.Join(m.PartOfSpeech(), ","), w.pos)
		if !w.anyNorm {
			eq("normalised form", m.NormalizedForm(), w.norm)
		}
		if !(w.anyNorm && w.word < 0) {
			eq("dictionary form", m.DictionaryForm(), w.dic)
		}
		eq("reading", m.ReadingForm(), w.read)
		eq("OOV mark", m.IsOOV(), w.oov)
		eq("OOV mark of the list", l.IsOOV(i), w.oov)
		eq("dictionary number", m.GetDictionaryId(), w.dict)
		eq("dictionary number of the list", l.GetDictionaryId(i), w.dict)
		if w.word >= 0 {
			eq("word number", m.GetWordId(), w.word)
			eq("word number of the list", l.GetWordId(i), w.word)
		}
		eq("begin", m.Begin(), in.GetOriginalIndex(w.begin))
		eq("end", m.End(), in.GetOriginalIndex(w.end))
		eq("begin of the list", l.GetBegin(i), m.Begin())
		eq("end of the list", l.GetEnd(i), m.End())
		eq("surface", m.Surface(), slice(in.OriginalText, m.Begin(), m.End()))
		eq("surface of the list", l.GetSurface(i), m.Surface())
		for _, wi := range []interface{}{*m.GetWordInfo(), *l.GetWordInfo(i)} {
			v := reflect.ValueOf(wi)
			eq("surface in the word information", v.FieldByName("Surface").Interface(), w.surface)
			eq("reading in the word information", v.FieldByName("ReadingForm").Interface(), w.read)
			eq("normalised form in the word information", v.FieldByName("NormalizedForm").Interface(), m.NormalizedForm())
			eq("dictionary form in the word information", v.FieldByName("DictionaryForm").Interface(), m.DictionaryForm())
		}
		if len(bad) > 0 {
			return strings.Join(bad, "; ")
		}
	}
	return ""
}

func check(t *engine.T, c config, f *fixture, text string) {
	tz := f.d.Create()
	var exp []want
	for _, mode := range []string{"C", "A", "B"} {
		calls := f.last.Calls
		ms, err := tz.Tokenize(mode, text)
		if err != nil && !c.mecab {
			t.Outcome("no path") // letters inside a run of letters do not begin a word
			return
		}
		if err != nil {
			t.Fail("error", "%s, mode %s, text %q: %v", c.name, mode, text, err)
			return
		}
		if text == "" {
			continue
		}
		if f.last.Calls != calls+1 {
			t.Fail("harness", "the path was not observed")
			return
		}
		in := f.last.Input
		if mode == "C" {
			var bad string
			exp, bad = f.expect(c, in.GetText(), f.first.Path, f.last.Path)
			if bad != "" {
				t.Fail("path", "%s, text %q: %s", c.name, text, bad)
				return
			}
		}
		var ws []want
		for _, w := range exp {
			ws = append(ws, f.pieces(w, mode)...)
		}
		t.Trace(1)
		t.Transition(len(ws))
		if ms.Length() != len(ws) {
			t.Fail("length", "%s, mode %s, text %q: %d morphemes, want %d: %s", c.name, mode, text, ms.Length(), len(ws), gs.Show(gs.Morphs(ms)))
			return
		}
		for i, w := range ws {
			if bad := compare(ms, i, w, in); bad != "" {
				t.Fail("attributes", "%s, mode %s, text %q, morpheme %d: %s", c.name, mode, text, i, bad)
				return
			}
			if mode != "C" {
				continue
			}
			for _, sm := range []string{"A", "B", "C"} {
				ps := ms.Get(i).Split(sm)
				want := f.pieces(w, sm)
				if ps.Length() != len(want) {
					t.Fail("length", "%s, split %s of morpheme %d of %q: %d pieces, want %d", c.name, sm, i, text, ps.Length(), len(want))
					return
				}
				for j, pw := range want {
					if bad := compare(ps, j, pw, in); bad != "" {
						t.Fail("attributes", "%s, split %s of morpheme %d of %q, piece %d: %s", c.name, sm, i, text, j, bad)
						return
					}
				}
			}
		}
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	for _, x := range []struct {
		name string
		sym  []string
		n    int
	}{
		{"words", []string{"あ", "い", "う", "え", "お", "か", "き", "ａ", "b", "ん"}, 4},
		{"mixed", []string{"あいう", "あい", "おう", "おあ", "えあ", "かき", "AB", "㌃", "2", "3", "カ", "ナ", "ｶﾅ", "x", "漢"}, 3},
		{"joined", []string{"1", "2", "3", "7", "カ", "ナ", "あ"}, 5},
	} {
		x := x
		if thorough {
			x.n++
		}
		sp := engine.NewStrings(len(x.sym), x.n)
		mix := engine.NewMix(int(sp.Size()), len(configs))
		fs = append(fs, &engine.Family{
			Name: x.name, Bounds: fmt.Sprintf("all texts of up to %d pieces over %q in modes A, B, C and with every split of every morpheme, in %d configurations", x.n, x.sym, len(configs)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				text := world.Text(sp, x.sym, int64(q[0]))
				c := configs[q[1]]
				t.Input("%s: %q", c.name, text)
				t.State(text, q[1])
				c.use(userLex, func(f *fixture) { check(t, c, f, text) })
			},
		})
	}
	// words far behind the beginning of a long text
	{
		lens := []int{127, 255, 1023, 4095, 16383, 32767, 65535, 70000}
		if thorough {
			lens = append(lens, 131071, 200000)
		}
		tails := []string{"あいうabあい", "おう1えあ", "㌃かきカナあいえ"}
		mix := engine.NewMix(len(lens), len(tails), len(configs))
		fs = append(fs, &engine.Family{
			Name: "far", Bounds: fmt.Sprintf("%q after an unknown word of %v characters, as for the other texts", tails, lens),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				c := configs[q[2]]
				t.Input("%s: %d times z and %q", c.name, lens[q[0]], tails[q[1]])
				t.State(q)
				c.use(userLex, func(f *fixture) { check(t, c, f, strings.Repeat("z", lens[q[0]])+tails[q[1]]) })
			},
		})
	}
	// as many user dictionaries as can be loaded
	{
		var lex []string
		heads := strings.Split("かきくけこさしすせそたちつてと", "")
		for k, h := range heads {
			pos := fmt.Sprintf("名詞,固有名詞,%d,*,*,*", k)
			lex = append(lex, row(h, -100, "表"+h, pos, "ヨミ"+h, "", "1", "*", "*")+
				row(h+"あ", -300, h+"ア", posN, "", "正"+h, "*", "U0/0", "U0/U2")+
				row("あ", none, "亜"+h, pos, "", "", "0", "*", "*"))
		}
		sym := []string{"か", "き", "く", "こ", "さ", "し", "た", "ち", "つ", "て", "と", "あ"}
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(sym), n)
		var cs []config
		for _, k := range []int{7, 8, 15} {
			var us []int
			for u := 0; u < k; u++ {
				us = append(us, u)
			}
			cs = append(cs, config{name: fmt.Sprintf("%d user dictionaries", k), users: us})
			var rs []int
			for u := k - 1; u >= 0; u-- {
				rs = append(rs, u)
			}
			cs = append(cs, config{name: fmt.Sprintf("%d user dictionaries in the other order", k), users: rs, utf16: true})
		}
		mix := engine.NewMix(int(sp.Size()), len(cs))
		fs = append(fs, &engine.Family{
			Name: "many", Bounds: fmt.Sprintf("all texts of up to %d pieces over %q with 7, 8 and 15 user dictionaries, each with its own part of speech, in both orders", n, sym),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				text := world.Text(sp, sym, int64(q[0]))
				c := cs[q[1]]
				t.Input("%s: %q", c.name, text)
				t.State(text, q[1])
				c.use(lex, func(f *fixture) { check(t, c, f, text) })
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C26", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct text in a configuration; a transition is one morpheme compared; a trace is one real tokenization in a mode, every accessor of every morpheme and of every piece of it compared with the entry of the source",
		Assumptions: []string{"the ranges of the words are taken from the path of the tokenizer (their choice is the subject of C08); which entry a range stands for follows from the source, in which no two indexed words have the same headword"},
	})
}
