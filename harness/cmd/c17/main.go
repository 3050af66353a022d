// C17: joined numerals are normalised to their true value.
package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

var digitOf = map[rune]int{}
var unitOf = map[rune]int{'十': 1, '百': 2, '千': 3, '万': 4, '億': 8, '兆': 12}

func init() {
	for i, c := range "0123456789" {
		digitOf[c] = i
	}
	for i, c := range []rune("〇一二三四五六七八九") {
		digitOf[c] = i
	}
}

var pow = func() []*big.Rat {
	var r []*big.Rat
	x := big.NewInt(1)
	for i := 0; i < 20; i++ {
		r = append(r, new(big.Rat).SetInt(x))
		x = new(big.Int).Mul(x, big.NewInt(10))
	}
	return r
}()

var (
	digitsRe = regexp.MustCompile(`^([0-9]+|[0-9]{1,3}(,[0-9]{3})+)(\.[0-9]+)?$`)
	formRe   = regexp.MustCompile(`^[0-9]+(\.[0-9]*[1-9])?$`)
)

// number is the reading of a notation.
type number struct {
	val    *big.Rat
	ok     bool // the notation can be read
	strict bool // the notation is certainly a valid number
	zeros  bool // the notation begins with a zero
}

var (
	readMu sync.RWMutex
	reads  = map[string]*number{}
)

func read(s string) *number {
	readMu.RLock()
	n := reads[s]
	readMu.RUnlock()
	if n == nil {
		n = parse(s)
		if len(s) < 40 {
			readMu.Lock()
			if len(reads) > 1<<20 {
				reads = map[string]*number{}
			}
			reads[s] = n
			readMu.Unlock()
		}
	}
	return n
}

// parse reads a notation by the rules of positional and kanji numerals.
func parse(s string) *number {
	bad := &number{}
	if s == "" {
		return bad
	}
	type tok struct {
		d    string // digits, commas and points in ASCII
		unit int
	}
	var ts []tok
	points, units := 0, 0
	for _, c := range s {
		if d, ok := digitOf[c]; ok || c == ',' || c == '.' {
			ch := string(c)
			if ok {
				ch = string(rune('0' + d))
			}
			if c == '.' {
				points++
			}
			if len(ts) > 0 && ts[len(ts)-1].unit == 0 {
				ts[len(ts)-1].d += ch
			} else {
				ts = append(ts, tok{d: ch})
			}
			continue
		}
		u, ok := unitOf[c]
		if !ok {
			return bad
		}
		units++
		ts = append(ts, tok{unit: u})
	}
	const none = 1 << 30
	n := &number{val: new(big.Rat), ok: true, strict: true, zeros: ts[0].unit == 0 && strings.HasPrefix(ts[0].d, "0")}
	sub := new(big.Rat)
	started := false // the group has something in it
	small := none    // the smallest unit used in the group
	large := none
	scale := none // the power of ten the part before ends at
	var cur *big.Rat
	curLen := 0
	intLen := func(r *big.Rat) int {
		q := new(big.Int).Quo(r.Num(), r.Denom())
		if q.Sign() == 0 {
			return 0
		}
		return len(q.String())
	}
	flush := func() bool { // digits that stand without a small unit
		if cur == nil {
			return true
		}
		if curLen > small {
			return false
		}
		sub.Add(sub, cur)
		cur = nil
		started = true
		return true
	}
	first := true
	for k, x := range ts {
		switch {
		case x.unit == 0:
			if !digitsRe.MatchString(x.d) {
				return bad
			}
			cur, _ = new(big.Rat).SetString(strings.ReplaceAll(x.d, ",", ""))
			curLen = intLen(cur)
			lone := len(ts) == 1
			if strings.Contains(x.d, ",") && (!first && ts[k-1].unit < 4 || x.d[0] == '0') {
				n.strict = false
			}
			if x.d[0] == '0' && !lone && !strings.HasPrefix(x.d, "0.") {
				n.strict = false
			}
			if k+1 < len(ts) && ts[k+1].unit < 4 && points == 0 && len(x.d) != 1 {
				n.strict = false
			}
			if cur.Sign() == 0 && !lone {
				n.strict = false
			}
		case x.unit < 4:
			if x.unit >= small {
				return bad
			}
			c := cur
			if c == nil {
				c = pow[0]
			} else if small != none && curLen+x.unit > small {
				return bad
			}
			sub.Add(sub, new(big.Rat).Mul(c, pow[x.unit]))
			cur = nil
			started = true
			small = x.unit
		default:
			if !flush() || !started || x.unit > large {
				return bad
			}
			if large != none && intLen(sub)+x.unit > scale {
				return bad
			}
			if x.unit == large {
				n.strict = false // a repeated unit, as in 十万一万
			}
			scale = x.unit
			if small != none && ts[k-1].unit != 0 {
				scale += small
			}
			n.val.Add(n.val, sub.Mul(sub, pow[x.unit]))
			sub = new(big.Rat)
			started = false
			small = none
			large = x.unit
			first = false
		}
		if x.unit != 0 {
			first = false
		}
	}
	if !flush() {
		return bad
	}
	if large != none && intLen(sub) > scale {
		return bad
	}
	n.val.Add(n.val, sub)
	if points > 0 && (points > 1 || units > 1 || units == 1 && ts[0].unit != 0 || len(ts) > 2) {
		n.strict = false
	}
	return n
}

// classes of the characters in use.
const charDef = `DEFAULT 0 1 0
NUMERIC 1 1 0
KANJINUMERIC 1 1 0
HIRAGANA 0 1 2
0x0030..0x0039 NUMERIC
0x2163 NUMERIC
0x3042 HIRAGANA
0x3007 KANJINUMERIC
0x4E00 KANJINUMERIC
0x4E8C KANJINUMERIC
0x4E09 KANJINUMERIC
0x56DB KANJINUMERIC
0x4E94 KANJINUMERIC
0x516D KANJINUMERIC
0x4E03 KANJINUMERIC
0x516B KANJINUMERIC
0x4E5D KANJINUMERIC
0x5341 KANJINUMERIC
0x767E KANJINUMERIC
0x5343 KANJINUMERIC
0x4E07 KANJINUMERIC
0x5104 KANJINUMERIC
0x5146 KANJINUMERIC
0x58F1 KANJINUMERIC
0x62FE KANJINUMERIC
`

const unkDef = "DEFAULT,0,0,9000," + world.SYM + "\nNUMERIC,0,0,500," + world.NUM + "\nKANJINUMERIC,0,0,500," + world.NUM + "\nHIRAGANA,0,0,9000," + world.N + "\n"

func class(s string) string {
	c := ""
	for i, r := range []rune(s) {
		x := "-"
		if r >= '0' && r <= '9' || r == 'Ⅳ' {
			x = "n"
		} else if _, ok := unitOf[r]; ok || strings.ContainsRune("〇一二三四五六七八九壱拾", r) {
			x = "k"
		}
		if i > 0 && x != c {
			return "-"
		}
		c = x
	}
	return c
}

// rig is a tokenizer observed before and after the joining.
type rig struct {
	d             *gosudachi.JapaneseDictionary
	before, after *tk.Probe
	tz            *gosudachi.JapaneseTokenizer
	norm          bool
	numPos        int16
	punct         bool // commas and points have the numeric class
}

type lex struct {
	name string
	rows string
	oov  bool
	defs string // further lines of the character definition
}

const numerals = "0123456789〇一二三四五六七八九十百千万億兆"

func lexicons() []lex {
	single := ""
	for _, c := range numerals {
		single += world.Row(string(c), 0, 0, 100, world.NUM, string(c), "*", "*")
	}
	punct := world.Row(",", 0, 0, 100, world.SYM, ",", "*", "*") + world.Row(".", 0, 0, 100, world.SYM, ".", "*", "*")
	other := world.Row("あ", 0, 0, 100, world.N, "亜", "*", "*") + world.Row("個", 0, 0, 100, world.N, "個", "*", "*")
	words := ""
	for _, w := range []struct{ h, p, n string }{
		{"10", world.NUM, "10"}, {"00", world.NUM, "00"}, {"100", world.NUM, "100"}, {"二十", world.NUM, "二十"}, {"十万", world.NUM, "十万"},
		{"1,000", world.NUM, "1,000"}, {"1.5", world.NUM, "1.5"}, {"壱", world.NUM, "一"}, {"拾", world.NUM, "十"}, {"四", world.N, "四"}, {"Ⅳ", world.NUM, "4"},
		{"、", world.SYM, ","}, {"・", world.SYM, "."},
	} {
		words += world.Row(w.h, 0, 0, 50, w.p, w.n, "*", "*")
	}
	few := ""
	for _, c := range "1250一五十百千万億兆" {
		few += world.Row(string(c), 0, 0, 100, world.NUM, string(c), "*", "*")
	}
	return []lex{
		{"characters", single + punct + other, false, ""},
		{"words", few + punct + other + words, false, ""},
		{"unknown", other + punct + world.Row("数", 0, 0, 100, world.NUM, "数", "*", "*"), true, ""},
		{"punctuation", single + punct + other, false, "0x002C NUMERIC\n0x002E NUMERIC\n0x3042 DEFAULT\n"},
	}
}

func newRig(scratch string, l lex, norm bool) *rig {
	b, err := gs.Sys(l.rows, gs.Matrix(1, 1, func(int, int) int { return 0 }), gs.Opts{Time: 1})
	if err != nil {
		panic(err)
	}
	r := &rig{before: &tk.Probe{}, after: &tk.Probe{}, norm: norm, punct: l.defs != ""}
	c := tk.Conf{Sys: tk.File(scratch, l.name+".dic", b), CharDef: tk.File(scratch, l.name+".def", []byte(charDef+l.defs))}
	if l.oov {
		c.OOV = append(c.OOV, tk.MeCabOOV(c.CharDef, tk.File(scratch, "unk.def", []byte(unkDef))))
	}
	c.OOV = append(c.OOV, tk.SimpleOOV(world.SYM, 0, 0, 9000))
	c.Path = []gosudachi.PathRewritePlugin{r.before, tk.JoinNumeric(norm), r.after}
	r.d = tk.Must(c)
	for i := 0; i < r.d.GetPartOfSpeechSize(); i++ {
		if strings.Join(r.d.GetPartOfSpeechString(int16(i)), ",") == world.NUM {
			r.numPos = int16(i)
		}
	}
	r.tz = r.d.Create()
	return r
}

func valid(form string, n *number) bool {
	if !formRe.MatchString(form) {
		return false
	}
	v, ok := new(big.Rat).SetString(form)
	if !ok || v.Cmp(n.val) != 0 {
		return false
	}
	return n.zeros || len(form) == 1 || form[0] != '0' || form[1] == '.'
}

// core reads a notation without a comma or point at its ends.
func core(s string) (n *number, b, e int) {
	sep := ""
	if strings.HasPrefix(s, ",") || strings.HasPrefix(s, ".") {
		b = 1
		sep = s[:1]
		s = s[1:]
	}
	if strings.HasSuffix(s, ",") || strings.HasSuffix(s, ".") {
		e = 1
		sep += s[len(s)-1:]
		s = s[:len(s)-1]
	}
	if strings.ContainsAny(s, sep) {
		return &number{}, b, e // the mark may separate numbers
	}
	return read(s), b, e
}

func show(ns []tk.Node) string {
	var p []string
	for _, n := range ns {
		p = append(p, fmt.Sprintf("%s(%s)", n.Info.Surface, n.Info.NormalizedForm))
	}
	if len(p) > 30 {
		p = append(p[:30], "...")
	}
	return strings.Join(p, " ")
}

// check tokenizes a text and judges the joining; numPos is the id of the numeral part of speech.
func (r *rig) check(t *engine.T, text string) bool {
	if text == "" {
		return true
	}
	t.Trace(1)
	calls := r.after.Calls
	if _, err := r.tz.Tokenize("C", text); err != nil {
		t.Fail("error", "text %q: %v", text, err)
		return false
	}
	if r.after.Calls != calls+1 {
		t.Fail("harness", "text %q: the path was not observed", text)
		return false
	}
	return r.judge(t, text, r.before.Path, r.after.Path)
}

func (r *rig) judge(t *engine.T, text string, p, q []tk.Node) bool {
	numPos := r.numPos
	fail := func(key, f string, a ...interface{}) bool {
		t.Fail(key, "text %.200q, normalise=%v: %s\n  words:  %s\n  joined: %s", text, r.norm, fmt.Sprintf(f, a...), show(p), show(q))
		return false
	}
	kind := make([]string, len(p))
	for i, n := range p {
		kind[i] = class(n.Info.Surface)
		if kind[i] == "-" && (n.Info.NormalizedForm == "," || n.Info.NormalizedForm == ".") {
			kind[i] = "p"
		}
	}
	run := make([]int, len(p)) // first word of the run a word is in
	for i := range p {
		run[i] = i
		if i > 0 && kind[i] != "-" && kind[i-1] != "-" {
			run[i] = run[i-1]
		}
	}
	at := 0
	owner := make([]int, len(p)) // joined word of each word
	for j, n := range q {
		if at >= len(p) || n.Begin != p[at].Begin {
			return fail("tiling", "the word %d of the result begins at %d", j, n.Begin)
		}
		from := at
		surface, form, dict, yomi := "", "", "", ""
		for at < len(p) && p[at].End <= n.End {
			owner[at] = j
			surface += p[at].Info.Surface
			form += p[at].Info.NormalizedForm
			dict += p[at].Info.DictionaryForm
			yomi += p[at].Info.ReadingForm
			if run[at] != run[from] {
				return fail("mixed", "%q joins words that are not numerals", n.Info.Surface)
			}
			at++
		}
		if at == from || p[at-1].End != n.End {
			return fail("tiling", "the word %d of the result ends at %d", j, n.End)
		}
		t.Transition(1)
		same := n.Info.NormalizedForm == form
		if n.Info.Surface != surface || n.Info.DictionaryForm != dict || n.Info.ReadingForm != yomi || n.Info.PosId != p[from].Info.PosId {
			return fail("attributes", "word %+v is not made of its parts", n.Info)
		}
		if at-from == 1 {
			if same && kind[from] == "-" || same && n.OOV == p[from].OOV && n.WordId == p[from].WordId {
				continue
			}
			if kind[from] == "-" {
				return fail("other", "%q is not a numeral", surface)
			}
		}
		v := read(form)
		if p[from].Info.PosId != numPos {
			return fail("pos", "%q joined, whose part of speech is not that of numerals", surface)
		}
		if !v.ok {
			return fail("invalid", "%q is joined, but %q is not a number", surface, form)
		}
		if !r.norm {
			if !same {
				return fail("off", "the normalised form of %q became %q", surface, n.Info.NormalizedForm)
			}
		} else if !valid(n.Info.NormalizedForm, v) {
			return fail("value", "%q (%s) is normalised to %q, its value is %s", surface, form, n.Info.NormalizedForm, v.val.RatString())
		}
		t.Outcome("joined part")
	}
	if at != len(p) {
		return fail("tiling", "the result ends early")
	}
	// whole runs
	for i := 0; i < len(p); {
		j := i
		s := ""
		plain := true
		for ; j < len(p) && run[j] == i; j++ {
			s += p[j].Info.NormalizedForm
			if p[j].Info.PosId != numPos && kind[j] != "p" {
				plain = false
			}
		}
		if kind[i] != "-" && plain {
			v := read(s)
			if v.strict {
				t.Outcome("valid run")
				if owner[i] != owner[j-1] {
					return fail("apart", "the number %q is not joined", s)
				}
				if f := q[owner[i]].Info.NormalizedForm; r.norm && !valid(f, v) {
					return fail("value", "the number %q is normalised to %q, its value is %s", s, f, v.val.RatString())
				}
			} else if l, b, e := core(s); !r.punct && b+e > 0 && l.strict && kind[i+b] != "p" && kind[j-1-e] != "p" && (b == 0 || kind[i] == "p") && (e == 0 || kind[j-1] == "p") {
				t.Outcome("valid run after or before a comma or point")
				if owner[i+b] != owner[j-1-e] {
					return fail("apart", "the number in %q is not joined", s)
				}
				if f := q[owner[i+b]].Info.NormalizedForm; r.norm && !valid(f, l) {
					return fail("value", "the number in %q is normalised to %q, its value is %s", s, f, l.val.RatString())
				}
			} else if v.ok {
				t.Outcome("unusual run")
			} else {
				t.Outcome("invalid run")
			}
		}
		i = j
	}
	return true
}

// render writes an integer below 10^16 with kanji units; style varies the notation.
func render(n int64, style int) string {
	digits := []rune("0123456789")
	if style%2 == 1 {
		digits = []rune("〇一二三四五六七八九")
	}
	dec := func(n int64) string {
		s := ""
		for _, c := range fmt.Sprint(n) {
			s += string(digits[c-'0'])
		}
		return s
	}
	switch style / 2 {
	case 0: // plain digits
		return dec(n)
	case 1: // commas
		s := []rune(dec(n))
		out := ""
		for i, c := range s {
			if i > 0 && (len(s)-i)%3 == 0 {
				out += ","
			}
			out += string(c)
		}
		return out
	}
	if n == 0 {
		return string(digits[0])
	}
	small := func(n int64) string {
		s := ""
		for _, u := range []struct {
			v int64
			c string
		}{{1000, "千"}, {100, "百"}, {10, "十"}, {1, ""}} {
			d := n / u.v
			n %= u.v
			if d == 0 {
				continue
			}
			if d > 1 || u.v == 1 || style/2 == 3 {
				s += string(digits[d])
			}
			s += u.c
		}
		return s
	}
	out := ""
	for _, u := range []struct {
		v int64
		c string
	}{{1e12, "兆"}, {1e8, "億"}, {1e4, "万"}, {1, ""}} {
		d := n / u.v
		n %= u.v
		if d == 0 {
			continue
		}
		if style/2 == 4 {
			out += dec(d) + u.c
		} else {
			out += small(d) + u.c
		}
	}
	return out
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	ls := lexicons()
	pools := map[string]*sync.Pool{}
	for _, l := range ls {
		for _, n := range []bool{true, false} {
			l, n := l, n
			pools[fmt.Sprint(l.name, n)] = &sync.Pool{New: func() interface{} { return newRig(scratch, l, n) }}
		}
	}
	use := func(name string, norm bool, f func(r *rig)) {
		p := pools[fmt.Sprint(name, norm)]
		r := p.Get().(*rig)
		defer p.Put(r)
		f(r)
	}
	both := func(name string, f func(r *rig) bool) {
		ok := true
		use(name, true, func(r *rig) { ok = f(r) })
		if ok {
			use(name, false, func(r *rig) { f(r) })
		}
	}
	strs := func(name, lexicon string, sym []string, n int, ctx []string) {
		sp := engine.NewStrings(len(sym), n)
		const step = 64
		fs = append(fs, &engine.Family{
			Name:   name,
			Bounds: fmt.Sprintf("all texts of 0..%d symbols over %q, lexicon %q, in contexts %q, normalisation on and off", n, sym, lexicon, ctx),
			Size:   (sp.Size() + step - 1) / step,
			Run: func(i int64, t *engine.T) {
				for k := i * step; k < (i+1)*step && k < sp.Size(); k++ {
					s := world.Text(sp, sym, k)
					t.State(name, s)
					for _, c := range ctx {
						text := strings.ReplaceAll(c, "R", s)
						t.Input("%s %q", lexicon, text)
						both(lexicon, func(r *rig) bool { return r.check(t, text) })
						if t.Failed() {
							return
						}
					}
				}
			},
		})
	}
	x := 0
	if thorough {
		x = 1
	}
	plain := []string{"R"}
	strs("mixed", "characters", []string{"1", "0", "二", "十", "百", "千", "万", "億", ",", "."}, 5+x, []string{"R", "あRあ"})
	strs("digits", "characters", []string{"1", "0", ",", "."}, 8+2*x, plain)
	strs("units", "characters", []string{"一", "5", "十", "百", "千", "万", "億", "兆"}, 6+x, plain)
	strs("fractions", "characters", []string{"1", "0", ".", "十", "千", "万"}, 6+2*x, plain)
	strs("runs", "characters", []string{"1", "000", "十", ",", ".", "あ", "あ個"}, 6+x, plain)
	strs("groups", "characters", []string{"1", "20", "300", "4,000", "12,345", "123,456", "百", "万", "億", "兆", "1.5", "."}, 4+x, plain)
	strs("words", "words", []string{"10", "00", "100", "二十", "十万", "1,000", "1.5", "壱", "拾", "四", "Ⅳ", "、", "・", "1", "あ", ",", "万"}, 4+x, []string{"R", "あRあ"})
	strs("punctuation-class", "punctuation", []string{"1", "000", "十", ",", ".", "あ"}, 5+x, plain)
	strs("unknown", "unknown", []string{"1", "20", "一", "十", "万", ",", ".", "あ"}, 6+x, plain)

	// what comes before does not matter
	{
		sym := []string{"1", "000", ",", ".", "十", "万"}
		n := 3 + x
		sp := engine.NewStrings(len(sym), n)
		words := func(r *rig, text string) (s []string, ok bool) {
			if _, err := r.tz.Tokenize("C", text); err != nil {
				return nil, false
			}
			for _, w := range r.after.Path {
				s = append(s, fmt.Sprintf("%q %q", w.Info.Surface, w.Info.NormalizedForm))
			}
			return s, true
		}
		var once sync.Once
		var alone [][]string
		fs = append(fs, &engine.Family{
			Name:   "apart",
			Bounds: fmt.Sprintf("every pair of runs of up to %d symbols over %q with a word between them, compared with each run alone", n, sym),
			Size:   sp.Size(),
			Run: func(i int64, t *engine.T) {
				once.Do(func() {
					for k := int64(0); k < sp.Size(); k++ {
						r := newRig(scratch, ls[0], true)
						w, ok := words(r, world.Text(sp, sym, k))
						r.d.Close()
						if !ok {
							panic("harness: no path")
						}
						alone = append(alone, w)
					}
				})
				first := world.Text(sp, sym, i)
				t.State("apart", i)
				use("characters", true, func(r *rig) {
					for k := int64(0); k < sp.Size(); k++ {
						text := first + "あ" + world.Text(sp, sym, k)
						t.Input("%q", text)
						w, _ := words(r, text)
						t.Transition(1)
						want := append(append(append([]string{}, alone[i]...), `"あ" "亜"`), alone[k]...)
						if strings.Join(w, " ") != strings.Join(want, " ") {
							t.Fail("apart", "%q: %v, the runs alone give %v", text, w, want)
							return
						}
					}
				})
			},
		})
	}

	// numbers written out
	{
		var nums []int64
		lim := int64(20000)
		if thorough {
			lim = 200000
		}
		for n := int64(0); n < lim; n++ {
			nums = append(nums, n)
		}
		coef := []int64{0, 1, 2, 10, 11, 100, 105, 320, 1000, 1001, 1010, 9999}
		for _, a := range coef {
			for _, b := range coef {
				for _, c := range coef {
					for _, d := range coef {
						if n := ((a*10000+b)*10000+c)*10000 + d; n >= lim {
							nums = append(nums, n)
						}
					}
				}
			}
		}
		const step = 32
		fs = append(fs, &engine.Family{
			Name:   "written-out",
			Bounds: fmt.Sprintf("every integer below %d and every combination of %d coefficients of 兆, 億, 万 and units (%d numbers), each in 10 notations (digits, commas, kanji units with and without 一, mixed), alone, between other words, and followed by a comma or point", lim, len(coef), len(nums)),
			Size:   int64((len(nums) + step - 1) / step),
			Run: func(i int64, t *engine.T) {
				for k := i * step; k < (i+1)*step && k < int64(len(nums)); k++ {
					n := nums[k]
					for style := 0; style < 10; style++ {
						s := render(n, style)
						t.State(s)
						want := fmt.Sprint(n)
						t.Input("%d written %q", n, s)
						for c, text := range []string{s, "あ" + s + "個あ", s + "あ" + s} {
							if c > 0 && n >= lim {
								break
							}
							use("characters", true, func(r *rig) {
								if !r.check(t, text) {
									return
								}
								found := 0
								for _, w := range r.after.Path {
									if w.Info.Surface == s {
										found++
										if w.Info.NormalizedForm != want {
											t.Fail("value", "%d written %q in %q is normalised to %q", n, s, text, w.Info.NormalizedForm)
										}
									}
								}
								if found == 0 || c == 2 && found != 2 {
									t.Fail("apart", "%d written %q in %q is not joined: %s", n, s, text, show(r.after.Path))
								}
							})
							if t.Failed() {
								return
							}
						}
					}
				}
			},
		})
	}

	// long notations
	{
		lens := []int{17, 18, 19, 20, 21, 50, 100, 255, 256, 1000}
		if thorough {
			lens = append(lens, 3000, 10000)
		}
		mix := engine.NewMix(len(lens), 14)
		fs = append(fs, &engine.Family{
			Name:   "long",
			Bounds: fmt.Sprintf("numbers of %v digits: plain, with commas, with a fraction, with a unit, with trailing zeros, with a group of two or four digits in the middle or at the end among commas, as many short numbers between other words, after twenty times as many other words, as single words and as unknown runs", lens),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				n := lens[d[0]]
				digits := ""
				for k := 0; k < n; k++ {
					digits += string(rune('1' + k*7%9))
				}
				s := digits
				switch d[1] {
				case 1:
					s = ""
					for k := 0; k < n; k++ {
						if k > 0 && (n-k)%3 == 0 {
							s += ","
						}
						s += string(digits[k])
					}
				case 2:
					s = digits[:n/2] + "." + digits[n/2:]
				case 3:
					s = digits + "億"
				case 4:
					s = "1." + strings.Repeat("0", n)
				case 5:
					s = "0." + strings.Repeat("0", n) + "1"
				case 6:
					s = "1" + strings.Repeat("0", n) + "万"
				case 7:
					s = digits[:n/2] + "." + digits[n/2:] + "兆"
				}
				switch k := d[1] - 8; k {
				case 0, 1, 2, 3: // a wrong group
					s = "1"
					for j := 0; j < n/3; j++ {
						g := "234"
						if k%2 == 0 && j == n/3-1 || k%2 == 1 && j == n/6 {
							g = []string{"56", "5678"}[k/2]
						}
						s += "," + g
					}
				case 4:
					s = strings.Repeat("12個十あ3,4", n)
				case 5:
					s = strings.Repeat("あ個", 10*n) + "1,234"
				}
				t.Input("%d digits, variant %d", n, d[1])
				t.State(d)
				for _, l := range []string{"characters", "unknown"} {
					both(l, func(r *rig) bool { return r.check(t, "あ"+s+"個") && r.check(t, s) })
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C17", Level: "model_checking",
		Rule:        "the path is recorded before and after the joining; every run of numeral words that is certainly a valid number must have become one word whose normalised form is exactly its value (rational arithmetic), every other joined part must be readable as a number with exactly that value, all other words must be unchanged",
		Assumptions: []string{"notations that can be read as a number although their parts overlap (1.5千5百) or that are unusual (10千, 0,123) may be joined or left apart, but when joined must have the right value", "leading zeros of a notation may be kept in the normalised form"},
		Families:    families,
	})
}
