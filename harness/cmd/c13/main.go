// C13: input normalisation applies exactly the documented rewrite rules.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"
	"golang.org/x/text/unicode/norm"
)

var grammar = sync.OnceValue(func() *dictionary.Grammar {
	cc, err := gs.Cat("0x3041..0x3093 HIRAGANA\n")
	if err != nil {
		panic(err)
	}
	return &dictionary.Grammar{CharCategory: cc}
})

// table is the model of a rewrite definition.
type table struct {
	exempt map[rune]bool
	entry  map[string]string
	max    int
}

func newTable() *table { return &table{exempt: map[rune]bool{}, entry: map[string]string{}} }

func (m *table) add(k, v string) {
	m.entry[k] = v
	if n := len([]rune(k)); n > m.max {
		m.max = n
	}
}

func (m *table) source() string {
	s := ""
	for c := range m.exempt {
		s += string(c) + "\n"
	}
	for k, v := range m.entry {
		s += k + " " + v + "\n"
	}
	return s
}

// cells are characters with the original character each comes from.
type cells struct {
	r   []rune
	off []int
	n   int // length of the original
}

func of(text string) cells {
	c := cells{}
	for _, r := range []rune(text) {
		c.r = append(c.r, r)
		c.off = append(c.off, c.n)
		c.n++
	}
	return c
}

var (
	normMu sync.RWMutex
	normed = map[rune]string{}
)

func nfkc(r rune) string {
	normMu.RLock()
	s, ok := normed[r]
	normMu.RUnlock()
	if !ok {
		s = norm.NFKC.String(string(r))
		normMu.Lock()
		normed[r] = s
		normMu.Unlock()
	}
	return s
}

// normalise is the default rewriting.
func (m *table) normalise(in cells) cells {
	out := cells{n: in.n}
	put := func(s string, at int) {
		for _, r := range s {
			out.r = append(out.r, r)
			out.off = append(out.off, in.off[at])
		}
	}
	for i := 0; i < len(in.r); {
		best := 0
		for l := 1; l <= m.max && i+l <= len(in.r); l++ {
			if _, ok := m.entry[string(in.r[i:i+l])]; ok {
				best = l
			}
		}
		if best > 0 {
			put(m.entry[string(in.r[i:i+best])], i)
			i += best
			continue
		}
		c := unicode.ToLower(in.r[i])
		if m.exempt[c] {
			put(string(c), i)
		} else {
			put(nfkc(c), i)
		}
		i++
	}
	return out
}

// prolong is the prolonged sound mark rewriting.
func prolong(in cells, marks map[rune]bool, symbol string) cells {
	out := cells{n: in.n}
	for i := 0; i < len(in.r); {
		j := i
		for j < len(in.r) && marks[in.r[j]] {
			j++
		}
		if j-i >= 2 {
			for _, r := range symbol {
				out.r = append(out.r, r)
				out.off = append(out.off, in.off[i])
			}
			i = j
			continue
		}
		out.r = append(out.r, in.r[i])
		out.off = append(out.off, in.off[i])
		i++
	}
	return out
}

// run rewrites a text with plug-ins and compares the result.
func run(t *engine.T, key, text string, want cells, ps ...gosudachi.InputTextPlugin) bool {
	b := gosudachi.NewInputTextBuilder(text, grammar())
	for _, p := range ps {
		if err := p.Rewrite(b); err != nil {
			t.Fail(key+"-error", "text %q: %v", text, err)
			return false
		}
	}
	in := b.Build()
	t.Trace(1)
	w := string(want.r)
	if in.OriginalText != text {
		t.Fail(key+"-original", "text %q: the original became %q", text, in.OriginalText)
		return false
	}
	if in.GetText() != w || string(in.GetByteText()) != w {
		t.Fail(key, "text %q (%x): rewritten to %q (%x), want %q (%x)", text, text, in.GetText(), in.GetText(), w, w)
		return false
	}
	at := 0
	for i, r := range want.r {
		for k := 0; k < len(string(r)); k++ {
			if g := in.GetOriginalIndex(at); g != want.off[i] {
				t.Fail(key+"-offset", "text %q, rewritten to %q: byte %d comes from original character %d, want %d", text, w, at, g, want.off[i])
				return false
			}
			at++
		}
		t.Transition(1)
	}
	if g := in.GetOriginalIndex(at); g != want.n {
		t.Fail(key+"-offset", "text %q, rewritten to %q: the end maps to %d, want %d", text, w, g, want.n)
		return false
	}
	if w != text {
		t.Outcome(key + ": changed")
	} else {
		t.Outcome(key + ": unchanged")
	}
	return true
}

var seq struct {
	sync.Mutex
	n int
}

// open makes the default plug-in from a definition; "" is the shipped one.
func open(scratch, src string, shipped bool) (gosudachi.InputTextPlugin, error) {
	name := ""
	if !shipped {
		seq.Lock()
		seq.n++
		name = filepath.Join(scratch, fmt.Sprintf("rewrite-%d.def", seq.n))
		seq.Unlock()
		if err := os.WriteFile(name, []byte(src), 0644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
	}
	p := tk.DefaultInput(name)
	return p, p.SetUp()
}

func prolonged(marks []string, symbol string) (gosudachi.InputTextPlugin, map[rune]bool) {
	p := tk.Prolonged(marks, symbol)
	if err := p.SetUp(); err != nil {
		panic(err)
	}
	m := map[rune]bool{}
	for _, s := range marks {
		m[[]rune(s)[0]] = true
	}
	return p, m
}

var shippedTable = sync.OnceValue(func() *table {
	f, err := data.Assets.Open("rewrite.def")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	m := newTable()
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "#") {
			continue
		}
		c := strings.Fields(l)
		switch len(c) {
		case 1:
			m.exempt[[]rune(c[0])[0]] = true
		case 2:
			m.add(c[0], c[1])
		}
	}
	return m
})

var shippedPlugin = sync.OnceValue(func() gosudachi.InputTextPlugin {
	p, err := open("", "", true)
	if err != nil {
		panic(err)
	}
	return p
})

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. every code point
	{
		const step = 128
		type opened struct {
			m *table
			p gosudachi.InputTextPlugin
		}
		tables := sync.OnceValue(func() []opened {
			var r []opened
			for k, ex := range []func(rune) bool{
				func(rune) bool { return false },
				func(c rune) bool { return c%3 == 1 },
				nil,
			} {
				if k == 2 {
					r = append(r, opened{shippedTable(), shippedPlugin()})
					continue
				}
				m := newTable()
				for c := rune(0x21); c < 0x30000; c++ {
					if c >= 0xD800 && c <= 0xDFFF || !ex(c) || c == '#' || unicode.IsSpace(c) {
						continue
					}
					m.exempt[c] = true
				}
				p, err := open(scratch, m.source(), false)
				if err != nil {
					panic(err)
				}
				r = append(r, opened{m, p})
			}
			return r
		})
		ctx := []struct{ pre, post string }{{"", ""}, {"e", "x"}, {"か", "\u3099"}, {"𠮷", "\u0301"}, {"ﾊ", "ﾟ"}}
		if !thorough {
			ctx = ctx[:3]
		}
		fs = append(fs, &engine.Family{
			Name:   "code-points",
			Bounds: fmt.Sprintf("each of the 1112064 characters, alone, repeated, in %d contexts (letters, combining marks, supplementary characters around it) and in blocks of %d, with no exemptions, with a third of all characters below 0x30000 exempt, and with the shipped table", len(ctx), step),
			Size:   0x110000 / step * 3,
			Run: func(i int64, t *engine.T) {
				o := tables()[i%3]
				lo := rune(i / 3 * step)
				if lo >= 0xD800 && lo < 0xE000 {
					return
				}
				t.Input("characters %#x..%#x, table %d", lo, lo+step-1, i%3)
				all := ""
				for c := lo; c < lo+step; c++ {
					all += string(c)
					t.State(i%3, c)
					for _, x := range ctx {
						text := x.pre + string(c) + x.post
						if !run(t, "code-point", text, o.m.normalise(of(text)), o.p) {
							return
						}
					}
					text := string(c) + string(c) + string(c)
					if !run(t, "code-point", text, o.m.normalise(of(text)), o.p) {
						return
					}
				}
				run(t, "code-point", all, o.m.normalise(of(all)), o.p)
			},
		})
	}

	// 2. rewrite tables
	{
		syms := []string{"x", "y", "X"}
		var keys []string
		for _, a := range syms {
			keys = append(keys, a)
			for _, b := range syms[:2] {
				keys = append(keys, a+b)
				for _, c := range syms[:2] {
					keys = append(keys, a+b+c)
				}
			}
		}
		n := 3
		vals := []string{"p", "qr", "xyz", "X", "ﾊﾟ"}
		tn := 5
		if thorough {
			n, tn = 4, 6
		}
		var sets [][]int
		var rec func(from int, cur []int)
		rec = func(from int, cur []int) {
			sets = append(sets, append([]int{}, cur...))
			if len(cur) == n {
				return
			}
			for k := from; k < len(keys); k++ {
				rec(k+1, append(cur, k))
			}
		}
		rec(0, nil)
		sp := engine.NewStrings(3, tn)
		alpha := []string{"x", "y", "X"}
		exempt := []string{"", "x", "X", "xy"}
		mix := engine.NewMix(len(sets), len(vals), len(exempt))
		fs = append(fs, &engine.Family{
			Name:   "tables",
			Bounds: fmt.Sprintf("every set of 0..%d entries over %d keys of 1..3 characters (%d sets) with %d rotations of replacements of 1..3 characters and %d exempt sets, on all texts of 0..%d characters over 3", n, len(keys), len(sets), len(vals), len(exempt), tn),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				m := newTable()
				for k, x := range sets[d[0]] {
					m.add(keys[x], vals[(k+d[1])%len(vals)])
				}
				for _, c := range exempt[d[2]] {
					m.exempt[c] = true
				}
				src := m.source()
				t.Input("%q", src)
				t.State(d)
				p, err := open(scratch, src, false)
				if err != nil {
					t.Fail("table-error", "table %q: %v", src, err)
					return
				}
				for k := int64(0); k < sp.Size(); k++ {
					text := ""
					for _, s := range sp.Get(k) {
						text += alpha[s]
					}
					if !run(t, "table", text, m.normalise(of(text)), p) {
						return
					}
				}
			},
		})
	}

	// 3. sequences of characters of all kinds
	{
		alpha := []string{"a", "A", "ｶ", "ﾞ", "㌢", "Ⅲ", "\u3099", "Å", "ﷺ", "İ", "\xff", "\uFFFD", "𝐀", "か", "Σ", "\u0344", "ǅ", "\x00", "ｱ"}
		n := 4
		if thorough {
			n = 5
		}
		m := newTable()
		m.exempt['ⅲ'] = true
		m.exempt['〇'] = true
		m.add("ｶﾞ", "ガ")
		m.add("ｱｱ", "ア")
		m.add("ｱｱﾞ", "イーー")
		m.add("か\u3099", "が")
		m.add("𝐀A", "🅰🅰🅰")
		p := sync.OnceValue(func() gosudachi.InputTextPlugin {
			p, err := open(scratch, m.source(), false)
			if err != nil {
				panic(err)
			}
			return p
		})
		sp := engine.NewStrings(len(alpha), n)
		fs = append(fs, &engine.Family{
			Name:   "sequences",
			Bounds: fmt.Sprintf("all texts of 0..%d symbols over %d (upper case, half width, combining, ligatures of up to 18 characters, invalid bytes, supplementary characters) with a table of %d entries", n, len(alpha), len(m.entry)),
			Size:   sp.Size(),
			Run: func(i int64, t *engine.T) {
				text := ""
				for _, k := range sp.Get(i) {
					text += alpha[k]
				}
				t.Input("%q", text)
				t.State(text)
				run(t, "sequence", text, m.normalise(of(text)), p())
			},
		})
	}

	// 4. prolonged sound marks
	{
		type conf struct {
			marks  []string
			symbol string
		}
		var cs []conf
		for _, ms := range [][]string{{"ー"}, {"ー", "〜"}, {"𝄐", "ー"}, {"x"}, {"~", "ー", "〜", "〰"}} {
			for _, s := range []string{"ー", "〜", "x", "𝄐", "ーー", "xyz", "あーあ", ""} {
				cs = append(cs, conf{ms, s})
			}
		}
		alpha := []string{"ー", "〜", "𝄐", "x", "あ"}
		n := 7
		if thorough {
			n = 9
		}
		sp := engine.NewStrings(len(alpha), n)
		const step = 1000
		blocks := (sp.Size() + step - 1) / step
		fs = append(fs, &engine.Family{
			Name:   "prolonged-marks",
			Bounds: fmt.Sprintf("all texts of 0..%d characters over %d under %d combinations of mark sets and replacement symbols of 0..3 characters", n, len(alpha), len(cs)),
			Size:   blocks * int64(len(cs)),
			Run: func(i int64, t *engine.T) {
				c := cs[i%int64(len(cs))]
				p, m := prolonged(c.marks, c.symbol)
				for k := i / int64(len(cs)) * step; k < (i/int64(len(cs))+1)*step && k < sp.Size(); k++ {
					text := ""
					for _, s := range sp.Get(k) {
						text += alpha[s]
					}
					t.Input("marks %q, symbol %q, text %q", c.marks, c.symbol, text)
					t.State(c.marks, c.symbol, text)
					if !run(t, "prolonged", text, prolong(of(text), m, c.symbol), p) {
						return
					}
				}
			},
		})
	}

	// 5. plug-ins one after the other
	{
		alpha := []string{"～", "ー", "~", "ｰ", "Ａ", "㌖", "x", "ー゛"}
		n := 6
		if thorough {
			n = 7
		}
		m := newTable()
		m.add("ー゛", "ーーー")
		m.add("xx", "~~")
		m.exempt['ｰ'] = true
		sp := engine.NewStrings(len(alpha), n)
		p := sync.OnceValue(func() gosudachi.InputTextPlugin {
			p, err := open(scratch, m.source(), false)
			if err != nil {
				panic(err)
			}
			return p
		})
		marks := []string{"ー", "~", "ｰ"}
		symbols := []string{"ー", "~ー"}
		const step = 256
		blocks := (sp.Size() + step - 1) / step
		fs = append(fs, &engine.Family{
			Name:   "chains",
			Bounds: fmt.Sprintf("all texts of 0..%d symbols over %d through: default, marks; marks, default; default twice; marks, default, marks; with 2 replacement symbols", n, len(alpha)),
			Size:   blocks * 2,
			Run: func(i int64, t *engine.T) {
				sym := symbols[i%2]
				q, mk := prolonged(marks, sym)
				for k := i / 2 * step; k < (i/2+1)*step && k < sp.Size(); k++ {
					text := ""
					for _, s := range sp.Get(k) {
						text += alpha[s]
					}
					t.Input("%q", text)
					t.State(sym, text)
					x := of(text)
					a := m.normalise(x)
					b := prolong(x, mk, sym)
					if !run(t, "default-marks", text, prolong(a, mk, sym), p(), q) ||
						!run(t, "marks-default", text, m.normalise(b), q, p()) ||
						!run(t, "default-default", text, m.normalise(a), p(), p()) ||
						!run(t, "marks-default-marks", text, prolong(m.normalise(b), mk, sym), q, p(), q) {
						return
					}
				}
			},
		})
	}

	// 6. definition files
	{
		type line struct {
			s    string
			key  string // entry or exempt character
			val  string
			bad  bool
			none bool
		}
		lines := []line{
			{s: "Ⅲ", key: "Ⅲ"}, {s: "ⅲ", key: "ⅲ"}, {s: "ⅲ\r", key: "ⅲ"},
			{s: "x p", key: "x", val: "p"}, {s: "xy\tqr", key: "xy", val: "qr"}, {s: "xy  Q", key: "xy", val: "Q"}, {s: "x z\r", key: "x", val: "z"},
			{s: "  X W  ", key: "X", val: "W"},
			{s: "", none: true}, {s: " \t ", none: true}, {s: "# x y", none: true}, {s: "#", none: true},
			{s: "x y z", bad: true}, {s: "xy", bad: true}, {s: "ｶﾞ", bad: true}, {s: "x # c", bad: true},
		}
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(lines), n)
		tsp := engine.NewStrings(4, 3)
		alpha := []string{"x", "y", "X", "Ⅲ"}
		fs = append(fs, &engine.Family{
			Name:   "definitions",
			Bounds: fmt.Sprintf("every list of 0..%d lines over a menu of %d (entries, exemptions, comments, blanks, CRLF ends, too many columns, exemptions of two characters), with and without a final newline; accepted ones on all texts of 0..3 characters over 4", n, len(lines)),
			Size:   sp.Size() * 2,
			Run: func(i int64, t *engine.T) {
				m := newTable()
				bad := ""
				var ls []string
				for _, k := range sp.Get(i / 2) {
					l := lines[k]
					ls = append(ls, l.s)
					switch {
					case l.none:
					case l.bad:
						bad = "malformed line"
					case l.val == "":
						m.exempt[[]rune(l.key)[0]] = true
					default:
						if _, ok := m.entry[l.key]; ok {
							bad = "repeated entry"
						}
						m.add(l.key, l.val)
					}
				}
				src := strings.Join(ls, "\n")
				if i%2 == 1 && len(ls) > 0 {
					src += "\n"
				} else if strings.HasSuffix(src, "\r") {
					return // a lone CR at the end of the file is not specified
				}
				t.Input("%q", src)
				t.State(src)
				p, err := open(scratch, src, false)
				if bad != "" {
					t.Trace(1)
					if err == nil {
						t.Fail("accepted", "definition %q is accepted: %s", src, bad)
					}
					t.Outcome("definition rejected")
					return
				}
				if err != nil {
					t.Fail("rejected", "definition %q is rejected: %v", src, err)
					return
				}
				t.Outcome("definition accepted")
				for k := int64(0); k < tsp.Size(); k++ {
					text := ""
					for _, s := range tsp.Get(k) {
						text += alpha[s]
					}
					if !run(t, "definition", text, m.normalise(of(text)), p) {
						return
					}
				}
			},
		})
	}

	// 6b. lines that do not fit into a buffer
	{
		lens := engine.LongLines(tier)
		kinds := [][2]string{{"x p~", " "}, {"#~", " x p"}, {"x~p", " \t"}, {"Ⅲ~", " "}, {"x ~", "qr"}, {"~ p", "xy"}, {"~", " \t"}}
		ends := []string{"\n", "\r\n", ""}
		mix := engine.NewMix(len(lens), len(kinds), len(ends), 3)
		fs = append(fs, &engine.Family{
			Name: "long-lines", Bounds: fmt.Sprintf("a line of each of %v bytes of %d kinds and line ends %q, first, after a short line and after another long one, followed by an entry", lens, len(kinds), ends),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				if lens[d[0]] > 5000 && (d[1] == 4 || d[1] == 5) {
					return // the text would be as long, too
				}
				l := engine.PadTo(kinds[d[1]][0], kinds[d[1]][1], lens[d[0]])
				src := []string{"", "y q\n", engine.PadTo("y~q", " ", lens[d[0]]-1) + "\n"}[d[3]] + l + ends[d[2]]
				m := newTable()
				if d[3] > 0 {
					m.add("y", "q")
				}
				if ends[d[2]] != "" {
					src += "z w"
					m.add("z", "w")
				}
				text := "xyzＸⅢ"
				switch f := strings.Fields(l); {
				case strings.HasPrefix(l, "#") || len(f) == 0:
				case len(f) == 1:
					m.exempt['Ⅲ'] = true
				default:
					m.add(f[0], f[1])
					if len(f[0]) > 1 {
						text += f[0] + "x"
					}
				}
				t.Input("%d %q %q %d", lens[d[0]], kinds[d[1]], ends[d[2]], d[3])
				t.State(src)
				p, err := open(scratch, src, false)
				if err != nil {
					t.Fail("rejected", "a definition with a line of %d bytes is rejected: %v", len(l), err)
					return
				}
				run(t, "long-lines", text, m.normalise(of(text)), p)
			},
		})
	}

	// 7. long entries and texts
	{
		lens := []int{1, 2, 15, 16, 17, 63, 64, 65, 127, 129, 255, 257}
		mix := engine.NewMix(len(lens), len(lens), 3)
		fs = append(fs, &engine.Family{
			Name:   "long",
			Bounds: fmt.Sprintf("entries with keys and replacements of up to %d characters among shorter prefixes of the key, texts of up to three times that", lens[len(lens)-1]),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				kl, vl := lens[d[0]], lens[d[1]]
				m := newTable()
				key := strings.Repeat("鍵", kl)
				m.add(key, strings.Repeat("値", vl))
				if d[2] > 0 && kl > 2 {
					m.add(strings.Repeat("鍵", kl-1)+"a", "b")
				}
				if d[2] > 1 && kl > 3 {
					m.add(strings.Repeat("鍵", kl/2), "ーー")
				}
				t.Input("key of %d, value of %d, variant %d", kl, vl, d[2])
				t.State(d)
				p, err := open(scratch, m.source(), false)
				if err != nil {
					t.Fail("rejected", "a table with a key of %d and a replacement of %d characters is rejected: %v", kl, vl, err)
					return
				}
				q, mk := prolonged([]string{"ー", "鍵"}, "音")
				for _, x := range []string{key, key + "A", "A" + key + "Ｂ" + key, strings.Repeat("鍵", 3*kl-1), strings.Repeat("鍵", kl-1) + "a" + key, strings.Repeat("ｶﾞ", kl)} {
					if !run(t, "long", x, m.normalise(of(x)), p) || !run(t, "long-marks", x, prolong(m.normalise(of(x)), mk, "音"), p, q) {
						return
					}
				}
			},
		})
	}
	// 7a. large tables
	{
		lens := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65535, 65536, 65537}
		fs = append(fs, &engine.Family{
			Name:   "large-tables",
			Bounds: fmt.Sprintf("tables of %v entries with keys of one to three characters and as many exempt characters; texts with each key and each exempt character, alone and in a row", lens),
			Size:   int64(len(lens) * 2), Chunk: 1, HangSeconds: 300,
			Run: func(i int64, t *engine.T) {
				n := lens[i/2]
				m := newTable()
				var keys []string
				var ex []rune
				for k := 0; k < n; k++ {
					// keys start with characters that are exempt or not
					c := rune(0x4E00 + k%20000)
					key := string(c)
					if k >= 20000 {
						key += string(rune(0x3042 + 2*(k/20000)))
					} else if k%3 == 1 {
						key += "び"
					} else if k%3 == 2 {
						key += "びａ"
					}
					keys = append(keys, key)
					m.add(key, []string{"x", "ＡＢ", "亜い"}[k%3]+string(rune('a'+k%26)))
				}
				if i%2 == 1 {
					// characters that have a normal form of their own
					for c := rune(0xF900); c < 0x2FA1E && len(ex) < n; c++ {
						if c == 0xFB00 {
							c = 0x1D400
						}
						if c == 0x1D800 {
							c = 0x2F800
						}
						if nfkc(c) != string(c) {
							m.exempt[c] = true
							ex = append(ex, c)
						}
					}
				}
				p, err := open(scratch, m.source(), false)
				if err != nil {
					panic(err)
				}
				t.Input("%d entries, %d exempt characters", n, len(ex))
				t.State(i)
				step := 500
				for a := 0; a < len(keys); a += step {
					var x strings.Builder
					for k := a; k < a+step && k < len(keys); k++ {
						x.WriteString(keys[k])
						if k%5 == 0 {
							x.WriteString("び")
						}
					}
					run(t, "large-tables", x.String(), m.normalise(of(x.String())), p)
				}
				for a := 0; a < len(ex); a += step {
					b := a + step
					if b > len(ex) {
						b = len(ex)
					}
					x := string(ex[a:b]) + "ﬁ㌢"
					run(t, "large-tables", x, m.normalise(of(x)), p)
				}
			},
		})
	}
	// 8. runs and texts of more than 2^16 characters
	{
		lens := []int{1000, 32767, 32770, 65535, 65536, 65540, 70000}
		syms := []string{"ー", "音ー", strings.Repeat("長", 300)}
		mix := engine.NewMix(len(lens), len(syms), 3)
		fs = append(fs, &engine.Family{
			Name:   "huge",
			Bounds: fmt.Sprintf("runs of %v marks, replaced by symbols of 1, 2 and 300 characters, and as many table entries and compatibility characters, each followed by further runs", lens),
			Size:   mix.Size(), Chunk: 1, HangSeconds: 300,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				n := lens[d[0]]
				m := newTable()
				m.add("長い", "ーー")
				p, err := open(scratch, m.source(), false)
				if err != nil {
					panic(err)
				}
				q, mk := prolonged([]string{"ー", "〜"}, syms[d[1]])
				var x string
				switch d[2] {
				case 0:
					x = "か" + strings.Repeat("ー〜", n/2) + "んーーＡ〜〜b"
				case 1:
					x = "ーー" + strings.Repeat("か", n) + "ーーんーＡ長い"
				case 2:
					x = "㌢" + strings.Repeat("ー", n) + "長い" + strings.Repeat("〜", n) + "㌢ーー"
				}
				t.Input("%d marks, symbol of %d bytes, variant %d", n, len(syms[d[1]]), d[2])
				t.State(d)
				run(t, "huge", x, prolong(m.normalise(of(x)), mk, syms[d[1]]), p, q)
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C13", Level: "model_checking",
		Rule:        "the rewritten text and the origin of every character are compared with a character-by-character model: longest table entry first, then NFKC of the lower case unless the lower case is exempt; runs of two or more marks become the symbol",
		Assumptions: []string{"golang.org/x/text/unicode/norm gives NFKC and package unicode the lower case of single characters", "a replacement symbol of the marks that is empty is checked on the text builder only"},
		Families:    families,
	})
}
