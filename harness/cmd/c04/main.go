// C04: a malformed dictionary source is reported as an error, never miscompiled.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/dictionary"
)

const posN = "名詞,普通名詞,一般,*,*,*"
const smallMatrix = "2 3\n0 0 1\n0 1 2\n0 2 3\n1 0 4\n1 1 5\n1 2 -6\n"

// the system dictionary under the user dictionaries
const sysLex = "s,0,0,1,s," + posN + ",エス,s,*,A,*,*,*\n" +
	"ss,1,1,1,ss,動詞,*,*,*,*,*,エスエス,ss,*,C,0/0,*,*\n" +
	"z,-1,1,1,z," + posN + ",ゼット,z,*,A,*,*,*\n"

var scratchDir string

type sysT struct {
	d    *ref.Dict
	b    [2][]byte
	path [2]string
}

var sysOnce sync.Once
var sysV sysT

func system() *sysT {
	sysOnce.Do(func() {
		for i, u := range []bool{false, true} {
			d, v, why := ref.Compile([]string{sysLex}, smallMatrix, nil, u)
			if v != ref.Accept {
				panic(why)
			}
			b, err := gs.Sys(sysLex, smallMatrix, gs.Opts{UTF16: u})
			if err != nil {
				panic(err)
			}
			sysV.d = d
			sysV.b[i] = b
			sysV.path[i] = gs.WriteFile(filepath.Join(scratchDir, fmt.Sprintf("sys%d.dic", i)), b)
		}
	})
	return &sysV
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// try compiles and compares the outcome with the specification.
func try(t *engine.T, lex []string, matrix string, user, u16 bool, print bool) {
	var sys *sysT
	var sd *ref.Dict
	if user {
		sys = system()
		sd = sys.d
	}
	d, v, why := ref.Compile(lex, matrix, sd, u16)
	var b []byte
	var err error
	if user {
		b, err = gs.UserFiles(lex, sys.b[b2i(u16)], gs.Opts{UTF16: u16})
	} else {
		b, err = gs.SysFiles(lex, matrix, gs.Opts{UTF16: u16})
	}
	t.Trace(1)
	t.Transition(1)
	t.State(strings.Join(lex, "\x01"), matrix, b2i(user), b2i(u16))
	t.Outcome(fmt.Sprintf("%v/%v", v, err == nil))
	if v == ref.Reject && err == nil {
		t.Fail("accepted", "invalid source accepted (%s) user=%v utf16=%v", why, user, u16)
		return
	}
	if v == ref.Accept && err != nil {
		t.Fail("rejected", "valid source rejected: %v (user=%v utf16=%v)", err, user, u16)
		return
	}
	if err != nil {
		return
	}
	g, l := gs.Load(b, u16)
	if user {
		d.L, d.R = 0, 0
	}
	if v == ref.Either && u16 {
		return // unspecified representation, but it must be readable
	}
	if m := gs.Compare(d, sd, g, l, 12); m != "" {
		t.Fail("differs", "user=%v utf16=%v: %s", user, u16, m)
		return
	}
	if print {
		p := gs.WriteFile(filepath.Join(scratchDir, fmt.Sprintf("p%p.dic", t)), b)
		defer os.Remove(p)
		var sbd *dictionary.BinaryDictionary
		if user {
			var err error
			sbd, err = dictionary.ReadSystemDictionary(sys.path[b2i(u16)], u16)
			if err != nil {
				t.Fail("sys", "%v", err)
				return
			}
			defer sbd.Close()
		}
		if err := dictionary.PrintDictionary(p, u16, sbd, io.Discard); err != nil {
			t.Fail("print", "printing: %v", err)
		}
	}
}

func row(f []string) string { return strings.Join(f, ",") + "\n" }

func cp(a []string) []string { return append([]string(nil), a...) }

var base = [][]string{
	strings.Split("a,0,1,5,a,名詞,普通名詞,一般,*,*,*,エー,a,*,A,*,*,*", ","),
	strings.Split("ab,1,0,-5,ab,動詞,一般,*,*,五段,終止形,エービー,ab,0,C,0/2,U2,0", ","),
	strings.Split("b,-1,-1,0,b,名詞,普通名詞,一般,*,*,*,ビー,B,1,B,0,*,*", ","),
}

func colRef(s string) string { return strings.ReplaceAll(s, ",", `\u002C`) }

func values() []string {
	return []string{"", "*", "-1", "0", "1", "2", "3", "-2", "32767", "32768", "-32768", "-32769", "65535", "65536",
		"2147483647", "2147483648", "4294967296", "4294967295", "9999999999999999999999", "268435455", "268435456", "268435457",
		"1.5", "0x1", "1e2", " 1", "1 ", "+1", "-0", "-01", "007", "１", "A", "B", "C", "U", "U0", "U2", "U3", "U-1", "U99999999999", "u0",
		"0/1", "0//1", "/", "0/", "/0", "a/b", "0/3", "0/-1", "0/x", "*/0", "0/*",
		colRef("a," + posN + ",エー"), colRef("a," + posN), colRef("a," + posN + ",x"), colRef("x," + posN + ",エー"),
		colRef("a,未知,*,*,*,*,*,エー"), colRef("a,"+posN+",エー") + "/" + colRef("b,"+posN+",ビー"), colRef("s," + posN + ",エス"),
		colRef("a," + posN + ",エー,x"),
		"\x00", "a\x00b", "\xff", "あ\xe3\x81", `\u002C`, `\u0000`, `\uD800`, `\u{110000}`, "\"", "\"a\"", "\r", "\t", "#a"}
}

func mutateFamily(tier engine.Tier) *engine.Family {
	vs := values()
	mix := engine.NewMix(3, 18, len(vs), 2, 2)
	return &engine.Family{
		Name:   "columns",
		Bounds: fmt.Sprintf("each of the 18 columns of each of 3 rows replaced by each of %d values; system and user dictionaries; both encodings", len(vs)),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			var lex string
			for r := range base {
				f := cp(base[r])
				if r == d[0] {
					f[d[1]] = vs[d[2]]
				}
				lex += row(f)
			}
			t.Input("row %d column %d = %q, user=%v utf16=%v", d[0], d[1], vs[d[2]], d[3] == 1, d[4] == 1)
			try(t, []string{lex}, smallMatrix, d[3] == 1, d[4] == 1, true)
		},
	}
}

func pairFamily(tier engine.Tier) *engine.Family {
	vs := []string{"", "*", "-1", "0", "3", "-2", "32768", "x", "A", "U1", "U3", "0/1", colRef("a," + posN + ",エー"), colRef("s," + posN + ",エス"), "a\x00b", `\u002C`, "\xff"}
	var pairs [][2]int
	for a := 0; a < 18; a++ {
		for b := a + 1; b < 18; b++ {
			pairs = append(pairs, [2]int{a, b})
		}
	}
	rows := 1
	if tier == engine.Thorough {
		rows = 3
	}
	mix := engine.NewMix(len(pairs), len(vs), len(vs), rows, 2)
	return &engine.Family{
		Name:   "column-pairs",
		Bounds: fmt.Sprintf("every pair of columns of a row replaced by every pair from %d values; system and user dictionaries", len(vs)),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			var lex string
			for r := range base {
				f := cp(base[r])
				if r == (d[3]+1)%3 {
					f[pairs[d[0]][0]] = vs[d[1]]
					f[pairs[d[0]][1]] = vs[d[2]]
				}
				lex += row(f)
			}
			t.Input("columns %v = %q, %q, user=%v", pairs[d[0]], vs[d[1]], vs[d[2]], d[4] == 1)
			try(t, []string{lex}, smallMatrix, d[4] == 1, i%3 == 0, false)
		},
	}
}

func editsFamily(name, what string, src string, bytesSet []string, run func(t *engine.T, s string)) *engine.Family {
	n := len(src)
	k := len(bytesSet)
	mix := engine.NewMix(n+1, 2+2*k)
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("%s of %d bytes: every truncation, every deleted byte, every byte replaced by and preceded by each of %d strings", what, n, k),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			p, o := d[0], d[1]
			var s string
			switch {
			case o == 0:
				s = src[:p]
			case o == 1:
				if p == n {
					return
				}
				s = src[:p] + src[p+1:]
			case o < 2+k:
				s = src[:p] + bytesSet[o-2] + src[p:]
			default:
				if p == n {
					return
				}
				s = src[:p] + bytesSet[o-2-k] + src[p+1:]
			}
			t.Input("%q", s)
			run(t, s)
		},
	}
}

var editBytes = []string{",", "\n", "\r", "\r\n", "\\", "\\u", "/", "*", "-", "0", "9", "U", "\x00", "\xff", "\"", " ", "{", "\\u002C"}

func limitsFamily(tier engine.Tier) *engine.Family {
	type c struct {
		name string
		lex  func() []string
	}
	var cs []c
	str := func(n int, u string) string { return strings.Repeat(u, n/len(u)) + strings.Repeat("z", n%len(u)) }
	for _, col := range []int{0, 4, 5, 6, 7, 8, 9, 10, 11, 12} {
		for _, n := range []int{32766, 32767, 32768, 32769, 32895, 32896, 65534, 65535, 65536, 65537, 65600, 98301, 98302, 131072 + 5} {
			for _, u := range []string{"x", "あ", "𠮷"} {
				col, n, u := col, n, u
				cs = append(cs, c{fmt.Sprintf("column %d of %d bytes of %s", col, n, u), func() []string {
					f := cp(base[0])
					f[col] = str(n, u)
					return []string{row(f) + row(base[2])}
				}})
			}
		}
	}
	for _, n := range []int{126, 127, 128, 129, 255, 256, 257, 300, 512} {
		for col := 15; col < 18; col++ {
			n, col := n, col
			cs = append(cs, c{fmt.Sprintf("column %d with %d units", col, n), func() []string {
				f := cp(base[1])
				f[col] = strings.Repeat("0/", n-1) + "0"
				return []string{row(base[0]) + row(f) + row(base[2])}
			}})
		}
	}
	for _, n := range []int{254, 255, 256, 257, 383, 384, 511, 512, 513, 1000} {
		n := n
		cs = append(cs, c{fmt.Sprintf("%d homographs over two files", n), func() []string {
			var a, b strings.Builder
			for i := 0; i < n; i++ {
				f := cp(base[0])
				f[3] = fmt.Sprint(i)
				if i%2 == 0 {
					a.WriteString(row(f))
				} else {
					b.WriteString(row(f))
				}
			}
			return []string{a.String(), b.String()}
		}})
	}
	for _, n := range []int{32764, 32765, 32766, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65540} {
		n := n
		cs = append(cs, c{fmt.Sprintf("%d parts of speech", n), func() []string {
			var a strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&a, "a%d,0,0,%d,a,p%d,*,*,*,*,%d,r,n,*,A,*,*,*\n", i, i%100, i%7, i)
			}
			return []string{a.String()}
		}})
	}
	// dictionary form graphs
	for k := 0; k < 625; k++ {
		k := k
		cs = append(cs, c{fmt.Sprintf("dictionary form graph %d", k), func() []string {
			x := k
			var s string
			for i := 0; i < 4; i++ {
				f := cp(base[0])
				f[0] = fmt.Sprintf("w%d", i)
				f[4] = f[0]
				f[13] = fmt.Sprint(x%5 - 0)
				if x%5 == 4 {
					f[13] = "*"
				}
				x /= 5
				s += row(f)
			}
			return []string{s}
		}})
	}
	mix := engine.NewMix(len(cs), 2, 2)
	return &engine.Family{
		Name:   "limits",
		Bounds: fmt.Sprintf("%d sources around every limit: string lengths, split lengths, homographs, parts of speech, and all 625 dictionary-form graphs over 4 words; system and user dictionaries, both encodings", len(cs)),
		Size:   mix.Size(),
		Chunk:  1,
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			t.Input("%s, user=%v utf16=%v", cs[d[0]].name, d[1] == 1, d[2] == 1)
			try(t, cs[d[0]].lex(), smallMatrix, d[1] == 1, d[2] == 1, d[0]%5 == 0)
		},
	}
}

// a defect late in a large source, or far along a list of units or a long column
func lateFamily(tier engine.Tier) *engine.Family {
	lens := []int{300, 5000, 33000, 70000}
	type def struct {
		name string
		f    func(f []string) []string
	}
	set := func(k int, v string) func([]string) []string {
		return func(f []string) []string { f[k] = v; return f }
	}
	defs := []def{
		{"17 columns", func(f []string) []string { return f[:17] }},
		{"19 columns", func(f []string) []string { return append(f, "*") }},
		{"no headword", set(0, "")},
		{"bad left id", set(1, "x")},
		{"big right id", set(2, "32768")},
		{"big cost", set(3, "-32769")},
		{"separator in a part of speech", set(5, `\u002C`)},
		{"dictionary form beyond the end", set(13, "99999999")},
		{"units of a word of type A", func(f []string) []string { f[14], f[15] = "A", "0"; return f }},
		{"unknown unit", set(15, "99999999")},
		{"unknown unit of its own", set(16, "U99999999")},
		{"unknown word in the structure", set(17, colRef("no,"+posN+",x"))},
		{"reading of 32768 bytes", set(11, strings.Repeat("x", 32768))},
		{"a word by its columns", set(17, colRef("w,"+posN+",last"))},
		{"no defect", func(f []string) []string { return f }},
	}
	whole := len(defs) * len(lens) * 2
	// defects along a list
	units := []int{10, 17, 33, 65, 100, 127}
	bad := []string{"99", "U99", "-1", "x", colRef("no," + posN + ",x"), "", "U"}
	inList := len(units) * len(bad) * 3
	// long defects in columns that have to be refused
	cols := []int{5, 10, 13, 1, 15, 17}
	longs := []int{100, 255, 256, 257, 1000, 4095, 4096, 4097, 10000, 66000, 100000, 200000}
	long := len(cols) * len(longs)
	// matrix lines
	mlens := []int{4, 300, 5000, 70000}
	mbad := []string{"2 0 1", "0 3 1", "-1 0 1", "0 -1 1", "0 0 32768", "x 0 1", "0 x 1", "0 0 x", "1 2 -6"}
	mat := len(mlens) * len(mbad)
	return &engine.Family{
		Name:   "late-defects",
		Bounds: fmt.Sprintf("each of %d defects in the last row and in the middle of %v rows; each of %d unusable units at the end of %v units in each list; unusable columns of %v characters; each of %d unusable matrix lines after %v others; system and user dictionaries", len(defs)-2, lens, len(bad), units, longs, len(mbad)-1, mlens),
		Size:   int64(whole+inList+long)*2 + int64(mat),
		Chunk:  1, HangSeconds: 120,
		Run: func(i int64, t *engine.T) {
			if i >= int64(whole+inList+long)*2 {
				k := int(i) - (whole+inList+long)*2
				m := "2 3\n" + strings.Repeat("0 0 1\n", mlens[k%len(mlens)]) + mbad[k/len(mlens)] + "\n1 1 1\n"
				t.Input("%q after %d matrix lines", mbad[k/len(mlens)], mlens[k%len(mlens)])
				try(t, []string{row(base[0])}, m, false, false, false)
				return
			}
			user := i%2 == 1
			k := int(i / 2)
			switch {
			case k < whole:
				n, d, mid := lens[k/2/len(defs)], defs[k/2%len(defs)], k%2 == 1
				at := n - 1
				if mid {
					at = n / 2
				}
				var sb strings.Builder
				for j := 0; j < n; j++ {
					f := []string{fmt.Sprintf("w%d", j), "0", "1", "5", "w", "名詞", "普通名詞", "一般", "*", "*", "*", fmt.Sprint(j), "n", "*", "C", "*", "*", "*"}
					if j == n-2 {
						f[11] = "last"
					}
					if j == at {
						f = d.f(f)
					}
					sb.WriteString(row(f))
				}
				t.Input("%s in row %d of %d, user=%v", d.name, at, n, user)
				try(t, []string{sb.String()}, smallMatrix, user, k%3 == 0, false)
			case k < whole+inList:
				k -= whole
				n, b, col := units[k/3/len(bad)], bad[k/3%len(bad)], 15+k%3
				f := cp(base[1])
				f[col] = strings.Repeat("0/", n-1) + b
				t.Input("column %d with %d units, the last is %q, user=%v", col, n, b, user)
				try(t, []string{row(base[0]) + row(f) + row(base[2])}, smallMatrix, user, k%2 == 0, false)
			default:
				k -= whole + inList
				n, col := longs[k%len(longs)], cols[k/len(longs)]
				f := cp(base[1])
				switch col {
				case 5, 10:
					f[col] = strings.Repeat("x", n) + `\u002C`
				case 13, 1:
					f[col] = strings.Repeat("9", n)
				default:
					f[col] = strings.Repeat("x", n)
				}
				t.Input("column %d of %d characters, user=%v", col, n, user)
				try(t, []string{row(base[0]) + row(f) + row(base[2])}, smallMatrix, user, k%2 == 0, false)
			}
		},
	}
}

// references by columns: every column right, wrong or missing, and what may follow
func referencesFamily(tier engine.Tier) *engine.Family {
	heads := []string{"a", "ab", "s", "b", "x", "", "0", "U0", "*", `\u0061`, `\u005Cu0061`, "a\r"}
	poss := []string{posN, "動詞,一般,*,*,五段,終止形", "未知,*,*,*,*,*", "名詞,普通名詞,一般,*,*", "名詞,普通名詞,一般,*,*,*,*", ",,,,,", "*,*,*,*,*,*", "", "\x01"}
	reads := []string{"エー", "エービー", "ビー", "エス", "", "x", "*", "\x01", "エー,", "エー,x", `エー\u000A`, `エー\u000Ax`, `エー\u000D\u000A`, `エー\u000Aa,` + posN + `,エー`, "エー ", `\u30A8\u30FC`, `\u005Cu30A8\u30FC`}
	around := []string{"%", "0/%", "%/0", "%/%", "%/", "/%", "%/U0", "%/x"}
	if tier == engine.Quick {
		around = around[:5]
	}
	mix := engine.NewMix(len(heads), len(poss), len(reads), len(around), 3, 2)
	return &engine.Family{
		Name:   "references",
		Bounds: fmt.Sprintf("references by columns in each of the three lists: %d headwords, %d parts of speech (known, unknown, too short, too long, missing), %d readings (right, wrong, missing, more columns, more lines, escapes), %d surroundings; system and user dictionaries", len(heads), len(poss), len(reads), len(around)),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			parts := []string{heads[d[0]]}
			for _, x := range []string{poss[d[1]], reads[d[2]]} {
				if x != "\x01" {
					parts = append(parts, x)
				}
			}
			r := colRef(strings.Join(parts, ","))
			var lex string
			for k := range base {
				f := cp(base[k])
				if k == 1 {
					f[15+d[4]] = strings.ReplaceAll(around[d[3]], "%", r)
				}
				lex += row(f)
			}
			t.Input("column %d = %q, user=%v", 15+d[4], strings.ReplaceAll(around[d[3]], "%", r), d[5] == 1)
			try(t, []string{lex}, smallMatrix, d[5] == 1, i%5 == 0, false)
		},
	}
}

func matrixTokens(tier engine.Tier) *engine.Family {
	tok := []string{"", "0", "1", "2", "3", "-1", "x", "32767", "32768", "65536", "-32768", "-32769", "1.5", "0x1", "４"}
	mix := engine.NewMix(len(tok), len(tok), len(tok), len(tok), len(tok))
	big := map[string]bool{"32767": true}
	return &engine.Family{
		Name:   "matrix-tokens",
		Bounds: fmt.Sprintf("every header of two tokens and every entry of three tokens from %q", tok),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			if big[tok[d[0]]] && big[tok[d[1]]] {
				return // a 2 GB matrix
			}
			if (big[tok[d[0]]] || big[tok[d[1]]]) && tier == engine.Quick && d[4] != 1 {
				return
			}
			m := fmt.Sprintf("%s %s\n1 1 1\n%s %s %s\n", tok[d[0]], tok[d[1]], tok[d[2]], tok[d[3]], tok[d[4]])
			t.Input("%q", m)
			try(t, []string{row(base[0])}, m, false, false, false)
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	var fs []*engine.Family
	fs = append(fs, mutateFamily(tier), pairFamily(tier))
	var lex string
	for _, f := range base {
		lex += row(f)
	}
	fs = append(fs, editsFamily("lexicon-edits", "a lexicon", lex, editBytes, func(t *engine.T, s string) {
		try(t, []string{s}, smallMatrix, false, false, false)
		try(t, []string{s}, smallMatrix, true, true, false)
	}))
	ulex := strings.ReplaceAll(lex, "0/2", colRef("s,"+posN+",エス")+"/0/U1")
	fs = append(fs, editsFamily("user-lexicon-edits", "a user lexicon", ulex, editBytes, func(t *engine.T, s string) {
		try(t, []string{s}, "", true, false, false)
	}))
	fs = append(fs, editsFamily("matrix-edits", "a matrix", smallMatrix, append([]string{"1", "2", "3", "4", "\t", "x"}, editBytes...), func(t *engine.T, s string) {
		try(t, []string{lex}, s, false, false, false)
	}))
	fs = append(fs, referencesFamily(tier), matrixTokens(tier), limitsFamily(tier), lateFamily(tier))
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C04", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct source (lexicon and matrix text, kind, encoding); a transition is one compilation whose verdict was compared with the specification's; a trace is one compilation, followed for accepted sources by loading, reading every word, looking up and printing",
		Assumptions: []string{"a matrix line with fewer than three fields is reported and skipped, extra fields are ignored (as documented by the messages); whether such a source is accepted is left open", "negative connection ids other than -1 are left open"},
	})
}
