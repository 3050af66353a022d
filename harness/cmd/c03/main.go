// C03: compiling a lexicon and loading the dictionary back loses nothing.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/dictionary"
)

const posN = "名詞,普通名詞,一般,*,*,*"
const posV = "動詞,一般,*,*,五段,終止形"
const posE = ",,,,,"

var smallMatrix = gs.Matrix(2, 3, func(x, y int) int { return 100*x - 7*y })

// check compiles the sources, requires success and compares.
func check(t *engine.T, lex []string, matrix string, u16 bool, maxTexts int) []byte {
	d, v, why := ref.Compile(lex, matrix, nil, u16)
	if v != ref.Accept {
		panic(fmt.Sprintf("harness: the enumerated source is not valid: %s: %q", why, lex))
	}
	b, err := gs.SysFiles(lex, matrix, gs.Opts{UTF16: u16, Desc: "d", Time: 1})
	t.Trace(1)
	if err != nil {
		t.Fail("rejected", "a valid source is rejected: %v", err)
		return nil
	}
	g, l := gs.Load(b, u16)
	t.Transition(2*len(d.Words) + len(d.Matrix))
	if m := gs.Compare(d, nil, g, l, maxTexts); m != "" {
		t.Fail("differs", "utf16=%v: %s", u16, m)
	}
	t.State(strings.Join(lex, "\x01"), matrix, fmt.Sprint(u16))
	return b
}

// row templates; %d-free: references are to row 0, to the row itself or by columns to row 0
type tmpl func(n, self int) string

func tmpls() []tmpl {
	ref0 := `a\u002C名詞\u002C普通名詞\u002C一般\u002C*\u002C*\u002C*\u002Cエー`
	_ = ref0
	w := func(head string, l, r, c int, surf, pos, read, norm, df, mode, a, b, ws string) string {
		return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", head, l, r, c, surf, pos, read, norm, df, mode, a, b, ws)
	}
	k := func(s string) tmpl { return func(n, self int) string { return s } }
	return []tmpl{
		k(w("a", 0, 0, 10, "a", posN, "a", "a", "*", "A", "*", "*", "*")),
		k(w("a", 1, 1, -32768, "A", posV, "エー", "a", "*", "A", "*", "*", "*")),
		k(w("ab", 2, 1, 32767, "ab", posN, "エービー", "AB", "*", "B", "0/0", "*", "0")),
		k(w("b", -1, -1, 0, "b", posE, "", "", "0", "A", "*", "*", "*")),
		k(w("日本", 0, 1, -1, "日本", posV, "ニッポン", "日本", "0", "C", "0", "0/0", "0/0/0")),
		k(w("𠮷a", -1, 0, 255, "𠮷a", posN, "ヨシ", "吉a", "*", "C", "0", "*", "*")),
		func(n, self int) string { // refers to itself and to the last row
			return w("abc", 1, 0, 256, "abc", posN, "abc", "x", fmt.Sprint(self), "C", fmt.Sprint(n-1), "U"+fmt.Sprint(self)+"/"+fmt.Sprint(n-1), "*")
		},
		func(n, self int) string { // dictionary form of a later row
			return w(`\u0061\u{62}`, 0, 0, -257, "あ", posV, "ア", "", fmt.Sprint(n-1), "C", "*", "0", "*")
		},
		k(w("a", -1, 2, 7, "a", posN, "a", "a", "*", "A", "*", "*", "*")),
		k(w("bb", 2, 0, -32767, strings.Repeat("x", 127), posE, strings.Repeat("y", 128), strings.Repeat("あ", 100), "*", "*", "*", "*", "0/0/0/0")),
		func(n, self int) string { // reference by columns to itself
			return w("c", 1, 1, 1, "シ", posV, "シー", "c", "*", "C", `シ\u002C動詞\u002C一般\u002C*\u002C*\u002C五段\u002C終止形\u002Cシー`, "*", "0/"+fmt.Sprint(self))
		},
		func(n, self int) string {
			return w("\xe3\x81\x82", 1, 1, 1, "", posV, "あ", "", fmt.Sprint(n-1), "C", "*", "*", fmt.Sprint(n-1))
		},
	}
}

func rowsFamily(name string, ts []tmpl, n int) *engine.Family {
	sp := engine.NewStrings(len(ts), n)
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of 0..%d rows from %d row templates (homographs, unindexed rows, extreme costs, self, forward and column references, escapes, long strings), both encodings", n, len(ts)),
		Size:   sp.Size(),
		Run: func(i int64, t *engine.T) {
			ix := sp.Get(i)
			var sb strings.Builder
			for k, x := range ix {
				sb.WriteString(ts[x](len(ix), k))
			}
			t.Input("lexicon:\n%s", sb.String())
			for _, u := range []bool{false, true} {
				check(t, []string{sb.String()}, smallMatrix, u, 60)
			}
		},
	}
}

func stringsFamily(tier engine.Tier) *engine.Family {
	units := []string{"a", "é", "あ", "𠮷", "\uffff", "\x7f"}
	lens := []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 383, 384, 32766, 32767}
	if tier == engine.Thorough {
		lens = append(lens, 3, 4, 100, 125, 511, 512, 513, 1000, 4095, 4096, 16383, 16384, 32640, 32765)
	}
	cols := []int{4, 5, 10, 11, 12, 0}
	mix := engine.NewMix(len(units), len(lens), len(cols), 2)
	return &engine.Family{
		Name:   "strings",
		Bounds: fmt.Sprintf("each string column (headword, surface, first and last part of speech, reading, normalised form) filled with each of %d encoded lengths of characters of 1 to 4 bytes, followed by another row, both encodings", len(lens)),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			u16 := d[3] == 1
			u := units[d[0]]
			ulen := len(u)
			if u16 && cols[d[2]] != 0 {
				ulen = 1
				if u == "𠮷" {
					ulen = 2
				}
			}
			n := lens[d[1]]
			if cols[d[2]] == 0 && n == 0 {
				return
			}
			s := strings.Repeat(u, n/ulen) + strings.Repeat("z", n%ulen)
			f := strings.Split("h,0,0,0,h,p1,p2,p3,p4,p5,p6,r,n,*,A,*,*,*", ",")
			f[cols[d[2]]] = s
			lex := strings.Join(f, ",") + "\n" + "k,1,1,1,k," + posN + ",r2,n2,0,A,*,*,1\n"
			t.Input("column %d = %q x %d (utf16=%v)", cols[d[2]], u, n, u16)
			check(t, []string{lex}, smallMatrix, u16, 10)
		},
	}
}

func arraysFamily() *engine.Family {
	mix := engine.NewMix(128, 3, 3)
	return &engine.Family{
		Name:   "splits",
		Bounds: "A split, B split and word structure of every length 0..127 over 130 words, three contents (ascending, descending, constant last word)",
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			n, col, kind := d[0], d[1], d[2]
			var e []string
			for k := 0; k < n; k++ {
				switch kind {
				case 0:
					e = append(e, fmt.Sprint(k+2))
				case 1:
					e = append(e, fmt.Sprint(129-k))
				default:
					e = append(e, "129")
				}
			}
			s := "*"
			if n > 0 {
				s = strings.Join(e, "/")
			}
			sp := []string{"*", "*", "*"}
			sp[col] = s
			var sb strings.Builder
			fmt.Fprintf(&sb, "h,0,0,0,h,%s,r,n,*,C,%s\n", posN, strings.Join(sp, ","))
			for k := 1; k < 130; k++ {
				fmt.Fprintf(&sb, "w%d,0,0,%d,w%d,%s,r,n,*,A,*,*,*\n", k, k, k, posN)
			}
			t.Input("column %d has %d units, kind %d", 15+col, n, kind)
			check(t, []string{sb.String()}, smallMatrix, i%2 == 0, 4)
		},
	}
}

func matrixFamilies(tier engine.Tier) []*engine.Family {
	max := 8
	if tier == engine.Thorough {
		max = 14
	}
	lex := "a,0,0,0,a," + posN + ",r,n,*,A,*,*,*\n"
	vals := []int{-32768, -1, 0, 1, 255, 256, 32767}
	mix := engine.NewMix(max, max, 6)
	f1 := &engine.Family{
		Name:   "matrix-sizes",
		Bounds: fmt.Sprintf("all sizes 1..%d x 1..%d with distinct costs in every cell; lines in row, column and reverse order, CRLF with tabs, doubled lines where the last wins, and sparse with blank lines", max, max),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			l, r, o := d[0]+1, d[1]+1, d[2]
			var ls []string
			for x := 0; x < l; x++ {
				for y := 0; y < r; y++ {
					a, b := x, y
					if o == 1 {
						n := x*r + y
						a, b = n%l, n/l
					}
					c := 257*a - 1031*b + 13
					ls = append(ls, fmt.Sprintf("%d %d %d", a, b, c))
				}
			}
			sep := "\n"
			switch o {
			case 2:
				for p, q := 0, len(ls)-1; p < q; p, q = p+1, q-1 {
					ls[p], ls[q] = ls[q], ls[p]
				}
			case 3:
				for k := range ls {
					ls[k] = strings.ReplaceAll(ls[k], " ", "\t ") + "  "
				}
				sep = "\r\n"
			case 4:
				var two []string
				for k := range ls {
					f := strings.Fields(ls[k])
					two = append(two, f[0]+" "+f[1]+" 99")
				}
				ls = append(two, ls...)
			case 5:
				var two []string
				for k := range ls {
					if k%2 == 0 {
						two = append(two, ls[k], "", " \t")
					}
				}
				ls = two
			}
			m := fmt.Sprintf("%d %d", l, r) + sep + strings.Join(ls, sep)
			if o%2 == 0 {
				m += sep
			}
			t.Input("matrix:\n%s", m)
			check(t, []string{lex}, m, i%2 == 1, 2)
		},
	}
	mix2 := engine.NewMix(max, max, max*max, len(vals))
	f2 := &engine.Family{
		Name:   "matrix-cells",
		Bounds: fmt.Sprintf("all sizes up to %dx%d, each single cell set to each of %v, all others unset", max, max, vals),
		Size:   mix2.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix2.Get(i)
			l, r := d[0]+1, d[1]+1
			if d[2] >= l*r {
				return
			}
			m := fmt.Sprintf("%d %d\n%d %d %d\n", l, r, d[2]%l, d[2]/l, vals[d[3]])
			t.Input("matrix:\n%s", m)
			check(t, []string{lex}, m, i%2 == 1, 2)
		},
	}
	big := []int{127, 128, 255, 256, 257, 300}
	mix3 := engine.NewMix(len(big)+1, len(big)+1)
	f3 := &engine.Family{
		Name:   "matrix-big",
		Bounds: fmt.Sprintf("all sizes from 1 and %v in both dimensions with a cost pattern distinct in every cell neighbourhood; plus 32767x2 and 2x32767", big),
		Size:   mix3.Size() + 2,
		Run: func(i int64, t *engine.T) {
			var l, r int
			if i < mix3.Size() {
				d := mix3.Get(i)
				s := append([]int{1}, big...)
				l, r = s[d[0]], s[d[1]]
			} else if i == mix3.Size() {
				l, r = 32767, 2
			} else {
				l, r = 2, 32767
			}
			m := gs.Matrix(l, r, func(x, y int) int { return (x*3271+y*77)%65536 - 32768 })
			t.Input("matrix %dx%d", l, r)
			check(t, []string{lex}, m, i%2 == 1, 2)
		},
	}
	lens := engine.LongLines(tier)
	kinds := [][2]string{{"1 0 7~", " "}, {"~1 0 7", "\t "}, {"1~0~7", " "}, {"~", " \t"}}
	ends := []string{"\n", "\r\n", ""}
	mix4 := engine.NewMix(len(lens), len(kinds), len(ends), 3)
	f4 := &engine.Family{
		Name:   "matrix-long-lines",
		Bounds: fmt.Sprintf("a matrix line of each of %v bytes of %d kinds and line ends %q, as the first and the last line, and with a header of the same length", lens, len(kinds), ends),
		Size:   mix4.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix4.Get(i)
			n, end := lens[d[0]], ends[d[2]]
			l := engine.PadTo(kinds[d[1]][0], kinds[d[1]][1], n)
			if d[1] == 2 {
				l = engine.PadTo("1~0 7", " ", n)
			}
			var m string
			switch {
			case d[3] == 0 || end == "":
				m = "2 3\n0 2 5\n1 1 -9\n" + l + end
			case d[3] == 1:
				m = "2 3" + end + l + end + "0 2 5" + end + "1 1 -9"
			default:
				m = engine.PadTo("2 3~", " ", n) + end + l + end + "0 2 5" + end + engine.PadTo("1 1~-9", "\t", n+1) + end
			}
			t.Input("%d bytes, %v", n, d)
			check(t, []string{lex}, m, i%2 == 1, 2)
		},
	}
	return []*engine.Family{f1, f2, f3, f4}
}

func lookupFamily(tier engine.Tier) *engine.Family {
	u := []string{"a", "b", "ab", "ba", "abb", "あ", "あa"}
	if tier == engine.Thorough {
		u = append(u, "aba", "い", "あい")
	}
	// for each headword: absent, once, indexed+unindexed, twice, three times (split over two files)
	r := make([]int, len(u))
	for i := range r {
		r[i] = 3
	}
	mix := engine.NewMix(r...)
	n := 4
	ts := engine.NewStrings(3, n)
	sym := []string{"a", "b", "あ"}
	return &engine.Family{
		Name:   "lookup",
		Bounds: fmt.Sprintf("all multisets over headwords %q with multiplicity 0, 1 or 3 (one of them unindexed), rows spread over two files; every text of up to %d characters over %q at every byte offset", u, n, sym),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			var f [2]strings.Builder
			k := 0
			for c := 0; c < 3; c++ {
				for h := range u {
					if d[h] == 0 || d[h] == 1 && c > 0 {
						continue
					}
					l := c
					if c == 1 {
						l = -1
					}
					fmt.Fprintf(&f[k%2], "%s,%d,%d,%d,s%d,%s,r,n,*,A,*,*,*\n", u[h], l, c, k, k, posN)
					k++
				}
			}
			lex := []string{f[0].String(), f[1].String()}
			t.Input("lexicons: %q", lex)
			dd, _, _ := ref.Compile(lex, smallMatrix, nil, false)
			b := check(t, lex, smallMatrix, i%2 == 1, 20)
			if b == nil || t.Failed() {
				return
			}
			_, l := gs.Load(b, i%2 == 1)
			for x := int64(0); x < ts.Size(); x++ {
				s := ""
				for _, c := range ts.Get(x) {
					s += sym[c]
				}
				for off := 0; off <= len(s); off++ {
					got, err := gs.GotHits(l, s, off)
					want := gs.WantHits(dd, s, off, 0)
					if err != nil || !gs.SameHits(got, want) {
						t.Fail("lookup", "lookup of %q at %d: %v %v, want %v", s, off, got, err, want)
						return
					}
				}
				t.Transition(1)
			}
		},
	}
}

func countsFamily(tier engine.Tier) *engine.Family {
	homo := []int{1, 2, 126, 127, 128, 129, 254, 255}
	pos := []int{1, 127, 128, 255, 256, 257, 32766, 32767}
	words := []int{0, 1, 255, 256, 257, 4096, 65535, 65536, 65537}
	volumes := 2
	if tier == engine.Thorough {
		volumes = 4
	}
	return &engine.Family{
		Name:   "counts",
		Bounds: fmt.Sprintf("homographs %v, parts of speech %v, words %v; 70000 words with strings and references of more than 16 (thorough: 128) megabytes in both encodings", homo, pos, words),
		Size:   int64(len(homo) + len(pos) + len(words) + volumes),
		Chunk:  1,
		Run: func(i int64, t *engine.T) {
			var sb strings.Builder
			k := int(i)
			switch {
			case k < len(homo):
				for j := 0; j < homo[k]; j++ {
					fmt.Fprintf(&sb, "a,0,0,%d,a%d,%s,r,n,*,A,*,*,*\n", j, j, posN)
				}
				fmt.Fprintf(&sb, "ab,0,0,0,ab,%s,r,n,*,A,*,*,*\n", posN)
				t.Input("%d homographs", homo[k])
			case k < len(homo)+len(pos):
				n := pos[k-len(homo)]
				for j := 0; j < n; j++ {
					fmt.Fprintf(&sb, "a%d,0,0,%d,a,p%d,*,*,*,*,%d,r,n,*,A,*,*,*\n", j, j%100, j%7, j)
				}
				t.Input("%d parts of speech", n)
			case k >= len(homo)+len(pos)+len(words):
				m := 240
				if k >= len(homo)+len(pos)+len(words)+2 {
					m = 2000
				}
				for j := 0; j < 70000; j++ {
					fmt.Fprintf(&sb, "%x,%d,%d,%d,a%d,%s,%s,%d,%d,C,%d/%d,%d,%d/%d/%d\n", j*2654435761%1000003, j%3, j%3, j%30000, j, posN, strings.Repeat("アr", m/4)+fmt.Sprint(j), j, 69999-j, (j+1)%70000, j, 69999-j, j, j, j/2)
				}
				t.Input("70000 words with readings of %d bytes", m)
			default:
				n := words[k-len(homo)-len(pos)]
				for j := 0; j < n; j++ {
					fmt.Fprintf(&sb, "a%d,0,0,%d,a,%s,r%d,n,%d,A,*,*,%d\n", j, j%30000, posN, j, n-1-j, n-1-j)
				}
				// words given by their columns
				for _, j := range []int{0, 1, 126, 127, 254, 255, 256, 1000, 4095, 16383, 20001, 32766, 32767, 32768, 50000, 65534, 65535, 65536} {
					if j < n {
						q := strings.ReplaceAll(fmt.Sprintf("a,%s,r%d", posN, j), ",", `\u002C`)
						fmt.Fprintf(&sb, "b%d,0,0,0,b,%s,r,n,%d,C,%s/0,0/%s,%s\n", j, posN, n-1, q, q, q)
					}
				}
				t.Input("%d words", n)
			}
			check(t, []string{sb.String()}, smallMatrix, i%2 == 1, 3)
		},
	}
}

// headers and files through the file loading functions
func headerFamily(tier engine.Tier, scratch string) *engine.Family {
	times := []int64{0, 1, 1604700000, 1<<31 - 1, 1 << 31, 1<<62 + 12345, -1, -1 << 62}
	kinds := []uint64{dictionary.SystemDictVersion, dictionary.UserDictVersion, dictionary.UserDictVersion2}
	lens := []int{0, 1, 2, 100, 254, 255, 256}
	mix := engine.NewMix(len(kinds), len(times), len(lens), 2, 2)
	var once bool
	_ = once
	return &engine.Family{
		Name:   "files",
		Bounds: fmt.Sprintf("dictionary files of the three version kinds (with and without grammar) x creation times %v x description lengths %v (ASCII and UTF-8) x encodings, opened through the generic, system and user functions", times, lens),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			kind, tm, n := kinds[d[0]], times[d[1]], lens[d[2]]
			u16 := d[4] == 1
			desc := strings.Repeat("d", n)
			if d[3] == 1 {
				desc = strings.Repeat("辞", n/3) + strings.Repeat("x", n%3)
			}
			hb, err := dictionary.NewDictionaryHeader(kind, tm, desc).ToBytes()
			if err != nil {
				t.Fail("header", "header with a description of %d bytes: %v", len(desc), err)
				return
			}
			t.Input("kind %x, time %d, description %q, utf16=%v", kind, tm, desc, u16)
			// a header anywhere in a buffer
			for _, off := range []int{0, 1, 15, 16, 255, 256, 272, 273, 600} {
				for _, after := range []int{0, 1, 300} {
					buf := append(append(bytes.Repeat([]byte{'o'}, off), hb...), bytes.Repeat([]byte{'o'}, after)...)
					h := dictionary.ParseDictionaryHeader(buf, off)
					if h == nil || h.Version != kind || h.CreateTime != tm || h.Description != desc {
						t.Fail("header offset", "the header at offset %d of %d bytes is read as %+v", off, len(buf), h)
						return
					}
					if after == 0 {
						if h := dictionary.ParseDictionaryHeader(buf[:len(buf)-1], off); h != nil {
							t.Fail("header offset", "a header that is cut at offset %d is accepted", off)
							return
						}
					}
				}
			}
			lex := "a,0,0,5,a," + posN + ",エー,n,0,C,0/1,1,*\nab,1,1,-5,ab," + posV + ",r,,*,A,*,*,*\n"
			m := &gs.MemFile{}
			m.Write(hb)
			bd := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, u16)
			var store dictionary.PosIdStore
			ps := dictionary.NewPosTable()
			store = ps
			if err := bd.BuildLexicon(store, strings.NewReader(lex)); err != nil {
				t.Fail("build", "%v", err)
				return
			}
			mat := smallMatrix
			switch kind {
			case dictionary.SystemDictVersion:
				err = bd.WriteGrammar(ps, strings.NewReader(mat), m)
			case dictionary.UserDictVersion2:
				mat = "0 0\n"
				err = bd.WriteGrammarUser(ps, m)
			}
			if err == nil {
				err = bd.WriteLexicon(m, store)
			}
			if err != nil {
				t.Fail("build", "%v", err)
				return
			}
			rd, _, _ := ref.Compile([]string{lex}, mat, nil, u16)
			p := gs.WriteFile(filepath.Join(scratch, fmt.Sprintf("f%d.dic", i)), m.B)
			defer os.Remove(p)
			t.Trace(1)
			t.State(fmt.Sprint(kind, tm, desc, u16))
			for open := 0; open < 3; open++ {
				var b *dictionary.BinaryDictionary
				switch open {
				case 0:
					b, err = dictionary.NewBinaryDictionary(p, u16)
				case 1:
					b, err = dictionary.ReadSystemDictionary(p, u16)
				case 2:
					b, err = dictionary.ReadUserDictionary(p, u16)
				}
				t.Transition(1)
				ok := open == 0 || open == 1 && kind == dictionary.SystemDictVersion || open == 2 && kind != dictionary.SystemDictVersion
				if ok != (err == nil) {
					t.Fail("open", "open function %d on kind %x: %v", open, kind, err)
					return
				}
				if !ok {
					continue
				}
				if b.Header.Version != kind || b.Header.CreateTime != tm || b.Header.Description != desc {
					t.Fail("header", "header read back as %x %d %q", b.Header.Version, b.Header.CreateTime, b.Header.Description)
				}
				if (b.Grammar == nil) != (kind == dictionary.UserDictVersion) {
					t.Fail("grammar", "kind %x: grammar present: %v", kind, b.Grammar != nil)
					return
				}
				if msg := gs.Compare(rd, nil, b.Grammar, b.Lexicon, 20); msg != "" {
					t.Fail("differs", "%s", msg)
				}
				if err := b.Close(); err != nil {
					t.Fail("close", "%v", err)
				}
			}
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	ts := tmpls()
	fs := []*engine.Family{rowsFamily("rows", ts, 4)}
	if tier == engine.Thorough {
		fs = append(fs, rowsFamily("rows-5", ts, 5))
	}
	fs = append(fs, stringsFamily(tier), arraysFamily())
	fs = append(fs, matrixFamilies(tier)...)
	fs = append(fs, lookupFamily(tier), countsFamily(tier), headerFamily(tier, scratch))
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C03", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct dictionary source (lexicons, matrix, encoding); a transition is one row or matrix cell compiled and one read back; a trace is one compile-and-load whose whole observable content (words, parameters, parts of speech, matrix, lookups) was compared with the source's meaning",
		Assumptions: []string{"an empty reading or normalised form stands for the surface (the file format has no separate encoding for it)", "dictionaries up to 65,537 words; larger offsets are not reached"},
	})
}
