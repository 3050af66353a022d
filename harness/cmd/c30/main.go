// C30: dictionary files keep the established binary format.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const (
	posN = "名詞,普通名詞,一般,*,*,*"
	posV = "動詞,一般,*,*,五段,終止形"
	posE = ",,,,,"
	posO = "記号,*,*,*,*,*"
	posU = "名詞,固有名詞,一般,*,*,*"
	posW = "独自,*,*,*,*,*"
)

var scratchDir string

var matrix = gs.Matrix(2, 3, func(x, y int) int { return 100*x - 7*y })

func row(head string, l, r, c int, surf, pos, read, norm, df, mode, a, b, ws string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", head, l, r, c, surf, pos, read, norm, df, mode, a, b, ws)
}

func col(s string) string { return strings.ReplaceAll(s, ",", `\u002C`) }

type tmpl func(n, self int) string

func k(s string) tmpl { return func(n, self int) string { return s } }

// rows of a system dictionary
var sysRows = []tmpl{
	k(row("a", 0, 0, 10, "a", posN, "a", "a", "*", "A", "*", "*", "*")),
	k(row("ab", 2, 1, 32767, "A", posV, "エービー", "AB", "0", "B", "0/0", "*", "0")),
	k(row("b", -1, -1, -32768, "b", posE, "", "", "*", "A", "*", "*", "*")),
	k(row("𠮷a", -2, 255, 256, "日本", posN, "ヨシ", "吉a", "*", "C", "0", "0/0", "0/0/0")),
	func(n, self int) string {
		return row("日本", 1, 0, -257, "日", posE, "日", "", fmt.Sprint(n-1), "C", fmt.Sprint(n-1), fmt.Sprint(self)+"/"+fmt.Sprint(n-1), "*")
	},
	k(row("bb", 32767, 0, -1, strings.Repeat("x", 127), posE, strings.Repeat("y", 128), strings.Repeat("あ", 100), "*", "*", "*", "*", "0/0/0/0")),
	k(row("a", -1, 2, 7, "\uffff", posU, "a", "a", "*", "A", "*", "*", "*")),
}

var baseLex = gs.Word("a", 0, 1, 100, posN, "a", "エー", "*", "A", "*", "*", "*") +
	gs.Word("b", 1, 0, 200, posV, "b", "ビー", "0", "A", "*", "*", "*") +
	gs.Word("ab", 0, 2, 300, posN, "AB", "エービー", "*", "C", "0/1", "0/1", "0/1") +
	gs.Word("c", -1, -1, 400, posO, "c", "", "*", "A", "*", "*", "*") +
	gs.Word("あ", 0, 0, -5, posV, "ア", "あ", "3", "A", "*", "*", "*")

// rows of a user dictionary for baseLex; the first ones have no part of speech of their own
const plainRows = 3

var userRows = []tmpl{
	k(gs.Word("a", 1, 1, 11, posN, "ua", "ユーエー", "*", "A", "*", "*", "*")),
	k(gs.Word("abc", 0, 2, 12, posO, "abc", "r", "0", "C", "0/1/3", col("ab,"+posN+",エービー")+"/3", "U0/1/3")),
	func(n, self int) string {
		return gs.Word("あa", -1, 0, 42, posV, "あa", "r", fmt.Sprint(n-1), "C", fmt.Sprintf("4/U%d", self), "4/0", fmt.Sprintf("U%d", n-1))
	},
	k(gs.Word("a", 2, 0, 21, posU, "a1", "エー", "*", "A", "*", "*", "*")),
	k(gs.Word("b", 0, 0, 31, posW, "b", "b", "*", "A", "*", "*", "*")),
	func(n, self int) string {
		return gs.Word("ab", 0, 1, 32, posU, "ab", "r", "0", "B", fmt.Sprintf("0/U%d", n-1), "U0/0", col("b,"+posV+",ビー"))
	},
}

func render(ts []tmpl, ix []int) string {
	var sb strings.Builder
	for i, x := range ix {
		sb.WriteString(ts[x](len(ix), i))
	}
	return sb.String()
}

type base struct {
	bytes []byte
	model *ref.Dict
}

var bases [2]base
var baseOnce [2]sync.Once

func getBase(u16 bool) base {
	i := 0
	if u16 {
		i = 1
	}
	baseOnce[i].Do(func() {
		b, err := gs.Sys(baseLex, matrix, gs.Opts{UTF16: u16, Desc: "d", Time: 1})
		if err != nil {
			panic(err)
		}
		m, v, why := ref.Compile([]string{baseLex}, matrix, nil, u16)
		if v != ref.Accept {
			panic(why)
		}
		bases[i] = base{b, m}
	})
	return bases[i]
}

// source is a dictionary given by its source; sys is nil for a system dictionary.
type source struct {
	lex, matrix string
	sys         *base
	u16         bool
}

func (s source) model() *ref.Dict {
	var sm *ref.Dict
	if s.sys != nil {
		sm = s.sys.model
	}
	m, v, why := ref.Compile([]string{s.lex}, s.matrix, sm, s.u16)
	if v == ref.Reject {
		panic(fmt.Sprintf("harness: the enumerated source is not valid: %s: %q", why, s.lex))
	}
	return m
}

func (s source) build() ([]byte, error) {
	o := gs.Opts{UTF16: s.u16, Desc: "d", Time: 1}
	if s.sys != nil {
		return gs.User(s.lex, s.sys.bytes, o)
	}
	return gs.Sys(s.lex, s.matrix, o)
}

func (s source) file(version uint64) *ref.DictFile {
	var sm *ref.Dict
	if s.sys != nil {
		sm = s.sys.model
	}
	f, ok := ref.FileOf(s.model(), sm, version)
	if !ok {
		return nil
	}
	return f
}

func (s source) version() uint64 {
	if s.sys != nil {
		return ref.FormatUser2
	}
	return ref.FormatSystem
}

// written compares what the compiler writes with the format.
func written(t *engine.T, s source) []byte {
	b, err := s.build()
	t.Trace(1)
	if err != nil {
		t.Fail("rejected", "a valid source is rejected: %v", err)
		return nil
	}
	want := s.file(s.version())
	t.Transition(2*len(want.Words) + len(want.Matrix))
	got, err := ref.DecodeFile(b, s.u16)
	if err != nil {
		t.Fail("format", "utf16=%v: the compiled file is not in the format: %v", s.u16, err)
		return nil
	}
	if d := got.Diff(want); d != "" {
		t.Fail("written", "utf16=%v: the compiled file: %s", s.u16, d)
		return nil
	}
	t.State("written", s.lex, s.matrix, s.u16)
	return b
}

// read compares what the library reads from a file of the format with its content.
func read(t *engine.T, s source, version uint64, o ref.Layout, maxTexts int) {
	f := s.file(version)
	if f == nil {
		return
	}
	o.UTF16 = s.u16
	readFile(t, f, s, o, maxTexts)
}

func readFile(t *engine.T, f *ref.DictFile, s source, o ref.Layout, maxTexts int) {
	b := ref.Encode(f, o)
	t.Trace(1)
	t.Transition(2*len(f.Words) + len(f.Matrix))
	defer func() {
		if r := recover(); r != nil {
			t.Fail("crash", "layout %+v: reading a file of the format crashes: %v", o, r)
		}
	}()
	h := dictionary.ParseDictionaryHeader(b, 0)
	if h == nil || h.Version != f.Version || h.CreateTime != f.Time || h.Description != f.Desc {
		t.Fail("header", "the header is read as %v", h)
		return
	}
	var sm *ref.Dict
	if s.sys != nil {
		sm = s.sys.model
	}
	var m string
	if f.Version == ref.FormatUser1 {
		m = gs.Compare(s.model(), sm, nil, gs.LoadNoGrammar(b, s.u16), maxTexts)
	} else {
		g, l := gs.Load(b, s.u16)
		m = gs.Compare(s.model(), sm, g, l, maxTexts)
	}
	if m != "" {
		t.Fail("read", "layout %+v: %s", o, m)
	}
	t.State("read", s.lex, s.matrix, f.Version, fmt.Sprint(o))
}

// layouts 0..71
const nLayouts = 3 * 2 * 3 * 2 * 2

func layout(i int) ref.Layout {
	return ref.Layout{UTF16: i%2 == 1, Trie: i / 2 % 3, Lists: i / 6 % 2, Infos: i / 12 % 3, Spelt: i/36%2 == 1}
}

func rowFamilies(tier engine.Tier) []*engine.Family {
	n, all := 4, 2
	if tier == engine.Thorough {
		n, all = 6, 4
	}
	var fs []*engine.Family
	add := func(kind string, ts []tmpl, user bool) {
		sp := engine.NewStrings(len(ts), n)
		fs = append(fs, &engine.Family{
			Name: kind, Bounds: fmt.Sprintf("all sequences of 0..%d rows from %d templates, both encodings: the compiled file decoded by an independent reader; independently encoded files read by the library, in all %d layouts (up to %d rows) or in 3 of them", n, len(ts), nLayouts, all),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				ix := sp.Get(i)
				lex := render(ts, ix)
				t.Input("%s dictionary with the lexicon:\n%s", kind, lex)
				for _, u16 := range []bool{false, true} {
					s := source{lex: lex, matrix: matrix, u16: u16}
					versions := []uint64{ref.FormatSystem}
					if user {
						b := getBase(u16)
						s.sys, s.matrix = &b, ""
						versions = []uint64{ref.FormatUser2, ref.FormatUser1}
					}
					written(t, s)
					for j := 0; j < nLayouts; j++ {
						if len(ix) > all && (int64(j)-i)%23 != 0 {
							continue
						}
						o := layout(j)
						if o.UTF16 != u16 {
							continue
						}
						for _, v := range versions {
							read(t, s, v, o, 25)
						}
					}
					if t.Failed() {
						return
					}
				}
			},
		})
	}
	add("system", sysRows, false)
	add("user", userRows, true)
	return fs
}

func stringsFamily(tier engine.Tier) *engine.Family {
	units := []string{"a", "é", "あ", "𠮷", "\uffff"}
	lens := []int{0, 1, 127, 128, 129, 255, 256, 384, 32767}
	if tier == engine.Thorough {
		lens = append(lens, 2, 3, 125, 126, 254, 257, 383, 32766, 511, 512, 513, 1000, 4095, 4096, 16383, 16384, 32640, 32765)
	}
	cols := []int{4, 5, 10, 11, 12, 0}
	mix := engine.NewMix(len(units), len(lens), len(cols), 2, 2)
	return &engine.Family{
		Name: "strings", Bounds: fmt.Sprintf("each string column filled with each of %d encoded lengths of characters of 1 to 4 bytes, in both directions, system and user dictionaries, both encodings", len(lens)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			u16 := d[3] == 1
			u, ulen := units[d[0]], len(units[d[0]])
			if u16 && cols[d[2]] != 0 {
				if ulen = 1; u == "𠮷" {
					ulen = 2
				}
			}
			n := lens[d[1]]
			if cols[d[2]] == 0 && n == 0 {
				return
			}
			f := strings.Split("h,0,0,0,h,p1,p2,p3,p4,p5,p6,r,n,*,A,*,*,*", ",")
			f[cols[d[2]]] = strings.Repeat(u, n/ulen) + strings.Repeat("z", n%ulen)
			s := source{lex: strings.Join(f, ",") + "\n" + "k,1,1,1,k," + posN + ",r2,n2,0,A,*,*,1\n", matrix: matrix, u16: u16}
			if d[4] == 1 {
				b := getBase(u16)
				s.sys, s.matrix = &b, ""
			}
			t.Input("column %d = %q x %d (utf16=%v, user=%v)", cols[d[2]], u, n, u16, d[4] == 1)
			written(t, s)
			read(t, s, s.version(), ref.Layout{Infos: d[1] % 3}, 10)
		},
	}
}

func matrixFamily(tier engine.Tier) *engine.Family {
	max := 6
	if tier == engine.Thorough {
		max = 12
	}
	vals := []int{-32768, -32767, -256, -255, -1, 0, 1, 127, 128, 255, 256, 32767}
	mix := engine.NewMix(max, max, len(vals))
	lex := row("a", 0, 0, 0, "a", posN, "r", "n", "*", "A", "*", "*", "*")
	return &engine.Family{
		Name: "matrices", Bounds: fmt.Sprintf("matrices of all sizes 1..%d x 1..%d with distinct costs and each of %d values at each end, in both directions", max, max, len(vals)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			l, r := d[0]+1, d[1]+1
			s := source{lex: lex, matrix: gs.Matrix(l, r, func(x, y int) int {
				switch {
				case x == l-1 && y == 0:
					return vals[d[2]]
				case x == 0 && y == r-1:
					return vals[len(vals)-1-d[2]]
				}
				return 259*x - 1031*y + 13
			})}
			t.Input("matrix %dx%d with %d at the end", l, r, vals[d[2]])
			written(t, s)
			read(t, s, s.version(), ref.Layout{}, 3)
		},
	}
}

func headerFamily(tier engine.Tier) *engine.Family {
	versions := []uint64{ref.FormatSystem, ref.FormatUser1, ref.FormatUser2, 0, 1, math.MaxUint64, 1 << 63}
	times := []int64{0, 1, -1, 255, 256, 1 << 31, 1 << 32, 1546300800, math.MaxInt64, math.MinInt64, 0x0102030405060708}
	var descs []string
	for _, u := range []string{"a", "é", "あ", "𠮷", " ", "\xff", "\n", "\x01", "\t"} {
		for n := 0; n <= 256; n++ {
			if tier == engine.Quick && n > 5 && n < 250 && n%17 != 0 {
				continue
			}
			descs = append(descs, strings.Repeat(u, n/len(u))+strings.Repeat("z", n%len(u)))
		}
	}
	for c := 1; c < 256; c++ { // every byte between two others, and at both ends
		descs = append(descs, "a"+string([]byte{byte(c)})+"b", string([]byte{byte(c)})+"ab", "ab"+string([]byte{byte(c)}))
	}
	mix := engine.NewMix(len(versions), len(times), len(descs))
	return &engine.Family{
		Name: "headers", Bounds: fmt.Sprintf("%d versions, %d times and %d descriptions of 0..256 bytes: the bytes of the header, and the header of the bytes", len(versions), len(times), len(descs)),
		Size: mix.Size(), Chunk: 200,
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			v, tm, desc := versions[d[0]], times[d[1]], descs[d[2]]
			t.Input("version %#x, time %d, description %q", v, tm, desc)
			want := ref.EncodeHeader(v, tm, desc)
			got, err := dictionary.NewDictionaryHeader(v, tm, desc).ToBytes()
			t.Trace(1)
			t.Transition(2)
			if err != nil || !bytes.Equal(got, want) {
				t.Fail("header", "the header is written as % x (%v), want % x", got, err, want)
				return
			}
			for _, off := range []int{0, 7} {
				b := append(bytes.Repeat([]byte{0x5a}, off), want...)
				h := dictionary.ParseDictionaryHeader(append(b, 0x5a), off)
				if h == nil || h.Version != v || h.CreateTime != tm || h.Description != desc {
					t.Fail("header", "the header is read as %+v", h)
				}
			}
			t.State("header", v, tm, desc)
		},
	}
}

// versionFamily opens files of every version near the three that exist.
func versionFamily() *engine.Family {
	known := []uint64{ref.FormatSystem, ref.FormatUser1, ref.FormatUser2}
	var all []uint64
	for _, v := range known {
		all = append(all, v)
		for b := 0; b < 64; b++ {
			all = append(all, v^1<<b)
		}
		var rev uint64
		for b := 0; b < 8; b++ {
			rev |= v >> (8 * b) & 0xff << (56 - 8*b)
		}
		all = append(all, rev)
	}
	all = append(all, 0, 1, 2, math.MaxUint64)
	return &engine.Family{
		Name: "versions", Bounds: fmt.Sprintf("files with the three versions of the format, every version that differs from them in one bit, and reversed bytes, opened as a dictionary, as a system dictionary and as a user dictionary, in both encodings; the constants and the test for user dictionaries"),
		Size: int64(2 * len(all)),
		Run: func(i int64, t *engine.T) {
			v, u16 := all[i/2], i%2 == 1
			t.Input("version %#x, utf16=%v", v, u16)
			b := getBase(u16)
			s := source{lex: baseLex, matrix: matrix, u16: u16}
			if v != ref.FormatSystem {
				s = source{lex: render(userRows, []int{0, 1, 2}), sys: &b, u16: u16}
			}
			f := s.file(v)
			if v == ref.FormatUser1 {
				f.POS, f.Matrix, f.L, f.R = nil, nil, 0, 0
			}
			bs := ref.Encode(f, ref.Layout{UTF16: u16})
			dir, err := os.MkdirTemp(scratchDir, "v")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			file := gs.WriteFile(filepath.Join(dir, "x.dic"), bs)
			sysv, userv := v == ref.FormatSystem, v == ref.FormatUser1 || v == ref.FormatUser2
			if dictionary.IsUserDictionary(v) != userv {
				t.Fail("user", "IsUserDictionary(%#x) is %v", v, !userv)
			}
			for _, o := range []struct {
				name string
				f    func(string, bool) (*dictionary.BinaryDictionary, error)
				ok   bool
			}{{"NewBinaryDictionary", dictionary.NewBinaryDictionary, sysv || userv}, {"ReadSystemDictionary", dictionary.ReadSystemDictionary, sysv}, {"ReadUserDictionary", dictionary.ReadUserDictionary, userv}} {
				t.Trace(1)
				t.Transition(1)
				d, err := o.f(file, u16)
				if !o.ok {
					if err == nil {
						t.Fail("version", "%s opens a file of the version %#x", o.name, v)
						d.Close()
					} else {
						t.Outcome("refused")
					}
					continue
				}
				if err != nil {
					t.Fail("version", "%s does not open a file of the version %#x: %v", o.name, v, err)
					continue
				}
				t.Outcome("opened")
				if d.Header.Version != v || (d.Grammar == nil) != (v == ref.FormatUser1) {
					t.Fail("version", "%s: header %+v, grammar %v", o.name, d.Header, d.Grammar != nil)
				}
				var sm *ref.Dict
				if s.sys != nil {
					sm = s.sys.model
				}
				if m := gs.Compare(s.model(), sm, d.Grammar, d.Lexicon, 30); m != "" {
					t.Fail("read", "%s: version %#x: %s", o.name, v, m)
				}
				if err := d.Close(); err != nil {
					t.Fail("close", "%s: %v", o.name, err)
				}
			}
			t.State("version", v, u16)
		},
	}
}

// countFamily goes to the limits of the counts in the format.
func countFamily(tier engine.Tier) *engine.Family {
	type c struct {
		name string
		lex  func() string
		mat  string
	}
	homographs := func(n int) c {
		return c{fmt.Sprintf("%d homographs", n), func() string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(row("a", 0, 0, i, "a", posN, fmt.Sprint(i), "n", "*", "A", "*", "*", "*"))
			}
			sb.WriteString(row("ab", 0, 0, 1, "ab", posN, "r", "n", "*", "A", "*", "*", "*"))
			return sb.String()
		}, matrix}
	}
	splits := func(n, column int) c {
		return c{fmt.Sprintf("%d units in column %d", n, column), func() string {
			sp := []string{"*", "*", "*"}
			sp[column] = strings.TrimSuffix(strings.Repeat("0/1/", n), "/")
			if n%2 == 1 {
				sp[column] = strings.TrimSuffix(strings.Repeat("0/1/", n/2)+"1", "/")
			} else {
				sp[column] = strings.TrimSuffix(strings.Repeat("1/0/", n/2), "/")
			}
			if n == 0 {
				sp[column] = "*"
			}
			return row("a", 0, 0, 1, "a", posN, "r", "n", "*", "C", sp[0], sp[1], sp[2]) + row("ab", 0, 0, 1, "ab", posN, "r", "n", "0", "A", "*", "*", "*")
		}, matrix}
	}
	poss := func(n int) c {
		return c{fmt.Sprintf("%d parts of speech", n), func() string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(row(fmt.Sprintf("w%d", i%50), 0, 0, i%1000, "w", fmt.Sprintf("p%d,%d,*,*,*,*", i/100, i%100), "w", "w", "*", "A", "*", "*", "*"))
			}
			return sb.String()
		}, matrix}
	}
	words := func(n int) c {
		return c{fmt.Sprintf("%d words", n), func() string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(row(fmt.Sprintf("%x", i*7919), i%3, i%2, i%65536-32768, fmt.Sprint(i), posN, "r", "n", fmt.Sprint((i+1)%n), "A", "*", "*", "*"))
			}
			return sb.String()
		}, matrix}
	}
	wide := c{"a matrix with more than 65536 cells", func() string {
		return row("a", 0, 0, 1, "a", posN, "r", "n", "*", "A", "*", "*", "*")
	}, ""}
	cs := []c{homographs(127), homographs(128), homographs(255), poss(127), poss(128), poss(255), poss(256), poss(300), words(300), words(70000), wide}
	for n := 0; n <= 127; n++ {
		if tier == engine.Thorough || n < 3 || n > 124 || n%16 < 2 {
			for column := 0; column < 3; column++ {
				cs = append(cs, splits(n, column))
			}
		}
	}
	if tier == engine.Thorough {
		cs = append(cs, words(200000), poss(32000))
	}
	return &engine.Family{
		Name: "counts", Bounds: "up to 255 homographs, 127 units in every list, 300 (thorough 32000) parts of speech, 70000 (200000) words, a matrix of 300x300, in both directions and both encodings",
		Size: int64(2 * len(cs)),
		Run: func(i int64, t *engine.T) {
			x := cs[i/2]
			t.Input("%s, utf16=%v", x.name, i%2 == 1)
			m := x.mat
			if m == "" {
				m = gs.Matrix(300, 300, func(x, y int) int { return (x*300+y)%65536 - 32768 })
			}
			s := source{lex: x.lex(), matrix: m, u16: i%2 == 1}
			written(t, s)
			read(t, s, s.version(), ref.Layout{Infos: 1, Lists: 1}, 40)
		},
	}
}

// farFamily: tries whose units are more than 2^21 apart.
func farFamily() *engine.Family {
	cs := [][]int{{0}, {0, 1}, {0, 1, 2, 3, 4, 5, 6}, {4, 3}}
	return &engine.Family{
		Name: "far-tries", Bounds: fmt.Sprintf("%d dictionaries whose trie has offsets of 2^21 and more, read by the library", len(cs)), Size: int64(len(cs)), Serial: true,
		Run: func(i int64, t *engine.T) {
			s := source{lex: render(sysRows, cs[i]), matrix: matrix}
			t.Input("lexicon:\n%s", s.lex)
			read(t, s, s.version(), ref.Layout{Trie: 3}, 200)
		},
	}
}

// tokenFamily tokenizes with files written by the library and by the independent encoder.
func tokenFamily(tier engine.Tier) *engine.Family {
	n := 3
	if tier == engine.Thorough {
		n = 5
	}
	alpha := []string{"a", "b", "c", "あ", "z"}
	texts := engine.NewStrings(len(alpha), n)
	users := [][]int{nil, {0, 1, 2}, {3, 5, 4}, {2, 0}}
	return &engine.Family{
		Name: "tokens", Bounds: fmt.Sprintf("all texts of 0..%d characters from %q in modes A, B and C with %d lists of user dictionaries (first and second version): the results with compiled files and with independently encoded files in %d layouts agree", n, strings.Join(alpha, ""), 1+len(users)*2, nLayouts),
		Size: nLayouts,
		Run: func(i int64, t *engine.T) {
			o := layout(int(i))
			u16 := o.UTF16
			b := getBase(u16)
			dir, err := os.MkdirTemp(scratchDir, "t")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			char := gs.WriteFile(filepath.Join(dir, "char.def"), []byte("DEFAULT 0 1 0\n0x3042 HIRAGANA\n"))
			s := source{lex: baseLex, matrix: matrix, u16: u16}
			own := gs.WriteFile(filepath.Join(dir, "own.dic"), b.bytes)
			other := gs.WriteFile(filepath.Join(dir, "other.dic"), ref.Encode(s.file(ref.FormatSystem), o))
			var lists [][][2]string // (compiled, encoded)
			lists = append(lists, nil)
			var every [][2]string
			for k, x := range users {
				us := source{lex: render(userRows, x), sys: &b, u16: u16}
				ub, err := us.build()
				if err != nil {
					t.Fail("rejected", "%v", err)
					return
				}
				uf := gs.WriteFile(filepath.Join(dir, fmt.Sprintf("own%d.dic", k)), ub)
				for _, v := range []uint64{ref.FormatUser2, ref.FormatUser1} {
					f := us.file(v)
					if f == nil {
						continue
					}
					p := [2]string{uf, gs.WriteFile(filepath.Join(dir, fmt.Sprintf("other%d-%x.dic", k, v)), ref.Encode(f, o))}
					lists = append(lists, [][2]string{p})
					every = append(every, p)
				}
			}
			lists = append(lists, every)
			for _, l := range lists {
				var tz [2]*gosudachi.JapaneseTokenizer
				var pr [2]*tk.Probe
				for k := 0; k < 2; k++ {
					sf := []string{own, other}[k]
					var uf []string
					for _, p := range l {
						uf = append(uf, p[k])
					}
					pr[k] = &tk.Probe{Lattice: true}
					d, err := tk.Open(tk.Conf{Sys: sf, CharDef: char, User: uf, UTF16: u16,
						OOV:  []gosudachi.OovProviderPlugin{tk.SimpleOOV(posO, 0, 0, 10000)},
						Path: []gosudachi.PathRewritePlugin{pr[k]}})
					if err != nil {
						t.Fail("open", "layout %+v: user dictionaries %v: %v", o, uf, err)
						return
					}
					defer d.Close()
					tz[k] = d.Create()
				}
				for x := int64(0); x < texts.Size(); x++ {
					var sb strings.Builder
					for _, c := range texts.Get(x) {
						sb.WriteString(alpha[c])
					}
					text := sb.String()
					for _, mode := range []string{"A", "B", "C"} {
						var out [2]string
						for k := range out {
							ms, err := tz[k].Tokenize(mode, text)
							if err != nil {
								t.Fail("error", "%q: %v", text, err)
								return
							}
							var sb strings.Builder
							sb.WriteString(gs.Show(gs.Morphs(ms)))
							for j := 0; j < ms.Length(); j++ {
								for _, m := range []string{"A", "B"} {
									sb.WriteString(" | " + gs.Show(gs.Morphs(ms.Get(j).Split(m))))
								}
							}
							for _, n := range pr[k].Nodes {
								fmt.Fprintf(&sb, "\n%d-%d %v %d:%#x %d,%d,%d", n.Begin, n.End, n.OOV, n.DicId, n.WordId, n.Left, n.Right, n.Cost)
							}
							out[k] = sb.String()
						}
						t.Transition(1)
						if out[0] != out[1] {
							t.Fail("tokens", "layout %+v, %d user dictionaries, mode %s, %q:\ncompiled file: %s\nencoded file:  %s", o, len(l), mode, text, out[0], out[1])
							return
						}
					}
				}
				t.Trace(1)
				t.State("tokens", i, len(l))
			}
		},
	}
}

// toolFamily runs the converter and the printer on independently encoded files.
func toolFamily() *engine.Family {
	return &engine.Family{
		Name: "tools", Bounds: fmt.Sprintf("dicconv and printdic on independently encoded files in %d layouts (system, user of both versions): the converted file decoded by the independent reader, and the same text as for the compiled file", nLayouts),
		Size: 3 * nLayouts,
		Run: func(i int64, t *engine.T) {
			o := layout(int(i / 3))
			b := getBase(o.UTF16)
			s := source{lex: baseLex, matrix: matrix, u16: o.UTF16}
			v := []uint64{ref.FormatSystem, ref.FormatUser2, ref.FormatUser1}[i%3]
			if v != ref.FormatSystem {
				s = source{lex: render(userRows, []int{0, 1, 2}), sys: &b, u16: o.UTF16}
			}
			t.Input("version %#x, layout %+v", v, o)
			dir, err := os.MkdirTemp(scratchDir, "c")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			want := s.file(v)
			in := gs.WriteFile(filepath.Join(dir, "in.dic"), ref.Encode(want, o))
			sys := gs.WriteFile(filepath.Join(dir, "sys.dic"), b.bytes)
			own, err := s.build()
			if err != nil {
				t.Fail("rejected", "%v", err)
				return
			}
			compiled := gs.WriteFile(filepath.Join(dir, "own.dic"), own)
			args := []string{"-o", "out.dic", in}
			if !o.UTF16 {
				args = append([]string{"-j"}, args...)
			}
			r := cli.Run(dir, cli.Build(scratchDir, "dicconv"), strings.NewReader(""), args...)
			t.Trace(1)
			t.Transition(1)
			if r.Code != 0 {
				t.Fail("convert", "dicconv fails: %s", r.Err)
				return
			}
			out, err := os.ReadFile(filepath.Join(dir, "out.dic"))
			if err != nil {
				t.Fail("convert", "%v", err)
				return
			}
			got, err := ref.DecodeFile(out, !o.UTF16)
			if err != nil {
				t.Fail("convert", "the converted file is not in the format: %v", err)
				return
			}
			if v == ref.FormatUser1 && got.Version == ref.FormatUser2 && len(got.POS) == 0 { // may become the second version
				got.Version = v
			}
			if d := got.Diff(want); d != "" {
				t.Fail("convert", "the converted file: %s", d)
			}
			var text [2]string
			for k, f := range []string{in, compiled} {
				var args []string
				if v != ref.FormatSystem {
					args = []string{"-s", sys}
				}
				if o.UTF16 {
					args = append(args, "-j")
				}
				r := cli.Run(dir, cli.Build(scratchDir, "printdic"), nil, append(args, f)...)
				t.Trace(1)
				if r.Code != 0 {
					t.Fail("print", "printdic fails: %s", r.Err)
					return
				}
				text[k] = r.Out
			}
			if text[0] != text[1] || len(text[0]) == 0 {
				t.Fail("print", "printdic prints\n%s\nfor the encoded file and\n%s\nfor the compiled file", text[0], text[1])
			}
			t.State("tools", i)
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	fs := rowFamilies(tier)
	return append(fs, stringsFamily(tier), matrixFamily(tier), headerFamily(tier), versionFamily(), countFamily(tier), farFamily(), tokenFamily(tier), toolFamily())
}

func main() {
	engine.Main(&engine.Check{
		ID: "C30", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct dictionary, layout and direction; a transition is one stored value that was compared; a trace is one file that was compiled or read",
		Assumptions: []string{"the established format is the one of the independent encoder and decoder in harness/ref/format.go, written from the description of the format, which share no code with the library"},
	})
}
