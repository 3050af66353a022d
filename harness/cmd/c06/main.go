// C06: UTF-8 and UTF-16 dictionaries are interchangeable; conversion is lossless.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf16"
	"unicode/utf8"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/rows"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

var matrix = gs.Matrix(3, 2, func(l, r int) int { return []int{-32768, 32767, 0, -1, 255, 256}[l*2+r] })

// work makes a directory for one case.
func work() (string, func()) {
	d, err := os.MkdirTemp(scratchDir, "w")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

// conv runs the converter on a file; u16 is the encoding of the input.
func conv(dir, in, out string, u16 bool) cli.Result {
	args := []string{"-o", out}
	if !u16 {
		args = append(args, "-j")
	}
	return cli.Run(dir, cli.Build(scratchDir, "dicconv"), strings.NewReader(""), append(args, in)...)
}

// content compares the bytes of a dictionary with its model.
func content(d, sys *ref.Dict, b []byte, u16, v1 bool) string {
	if v1 {
		return gs.Compare(d, sys, nil, gs.LoadNoGrammar(b, u16), 20)
	}
	g, l := gs.Load(b, u16)
	return gs.Compare(d, sys, g, l, 20)
}

// roundTrip converts a dictionary and converts the result back.
func roundTrip(t *engine.T, b []byte, d, sys *ref.Dict, u16, v1 bool) {
	dir, done := work()
	defer done()
	in := put(dir, "in.dic", b)
	r := conv(dir, in, "out.dic", u16)
	t.Trace(1)
	t.Transition(1)
	if r.Panicked() {
		t.Fail("crash", "conversion crashes: %s", tail(r.Err))
		return
	}
	if r.Code != 0 {
		t.Fail("refused", "conversion fails: %s", tail(r.Err))
		return
	}
	o, err := os.ReadFile(filepath.Join(dir, "out.dic"))
	if err != nil {
		panic(err)
	}
	if len(o) < dictionary.HeaderStorageSize || !bytes.Equal(o[:dictionary.HeaderStorageSize], b[:dictionary.HeaderStorageSize]) {
		t.Fail("header", "the header changes")
		return
	}
	if m := content(d, sys, o, !u16, v1); m != "" {
		t.Fail("content", "converted dictionary: %s", m)
		return
	}
	if x, err := os.ReadFile(in); err != nil || !bytes.Equal(x, b) {
		t.Fail("input", "the input file is changed")
		return
	}
	r = conv(dir, "out.dic", "back.dic", !u16)
	t.Trace(1)
	t.Transition(1)
	if r.Panicked() || r.Code != 0 {
		t.Fail("refused back", "conversion back fails: %s", tail(r.Err))
		return
	}
	back, err := os.ReadFile(filepath.Join(dir, "back.dic"))
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(back, b) {
		t.Fail("back", "conversion there and back gives another file (%d bytes, was %d, first difference at %d)", len(back), len(b), firstDiff(back, b))
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func enc(u16 bool) string {
	if u16 {
		return "UTF-16"
	}
	return "UTF-8"
}

var sysLex = gs.Word("a", 0, 1, 100, rows.N, "a", "エー", "*", "A", "*", "*", "*") +
	gs.Word("b", 1, 0, 200, rows.V, "b", "ビー", "0", "A", "*", "*", "*") +
	gs.Word("ab", 2, 1, 300, rows.E, "AB", "エービー", "*", "C", "0/1", "0/1", "0/1")

var base [2]struct {
	once sync.Once
	b    []byte
	d    *ref.Dict
}

// system gives the system dictionary for user dictionaries.
func system(u16 bool) ([]byte, *ref.Dict) {
	k := 0
	if u16 {
		k = 1
	}
	x := &base[k]
	x.once.Do(func() {
		var err error
		x.b, err = gs.Sys(sysLex, matrix, gs.Opts{UTF16: u16, Time: 1})
		if err != nil {
			panic(err)
		}
		d, v, why := ref.Compile([]string{sysLex}, matrix, nil, u16)
		if v != ref.Accept {
			panic(why)
		}
		x.d = d
	})
	return x.b, x.d
}

// build compiles a source in one encoding and checks that it loads as written.
func build(t *engine.T, lex string, user, u16 bool, o gs.Opts) (b []byte, d, sys *ref.Dict) {
	var v ref.Verdict
	var err error
	o.UTF16 = u16
	if user {
		sb, sd := system(u16)
		sys = sd
		d, v, _ = ref.Compile([]string{lex}, "", sd, u16)
		if v != ref.Accept {
			return nil, nil, nil
		}
		b, err = gs.User(lex, sb, o)
	} else {
		d, v, _ = ref.Compile([]string{lex}, matrix, nil, u16)
		if v != ref.Accept {
			return nil, nil, nil
		}
		b, err = gs.Sys(lex, matrix, o)
	}
	if err != nil {
		t.Fail("compile", "%s: the source is rejected: %v", enc(u16), err)
		return nil, nil, nil
	}
	t.Transition(1)
	if m := content(d, sys, b, u16, false); m != "" {
		t.Fail("compile", "%s: compiled dictionary: %s", enc(u16), m)
		return nil, nil, nil
	}
	return b, d, sys
}

func kind(user bool) string {
	if user {
		return "user"
	}
	return "system"
}

// variant of the dictionaries of a set
type variant struct {
	name string
	d    *gosudachi.JapaneseDictionary
}

type setFx struct {
	once sync.Once
	vs   []variant
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	tm := rows.Tmpls()

	// 1. sequences of rows
	{
		n := 3
		sp := engine.NewStrings(len(tm), n)
		fs = append(fs, &engine.Family{
			Name: "rows", Bounds: fmt.Sprintf("every sequence of 0..%d rows of %d templates (homographs, unindexed words, references, extreme numbers, long and 4-byte strings), as system and as user dictionary, compiled in each encoding, converted, converted back", n, len(tm)),
			Size: sp.Size() * 4,
			Run: func(i int64, t *engine.T) {
				user, u16 := i&1 != 0, i&2 != 0
				q := sp.Get(i / 4)
				lex := ""
				for k, x := range q {
					lex += tm[x](len(q), k)
				}
				t.Input("%s dictionary from %s, rows %v", kind(user), enc(u16), q)
				t.State(user, u16, fmt.Sprint(q))
				b, d, sys := build(t, lex, user, u16, gs.Opts{Desc: "rows", Time: 1234567890})
				if b == nil {
					t.Outcome("not a valid source")
					return
				}
				t.Outcome("converted")
				roundTrip(t, b, d, sys, u16, false)
			},
		})
	}


	// dictionaries with many words
	fs = append(fs, &engine.Family{
		Name: "many-words", Bounds: fmt.Sprintf("dictionaries of %d words with references to words of high numbers, as system and as user dictionary, both directions", gs.Far),
		Size: 4,
		Run: func(i int64, t *engine.T) {
			user, u16 := i&1 != 0, i&2 != 0
			var sb strings.Builder
			for j := 0; j < gs.Far; j++ {
				u := ""
				if user {
					u = "U"
				}
				k := gs.Far - 1 - j
				h := fmt.Sprintf("w%x", j)
				ab := fmt.Sprintf("%s%d/%s%d", u, k, u, j)
				sb.WriteString(gs.Word(h, j%2, j%2, j%60000-30000, rows.N, h, fmt.Sprint(j), fmt.Sprint(k), "C", ab, ab, u+fmt.Sprint(k)))
			}
			t.Input("%d words, user %v, UTF-16 %v", gs.Far, user, u16)
			t.State("many", i)
			b, d, sys := build(t, sb.String(), user, u16, gs.Opts{Desc: "many", Time: 1})
			if b == nil {
				t.Fail("many", "the dictionary does not compile")
				return
			}
			roundTrip(t, b, d, sys, u16, false)
		},
	})

	// 2. the first version of user dictionaries
	{
		n := 2
		if thorough {
			n = 3
		}
		sp := engine.NewStrings(len(tm), n)
		fs = append(fs, &engine.Family{
			Name: "first-version", Bounds: fmt.Sprintf("user dictionaries without a grammar of 0..%d rows that need no part of speech of their own, both directions", n),
			Size: sp.Size() * 2,
			Run: func(i int64, t *engine.T) {
				u16 := i&1 != 0
				q := sp.Get(i / 2)
				lex := ""
				for k, x := range q {
					lex += tm[x](len(q), k)
				}
				t.Input("first version, from %s, rows %v", enc(u16), q)
				t.State(u16, fmt.Sprint(q))
				b, d, sys := build(t, lex, true, u16, gs.Opts{Desc: "v1", Time: -1})
				if b == nil || len(d.POS) > 0 {
					t.Outcome("not a first version")
					return
				}
				t.Outcome("converted")
				roundTrip(t, gs.FirstVersion(b), d, sys, u16, true)
			},
		})
	}

	// 3. strings of every unit and length in every column
	{
		units := []string{"a", "é", "あ", "𠮷", "\u0000", "\ufffd", "\xff", "\xed\xa0\x80", "\xe3\x81"}
		limits := []int{0, 1, 127, 128, 255, 256, 32767}
		cols := []string{"surface", "pos1", "pos6", "reading", "norm"}
		type str struct{ s, name string }
		var all []str
		for _, u := range units {
			seen := map[string]bool{}
			w := len(utf16.Encode([]rune(u)))
			for _, l := range limits {
				for _, n := range []int{l / len(u), l/len(u) + 1, l / w, l/w + 1} {
					for _, pre := range []int{0, l % len(u)} {
						if n > 32768 {
							continue
						}
						s := strings.Repeat("b", pre) + strings.Repeat(u, n)
						if !seen[s] {
							seen[s] = true
							all = append(all, str{s, fmt.Sprintf("%d×b+%d×%q", pre, n, u)})
						}
					}
				}
			}
		}
		mix := engine.NewMix(len(all), len(cols), 2)
		fs = append(fs, &engine.Family{
			Name: "strings", Bounds: fmt.Sprintf("%d strings made of %d units (1- to 4-byte characters, NUL, invalid UTF-8) at lengths around %v in either encoding's units, in %d columns, both directions", len(all), len(units), limits, len(cols)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				s, col, u16 := all[q[0]], q[1], q[2] == 1
				t.Input("%s = %s, from %s", cols[col], s.name, enc(u16))
				t.State(s.name, col, u16)
				f := []string{"a", "0", "0", "0", "a", "1", "2", "3", "4", "5", "6", "r", "n", "*", "A", "*", "*", "*"}
				f[[]int{4, 5, 10, 11, 12}[col]] = s.s
				lex := strings.Join(f, ",") + "\n"
				if strings.ContainsAny(s.s, "\x00") {
					// raw NUL is fine in a field, but keep the source printable
					lex = strings.ReplaceAll(lex, "\x00", `\u0000`)
				}
				o := gs.Opts{Time: 5, Desc: "strings"}
				b, d, sys := build(t, lex, false, u16, o)
				if b == nil {
					t.Outcome("not a valid source")
					return
				}
				w := d.Words[0]
				fits := true
				for _, x := range []string{w.Head, w.Surface, w.POS[0], w.POS[5], w.Reading, w.Norm} {
					if u16 { // to UTF-8
						fits = fits && len(x) <= 32767
					} else {
						fits = fits && utf8.ValidString(x)
					}
				}
				if fits {
					t.Outcome("converted")
					roundTrip(t, b, d, sys, u16, false)
					return
				}
				t.Outcome("cannot be represented")
				dir, done := work()
				defer done()
				r := conv(dir, put(dir, "in.dic", b), "out.dic", u16)
				t.Trace(1)
				switch {
				case r.Panicked():
					t.Fail("crash", "conversion crashes: %s", tail(r.Err))
				case r.Code == 0:
					t.Fail("altered", "a string that %s cannot represent is accepted", enc(!u16))
				}
			},
		})
	}

	// 4. matrices
	{
		sizes := [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 1}, {7, 5}, {1, 300}, {300, 1}, {129, 130}}
		fs = append(fs, &engine.Family{
			Name: "matrices", Bounds: fmt.Sprintf("matrices of sizes %v with boundary costs, both directions", sizes),
			Size: int64(len(sizes)) * 2,
			Run: func(i int64, t *engine.T) {
				z, u16 := sizes[i/2], i&1 == 1
				t.Input("%v from %s", z, enc(u16))
				t.State(z, u16)
				c := []int{0, 1, -1, 255, 256, -256, 32767, -32768}
				m := gs.Matrix(z[0], z[1], func(l, r int) int { return c[(l*7+r)%8] })
				lex := gs.Word("a", -1, -1, 0, rows.N, "a", "r", "*", "A", "*", "*", "*")
				d, v, _ := ref.Compile([]string{lex}, m, nil, u16)
				if v != ref.Accept {
					t.Outcome("not a valid source")
					return
				}
				b, err := gs.Sys(lex, m, gs.Opts{UTF16: u16})
				if err != nil {
					t.Fail("compile", "%v", err)
					return
				}
				t.Outcome("converted")
				roundTrip(t, b, d, nil, u16, false)
			},
		})
	}

	// 5. headers
	{
		descs := []string{"", "x", "辞書", " a b ", "line\nline", "\xff\xfe", "あ" + strings.Repeat("z", 252), strings.Repeat("z", 256)}
		times := []int64{0, 1, -1, 1 << 31, -1 << 63, 1<<63 - 1}
		mix := engine.NewMix(len(descs), len(times), 3, 2)
		fs = append(fs, &engine.Family{
			Name: "headers", Bounds: fmt.Sprintf("%d descriptions of up to 256 bytes, times %v, system and user dictionaries and the first version, both directions", len(descs), times),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				u16 := q[3] == 1
				t.Input("description %q, time %d, kind %d, from %s", descs[q[0]], times[q[1]], q[2], enc(u16))
				t.State(q)
				lex := gs.Word("a", 0, 0, 0, rows.N, "a", "r", "*", "A", "*", "*", "*")
				b, d, sys := build(t, lex, q[2] > 0, u16, gs.Opts{Desc: descs[q[0]], Time: times[q[1]]})
				if b == nil {
					panic("not built")
				}
				if q[2] == 2 {
					b = gs.FirstVersion(b)
				}
				h := dictionary.ParseDictionaryHeader(b, 0)
				if h == nil || h.Description != descs[q[0]] || h.CreateTime != times[q[1]] {
					t.Fail("header", "the header reads as %+v", h)
					return
				}
				roundTrip(t, b, d, sys, u16, q[2] == 2)
			},
		})
	}

	// 6. the same tokenization with every variant of the dictionaries
	{
		sym := []string{"あ", "い", "東", "京", "都", "1", "カ", "ア", "a", "b", "ー", "𠮷", "km", "十"}
		n := 4
		if thorough {
			n = 5
		}
		sp := engine.NewStrings(len(sym), n)
		fx := make([]setFx, len(world.Sets))
		open := func(k int) []variant {
			fx[k].once.Do(func() {
				s := world.Sets[k]
				for _, from := range []bool{false, true} {
					for _, converted := range []bool{false, true} {
						sys, user := world.Dics(scratch, from)
						end := from
						if converted {
							dir, err := os.MkdirTemp(scratch, "v")
							if err != nil {
								panic(err)
							}
							for _, p := range []*string{&sys, &user} {
								o := filepath.Join(dir, filepath.Base(*p))
								if r := conv(dir, *p, o, from); r.Code != 0 {
									panic(tail(r.Err))
								}
								*p = o
							}
							end = !from
						}
						c := s.Conf(scratch)
						c.Sys, c.UTF16 = sys, end
						if len(c.User) > 0 {
							c.User = []string{user}
						}
						fx[k].vs = append(fx[k].vs, variant{fmt.Sprintf("compiled as %s, converted: %v", enc(from), converted), tk.Must(c)})
					}
				}
			})
			return fx[k].vs
		}
		fs = append(fs, &engine.Family{
			Name: "tokenization", Bounds: fmt.Sprintf("all texts of up to %d symbols over %d, %d plugin and dictionary sets, modes A, B and C, with the dictionaries compiled in either encoding and converted from the other", n, len(sym), len(world.Sets)),
			Size: sp.Size() * int64(len(world.Sets)),
			Run: func(i int64, t *engine.T) {
				k := int(i % int64(len(world.Sets)))
				text := world.Text(sp, sym, i/int64(len(world.Sets)))
				t.Input("set %s, text %q", world.Sets[k].Name, text)
				t.State(k, text)
				vs := open(k)
				for _, mode := range []string{"A", "B", "C"} {
					var first string
					for j, v := range vs {
						ms, err := v.d.Create().Tokenize(mode, text)
						t.Trace(1)
						got := "error"
						if err == nil {
							got = gs.Show(gs.Morphs(ms)) + fmt.Sprint(" cost ", ms.GetInternalCost())
						}
						if j == 0 {
							first = got
						} else if got != first {
							t.Fail("differs", "mode %s: dictionary %s gives %s; %s gives %s", mode, v.name, got, vs[0].name, first)
							return
						}
					}
				}
			},
		})
	}

	// 7. what cannot be converted
	{
		names := []string{"missing", "directory", "empty", "short", "garbage", "output is the input", "output is a link to the input", "output is a hard link to the input", "input is a link to the output"}
		fs = append(fs, &engine.Family{
			Name: "refused", Bounds: fmt.Sprintf("inputs %q, both directions", names),
			Size: int64(len(names)) * 2,
			Run: func(i int64, t *engine.T) {
				u16 := i&1 == 1
				k := int(i / 2)
				t.Input("%s, from %s", names[k], enc(u16))
				t.State(i)
				dir, done := work()
				defer done()
				b, _, _ := build(t, sysLex, false, u16, gs.Opts{})
				in, out := "in.dic", "out.dic"
				old := []byte("old content")
				put(dir, out, old)
				switch k {
				case 0:
				case 1:
					os.Mkdir(filepath.Join(dir, in), 0755)
				case 2:
					put(dir, in, nil)
				case 3:
					put(dir, in, b[:100])
				case 4:
					put(dir, in, bytes.Repeat([]byte("garbage!"), 100))
				case 5:
					put(dir, in, b)
					out = in
				case 6, 7:
					put(dir, in, b)
					os.Remove(filepath.Join(dir, out))
					l := os.Symlink
					if k == 7 {
						l = os.Link
					}
					if err := l(filepath.Join(dir, in), filepath.Join(dir, out)); err != nil {
						panic(err)
					}
				case 8:
					put(dir, out, b)
					if err := os.Symlink(filepath.Join(dir, out), filepath.Join(dir, in)); err != nil {
						panic(err)
					}
				}
				r := conv(dir, in, out, u16)
				t.Trace(1)
				if r.Panicked() {
					t.Fail("crash", "the converter crashes: %s", tail(r.Err))
					return
				}
				if k < 5 {
					if r.Code == 0 {
						t.Fail("accepted", "the converter reports success")
						return
					}
					x, err := os.ReadFile(filepath.Join(dir, out))
					if err != nil || !bytes.Equal(x, old) {
						t.Fail("output", "an input that cannot be read destroys the output file")
					}
					return
				}
				// either refused with the input intact, or converted
				x, err := os.ReadFile(filepath.Join(dir, in))
				if err != nil {
					panic(err)
				}
				if r.Code != 0 {
					if !bytes.Equal(x, b) {
						t.Fail("input", "a refused conversion destroys its input")
					}
					return
				}
				d, _, _ := ref.Compile([]string{sysLex}, matrix, nil, u16)
				if m := content(d, nil, x, !u16, false); m != "" {
					t.Fail("content", "converted in place: %s", m)
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C06", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct source, header or text in one encoding and direction; a transition is one compilation or conversion; a trace is one run of the converter, or one tokenization compared across the four variants of the dictionaries",
		Assumptions: []string{"input dictionaries are those the compilers make (and the first version of user dictionaries without a grammar)"},
	})
}
