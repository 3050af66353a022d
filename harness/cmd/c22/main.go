// C22: printed dictionaries and command output show what is stored.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/rows"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

var matrix = gs.Matrix(3, 2, func(l, r int) int { return []int{-32768, 32767, 0, -1, 255, 256}[l*2+r] })

func work() (string, func()) {
	d, err := os.MkdirTemp(scratchDir, "w")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

var sysLex = gs.Word("a", 0, 1, 100, rows.N, "a", "エー", "*", "A", "*", "*", "*") +
	gs.Word("b", 1, 0, 200, rows.V, "b", "ビー", "0", "A", "*", "*", "*") +
	gs.Word("ab", 2, 1, 300, rows.E, "AB", "エービー", "*", "C", "0/1", "0/1", "0/1")

var base [2]struct {
	once sync.Once
	b    []byte
	file string
	d    *ref.Dict
}

// system gives the system dictionary for user dictionaries.
func system(u16 bool) ([]byte, string, *ref.Dict) {
	k := 0
	if u16 {
		k = 1
	}
	x := &base[k]
	x.once.Do(func() {
		var err error
		x.b, err = gs.Sys(sysLex, matrix, gs.Opts{UTF16: u16, Time: 1})
		if err != nil {
			panic(err)
		}
		x.file = tk.File(scratchDir, fmt.Sprintf("base%d.dic", k), x.b)
		d, v, why := ref.Compile([]string{sysLex}, matrix, nil, u16)
		if v != ref.Accept {
			panic(why)
		}
		x.d = d
	})
	return x.b, x.file, x.d
}

// kinds of dictionaries
const (
	sysKind = iota
	userKind
	firstKind // first version of user dictionaries
)

// make compiles a source; d is nil when the source is not valid.
func build(lex string, kind int, u16 bool) (b []byte, d, sys *ref.Dict) {
	var v ref.Verdict
	var err error
	o := gs.Opts{UTF16: u16, Time: 1}
	if kind == sysKind {
		if d, v, _ = ref.Compile([]string{lex}, matrix, nil, u16); v != ref.Accept {
			return nil, nil, nil
		}
		b, err = gs.Sys(lex, matrix, o)
	} else {
		sb, _, sd := system(u16)
		if d, v, _ = ref.Compile([]string{lex}, "", sd, u16); v != ref.Accept {
			return nil, nil, nil
		}
		sys = sd
		b, err = gs.User(lex, sb, o)
		if kind == firstKind {
			if len(d.POS) > 0 {
				return nil, nil, nil
			}
			b = gs.FirstVersion(b)
		}
	}
	if err != nil {
		panic(fmt.Sprintf("%q: %v", lex, err))
	}
	return b, d, sys
}

// refs renders references the way a source gives them.
func refs(ids []int32) string {
	if len(ids) == 0 {
		return "*"
	}
	var p []string
	for _, x := range ids {
		if x>>28 != 0 {
			p = append(p, fmt.Sprintf("U%d", x&0xfffffff))
		} else {
			p = append(p, fmt.Sprint(x))
		}
	}
	return strings.Join(p, "/")
}

// listing compares a printed dictionary with the model of its source.
func listing(d *ref.Dict, out string) string {
	if len(d.Words) == 0 {
		if out != "" {
			return fmt.Sprintf("an empty dictionary prints %q", out)
		}
		return ""
	}
	if !strings.HasSuffix(out, "\n") {
		return "the last row is not ended"
	}
	ls := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(ls) != len(d.Words) {
		return fmt.Sprintf("%d rows for %d words", len(ls), len(d.Words))
	}
	for i, l := range ls {
		w := d.Words[i]
		c := strings.Split(strings.TrimSuffix(l, "\r"), ",")
		if len(c) != 18 {
			return fmt.Sprintf("row %d has %d columns: %s", i, len(c), clip(l))
		}
		for k := range c {
			c[k] = ref.Decode(c[k])
		}
		df := "*"
		if w.DicForm >= 0 {
			df = fmt.Sprint(w.DicForm)
		}
		want := []string{w.Surface, fmt.Sprint(w.Left), fmt.Sprint(w.Right), fmt.Sprint(w.Cost), w.Surface,
			w.POS[0], w.POS[1], w.POS[2], w.POS[3], w.POS[4], w.POS[5], w.Reading, w.Norm, df, c[14], refs(w.A), refs(w.B), refs(w.WS)}
		for k := range want {
			if c[k] != want[k] {
				return fmt.Sprintf("row %d, column %d is %s, want %s", i, k, clip(c[k]), clip(want[k]))
			}
		}
		if c[14] != "A" && c[14] != "B" && c[14] != "C" {
			return fmt.Sprintf("row %d has unit type %q", i, c[14])
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%q...(%d bytes)", s[:100], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// again compiles a listing and compares the dictionary with the model.
func again(d, sys *ref.Dict, out string, kind int, u16 bool) string {
	var b []byte
	var err error
	o := gs.Opts{UTF16: u16}
	if kind == sysKind {
		b, err = gs.Sys(out, matrix, o)
	} else {
		sb, _, _ := system(u16)
		b, err = gs.User(out, sb, o)
	}
	if err != nil {
		return fmt.Sprintf("the listing does not compile: %v", err)
	}
	g, l := gs.Load(b, u16)
	if m := gs.Compare(d, sys, g, l, 20); m != "" {
		return "the listing compiles to something else: " + m
	}
	return ""
}

// checkPrint prints a dictionary and compiles the listing.
func checkPrint(t *engine.T, lex string, kind int, u16 bool, command bool) {
	b, d, sys := build(lex, kind, u16)
	if d == nil {
		t.Outcome("not a valid source")
		return
	}
	dir, done := work()
	defer done()
	file := put(dir, "d.dic", b)
	var out string
	sysFile := ""
	if kind != sysKind {
		_, sysFile, _ = system(u16)
	}
	t.Trace(1)
	if command {
		var args []string
		if sysFile != "" {
			args = append(args, "-s", sysFile)
		}
		if u16 {
			args = append(args, "-j")
		}
		r := cli.Run(dir, cli.Build(scratchDir, "printdic"), nil, append(args, file)...)
		if r.Panicked() || r.Code != 0 {
			t.Fail("command", "printdic fails: %s", clip(r.Err))
			return
		}
		out = r.Out
	} else {
		var sd *dictionary.BinaryDictionary
		if sysFile != "" {
			var err error
			if sd, err = dictionary.ReadSystemDictionary(sysFile, u16); err != nil {
				panic(err)
			}
			defer sd.Close()
		}
		var w bytes.Buffer
		if err := dictionary.PrintDictionary(file, u16, sd, &w); err != nil {
			t.Fail("print", "printing fails: %v", err)
			return
		}
		out = w.String()
	}
	t.Transition(len(d.Words))
	if m := listing(d, out); m != "" {
		t.Fail("listing", "%s", m)
		return
	}
	for _, w := range d.Words {
		if w.Head != w.Surface {
			t.Outcome("printed")
			return
		}
	}
	t.Outcome("printed and compiled again")
	t.Trace(1)
	if m := again(d, sys, out, kind, u16); m != "" {
		t.Fail("again", "%s\n%s", m, clip(out))
	}
}

// special are rows whose columns need care in a listing.
func special() []rows.Tmpl {
	var out []rows.Tmpl
	for _, v := range []string{`x\u002Cy`, `\u000A`, `x\u000D`, `\u000D\u000A`, `\u005Cu0041`, `\u005C`, `x\u005C`, `\u005Cu`, `\u005Cu{41}`, `"`, `"x"`, `#x`, ` x `, "\t", "*", "0", "U0", `\u0001`, "\u2028", "\ufeff", `\u005C\u005Cu002C`, "/"} {
		v := v
		for k := 0; k < 5; k++ {
			k := k
			out = append(out, func(n, self int) string {
				f := []string{"a", "0", "0", "0", "a", "1", "2", "3", "4", "5", "6", "r", "n", "*", "*", "*", "*", "*"}
				switch k {
				case 0:
					f[0], f[4] = v, v
				case 1:
					f[5] = v
				case 2:
					f[10] = v
				case 3:
					f[11] = v
				case 4:
					f[12] = v
				}
				return strings.Join(f, ",") + "\n"
			})
		}
	}
	return out
}

// asWritten makes the headword of a row its written form.
func asWritten(row string) string {
	f := strings.Split(row, ",")
	if f[4] != "" {
		f[0] = f[4]
	}
	return strings.Join(f, ",")
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	tm := rows.Tmpls()
	kn := []string{"system", "user", "first version"}

	// 1. sequences of rows
	{
		n := 3
		sp := engine.NewStrings(len(tm), n)
		fs = append(fs, &engine.Family{
			Name: "rows", Bounds: fmt.Sprintf("every sequence of 0..%d rows of %d templates, with headwords of their own and with headwords as written, as system and user dictionary and as first version, in both encodings; printed, compared with the source, compiled again and compared with the source", n, len(tm)),
			Size: sp.Size() * 12,
			Run: func(i int64, t *engine.T) {
				q := sp.Get(i / 12)
				kind, u16, same := int(i%3), i/3%2 == 1, i/6%2 == 1
				lex := ""
				for k, x := range q {
					r := tm[x](len(q), k)
					if same {
						r = asWritten(r)
					}
					lex += r
				}
				t.Input("%s, UTF-16 %v, headwords as written %v, rows %v", kn[kind], u16, same, q)
				t.State(i)
				checkPrint(t, lex, kind, u16, false)
			},
		})
	}

	// dictionaries with many words
	fs = append(fs, &engine.Family{
		Name: "many-words", Bounds: fmt.Sprintf("dictionaries of %d words with references to words of high numbers, as system and as user dictionary, both encodings; printed, compared with the source, compiled again", gs.Far),
		Size: 4,
		Run: func(i int64, t *engine.T) {
			user, u16 := i&1 != 0, i&2 != 0
			var sb strings.Builder
			for j := 0; j < gs.Far; j++ {
				u := ""
				if user {
					u = "U"
				}
				k := gs.Far - 1 - j
				h := fmt.Sprintf("w%x", j)
				ab := fmt.Sprintf("%s%d/%s%d", u, k, u, j)
				sb.WriteString(gs.Word(h, j%2, j%2, j%60000-30000, rows.N, h, fmt.Sprint(j), fmt.Sprint(k), "C", ab, ab, u+fmt.Sprint(k)))
			}
			t.Input("%d words, user %v, UTF-16 %v", gs.Far, user, u16)
			t.State("many", i)
			kind := sysKind
			if user {
				kind = userKind
			}
			checkPrint(t, sb.String(), kind, u16, false)
		},
	})

	// many units, many parts of speech, long columns
	{
		us := []int{2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127}
		ps := []int{2, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 20000}
		cs := []int{60, 63, 64, 126, 127, 128, 129, 250, 255, 256, 257, 1000, 4095, 4096, 4097, 10000}
		chars := []string{",", `\u002C`, "\\u", "あ,", `"`, `\u000A`}
		mix := engine.NewMix(len(us)+len(ps)+len(cs)*len(chars), 2, 2)
		fs = append(fs, &engine.Family{
			Name: "large", Bounds: fmt.Sprintf("%v units in the split columns and the structure column, %v parts of speech, readings and normalised forms of %v times each of %q; system and user dictionary, both encodings", us, ps, cs, chars),
			Size: mix.Size(), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				kind := []int{sysKind, userKind}[q[1]]
				u := []string{"", "U"}[q[1]]
				lex := gs.Word("a", 0, 1, 100, rows.N, "a", "エー", "*", "A", "*", "*", "*") + gs.Word("b", 0, 1, 100, rows.N, "b", "ビー", "*", "A", "*", "*", "*")
				k := q[0]
				switch {
				case k < len(us):
					var ids []string
					head := ""
					for j := 0; j < us[k]; j++ {
						ids = append(ids, u+fmt.Sprint(j/3%2))
						head += string("ab"[j/3%2])
					}
					s := strings.Join(ids, "/")
					lex += gs.Word(head, 0, 1, 100, rows.N, head, head, "*", "C", s, s, s)
					lex += gs.Word(head, 0, 1, 100, rows.N, head, "x", "*", "B", s, "*", s)
					t.Input("%d units, %s, UTF-16 %v", us[k], kn[kind], q[2] == 1)
				case k < len(us)+len(ps):
					n := ps[k-len(us)]
					for j := 0; j < n; j++ {
						lex += gs.Word(fmt.Sprintf("c%d", j), 0, 1, j%1000, fmt.Sprintf("p%d,%d,*,*,*,*", j, j%7), fmt.Sprintf("c%d", j), "c", "*", "A", "*", "*", "*")
					}
					t.Input("%d parts of speech, %s, UTF-16 %v", n, kn[kind], q[2] == 1)
				default:
					k -= len(us) + len(ps)
					n, c := cs[k%len(cs)], chars[k/len(cs)]
					s := strings.Repeat(c, n)
					if c == "," || c == "あ," {
						s = strings.ReplaceAll(s, ",", `\u002C`)
					}
					if c == "\\u" {
						s = strings.Repeat(`\u005Cu`, n)
					}
					if strings.Contains(c, `"`) {
						s = "x" + s
					}
					lex += gs.Word("c", 0, 1, 5, rows.N, "c", s, "*", "A", "*", "*", "*")
					lex += gs.Word("d", 0, 1, 5, rows.N, s, "r", "*", "A", "*", "*", "*")
					t.Input("%d times %q, %s, UTF-16 %v", n, c, kn[kind], q[2] == 1)
				}
				t.State(i)
				checkPrint(t, lex, kind, q[2] == 1, false)
			},
		})
	}

	// 2. characters that mean something in a listing
	{
		sp := special()
		fs = append(fs, &engine.Family{
			Name: "special", Bounds: fmt.Sprintf("%d rows whose written form, part of speech, reading or normalised form has commas, line ends, escapes, quotes and the like, alone, before and after a plain row, all kinds and encodings, through the function and the command", len(sp)),
			Size: int64(len(sp)) * 36,
			Run: func(i int64, t *engine.T) {
				kind, u16, place, command := int(i%3), i/3%2 == 1, i/6%3, i/18%2 == 1
				row := sp[i/36](1, 0)
				plain := gs.Word("b", 0, 0, 0, rows.N, "b", "b", "*", "A", "*", "*", "*")
				lex := row
				switch place {
				case 1:
					lex = row + plain
				case 2:
					lex = plain + row
				}
				t.Input("%s, UTF-16 %v, command %v, %q", kn[kind], u16, command, lex)
				t.State(i)
				checkPrint(t, lex, kind, u16, command)
			},
		})
	}

	// 3. every combination of splits and unit types
	{
		vals := []string{"*", "0", "1", "U1", "0/1", "1/U0/1", "U0", `a\u002C名詞\u002C普通名詞\u002C一般\u002C*\u002C*\u002C*\u002Cエー`}
		mix := engine.NewMix(len(vals), len(vals), len(vals), 3, 2, 2)
		fs = append(fs, &engine.Family{
			Name: "splits", Bounds: fmt.Sprintf("every combination of %d values in the two split columns and the structure column, with and without a dictionary form, all kinds and encodings", len(vals)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				df := []string{"*", "1"}[q[4]]
				lex := gs.Word("a", 0, 1, 100, rows.N, "a", "エー", "*", "A", "*", "*", "*") +
					gs.Word("aa", 0, 1, 100, rows.N, "aa", "エーエー", df, "C", vals[q[0]], vals[q[1]], vals[q[2]])
				u16 := q[5] == 1
				t.Input("%s, UTF-16 %v, %q", kn[q[3]], u16, lex)
				t.State(i)
				checkPrint(t, lex, q[3], u16, false)
			},
		})
	}

	// 4. one system dictionary for printing several dictionaries
	{
		lexs := []string{
			gs.Word("a", 0, 0, 1, rows.N, "a", "r", "*", "A", "*", "*", "*"),
			gs.Word("a", 0, 0, 1, "甲,*,*,*,*,*", "a", "r", "*", "A", "*", "*", "*"),
			gs.Word("a", 0, 0, 1, "乙,*,*,*,*,*", "a", "r", "*", "A", "*", "*", "*") + gs.Word("b", 0, 0, 1, "丙,*,*,*,*,*", "a", "r", "*", "A", "*", "*", "*"),
			"",
		}
		n := 3
		if thorough {
			n = 5
		}
		sp := engine.NewStrings(len(lexs)+1, n)
		fs = append(fs, &engine.Family{
			Name: "shared-system", Bounds: fmt.Sprintf("every sequence of up to %d printings of %d dictionaries with one opened system dictionary, both encodings", n, len(lexs)+1),
			Size: sp.Size() * 2,
			Run: func(i int64, t *engine.T) {
				u16 := i%2 == 1
				q := sp.Get(i / 2)
				t.Input("UTF-16 %v, sequence %v", u16, q)
				t.State(i)
				_, sysFile, sd := system(u16)
				s, err := dictionary.ReadSystemDictionary(sysFile, u16)
				if err != nil {
					panic(err)
				}
				defer s.Close()
				dir, done := work()
				defer done()
				t.Trace(1)
				for k, x := range q {
					d, file := sd, sysFile
					if x < len(lexs) {
						var b []byte
						b, d, _ = build(lexs[x], userKind, u16)
						file = put(dir, fmt.Sprint(k), b)
					}
					var w bytes.Buffer
					if err := dictionary.PrintDictionary(file, u16, s, &w); err != nil {
						t.Fail("print", "printing %d fails: %v", k, err)
						return
					}
					t.Transition(1)
					if m := listing(d, w.String()); m != "" {
						t.Fail("shared", "printing %d: %s", k, m)
						return
					}
				}
				if n := s.Grammar.GetPartOfSpeechSize(); n != len(sd.POS) {
					t.Fail("mutated", "the system dictionary has %d parts of speech after printing, had %d", n, len(sd.POS))
				}
			},
		})
	}

	// 5. what cannot be printed
	{
		names := []string{"user dictionary without the system dictionary", "user dictionary as the system dictionary", "missing file", "text file", "system dictionary of the other encoding is not a user dictionary"}
		fs = append(fs, &engine.Family{
			Name: "refused", Bounds: fmt.Sprintf("%q, through the command", names[:4]),
			Size: 4,
			Run: func(i int64, t *engine.T) {
				t.Input("%s", names[i])
				t.State(i)
				dir, done := work()
				defer done()
				b, _, _ := build(gs.Word("a", 0, 0, 1, "甲,*,*,*,*,*", "a", "r", "*", "A", "*", "*", "*"), userKind, false)
				file := put(dir, "u.dic", b)
				var args []string
				switch i {
				case 0:
					args = []string{file}
				case 1:
					args = []string{"-s", file, file}
				case 2:
					args = []string{filepath.Join(dir, "none")}
				case 3:
					args = []string{put(dir, "t.dic", bytes.Repeat([]byte("text "), 200))}
				}
				r := cli.Run(dir, cli.Build(scratch, "printdic"), nil, args...)
				t.Trace(1)
				if r.Panicked() || r.Code == 0 || r.Err == "" {
					t.Fail("refused", "exit status %d, %s", r.Code, clip(r.Err))
				}
			},
		})
	}

	// 6. headers
	{
		descs := []string{"", "x", "辞書 1", " a ", "\xff", strings.Repeat("z", 256)}
		times := []int64{0, 1, 1234567890, 4102444800, -1, 253402300799}
		mix := engine.NewMix(len(descs), len(times), 4)
		fs = append(fs, &engine.Family{
			Name: "headers", Bounds: fmt.Sprintf("%d descriptions, times %v, system and user dictionaries, the first version and an unknown version, through printdicheader", len(descs), times),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				t.Input("description %q, time %d, kind %d", descs[q[0]], times[q[1]], q[2])
				t.State(i)
				ver := []uint64{dictionary.SystemDictVersion, dictionary.UserDictVersion2, dictionary.UserDictVersion, 12345}[q[2]]
				b, err := dictionary.NewDictionaryHeader(ver, times[q[1]], descs[q[0]]).ToBytes()
				if err != nil {
					t.Fail("header", "%v", err)
					return
				}
				dir, done := work()
				defer done()
				file := put(dir, "h.dic", append(b, make([]byte, 100)...))
				r := cli.Run(dir, cli.Build(scratch, "printdicheader"), nil, file)
				t.Trace(1)
				if r.Panicked() {
					t.Fail("crash", "%s", clip(r.Err))
					return
				}
				if q[2] == 3 {
					if r.Code == 0 {
						t.Fail("version", "an unknown version is accepted")
					}
					return
				}
				if r.Code != 0 {
					t.Fail("refused", "%s", clip(r.Err))
					return
				}
				typ := []string{"system", "user", "user"}[q[2]]
				when := time.Unix(times[q[1]], 0).Format(time.RFC3339)
				for _, want := range []string{"filename: " + file + "\n", "type: " + typ + " dictionary\n", "createTime: " + when, "description: " + descs[q[0]] + "\n"} {
					if !strings.Contains(r.Out, want) {
						t.Fail("header", "%s lacks %s", clip(r.Out), clip(want))
						return
					}
				}
			},
		})
	}

	// 7. output of the tokenizer command
	{
		sym := []string{"あ", "い", "東", "京", "都", "1", "カ", "ア", "Ａ", "b", "ー", "𠮷", "え", " "}
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(sym), n)
		const per = 400
		batches := (sp.Size() + per - 1) / per
		mix := engine.NewMix(int(batches), len(world.Sets), 4, 2, 3)
		type open struct {
			once sync.Once
			d    *gosudachi.JapaneseDictionary
			conf string
		}
		fx := make([]open, len(world.Sets))
		fs = append(fs, &engine.Family{
			Name: "command", Bounds: fmt.Sprintf("all texts of up to %d symbols over %d as lines of the input, %d plugin and dictionary sets, modes A, B, C and the default, with and without all fields, from the standard input, from a file and from two files into an output file", n, len(sym), len(world.Sets)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				x := &fx[q[1]]
				s := world.Sets[q[1]]
				x.once.Do(func() {
					x.d = s.Open(scratch)
					x.conf = tk.File(scratch, "conf-"+s.Name+".json", []byte(s.JSON(scratch)))
				})
				mode := []string{"A", "B", "C", ""}[q[2]]
				all := q[3] == 1
				way := q[4]
				t.Input("batch %d of texts, set %s, mode %q, all fields %v, way %d", q[0], s.Name, mode, all, way)
				t.State(i)
				tz := x.d.Create()
				var in []string
				var want strings.Builder
				for k := int64(q[0]) * per; k < int64(q[0]+1)*per && k < sp.Size(); k++ {
					text := world.Text(sp, sym, k)
					m := mode
					if m == "" {
						m = "C"
					}
					ms, err := tz.Tokenize(m, text)
					if err != nil {
						continue // not part of the input
					}
					in = append(in, text+"\n")
					for _, o := range gs.Morphs(ms) {
						fmt.Fprintf(&want, "%s\t%s\t%s", o.Surface, o.POS, o.Norm)
						if all {
							fmt.Fprintf(&want, "\t%s\t%s\t%d", o.Dict, o.Read, o.DicId)
							if o.OOV {
								want.WriteString("\t(OOV)")
							}
						}
						want.WriteString("\n")
					}
					want.WriteString("EOS\n")
					t.Transition(1)
				}
				dir, done := work()
				defer done()
				args := []string{"-r", x.conf}
				if mode != "" {
					args = append(args, "-m", mode)
				}
				if all {
					args = append(args, "-a")
				}
				if s.UTF16 {
					args = append(args, "-j")
				}
				stdin := ""
				half := len(in) / 2
				switch way {
				case 0:
					stdin = strings.Join(in, "")
				case 1:
					args = append(args, put(dir, "in", []byte(strings.Join(in, ""))))
				case 2:
					args = append(args, "-o", "out", put(dir, "in1", []byte(strings.Join(in[:half], ""))), put(dir, "in2", []byte(strings.Join(in[half:], ""))))
				}
				r := cli.Run(dir, cli.Build(scratch, "gosudachicli"), strings.NewReader(stdin), args...)
				t.Trace(1)
				if r.Panicked() || r.Code != 0 {
					t.Fail("command", "exit status %d: %s", r.Code, clip(r.Err))
					return
				}
				out := r.Out
				if way == 2 {
					b, err := os.ReadFile(filepath.Join(dir, "out"))
					if err != nil {
						panic(err)
					}
					if out != "" {
						t.Fail("command", "output to a file and to the standard output")
						return
					}
					out = string(b)
				}
				if out != want.String() {
					t.Fail("output", "%s", diff(out, want.String()))
				}
			},
		})
	}

	// 8. the debug output
	{
		sym := []string{"あ", "い", "東", "京", "1", "ア", "Ａ", "え", "𠮷い"}
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(sym), n)
		prev := []string{"", "あ", "東京都あい12カナ"}
		mix := engine.NewMix(int(sp.Size()), len(world.Sets), len(prev))
		type open struct {
			once sync.Once
			d    *gosudachi.JapaneseDictionary
		}
		fx := make([]open, len(world.Sets))
		fs = append(fs, &engine.Family{
			Name: "debug", Bounds: fmt.Sprintf("all texts of up to %d symbols over %d with debug output after one of %d other texts, %d sets, modes A, B, C: same result as without, and the dump describes this text", n, len(sym), len(prev), len(world.Sets)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				x := &fx[q[1]]
				x.once.Do(func() { x.d = world.Sets[q[1]].Open(scratch) })
				text := world.Text(sp, sym, int64(q[0]))
				t.Input("set %s, text %q after %q", world.Sets[q[1]].Name, text, prev[q[2]])
				t.State(i)
				for _, mode := range []string{"A", "B", "C"} {
					a, aerr := x.d.Create().Tokenize(mode, text)
					tz := x.d.Create()
					var w bytes.Buffer
					tz.DumpOutput = &w
					_, _ = tz.Tokenize(mode, prev[q[2]])
					w.Reset()
					b, berr := tz.Tokenize(mode, text)
					t.Trace(1)
					t.Transition(1)
					if (aerr == nil) != (berr == nil) {
						t.Fail("debug", "mode %s: error %v, with debug output %v", mode, aerr, berr)
						return
					}
					if aerr != nil {
						t.Outcome("no path")
						continue
					}
					if !gs.Equal(gs.Morphs(a), gs.Morphs(b)) {
						t.Fail("debug", "mode %s: %s, with debug output %s", mode, gs.Show(gs.Morphs(a)), gs.Show(gs.Morphs(b)))
						return
					}
					if text == "" {
						continue
					}
					if m := checkDump(w.String(), b.Length()); m != "" {
						t.Fail("dump", "mode %s: %s", mode, m)
						return
					}
				}
			},
		})
	}

	// 9. a text that cannot be tokenized
	{
		fs = append(fs, &engine.Family{
			Name: "command-errors", Bounds: "an input whose second of three lines has no reading, with and without -f, on the standard output and in a file",
			Size: 8,
			Run: func(i int64, t *engine.T) {
				ignore, file, all := i&1 != 0, i&2 != 0, i&4 != 0
				t.Input("-f %v, -o %v, -a %v", ignore, file, all)
				t.State(i)
				dir, done := work()
				defer done()
				s := world.Set{Name: "x"}
				// the only provider is the first, which cannot begin inside a run of letters
				conf := put(dir, "c.json", []byte(s.JSON(scratch)))
				d := s.Open(scratch)
				tz := d.Create()
				var texts []string
				var want []string
				var bad int = -1
				for _, text := range []string{"あい", "ccc", "い"} {
					ms, err := tz.Tokenize("C", text)
					texts = append(texts, text+"\n")
					if err != nil {
						bad = len(want)
						want = append(want, "")
						continue
					}
					o := ""
					for _, m := range gs.Morphs(ms) {
						o += m.Surface + "\t" + m.POS + "\t" + m.Norm
						if all {
							o += fmt.Sprintf("\t%s\t%s\t%d", m.Dict, m.Read, m.DicId)
							if m.OOV {
								o += "\t(OOV)"
							}
						}
						o += "\n"
					}
					want = append(want, o+"EOS\n")
				}
				if bad != 1 {
					t.Outcome("no error")
				} else {
					t.Outcome("error")
				}
				args := []string{"-r", conf}
				if ignore {
					args = append(args, "-f")
				}
				if all {
					args = append(args, "-a")
				}
				if file {
					args = append(args, "-o", "out")
				}
				r := cli.Run(dir, cli.Build(scratch, "gosudachicli"), strings.NewReader(strings.Join(texts, "")), args...)
				t.Trace(1)
				out := r.Out
				if file {
					b, err := os.ReadFile(filepath.Join(dir, "out"))
					if err != nil && !errors.Is(err, os.ErrNotExist) {
						panic(err)
					}
					out = string(b)
				}
				exp := strings.Join(want, "")
				if bad >= 0 && !ignore {
					exp = strings.Join(want[:bad], "")
				}
				if r.Panicked() || (r.Code == 0) != (bad < 0 || ignore) || bad >= 0 && r.Err == "" {
					t.Fail("status", "exit status %d: %s", r.Code, clip(r.Err))
					return
				}
				if out != exp {
					t.Fail("output", "%s", diff(out, exp))
				}
			},
		})
	}
	return fs
}

// checkDump checks the debug output of one call.
func checkDump(out string, n int) string {
	sec := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if strings.HasPrefix(l, "===") {
			cur = strings.TrimSpace(strings.TrimPrefix(l, "==="))
			continue
		}
		sec[cur] = append(sec[cur], l)
	}
	if len(sec["Input dump"]) != 1 {
		return fmt.Sprintf("input dump %q", sec["Input dump"])
	}
	size := len(sec["Input dump"][0])
	if k := len(sec["After rewriting:"]); k != n {
		return fmt.Sprintf("%d words after rewriting, result has %d", k, n)
	}
	end := 0
	for _, l := range sec["Lattice dump"] {
		var k, b, e int
		if _, err := fmt.Sscanf(l, "%d: %d %d", &k, &b, &e); err != nil {
			return fmt.Sprintf("lattice line %q", l)
		}
		if b < 0 || e > size || b > e {
			return fmt.Sprintf("the lattice of a text of %d bytes has a word at %d..%d", size, b, e)
		}
		if e > end {
			end = e
		}
	}
	if end != size {
		return fmt.Sprintf("the lattice of a text of %d bytes ends at %d", size, end)
	}
	return ""
}

func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("the output ends before line %d: %s", i, clip(w[i]))
		}
		if g[i] != w[i] {
			return fmt.Sprintf("line %d is %s, want %s", i, clip(g[i]), clip(w[i]))
		}
	}
	return fmt.Sprintf("%d lines too many", len(g)-len(w))
}

func main() {
	engine.Main(&engine.Check{
		ID: "C22", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct source, sequence of printings or batch of input lines; a transition is one printed row or tokenized line compared with what is stored; a trace is one listing printed, one listing compiled again or one run of a command",
		Assumptions: []string{"a dictionary stores the written form of a word, not its headword, so the first column of a listing repeats the written form; the listing of words whose headword is another string is printed but not compiled again"},
	})
}
