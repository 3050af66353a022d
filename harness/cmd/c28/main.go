// C28: the commands that build dictionaries write exactly what their sources
// say, and no command changes its inputs.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

func work() (string, func()) {
	d, err := os.MkdirTemp(scratchDir, "w")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

// lexicon files
var lexFiles = []struct{ name, src string }{
	{"first", world.Row("あ", 0, 0, 100, world.N, "亜", "*", "*") + world.Row("い", 1, 1, -7, world.V, "い", "*", "*")},
	{"references by number and by name", world.Row("あい", 1, 0, 120, world.N, "愛", "0/1", "*") + strings.TrimSuffix(world.Row("いあ", 0, 1, 130, world.V, "い", `い\u002C`+strings.ReplaceAll(world.V, ",", `\u002C`)+`\u002Cヨミ/0`, "1/0"), "\n")},
	{"other parts of speech", "\n# none\n"[:0] + world.Row("う", 1, 1, 9, world.SYM, "\\u3046", "*", "*") + world.Row("う", 0, 0, 8, world.U, "宇", "*", "*") + world.Row("え", -1, -1, 8, world.U, "", "*", "*")},
	{"empty", ""},
	{"malformed", world.Row("お", 0, 0, 1, world.N, "お", "*", "*") + "か,0,0\n"},
	{"reference to a word that does not exist", world.Row("き", 0, 0, 1, world.N, "き", "9/0", "*")},
}

var matrices = []struct{ name, src string }{
	{"two by two", "2 2\n0 0 1\n0 1 -2\n1 0 300\n1 1 32767\n"},
	{"three by two, without a line end", "3 2\n\n2 1 5\n0 1 -32768"},
	{"malformed", "2 2\n0 x 1\n"},
	{"empty", ""},
}

var descriptions = []string{"", "x", "a dictionary", strings.Repeat("d", 255), strings.Repeat("d", 256), strings.Repeat("d", 257), "辞書 -d", strings.Repeat("字", 85), strings.Repeat("字", 86)}

var (
	sysOnce [2]sync.Once
	sysB    [2][]byte
	sysM    [2]*ref.Dict
)

func system(u16 bool) ([]byte, *ref.Dict) {
	k := 0
	if u16 {
		k = 1
	}
	sysOnce[k].Do(func() {
		lex := lexFiles[0].src + lexFiles[1].src + "\n" + world.Row("か", 1, 1, 5, world.SYM, "か", "*", "*")
		b, err := gs.Sys(lex, matrices[0].src, gs.Opts{UTF16: u16, Desc: "s", Time: 1})
		if err != nil {
			panic(err)
		}
		m, v, why := ref.Compile([]string{lex}, matrices[0].src, nil, u16)
		if v == ref.Reject {
			panic(why)
		}
		sysB[k], sysM[k] = b, m
	})
	return sysB[k], sysM[k]
}

func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			out[p] = string(b)
		}
		return nil
	})
	return out
}

// changed names what differs outside the output.
func changed(before, after map[string]string, out string) string {
	for p, b := range before {
		if p == out {
			continue
		}
		a, ok := after[p]
		if !ok {
			return p + " is removed"
		}
		if a != b {
			return p + " is changed"
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && p != out {
			return p + " is new"
		}
	}
	return ""
}

// outcome checks the output of a builder; want nil means that the sources are to be rejected.
func outcome(t *engine.T, what string, r cli.Result, out string, lib []byte, m, sys *ref.Dict, desc string, user, u16 bool, from, to time.Time) bool {
	if r.Panicked() {
		t.Fail("crash", "%s: crashes: %.300s", what, r.Err)
		return false
	}
	if m == nil {
		if r.Code == 0 {
			t.Fail("accepted", "%s: succeeds", what)
			return false
		}
		if strings.TrimSpace(r.Err) == "" {
			t.Fail("silent", "%s: no message", what)
			return false
		}
		if _, err := os.Stat(out); err == nil {
			d, err := dictionary.NewBinaryDictionary(out, u16)
			if err == nil {
				d.Close()
				t.Fail("left", "%s: the output can be loaded", what)
				return false
			}
		}
		t.Outcome("rejected")
		return true
	}
	if r.Code != 0 {
		t.Fail("rejected", "%s: exit status %d: %.300s", what, r.Code, r.Err)
		return false
	}
	if r.Out != "" {
		t.Fail("output", "%s: prints %.100q", what, r.Out)
		return false
	}
	b, err := os.ReadFile(out)
	if err != nil || len(b) < 272 {
		t.Fail("file", "%s: output of %d bytes, %v", what, len(b), err)
		return false
	}
	version := uint64(dictionary.SystemDictVersion)
	if user {
		version = dictionary.UserDictVersion2
	}
	if v := binary.LittleEndian.Uint64(b); v != version {
		t.Fail("version", "%s: version %x, want %x", what, v, version)
		return false
	}
	at := int64(binary.LittleEndian.Uint64(b[8:]))
	if at < from.Unix() || at > to.Unix() {
		t.Fail("time", "%s: creation time %d, built between %d and %d", what, at, from.Unix(), to.Unix())
		return false
	}
	if got := string(bytes.TrimRight(b[16:272], "\x00")); got != desc {
		t.Fail("description", "%s: description %q, want %q", what, got, desc)
		return false
	}
	if !bytes.Equal(b[272:], lib[272:]) {
		t.Fail("content", "%s: %d bytes that differ from the %d that the library writes", what, len(b), len(lib))
		return false
	}
	g, l := gs.Load(b, u16)
	if bad := gs.Compare(m, sys, g, l, 20); bad != "" {
		t.Fail("content", "%s: %s", what, bad)
		return false
	}
	t.Outcome("built")
	return true
}

// old is what the output held before: longer than whatever is written.
var old = bytes.Repeat([]byte("old\x00"), 100000)

// build runs a builder; lex are numbers of lexicon files, -1 a file that does not exist.
func build(t *engine.T, user bool, lex []int, matrix int, desc string, u16 bool) {
	for _, over := range []bool{false, true} {
		build1(t, user, lex, matrix, desc, u16, over)
	}
}

func build1(t *engine.T, user bool, lex []int, matrix int, desc string, u16, over bool) {
	dir, done := work()
	defer done()
	var paths, srcs []string
	ok := len(lex) > 0
	for k, x := range lex {
		if x < 0 {
			paths = append(paths, filepath.Join(dir, "none"))
			ok = false
			continue
		}
		paths = append(paths, put(dir, fmt.Sprintf("lex%d.csv", k), []byte(lexFiles[x].src)))
		srcs = append(srcs, lexFiles[x].src)
	}
	var args []string
	out := filepath.Join(dir, "out.dic")
	if over {
		put(dir, "out.dic", old)
	}
	name := "dicbuilder"
	mx := ""
	var sys *ref.Dict
	var sb []byte
	if user {
		name = "userdicbuilder"
		sb, sys = system(u16)
		args = append(args, "-s", put(dir, "sys.dic", sb))
	} else {
		mx = matrices[matrix].src
		args = append(args, "-m", put(dir, "matrix.def", []byte(mx)))
	}
	args = append(args, "-o", out)
	if desc != "" {
		args = append(args, "-d", desc)
	}
	if u16 {
		args = append(args, "-j")
	}
	args = append(args, paths...)
	what := fmt.Sprintf("%s, lexicons %v, matrix %d, description of %d bytes, UTF-16 %v", name, lex, matrix, len(desc), u16)
	if over {
		what += ", over an existing file"
	}
	t.Input("%s", what)
	var m *ref.Dict
	var lib []byte
	if ok && len(desc) <= 256 {
		v := ref.Reject
		m, v, _ = ref.Compile(srcs, mx, sys, u16)
		if v == ref.Reject {
			m = nil
		} else {
			o := gs.Opts{UTF16: u16, Desc: desc, Time: 1}
			var err error
			if user {
				lib, err = gs.UserFiles(srcs, sb, o)
			} else {
				lib, err = gs.SysFiles(srcs, mx, o)
			}
			if err != nil {
				t.Fail("library", "%s: the library rejects the sources: %v", what, err)
				return
			}
		}
	}
	before := snapshot(dir)
	from := time.Now()
	r := cli.Run(dir, cli.Build(scratchDir, name), nil, args...)
	to := time.Now()
	t.Trace(1)
	t.Transition(len(lex))
	if !outcome(t, what, r, out, lib, m, sys, desc, user, u16, from, to) {
		return
	}
	if c := changed(before, snapshot(dir), out); c != "" {
		t.Fail("touched", "%s: %s", what, c)
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	n := 2
	if thorough {
		n = 3
	}
	sp := engine.NewStrings(len(lexFiles)+1, n)
	lexs := func(i int64) []int {
		var out []int
		for _, k := range sp.Get(i) {
			out = append(out, int(k)-1)
		}
		return out
	}
	{
		mix := engine.NewMix(int(sp.Size()), len(matrices), 2)
		fs = append(fs, &engine.Family{
			Name: "system", Bounds: fmt.Sprintf("dicbuilder with every sequence of up to %d of %d lexicon files (valid, empty, malformed, missing), %d matrices and both encodings, to a new file and over a longer one: header, bytes and content of the output", n, len(lexFiles)+1, len(matrices)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				t.State(i)
				build(t, false, lexs(int64(q[0])), q[1], "d", q[2] == 1)
			},
		})
	}
	{
		mix := engine.NewMix(int(sp.Size()), 2)
		fs = append(fs, &engine.Family{
			Name: "user", Bounds: fmt.Sprintf("userdicbuilder with every sequence of up to %d of %d lexicon files and both encodings", n, len(lexFiles)+1),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				t.State("user", i)
				build(t, true, lexs(int64(q[0])), 0, "d", q[1] == 1)
			},
		})
	}
	{
		ns := []int{3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 33, 64, 100}
		lasts := []int{0, 2, 3, 4, 5, -1}
		mix := engine.NewMix(len(ns), len(lasts), 2, 2, 2)
		fs = append(fs, &engine.Family{
			Name: "many-files", Bounds: fmt.Sprintf("both builders and encodings with %v lexicon files, the last or the middle one each of: valid, with other parts of speech, empty, malformed, with a wrong reference, missing", ns),
			Size: mix.Size(), Chunk: 2,
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				var lex []int
				for k := 0; k < ns[q[0]]; k++ {
					lex = append(lex, []int{0, 1, 2, 0, 3, 2}[k%6])
				}
				if q[2] == 0 {
					lex[len(lex)-1] = lasts[q[1]]
				} else {
					lex[len(lex)/2] = lasts[q[1]]
				}
				t.State("many", i)
				build(t, q[3] == 1, lex, 0, "d", q[4] == 1)
			},
		})
	}
	{
		mix := engine.NewMix(len(descriptions), 2, 2)
		fs = append(fs, &engine.Family{
			Name: "descriptions", Bounds: fmt.Sprintf("%d descriptions around the limit of 256 bytes, both builders and encodings", len(descriptions)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				t.State("desc", i)
				build(t, q[1] == 1, []int{0, 1}, 0, descriptions[q[0]], q[2] == 1)
			},
		})
	}

	// arguments that are missing, or inputs that are no dictionary
	{
		type bad struct {
			name string
			bin  string
			args func(dir string) []string
		}
		lex := func(dir string) string { return put(dir, "lex.csv", []byte(lexFiles[0].src)) }
		mat := func(dir string) string { return put(dir, "matrix.def", []byte(matrices[0].src)) }
		sys := func(dir string, u16 bool) string {
			b, _ := system(u16)
			return put(dir, fmt.Sprintf("sys%v.dic", u16), b)
		}
		out := func(dir string) string { return filepath.Join(dir, "out.dic") }
		bads := []bad{
			{"no arguments", "dicbuilder", func(d string) []string { return nil }},
			{"no output", "dicbuilder", func(d string) []string { return []string{"-m", mat(d), lex(d)} }},
			{"no matrix", "dicbuilder", func(d string) []string { return []string{"-o", out(d), lex(d)} }},
			{"no lexicon", "dicbuilder", func(d string) []string { return []string{"-o", out(d), "-m", mat(d)} }},
			{"missing matrix", "dicbuilder", func(d string) []string { return []string{"-o", out(d), "-m", d + "/none", lex(d)} }},
			{"matrix is a directory", "dicbuilder", func(d string) []string { return []string{"-o", out(d), "-m", d, lex(d)} }},
			{"lexicon is a directory", "dicbuilder", func(d string) []string { return []string{"-o", out(d), "-m", mat(d), d} }},
			{"output in no directory", "dicbuilder", func(d string) []string { return []string{"-o", d + "/none/x", "-m", mat(d), lex(d)} }},
			{"unknown option", "dicbuilder", func(d string) []string { return []string{"-z", "-o", out(d), "-m", mat(d), lex(d)} }},
			{"no arguments", "userdicbuilder", func(d string) []string { return nil }},
			{"no output", "userdicbuilder", func(d string) []string { return []string{"-s", sys(d, false), lex(d)} }},
			{"no system dictionary", "userdicbuilder", func(d string) []string { return []string{"-o", out(d), lex(d)} }},
			{"no lexicon", "userdicbuilder", func(d string) []string { return []string{"-o", out(d), "-s", sys(d, false)} }},
			{"missing system dictionary", "userdicbuilder", func(d string) []string { return []string{"-o", out(d), "-s", d + "/none", lex(d)} }},
			{"the system dictionary is a lexicon", "userdicbuilder", func(d string) []string { return []string{"-o", out(d), "-s", lex(d), lex(d)} }},
			{"the system dictionary is a user dictionary", "userdicbuilder", func(d string) []string {
				b, _ := system(false)
				u, err := gs.User(lexFiles[0].src, b, gs.Opts{Time: 1})
				if err != nil {
					panic(err)
				}
				return []string{"-o", out(d), "-s", put(d, "user.dic", u), lex(d)}
			}},
			{"the system dictionary is cut", "userdicbuilder", func(d string) []string {
				b, _ := system(false)
				return []string{"-o", out(d), "-s", put(d, "cut.dic", b[:len(b)-5]), lex(d)}
			}},
			{"output in no directory", "userdicbuilder", func(d string) []string { return []string{"-o", d + "/none/x", "-s", sys(d, false), lex(d)} }},
			{"lexicon is a directory", "userdicbuilder", func(d string) []string { return []string{"-o", out(d), "-s", sys(d, false), d} }},
			{"no arguments", "dicconv", func(d string) []string { return nil }},
			{"missing input", "dicconv", func(d string) []string { return []string{"-o", out(d), d + "/none"} }},
			{"no arguments", "printdic", func(d string) []string { return nil }},
			{"missing input", "printdic", func(d string) []string { return []string{d + "/none"} }},
			{"missing system dictionary", "printdic", func(d string) []string { return []string{"-s", d + "/none", sys(d, false)} }},
			{"no arguments", "printdicheader", func(d string) []string { return nil }},
			{"missing input", "printdicheader", func(d string) []string { return []string{d + "/none"} }},
			{"input too short", "printdicheader", func(d string) []string { return []string{put(d, "short", make([]byte, 100))} }},
		}
		fs = append(fs, &engine.Family{
			Name: "arguments", Bounds: fmt.Sprintf("%d command lines without or with unusable arguments: exit status, message, no crash, no other file touched, no output that loads", len(bads)),
			Size: int64(len(bads)),
			Run: func(i int64, t *engine.T) {
				x := bads[i]
				dir, done := work()
				defer done()
				args := x.args(dir)
				what := x.bin + ", " + x.name
				t.Input("%s", what)
				t.State(what)
				t.Trace(1)
				t.Transition(1)
				before := snapshot(dir)
				r := cli.Run(dir, cli.Build(scratchDir, x.bin), nil, args...)
				if !outcome(t, what, r, out(dir), nil, nil, nil, "", false, false, time.Time{}, time.Time{}) {
					return
				}
				if c := changed(before, snapshot(dir), out(dir)); c != "" {
					t.Fail("touched", "%s: %s", what, c)
				}
			},
		})
	}

	// the output is one of the inputs
	{
		type input struct {
			bin, name string
			// files gives the inputs and the arguments, with OUT for the output
			files func(dir string) (inputs []string, args []string)
		}
		ins := []input{
			{"dicbuilder", "a lexicon or the matrix", func(d string) ([]string, []string) {
				l0, l1, m := put(d, "l0", []byte(lexFiles[0].src)), put(d, "l1", []byte(lexFiles[2].src)), put(d, "m", []byte(matrices[0].src))
				return []string{l0, l1, m}, []string{"-o", "OUT", "-m", m, l0, l1}
			}},
			{"userdicbuilder", "a lexicon or the system dictionary", func(d string) ([]string, []string) {
				b, _ := system(false)
				l0, l1, s := put(d, "l0", []byte(lexFiles[0].src)), put(d, "l1", []byte(lexFiles[2].src)), put(d, "s", b)
				return []string{l0, l1, s}, []string{"-o", "OUT", "-s", s, l0, l1}
			}},
			{"dicconv", "the dictionary", func(d string) ([]string, []string) {
				b, _ := system(false)
				s := put(d, "s", b)
				return []string{s}, []string{"-o", "OUT", "-j", s}
			}},
			{"gosudachicli", "a text or the settings", func(d string) ([]string, []string) {
				a, b := put(d, "a", []byte("あい\n")), put(d, "b", []byte("東京\n"))
				c := put(d, "conf", []byte(world.Sets[5].JSON(scratchDir)))
				return []string{a, b, c}, []string{"-o", "OUT", "-r", c, a, b}
			}},
		}
		links := []string{"the same path", "a relative path", "a hard link", "a symbolic link", "another file"}
		mix := engine.NewMix(len(ins), 3, len(links))
		fs = append(fs, &engine.Family{
			Name: "output is input", Bounds: fmt.Sprintf("the output of each command is each of its inputs, by %v: the inputs are as before, and the command fails unless the output is another file, whose old content makes no difference", links),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				x := ins[q[0]]
				dir, done := work()
				defer done()
				inputs, args := x.files(dir)
				if q[1] >= len(inputs) {
					t.Outcome("no such input")
					return
				}
				victim := inputs[q[1]]
				o := victim
				other := false
				switch q[2] {
				case 1:
					o = "./" + filepath.Base(victim)
				case 2:
					o = filepath.Join(dir, "hard")
					if err := os.Link(victim, o); err != nil {
						panic(err)
					}
				case 3:
					o = filepath.Join(dir, "soft")
					if err := os.Symlink(victim, o); err != nil {
						panic(err)
					}
				case 4:
					o = put(dir, "other", old)
					other = true
				}
				for k := range args {
					if args[k] == "OUT" {
						args[k] = o
					}
				}
				what := fmt.Sprintf("%s, the output is input %d, by %s", x.bin, q[1], links[q[2]])
				t.Input("%s", what)
				t.State(what)
				t.Trace(1)
				t.Transition(1)
				before := snapshot(dir)
				r := cli.Run(dir, cli.Build(scratchDir, x.bin), nil, args...)
				if r.Panicked() {
					t.Fail("crash", "%s: crashes: %.300s", what, r.Err)
					return
				}
				if other != (r.Code == 0) {
					t.Fail("status", "%s: exit status %d: %.200s", what, r.Code, r.Err)
					return
				}
				skip := ""
				if other {
					skip = o
				}
				if c := changed(before, snapshot(dir), skip); c != "" {
					t.Fail("touched", "%s: %s", what, c)
					return
				}
				if !other {
					return
				}
				// what was in the output before makes no difference
				fresh := filepath.Join(dir, "fresh")
				for k := range args {
					if args[k] == o {
						args[k] = fresh
					}
				}
				if r := cli.Run(dir, cli.Build(scratchDir, x.bin), nil, args...); r.Code != 0 {
					t.Fail("status", "%s: exit status %d with a new output: %.200s", what, r.Code, r.Err)
					return
				}
				a, err := os.ReadFile(o)
				if err != nil {
					panic(err)
				}
				b, err := os.ReadFile(fresh)
				if err != nil {
					panic(err)
				}
				if strings.HasSuffix(x.bin, "dicbuilder") && len(a) > 16 && len(b) > 16 {
					copy(a[8:16], b[8:16]) // the time
				}
				if !bytes.Equal(a, b) {
					t.Fail("over", "%s: %d bytes over an existing file, %d bytes to a new one", what, len(a), len(b))
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C28", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct command line with its files; a transition is one input of it; a trace is one run of a real command, whose exit status, output and files are compared with the library and with the model of the sources",
		Assumptions: []string{"inputs are the files named on the command line; files that settings refer to are not considered as outputs"},
	})
}
