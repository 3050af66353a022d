// C20: lines are read identically however the input arrives in pieces.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
	"golang.org/x/sys/unix"
)

var scratchDir string

func work() (string, func()) {
	d, err := os.MkdirTemp(scratchDir, "w")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

// feed runs a command and gives it the chunks on its standard input; every
// chunk is written only after the command has read the ones before.
func feed(bin string, chunks [][]byte, args ...string) cli.Result {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = r
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	if err := c.Start(); err != nil {
		panic(err)
	}
	r.Close()
	fd := int(w.Fd())
	dead := make(chan error, 1)
	go func() { dead <- c.Wait() }()
	var werr error
	ended := false
L:
	for _, x := range chunks {
		if _, err := w.Write(x); err != nil {
			break
		}
		for k := 0; ; k++ {
			n, err := unix.IoctlGetInt(fd, 0x541b)
			if err != nil {
				panic(err)
			}
			if n == 0 {
				break
			}
			select {
			case werr = <-dead:
				ended = true
				break L
			default:
			}
			if k > 20 {
				time.Sleep(time.Duration(k) * time.Microsecond)
			}
		}
	}
	w.Close()
	if !ended {
		werr = <-dead
	}
	res := cli.Result{Out: out.String(), Err: errb.String(), TimedOut: ctx.Err() != nil}
	if werr != nil {
		res.Code = -1
		if x, ok := werr.(*exec.ExitError); ok {
			res.Code = x.ExitCode()
		}
	}
	return res
}

// lines are the lines of an input: CR, LF and CRLF end a line.
func lines(s string) []string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// fixture of the command
var fx struct {
	once sync.Once
	conf string
	d    *gosudachi.JapaneseDictionary
	mu   sync.Mutex
	memo map[string]string
}

const charDef = "DEFAULT 0 1 0\nALPHA 1 1 0\n0x3041..0x309F HIRAGANA\n0x0062..0x007A ALPHA\n"

func setup() {
	fx.once.Do(func() {
		lex := gs.Word("a", 0, 0, 10, world.N, "a", "r", "*", "A", "*", "*", "*") +
			gs.Word("é", 0, 0, 10, world.V, "e", "r", "*", "A", "*", "*", "*")
		b, err := gs.Sys(lex, "1 1\n0 0 0\n", gs.Opts{})
		if err != nil {
			panic(err)
		}
		sys := tk.File(scratchDir, "sys.dic", b)
		cd := tk.File(scratchDir, "char.def", []byte(charDef))
		unk := tk.File(scratchDir, "unk.def", []byte("ALPHA,0,0,50,"+world.N+"\n"))
		fx.d = tk.Must(tk.Conf{Sys: sys, CharDef: cd, OOV: []gosudachi.OovProviderPlugin{tk.MeCabOOV(cd, unk), tk.SimpleOOV(world.N, 0, 0, 100)}})
		pos := `["` + strings.ReplaceAll(world.N, ",", `","`) + `"]`
		fx.conf = tk.File(scratchDir, "conf.json", []byte(fmt.Sprintf(`{"systemDict":%q,"characterDefinitionFile":%q,"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":%q,"unkDef":%q},{"name":"SimpleOovProviderPlugin","oovPOS":%s,"leftId":0,"rightId":0,"cost":100}]}`, sys, cd, cd, unk, pos)))
		fx.memo = map[string]string{}
	})
}

// block is the output of the command for a line.
func block(line string) string {
	fx.mu.Lock()
	s, ok := fx.memo[line]
	fx.mu.Unlock()
	if ok {
		return s
	}
	ms, err := fx.d.Create().Tokenize("C", line)
	if err != nil {
		panic(fmt.Sprintf("%q: %v", line, err))
	}
	var b strings.Builder
	for _, m := range gs.Morphs(ms) {
		fmt.Fprintf(&b, "%s\t%s\t%s\n", m.Surface, m.POS, m.Norm)
	}
	b.WriteString("EOS\n")
	fx.mu.Lock()
	if len(line) < 100 {
		fx.memo[line] = b.String()
	}
	fx.mu.Unlock()
	return b.String()
}

func expect(stream string) string {
	var b strings.Builder
	for _, l := range lines(stream) {
		b.WriteString(block(l))
	}
	return b.String()
}

// surfaces renders the lines that an output shows.
func surfaces(out string) []string {
	var ls []string
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if l == "EOS" {
			ls = append(ls, cur)
			cur = ""
		} else {
			cur += strings.SplitN(l, "\t", 2)[0]
		}
	}
	if cur != "" {
		ls = append(ls, cur+" (not ended)")
	}
	return ls
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%.300q...(%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

// checkOut compares the output of the command with what the input asks for.
func checkOut(t *engine.T, r cli.Result, want string, in string) bool {
	if r.Panicked() || r.Code != 0 {
		t.Fail("command", "input %s: exit status %d: %s", in, r.Code, clip(r.Err))
		return false
	}
	if r.Out != want {
		g, w := surfaces(r.Out), surfaces(want)
		for i := range w {
			if i >= len(g) {
				t.Fail("lines", "input %s: %d lines, want %d", in, len(g), len(w))
				return false
			}
			if g[i] != w[i] {
				t.Fail("lines", "input %s: line %d of %d is %s, want %s", in, i, len(w), clip(g[i]), clip(w[i]))
				return false
			}
		}
		t.Fail("lines", "input %s: %d lines, want %d (or the words of a line differ)", in, len(g), len(w))
		return false
	}
	return true
}

// cuts splits b at the positions of a bit set over its inner positions.
func cuts(b []byte, set int) [][]byte {
	var out [][]byte
	from := 0
	for p := 1; p < len(b); p++ {
		if set>>(p-1)&1 == 1 {
			out = append(out, b[from:p])
			from = p
		}
	}
	return append(out, b[from:])
}

// pieces is a reader that gives its chunks one by one.
type pieces struct {
	chunks  [][]byte
	withEOF bool // the last chunk comes together with the end
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.chunks[0])
	p.chunks[0] = p.chunks[0][n:]
	if len(p.chunks[0]) == 0 {
		p.chunks = p.chunks[1:]
	}
	if len(p.chunks) == 0 && p.withEOF {
		return n, io.EOF
	}
	return n, nil
}

// at cuts s at positions.
func at(s string, ps ...int) [][]byte {
	var out [][]byte
	from := 0
	for _, p := range ps {
		out = append(out, []byte(s[from:p]))
		from = p
	}
	return append(out, []byte(s[from:]))
}

// readers under test: each turns a source into a comparable result.
type target struct {
	name string
	read func(r io.Reader) string
}

var lexRow = "a,0,0,10,a,名詞,普通名詞,一般,*,*,*,ア,a,*,A,*,*,*"

func targets() []target {
	return []target{
		{"lexicon", func(r io.Reader) string {
			b, err := gs.SysR([]io.Reader{r}, strings.NewReader("1 1\n0 0 0\n"), &gs.MemFile{}, gs.Opts{})
			return fmt.Sprintf("%v %x", err, b)
		}},
		{"matrix", func(r io.Reader) string {
			b, err := gs.SysR([]io.Reader{strings.NewReader(lexRow)}, r, &gs.MemFile{}, gs.Opts{})
			return fmt.Sprintf("%v %x", err, b)
		}},
		{"character definition", func(r io.Reader) string {
			cc := dictionary.NewCharacterCategory()
			err := cc.ReadCharacterDefinition(r)
			s := fmt.Sprint(err)
			for c := rune(0x30); c < 0x60; c++ {
				s += fmt.Sprintf(" %x", cc.GetCategoryTypes(c))
			}
			return s
		}},
		{"settings", func(r io.Reader) string {
			st := gosudachi.NewSettingsJSON()
			err := st.ParseSettingsJSON("/base", r)
			b := st.GetBaseConfig()
			return fmt.Sprint(err, b.SystemDict, b.UserDict, b.Utf16String, b.CharacterDefinitionFile)
		}},
	}
}

func sources() [][]string {
	return [][]string{
		{
			lexRow + "\n" + strings.Replace(lexRow, "a,", "bé,", 1) + "\nb" + lexRow[1:],
			lexRow + "\r\n" + strings.Replace(lexRow, "a,", "\\u3042,", 1) + "\r\n",
			lexRow + "\n\n" + lexRow,
			lexRow + "\rx\n",
		},
		{
			"2 2\n0 0 1\n0 1 -2\n1 1 300",
			"2 2\r\n0 0 1\r\n\r\n1 0 -32768\r\n",
			"2 2\n0 0 1\n0 1 x\n",
		},
		{
			"# c\n0x41 ALPHA\n0x42..0x44 KANJI NUMERIC\n\n0x50 GREEK",
			"DEFAULT 0 1 0\r\n0x41 ALPHA # c\r\n0x42..0x44 KANJI\r\n",
			"0x41 ALPHA\n0x4\n",
		},
		{
			`{"path":"/p","systemDict":"ス.dic","userDict":["a","b"],"utf16String":true}` + "\r\n",
			"{\"systemDict\":\n\"s\",\n\"characterDefinitionFile\":\"c\"\n}",
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family
	sym := []string{"\r", "\n", "a", "é"}
	bin := func() string { return cli.Build(scratch, "gosudachicli") }

	// 1. every division of short pieces of a stream
	{
		n := 6
		if thorough {
			n = 7
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "divisions", Bounds: fmt.Sprintf("all byte strings of up to %d symbols over CR, LF, a and a two-byte character, divided in every way into separate reads of the standard input; strings follow each other in one stream, each after a line of its own", n),
			Size: sp.Size(), HangSeconds: 200,
			Run: func(i int64, t *engine.T) {
				setup()
				s := world.Text(sp, sym, i)
				t.Input("%q in every division", s)
				t.State(s)
				var chunks [][]byte
				stream := ""
				k := 1
				if len(s) > 1 {
					k = 1 << (len(s) - 1)
				}
				for set := 0; set < k; set++ {
					if s != "" {
						chunks = append(chunks, cuts([]byte(s), set)...)
					}
					chunks = append(chunks, []byte("あ\n"))
					stream += s + "あ\n"
					t.Transition(1)
				}
				t.Trace(1)
				checkOut(t, feed(bin(), chunks, "-r", fx.conf), expect(stream), fmt.Sprintf("%q in every division, each followed by あ LF", s))
			},
		})
	}

	// 2. a whole input in every division
	{
		n := 4
		if thorough {
			n = 5
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "inputs", Bounds: fmt.Sprintf("all inputs of up to %d symbols over CR, LF, a and a two-byte character, divided in every way into separate reads, each to the end of the input; and as a file", n),
			Size: sp.Size(), HangSeconds: 200,
			Run: func(i int64, t *engine.T) {
				setup()
				s := world.Text(sp, sym, i)
				t.Input("%q", s)
				t.State(s)
				want := expect(s)
				k := 1
				if len(s) > 1 {
					k = 1 << (len(s) - 1)
				}
				for set := 0; set < k; set++ {
					var chunks [][]byte
					if s != "" {
						chunks = cuts([]byte(s), set)
					}
					t.Transition(1)
					t.Trace(1)
					if !checkOut(t, feed(bin(), chunks, "-r", fx.conf), want, fmt.Sprintf("%q", chunks)) {
						return
					}
				}
				dir, done := work()
				defer done()
				t.Trace(1)
				checkOut(t, cli.Run(dir, bin(), nil, "-r", fx.conf, put(dir, "in", []byte(s))), want, fmt.Sprintf("file %q", s))
			},
		})
	}

	// 3. several files
	{
		n := 3
		if thorough {
			n = 4
		}
		sp := engine.NewStrings(len(sym), n)
		mix := engine.NewMix(int(sp.Size()), int(sp.Size()))
		fs = append(fs, &engine.Family{
			Name: "files", Bounds: fmt.Sprintf("all pairs of files of up to %d symbols over CR, LF, a and a two-byte character", n),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				setup()
				q := mix.Get(i)
				a, b := world.Text(sp, sym, int64(q[0])), world.Text(sp, sym, int64(q[1]))
				t.Input("%q, %q", a, b)
				t.State(a, b)
				dir, done := work()
				defer done()
				t.Trace(1)
				t.Transition(1)
				checkOut(t, cli.Run(dir, bin(), nil, "-r", fx.conf, put(dir, "1", []byte(a)), put(dir, "2", []byte(b))), expect(a)+expect(b), fmt.Sprintf("files %q, %q", a, b))
			},
		})
	}

	// 3a. many lines and many files
	{
		ns := []int{100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100000}
		fsn := []int{3, 4, 5, 7, 8, 9, 10, 16, 17, 33, 64, 100, 257}
		menu := []string{"a", "", "é", "ab", "aé"}
		gen := func(n, from int) string {
			var b strings.Builder
			for k := 0; k < n; k++ {
				x := k + from
				b.WriteString(menu[(x+x/5)%5] + []string{"\n", "\r\n", "\r"}[(x/3+x/64)%3])
			}
			return b.String()
		}
		fs = append(fs, &engine.Family{
			Name: "many", Bounds: fmt.Sprintf("inputs of %v lines that end in turn with LF, CRLF and CR, from the standard input and as a file, with and without output file; %v files of 1 to 3 lines, some of them empty", ns, fsn),
			Size: int64(len(ns)*3 + len(fsn)*2), Chunk: 1, HangSeconds: 120,
			Run: func(i int64, t *engine.T) {
				setup()
				dir, done := work()
				defer done()
				t.State("many", i)
				t.Transition(1)
				t.Trace(1)
				if i < int64(len(ns)*3) {
					n := ns[i/3]
					s := gen(n, int(i))
					t.Input("%d lines, way %d", n, i%3)
					var r cli.Result
					switch i % 3 {
					case 0:
						r = cli.Run(dir, bin(), strings.NewReader(s), "-r", fx.conf)
					case 1:
						r = cli.Run(dir, bin(), nil, "-r", fx.conf, put(dir, "in", []byte(s)))
					case 2:
						r = cli.Run(dir, bin(), strings.NewReader(s), "-r", fx.conf, "-o", filepath.Join(dir, "out"))
						b, err := os.ReadFile(filepath.Join(dir, "out"))
						if err != nil {
							t.Fail("output", "no output: %v", err)
							return
						}
						r.Out = string(b)
					}
					checkOut(t, r, expect(s), fmt.Sprintf("%d lines", n))
					return
				}
				i -= int64(len(ns) * 3)
				n := fsn[i/2]
				t.Input("%d files", n)
				args := []string{"-r", fx.conf}
				want := ""
				for k := 0; k < n; k++ {
					s := gen([]int{1, 3, 0, 2}[(k+int(i))%4], k)
					if i%2 == 1 {
						s = strings.TrimRight(s, "\r\n")
					}
					want += expect(s)
					args = append(args, put(dir, fmt.Sprint(k), []byte(s)))
				}
				checkOut(t, cli.Run(dir, bin(), nil, args...), want, fmt.Sprintf("%d files", n))
			},
		})
	}

	// 4. lines as long as the buffers
	{
		var ls []int
		for _, b := range []int{4096, 8192} {
			for d := -3; d <= 3; d++ {
				ls = append(ls, b+d)
			}
		}
		ls = append(ls, 1, 4, 12287, 12288, 16384, 65535, 65536, 65537)
		if thorough {
			ls = append(ls, 32767, 32768, 131071, 131072, 131073, 1<<20)
		}
		terms := []string{"", "\n", "\r", "\r\n", "\n\r", "\r\r", "\r\n\n", "\r\n\r\n"}
		mix := engine.NewMix(len(ls), len(terms), 2)
		fs = append(fs, &engine.Family{
			Name: "long-lines", Bounds: fmt.Sprintf("lines of %v bytes ended by each of %q at the end and before another line, read whole, from a file, and divided at every one and two of the positions around the line end", ls, terms),
			Size: mix.Size(), Chunk: 1, HangSeconds: 200,
			Run: func(i int64, t *engine.T) {
				setup()
				q := mix.Get(i)
				n, term := ls[q[0]], terms[q[1]]
				// letters that make one word, so that the line is cheap to tokenize
				l := make([]byte, n)
				for k := range l {
					l[k] = "bcdefghijkm"[(k+k/11)%11]
				}
				line := string(l)
				s := line + term
				if q[2] == 1 {
					s += "éa"
				}
				t.Input("%d bytes, %q, followed %v", n, term, q[2] == 1)
				t.State(n, term, q[2])
				want := expect(s)
				var ps []int
				for p := n - 2; p <= n+3; p++ {
					if p > 0 && p < len(s) {
						ps = append(ps, p)
					}
				}
				ways := [][][]byte{{[]byte(s)}}
				for x, p := range ps {
					ways = append(ways, at(s, p))
					for _, p2 := range ps[x+1:] {
						ways = append(ways, at(s, p, p2))
					}
				}
				for _, w := range ways {
					t.Trace(1)
					t.Transition(1)
					if !checkOut(t, feed(bin(), w, "-r", fx.conf), want, fmt.Sprintf("%d bytes and %q, followed %v, in reads of %v bytes", n, term, q[2] == 1, sizes(w))) {
						return
					}
				}
				dir, done := work()
				defer done()
				t.Trace(1)
				checkOut(t, cli.Run(dir, bin(), nil, "-r", fx.conf, put(dir, "in", []byte(s))), want, fmt.Sprintf("file of %d bytes and %q, followed %v", n, term, q[2] == 1))
			},
		})
	}

	// 4b. long lines one after another
	{
		ls := []int{1, 4095, 4096, 4097, 9000}
		k := 3
		if thorough {
			ls = append(ls, 65536)
			k = 4
		}
		terms := []string{"\n", "\r\n", "\r"}
		sp := engine.NewStrings(len(ls), k)
		mix := engine.NewMix(int(sp.Size()), len(terms))
		fs = append(fs, &engine.Family{
			Name: "long-sequences", Bounds: fmt.Sprintf("all sequences of up to %d lines of %v bytes, ended by each of %q, from the standard input in one piece and in pieces of 1000 and 4096 bytes, and from a file", k, ls, terms),
			Size: mix.Size(), Chunk: 1, HangSeconds: 200,
			Run: func(i int64, t *engine.T) {
				setup()
				q := mix.Get(i)
				s := ""
				for j, x := range sp.Get(int64(q[0])) {
					l := make([]byte, ls[x])
					for k := range l {
						l[k] = "bcdefghijkm"[(k+k/11+j)%11]
					}
					s += string(l) + terms[q[1]]
				}
				t.Input("%d, %q", sp.Get(int64(q[0])), terms[q[1]])
				t.State(i)
				want := expect(s)
				for _, size := range []int{1 << 30, 1000, 4096} {
					var w [][]byte
					for p := 0; p < len(s); p += size {
						e := p + size
						if e > len(s) {
							e = len(s)
						}
						w = append(w, []byte(s[p:e]))
					}
					t.Trace(1)
					t.Transition(1)
					if !checkOut(t, feed(bin(), w, "-r", fx.conf), want, fmt.Sprintf("lines %v ended by %q in pieces of %d bytes", sp.Get(int64(q[0])), terms[q[1]], size)) {
						return
					}
				}
				dir, done := work()
				defer done()
				t.Trace(1)
				checkOut(t, cli.Run(dir, bin(), nil, "-r", fx.conf, put(dir, "in", []byte(s))), want, fmt.Sprintf("file with lines %v ended by %q", sp.Get(int64(q[0])), terms[q[1]]))
			},
		})
	}

	// 5. definition readers in pieces
	{
		ts, ss := targets(), sources()
		type src struct {
			t target
			s string
		}
		var all []src
		for i, t := range ts {
			for _, s := range ss[i] {
				all = append(all, src{t, s})
				if strings.HasSuffix(s, "\n") {
					continue
				}
			}
		}
		fs = append(fs, &engine.Family{
			Name: "readers", Bounds: fmt.Sprintf("%d lexicon, matrix, character definition and settings sources, valid and invalid, divided at every one and two positions, in reads of 1, 2, 3 and 7 bytes, with up to 50 empty reads between and with the end reported together with the last bytes", len(all)),
			Size: int64(len(all)), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				x := all[i]
				t.Input("%s %q", x.t.name, x.s)
				t.State(i)
				want := x.t.read(strings.NewReader(x.s))
				try := func(p *pieces, how string, a ...interface{}) bool {
					t.Trace(1)
					t.Transition(1)
					if got := x.t.read(p); got != want {
						t.Fail("pieces", "%s %q %s: %s, want %s", x.t.name, x.s, fmt.Sprintf(how, a...), clip(got), clip(want))
						return false
					}
					return true
				}
				for p := 0; p <= len(x.s); p++ {
					for _, e := range []bool{false, true} {
						if !try(&pieces{at(x.s, p), e}, "cut at %d, end %v", p, e) {
							return
						}
					}
					for _, k := range []int{1, 2, 50} {
						ch := [][]byte{[]byte(x.s[:p])}
						for j := 0; j < k; j++ {
							ch = append(ch, nil)
						}
						if !try(&pieces{append(ch, []byte(x.s[p:])), false}, "cut at %d with %d empty reads", p, k) {
							return
						}
					}
					step := 1
					if !thorough && i < 4 {
						step = 3 // lexicons
					}
					for p2 := p + 1; p2 <= len(x.s); p2 += step {
						if !try(&pieces{at(x.s, p, p2), p%2 == 0}, "cut at %d and %d", p, p2) {
							return
						}
					}
				}
				for _, k := range []int{1, 2, 3, 7} {
					var ch [][]byte
					for p := 0; p < len(x.s); p += k {
						e := p + k
						if e > len(x.s) {
							e = len(x.s)
						}
						ch = append(ch, []byte(x.s[p:e]))
					}
					if !try(&pieces{ch, k%2 == 0}, "in reads of %d", k) {
						return
					}
				}
			},
		})
	}

	// 6. definition lines as long as the buffers
	{
		var ls []int
		for _, b := range []int{4096, 8192} {
			for d := -3; d <= 3; d++ {
				ls = append(ls, b+d)
			}
		}
		if thorough {
			ls = append(ls, 12288, 16384, 32000, 65536)
		}
		ends := []string{"\n", "\r\n", "", "\n\n", "\n# "}
		type len2 [2]int
		type long struct {
			name string
			// src gives a source whose lines at the places have the lengths by turns
			src func(n len2, places int, end string) (string, string)
			run func(src string) string
		}
		tg := targets()
		body := func(rows []string, n len2, places int, end string, pad func(row string, n int) string) (string, string) {
			a, b := "", ""
			turn := 0
			for k, r := range rows {
				e := end
				if strings.HasPrefix(end, "\n#") || end == "\n\n" {
					e = "\n"
				}
				if k < len(rows)-1 && end == "" {
					e = "\n"
				}
				x := r
				if places>>k&1 == 1 {
					x = pad(r, n[turn%2])
					turn++
				}
				a += x + e
				b += r + "\n"
			}
			return a, b
		}
		conf := func(f func(c *tk.Conf, src string)) func(src string) string {
			return func(src string) string {
				sys, _ := world.Dics(scratch, false)
				c := tk.Conf{Sys: sys, CharDef: tk.File(scratch, "world-char.def", []byte(world.CharDef))}
				f(&c, src)
				c.OOV = append(c.OOV, tk.SimpleOOV(world.SYM, 0, 0, 6000))
				d, err := tk.Open(c)
				if err != nil {
					return err.Error()
				}
				defer d.Close()
				out := ""
				for _, text := range []string{"xあ", "yあ", "zzい", "ＡＢ", "AKB1あえ", "漢字かな"} {
					ms, err := d.Create().Tokenize("C", text)
					if err != nil {
						out += err.Error() + "\n"
						continue
					}
					out += gs.Show(gs.Morphs(ms)) + "\n"
				}
				return out
			}
		}
		var seq int
		var mu sync.Mutex
		file := func(src string) string {
			mu.Lock()
			seq++
			n := seq
			mu.Unlock()
			return put(scratch, fmt.Sprintf("long%d.def", n), []byte(src))
		}
		blanks := func(r string, n int) string { return r + strings.Repeat(" ", n-len(r)) }
		inner := func(r string, n int) string { return strings.Replace(r, " ", strings.Repeat(" ", n-len(r)+1), 1) }
		comment := func(r string, n int) string { return r + " #" + strings.Repeat("x", n-len(r)-2) }
		mrows := []string{"2 2", "0 0 5", "0 1 -7", "1 1 300"}
		crows := []string{"DEFAULT 0 1 0", "0x41..0x42 KANJI", "0x43 NUMERIC", "0x45..0x50 ALPHA"}
		longs := []long{
			{"lexicon", func(n len2, places int, end string) (string, string) {
				// the length is in the normalised form, so the model has it too
				rows := []string{lexRow, "b" + lexRow[1:], "c" + lexRow[1:]}
				pad := func(r string, n int) string {
					c := strings.Split(r, ",")
					c[12] = strings.Repeat("n", n-len(r)+len(c[12]))
					return strings.Join(c, ",")
				}
				s, _ := body(rows, n, places, end, pad)
				turn := 0
				for k := range rows {
					if places>>k&1 == 1 {
						rows[k] = pad(rows[k], n[turn%2])
						turn++
					}
				}
				return s, strings.Join(rows, "\n") + "\n"
			}, func(s string) string {
				b, err := gs.SysR([]io.Reader{strings.NewReader(s)}, strings.NewReader("1 1\n0 0 0\n"), &gs.MemFile{}, gs.Opts{})
				if err != nil {
					return err.Error()
				}
				_, l := gs.Load(b, false)
				out := fmt.Sprint(l.Size())
				for k := int32(0); k < l.Size(); k++ {
					w := l.GetWordInfo(k)
					out += fmt.Sprintf(" %s|%s|%d", w.Surface, w.NormalizedForm, len(w.NormalizedForm))
				}
				return out
			}},
			{"matrix, blanks at the end", func(n len2, places int, end string) (string, string) { return body(mrows, n, places, end, blanks) }, func(s string) string { return tg[1].read(strings.NewReader(s)) }},
			{"matrix, blanks inside", func(n len2, places int, end string) (string, string) { return body(mrows, n, places, end, inner) }, func(s string) string { return tg[1].read(strings.NewReader(s)) }},
			{"character definition, comment", func(n len2, places int, end string) (string, string) { return body(crows, n, places, end, comment) }, func(s string) string { return tg[2].read(strings.NewReader(s)) }},
			{"character definition, blanks", func(n len2, places int, end string) (string, string) { return body(crows, n, places, end, inner) }, func(s string) string { return tg[2].read(strings.NewReader(s)) }},
			{"rewrite table", func(n len2, places int, end string) (string, string) {
				return body([]string{"# c", "Ａ", "x い", "zz い"}, n, places, end, func(r string, n int) string {
					if strings.Contains(r, " ") && r[0] != '#' {
						return inner(r, n)
					}
					if r[0] == '#' {
						return r + strings.Repeat("x", n-len(r))
					}
					return blanks(r, n)
				})
			}, conf(func(c *tk.Conf, s string) {
				c.In = append(c.In, tk.DefaultInput(file(s)))
			})},
			{"unknown words, character definition", func(n len2, places int, end string) (string, string) {
				return body([]string{"DEFAULT 0 1 0", "ALPHA 1 1 0", "KANJI 0 0 2", "HIRAGANA 0 1 2"}, n, places, end, inner)
			}, conf(func(c *tk.Conf, s string) {
				c.OOV = append(c.OOV, tk.MeCabOOV(file(s), tk.File(scratch, "long-unk.def", []byte("DEFAULT,0,0,4000,"+world.SYM+"\nALPHA,0,0,10,"+world.N+"\nKANJI,0,0,20,"+world.V+"\nHIRAGANA,0,0,30,"+world.N+"\n"))))
			})},
		}
		seconds := []int{0, 4100, 9000}
		mix := engine.NewMix(len(longs), len(ls), 15, len(ends), len(seconds))
		fs = append(fs, &engine.Family{
			Name: "long-definitions", Bounds: fmt.Sprintf("lexicon, matrix, character definition, rewrite and unknown word sources whose lines at every set of places have %v bytes, or by turns that and 4100 or 9000, with the line ends %q: read like the short source", ls, ends),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				l := longs[q[0]]
				n, end := ls[q[1]], ends[q[3]]
				places := q[2] + 1
				two := len2{n, n}
				if q[4] > 0 {
					if places&(places-1) == 0 {
						t.Outcome("one long line only")
						return
					}
					two[1] = seconds[q[4]]
				}
				if q[0] == 0 && places >= 8 {
					t.Outcome("no such line in this source")
					return
				}
				t.Input("%s, %v bytes at lines %04b, %q", l.name, two, places, end)
				t.State(i)
				src, plain := l.src(two, places, end)
				if end == "\n\n" || end == "\n# " {
					if q[0] == 0 || end == "\n# " && q[0] < 3 {
						t.Outcome("no such line in this source")
						return
					}
					src += end[1:]
				}
				t.Trace(1)
				t.Transition(1)
				got, want := l.run(src), l.run(plain)
				if got != want {
					t.Fail("long", "reads as %s, the short source as %s", clip(got), clip(want))
					return
				}
				if strings.Contains(want, "line") {
					t.Fail("source", "%s", want)
				}
			},
		})
	}
	return fs
}

func sizes(w [][]byte) []int {
	var out []int
	for _, x := range w {
		out = append(out, len(x))
	}
	return out
}

func main() {
	engine.Main(&engine.Check{
		ID: "C20", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct byte string or source; a transition is one division of it into reads; a trace is one run of the command or of a reader over such a division, compared with the lines that the bytes contain",
		Assumptions: []string{"a read that returns nothing happens at most 50 times in a row"},
	})
}
