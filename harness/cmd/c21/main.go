// C21: an I/O failure while building, converting, printing or reading is reported.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/rows"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

var boom = errors.New("injected failure")

// source is one build: a system dictionary, or a user dictionary on a system dictionary.
type source struct {
	name   string
	lex    []string
	matrix string
	sys    []byte // for user dictionaries
	u16    bool
	out    []byte // what a build without faults gives
	ops    int
}

func (s *source) opts() gs.Opts { return gs.Opts{UTF16: s.u16, Desc: "d", Time: 7} }

func (s *source) build(lex []io.Reader, matrix io.Reader, out *gs.MemFile) ([]byte, error) {
	if s.sys != nil {
		return gs.UserR(lex, s.sys, out, s.opts())
	}
	return gs.SysR(lex, matrix, out, s.opts())
}

func (s *source) init() *source {
	m := &gs.MemFile{}
	b, err := s.build(gs.Readers(s.lex), strings.NewReader(s.matrix), m)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", s.name, err))
	}
	s.out, s.ops = b, m.Ops
	return s
}

var matrix = gs.Matrix(3, 2, func(l, r int) int { return []int{-32768, 32767, 0, -1, 255, 256}[l*2+r] })

// small lexicon of n templates.
func small(n int) string {
	var b strings.Builder
	for i, t := range rows.Tmpls() {
		if i < n {
			b.WriteString(t(n, i))
		}
	}
	return b.String()
}

// large lexicon: every part of the dictionary is larger than a buffer of bufio.
func large(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		h := fmt.Sprintf("%c%c語%d", 'ア'+rune(i%80), '一'+rune(i), i*7919%1000)
		b.WriteString(rows.Row(h, i%60, i%50, i, h, rows.N, "ヨミ"+h, h, "*", "A", "*", "*", "*"))
	}
	return b.String()
}

var (
	srcOnce sync.Once
	srcs    []*source
)

func sources() []*source {
	srcOnce.Do(func() {
		bigMatrix := gs.Matrix(60, 50, func(l, r int) int { return l*50 + r - 1500 })
		for _, u16 := range []bool{false, true} {
			n := map[bool]string{false: "utf8", true: "utf16"}[u16]
			add := func(s *source) *source { s.u16 = u16; s.name += " " + n; srcs = append(srcs, s.init()); return s }
			sys := add(&source{name: "system", lex: []string{small(12)}, matrix: matrix})
			add(&source{name: "two files", lex: []string{small(5), small(3)}, matrix: matrix})
			add(&source{name: "empty", lex: []string{""}, matrix: "1 1\n0 0 5\n"})
			big := add(&source{name: "large", lex: []string{large(900)}, matrix: bigMatrix})
			user := rows.Row("u", 0, 0, 1, "u", rows.N, "u", "u", "*", "A", "*", "*", "*") +
				rows.Row("う", 1, 1, -32768, "う", "新,品詞,*,*,*,*", "u", "uv", "0", "C", "0/U0", "U0/U0", "*") +
				rows.Row("w", 1, 1, 3, "w", rows.V, "ダブリュー", "w", "*", "A", "*", "*", "*")
			add(&source{name: "user", lex: []string{user}, sys: sys.out})
			add(&source{name: "large user", lex: []string{large(700)}, sys: big.out})
		}
	})
	return srcs
}

// outputFaults: every operation on the output fails in every way.
func outputFaults() *engine.Family {
	ss := sources()
	const ways = 8
	var sizes []int64
	for _, s := range ss {
		sizes = append(sizes, int64(s.ops)*ways)
	}
	return &engine.Family{Name: "output", Size: total(sizes), Chunk: 8,
		Bounds: "12 builds (system, user, empty, several buffers long; both encodings), every write and seek of the output in turn failing in each of 8 ways: nothing, one byte, half, all but one byte or all bytes written and an error; short count with io.ErrShortWrite; one failure only or failing ever after",
		Run: func(i int64, t *engine.T) {
			k, j := pick(sizes, i)
			s := ss[k]
			op, way := int(j/ways), int(j%ways)
			hit := false
			sticky := way == 1 || way == 6
			m := &gs.MemFile{}
			m.Fault = func(n int, kind string, p []byte) (int, error, bool) {
				if n != op && !(sticky && n > op) {
					return 0, nil, false
				}
				hit = true
				if kind == "seek" {
					return 0, boom, true
				}
				switch way {
				case 2:
					return min(1, len(p)), boom, true
				case 3:
					return len(p) / 2, boom, true
				case 4:
					return max(0, len(p)-1), boom, true
				case 5:
					return len(p), boom, true
				case 6:
					return len(p) / 2, boom, true
				case 7:
					return len(p) / 2, io.ErrShortWrite, true
				}
				return 0, boom, true
			}
			t.Input("%s: output operation %d fails, way %d", s.name, op, way)
			_, err := s.build(gs.Readers(s.lex), strings.NewReader(s.matrix), m)
			t.Transition(1)
			t.Trace(1)
			t.State(s.name, op, way)
			if !hit {
				t.Fail("harness", "operation %d was not reached", op)
				return
			}
			if err == nil {
				t.Fail("unreported", "the build reports success")
				return
			}
			t.Outcome("reported")
		}}
}

// faultReader fails at a position.
type faultReader struct {
	b      string
	at     int
	err    error
	with   bool // the error comes with the last bytes
	sticky bool
	step   int // largest read, 0: any
	pos    int
	done   bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.step > 0 && len(p) > r.step {
		p = p[:r.step]
	}
	if r.at >= 0 && (!r.done || r.sticky) && r.pos >= r.at {
		r.done = true
		return 0, r.err
	}
	end := len(r.b)
	if r.at >= 0 && !r.done && r.at < end {
		end = r.at
	}
	n := copy(p, r.b[r.pos:end])
	r.pos += n
	if r.at >= 0 && r.with && !r.done && r.pos == r.at {
		r.done = true
		return n, r.err
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

var readErrs = []error{boom, io.ErrUnexpectedEOF}

// inputFaults: reading each input fails at every position.
func inputFaults() *engine.Family {
	type in struct {
		s    *source
		file int // index of lexicon, or -1: matrix
		text string
	}
	var ins []in
	var sizes []int64
	const ways = 8 // error, with data, sticky
	for _, s := range sources() {
		if strings.HasPrefix(s.name, "large") {
			continue
		}
		for f, l := range s.lex {
			ins = append(ins, in{s, f, l})
			sizes = append(sizes, int64(len(l)+1)*ways)
		}
		if s.sys == nil {
			ins = append(ins, in{s, -1, s.matrix})
			sizes = append(sizes, int64(len(s.matrix)+1)*ways)
		}
	}
	return &engine.Family{Name: "input", Size: total(sizes), Chunk: 64,
		Bounds: "10 builds, each lexicon file and matrix in turn, reading fails at every byte position: two errors, with and without data, once or ever after",
		Run: func(i int64, t *engine.T) {
			k, j := pick(sizes, i)
			x := ins[k]
			r := &faultReader{b: x.text, at: int(j / ways), err: readErrs[j%2], with: j/2%2 == 1, sticky: j/4%2 == 1}
			lex := gs.Readers(x.s.lex)
			var mx io.Reader = strings.NewReader(x.s.matrix)
			if x.file < 0 {
				mx = r
			} else {
				lex[x.file] = r
			}
			t.Input("%s: input %d fails at byte %d of %d (with data: %v, for ever: %v, %v)", x.s.name, x.file, r.at, len(x.text), r.with, r.sticky, r.err)
			_, err := x.s.build(lex, mx, &gs.MemFile{})
			t.Transition(1)
			t.Trace(1)
			t.State(x.s.name, x.file, j)
			if err == nil {
				t.Fail("unreported", "the build reports success")
				return
			}
			t.Outcome("reported")
		}}
}

// smallReads: however the input is cut into reads, the result is the same.
func smallReads() *engine.Family {
	ss := sources()
	steps := []int{1, 2, 3, 5, 7, 4095, 4096, 4097}
	return &engine.Family{Name: "short reads", Size: int64(len(ss) * len(steps)), Chunk: 1,
		Bounds: "12 builds with reads of at most 1, 2, 3, 5, 7, 4095, 4096, 4097 bytes: same dictionary",
		Run: func(i int64, t *engine.T) {
			s, st := ss[int(i)/len(steps)], steps[int(i)%len(steps)]
			var lex []io.Reader
			for _, l := range s.lex {
				lex = append(lex, &faultReader{b: l, at: -1, step: st})
			}
			t.Input("%s, reads of %d", s.name, st)
			b, err := s.build(lex, &faultReader{b: s.matrix, at: -1, step: st}, &gs.MemFile{})
			t.Transition(1)
			t.Trace(1)
			t.State(s.name, st)
			if err != nil || !bytes.Equal(b, s.out) {
				t.Fail("short reads", "another result: %v", err)
			}
		}}
}

// parts: the functions that write the parts of a dictionary.
func parts() *engine.Family {
	names := []string{"matrix", "trie", "word ids", "parameters", "word infos", "listing", "header listing"}
	ss := sources()
	ways := []int{-1, 0, 1, 2} // no fault, nothing, half, all but one byte
	run := func(s *source, part int, w io.Writer) error {
		g, l := gs.Load(s.out, s.u16)
		var err error
		switch part {
		case 0:
			_, err = g.WriteConnMatrixTo(w)
		case 1:
			_, err = l.WriteTrieTo(w)
		case 2:
			_, err = l.WriteWordIdTableTo(w)
		case 3:
			_, err = l.WriteWordParamsTo(w)
		case 4:
			_, _, err = l.WriteWordInfos(w, 1000, int64(4*l.Size()), !s.u16)
		case 5:
			var sys *dictionary.BinaryDictionary
			p := tk.File(scratchDir, "part-"+s.name, s.out)
			if s.sys != nil {
				sys, err = dictionary.ReadSystemDictionary(tk.File(scratchDir, "partsys-"+s.name, s.sys), s.u16)
				if err != nil {
					return err
				}
				defer sys.Close()
			}
			err = dictionary.PrintDictionary(p, s.u16, sys, w)
		case 6:
			err = dictionary.PrintHeader(tk.File(scratchDir, "part-"+s.name, s.out), w)
		}
		return err
	}
	return &engine.Family{Name: "parts", Size: int64(len(ss) * len(names)), Chunk: 1,
		Bounds: "12 dictionaries, the functions that write the matrix, the trie, the word ids, the parameters, the word infos in the other encoding, the listing and the header listing, every write in turn failing with nothing, half or all but one byte written (large dictionaries: the first and last 40 writes)",
		Run: func(i int64, t *engine.T) {
			s, part := ss[int(i)/len(names)], int(i)%len(names)
			m := &gs.MemFile{}
			if err := run(s, part, m); err != nil {
				t.Fail("harness", "%s of %s: %v", names[part], s.name, err)
				return
			}
			ops := m.Ops
			for op := 0; op < ops; op++ {
				if op == 40 && ops > 80 {
					op = ops - 40
				}
				for _, way := range ways[1:] {
					m := &gs.MemFile{}
					hit := false
					m.Fault = func(n int, kind string, p []byte) (int, error, bool) {
						if n != op {
							return 0, nil, false
						}
						hit = true
						return []int{0, len(p) / 2, max(0, len(p)-1)}[way], boom, true
					}
					t.Input("%s of %s: write %d fails, way %d", names[part], s.name, op, way)
					err := run(s, part, m)
					t.Transition(1)
					t.Trace(1)
					t.State(s.name, part, op, way)
					if !hit {
						t.Fail("harness", "write %d was not reached", op)
						return
					}
					if err == nil {
						t.Fail("unreported "+names[part], "success is reported")
						return
					}
				}
			}
			t.Outcome("reported " + names[part])
		}}
}

// truncated dictionaries are refused.
func truncated() *engine.Family {
	type in struct {
		s  *source
		b  []byte
		v1 bool
	}
	var ins []in
	var sizes []int64
	for _, s := range sources() {
		if strings.HasPrefix(s.name, "large") {
			continue
		}
		ins = append(ins, in{s, s.out, false})
		sizes = append(sizes, int64(len(s.out)+1))
		if s.sys != nil {
			u := &source{lex: []string{rows.Row("u", 0, 0, 1, "u", rows.N, "u", "u", "*", "A", "*", "*", "*")}, sys: s.sys, u16: s.u16, name: "first version"}
			u.init()
			b := gs.FirstVersion(u.out)
			ins = append(ins, in{u, b, true})
			sizes = append(sizes, int64(len(b)+1))
		}
	}
	return &engine.Family{Name: "truncated", Size: total(sizes), Chunk: 32,
		Bounds: "system, user and first version dictionaries in both encodings cut to every length and read by NewBinaryDictionary, ReadSystemDictionary, ReadUserDictionary, the listing, the header listing and NewJapaneseDictionary: refused without a crash (the header listing needs the header only); whole: accepted",
		Run: func(i int64, t *engine.T) {
			k, j := pick(sizes, i)
			x, n := ins[k], int(j)
			t.Input("%s cut to %d of %d bytes", x.s.name, n, len(x.b))
			dir, err := os.MkdirTemp(scratchDir, "t")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "d")
			if err := os.WriteFile(p, x.b[:n], 0644); err != nil {
				panic(err)
			}
			whole := n == len(x.b)
			check := func(what string, err error, ok bool) {
				t.Transition(1)
				if (err == nil) != ok {
					t.Fail(what, "%s: error %v", what, err)
				}
			}
			d, err := dictionary.NewBinaryDictionary(p, x.s.u16)
			check("NewBinaryDictionary", err, whole)
			if err == nil {
				d.Close()
			}
			d, err = dictionary.ReadSystemDictionary(p, x.s.u16)
			check("ReadSystemDictionary", err, whole && x.s.sys == nil)
			if err == nil {
				d.Close()
			}
			d, err = dictionary.ReadUserDictionary(p, x.s.u16)
			check("ReadUserDictionary", err, whole && x.s.sys != nil)
			if err == nil {
				d.Close()
			}
			c := tk.Conf{Sys: p, UTF16: x.s.u16, OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(rows.N, 0, 0, 1)}}
			if x.s.sys != nil {
				c.Sys = tk.File(scratchDir, "tsys-"+x.s.name, x.s.sys)
				c.User = []string{p}
				sys, err := dictionary.ReadSystemDictionary(c.Sys, x.s.u16)
				if err != nil {
					panic(err)
				}
				check("listing", dictionary.PrintDictionary(p, x.s.u16, sys, io.Discard), whole)
				sys.Close()
			} else {
				check("listing", dictionary.PrintDictionary(p, x.s.u16, nil, io.Discard), whole)
			}
			check("header listing", dictionary.PrintHeader(p, io.Discard), n >= dictionary.HeaderStorageSize)
			if !strings.HasPrefix(x.s.name, "empty") {
				jd, err := tk.Open(c)
				check("NewJapaneseDictionary", err, whole)
				if err == nil {
					jd.Close()
				}
			}
			t.Trace(1)
			t.State(x.s.name, n)
		}}
}

// interrupted: what a build that stops after any part of its output has left behind.
func interrupted() *engine.Family {
	ss := sources()
	return &engine.Family{Name: "interrupted", Size: int64(len(ss)), Chunk: 1, HangSeconds: 300,
		Bounds: "12 builds, stopped after each output operation and within each: after each byte of the first and last 64, of every 61st, and around each multiple of 4096; what is left is refused by every function that opens a dictionary unless it is the whole dictionary (stops within the very last offset are left out)",
		Run: func(i int64, t *engine.T) {
			s := ss[i]
			dir, err := os.MkdirTemp(scratchDir, "i")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "d")
			try := func(op, k, size int, b []byte) {
				t.Input("%s: stopped in operation %d of %d after %d of %d bytes", s.name, op, s.ops, k, size)
				if err := os.WriteFile(p, b, 0644); err != nil {
					panic(err)
				}
				whole := bytes.Equal(b, s.out)
				for f, open := range []func(string, bool) (*dictionary.BinaryDictionary, error){dictionary.NewBinaryDictionary, dictionary.ReadSystemDictionary, dictionary.ReadUserDictionary} {
					d, err := open(p, s.u16)
					ok := whole && (f == 0 || (f == 1) == (s.sys == nil))
					t.Transition(1)
					if (err == nil) != ok {
						t.Fail("incomplete", "opening it in way %d: error %v", f, err)
					}
					if err == nil {
						d.Close()
					}
				}
				t.Trace(1)
				t.State("interrupted", i, op, k)
			}
			for op := 0; op < s.ops; op++ {
				size := 0
				stop := func(k int) []byte {
					m := &gs.MemFile{}
					m.Fault = func(n int, kind string, q []byte) (int, error, bool) {
						if n < op {
							return 0, nil, false
						}
						if n > op {
							return 0, boom, true
						}
						size = len(q)
						return k, boom, true
					}
					s.build(gs.Readers(s.lex), strings.NewReader(s.matrix), m)
					return m.B
				}
				try(op, 0, size, stop(0))
				n := size
				for k := 1; k < n; k++ {
					if k > 64 && k < n-64 && k%61 != 0 && k%4096 > 2 && k%4096 < 4094 {
						continue
					}
					if op == s.ops-1 && k > n-4 {
						continue
					}
					try(op, k, n, stop(k))
					if t.Failed() {
						return
					}
				}
				if n > 0 {
					try(op, n, n, stop(n))
				}
			}
		}}
}

// readers of definitions and settings.
func definitions() *engine.Family {
	set := `{"systemDict":"x","userDict":["y"],"inputTextPlugin":[{"name":"P"}],"oovProviderPlugin":[],"pathRewritePlugin":[],"utf16String":true}`
	texts := []string{world.CharDef, "DEFAULT 0 1 0\nALPHA 1 1 0\n0x0041..0x005A ALPHA\n0x3042 DEFAULT", set}
	read := func(k int, r io.Reader) error {
		if k < 2 {
			return dictionary.NewCharacterCategory().ReadCharacterDefinition(r)
		}
		return gosudachi.NewSettingsJSON().ParseSettingsJSON("/base", r)
	}
	var sizes []int64
	for _, x := range texts {
		sizes = append(sizes, int64(len(x)+1)*8)
	}
	return &engine.Family{Name: "definitions", Size: total(sizes), Chunk: 64,
		Bounds: "two character definitions and a settings document, reading fails at every byte position: two errors, with and without data, once or ever after (settings: ever after, since the JSON decoder of the standard library may read again)",
		Run: func(i int64, t *engine.T) {
			k, j := pick(sizes, i)
			r := &faultReader{b: texts[k], at: int(j / 8), err: readErrs[j%2], with: j/2%2 == 1, sticky: j/4%2 == 1 || k == 2}
			t.Input("text %d fails at byte %d of %d (with data: %v, for ever: %v, %v)", k, r.at, len(texts[k]), r.with, r.sticky, r.err)
			err := read(k, r)
			t.Transition(1)
			t.Trace(1)
			t.State(k, j)
			if err == nil {
				t.Fail("unreported", "success is reported")
			}
		}}
}

// longLines: reading fails within lines that are longer than a buffer.
func longLines() *engine.Family {
	long := func(n int) string { return strings.Repeat("あ", n/3) }
	lex := gs.Word("a", 0, 0, 1, rows.N, "a", long(4500), "*", "A", "*", "*", "*") + gs.Word("b", 0, 0, 1, rows.N, long(13000), "b", "*", "A", "*", "*", "*") + gs.Word("c", 0, 0, 1, rows.N, "c", "c", "*", "A", "*", "*", "*")
	mx := "2 2" + strings.Repeat(" ", 5000) + "\n0 0 1\n0 1 " + strings.Repeat(" ", 9000) + " 5\n1 1 3"
	def := "0x41 ALPHA # " + long(4500) + "\n# " + long(9000) + "\n0x42..0x45" + strings.Repeat(" ", 5000) + "GREEK\n0x50 ALPHA"
	texts := []string{lex, lex, mx, def, lex}
	names := []string{"lexicon", "UTF-16 lexicon", "matrix", "character definition", "user lexicon"}
	var at [][]int
	var sizes []int64
	for _, x := range texts {
		var ps []int
		for p := 0; p <= len(x); p++ {
			if m := p % 4096; m < 3 || m > 4093 || p%67 == 0 || p == len(x) || p > 0 && x[p-1] == '\n' || p < len(x) && x[p] == '\n' {
				ps = append(ps, p)
			}
		}
		at = append(at, ps)
		sizes = append(sizes, int64(len(ps))*8*2)
	}
	return &engine.Family{Name: "long lines", Size: total(sizes), Chunk: 32,
		Bounds: "lexicons, a matrix and a character definition with lines of 4,500 to 13,000 bytes, reading fails at every 67th position and around line ends and multiples of 4096: two errors, with and without data, once or ever after, reads of at most 1000 bytes or any",
		Run: func(i int64, t *engine.T) {
			k, j := pick(sizes, i)
			r := &faultReader{b: texts[k], at: at[k][j/16], err: readErrs[j%2], with: j/2%2 == 1, sticky: j/4%2 == 1, step: int(j/8%2) * 1000}
			t.Input("%s fails at byte %d of %d (with data: %v, for ever: %v, %v, step %d)", names[k], r.at, len(texts[k]), r.with, r.sticky, r.err, r.step)
			var err error
			switch k {
			case 0, 1:
				_, err = gs.SysR([]io.Reader{r}, strings.NewReader(matrix), &gs.MemFile{}, gs.Opts{UTF16: k == 1})
			case 2:
				_, err = gs.SysR(gs.Readers([]string{""}), r, &gs.MemFile{}, gs.Opts{})
			case 3:
				err = dictionary.NewCharacterCategory().ReadCharacterDefinition(r)
			case 4:
				_, err = gs.UserR([]io.Reader{r}, sources()[0].out, &gs.MemFile{}, gs.Opts{})
			}
			t.Transition(1)
			t.Trace(1)
			t.State("long", k, j)
			if err == nil {
				t.Fail("unreported", "success is reported")
			}
		}}
}

func total(sizes []int64) int64 {
	var n int64
	for _, s := range sizes {
		n += s
	}
	return n
}

func pick(sizes []int64, i int64) (int, int64) {
	for k, s := range sizes {
		if i < s {
			return k, i
		}
		i -= s
	}
	panic("out of range")
}

// command is one run of a command with files.
type command struct {
	name, bin string
	args      func(dir string) []string
	files     map[string][]byte // input files
	stdin     string
	reads     []string // files (base names) whose reading may fail
	writes    []string // files whose writing may fail
	out       string   // file with the result, "" for the standard output
	skip      int      // leading bytes of the result that change
}

var (
	cmdOnce sync.Once
	cmds    []*command
)

func commands() []*command {
	cmdOnce.Do(func() {
		byName := map[string]*source{}
		for _, s := range sources() {
			byName[s.name] = s
		}
		abs := func(dir string, a ...string) []string {
			out := make([]string, len(a))
			for i, x := range a {
				out[i] = strings.ReplaceAll(x, "%", dir+"/")
			}
			return out
		}
		add := func(c *command, a ...string) {
			c.args = func(dir string) []string { return abs(dir, a...) }
			cmds = append(cmds, c)
		}
		for _, size := range []string{"", "large"} {
			for _, u16 := range []bool{false, true} {
				n := map[bool]string{false: "utf8", true: "utf16"}[u16]
				j := []string{}
				if u16 {
					j = []string{"-j"}
				}
				key, ukey := "two files "+n, "user "+n
				if size != "" {
					key, ukey = "large "+n, "large user "+n
				}
				s, u := byName[key], byName[ukey]
				files := map[string][]byte{"m": []byte(s.matrix), "sys": u.sys, "u": []byte(u.lex[0]), "usr": u.out}
				var lex, plex []string
				for i, l := range s.lex {
					f := fmt.Sprintf("l%d", i)
					files[f] = []byte(l)
					lex = append(lex, f)
					plex = append(plex, "%"+f)
				}
				tag := func(x string) string { return strings.TrimSpace(x + " " + size + " " + n) }
				add(&command{name: tag("dicbuilder"), bin: "dicbuilder", files: files, reads: append(lex[:len(lex):len(lex)], "m"), writes: []string{"out"}, out: "out", skip: 16},
					append(append([]string{"-o", "%out", "-m", "%m", "-d", "d"}, j...), plex...)...)
				add(&command{name: tag("userdicbuilder"), bin: "userdicbuilder", files: files, reads: []string{"u"}, writes: []string{"out"}, out: "out", skip: 16},
					append(append([]string{"-o", "%out", "-s", "%sys", "-d", "d"}, j...), "%u")...)
				nj := []string{"-j"}
				if u16 {
					nj = []string{}
				}
				add(&command{name: tag("dicconv system"), bin: "dicconv", files: files, writes: []string{"out"}, out: "out"},
					append(append([]string{"-o", "%out"}, nj...), "%sys")...)
				add(&command{name: tag("dicconv user"), bin: "dicconv", files: files, writes: []string{"out"}, out: "out"},
					append(append([]string{"-o", "%out"}, nj...), "%usr")...)
				if size == "" {
					add(&command{name: tag("printdic system"), bin: "printdic", files: files, writes: []string{"/dev/stdout"}},
						append(j[:len(j):len(j)], "%sys")...)
					add(&command{name: tag("printdic user"), bin: "printdic", files: files, writes: []string{"/dev/stdout"}},
						append(append([]string{"-s", "%sys"}, j...), "%usr")...)
					add(&command{name: tag("printdicheader"), bin: "printdicheader", files: files, writes: []string{"/dev/stdout"}}, "%sys")
					set := world.Set{Default: true, Prolonged: true, Numeric: true, Kana: true, MeCab: true, User: true, UTF16: u16, MinLen: 2}
					js := set.JSON(scratchDir)
					text := "東京都に行った\nスーパーー1,234円\r\nabc"
					files := map[string][]byte{"set": []byte(js), "t": []byte(text), "t2": []byte("京都\n")}
					defs := []string{filepath.Join(scratchDir, "world-char.def"), filepath.Join(scratchDir, "world-rewrite.def"), filepath.Join(scratchDir, "world-unk.def")}
					reads := append([]string{"set", "t", "t2"}, defs...)
					add(&command{name: tag("gosudachicli file"), bin: "gosudachicli", files: files, reads: reads, writes: []string{"out"}, out: "out"}, "-r", "%set", "-o", "%out", "-a", "%t", "%t2")
					add(&command{name: tag("gosudachicli stdout"), bin: "gosudachicli", files: files, stdin: text, reads: []string{"/dev/stdin"}, writes: []string{"/dev/stdout"}}, "-r", "%set", "-a")
					add(&command{name: tag("gosudachicli -f stdout"), bin: "gosudachicli", files: files, stdin: text, reads: []string{"/dev/stdin"}, writes: []string{"/dev/stdout"}}, "-r", "%set", "-f")
					add(&command{name: tag("gosudachicli debug"), bin: "gosudachicli", files: files, stdin: "都に", writes: []string{"/dev/stdout"}}, "-r", "%set", "-d")
				}
			}
		}
	})
	return cmds
}

// run executes the command in a fresh directory.
func (c *command) run(env []string) (r cli.Result, out []byte, hit bool, raw []byte) {
	dir, err := os.MkdirTemp(scratchDir, "c")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n, b := range c.files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
			panic(err)
		}
	}
	mark := filepath.Join(dir, "mark")
	for i := range env {
		env[i] = strings.ReplaceAll(env[i], "%", dir+"/")
	}
	r = cli.RunEnv(dir, cli.BuildFaulty(scratchDir, c.bin), strings.NewReader(c.stdin), append(env, "VERIF_FAULT_MARK="+mark), c.args(dir)...)
	if c.out == "" {
		out = []byte(r.Out)
	} else if b, err := os.ReadFile(filepath.Join(dir, c.out)); err == nil && len(b) >= c.skip {
		out, raw = b[c.skip:], b
	}
	out = bytes.ReplaceAll(out, []byte(dir), []byte("DIR"))
	_, err = os.Stat(mark)
	return r, out, err == nil, raw
}

// loads tells whether the bytes can be opened as a dictionary.
func loads(b []byte) bool {
	f, err := os.CreateTemp(scratchDir, "l")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	if _, err := f.Write(b); err != nil {
		panic(err)
	}
	f.Close()
	for _, u16 := range []bool{false, true} {
		if d, err := dictionary.NewBinaryDictionary(f.Name(), u16); err == nil {
			d.Close()
			return true
		}
	}
	return false
}

func path(f string) string {
	if filepath.IsAbs(f) {
		return f
	}
	return "%" + f
}

// commandFaults: each operation of the commands on their files fails.
func commandFaults(maxOps int) *engine.Family {
	type in struct {
		c    *command
		file string
		op   string
	}
	var ins []in
	for _, c := range commands() {
		for _, f := range c.reads {
			ins = append(ins, in{c, f, "read"})
		}
		for _, f := range c.writes {
			ins = append(ins, in{c, f, "write"}, in{c, f, "seek"})
		}
	}
	return &engine.Family{Name: "commands", Size: int64(len(ins)), Chunk: 1, HangSeconds: 120,
		Bounds: fmt.Sprintf("all six commands, system and user dictionaries, both encodings, small and several buffers long, the first %d reads, writes and seeks on each of their files in turn failing (reads of at most 64 bytes; nothing or half of the bytes written before the error): the command reports it, exits with a failure and does not crash; without a fault the result is the same", maxOps),
		Run: func(i int64, t *engine.T) {
			x := ins[i]
			t.Input("%s", x.c.name)
			r, want, _, _ := x.c.run(nil)
			if r.Code != 0 || r.Panicked() {
				t.Fail("harness", "%s fails without a fault: %s", x.c.name, tail(r.Err))
				return
			}
			n := 0
			for ; n < maxOps; n++ {
				any := false
				for _, half := range []string{"none", "half"} {
					if half == "half" && x.op != "write" {
						continue
					}
					t.Input("%s: %s %d of %s fails (%s)", x.c.name, x.op, n, x.file, half)
					r, out, hit, raw := x.c.run([]string{"VERIF_FAULT=" + fmt.Sprintf("%s|%d|%s|%s", x.op, n, half, path(x.file))})
					t.Trace(1)
					t.Transition(1)
					t.State(x.c.name, x.file, x.op, n, half)
					switch {
					case r.Panicked():
						t.Fail("crash "+x.op, "crash: %s", tail(r.Err))
						return
					case hit && r.Code == 0:
						t.Fail("unreported "+x.op, "the command reports success")
						return
					case hit && r.Err == "":
						t.Fail("silent "+x.op, "the command fails without a message")
						return
					case hit && raw != nil && x.c.bin != "gosudachicli" && !bytes.Equal(out, want) && loads(raw):
						t.Fail("left "+x.op, "the command fails, but what it has written so far can be opened")
						return
					case !hit && (r.Code != 0 || !bytes.Equal(out, want)):
						t.Fail("short "+x.op, "no fault was injected, status %d and another result: %s", r.Code, tail(r.Err))
						return
					}
					any = any || hit
				}
				if !any {
					break
				}
			}
			if n == 0 && x.op != "seek" {
				t.Fail("harness", "no %s of %s was seen", x.op, x.file)
			}
			t.Outcome(fmt.Sprintf("%s %s", x.c.bin, x.op))
		}}
}

// commandFiles: missing files, directories in place of files, full devices.
func commandFiles() *engine.Family {
	cs := commands()
	return &engine.Family{Name: "files", Size: int64(len(cs)), Chunk: 1, HangSeconds: 120,
		Bounds: "all six commands, each input file in turn missing, a directory, or empty where a dictionary is expected; the output on a full device or in a missing directory",
		Run: func(i int64, t *engine.T) {
			c := cs[i]
			dir, err := os.MkdirTemp(scratchDir, "f")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			fill := func() {
				for n, b := range c.files {
					p := filepath.Join(dir, n)
					os.RemoveAll(p)
					if err := os.WriteFile(p, b, 0644); err != nil {
						panic(err)
					}
				}
			}
			args := c.args(dir)
			bad := func(what string, args []string) {
				t.Input("%s: %s", c.name, what)
				r := cli.Run(dir, cli.Build(scratchDir, c.bin), strings.NewReader(c.stdin), args...)
				t.Trace(1)
				t.Transition(1)
				t.State(c.name, what)
				if r.Panicked() {
					t.Fail("crash", "crash: %s", tail(r.Err))
				} else if r.Code == 0 {
					t.Fail("unreported", "the command reports success")
				} else if r.Err == "" {
					t.Fail("silent", "the command fails without a message")
				}
			}
			for n := range c.files {
				p := filepath.Join(dir, n)
				used := false
				for _, a := range args {
					used = used || a == p
				}
				if !used {
					continue
				}
				fill()
				os.Remove(p)
				bad(n+" is missing", args)
				os.Mkdir(p, 0755)
				bad(n+" is a directory", args)
				if n == "sys" || n == "usr" {
					os.RemoveAll(p)
					os.WriteFile(p, nil, 0644)
					bad(n+" is empty", args)
				}
			}
			fill()
			if c.out != "" {
				for _, o := range []string{"/dev/full", dir + "/none/out", dir} {
					a := append([]string{}, args...)
					for i := range a {
						if a[i] == filepath.Join(dir, c.out) {
							a[i] = o
						}
					}
					bad("output is "+strings.ReplaceAll(o, dir, "DIR"), a)
				}
			} else {
				full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					panic(err)
				}
				defer full.Close()
				t.Input("%s", c.name+": standard output is full")
				r := cli.RunOut(dir, cli.Build(scratchDir, c.bin), strings.NewReader(c.stdin), full, args...)
				t.Trace(1)
				t.State(c.name, "full")
				if r.Panicked() || r.Code == 0 || r.Err == "" {
					t.Fail("unreported", "status %d: %s", r.Code, tail(r.Err))
				}
			}
		}}
}

// commandTruncated: the commands refuse truncated dictionaries.
func commandTruncated(step int) *engine.Family {
	type in struct {
		c    *command
		file string
		n    int
	}
	var ins []in
	for _, c := range commands() {
		if strings.Contains(c.name, "large") {
			continue
		}
		for _, f := range []string{"sys", "usr"} {
			used := false
			for _, a := range c.args("") {
				used = used || a == "/"+f
			}
			if !used {
				continue
			}
			n := len(c.files[f])
			if c.bin == "printdicheader" {
				n = dictionary.HeaderStorageSize
			}
			for i := 0; i < n; i++ {
				// every length in the header's last bytes and the body's structures, fewer in between
				if i%step == 0 || i == n-1 || i == dictionary.HeaderStorageSize || i == dictionary.HeaderStorageSize-1 {
					ins = append(ins, in{c, f, i})
				}
			}
		}
	}
	return &engine.Family{Name: "truncated commands", Size: int64(len(ins)), Chunk: 8,
		Bounds: fmt.Sprintf("the commands that read a dictionary, dictionaries cut to every length that is a multiple of %d, one byte short, and at the end of the header: an error, no crash, and no output file is left that is taken for a dictionary", step),
		Run: func(i int64, t *engine.T) {
			x := ins[i]
			dir, err := os.MkdirTemp(scratchDir, "t")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			for n, b := range x.c.files {
				if n == x.file {
					b = b[:x.n]
				}
				if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
					panic(err)
				}
			}
			t.Input("%s: %s cut to %d of %d bytes", x.c.name, x.file, x.n, len(x.c.files[x.file]))
			r := cli.Run(dir, cli.Build(scratchDir, x.c.bin), strings.NewReader(x.c.stdin), x.c.args(dir)...)
			t.Trace(1)
			t.Transition(1)
			t.State(x.c.name, x.file, x.n)
			if r.Panicked() {
				t.Fail("crash", "crash: %s", tail(r.Err))
			} else if r.Code == 0 {
				t.Fail("accepted", "the command reports success")
			}
		}}
}

func tail(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	if err := os.MkdirAll(scratch, 0755); err != nil {
		panic(err)
	}
	maxOps, step := 60, 3
	if tier == engine.Thorough {
		maxOps, step = 5000, 1
	}
	return []*engine.Family{outputFaults(), inputFaults(), smallReads(), parts(), truncated(), interrupted(), definitions(), longLines(), commandFiles(), commandFaults(maxOps), commandTruncated(step)}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C21", Level: "fault_enumeration", Families: families,
		Rule:        "a state is a distinct pair of a run and a fault (which operation or byte, how it fails) or a distinct cut of a dictionary; a transition is one run with that fault injected; a trace is one run executed on the real code or command",
		Assumptions: []string{"a failing write, read or seek returns an error, as io.Writer and io.Reader demand; closing a file does not fail; writes to the standard error output do not fail", "in the commands faults are injected in os.File, below the code of the repository; mapping a file does not fail", "a build is not stopped within the very last four-byte offset of a dictionary"},
	})
}
