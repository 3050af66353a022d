// C27: dictionaries can be opened and closed in any order without a trace.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dartsclone"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

// held counts the files and mappings below a directory that this process holds.
func held(dir string) (maps, fds int) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	maps = bytes.Count(b, []byte(" "+dir+"/"))
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, dir+"/") {
			fds++
		}
	}
	return
}

// source files of a case: name to content
var src struct {
	once  sync.Once
	files map[string][]byte
	names []string
}

var written sync.Once

const (
	unkDef  = "DEFAULT,0,0,4000," + world.SYM + "\n"
	rewrite = "# c\nゐ い\n"
)

func sources() map[string][]byte {
	src.once.Do(func() {
		o := gs.Opts{Desc: "c27", Time: 1}
		must := func(b []byte, err error) []byte {
			if err != nil {
				panic(err)
			}
			return b
		}
		sys := must(gs.Sys(world.Lexicon, world.Matrix, o))
		u1 := must(gs.User(world.UserLexicon, sys, o))
		u2 := must(gs.User(world.Row("東", 1, 1, -3000, "名詞,固有名詞,二,*,*,*", "ヒガシ", "*", "*"), sys, o))
		u3 := gs.FirstVersion(must(gs.User(world.Row("京あ", 1, 1, -3000, world.N, "京", "*", "*")+world.Row("い", 1, 1, -30, world.V, "言", "*", "*"), sys, o)))
		// every connection of the word い is inhibited
		iso := must(gs.Sys(world.Row("あ", 0, 0, 1, world.N, "あ", "*", "*")+world.Row("い", 1, 1, 1, world.SYM, "い", "*", "*"), gs.Matrix(2, 2, func(l, r int) int {
			if r == 1 {
				return 32767
			}
			return 0
		}), o))
		isou := must(gs.User(world.Row("いい", 0, 0, -32768, world.N, "い", "*", "*"), iso, o))
		bad := append([]byte{}, sys...)
		bad[0] ^= 0x55
		src.files = map[string][]byte{
			"sys": sys, "u1": u1, "u2": u2, "u3": u3, "iso": iso, "isou": isou,
			"empty": {}, "short": sys[:100], "version": bad, "cut": sys[:len(sys)-9], "ucut": u1[:len(u1)-9], "ushort": u1[:50],
			"char.def": []byte(world.CharDef), "bad.def": []byte("0x41 ALPHA\nnonsense\n"), "unk.def": []byte(unkDef), "badunk.def": []byte("DEFAULT,0,0,x\n"), "rewrite.def": []byte(rewrite), "badrewrite.def": []byte("あ い う え\n"),
		}
		for n := range src.files {
			src.names = append(src.names, n)
		}
		sort.Strings(src.names)
	})
	return src.files
}

// dir makes a directory of its own with links to the sources.
func dir() (string, func()) {
	sources()
	written.Do(func() {
		for _, n := range src.names {
			tk.File(scratchDir, "src-"+n, src.files[n])
		}
	})
	d, err := os.MkdirTemp(scratchDir, "case")
	if err != nil {
		panic(err)
	}
	for _, n := range src.names {
		if err := os.Link(filepath.Join(scratchDir, "src-"+n), filepath.Join(d, n)); err != nil {
			panic(err)
		}
	}
	return d, func() { os.RemoveAll(d) }
}

// variant of opening a dictionary
type variant struct {
	name  string
	fails bool
	conf  func(d string, c *tk.Conf)
}

func base(d string) tk.Conf {
	p := func(n string) string { return filepath.Join(d, n) }
	return tk.Conf{Sys: p("sys"), CharDef: p("char.def"), In: []gosudachi.InputTextPlugin{tk.DefaultInput(p("rewrite.def"))}, OOV: []gosudachi.OovProviderPlugin{tk.MeCabOOV(p("char.def"), p("unk.def")), tk.SimpleOOV(world.SYM, 0, 0, 6000)}, Path: []gosudachi.PathRewritePlugin{tk.JoinNumeric(true)}}
}

func users(names ...string) func(d string, c *tk.Conf) {
	return func(d string, c *tk.Conf) {
		for _, n := range names {
			c.User = append(c.User, filepath.Join(d, n))
		}
	}
}

func inhibit(pairs ...[]int) gosudachi.EditConnectionCostPlugin {
	var ps []*[]int
	for i := range pairs {
		ps = append(ps, &pairs[i])
	}
	return gosudachi.NewInhibitConnectionPlugin(ps)
}

var good = []variant{
	{"the system dictionary", false, func(d string, c *tk.Conf) {}},
	{"three user dictionaries", false, users("u1", "u2", "u3")},
	{"an inhibited pair and a user dictionary", false, func(d string, c *tk.Conf) {
		c.Edit = append(c.Edit, inhibit([]int{0, 1}, []int{1, 2}))
		users("u2")(d, c)
	}},
}

var failing = []variant{
	{"no provider", true, func(d string, c *tk.Conf) { c.OOV = nil }},
	{"no such system dictionary", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "none") }},
	{"empty system dictionary", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "empty") }},
	{"system dictionary cut in the header", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "short") }},
	{"system dictionary of another version", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "version") }},
	{"system dictionary cut at the end", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "cut") }},
	{"user dictionary as system dictionary", true, func(d string, c *tk.Conf) { c.Sys = filepath.Join(d, "u1") }},
	{"inhibited pair outside the matrix", true, func(d string, c *tk.Conf) { c.Edit = append(c.Edit, inhibit([]int{7, 0})) }},
	{"no such character definition", true, func(d string, c *tk.Conf) { c.CharDef = filepath.Join(d, "none") }},
	{"malformed character definition", true, func(d string, c *tk.Conf) { c.CharDef = filepath.Join(d, "bad.def") }},
	{"no such rewrite table", true, func(d string, c *tk.Conf) { c.In = append(c.In, tk.DefaultInput(filepath.Join(d, "none"))) }},
	{"malformed rewrite table", true, func(d string, c *tk.Conf) {
		c.In = append(c.In, tk.DefaultInput(filepath.Join(d, "badrewrite.def")))
	}},
	{"no such unknown word definition", true, func(d string, c *tk.Conf) {
		c.OOV = append(c.OOV, tk.MeCabOOV(filepath.Join(d, "char.def"), filepath.Join(d, "none")))
	}},
	{"malformed unknown word definition", true, func(d string, c *tk.Conf) {
		c.OOV = append(c.OOV, tk.MeCabOOV(filepath.Join(d, "char.def"), filepath.Join(d, "badunk.def")))
	}},
	{"malformed class definition", true, func(d string, c *tk.Conf) {
		c.OOV = append(c.OOV, tk.MeCabOOV(filepath.Join(d, "bad.def"), filepath.Join(d, "unk.def")))
	}},
	{"unknown part of speech of a provider", true, func(d string, c *tk.Conf) { c.OOV = append(c.OOV, tk.SimpleOOV("未,*,*,*,*,*", 0, 0, 1)) }},
	{"unknown part of speech of a path plug-in", true, func(d string, c *tk.Conf) { c.Path = append(c.Path, tk.JoinKatakana("未,*,*,*,*,*", 1)) }},
	{"no such user dictionary", true, users("u1", "none")},
	{"empty user dictionary", true, users("u1", "empty")},
	{"user dictionary cut in the header", true, users("ushort")},
	{"user dictionary cut at the end", true, users("u1", "ucut")},
	{"system dictionary as user dictionary", true, users("u2", "sys")},
	{"sixteen user dictionaries", true, users("u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2", "u2")},
	{"automatic cost that cannot be computed", true, func(d string, c *tk.Conf) {
		c.Sys = filepath.Join(d, "iso")
		c.OOV = []gosudachi.OovProviderPlugin{tk.SimpleOOV(world.N, 1, 1, 1)}
		c.Path = nil
		users("isou")(d, c)
	}},
}

var texts = []string{"東京都い", "あいあ1東", "ゐ漢"}

// show tokenizes the texts.
func show(d *gosudachi.JapaneseDictionary) (out []string) {
	tz := d.Create()
	for _, x := range texts {
		for _, m := range []string{"A", "C"} {
			ms, err := tz.Tokenize(m, x)
			if err != nil {
				out = append(out, err.Error())
				continue
			}
			for i := 0; i < ms.Length(); i++ {
				o := ms.Get(i)
				// the strings themselves are kept, not copies of them
				out = append(out, o.Surface(), o.NormalizedForm(), o.DictionaryForm(), o.ReadingForm())
				out = append(out, o.PartOfSpeech()...)
			}
		}
	}
	return
}

func clone(a []string) []string {
	out := make([]string, len(a))
	for i, x := range a {
		out[i] = strings.Clone(x)
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type baseline struct {
	once      sync.Once
	text      []string
	maps, fds int
}

var lines [8]baseline

// line gives what a variant shows and holds when it is opened alone.
func line(v int) *baseline {
	l := &lines[v]
	l.once.Do(func() {
		d, done := dir()
		defer done()
		c := base(d)
		good[v].conf(d, &c)
		j := tk.Must(c)
		l.maps, l.fds = held(d)
		l.text = clone(show(j))
		j.Close()
	})
	return l
}

// op of a history
type op struct {
	kind string // open, fail, close
	slot int
	v    int
}

func (o op) String() string {
	switch o.kind {
	case "open":
		return fmt.Sprintf("open %s in slot %d", good[o.v].name, o.slot)
	case "fail":
		return "try " + failing[o.v].name
	}
	return fmt.Sprintf("close slot %d", o.slot)
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. histories
	{
		const slots = 2
		var ops []op
		for s := 0; s < slots; s++ {
			for v := range good {
				ops = append(ops, op{"open", s, v})
			}
			ops = append(ops, op{"close", s, 0})
		}
		for v := range failing {
			ops = append(ops, op{"fail", 0, v})
		}
		n := 3
		if thorough {
			n = 4
		}
		run := func(t *engine.T, h []op) {
			d, done := dir()
			defer done()
			type slot struct {
				d      *gosudachi.JapaneseDictionary
				v      int
				closed bool
				kept   []string // read while it was open
			}
			var st [slots]slot
			var old []slot
			var names []string
			for _, o := range h {
				names = append(names, o.String())
			}
			for k, o := range h {
				t.Transition(1)
				s := &st[o.slot]
				switch o.kind {
				case "open":
					if s.d != nil && !s.closed {
						// the former dictionary stays open
						old = append(old, *s)
					}
					c := base(d)
					good[o.v].conf(d, &c)
					j, err := tk.Open(c)
					if err != nil {
						t.Fail("open", "%v, step %d: %v", names, k+1, err)
						return
					}
					*s = slot{d: j, v: o.v}
				case "fail":
					c := base(d)
					failing[o.v].conf(d, &c)
					if j, err := tk.Open(c); err == nil {
						j.Close()
						t.Fail("accepted", "%v, step %d: succeeds", names, k+1)
						return
					}
				case "close":
					if s.d != nil {
						s.d.Close() // again when it is closed already
						s.closed = true
					}
				}
				// what the open dictionaries may hold
				all := append(append([]slot{}, old...), st[:]...)
				maps, fds := 0, 0
				key := ""
				for i := range all {
					x := &all[i]
					if x.d == nil || x.closed {
						continue
					}
					l := line(x.v)
					maps += l.maps
					fds += l.fds
					key += fmt.Sprint(x.v, ",")
					got := show(x.d)
					if !same(got, l.text) {
						t.Fail("result", "%v, after step %d: %s tokenizes to %q, alone to %q", names, k+1, good[x.v].name, got, l.text)
						return
					}
					if i >= len(old) {
						st[i-len(old)].kept = got
					}
				}
				t.State(key)
				// strings that were read before the dictionary was closed
				for i := range st {
					if st[i].closed && st[i].kept != nil && !same(st[i].kept, line(st[i].v).text) {
						t.Fail("kept", "%v, after step %d: the strings read from %s have changed", names, k+1, good[st[i].v].name)
						return
					}
				}
				gm, gf := held(d)
				if gm > maps || gf > fds {
					t.Fail("held "+o.kind, "%v, after step %d: %d mappings and %d files are held, the open dictionaries have %d and %d", names, k+1, gm, gf, maps, fds)
					return
				}
			}
			for i := range st {
				if st[i].d != nil {
					st[i].d.Close()
				}
			}
			for _, x := range old {
				x.d.Close()
			}
			t.Trace(1)
			if gm, gf := held(d); gm != 0 || gf != 0 {
				t.Fail("held at the end", "%v: %d mappings and %d files are held after all is closed", names, gm, gf)
				return
			}
			for _, n := range src.names {
				if b, err := os.ReadFile(filepath.Join(d, n)); err != nil || !bytes.Equal(b, src.files[n]) {
					t.Fail("file", "%v: the file %s has changed", names, n)
					return
				}
			}
		}
		sp := engine.NewStrings(len(ops), n)
		fs = append(fs, &engine.Family{
			Name: "histories", Bounds: fmt.Sprintf("all sequences of up to %d of: opening one of %d dictionaries in one of two slots, closing a slot (also again), and %d openings that fail at each stage; after every step all open dictionaries tokenize and the files and mappings held are counted", n, len(good), len(failing)),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				var h []op
				for _, k := range sp.Get(i) {
					h = append(h, ops[k])
				}
				t.Input("%v", h)
				run(t, h)
			},
		})
		// deeper, with fewer operations
		var few []op
		for _, o := range ops {
			if o.kind == "close" || o.kind == "open" && o.v > 0 || o.kind == "fail" && (o.v == 20 || o.v == 9) {
				few = append(few, o)
			}
		}
		n = 5
		if thorough {
			n = 6
		}
		sp2 := engine.NewStrings(len(few), n)
		fs = append(fs, &engine.Family{
			Name: "deep", Bounds: fmt.Sprintf("all sequences of up to %d of: opening two dictionaries in two slots, closing a slot, and two openings that fail", n),
			Size: sp2.Size(),
			Run: func(i int64, t *engine.T) {
				var h []op
				for _, k := range sp2.Get(i) {
					h = append(h, few[k])
				}
				t.Input("%v", h)
				run(t, h)
			},
		})
	}

	// 2. single dictionary files
	{
		opens := []struct {
			name string
			open func(p string, u16 bool) (*dictionary.BinaryDictionary, error)
		}{{"NewBinaryDictionary", dictionary.NewBinaryDictionary}, {"ReadSystemDictionary", dictionary.ReadSystemDictionary}, {"ReadUserDictionary", dictionary.ReadUserDictionary}}
		names := []string{"sys", "u1", "u3"}
		content := func(n string) []byte { return sources()[n] }
		sizes := []int{}
		total := 0
		for _, n := range names {
			sizes = append(sizes, len(content(n)))
			total += len(content(n)) + 1
		}
		try := func(t *engine.T, what string, b []byte) {
			d, err := os.MkdirTemp(scratchDir, "bin")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(d)
			p := filepath.Join(d, "dic")
			if err := os.WriteFile(p, b, 0600); err != nil {
				panic(err)
			}
			for _, o := range opens {
				for _, u16 := range []bool{false, true} {
					t.Trace(1)
					t.Transition(1)
					bd, err := o.open(p, u16)
					if err == nil {
						t.Outcome("opens")
						if err := bd.Close(); err != nil {
							t.Fail("close", "%s, %s, UTF-16 %v: closing fails: %v", what, o.name, u16, err)
							return
						}
						_ = bd.Close() // may fail, but does no harm
					} else {
						t.Outcome("refused")
					}
					if m, f := held(d); m != 0 || f != 0 {
						t.Fail("held", "%s, %s, UTF-16 %v (%v): %d mappings and %d files are held", what, o.name, u16, err, m, f)
						return
					}
				}
			}
		}
		fs = append(fs, &engine.Family{
			Name: "truncated", Bounds: fmt.Sprintf("every truncation of a system dictionary and of user dictionaries of both versions (%v bytes), opened in every way and encoding and closed", sizes),
			Size: int64(total),
			Run: func(i int64, t *engine.T) {
				k := int(i)
				for _, n := range names {
					b := content(n)
					if k <= len(b) {
						t.Input("%s, %d bytes", n, k)
						t.State(n, k)
						try(t, fmt.Sprintf("%s cut to %d bytes", n, k), b[:k])
						return
					}
					k -= len(b) + 1
				}
			},
		})
		vals := []byte{0, 1, 0x7f, 0x80, 0xff}
		mix := engine.NewMix(len(names), 300, len(vals))
		fs = append(fs, &engine.Family{
			Name: "damaged", Bounds: fmt.Sprintf("each of the first 300 bytes of three dictionaries replaced by each of %v, opened in every way and encoding and closed", vals),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				q := mix.Get(i)
				b := append([]byte{}, content(names[q[0]])...)
				b[q[1]] = vals[q[2]]
				t.Input("%s, byte %d is %d", names[q[0]], q[1], vals[q[2]])
				t.State(i)
				try(t, fmt.Sprintf("%s with %d at %d", names[q[0]], vals[q[2]], q[1]), b)
			},
		})
	}

	{
		n := 5
		if thorough {
			n = 7
		}
		// 0, 1: open a file in a slot; 2, 3: close what is in the slot; 4, 5: close what was in the slot before
		names := []string{"open sys in 0", "open u1 in 1", "open sys in 2", "close 0", "close 1", "close 2"}
		sp := engine.NewStrings(len(names), n)
		fs = append(fs, &engine.Family{
			Name: "files", Bounds: fmt.Sprintf("all sequences of up to %d of: opening dictionary files in three slots and closing what was ever opened in a slot, also again; every open one is read after each step", n),
			Size:   sp.Size(),
			Serial: true, // the place of a mapping is taken by the next
			Run: func(i int64, t *engine.T) {
				d, done := dir()
				defer done()
				var opened [3][]*dictionary.BinaryDictionary
				open := [3]bool{}
				var hist []string
				for _, k := range sp.Get(i) {
					hist = append(hist, names[k])
				}
				t.Input("%v", hist)
				defer func() {
					for _, s := range opened {
						for _, x := range s {
							_ = x.Close()
						}
					}
				}()
				for _, k := range sp.Get(i) {
					t.Transition(1)
					s := k % 3
					if k < 3 {
						f := "sys"
						if s == 1 {
							f = "u1"
						}
						b, err := dictionary.NewBinaryDictionary(filepath.Join(d, f), false)
						if err != nil {
							t.Fail("open", "%v: %v", hist, err)
							return
						}
						if open[s] {
							if err := opened[s][len(opened[s])-1].Close(); err != nil {
								t.Fail("close", "%v: %v", hist, err)
								return
							}
						}
						opened[s] = append(opened[s], b)
						open[s] = true
					} else {
						for j, x := range opened[s] {
							err := x.Close()
							if err != nil && j == len(opened[s])-1 && open[s] {
								t.Fail("close", "%v: %v", hist, err)
								return
							}
						}
						open[s] = false
					}
					n := 0
					for s := range opened {
						if !open[s] {
							continue
						}
						n++
					}
					t.State(fmt.Sprint(open))
					if m, f := held(d); m != n || f > n {
						t.Fail("held", "%v: %d mappings and %d files are held for %d dictionaries", hist, m, f, n)
						return
					}
					for s := range opened {
						if !open[s] {
							continue
						}
						b := opened[s][len(opened[s])-1]
						want := strings.Split(world.Lexicon, ",")[4]
						if s == 1 {
							want = strings.Split(world.UserLexicon, ",")[4]
						}
						if got := b.Lexicon.GetWordInfo(0).Surface; got != want {
							t.Fail("read", "%v: the first word of slot %d is %q", hist, s, got)
							return
						}
					}
				}
				t.Trace(1)
			},
		})
	}

	// 3. tries
	{
		n := 5
		if thorough {
			n = 7
		}
		ops := []string{"open 0", "open 1", "open empty", "close 0", "close 1", "close file"}
		sp := engine.NewStrings(len(ops), n)
		fs = append(fs, &engine.Family{
			Name: "tries", Bounds: fmt.Sprintf("all sequences of up to %d of: opening two tries of one file, opening an empty file, closing them and the file", n),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				d, err := os.MkdirTemp(scratchDir, "trie")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(d)
				b := dartsclone.NewDoubleArray()
				if err := b.Build([][]byte{[]byte("a"), []byte("ab"), []byte("c")}, []int{5, 6, 7}, nil); err != nil {
					panic(err)
				}
				tk.File(d, "trie", b.ByteArray())
				tk.File(d, "empty", nil)
				f, err := os.Open(filepath.Join(d, "trie"))
				if err != nil {
					panic(err)
				}
				e, err := os.Open(filepath.Join(d, "empty"))
				if err != nil {
					panic(err)
				}
				defer e.Close()
				closedFile := false
				das := [2]*dartsclone.DoubleArray{dartsclone.NewDoubleArray(), dartsclone.NewDoubleArray()}
				open := [2]bool{}
				var names []string
				for _, k := range sp.Get(i) {
					names = append(names, ops[k])
				}
				t.Input("%v", names)
				for _, k := range sp.Get(i) {
					t.Transition(1)
					switch k {
					case 0, 1:
						if open[k] {
							continue // a trie is closed before it is opened again
						}
						err := das[k].Open(f, 0, 0)
						if err == nil == closedFile {
							t.Fail("open", "%v: %v", names, err)
							return
						}
						open[k] = err == nil
					case 2:
						if err := dartsclone.NewDoubleArray().Open(e, 0, 0); err == nil {
							t.Fail("open", "%v: an empty file is opened", names)
							return
						}
					case 3, 4:
						if !open[k-3] {
							continue
						}
						if err := das[k-3].Close(); err != nil {
							t.Fail("close", "%v: %v", names, err)
							return
						}
						open[k-3] = false
					case 5:
						f.Close()
						closedFile = true
					}
					n := 0
					for j := range das {
						if !open[j] {
							continue
						}
						n++
						v, l := das[j].ExactMatchSearch([]byte("ab"))
						if v != 6 || l != 2 {
							t.Fail("search", "%v: the open trie %d answers %d, %d", names, j, v, l)
							return
						}
					}
					t.State(fmt.Sprint(open, closedFile))
					if m, _ := held(d); m > n {
						t.Fail("held", "%v: %d mappings are held for %d tries", names, m, n)
						return
					}
				}
				t.Trace(1)
				for j := range das {
					if open[j] {
						das[j].Close()
					}
				}
				f.Close()
				if m, _ := held(d); m != 0 {
					t.Fail("held", "%v: %d mappings are held after all is closed", names, m)
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C27", Level: "model_checking", Families: families,
		Rule:        "a state is a set of open dictionaries (or a file content); a transition is one opening or closing on the real code, after which the files and mappings of the process are counted and every open dictionary tokenizes; a trace is one complete history",
		Assumptions: []string{"the files and mappings of the process are those that /proc/self reports", "a dictionary that was closed is not used any more except that strings read before are kept"},
	})
}
