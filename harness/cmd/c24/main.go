// C24: automatic user-word costs are computed from the words' own tokenization.
package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const (
	posN = "名詞,普通名詞,一般,*,*,*"
	posO = "記号,*,*,*,*,*"
	auto = -32768
)

func w(head string, l, r, c int, surface string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,r,n,*,A,*,*,*\n", head, l, r, c, surface, posN)
}

type system struct {
	name, lex, matrix string
}

var mx = gs.Matrix(3, 3, func(x, y int) int { return 40*x - 25*y })

var systems = []system{
	{"ordinary costs", w("あ", 0, 1, 100, "あ") + w("い", 1, 0, 230, "い") + w("あい", 1, 1, 500, "あい") + w("う", 2, 2, -7, "う") + w("あ", 1, 2, 120, "あ") + "記,-1,-1,0,記," + posO + ",r,n,*,A,*,*,*\n", mx},
	{"extreme costs", w("あ", 0, 0, -32768, "あ") + w("い", 1, 1, 32767, "い") + w("う", 0, 2, 32767, "う") + w("ああ", 2, 0, -32768, "ああ") + "記,-1,-1,0,記," + posO + ",r,n,*,A,*,*,*\n", mx},
	{"all connections to い are inhibited", w("あ", 0, 0, 5, "あ") + w("い", 1, 1, 6, "い") + w("う", 2, 2, 7, "う") + "記,-1,-1,0,記," + posO + ",r,n,*,A,*,*,*\n",
		gs.Matrix(3, 3, func(x, y int) int {
			if y == 1 {
				return 32767
			}
			return x - y
		})},
	{"no words", "記,-1,-1,0,記," + posO + ",r,n,*,A,*,*,*\n", mx},
}

// user rows
var rows = []string{
	w("あ", 0, 0, auto, "あ"),
	w("あい", 1, 0, auto, "あい"),
	w("い", 0, 1, auto, "いう"), // surface differs from the headword
	w("うう", 2, 2, auto, "あうい"),
	w("う", 0, 0, 32767, "う"),
	w("あう", 0, 0, -32767, "あう"),
	w("ん", 1, 1, auto, "ん"),  // unknown
	w("ああ", 1, 2, auto, "X"), // rewritten on input
	w("え", 0, 0, auto, ""),   // empty surface
	w("いい", 2, 1, auto, "いううううい"),
	w("お", -1, -1, auto, "あ"),
}

type sysFx struct {
	once  sync.Once
	path  string
	bytes []byte
	model *ref.Dict
}

var sysf [4]sysFx
var scratchDir, charFile string
var charOnce sync.Once

func sys(i int) *sysFx {
	charOnce.Do(func() {
		charFile = tk.File(scratchDir, "char.def", []byte("DEFAULT 0 1 0\n0x3041..0x3093 HIRAGANA\n"))
	})
	f := &sysf[i]
	f.once.Do(func() {
		b, err := gs.Sys(systems[i].lex, systems[i].matrix, gs.Opts{Desc: "s", Time: 1})
		if err != nil {
			panic(err)
		}
		m, v, why := ref.Compile([]string{systems[i].lex}, systems[i].matrix, nil, false)
		if v != ref.Accept {
			panic(why)
		}
		f.bytes, f.model = b, m
		f.path = tk.File(scratchDir, fmt.Sprintf("sys%d.dic", i), b)
	})
	return f
}

var fileSeq struct {
	sync.Mutex
	m map[string]string
}

// userFile compiles and caches a user dictionary.
func userFile(si int, lex string) string {
	f := sys(si)
	key := fmt.Sprint(si) + lex
	fileSeq.Lock()
	defer fileSeq.Unlock()
	if fileSeq.m == nil {
		fileSeq.m = map[string]string{}
	}
	if p, ok := fileSeq.m[key]; ok {
		return p
	}
	b, err := gs.User(lex, f.bytes, gs.Opts{Desc: "u", Time: 1})
	if err != nil {
		panic(err)
	}
	p := tk.File(scratchDir, fmt.Sprintf("user%d.dic", len(fileSeq.m)), b)
	fileSeq.m[key] = p
	return p
}

// xplug rewrites X to あい.
type xplug struct{}

func (xplug) GetConfigStruct() interface{} { return &struct{}{} }
func (xplug) SetUp() error                 { return nil }
func (xplug) Rewrite(b *gosudachi.InputTextBuilder) error {
	off := 0
	for i, r := range b.GetText() {
		if r == 'X' {
			b.Replace(i+off, i+off+1, []rune("あい"))
			off++
		}
	}
	return nil
}

// joinAll merges everything; it must not take part in the computation.
type joinAll struct{ probe *tk.Probe }

func (joinAll) GetConfigStruct() interface{}            { return &struct{}{} }
func (joinAll) SetUp(grammar *dictionary.Grammar) error { return nil }
func (j joinAll) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
	if len(*path) > 1 {
		_, err := gosudachi.ConcatenateNodes(path, 0, len(*path), l, "")
		return err
	}
	return nil
}

var cats = func(c rune) uint32 {
	if c >= 0x3041 && c <= 0x3093 {
		return ref.ClassBit("HIRAGANA")
	}
	return 1
}

func normal(s string) *ref.Text {
	var out []rune
	var off []int
	in := []rune(s)
	for i, r := range in {
		if r == 'X' {
			out = append(out, 'あ', 'い')
			off = append(off, i, i)
		} else {
			out = append(out, r)
			off = append(off, i)
		}
	}
	off = append(off, len(in))
	return ref.NewText(out, off, in, cats)
}

func clamp(v int) int {
	if v > 32767 {
		return 32767
	}
	if v < -32768 {
		return -32768
	}
	return v
}

func run(t *engine.T, si int, lexs []string, oovCost int, join bool) {
	f := sys(si)
	conf := &ref.Conf{Dicts: []*ref.Dict{f.model}, Cats: cats, Cost: map[[2]int]int{}}
	conf.OOV = []ref.Provider{ref.SimpleProvider(posO, 2, 1, oovCost)}
	probe := &tk.Probe{Lattice: true}
	pl := []gosudachi.PathRewritePlugin{probe}
	if join {
		pl = append(pl, joinAll{probe})
	}
	var files []string
	var before [][]byte
	for _, l := range lexs {
		files = append(files, userFile(si, l))
		b, _ := os.ReadFile(files[len(files)-1])
		before = append(before, b)
	}
	d, err := tk.Open(tk.Conf{Sys: f.path, CharDef: charFile, User: files,
		In:   []gosudachi.InputTextPlugin{xplug{}},
		OOV:  []gosudachi.OovProviderPlugin{tk.SimpleOOV(posO, 2, 1, oovCost)},
		Path: pl})
	t.Trace(1)
	for i, p := range files {
		if b, _ := os.ReadFile(p); !bytes.Equal(b, before[i]) {
			t.Fail("file", "the dictionary file was modified")
		}
	}
	// what the model says, one dictionary after the other
	allowed := map[[2]int]map[int]bool{}
	fails := false
	for di, l := range lexs {
		m, v, why := ref.Compile([]string{l}, "", f.model, false)
		if v != ref.Accept {
			panic(why)
		}
		for wi := range m.Words {
			x := &m.Words[wi]
			if x.Cost != auto {
				continue
			}
			set := map[int]bool{}
			tx := normal(x.Surface)
			if len(tx.Runes) == 0 {
				set[0] = true
			} else {
				cands, ok := conf.Candidates(tx)
				if ok {
					_, ok = conf.Best(cands, len(tx.S))
				}
				if !ok {
					fails = true
					continue
				}
				for _, p := range conf.BestPaths(cands, len(tx.S), 10000) {
					set[clamp(p[len(p)-1].Cost-p[0].Cost-20*len(p))] = true
				}
			}
			allowed[[2]int{di + 1, wi}] = set
			t.Transition(1)
		}
		if fails {
			break
		}
		conf.Dicts = append(conf.Dicts, m)
		if err != nil {
			continue
		}
		// what the code computed, which also is what later dictionaries see
		for wi := range m.Words {
			x := &m.Words[wi]
			set := allowed[[2]int{di + 1, wi}]
			if len(set) == 1 {
				for v := range set {
					conf.Cost[[2]int{di + 1, wi}] = v
				}
			}
			if x.Indexed && len(set) != 1 {
				if got, ok := observe(d, probe, x.Head, di+1, wi); ok {
					conf.Cost[[2]int{di + 1, wi}] = got
				}
			}
		}
	}
	if fails {
		if err == nil {
			t.Fail("unreported", "a headword cannot be tokenized, but loading reports no error")
			d.Close()
		}
		t.Outcome("loading fails")
		return
	}
	if err != nil {
		t.Fail("refused", "loading fails: %v", err)
		return
	}
	defer d.Close()
	for di := 1; di < len(conf.Dicts); di++ {
		for wi := range conf.Dicts[di].Words {
			x := &conf.Dicts[di].Words[wi]
			if !x.Indexed {
				continue
			}
			got, ok := observe(d, probe, x.Head, di, wi)
			if !ok {
				continue // the candidate lies on a path the tokenizer refuses
			}
			want := allowed[[2]int{di, wi}]
			if x.Cost != auto {
				want = map[int]bool{x.Cost: true}
			}
			if !want[got] {
				var ws []int
				for v := range want {
					ws = append(ws, v)
				}
				sort.Ints(ws)
				t.Fail("cost", "dictionary %d word %d (%q): cost %d, want %v", di, wi, x.Surface, got, ws)
				return
			}
			t.Outcome("cost agrees")
		}
	}
	for wi := range f.model.Words {
		x := &f.model.Words[wi]
		if x.Indexed {
			if got, ok := observe(d, probe, x.Head, 0, wi); ok && got != x.Cost {
				t.Fail("cost", "system word %d: cost %d, want %d", wi, got, x.Cost)
			}
		}
	}
	t.State(si, strings.Join(lexs, "\x01"), oovCost)
}

// observe reads the cost of a word from the lattice of its own headword.
func observe(d *gosudachi.JapaneseDictionary, p *tk.Probe, head string, dic, word int) (int, bool) {
	p.Nodes = nil
	if _, err := d.Create().Tokenize("C", head); err != nil {
		return 0, false
	}
	for _, n := range p.Nodes {
		if !n.OOV && n.DicId == dic && n.WordId&0xfffffff == word && n.Begin == 0 && n.End == len(head) {
			return n.Cost, true
		}
	}
	return 0, false
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	n := 3
	if tier == engine.Thorough {
		n = 4
	}
	one := engine.NewStrings(len(rows), n)
	mix := engine.NewMix(len(systems), 2, 2)
	f1 := &engine.Family{
		Name: "one-dictionary", Bounds: fmt.Sprintf("user dictionaries of all sequences of 0..%d rows from %d, %d system dictionaries, 2 unknown-word costs, with and without a path plug-in", n, len(rows), len(systems)),
		Size: one.Size() * mix.Size(),
		Run: func(i int64, t *engine.T) {
			m := mix.Get(i % mix.Size())
			lex := ""
			ix := one.Get(i / mix.Size())
			for _, x := range ix {
				lex += rows[x]
			}
			t.Input("system: %s; user rows %v:\n%s", systems[m[0]].name, ix, lex)
			run(t, m[0], []string{lex}, []int{3000, 32767}[m[1]], m[2] == 1)
		},
	}
	k := 2
	two := engine.NewStrings(len(rows), k)
	ns := two.Size()
	l := int64(2)
	if tier == engine.Thorough {
		l = 3
	}
	var size int64 = 1
	for j := int64(0); j < l; j++ {
		size *= ns
	}
	if l == 3 {
		size = ns * ns * int64(len(rows)+1)
	}
	f2 := &engine.Family{
		Name: "several-dictionaries", Bounds: fmt.Sprintf("%d user dictionaries one after the other, each of 0..%d rows from %d (the third, in the thorough run, of 0..1 rows); system dictionaries 0, 1 and 3", l, k, len(rows)),
		Size: size * 3,
		Run: func(i int64, t *engine.T) {
			si := []int{0, 1, 3}[i%3]
			i /= 3
			var lexs []string
			for j := int64(0); j < l; j++ {
				var ix []int
				if j == 2 {
					if i > 0 {
						ix = []int{int(i - 1)}
					}
				} else {
					ix = two.Get(i % ns)
					i /= ns
				}
				lex := ""
				for _, x := range ix {
					lex += rows[x]
				}
				lexs = append(lexs, lex)
			}
			t.Input("system: %s; users:\n%s", systems[si].name, strings.Join(lexs, "--\n"))
			run(t, si, lexs, 3000, false)
		},
	}
	// long surfaces: many morphemes in one word
	lens := []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1637, 1638, 1639, 1640, 2047, 2048, 2049, 3276, 3277, 4096, 5000, 10000}
	shapes := []string{"う", "ん", "い", "Xう", "うん"}
	f3 := &engine.Family{
		Name: "long-words", Bounds: fmt.Sprintf("words whose written form is %q repeated up to each of %v characters (up to as many morphemes), 3 system dictionaries, 2 unknown-word costs", shapes, lens),
		Size: int64(len(lens) * len(shapes) * 6),
		Run: func(i int64, t *engine.T) {
			si, oc := []int{0, 1, 3}[i%3], []int{3000, 32767}[i/3%2]
			i /= 6
			sh := []rune(shapes[i%int64(len(shapes))])
			n := lens[i/int64(len(shapes))]
			var sf []rune
			for len(sf) < n {
				sf = append(sf, sh...)
			}
			lex := w("え", 0, 1, auto, string(sf[:n])) + w("お", 1, 0, auto, "う")
			t.Input("system: %s; written form of %d characters %q", systems[si].name, n, shapes[i%int64(len(shapes))])
			run(t, si, []string{lex}, oc, false)
		},
	}
	// many words
	at := []int{0, 1, 127, 128, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, gs.Far}
	f4 := &engine.Family{
		Name: "many-words", Bounds: fmt.Sprintf("user dictionaries with automatic costs at one and at all of the word numbers %v between words without, as the first and as the second dictionary, 2 system dictionaries", at),
		Size: int64((len(at) + 1) * 4),
		Run: func(i int64, t *engine.T) {
			si, second := []int{0, 1}[i%2], i/2%2 == 1
			k := int(i / 4)
			fill := strings.SplitAfter(gs.Filler(gs.Far+1, posN), "\n")
			last := 0
			for j, a := range at {
				if k == len(at) || k == j {
					fill[a] = w([]string{"え", "お", "ん"}[j%3]+strings.Repeat("う", j/3), j%3, j/3%3, auto, []string{"あ", "うう", "いう", "ん"}[j%4]+strings.Repeat("う", j/4))
					last = a
				}
			}
			lexs := []string{strings.Join(fill[:last+1], "")}
			if second {
				lexs = []string{rows[0] + rows[4], lexs[0]}
			}
			t.Input("system: %s; automatic costs at %v; second %v", systems[si].name, k, second)
			run(t, si, lexs, 3000, false)
		},
	}
	return []*engine.Family{f1, f2, f3, f4}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C24", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct list of user dictionaries over a system dictionary; a transition is one automatic cost predicted by the model (minimum-cost path over the model's own candidates, all ties allowed); a trace is one loading of the real dictionaries followed by reading the cost of every word from the lattice",
		Assumptions: []string{"the cost of a tokenization is what the result reports as its internal cost (cost of the last word minus cost of the first); input rewriting applies, path rewriting does not", "costs of unindexed words cannot be observed and are not compared"},
	})
}
