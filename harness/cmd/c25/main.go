// C25: connection-cost editing changes exactly the listed pairs.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const posN = "名詞,普通名詞,一般,*,*,*"

func cost(x, y int) int { return (x*3271+y*77+5)%60001 - 30000 }

type fixture struct {
	path  string
	model *ref.Dict
	bytes []byte
}

var (
	scratchDir string
	mu         sync.Mutex
	fixtures   = map[[2]int]*fixture{}
)

// get compiles a dictionary with an l x r matrix and two words for each pair of ids.
func get(l, r int) *fixture {
	mu.Lock()
	defer mu.Unlock()
	if f, ok := fixtures[[2]int{l, r}]; ok {
		return f
	}
	var lex strings.Builder
	lex.WriteString("記,-1,-1,0,記," + posN + ",r,n,*,A,*,*,*\n")
	if l <= 4 && r <= 4 {
		for x := 0; x < r; x++ {
			for y := 0; y < l; y++ {
				for k, h := range []string{"あ", "い", "あい"} {
					fmt.Fprintf(&lex, "%s,%d,%d,%d,%s,%s,r,n,*,A,*,*,*\n", h, x, y, 1000*k+100*x-10*y, h, posN)
				}
			}
		}
	}
	m := gs.Matrix(l, r, cost)
	b, err := gs.Sys(lex.String(), m, gs.Opts{Desc: "s", Time: 1})
	if err != nil {
		panic(err)
	}
	d, v, why := ref.Compile([]string{lex.String()}, m, nil, false)
	if v != ref.Accept {
		panic(why)
	}
	f := &fixture{tk.File(scratchDir, fmt.Sprintf("sys%dx%d.dic", l, r), b), d, b}
	fixtures[[2]int{l, r}] = f
	return f
}

// grab hands out the grammar that is being configured.
type grab struct{ g *dictionary.Grammar }

func (p *grab) GetConfigStruct() interface{}            { return &struct{}{} }
func (p *grab) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *grab) Edit(grammar *dictionary.Grammar) error  { p.g = grammar; return nil }

// plugins makes the edit plug-ins from a JSON settings file.
func plugins(pairs interface{}) ([]gosudachi.EditConnectionCostPlugin, error) {
	o := map[string]interface{}{"class": "com.worksap.nlp.sudachi.InhibitConnectionPlugin"}
	if pairs != nil {
		o["inhibitedPair"] = pairs
	}
	b, err := json.Marshal(map[string]interface{}{"editConnectionCostPlugin": []interface{}{o}})
	if err != nil {
		panic(err)
	}
	s := gosudachi.NewSettingsJSON()
	if err := s.ParseSettingsJSON("", bytes.NewReader(b)); err != nil {
		panic(err)
	}
	return s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
}

func api(pairs [][]int) []gosudachi.EditConnectionCostPlugin {
	var ps []*[]int
	for i := range pairs {
		ps = append(ps, &pairs[i])
	}
	return []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(ps)}
}

func open(f *fixture, ps []gosudachi.EditConnectionCostPlugin, probe *tk.Probe) (*gosudachi.JapaneseDictionary, *dictionary.Grammar, error) {
	g := &grab{}
	c := tk.Conf{Sys: f.path, CharDef: charFile(), OOV: []gosudachi.OovProviderPlugin{tk.SimpleOOV(posN, 0, 0, 30000)}, Edit: append(ps, g)}
	if probe != nil {
		c.Path = []gosudachi.PathRewritePlugin{probe}
	}
	d, err := tk.Open(c)
	return d, g.g, err
}

func charFile() string {
	return tk.File(scratchDir, "char.def", []byte("DEFAULT 0 1 0\n0x3041..0x3093 HIRAGANA\n"))
}

func cats(c rune) uint32 {
	if c >= 0x3041 && c <= 0x3093 {
		return ref.ClassBit("HIRAGANA")
	}
	return 1
}

func checkTable(t *engine.T, g *dictionary.Grammar, m *ref.Dict, inh map[[2]int]bool, what string) {
	for y := 0; y < m.R; y++ {
		for x := 0; x < m.L; x++ {
			want := m.Matrix[y*m.L+x]
			if inh[[2]int{x, y}] {
				want = 32767
			}
			if got := int(g.GetConnectCost(int16(x), int16(y))); got != want {
				t.Fail("table", "%s: cost of (%d,%d) is %d, want %d", what, x, y, got, want)
				return
			}
		}
	}
}

var texts []string

func edit(t *engine.T, l, r int, pairs [][]int, viaJSON bool, tokenize bool) {
	editParts(t, l, r, pairs, 1, viaJSON, tokenize)
}

// editParts spreads the pairs over several plug-ins.
func editParts(t *engine.T, l, r int, pairs [][]int, parts int, viaJSON bool, tokenize bool) {
	f := get(l, r)
	inh := map[[2]int]bool{}
	for _, p := range pairs {
		inh[[2]int{p[0], p[1]}] = true
	}
	var ps []gosudachi.EditConnectionCostPlugin
	for k := 0; k < parts; k++ {
		some := pairs[len(pairs)*k/parts : len(pairs)*(k+1)/parts]
		p := api(some)
		if viaJSON {
			var err error
			if p, err = plugins(some); err != nil {
				t.Fail("json", "settings with the pairs are refused: %v", err)
				return
			}
		}
		ps = append(ps, p...)
	}
	before, g0, err := open(f, nil, nil)
	if err != nil {
		t.Fail("open", "%v", err)
		return
	}
	defer before.Close()
	probe := &tk.Probe{}
	d, g, err := open(f, ps, probe)
	t.Trace(1)
	if err != nil {
		t.Fail("refused", "the pairs are refused: %v", err)
		return
	}
	defer d.Close()
	after, g1, err := open(f, nil, nil)
	if err != nil {
		t.Fail("open", "%v", err)
		return
	}
	defer after.Close()
	t.Transition(l * r)
	t.State(l, r, fmt.Sprint(pairs), viaJSON)
	checkTable(t, g, f.model, inh, "edited dictionary")
	checkTable(t, g0, f.model, nil, "dictionary opened before")
	checkTable(t, g1, f.model, nil, "dictionary opened afterwards")
	if b, err := os.ReadFile(f.path); err != nil || !bytes.Equal(b, f.bytes) {
		t.Fail("file", "the dictionary file changed")
	}
	if !tokenize || t.Failed() {
		return
	}
	conf := &ref.Conf{Dicts: []*ref.Dict{f.model}, Cats: cats, Inhibit: inh, OOV: []ref.Provider{ref.SimpleProvider(posN, 0, 0, 30000)}}
	tz := d.Create()
	for _, s := range texts {
		if s == "" {
			continue
		}
		t.Trace(1)
		p, m := tk.CheckBest(conf, ref.Plain(s, cats), s, d, tz, probe, false)
		if m != "" {
			t.Fail("tokenize", "text %q: %s", s, m)
			return
		}
		if p == nil {
			t.Outcome("no allowed path: fails")
		} else {
			t.Outcome("best allowed path found")
		}
	}
}

func subset(n int, bits int64, r int) [][]int {
	var p [][]int
	for k := 0; k < n; k++ {
		if bits>>uint(k)&1 == 1 {
			p = append(p, []int{k / r, k % r})
		}
	}
	return p
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	sp := engine.NewStrings(2, 3)
	texts = nil
	for i := int64(0); i < sp.Size(); i++ {
		s := ""
		for _, x := range sp.Get(i) {
			s += []string{"あ", "い"}[x]
		}
		texts = append(texts, s)
	}
	texts = append(texts, "うあ", "あうい")
	type cfg struct {
		l, r int
		bits int64
		json bool
	}
	var cs []cfg
	sizes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {2, 4}, {4, 2}}
	if tier == engine.Thorough {
		sizes = append(sizes, [2]int{3, 4}, [2]int{4, 3})
	}
	for _, s := range sizes {
		for b := int64(0); b < 1<<uint(s[0]*s[1]); b++ {
			cs = append(cs, cfg{s[0], s[1], b, false}, cfg{s[0], s[1], b, true})
		}
	}
	f1 := &engine.Family{
		Name: "subsets", Bounds: fmt.Sprintf("every subset of the pairs of every matrix of sizes %v, from settings and through the constructor; whole table, two other instances and the file compared, %d texts tokenized", sizes, len(texts)),
		Size: int64(len(cs)),
		Run: func(i int64, t *engine.T) {
			c := cs[i]
			p := subset(c.l*c.r, c.bits, c.r)
			t.Input("matrix %dx%d, inhibited pairs %v (settings file: %v)", c.l, c.r, p, c.json)
			edit(t, c.l, c.r, p, c.json, true)
		},
	}
	ls := engine.NewStrings(4, 4)
	f2 := &engine.Family{
		Name: "lists", Bounds: "every list of up to 4 pairs of a 2x2 matrix, in any order and with repeats, from settings", Size: ls.Size(),
		Run: func(i int64, t *engine.T) {
			var p [][]int
			for _, x := range ls.Get(i) {
				p = append(p, []int{x / 2, x % 2})
			}
			t.Input("inhibited pairs %v", p)
			edit(t, 2, 2, p, true, false)
		},
	}
	type bigc struct{ l, r, x, y int }
	var bigs []bigc
	for _, s := range [][2]int{{127, 129}, {129, 127}, {256, 257}, {300, 2}, {2, 300}, {32767, 1}, {1, 32767}, {1000, 40}} {
		for _, x := range []int{0, 1, 126, 127, 128, 255, 256, s[0] / 2, s[0] - 1} {
			for _, y := range []int{0, 1, 127, 128, 255, 256, s[1] - 1} {
				if x < s[0] && y < s[1] {
					bigs = append(bigs, bigc{s[0], s[1], x, y})
				}
			}
		}
	}
	f3 := &engine.Family{
		Name: "big-matrices", Bounds: "single pairs at the corners and byte boundaries of matrices up to 32767 in one dimension, whole table compared", Size: int64(len(bigs)), Chunk: 1,
		Run: func(i int64, t *engine.T) {
			c := bigs[i]
			t.Input("matrix %dx%d, pair (%d,%d)", c.l, c.r, c.x, c.y)
			edit(t, c.l, c.r, [][]int{{c.x, c.y}}, i%2 == 0, false)
		},
	}
	ns := []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1200}
	parts := []int{1, 2, 3, 5, 17, 100}
	f5 := &engine.Family{
		Name: "many-pairs", Bounds: fmt.Sprintf("%v different pairs of a matrix 40x30 in three orders, the first ones also repeated at the end, by one plug-in and spread over %v; whole table compared", ns, parts[1:]), Size: int64(len(ns) * 3 * len(parts) * 2), Chunk: 8,
		Run: func(i int64, t *engine.T) {
			js := i%2 == 0
			k := parts[i/2%int64(len(parts))]
			o := int(i / 2 / int64(len(parts)) % 3)
			n := ns[i/2/int64(len(parts))/3]
			var p [][]int
			for j := 0; j < n; j++ {
				q := []int{j, 1199 - j, j * 7 % 1200}[o]
				p = append(p, []int{q / 30, q % 30})
			}
			for j := 0; j < n && j < 10; j++ {
				p = append(p, p[j])
			}
			t.Input("%d pairs, order %d, %d plug-ins, from settings %v", n, o, k, js)
			editParts(t, 40, 30, p, k, js, false)
		},
	}
	// pairs that are not pairs of ids of the matrix must be refused, not applied elsewhere
	vals := []int{-65536, -32769, -32768, -2, -1, 0, 1, 2, 3, 32767, 32768, 65535, 65536, 65537, 1 << 32}
	sp4 := engine.NewMix(len(vals), len(vals))
	odd := []interface{}{nil, []interface{}{nil}, []interface{}{[]int{}}, []interface{}{[]int{0}}, []interface{}{[]int{0, 0, 1}}, "x", []interface{}{"x"}, []interface{}{[]string{"0", "0"}}, []interface{}{[]interface{}{0.5, 1}}, 7, []interface{}{1, 2}, []interface{}{[]int{0, 1}, nil}}
	f4 := &engine.Family{
		Name: "odd-pairs", Bounds: fmt.Sprintf("all pairs of the values %v for a 2x3 matrix, and %d malformed values: an error, or exactly the listed pairs", vals, len(odd)),
		Size: sp4.Size() + int64(len(odd)),
		Run: func(i int64, t *engine.T) {
			f := get(2, 3)
			var p interface{}
			inh := map[[2]int]bool{}
			must := true
			if i < sp4.Size() {
				d := sp4.Get(i)
				x, y := vals[d[0]], vals[d[1]]
				p = [][]int{{x, y}}
				if x >= 0 && x < 2 && y >= 0 && y < 3 {
					inh[[2]int{x, y}] = true
					must = false
				}
			} else {
				k := i - sp4.Size()
				p = odd[k]
				if p == nil {
					must = false
				}
			}
			b, _ := json.Marshal(p)
			t.Input("inhibitedPair: %s", b)
			t.State(string(b))
			t.Trace(1)
			ps, err := plugins(p)
			if err == nil {
				var d *gosudachi.JapaneseDictionary
				var g *dictionary.Grammar
				d, g, err = open(f, ps, nil)
				if err == nil {
					checkTable(t, g, f.model, inh, "edited dictionary")
					d.Close()
					if must {
						t.Fail("accepted", "pairs %s for a 2x3 matrix are accepted", b)
					}
					return
				}
			}
			t.Outcome("refused")
			if !must {
				t.Fail("refused", "refused: %v", err)
			}
		},
	}
	return []*engine.Family{f1, f2, f3, f5, f4}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C25", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct matrix size and list of pairs; a transition is one cell of the connection table compared with the model; a trace is one loading or one tokenization compared with the minimum over the model's allowed paths",
		Assumptions: []string{"the option is called inhibitedPair, as in the Java implementation and as the plug-in's own field"},
	})
}
