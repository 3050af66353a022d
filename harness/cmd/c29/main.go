// C29: plug-ins and the debug output see the true lattice, and what plug-ins do
// to it is what happens.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"sync"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var scratchDir string

// ---- plug-ins that do what a case says

// call is one call of a provider.
type call struct {
	plugin, off int
	has         bool
}

// bench is a dictionary with scripted plug-ins.
type bench struct {
	d       *gosudachi.JapaneseDictionary
	tz      *gosudachi.JapaneseTokenizer
	log     []string
	calls   []call
	provide []func(text *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error)
	rewrite []func(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error
	input   []func(b *gosudachi.InputTextBuilder) error
	fail    map[string]error // by phase, for example "setup path 1"
	grammar *dictionary.Grammar
}

func (b *bench) step(f string, a ...interface{}) error {
	s := fmt.Sprintf(f, a...)
	b.log = append(b.log, s)
	return b.fail[s]
}

type provider struct {
	b *bench
	k int
}

func (p *provider) GetConfigStruct() interface{} { return &struct{}{} }
func (p *provider) SetUp(g *dictionary.Grammar) error {
	p.b.grammar = g
	return p.b.step("setup provider %d", p.k)
}
func (p *provider) ProvideOOV(text *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
	p.b.calls = append(p.b.calls, call{p.k, off, has})
	if err := p.b.step("provider %d", p.k); err != nil {
		return nil, err
	}
	return p.b.provide[p.k](text, off, has)
}

type rewriter struct {
	b *bench
	k int
}

func (p *rewriter) GetConfigStruct() interface{} { return &struct{}{} }
func (p *rewriter) SetUp(g *dictionary.Grammar) error {
	return p.b.step("setup path %d", p.k)
}
func (p *rewriter) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	if err := p.b.step("path %d", p.k); err != nil {
		return err
	}
	if f := p.b.rewrite[p.k]; f != nil {
		return f(text, path, lattice)
	}
	return nil
}

type inputter struct {
	b *bench
	k int
}

func (p *inputter) GetConfigStruct() interface{} { return &struct{}{} }
func (p *inputter) SetUp() error                 { return p.b.step("setup input %d", p.k) }
func (p *inputter) Rewrite(x *gosudachi.InputTextBuilder) error {
	if err := p.b.step("input %d", p.k); err != nil {
		return err
	}
	if f := p.b.input[p.k]; f != nil {
		return f(x)
	}
	return nil
}

type editor struct {
	b *bench
	k int
}

func (p *editor) GetConfigStruct() interface{} { return &struct{}{} }
func (p *editor) SetUp(g *dictionary.Grammar) error {
	return p.b.step("setup edit %d", p.k)
}
func (p *editor) Edit(g *dictionary.Grammar) error { return p.b.step("edit %d", p.k) }

// conf gives a configuration with scripted plug-ins before the given ones.
func (b *bench) conf(inputs, providers, paths, edits int, simple bool) tk.Conf {
	sys, _ := world.Dics(scratchDir, false)
	c := tk.Conf{Sys: sys, CharDef: tk.File(scratchDir, "world-char.def", []byte(world.CharDef))}
	for k := 0; k < inputs; k++ {
		c.In = append(c.In, &inputter{b, k})
	}
	for k := 0; k < providers; k++ {
		c.OOV = append(c.OOV, &provider{b, k})
	}
	if simple {
		c.OOV = append(c.OOV, tk.SimpleOOV(world.SYM, 0, 0, 6000))
	}
	for k := 0; k < paths; k++ {
		c.Path = append(c.Path, &rewriter{b, k})
	}
	for k := 0; k < edits; k++ {
		c.Edit = append(c.Edit, &editor{b, k})
	}
	b.input = make([]func(*gosudachi.InputTextBuilder) error, inputs)
	b.provide = make([]func(*gosudachi.InputText, int, bool) ([]*gosudachi.LatticeNode, error), providers)
	b.rewrite = make([]func(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error, paths)
	b.fail = map[string]error{}
	return c
}

// pool keeps benches of one kind.
type pool struct {
	mu   sync.Mutex
	free []*bench
	make func() *bench
}

func (p *pool) get() *bench {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.free); n > 0 {
		b := p.free[n-1]
		p.free = p.free[:n-1]
		return b
	}
	return p.make()
}

func (p *pool) put(b *bench) {
	b.log, b.calls, b.fail = nil, nil, map[string]error{}
	p.mu.Lock()
	p.free = append(p.free, b)
	p.mu.Unlock()
}

var (
	ranges, _ = ref.ParseRanges(world.CharDef)
	boom      = errors.New("refused by the plug-in")
)

func cats(c rune) uint32 { return ref.CatsOf(ranges, c) }

// ---- the lattice

// manyNodes: large numbers of nodes that a plug-in inserts and removes.
func manyNodes() *engine.Family {
	ns := []int{7, 8, 9, 11, 15, 16, 17, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600}
	orders := []string{"first to last", "last to first", "every third", "from the middle"}
	text := "あいう"
	at := []int{0, 3, 6, 9}
	spans := [][2]int{{0, 1}, {0, 2}, {1, 2}, {1, 3}, {0, 3}, {2, 3}}
	mix := engine.NewMix(len(ns), len(orders), len(spans))
	return &engine.Family{
		Name: "many-nodes", Bounds: fmt.Sprintf("%v nodes inserted by a plug-in over one range and over all ranges in turn, then removed %s; every look-up before and in between", ns, strings.Join(orders, ", ")),
		Size: mix.Size(), Chunk: 4,
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			n := ns[q[0]]
			t.Input("%d nodes, %s, range %v", n, orders[q[1]], spans[q[2]])
			b := &bench{}
			b.d = tk.Must(b.conf(0, 0, 1, 0, true))
			defer b.d.Close()
			bad := ""
			b.rewrite[0] = func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
				m := &lat{map[int][]*gosudachi.LatticeNode{}, len(in.Bytea)}
				for e := 0; e <= m.n; e++ {
					m.ends[e] = append([]*gosudachi.LatticeNode{}, l.GetNodesWithEnd(e)...)
				}
				var mine []*gosudachi.LatticeNode
				for k := 0; k < n; k++ {
					x := gosudachi.CreateNodeOfOOV()
					x.SetParameter(0, 0, int16(1000-(k*37)%n))
					x.SetWordInfo(&dictionary.WordInfo{Surface: fmt.Sprint(k)})
					s := spans[q[2]]
					if q[2] == 4 {
						s = spans[k%len(spans)]
					}
					l.Insert(at[s[0]], at[s[1]], x)
					m.ends[at[s[1]]] = append(m.ends[at[s[1]]], x)
					mine = append(mine, x)
				}
				if bad = m.check(l); bad != "" {
					return nil
				}
				for k := 0; k < n; k++ {
					j := k
					switch q[1] {
					case 1:
						j = n - 1 - k
					case 2:
						j = k * 3
						if j >= n {
							continue
						}
					case 3:
						j = (k + n/2) % n
					}
					x := mine[j]
					y := x.GetEnd()
					l.Remove(x.GetBegin(), y, x)
					for r, w := range m.ends[y] {
						if w == x {
							m.ends[y] = append(append([]*gosudachi.LatticeNode{}, m.ends[y][:r]...), m.ends[y][r+1:]...)
							break
						}
					}
					t.Transition(1)
					if k%(1+n/8) == 0 {
						if bad = m.check(l); bad != "" {
							return nil
						}
					}
				}
				bad = m.check(l)
				return nil
			}
			tz := b.d.Create()
			for pass := 0; pass < 2; pass++ {
				_, err := tz.Tokenize("C", text)
				t.Trace(1)
				if bad != "" || err != nil {
					t.Fail("lattice", "%d nodes, %s, range %v: %s %v", n, orders[q[1]], spans[q[2]], bad, err)
					return
				}
			}
			t.State("many", i)
		},
	}
}

// key is what a node is known by.
type lat struct {
	ends map[int][]*gosudachi.LatticeNode
	n    int
}

func (m *lat) check(l *gosudachi.Lattice) string {
	for e := 0; e <= m.n; e++ {
		want := m.ends[e]
		got := l.GetNodesWithEnd(e)
		if len(got) != len(want) {
			return fmt.Sprintf("%d nodes end at %d, want %d", len(got), e, len(want))
		}
		for k := range want {
			if got[k] != want[k] {
				return fmt.Sprintf("node %d of those that end at %d is another one", k, e)
			}
		}
		if h := l.HasPreviousNode(e); h != (len(want) > 0) {
			return fmt.Sprintf("HasPreviousNode(%d) = %v with %d nodes", e, h, len(want))
		}
		for b := 0; b <= m.n; b++ {
			var in []*gosudachi.LatticeNode
			var min *gosudachi.LatticeNode
			for _, n := range want {
				if n.GetBegin() == b {
					in = append(in, n)
					if min == nil || n.GetPathCost() < min.GetPathCost() {
						min = n
					}
				}
			}
			g := l.GetNodes(b, e)
			if len(g) != len(in) {
				return fmt.Sprintf("GetNodes(%d,%d) gives %d nodes, want %d", b, e, len(g), len(in))
			}
			for k := range in {
				if g[k] != in[k] {
					return fmt.Sprintf("GetNodes(%d,%d): node %d is another one", b, e, k)
				}
			}
			if e == 0 {
				continue // the beginning of the text is no word
			}
			if g := l.GetMinimumNode(b, e); g != min {
				return fmt.Sprintf("GetMinimumNode(%d,%d) is another node", b, e)
			}
		}
	}
	return ""
}

func latticeFamily(thorough bool) *engine.Family {
	texts := []string{"あ", "あい", "a1"}
	// operations: insert node k at a range, remove node k
	spans := [][2]int{{0, 1}, {0, 2}, {1, 2}}
	costs := []int16{5, -5, 5}
	ids := []int16{0, 1, -32768}
	nodes := len(costs)
	ops := nodes*len(spans) + nodes + 1 // the last one removes a node of the text
	depth := 4
	if thorough {
		depth = 5
	}
	sp := engine.NewStrings(ops, depth)
	mix := engine.NewMix(int(sp.Size()), len(texts))
	p := &pool{make: func() *bench {
		b := &bench{}
		b.d = tk.Must(b.conf(0, 0, 1, 0, true))
		b.tz = b.d.Create()
		return b
	}}
	return &engine.Family{
		Name: "lattice", Bounds: fmt.Sprintf("all sequences of up to %d operations of a path plug-in on the lattice of %d texts: %d nodes inserted over %d ranges or removed (also nodes of the text), every look-up after every operation; the same text again", depth, len(texts), nodes, len(spans)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			text := texts[q[1]]
			seq := sp.Get(int64(q[0]))
			b := p.get()
			defer p.put(b)
			var say []string
			bad := ""
			b.rewrite[0] = func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
				m := &lat{map[int][]*gosudachi.LatticeNode{}, len(in.Bytea)}
				for e := 0; e <= m.n; e++ {
					m.ends[e] = append([]*gosudachi.LatticeNode{}, l.GetNodesWithEnd(e)...)
				}
				if bad = m.check(l); bad != "" {
					return nil
				}
				// the characters' ends
				at := []int{0}
				for k := range text {
					if k > 0 {
						at = append(at, k)
					}
				}
				at = append(at, len(text))
				mine := make([]*gosudachi.LatticeNode, nodes)
				for k := range mine {
					mine[k] = gosudachi.CreateNodeOfOOV()
					mine[k].SetParameter(ids[0], ids[1], costs[k])
					mine[k].SetWordInfo(&dictionary.WordInfo{Surface: fmt.Sprint(k)})
				}
				for _, o := range seq {
					switch {
					case int(o) < nodes*len(spans):
						n, s := mine[int(o)/len(spans)], spans[int(o)%len(spans)]
						if s[1] >= len(at) {
							say = append(say, "nothing")
							continue
						}
						x, y := at[s[0]], at[s[1]]
						say = append(say, fmt.Sprintf("insert %d at %d..%d", int(o)/len(spans), x, y))
						l.Insert(x, y, n)
						m.ends[y] = append(m.ends[y], n)
						if n.GetBegin() != x || n.GetEnd() != y {
							bad = fmt.Sprintf("an inserted node has range %d..%d", n.GetBegin(), n.GetEnd())
						}
					default:
						k := int(o) - nodes*len(spans)
						var n *gosudachi.LatticeNode
						if k < nodes {
							n = mine[k]
							say = append(say, fmt.Sprintf("remove %d", k))
						} else {
							say = append(say, "remove a word of the text")
							if w := m.ends[at[1]]; len(w) > 0 {
								n = w[0]
							} else {
								continue
							}
						}
						x, y := n.GetBegin(), n.GetEnd()
						if y == 0 {
							continue // not inserted
						}
						l.Remove(x, y, n)
						for j, w := range m.ends[y] {
							if w == n { // the first one
								m.ends[y] = append(append([]*gosudachi.LatticeNode{}, m.ends[y][:j]...), m.ends[y][j+1:]...)
								break
							}
						}
					}
					t.Transition(1)
					if bad == "" {
						bad = m.check(l)
					}
					if bad != "" {
						return nil
					}
				}
				return nil
			}
			before, err := b.d.Create().Tokenize("C", text)
			_ = before
			if bad != "" || err != nil {
				t.Fail("lattice", "%q, %s: %s %v", text, strings.Join(say, ", "), bad, err)
				return
			}
			t.Input("text %q: %s", text, strings.Join(say, ", "))
			t.State(text, fmt.Sprint(say))
			say = nil
			ms, err := b.tz.Tokenize("C", text)
			if bad != "" || err != nil {
				t.Fail("lattice", "%q, %s: %s %v", text, strings.Join(say, ", "), bad, err)
				return
			}
			// what was done to the lattice is gone with the text
			b.rewrite[0] = nil
			again, err := b.tz.Tokenize("C", text)
			if err != nil || !gs.Equal(gs.Morphs(ms), gs.Morphs(again)) {
				t.Fail("again", "%q after %s: %v, %v", text, strings.Join(say, ", "), err, gs.Show(gs.Morphs(again)))
			}
			t.Trace(1)
		},
	}
}

// ---- unknown-word providers

var provided = []string{"nothing", "one character", "the rest of the run", "one and two characters", "one character if there is nothing else", "one character by the length of the word", "one character twice", "the rest of the text"}

// script gives what a provider does and its model.
func script(b *bench, k, kind int) (func(*gosudachi.InputText, int, bool) ([]*gosudachi.LatticeNode, error), ref.Provider) {
	left, right, cost := k, 1-k, []int{3000, -10}[k]
	pos := []string{world.U[:0] + world.N, world.V}[k]
	// the lengths, in characters, that it proposes
	lens := func(chars, run int, has bool) []int {
		switch kind {
		case 1, 5:
			return []int{1}
		case 2:
			return []int{run}
		case 3:
			if chars > 1 {
				return []int{1, 2}
			}
			return []int{1}
		case 4:
			if !has {
				return []int{1}
			}
		case 6:
			return []int{1, 1}
		case 7:
			return []int{chars}
		}
		return nil
	}
	f := func(in *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
		rest := string(in.Bytea[off:])
		run := in.CodePointCount(off, off+in.GetCharCategoryContinuousLength(off))
		var out []*gosudachi.LatticeNode
		id := b.grammar.GetPartOfSpeechId(strings.Split(pos, ","))
		for _, c := range lens(len([]rune(rest)), run, has) {
			s := string([]rune(rest)[:c])
			n := gosudachi.CreateNodeOfOOV()
			n.SetParameter(int16(left), int16(right), int16(cost))
			n.SetWordInfo(&dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(s)), PosId: id, NormalizedForm: s, DictionaryForm: s})
			if kind != 5 {
				n.SetRange(7, 7+len(s)) // the place is set by the tokenizer
			}
			out = append(out, n)
		}
		return out, nil
	}
	m := func(t *ref.Text, p int, has bool) []ref.Cand {
		rest := []rune(t.S[p:])
		run := len([]rune(t.S[p:t.RunEnd(p)]))
		var out []ref.Cand
		for _, c := range lens(len(rest), run, has) {
			s := string(rest[:c])
			out = append(out, ref.Cand{B: p, E: p + len(s), Left: left, Right: right, Cost: cost, Dic: -1, Word: -1, OOV: true, POS: pos, Surface: s})
		}
		return out
	}
	return f, m
}

func providerFamily(thorough bool) *engine.Family {
	sym := []string{"あ", "い", "ァ", "a", "東", "x"}
	n := 3
	if thorough {
		n = 4
	}
	sp := engine.NewStrings(len(sym), n)
	kinds := len(provided)
	models := world.Models()[:1]
	type bp struct {
		*bench
		probe *tk.Probe
	}
	probes := map[*bench]*tk.Probe{}
	var mu sync.Mutex
	p := &pool{make: func() *bench {
		b := &bench{}
		c := b.conf(0, 2, 0, 0, false)
		pr := &tk.Probe{Lattice: true}
		c.Path = append(c.Path, pr)
		b.d = tk.Must(c)
		b.tz = b.d.Create()
		mu.Lock()
		probes[b] = pr
		mu.Unlock()
		return b
	}}
	mix := engine.NewMix(int(sp.Size())-1, kinds, kinds)
	return &engine.Family{
		Name: "providers", Bounds: fmt.Sprintf("two providers of the user that each do one of %d things (%s), all texts of up to %d characters over %q: the calls, the candidates, the path; and an error at each call in turn", kinds, strings.Join(provided, ", "), n, sym),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			text := world.Text(sp, sym, int64(q[0])+1)
			b := p.get()
			defer p.put(b)
			what := fmt.Sprintf("text %q, providers of %s and of %s", text, provided[q[1]], provided[q[2]])
			t.Input("%s", what)
			t.State(i)
			c := &ref.Conf{Dicts: models, Cats: cats}
			var want []call
			for k := 0; k < 2; k++ {
				k := k
				f, m := script(b, k, q[1+k])
				b.provide[k] = f
				c.OOV = append(c.OOV, func(t *ref.Text, p int, has bool) []ref.Cand {
					want = append(want, call{k, p, has})
					return m(t, p, has)
				})
			}
			tx := ref.Plain(text, cats)
			c.Candidates(tx)
			calls := want
			mu.Lock()
			pr := probes[b]
			mu.Unlock()
			path, bad := tk.CheckBest(c, tx, text, b.d, b.tz, pr, true)
			t.Trace(1)
			if bad != "" {
				t.Fail("candidates", "%s: %s", what, bad)
				return
			}
			if fmt.Sprint(b.calls) != fmt.Sprint(calls) {
				t.Fail("calls", "%s: the providers are called with %v, want %v", what, b.calls, calls)
				return
			}
			t.Transition(len(calls))
			if path == nil {
				t.Outcome("no path")
			} else {
				t.Outcome("path")
			}
			if len(text) > 6 && !thorough {
				return
			}
			// an error of a call is the error of the tokenization, and nothing remains of it
			for at := range calls {
				k := 0
				for j := 0; j < 2; j++ {
					j := j
					f, _ := script(b, j, q[1+j])
					b.provide[j] = func(in *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
						k++
						if k-1 == at {
							ns, _ := f(in, off, has)
							return ns, boom
						}
						return f(in, off, has)
					}
				}
				b.calls = nil
				ms, err := b.tz.Tokenize("C", text)
				if err != boom || ms != nil {
					t.Fail("error", "%s, call %d fails: error %v", what, at, err)
					return
				}
				if len(b.calls) != at+1 {
					t.Fail("error", "%s, call %d fails: %d calls", what, at, len(b.calls))
					return
				}
				for j := 0; j < 2; j++ {
					b.provide[j], _ = script(b, j, q[1+j])
				}
				if _, bad := tk.CheckBest(c, tx, text, b.d, b.tz, pr, true); bad != "" {
					t.Fail("after an error", "%s, after an error at call %d: %s", what, at, bad)
					return
				}
				t.Transition(1)
			}
		},
	}
}

// ---- path plug-ins

func pathFamily(thorough bool) *engine.Family {
	texts := []string{"", "あ", "あい", "a1い", "東京都い", "いx京あ", "カxカい", "ーー𠮷い1", "1あ東x"}
	// operations of one plug-in: concatenate [b,e) in one of 4 ways
	const max = 5
	type op struct{ b, e, how int }
	ops := []op{{0, 0, -1}}
	for how := 0; how < 4; how++ {
		for b := 0; b < max; b++ {
			for e := b; e <= max; e++ {
				ops = append(ops, op{b, e, how})
			}
		}
	}
	hows := []string{"as one word", "as one word with a normalized form", "as an unknown word", "as an unknown word of another part of speech"}
	mix := engine.NewMix(len(texts), len(ops), len(ops))
	p := &pool{make: func() *bench {
		b := &bench{}
		b.d = tk.Must(b.conf(0, 0, 3, 0, true))
		b.tz = b.d.Create()
		return b
	}}
	type item struct {
		node     *gosudachi.LatticeNode
		b, e     int
		wi       dictionary.WordInfo
		oov      bool
		dic, wid int
	}
	read := func(n *gosudachi.LatticeNode) item {
		return item{n, n.GetBegin(), n.GetEnd(), *n.GetWordInfo(), n.IsOOV(), n.GetDictionaryId(), n.GetWordId()}
	}
	show := func(x item) string {
		return fmt.Sprintf("%d..%d %+v oov=%v dic=%d", x.b, x.e, x.wi, x.oov, x.dic)
	}
	return &engine.Family{
		Name: "path", Bounds: fmt.Sprintf("two path plug-ins that each concatenate one of all ranges of up to %d words in 4 ways (%s), %d texts: the path after each, the words of the result, everything they report", max, strings.Join(hows, ", "), len(texts)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			text := texts[q[0]]
			b := p.get()
			defer p.put(b)
			var say []string
			bad := ""
			var final []item
			// model of one plug-in
			apply := func(o op) func(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
				return func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
					if o.how < 0 || o.e > len(*path) {
						return nil
					}
					say = append(say, fmt.Sprintf("words %d..%d %s", o.b, o.e, hows[o.how]))
					var old []item
					for _, n := range *path {
						old = append(old, read(n))
					}
					var got *gosudachi.LatticeNode
					var err error
					norm := ""
					pos := int16(0)
					if len(old) > 0 && o.b < len(old) {
						pos = old[o.b].wi.PosId
					}
					switch o.how {
					case 1:
						norm = "N"
						fallthrough
					case 0:
						got, err = gosudachi.ConcatenateNodes(path, o.b, o.e, l, norm)
					case 3:
						pos = (pos + 1) % 4
						fallthrough
					case 2:
						got, err = gosudachi.ConcatenateOov(path, o.b, o.e, pos, l)
					}
					if o.b >= o.e {
						if err == nil {
							bad = "an empty range is no error"
						}
						if len(*path) != len(old) {
							bad = "an error changes the path"
						}
						for k := range *path {
							if (*path)[k] != old[k].node {
								bad = "an error changes the path"
							}
						}
						return nil
					}
					if err != nil {
						bad = err.Error()
						return nil
					}
					want := item{b: old[o.b].b, e: old[o.e-1].e, dic: -1}
					var known *gosudachi.LatticeNode
					if o.how >= 2 {
						for _, n := range l.GetNodesWithEnd(want.e) {
							if n.GetBegin() == want.b && (known == nil || n.GetPathCost() < known.GetPathCost()) {
								known = n
							}
						}
					}
					if known != nil {
						want = read(known)
						if got != known {
							bad = "the word of the lattice is not used"
							return nil
						}
					} else {
						w := &want.wi
						w.PosId = pos
						for _, x := range old[o.b:o.e] {
							w.Surface += x.wi.Surface
							w.HeadwordLength += x.wi.HeadwordLength
							w.NormalizedForm += x.wi.NormalizedForm
							w.DictionaryForm += x.wi.DictionaryForm
							w.ReadingForm += x.wi.ReadingForm
						}
						if o.how == 1 {
							w.NormalizedForm = norm
						}
						if o.how >= 2 {
							w.NormalizedForm, w.DictionaryForm, w.ReadingForm = w.Surface, w.Surface, ""
							want.oov = true
						}
					}
					if len(*path) != len(old)-(o.e-o.b)+1 {
						bad = fmt.Sprintf("a path of %d words, want %d", len(*path), len(old)-(o.e-o.b)+1)
						return nil
					}
					if (*path)[o.b] != got {
						bad = "the word returned is not the one in the path"
						return nil
					}
					if g := show(read(got)); g != show(want) {
						bad = fmt.Sprintf("the new word is %s, want %s", g, show(want))
						return nil
					}
					rest := append(append([]item{}, old[:o.b]...), item{node: got})
					rest = append(rest, old[o.e:]...)
					for k := range *path {
						if (*path)[k] != rest[k].node {
							bad = fmt.Sprintf("word %d of the path is another one", k)
							return nil
						}
						if k != o.b && show(read((*path)[k])) != show(rest[k]) {
							bad = fmt.Sprintf("word %d of the path is changed", k)
							return nil
						}
					}
					t.Transition(1)
					return nil
				}
			}
			b.rewrite[0], b.rewrite[1] = apply(ops[q[1]]), apply(ops[q[2]])
			b.rewrite[2] = func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
				for _, n := range *path {
					final = append(final, read(n))
				}
				return nil
			}
			ms, err := b.tz.Tokenize("C", text)
			t.Trace(1)
			in := fmt.Sprintf("%q: %s", text, strings.Join(say, ", "))
			t.Input("%s", in)
			t.State(in)
			if err != nil || bad != "" {
				t.Fail("path", "%s: %s %v", in, bad, err)
				return
			}
			if ms.Length() != len(final) {
				t.Fail("result", "%s: %d words, the path has %d", in, ms.Length(), len(final))
				return
			}
			at := 0
			for k, x := range final {
				m := ms.Get(k)
				n := len([]rune(text[x.b:x.e]))
				pos := strings.Join(b.d.GetPartOfSpeechString(x.wi.PosId), ",")
				if m.Begin() != at || m.End() != at+n || m.Surface() != text[x.b:x.e] || m.NormalizedForm() != x.wi.NormalizedForm || m.DictionaryForm() != x.wi.DictionaryForm || m.ReadingForm() != x.wi.ReadingForm || strings.Join(m.PartOfSpeech(), ",") != pos || m.IsOOV() != x.oov || m.GetDictionaryId() != x.dic || m.GetWordId() != x.wid {
					t.Fail("result", "%s: word %d is %q %d..%d %q %q %q oov %v dictionary %d, want %s", in, k, m.Surface(), m.Begin(), m.End(), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), m.IsOOV(), m.GetDictionaryId(), show(x))
					return
				}
				at += n
			}
		},
	}
}

// ---- the order of plug-ins and their errors

func orderFamily(name string, n int) *engine.Family {
	var phases []string
	for k := 0; k < n; k++ {
		phases = append(phases, fmt.Sprintf("setup edit %d", k), fmt.Sprintf("edit %d", k))
	}
	for _, x := range []string{"setup input", "setup provider", "setup path"} {
		for k := 0; k < n; k++ {
			phases = append(phases, fmt.Sprintf("%s %d", x, k))
		}
	}
	start := len(phases)
	texts := []string{"あ", "あx"}
	trace := func(text string) []string {
		var out []string
		for k := 0; k < n; k++ {
			out = append(out, fmt.Sprintf("input %d", k))
		}
		for range []rune(text) {
			for k := 0; k < n; k++ {
				out = append(out, fmt.Sprintf("provider %d", k))
			}
		}
		for k := 0; k < n; k++ {
			out = append(out, fmt.Sprintf("path %d", k))
		}
		return out
	}
	run := trace("あ")
	return &engine.Family{
		Name: name, Bounds: fmt.Sprintf("%d plug-ins of each of the 4 kinds: the order of all calls at start and for a text; an error of each of the %d calls in turn is the error of the start or of the tokenization, nothing is called after it, and the next text is as ever", n, start+len(run)),
		Size: int64(start+len(run)) + 1,
		Run: func(i int64, t *engine.T) {
			b := &bench{}
			c := b.conf(n, n, n, n, false)
			for k := range b.provide {
				k := k
				b.provide[k] = func(in *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
					if k != 1 {
						return nil, nil
					}
					s := string([]rune(string(in.Bytea[off:]))[:1])
					x := gosudachi.CreateNodeOfOOV()
					x.SetParameter(0, 0, 10)
					x.SetWordInfo(&dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(s)), NormalizedForm: s, DictionaryForm: s})
					return []*gosudachi.LatticeNode{x}, nil
				}
			}
			t.State(i)
			t.Trace(1)
			what := "no error"
			at := int(i) - 1
			if at >= 0 {
				what = append(append([]string{}, phases...), run...)[at]
				b.fail[what] = boom
			}
			t.Input("%s fails", what)
			d, err := tk.Open(c)
			want := phases
			if at >= 0 && at < start {
				want = phases[:at+1]
				if err != boom {
					t.Fail("start", "%s fails: the start gives error %v", what, err)
					if err == nil {
						d.Close()
					}
					return
				}
			} else if err != nil {
				t.Fail("start", "error %v", err)
				return
			}
			if strings.Join(b.log, ", ") != strings.Join(want, ", ") {
				t.Fail("order", "%s fails: calls at start %v, want %v", what, b.log, want)
				return
			}
			t.Transition(len(b.log))
			if err != nil {
				t.Outcome("start refused")
				return
			}
			defer d.Close()
			tz := d.Create()
			b.log = nil
			ms, err := tz.Tokenize("B", texts[0])
			want = run
			if at >= start {
				for k := range run {
					if run[k] == what {
						want = run[:k+1]
						break
					}
				}
				if err != boom || ms != nil {
					t.Fail("error", "%s fails: the tokenization gives error %v", what, err)
					return
				}
			} else if err != nil {
				t.Fail("error", "error %v", err)
				return
			}
			if strings.Join(b.log, ", ") != strings.Join(want, ", ") {
				t.Fail("order", "%s fails: calls %v, want %v", what, b.log, want)
				return
			}
			t.Transition(len(b.log))
			b.fail = map[string]error{}
			b.log = nil
			ms, err = tz.Tokenize("B", texts[1])
			if err != nil || gs.Show(gs.Morphs(ms)) == "" || ms.Length() != 2 || strings.Join(b.log, ", ") != strings.Join(trace(texts[1]), ", ") {
				t.Fail("after an error", "after an error of %s: error %v, calls %v", what, err, b.log)
				return
			}
			t.Outcome("text tokenized")
		},
	}
}

// ---- the debug output

// costsOf are the connection costs of the model.
func dumpOf(before, after []tk.Node, text string, lat map[int][]tk.Node, m *ref.Dict, pos func(int16) string) string {
	conn := func(r, l int) int {
		return m.Matrix[l*m.L+r]
	}
	var w strings.Builder
	fmt.Fprintf(&w, "=== Input dump\n%s\n=== Lattice dump\n", text)
	k := 0
	line := func(n tk.Node, surface, p string) {
		fmt.Fprintf(&w, "%d: %d %d %s(%d) %s %d %d %d: ", k, n.Begin, n.End, surface, int32(uint32(n.WordId)), p, n.Left, n.Right, n.Cost)
		k++
		for _, x := range lat[n.Begin] {
			fmt.Fprintf(&w, "%d ", conn(x.Right, n.Left))
		}
		w.WriteString("\n")
	}
	line(tk.Node{Begin: len(text), End: len(text)}, "(null)", "BOS/EOS")
	for e := len(text); e >= 0; e-- {
		for _, n := range lat[e] {
			if e == 0 {
				line(n, "(null)", "BOS/EOS")
				continue
			}
			line(n, n.Info.Surface, pos(n.Info.PosId))
		}
	}
	path := func(ns []tk.Node) {
		for k, n := range ns {
			fmt.Fprintf(&w, "%d: %d %d %s(%d) %d %d %d %d\n", k, n.Begin, n.End, n.Info.Surface, int32(uint32(n.WordId)), n.Info.PosId, n.Left, n.Right, n.Cost)
		}
	}
	w.WriteString("=== Before rewriting:\n")
	path(before)
	w.WriteString("=== After rewriting:\n")
	path(after)
	w.WriteString("===\n")
	return w.String()
}

type seen struct {
	text string
	lat  map[int][]tk.Node
	path []tk.Node
}

type eye struct {
	mu   sync.Mutex
	last seen
}

func (p *eye) GetConfigStruct() interface{}      { return &struct{}{} }
func (p *eye) SetUp(g *dictionary.Grammar) error { return nil }
func (p *eye) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
	s := seen{text: string(text.Bytea), lat: map[int][]tk.Node{}}
	for e := 0; e <= len(text.Bytea); e++ {
		for _, n := range l.GetNodesWithEnd(e) {
			s.lat[e] = append(s.lat[e], tk.NodeOf(n))
		}
	}
	for _, n := range *path {
		s.path = append(s.path, tk.NodeOf(n))
	}
	p.last = s
	return nil
}

type watched struct {
	d           *gosudachi.JapaneseDictionary
	first, last *eye
}

func openWatched(k, more int) *watched {
	s := world.Sets[k]
	c := s.Conf(scratchDir)
	for j := 0; j < more; j++ {
		c.OOV = append([]gosudachi.OovProviderPlugin{tk.SimpleOOV(world.SYM, 0, 0, 6000+j*13%more)}, c.OOV...)
	}
	w := &watched{first: &eye{}, last: &eye{}}
	c.Path = append(append([]gosudachi.PathRewritePlugin{w.first}, c.Path...), w.last)
	w.d = tk.Must(c)
	return w
}

// dump gives the debug output for a text and what it must be; the order of the
// nodes with the same end is that of the lattice.
func (w *watched) dump(mode, text string, ms []*ref.Dict) (string, string, *gosudachi.MorphemeList, error) {
	tz := w.d.Create()
	var out bytes.Buffer
	tz.DumpOutput = &out
	r, err := tz.Tokenize(mode, text)
	if err != nil || text == "" {
		return out.String(), "", r, err
	}
	pos := func(id int16) string {
		if id < 0 {
			return "(null)"
		}
		return strings.Join(w.d.GetPartOfSpeechString(id), ",")
	}
	after := w.last.last.path
	if mode != "C" {
		var s []tk.Node
		for _, n := range after {
			ids := n.Info.BUnitSplit
			if mode == "A" {
				ids = n.Info.AUnitSplit
			}
			if len(ids) < 2 {
				s = append(s, n)
				continue
			}
			at := n.Begin
			for _, id := range ids {
				d, k := int(uint32(id)>>28), int(id&0xfffffff)
				x := &ms[d].Words[k]
				p := int16(-1)
				for q := 0; q < w.d.GetPartOfSpeechSize(); q++ {
					if strings.Join(w.d.GetPartOfSpeechString(int16(q)), ",") == strings.Join(x.POS[:], ",") {
						p = int16(q)
						break
					}
				}
				s = append(s, tk.Node{Begin: at, End: at + len(x.Head), WordId: int(uint32(id)), Info: dictionary.WordInfo{Surface: x.Surface, PosId: p}})
				at += len(x.Head)
			}
		}
		after = s
	}
	return out.String(), dumpOf(w.first.last.path, after, w.first.last.text, w.first.last.lat, ms[0], pos), r, nil
}

func dumpFamily(thorough bool) *engine.Family {
	sym := []string{"あ", "い", "東京都", "京都い", "1", "十", "カナ", "ァ", "ーー", "x", "Ａ", "𠮷い", "記"}
	n := 3
	if thorough {
		n = 4
	}
	sp := engine.NewStrings(len(sym), n)
	models := world.Models()
	mix := engine.NewMix(int(sp.Size()), len(world.Sets))
	pools := make([]sync.Pool, len(world.Sets))
	for k := range pools {
		k := k
		pools[k].New = func() interface{} { return openWatched(k, 0) }
	}
	return &engine.Family{
		Name: "dump", Bounds: fmt.Sprintf("all texts of up to %d symbols over %q, %d sets, modes A, B, C: the debug output is, line by line, the text, every node of the lattice with its connection costs, the path before and after rewriting; and the result is the same as without it", n, sym, len(world.Sets)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			w := pools[q[1]].Get().(*watched)
			defer pools[q[1]].Put(w)
			text := world.Text(sp, sym, int64(q[0]))
			what := fmt.Sprintf("set %s, text %q", world.Sets[q[1]].Name, text)
			t.Input("%s", what)
			t.State(i)
			sameDump(t, w, what, text, models)
		},
	}
}

// commandFamily: the command with -d prints the same, and the debug output before each result.
// sameDump compares the debug output and the results of the three modes.
func sameDump(t *engine.T, w *watched, what, text string, models []*ref.Dict) {
	for _, mode := range []string{"A", "B", "C"} {
		a, aerr := w.d.Create().Tokenize(mode, text)
		got, want, b, berr := w.dump(mode, text, models)
		t.Trace(1)
		if (aerr == nil) != (berr == nil) {
			t.Fail("result", "%s, mode %s: error %v, with debug output %v", what, mode, aerr, berr)
			return
		}
		if aerr != nil {
			t.Outcome("no path")
			continue
		}
		if !gs.Equal(gs.Morphs(a), gs.Morphs(b)) {
			t.Fail("result", "%s, mode %s: %s, with debug output %s", what, mode, gs.Show(gs.Morphs(a)), gs.Show(gs.Morphs(b)))
			return
		}
		if got != want {
			g, x := strings.Split(got, "\n"), strings.Split(want, "\n")
			for k := 0; k < len(g) || k < len(x); k++ {
				if k >= len(g) || k >= len(x) || g[k] != x[k] {
					if k < len(g) {
						got = g[k]
					}
					if k < len(x) {
						want = x[k]
					}
					t.Fail("dump", "%s, mode %s: line %d of the debug output is %q, want %q", what, mode, k, got, want)
					return
				}
			}
		}
		t.Transition(strings.Count(got, "\n"))
		t.Outcome("dumped")
	}
}

// longDumps: long texts, and many words that end at one place.
func longDumps() *engine.Family {
	sym := []string{"あ", "い東京都", "1十", "カナ", "x", "𠮷い", "都x1"}
	ns := []int{10, 40, 101, 130, 300}
	more := []int{0, 7, 30, 70}
	models := world.Models()
	mix := engine.NewMix(len(sym), len(ns), len(more), len(world.Sets))
	return &engine.Family{
		Name: "long-dump", Bounds: fmt.Sprintf("%q repeated %v times, %d sets with %v further providers, modes A, B, C: the debug output as above", sym, ns, len(world.Sets), more),
		Size: mix.Size(), Chunk: 1,
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			if more[q[2]] > 7 && ns[q[1]] > 101 {
				return
			}
			w := openWatched(q[3], more[q[2]])
			defer w.d.Close()
			text := strings.Repeat(sym[q[0]], ns[q[1]])
			what := fmt.Sprintf("set %s with %d more providers, %d times %q", world.Sets[q[3]].Name, more[q[2]], ns[q[1]], sym[q[0]])
			t.Input("%s", what)
			t.State("long", i)
			sameDump(t, w, what, text, models)
		},
	}
}

func commandFamily() *engine.Family {
	texts := []string{"東京都あい", "カナア一十x", "", "ーー", "1,2ab"}
	mix := engine.NewMix(len(world.Sets), 3, 2, 1<<uint(len(texts)))
	models := world.Models()
	pools := make([]sync.Pool, len(world.Sets))
	for k := range pools {
		k := k
		pools[k].New = func() interface{} { return openWatched(k, 0) }
	}
	return &engine.Family{
		Name: "command", Bounds: fmt.Sprintf("gosudachicli -d with every selection of %d lines, %d sets, modes A, B, C, with and without -a: for each line the debug output of that line and the result", len(texts), len(world.Sets)),
		Size: mix.Size(),
		Run: func(i int64, t *engine.T) {
			q := mix.Get(i)
			w := pools[q[0]].Get().(*watched)
			defer pools[q[0]].Put(w)
			mode := []string{"A", "B", "C"}[q[1]]
			conf := tk.File(scratchDir, "world-"+world.Sets[q[0]].Name+".json", []byte(world.Sets[q[0]].JSON(scratchDir)))
			args := []string{"-r", conf, "-d", "-m", mode}
			if q[2] == 1 {
				args = append(args, "-a")
			}
			if world.Sets[q[0]].UTF16 {
				args = append(args, "-j")
			}
			in, want := "", ""
			for k, x := range texts {
				if q[3]>>uint(k)&1 == 0 {
					continue
				}
				in += x + "\n"
				_, dump, ms, err := w.dump(mode, x, models)
				if err != nil {
					t.Fail("harness", "%q: %v", x, err)
					return
				}
				want += dump
				for _, m := range gs.Morphs(ms) {
					want += fmt.Sprintf("%s\t%s\t%s", m.Surface, m.POS, m.Norm)
					if q[2] == 1 {
						want += "\t*"
					}
					want += "\n"
				}
				want += "EOS\n"
			}
			t.Input("gosudachicli %s with %q", strings.Join(args, " "), in)
			t.State(i)
			t.Trace(1)
			r := cli.Run(scratchDir, cli.Build(scratchDir, "gosudachicli"), strings.NewReader(in), args...)
			if r.Code != 0 {
				t.Fail("command", "exit %d: %.300s", r.Code, r.Err)
				return
			}
			got := r.Out
			if q[2] == 1 { // columns that C22 checks
				var ls []string
				for _, l := range strings.SplitAfter(got, "\n") {
					if f := strings.Split(l, "\t"); len(f) > 4 {
						l = strings.Join(f[:3], "\t") + "\t*\n"
					}
					ls = append(ls, l)
				}
				got = strings.Join(ls, "")
			}
			if got != want {
				t.Fail("command", "output %q, want %q", got, want)
				return
			}
			t.Transition(strings.Count(got, "\n"))
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	scratchDir = scratch
	thorough := tier == engine.Thorough
	return []*engine.Family{latticeFamily(thorough), providerFamily(thorough), pathFamily(thorough), orderFamily("order", 3), orderFamily("order-many", 40), dumpFamily(thorough), longDumps(), manyNodes(), commandFamily()}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C29", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct text with a distinct behaviour of the plug-ins; a transition is one operation of a plug-in, one call of a plug-in or one line of debug output compared with the model; a trace is one tokenization",
		Assumptions: []string{"plug-ins insert nodes inside the text and ask for positions inside it", "nodes with the same end are dumped in the order of the lattice"},
	})
}
