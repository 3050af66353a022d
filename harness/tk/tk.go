// Package tk builds complete tokenizers over scratch files and observes them
// through the plugin interfaces.
package tk

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// Node is what can be seen of a lattice node.
type Node struct {
	Begin, End  int
	Left, Right int
	Cost        int
	WordId      int
	DicId       int
	OOV         bool
	Info        dictionary.WordInfo
}

// NodeOf reads a lattice node.
func NodeOf(n *gosudachi.LatticeNode) Node {
	wi := n.GetWordInfo()
	r := Node{Begin: n.GetBegin(), End: n.GetEnd(), Cost: n.GetPathCost(), WordId: n.GetWordId(), DicId: n.GetDictionaryId(), OOV: n.IsOOV(), Info: *wi}
	f := strings.Fields(n.String())
	if len(f) >= 4 {
		fmt.Sscan(f[len(f)-3], &r.Left)
		fmt.Sscan(f[len(f)-2], &r.Right)
	}
	return r
}

// Probe is a path rewrite plugin that records the input text, the lattice and the path.
type Probe struct {
	Input *gosudachi.InputText
	Nodes []Node
	Path  []Node
	Calls int
	// Want limits recording to the path when false.
	Lattice bool
}

func (p *Probe) GetConfigStruct() interface{} { return &struct{}{} }

func (p *Probe) SetUp(grammar *dictionary.Grammar) error { return nil }

func (p *Probe) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	p.Calls++
	p.Input = text
	p.Nodes = nil
	p.Path = nil
	for _, n := range *path {
		p.Path = append(p.Path, NodeOf(n))
	}
	if p.Lattice {
		for e := 1; e <= len(text.Bytea); e++ {
			for _, n := range lattice.GetNodesWithEnd(e) {
				p.Nodes = append(p.Nodes, NodeOf(n))
			}
		}
	}
	return nil
}

// CharPOS provides the fallback word.
func SimpleOOV(pos string, l, r, c int) gosudachi.OovProviderPlugin {
	p := strings.Split(pos, ",")
	l16, r16, c16 := int16(l), int16(r), int16(c)
	return gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &p, LeftId: &l16, RightId: &r16, Cost: &c16})
}

// MeCabOOV is the definition driven provider; empty names use the shipped files.
func MeCabOOV(charDef, unkDef string) gosudachi.OovProviderPlugin {
	return gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &charDef, UnkDef: &unkDef})
}

// JoinNumeric makes the numeral plugin.
func JoinNumeric(normalize bool) gosudachi.PathRewritePlugin {
	return gosudachi.NewJoinNumericPlugin(&gosudachi.JoinNumericPluginConfig{EnableNormalize: &normalize})
}

// JoinKatakana makes the katakana plugin.
func JoinKatakana(pos string, min int) gosudachi.PathRewritePlugin {
	p := strings.Split(pos, ",")
	return gosudachi.NewJoinKatakanaOovPlugin(&gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &p, MinLength: &min})
}

// DefaultInput makes the default input rewriting; an empty name uses the shipped table.
func DefaultInput(rewriteDef string) gosudachi.InputTextPlugin {
	return gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: rewriteDef})
}

// Prolonged makes the prolonged sound mark rewriting.
func Prolonged(marks []string, symbol string) gosudachi.InputTextPlugin {
	return gosudachi.NewProlongedSoundMarkInputTextPlugin(&gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &symbol})
}

// Conf describes a dictionary to open.
type Conf struct {
	Sys     string
	CharDef string
	User    []string
	UTF16   bool
	In      []gosudachi.InputTextPlugin
	OOV     []gosudachi.OovProviderPlugin
	Path    []gosudachi.PathRewritePlugin
	Edit    []gosudachi.EditConnectionCostPlugin
}

// Open opens a dictionary.
func Open(c Conf) (*gosudachi.JapaneseDictionary, error) {
	cfg := &gosudachi.BaseConfig{SystemDict: c.Sys, CharacterDefinitionFile: c.CharDef, UserDict: c.User, Utf16String: c.UTF16}
	return gosudachi.NewJapaneseDictionary(cfg, c.In, c.OOV, c.Path, c.Edit)
}

// Must opens a dictionary.
func Must(c Conf) *gosudachi.JapaneseDictionary {
	d, err := Open(c)
	if err != nil {
		panic(fmt.Sprintf("cannot open the dictionary: %v", err))
	}
	return d
}

// File writes a scratch file once (atomically) and returns its path.
func File(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return p
	}
	f, err := os.CreateTemp(dir, name+".*")
	if err != nil {
		panic(err)
	}
	if _, err := f.Write(b); err != nil {
		panic(err)
	}
	f.Close()
	if err := os.Rename(f.Name(), p); err != nil {
		panic(err)
	}
	return p
}

// Cand turns an observed node into a candidate of the model.
func (n Node) Cand(d *gosudachi.JapaneseDictionary) ref.Cand {
	pos := fmt.Sprintf("part of speech %d", n.Info.PosId)
	if n.Info.PosId >= 0 && int(n.Info.PosId) < d.GetPartOfSpeechSize() {
		pos = strings.Join(d.GetPartOfSpeechString(n.Info.PosId), ",")
	}
	c := ref.Cand{B: n.Begin, E: n.End, Left: n.Left, Right: n.Right, Cost: n.Cost, Dic: -1, Word: -1, OOV: n.OOV, POS: pos, Surface: n.Info.Surface}
	if !n.OOV {
		c.Dic = n.DicId
		c.Word = n.WordId & 0xfffffff
	}
	return c
}

// Diff describes the difference of two sorted string sets.
func Diff(got, want []string) string {
	m := map[string]int{}
	for _, g := range got {
		m[g] |= 1
	}
	for _, w := range want {
		m[w] |= 2
	}
	var a, b []string
	for k, v := range m {
		switch v {
		case 1:
			a = append(a, k)
		case 2:
			b = append(b, k)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	if len(a) > 6 {
		a = append(a[:6], "...")
	}
	if len(b) > 6 {
		b = append(b[:6], "...")
	}
	return "unexpected: " + strings.Join(a, "; ") + " missing: " + strings.Join(b, "; ")
}

// CheckBest tokenizes a text the model has normalised the same way and checks
// that the candidates are those of the model (as a set), that the path chosen
// before any rewriting tiles the text and is made of candidates, and that no
// cheaper path exists; the tokenizer must fail exactly when the model has no path.
// It returns the path and a complaint.
func CheckBest(c *ref.Conf, t *ref.Text, text string, d *gosudachi.JapaneseDictionary, tz *gosudachi.JapaneseTokenizer, p *Probe, cands bool) ([]ref.Cand, string) {
	want, ok := c.Candidates(t)
	cost := 0
	if ok {
		cost, ok = c.Best(want, len(t.S))
	}
	calls := p.Calls
	_, err := tz.Tokenize("C", text)
	if err != nil {
		if ok {
			return nil, fmt.Sprintf("fails although a path of cost %d exists: %v", cost, err)
		}
		return nil, ""
	}
	if !ok {
		return nil, "succeeds although no allowed path exists"
	}
	if p.Calls != calls+1 {
		return nil, "harness: the path was not observed"
	}
	if string(p.Input.Bytea) != t.S {
		return nil, fmt.Sprintf("normalised text %q, want %q", p.Input.Bytea, t.S)
	}
	if cands {
		var got []ref.Cand
		for _, n := range p.Nodes {
			got = append(got, n.Cand(d))
		}
		g, w := ref.SetKey(got), ref.SetKey(want)
		if strings.Join(g, "\n") != strings.Join(w, "\n") {
			return nil, "candidates: " + Diff(g, w)
		}
	}
	set := map[string]bool{}
	for _, k := range want {
		set[k.String()] = true
	}
	var path []ref.Cand
	at := 0
	for _, n := range p.Path {
		k := n.Cand(d)
		if k.B != at {
			return nil, fmt.Sprintf("path does not tile: %v", k)
		}
		at = k.E
		if !set[k.String()] {
			return nil, fmt.Sprintf("path uses %v, which is not a candidate", k)
		}
		path = append(path, k)
	}
	if at != len(t.S) {
		return nil, fmt.Sprintf("path ends at %d of %d", at, len(t.S))
	}
	pc, allowed := c.PathCost(path)
	if !allowed {
		return nil, fmt.Sprintf("path %v uses an inhibited connection", path)
	}
	if pc != cost {
		return nil, fmt.Sprintf("path of cost %d, the minimum is %d: %v", pc, cost, path)
	}
	return path, ""
}

// Tile checks that morphemes are contiguous over a text and that the surfaces
// add up to it.
func Tile(ms *gosudachi.MorphemeList, text string) string {
	n := len([]rune(text))
	at := 0
	k := ms.Length()
	var all strings.Builder
	for i := 0; i < k; i++ {
		m := ms.Get(i)
		b, e := m.Begin(), m.End()
		if b != at {
			return fmt.Sprintf("morpheme %d begins at %d, the one before ended at %d", i, b, at)
		}
		if e < b || e > n {
			return fmt.Sprintf("morpheme %d is [%d,%d) of %d characters", i, b, e, n)
		}
		at = e
		if k <= 2000 {
			all.WriteString(m.Surface())
		}
	}
	if at != n {
		return fmt.Sprintf("the last morpheme ends at %d of %d characters", at, n)
	}
	if k <= 2000 && all.String() != text {
		return fmt.Sprintf("the surfaces add up to %.80q", all.String())
	}
	return ""
}
