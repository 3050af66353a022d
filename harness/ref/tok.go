package ref

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Text is a normalised text with the original position of each character.
type Text struct {
	Runes []rune
	Off   []int
	Orig  []rune
	S     string
	start []int // byte offset of each character, plus the end
	at    []int // character at each byte offset, plus the end
	cats  []uint32
	runE  []int // end (character index) of the class run of each character
}

// NewText prepares a normalised text.
func NewText(runes []rune, off []int, orig []rune, cats func(rune) uint32) *Text {
	t := &Text{Runes: runes, Off: off, Orig: orig, S: string(runes)}
	p := 0
	for i, r := range runes {
		t.start = append(t.start, p)
		n := utf8.RuneLen(r)
		if n < 0 {
			n = 3
		}
		for k := 0; k < n; k++ {
			t.at = append(t.at, i)
		}
		p += n
		t.cats = append(t.cats, cats(r))
	}
	t.start = append(t.start, p)
	t.at = append(t.at, len(runes))
	// runs of characters that have a class in common, longest from the left
	t.runE = make([]int, len(runes))
	for i := 0; i < len(runes); {
		m := t.cats[i]
		j := i + 1
		for j < len(runes) && m&t.cats[j] != 0 {
			m &= t.cats[j]
			j++
		}
		for k := i; k < j; k++ {
			t.runE[k] = j
		}
		i = j
	}
	return t
}

// Plain is a text that no input rewriting changes.
func Plain(s string, cats func(rune) uint32) *Text {
	r := []rune(s)
	off := make([]int, len(r)+1)
	for i := range off {
		off[i] = i
	}
	return NewText(r, off, r, cats)
}

// CharAt is the character index of a byte offset.
func (t *Text) CharAt(b int) int { return t.at[b] }

// ByteAt is the byte offset of a character.
func (t *Text) ByteAt(i int) int { return t.start[i] }

// Cats are the classes of the character at a byte offset.
func (t *Text) Cats(b int) uint32 { return t.cats[t.at[b]] }

// RunEnd is the byte offset of the end of the class run around a byte offset.
func (t *Text) RunEnd(b int) int { return t.start[t.runE[t.at[b]]] }

var letters = ClassBit("ALPHA") | ClassBit("GREEK") | ClassBit("CYRILLIC")

// CanBegin tells whether a word can begin at a byte offset.
func (t *Text) CanBegin(b int) bool {
	if b >= len(t.S) || t.start[t.at[b]] != b {
		return false
	}
	i := t.at[b]
	if i == 0 {
		return true
	}
	if t.cats[i]&letters != 0 {
		return t.cats[i]&t.cats[i-1] == 0
	}
	return true
}

// RangeCats are the classes that all characters of a byte range share, none if the range leaves its run.
func (t *Text) RangeCats(b, e int) uint32 {
	if e > t.RunEnd(b) {
		return 0
	}
	m := ^uint32(0)
	for i := t.at[b]; i < t.at[e]; i++ {
		m &= t.cats[i]
	}
	return m
}

// Cand is a candidate word.
type Cand struct {
	B, E              int
	Left, Right, Cost int
	Dic, Word         int // -1 for unknown words
	OOV               bool
	POS               string
	Surface           string
}

func (c Cand) String() string {
	return fmt.Sprintf("[%d,%d) %q %s ids=%d,%d cost=%d dic=%d word=%d oov=%v", c.B, c.E, c.Surface, c.POS, c.Left, c.Right, c.Cost, c.Dic, c.Word, c.OOV)
}

// Provider proposes unknown words.
type Provider func(t *Text, b int, has bool) []Cand

// SimpleProvider proposes one character when nothing else exists.  (The whole
// character, whatever its class.)
func SimpleProvider(pos string, l, r, c int) Provider {
	return func(t *Text, b int, has bool) []Cand {
		if has {
			return nil
		}
		e := t.start[t.at[b]+1]
		return []Cand{{b, e, l, r, c, -1, -1, true, pos, t.S[b:e]}}
	}
}

// ClassProvider proposes unknown words as the definitions say.
func ClassProvider(defs map[uint32]ClassDef, unk map[uint32][]Unk) Provider {
	return func(t *Text, b int, has bool) []Cand {
		var out []Cand
		i := t.at[b]
		end := t.runE[i]
		for k := range Classes {
			bit := uint32(1) << uint(k)
			if t.cats[i]&bit == 0 {
				continue
			}
			d, ok := defs[bit]
			if !ok || has && !d.Invoke {
				continue
			}
			ends := map[int]bool{}
			if d.Group {
				ends[end] = true
			}
			for n := 1; n <= d.Length && i+n <= end; n++ {
				ends[i+n] = true
			}
			for j := i + 1; j <= end; j++ {
				if !ends[j] {
					continue
				}
				e := t.start[j]
				for _, u := range unk[bit] {
					out = append(out, Cand{b, e, u.Left, u.Right, u.Cost, -1, -1, true, u.POS, t.S[b:e]})
				}
			}
		}
		return out
	}
}

// Conf is the model of a loaded tokenizer.
type Conf struct {
	Dicts   []*Dict
	Cats    func(rune) uint32
	OOV     []Provider
	Inhibit map[[2]int]bool // left, right
	// Cost overrides the cost of words of user dictionaries (dictionary, word).
	Cost map[[2]int]int
}

// Conn is the cost of connecting right id r (of the word on the left) with left id l.
func (c *Conf) Conn(r, l int) (int, bool) {
	if c.Inhibit[[2]int{r, l}] {
		return 0, false
	}
	d := c.Dicts[0]
	v := d.Matrix[l*d.L+r]
	return v, v != 32767
}

func (c *Conf) wordCost(dic, w int) int {
	if v, ok := c.Cost[[2]int{dic, w}]; ok {
		return v
	}
	return c.Dicts[dic].Words[w].Cost
}

var noOovBow = ClassBit("NOOOVBOW")

// Candidates are all candidates of a text; ok is false when a position that
// words reach has none.
func (c *Conf) Candidates(t *Text) (out []Cand, ok bool) {
	reach := make([]bool, len(t.S)+1)
	reach[0] = true
	for b := 0; b < len(t.S); b++ {
		if !reach[b] || !t.CanBegin(b) {
			continue
		}
		n0 := len(out)
		for di, d := range c.Dicts {
			for wi := range d.Words {
				w := &d.Words[wi]
				if w.Indexed && strings.HasPrefix(t.S[b:], w.Head) {
					out = append(out, Cand{b, b + len(w.Head), w.Left, w.Right, c.wordCost(di, wi), di, wi, false, strings.Join(w.POS[:], ","), w.Surface})
				}
			}
		}
		if t.Cats(b)&noOovBow == 0 {
			for _, p := range c.OOV {
				out = append(out, p(t, b, len(out) > n0)...)
			}
		}
		if len(out) == n0 && len(c.OOV) > 0 {
			out = append(out, c.OOV[len(c.OOV)-1](t, b, false)...)
		}
		if len(out) == n0 {
			return nil, false
		}
		for _, k := range out[n0:] {
			reach[k.E] = true
		}
	}
	return out, true
}

// Best finds the cheapest total of a path through the candidates.
func (c *Conf) Best(cands []Cand, n int) (int, bool) {
	type st struct {
		cost int
		ok   bool
	}
	by := make([][]int, n+1) // candidates by begin
	for i, k := range cands {
		by[k.B] = append(by[k.B], i)
	}
	// best cost of reaching position p with a last word of right id r
	at := make([]map[int]int, n+1)
	at[0] = map[int]int{0: 0}
	for p := 0; p < n; p++ {
		for _, i := range by[p] {
			k := cands[i]
			best := st{}
			for r, v := range at[p] {
				if cc, ok := c.Conn(r, k.Left); ok && (!best.ok || v+cc < best.cost) {
					best = st{v + cc, true}
				}
			}
			if !best.ok {
				continue
			}
			v := best.cost + k.Cost
			if at[k.E] == nil {
				at[k.E] = map[int]int{}
			}
			if o, ok := at[k.E][k.Right]; !ok || v < o {
				at[k.E][k.Right] = v
			}
		}
	}
	best := st{}
	for r, v := range at[n] {
		if cc, ok := c.Conn(r, 0); ok && (!best.ok || v+cc < best.cost) {
			best = st{v + cc, true}
		}
	}
	return best.cost, best.ok
}

// BestPaths enumerates the cheapest paths (up to max of them).
func (c *Conf) BestPaths(cands []Cand, n, max int) [][]Cand {
	want, ok := c.Best(cands, n)
	if !ok {
		return nil
	}
	// cheapest completion from (position, right id)
	by := make([][]int, n+1)
	for i, k := range cands {
		by[k.B] = append(by[k.B], i)
	}
	memo := map[[2]int]*int{}
	done := map[[2]int]bool{}
	var rest func(p, r int) *int
	rest = func(p, r int) *int {
		key := [2]int{p, r}
		if done[key] {
			return memo[key]
		}
		var b *int
		if p == n {
			if cc, ok := c.Conn(r, 0); ok {
				b = &cc
			}
		} else {
			for _, i := range by[p] {
				k := cands[i]
				if cc, ok := c.Conn(r, k.Left); ok {
					if q := rest(k.E, k.Right); q != nil {
						v := cc + k.Cost + *q
						if b == nil || v < *b {
							b = &v
						}
					}
				}
			}
		}
		done[key] = true
		memo[key] = b
		return b
	}
	var out [][]Cand
	var cur []Cand
	var walk func(p, r, left int)
	walk = func(p, r, left int) {
		if len(out) >= max {
			return
		}
		if p == n {
			if cc, ok := c.Conn(r, 0); ok && cc == left {
				out = append(out, append([]Cand{}, cur...))
			}
			return
		}
		for _, i := range by[p] {
			k := cands[i]
			if cc, ok := c.Conn(r, k.Left); ok {
				if q := rest(k.E, k.Right); q != nil && cc+k.Cost+*q == left {
					cur = append(cur, k)
					walk(k.E, k.Right, left-cc-k.Cost)
					cur = cur[:len(cur)-1]
				}
			}
		}
	}
	walk(0, 0, want)
	return out
}

// PathCost is the total of a path including the sentence boundaries.
func (c *Conf) PathCost(path []Cand) (int, bool) {
	r, v := 0, 0
	for _, k := range path {
		cc, ok := c.Conn(r, k.Left)
		if !ok {
			return 0, false
		}
		v += cc + k.Cost
		r = k.Right
	}
	cc, ok := c.Conn(r, 0)
	return v + cc, ok
}

// SetKey renders candidates as a set.
func SetKey(cs []Cand) []string {
	m := map[string]bool{}
	for _, c := range cs {
		m[c.String()] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
