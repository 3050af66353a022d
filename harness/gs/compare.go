package gs

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/dictionary"
)

func ids(a []int32) string { return fmt.Sprint(a) }

func clipq(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Hit is one lookup result.
type Hit struct {
	Id  int32
	Len int
}

func sortHits(h []Hit) {
	sort.Slice(h, func(i, j int) bool { return h[i].Id < h[j].Id || h[i].Id == h[j].Id && h[i].Len < h[j].Len })
}

// WantHits is what lookup of text at offset must report in a dictionary.
func WantHits(d *ref.Dict, text string, off int, tag int32) []Hit {
	var out []Hit
	for i, w := range d.Words {
		if w.Indexed && strings.HasPrefix(text[off:], w.Head) {
			out = append(out, Hit{int32(i) | tag, off + len(w.Head)})
		}
	}
	return out
}

// GotHits runs a lookup.
func GotHits(l *dictionary.DoubleArrayLexicon, text string, off int) ([]Hit, error) {
	it := l.Lookup([]byte(text), off)
	var out []Hit
	for it.Next() {
		id, n := it.Get()
		out = append(out, Hit{id, n})
		if len(out) > 100000 {
			return nil, fmt.Errorf("endless lookup")
		}
	}
	return out, it.Err()
}

// Texts are lookup texts made from the headwords of a dictionary.
func Texts(d *ref.Dict, max int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] && len(out) < max {
			seen[s] = true
			out = append(out, s)
		}
	}
	add("")
	for _, w := range d.Words {
		if len(out) >= max {
			return out
		}
		add(w.Head)
		if len(w.Head) > 0 {
			add(w.Head[:len(w.Head)-1])
		}
	}
	for _, w := range d.Words {
		for _, v := range d.Words {
			if len(out) >= max {
				return out
			}
			add(w.Head + v.Head)
		}
		add(w.Head + "\x00")
		add("a" + w.Head)
	}
	return out
}

// CompareWord checks one word info; sys is the system dictionary for user dictionaries.
func CompareWord(d *ref.Dict, i int, wi *dictionary.WordInfo) string {
	w := d.Words[i]
	if wi.Surface != w.Surface {
		return fmt.Sprintf("word %d: surface %s, want %s", i, clipq(wi.Surface), clipq(w.Surface))
	}
	if int(wi.HeadwordLength) != len(w.Head) {
		return fmt.Sprintf("word %d: head length %d, want %d", i, wi.HeadwordLength, len(w.Head))
	}
	if wi.NormalizedForm != w.Norm {
		return fmt.Sprintf("word %d: normalised form %s, want %s", i, clipq(wi.NormalizedForm), clipq(w.Norm))
	}
	if wi.ReadingForm != w.Reading {
		return fmt.Sprintf("word %d: reading %s, want %s", i, clipq(wi.ReadingForm), clipq(w.Reading))
	}
	if int(wi.DictionaryFormWordId) != w.DicForm {
		return fmt.Sprintf("word %d: dictionary form id %d, want %d", i, wi.DictionaryFormWordId, w.DicForm)
	}
	df := w.Surface
	if w.DicForm >= 0 {
		df = d.Words[w.DicForm].Surface
	}
	if wi.DictionaryForm != df {
		return fmt.Sprintf("word %d: dictionary form %s, want %s", i, clipq(wi.DictionaryForm), clipq(df))
	}
	if ids(wi.AUnitSplit) != ids(w.A) || ids(wi.BUnitSplit) != ids(w.B) || ids(wi.WordStructure) != ids(w.WS) {
		return fmt.Sprintf("word %d: splits %v %v %v, want %v %v %v", i, wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure, w.A, w.B, w.WS)
	}
	return ""
}

// Compare checks that a loaded dictionary is exactly what the source says.
// sys is the model of the system dictionary when d is a user dictionary.
func Compare(d *ref.Dict, sys *ref.Dict, g *dictionary.Grammar, l *dictionary.DoubleArrayLexicon, maxTexts int) string {
	if int(l.Size()) != len(d.Words) {
		return fmt.Sprintf("%d words, want %d", l.Size(), len(d.Words))
	}
	base := 0
	if sys != nil {
		base = len(sys.POS)
	}
	if g != nil {
		if g.GetPartOfSpeechSize() != len(d.POS) {
			return fmt.Sprintf("%d parts of speech, want %d", g.GetPartOfSpeechSize(), len(d.POS))
		}
		for i, p := range d.POS {
			q := g.GetPartOfSpeechString(int16(i))
			if len(q) != 6 || p != [6]string{q[0], q[1], q[2], q[3], q[4], q[5]} {
				return fmt.Sprintf("part of speech %d is %q, want %q", i, q, p)
			}
			if sys == nil {
				if k := g.GetPartOfSpeechId(p[:]); int(k) != i {
					return fmt.Sprintf("part of speech %q has id %d, want %d", p, k, i)
				}
			}
		}
		for y := 0; y < d.R; y++ {
			for x := 0; x < d.L; x++ {
				if c := g.GetConnectCost(int16(x), int16(y)); int(c) != d.Matrix[y*d.L+x] {
					return fmt.Sprintf("connection cost (%d,%d) is %d, want %d", x, y, c, d.Matrix[y*d.L+x])
				}
			}
		}
	}
	for i, w := range d.Words {
		id := int32(i)
		if int(l.GetLeftId(id)) != w.Left || int(l.GetRightId(id)) != w.Right || int(l.GetCost(id)) != w.Cost {
			return fmt.Sprintf("word %d: ids and cost %d,%d,%d, want %d,%d,%d", i, l.GetLeftId(id), l.GetRightId(id), l.GetCost(id), w.Left, w.Right, w.Cost)
		}
		wi := l.GetWordInfo(id)
		if m := CompareWord(d, i, wi); m != "" {
			return m
		}
		pid := int(wi.PosId)
		var pos [6]string
		switch {
		case pid >= 0 && pid < base:
			pos = sys.POS[pid]
		case pid >= base && pid-base < len(d.POS):
			pos = d.POS[pid-base]
		default:
			return fmt.Sprintf("word %d: part of speech id %d does not exist", i, pid)
		}
		if pos != w.POS {
			return fmt.Sprintf("word %d: part of speech %q (id %d), want %q", i, pos, pid, w.POS)
		}
	}
	for _, text := range Texts(d, maxTexts) {
		for off := 0; off <= len(text); off++ {
			if off > 8 && off < len(text)-1 {
				continue
			}
			got, err := GotHits(l, text, off)
			if err != nil {
				return fmt.Sprintf("lookup of %s at %d: %v", clipq(text), off, err)
			}
			want := WantHits(d, text, off, 0)
			sortHits(got)
			sortHits(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("lookup of %s at %d: %v, want %v", clipq(text), off, got, want)
			}
		}
	}
	return compareHeads(d, l)
}

// compareHeads looks every headword up.
func compareHeads(d *ref.Dict, l *dictionary.DoubleArrayLexicon) string {
	byHead := map[string][]int32{}
	for i := range d.Words {
		if d.Words[i].Indexed {
			byHead[d.Words[i].Head] = append(byHead[d.Words[i].Head], int32(i))
		}
	}
	seen := 0
	for i := range d.Words {
		h := d.Words[i].Head
		ids := byHead[h]
		if len(ids) == 0 || ids[0] != int32(i) || len(h) > 300 && seen > 100 {
			continue
		}
		seen++
		var want []Hit
		for e := 1; e <= len(h); e++ {
			for _, id := range byHead[h[:e]] {
				want = append(want, Hit{id, e})
			}
		}
		got, err := GotHits(l, h, 0)
		if err != nil || !SameHits(got, want) {
			return fmt.Sprintf("lookup of the headword %s: %v %v, want %v", clipq(h), got, err, want)
		}
	}
	return ""
}

// SameHits compares two lookup results as sets with multiplicity.
func SameHits(a, b []Hit) bool {
	if len(a) != len(b) {
		return false
	}
	sortHits(a)
	sortHits(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
