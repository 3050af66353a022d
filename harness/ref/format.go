package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
	"unicode/utf16"
)

// The established binary format of dictionary files, written down without
// any code of the library.
//
//	header       version u64, creation time i64, description 256 bytes, padded with NUL
//	grammar      (not in user dictionaries of the first version)
//	             number of parts of speech u16, six strings each,
//	             left size i16, right size i16, costs i16 at left + left size * right
//	trie         number of units u32, units of a double array (darts-clone)
//	word ids     size in bytes u32, lists (length u8, ids i32); the trie gives the place of a list
//	parameters   number of words u32, left id, right id, cost i16 each
//	infos        offsets in the file u32 each, then the records: surface, length of the
//	             headword, part of speech i16, normalised form, dictionary form i32, reading,
//	             three lists of units (length u8, ids i32)
//	strings      length of 1 byte below 128, otherwise 2 bytes (high byte first, highest bit
//	             set), in bytes of UTF-8 or units of UTF-16 (low byte first); no normalised form
//	             and no reading stand for the surface
const (
	FormatSystem = 0x7366d3f18bd111e7
	FormatUser1  = 0xa50f31188bd211e7
	FormatUser2  = 0x9fdeb5a90168d868
)

// DictFile is the content of a dictionary file.
type DictFile struct {
	Version uint64
	Time    int64
	Desc    string
	POS     [][6]string
	L, R    int
	Matrix  []int // [right*L+left]
	Words   []FileWord
	Index   map[string][]int32
}

// FileWord is a word as it is stored.
type FileWord struct {
	Left, Right, Cost int
	Surface           string
	HeadLen           int
	POS               int
	Norm, Reading     string
	DicForm           int
	A, B, WS          []int32
}

// FileOf gives the content of the file of a compiled source. sys is nil for a system dictionary.
func FileOf(d *Dict, sys *Dict, version uint64) (*DictFile, bool) {
	f := &DictFile{Version: version, Time: 1, Desc: "d", L: d.L, R: d.R, Matrix: d.Matrix, Index: map[string][]int32{}}
	if version != FormatUser1 {
		f.POS = d.POS
	} else if len(d.POS) > 0 {
		return nil, false
	}
	for i, w := range d.Words {
		id := -1
		if sys != nil {
			for k, p := range sys.POS {
				if p == w.POS {
					id = k
					break
				}
			}
		}
		for k, p := range d.POS {
			if id < 0 && p == w.POS {
				id = k
				if sys != nil {
					id += len(sys.POS)
				}
			}
		}
		f.Words = append(f.Words, FileWord{w.Left, w.Right, w.Cost, w.Surface, len(w.Head), id, w.Norm, w.Reading, w.DicForm, w.A, w.B, w.WS})
		if w.Indexed {
			f.Index[w.Head] = append(f.Index[w.Head], int32(i))
		}
	}
	return f, true
}

// Layout is one of the ways to lay out the same content.
type Layout struct {
	Trie  int  // how units are placed: 0 first fit, 1 a block of its own for every node, 2 from the top down, 3 far away
	Lists int  // word-id lists: 0 in order of the keys, 1 in reverse order with unused bytes between
	Infos int  // records: 0 in order of the words, 1 in reverse order, 2 with unused bytes between
	Spelt bool // normalised forms and readings are written even if they are the surface
	UTF16 bool
}

type fw struct{ b []byte }

func (w *fw) u8(v int)  { w.b = append(w.b, byte(v)) }
func (w *fw) u16(v int) { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *fw) u32(v int64) {
	w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func (w *fw) length(n int) {
	if n < 128 {
		w.u8(n)
	} else {
		w.u8(n>>8 | 0x80)
		w.u8(n)
	}
}
func (w *fw) str(s string, u16 bool) {
	if !u16 {
		w.length(len(s))
		w.b = append(w.b, s...)
		return
	}
	u := utf16.Encode([]rune(s))
	w.length(len(u))
	for _, c := range u {
		w.u16(int(c))
	}
}
func (w *fw) ids(a []int32) {
	w.u8(len(a))
	for _, x := range a {
		w.u32(int64(x))
	}
}

// EncodeHeader gives the 272 bytes of a header.
func EncodeHeader(version uint64, time int64, desc string) []byte {
	b := make([]byte, 272)
	binary.LittleEndian.PutUint64(b, version)
	binary.LittleEndian.PutUint64(b[8:], uint64(time))
	copy(b[16:], desc)
	return b
}

// Encode gives the bytes of a file.
func Encode(f *DictFile, o Layout) []byte {
	w := &fw{b: EncodeHeader(f.Version, f.Time, f.Desc)}
	if f.Version != FormatUser1 {
		w.u16(len(f.POS))
		for _, p := range f.POS {
			for _, s := range p {
				w.str(s, o.UTF16)
			}
		}
		w.u16(f.L)
		w.u16(f.R)
		for _, c := range f.Matrix {
			w.u16(c)
		}
	}
	keys := make([]string, 0, len(f.Index))
	for k := range f.Index {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	lists := &fw{}
	values := make([]int, len(keys))
	for i := range keys {
		k := i
		if o.Lists == 1 {
			k = len(keys) - 1 - i
			lists.b = append(lists.b, 0xAA, 0xBB, 0xCC)
		}
		values[k] = len(lists.b)
		lists.ids(f.Index[keys[k]])
	}
	units := buildTrie(keys, values, o.Trie)
	w.u32(int64(len(units)))
	for _, u := range units {
		w.u32(int64(u))
	}
	w.u32(int64(len(lists.b)))
	w.b = append(w.b, lists.b...)
	w.u32(int64(len(f.Words)))
	for _, x := range f.Words {
		w.u16(x.Left)
		w.u16(x.Right)
		w.u16(x.Cost)
	}
	offs := len(w.b)
	w.b = append(w.b, make([]byte, 4*len(f.Words))...)
	for i := range f.Words {
		k := i
		if o.Infos == 1 {
			k = len(f.Words) - 1 - i
		} else if o.Infos == 2 {
			w.b = append(w.b, 0xEE, 0xFF, 0x80)
		}
		x := f.Words[k]
		binary.LittleEndian.PutUint32(w.b[offs+4*k:], uint32(len(w.b)))
		w.str(x.Surface, o.UTF16)
		w.length(x.HeadLen)
		w.u16(x.POS)
		norm, read := x.Norm, x.Reading
		if !o.Spelt && norm == x.Surface {
			norm = ""
		}
		if !o.Spelt && read == x.Surface {
			read = ""
		}
		w.str(norm, o.UTF16)
		w.u32(int64(x.DicForm))
		w.str(read, o.UTF16)
		w.ids(x.A)
		w.ids(x.B)
		w.ids(x.WS)
	}
	return w.b
}

// buildTrie lays out a double array for sorted keys.
func buildTrie(keys []string, values []int, how int) []uint32 {
	units := make([]uint32, 256)
	used := make([]bool, 256) // a unit that belongs to a node
	based := map[int]bool{}   // an offset that is taken
	grow := func(n int) {
		for len(units) <= n {
			units = append(units, make([]uint32, 256)...)
			used = append(used, make([]bool, 256)...)
		}
	}
	used[0] = true
	type node struct{ pos, lo, hi, depth int }
	queue := []node{{0, 0, len(keys), 0}}
	next := 256
	if how == 3 {
		next = 1 << 22
	}
	low := 1
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if n.lo == n.hi {
			continue
		}
		var labels []int
		var starts []int
		i := n.lo
		for i < n.hi {
			c := 0
			if len(keys[i]) > n.depth {
				c = int(keys[i][n.depth])
			}
			if len(labels) == 0 || labels[len(labels)-1] != c {
				labels = append(labels, c)
				starts = append(starts, i)
			}
			i++
		}
		starts = append(starts, n.hi)
		fits := func(base int) bool {
			if base == 0 || based[base] {
				return false
			}
			rel := n.pos ^ base
			if rel >= 1<<21 && rel&0xff != 0 || rel >= 1<<29 {
				return false
			}
			for _, c := range labels {
				p := base ^ c
				grow(p)
				if used[p] {
					return false
				}
			}
			return true
		}
		base := 0
		switch how {
		case 1, 3:
			for base = next | n.pos&0xff; !fits(base); base += 256 {
			}
			next = base&^0xff + 256
			if how == 3 && next > 1<<22+4096 {
				next = 256
				how = 1
			}
		case 2:
			for base = len(units) - 1; base > 0 && !fits(base); base-- {
			}
			if base == 0 {
				for base = len(units); !fits(base); base++ {
				}
			}
		default:
			for base = low; !fits(base); base++ {
			}
			for low < len(used) && used[low] && low+256 < base {
				low++
			}
			if base-low > 4096 {
				low = base - 2048
			}
		}
		based[base] = true
		rel := uint32(n.pos ^ base)
		if rel < 1<<21 {
			units[n.pos] |= rel << 10
		} else {
			units[n.pos] |= rel<<2 | 1<<9
		}
		for k, c := range labels {
			p := base ^ c
			used[p] = true
			if c == 0 {
				units[n.pos] |= 1 << 8
				units[p] = uint32(values[starts[k]]) | 1<<31
				continue
			}
			units[p] |= uint32(c)
			queue = append(queue, node{p, starts[k], starts[k+1], n.depth + 1})
		}
	}
	// a unit that is not used must not look like a child of any node
	for b := 0; b < len(units); b += 256 {
		free := -1
		for x := b; x < b+256; x++ {
			if !based[x] {
				free = x
				break
			}
		}
		for p := b; p < b+256; p++ {
			if used[p] {
				continue
			}
			if free >= 0 {
				units[p] = uint32((p ^ free) & 0xff)
			}
		}
	}
	return units
}

// DecodeFile reads a file; every part must lie within it.
func DecodeFile(b []byte, u16 bool) (f *DictFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			f, err = nil, fmt.Errorf("not in the format: %v", r)
		}
	}()
	p := 0
	n16 := func() int { p += 2; return int(int16(binary.LittleEndian.Uint16(b[p-2:]))) }
	n32 := func() int { p += 4; return int(int32(binary.LittleEndian.Uint32(b[p-4:]))) }
	length := func() int {
		n := int(b[p])
		p++
		if n >= 128 {
			n = (n&0x7f)<<8 | int(b[p])
			p++
		}
		return n
	}
	str := func() string {
		n := length()
		if !u16 {
			p += n
			return string(b[p-n : p])
		}
		u := make([]uint16, n)
		for i := range u {
			u[i] = uint16(n16())
		}
		return string(utf16.Decode(u))
	}
	ids := func() (a []int32) {
		n := int(b[p])
		p++
		for i := 0; i < n; i++ {
			a = append(a, int32(n32()))
		}
		return
	}
	f = &DictFile{Index: map[string][]int32{}}
	f.Version = binary.LittleEndian.Uint64(b)
	f.Time = int64(binary.LittleEndian.Uint64(b[8:]))
	end := 16
	for end < 272 && b[end] != 0 {
		end++
	}
	f.Desc = string(b[16:end])
	for _, c := range b[end:272] {
		if c != 0 {
			return nil, fmt.Errorf("the description is not padded with NUL")
		}
	}
	p = 272
	switch f.Version {
	case FormatSystem, FormatUser2:
		n := n16() & 0xffff
		for i := 0; i < n; i++ {
			var q [6]string
			for k := range q {
				q[k] = str()
			}
			f.POS = append(f.POS, q)
		}
		f.L, f.R = n16(), n16()
		for i := 0; i < f.L*f.R; i++ {
			f.Matrix = append(f.Matrix, n16())
		}
	case FormatUser1:
	default:
		return nil, fmt.Errorf("unknown version %#x", f.Version)
	}
	nu := n32()
	units := make([]uint32, nu)
	for i := range units {
		units[i] = uint32(n32())
	}
	size := n32()
	lists := p
	p += size
	_ = b[:p]
	nw := n32()
	f.Words = make([]FileWord, nw)
	for i := range f.Words {
		w := &f.Words[i]
		w.Left, w.Right, w.Cost = n16(), n16(), n16()
	}
	offs := make([]int, nw)
	for i := range offs {
		offs[i] = n32()
	}
	recs := p
	for i := range f.Words {
		w := &f.Words[i]
		if p = offs[i]; p < recs {
			return nil, fmt.Errorf("the record of word %d is not behind the offsets", i)
		}
		w.Surface = str()
		w.HeadLen = length()
		w.POS = n16()
		if w.Norm = str(); w.Norm == "" {
			w.Norm = w.Surface
		}
		w.DicForm = n32()
		if w.Reading = str(); w.Reading == "" {
			w.Reading = w.Surface
		}
		w.A, w.B, w.WS = ids(), ids(), ids()
	}
	type at struct {
		pos int
		key string
	}
	stack := []at{{0, ""}}
	seen := 0
	for len(stack) > 0 && nu > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen++; seen > nu {
			return nil, fmt.Errorf("the trie has a circle")
		}
		u := units[x.pos]
		base := x.pos ^ int(u>>10)
		if u>>9&1 == 1 {
			base = x.pos ^ int(u>>10<<8)
		}
		if u>>8&1 == 1 {
			v := int(units[base] & 0x7fffffff)
			if units[base]>>31 == 0 || v >= size {
				return nil, fmt.Errorf("key %q has no word-id list", x.key)
			}
			p = lists + v
			f.Index[x.key] = ids()
			if p > lists+size {
				return nil, fmt.Errorf("the word-id list of %q is cut", x.key)
			}
		}
		for c := 1; c < 256; c++ {
			k := base ^ c
			if k < nu && k != 0 && units[k]&(1<<31|0xff) == uint32(c) {
				stack = append(stack, at{k, x.key + string([]byte{byte(c)})})
			}
		}
	}
	return f, nil
}

// Diff compares two contents.
func (f *DictFile) Diff(g *DictFile) string {
	if f.Version != g.Version || f.Time != g.Time || f.Desc != g.Desc {
		return fmt.Sprintf("header %#x %d %q, want %#x %d %q", f.Version, f.Time, f.Desc, g.Version, g.Time, g.Desc)
	}
	if fmt.Sprintf("%q", f.POS) != fmt.Sprintf("%q", g.POS) {
		return fmt.Sprintf("parts of speech %q, want %q", f.POS, g.POS)
	}
	if f.L != g.L || f.R != g.R {
		return fmt.Sprintf("matrix %dx%d, want %dx%d", f.L, f.R, g.L, g.R)
	}
	for i := range g.Matrix {
		if f.Matrix[i] != g.Matrix[i] {
			return fmt.Sprintf("cost %d of the matrix is %d, want %d", i, f.Matrix[i], g.Matrix[i])
		}
	}
	if len(f.Words) != len(g.Words) {
		return fmt.Sprintf("%d words, want %d", len(f.Words), len(g.Words))
	}
	for i := range g.Words {
		if a, b := fmt.Sprintf("%q", f.Words[i]), fmt.Sprintf("%q", g.Words[i]); a != b {
			if len(a) > 400 {
				a = a[:400]
			}
			if len(b) > 400 {
				b = b[:400]
			}
			return fmt.Sprintf("word %d is %s, want %s", i, a, b)
		}
	}
	if len(f.Index) != len(g.Index) {
		return fmt.Sprintf("%d keys, want %d", len(f.Index), len(g.Index))
	}
	for k, want := range g.Index {
		got := append([]int32{}, f.Index[k]...)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("key %q has the words %v, want %v", k, got, want)
		}
	}
	return ""
}
