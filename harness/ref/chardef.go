package ref

import (
	"strconv"
	"strings"
)

// Classes in bit order.
var Classes = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

// ClassBit returns the bit of a class, 0 if there is no such class.
func ClassBit(s string) uint32 {
	for i, c := range Classes {
		if c == s {
			return 1 << uint(i)
		}
	}
	return 0
}

// Range of a character definition.
type Range struct {
	Low, High int64
	Cats      uint32
}

// ClassDef is how unknown words of a class are made.
type ClassDef struct {
	Invoke, Group bool
	Length        int
}

// CharDef is a character definition.
type CharDef struct {
	Ranges []Range
	Defs   map[uint32]ClassDef
}

func hexNumber(s string) (int64, bool) {
	if !strings.HasPrefix(s, "0x") {
		return 0, false
	}
	v, err := strconv.ParseUint(s[2:], 16, 64)
	if err != nil || strings.ContainsAny(s[2:], "_+-") || v > 1<<40 {
		return 0, false
	}
	return int64(v), true
}

// SkipLine tells whether a definition line is blank or a comment.
func SkipLine(l string) bool {
	return strings.TrimLeft(l, " \t") == "" || l[0] == '#'
}

// ParseRanges reads the code point ranges.
func ParseRanges(src string) (rs []Range, v Verdict) {
	v = Accept
	for _, l := range Lines(src) {
		if SkipLine(l) {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 2 {
			return nil, Reject
		}
		if !strings.HasPrefix(f[0], "0x") {
			continue
		}
		p := strings.Split(f[0], "..")
		lo, ok := hexNumber(p[0])
		if !ok {
			return nil, Reject
		}
		hi := lo
		if len(p) > 1 {
			if hi, ok = hexNumber(p[1]); !ok {
				return nil, Reject
			}
		}
		if lo > hi {
			return nil, Reject
		}
		if len(p) > 2 {
			v = Either
		}
		r := Range{Low: lo, High: hi}
		for _, c := range f[1:] {
			if c[0] == '#' {
				break
			}
			b := ClassBit(c)
			if b == 0 {
				return nil, Reject
			}
			r.Cats |= b
		}
		if hi > 0x7fffffff || r.Cats == 0 {
			v = Either
		}
		rs = append(rs, r)
	}
	return rs, v
}

// CatsOf gives the classes of a code point.
func CatsOf(rs []Range, c rune) uint32 {
	var m uint32
	for _, r := range rs {
		if int64(c) >= r.Low && int64(c) <= r.High {
			m |= r.Cats
		}
	}
	if m == 0 {
		m = 1
	}
	return m
}

// ParseClasses reads the class definitions.
func ParseClasses(src string) (map[uint32]ClassDef, Verdict) {
	m := map[uint32]ClassDef{}
	for _, l := range Lines(src) {
		if SkipLine(l) || strings.HasPrefix(l, "0x") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 {
			return nil, Reject
		}
		b := ClassBit(f[0])
		if b == 0 {
			return nil, Reject
		}
		if _, dup := m[b]; dup {
			return nil, Reject
		}
		n, err := strconv.Atoi(f[3])
		if err != nil {
			return nil, Reject
		}
		m[b] = ClassDef{f[1] != "0", f[2] != "0", n}
	}
	return m, Accept
}

// Unk is one unknown word definition.
type Unk struct {
	Left, Right, Cost int
	POS               string
}

// ParseUnk reads the unknown word definitions.
func ParseUnk(src string, classes map[uint32]ClassDef, pos func(string) bool) (map[uint32][]Unk, Verdict) {
	m := map[uint32][]Unk{}
	for _, l := range Lines(src) {
		f := strings.Split(l, ",")
		if len(f) < 10 {
			return nil, Reject
		}
		b := ClassBit(f[0])
		if b == 0 {
			return nil, Reject
		}
		if _, ok := classes[b]; !ok {
			return nil, Reject
		}
		var n [3]int
		for i := range n {
			v, ok := int16OK(f[1+i])
			if !ok {
				return nil, Reject
			}
			n[i] = v
		}
		p := strings.Join(f[4:10], ",")
		if !pos(p) {
			return nil, Reject
		}
		m[b] = append(m[b], Unk{n[0], n[1], n[2], p})
	}
	return m, Accept
}
