// C23: escapes in lexicon sources decode to exactly the characters they denote.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
)

const posN = "名詞,普通名詞,一般,*,*,*"

var matrix = gs.Matrix(1, 1, func(x, y int) int { return 0 })

func compare(t *engine.T, lex string, want *ref.Dict, u16 bool) {
	b, err := gs.Sys(lex, matrix, gs.Opts{UTF16: u16})
	t.Trace(1)
	if err != nil {
		t.Fail("rejected", "rejected: %v", err)
		return
	}
	g, l := gs.Load(b, u16)
	if m := gs.Compare(want, nil, g, l, 3); m != "" {
		t.Fail("differs", "utf16=%v: %s", u16, m)
	}
}

// batch puts the strings into the string columns of one lexicon: every string
// appears in every string column, next to different neighbours.
func batch(t *engine.T, ss []string, u16 bool) {
	var sb strings.Builder
	n := len(ss)
	u16 = u16 && utf8.ValidString(strings.Join(ss, ""))
	for i, s := range ss {
		at := func(k int) string { return ss[(i+k*7)%n] }
		left := 0
		d := ref.Decode(s)
		if strings.IndexByte(d, 0) >= 0 {
			left = -1
		}
		if d == "" {
			s = "h"
		}
		pos := at(4)
		pd := ref.Decode(pos)
		if strings.Contains(pd, ",") {
			pos = "p"
		}
		fmt.Fprintf(&sb, "%s,%d,0,%d,%s,名詞,x,%s,*,*,z,%s,%s,*,A,*,*,*\n", s, left, i%30000, at(1), pos, at(2), at(3))
	}
	d, v, why := ref.Compile([]string{sb.String()}, matrix, nil, u16)
	if v == ref.Reject {
		panic("harness: " + why)
	}
	t.Transition(5 * n)
	compare(t, sb.String(), d, u16)
	for _, s := range ss {
		t.State(s, fmt.Sprint(u16))
	}
}

func seqFamily(name string, tok []string, max int, per int64) *engine.Family {
	sp := engine.NewStrings(len(tok), max)
	size := (sp.Size() + per - 1) / per
	return &engine.Family{
		Name:   name,
		Bounds: fmt.Sprintf("all %d sequences of up to %d of the pieces %q, each in the headword, surface, part-of-speech, reading and normalised-form columns", sp.Size(), max, tok),
		Size:   size,
		Run: func(i int64, t *engine.T) {
			var ss []string
			for k := i * per; k < (i+1)*per && k < sp.Size(); k++ {
				s := ""
				for _, x := range sp.Get(k) {
					s += tok[x]
				}
				ss = append(ss, s)
			}
			t.Input("%d strings from %q to %q", len(ss), ss[0], ss[len(ss)-1])
			batch(t, ss, i%2 == 1)
		},
	}
}

// every code point as an escape in several spellings
func cpFamily(tier engine.Tier) *engine.Family {
	per := 256
	return &engine.Family{
		Name:   "codepoints",
		Bounds: "every code point U+0000..U+10FFFF (surrogates stay as they are) as \\u{X}, with leading zeros, in lower and upper case, as \\uXXXX when it has four digits and as a surrogate pair when it has more",
		Size:   0x110000 / int64(per),
		Run: func(i int64, t *engine.T) {
			var lex, want strings.Builder
			for k := 0; k < per; k++ {
				cp := int(i)*per + k
				var forms []string
				forms = append(forms, fmt.Sprintf(`\u{%x}`, cp), fmt.Sprintf(`\u{%08X}`, cp))
				if cp <= 0xffff {
					forms = append(forms, fmt.Sprintf(`\u%04x`, cp), fmt.Sprintf(`\u%04X`, cp))
				} else {
					h, l := 0xd800+(cp-0x10000)>>10, 0xdc00+(cp-0x10000)&0x3ff
					forms = append(forms, fmt.Sprintf(`\u%04x\u%04X`, h, l))
				}
				s := strings.Join(forms, "|")
				lit := string(rune(cp))
				var w string
				if cp >= 0xd800 && cp < 0xe000 {
					w = s
				} else {
					w = strings.Repeat(lit+"|", len(forms)-1) + lit
				}
				fmt.Fprintf(&lex, "h%d,0,0,0,%s,%s,r,n,*,A,*,*,*\n", cp, s, posN)
				want.WriteString(w + "\x01")
			}
			t.Input("code points from %x", int(i)*per)
			u16 := i%2 == 1
			d, v, why := ref.Compile([]string{lex.String()}, matrix, nil, u16)
			if v != ref.Accept {
				panic(why)
			}
			// the model itself is checked against the direct construction
			var got strings.Builder
			for _, w := range d.Words {
				got.WriteString(w.Surface + "\x01")
			}
			if got.String() != want.String() {
				panic("harness: the model decodes wrongly")
			}
			t.Transition(per)
			t.State("cp", int(i))
			compare(t, lex.String(), d, u16)
		},
	}
}

// long columns with many escapes
func longFamily(tier engine.Tier) *engine.Family {
	p := []string{`\u3042`, `\u{41}`, `\u002C`, `\`, `\u`, `\u{`, "あ", "z", `\uD842\uDFB7`, `\u{110000}`, `z\u0041`}
	ns := []int{15, 16, 31, 32, 50, 63, 64, 100, 127, 128, 255, 256, 300, 511, 512, 682, 683, 1000, 1365, 1366, 2000, 3000}
	mix := engine.NewMix(len(p), len(p), len(ns), 2)
	return &engine.Family{
		Name:   "long",
		Bounds: fmt.Sprintf("columns of %v times each of %q followed by each of them, in the headword, surface, part-of-speech, reading and normalised-form columns, in a row before and after a short one", ns, p),
		Size:   mix.Size(),
		Chunk:  8,
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			s := strings.Repeat(p[d[0]], ns[d[2]]) + p[d[1]]
			t.Input("%d times %q, then %q", ns[d[2]], p[d[0]], p[d[1]])
			batch(t, []string{s, p[d[1]], p[d[0]] + s, "x" + p[d[0]]}, d[3] == 1)
		},
	}
}

// one character of the base lexicon spelled as an escape changes nothing
func spelledFamily() *engine.Family {
	ref0 := strings.ReplaceAll("a,"+posN+",エー", ",", `\u002C`)
	rows := [][]string{
		strings.Split("a,0,0,5,a,"+posN+",エー,a,*,A,*,*,*", ","),
		strings.Split("あb,-1,-1,-325,あb,動詞,一般,*,*,五段,終止形,アビー,ab,0,C,0/"+ref0+",U1,0/1", ","),
	}
	type pos struct{ r, c, i, n int }
	var ps []pos
	for r := range rows {
		for c, f := range rows[r] {
			for i, ch := range f {
				if strings.HasPrefix(f[i:], `\u002C`) || i > 0 && strings.Contains(f[max(0, i-5):i], `\`) {
					continue
				}
				ps = append(ps, pos{r, c, i, utf8.RuneLen(ch)})
			}
		}
	}
	forms := []string{`\u%04x`, `\u%04X`, `\u{%x}`, `\u{%X}`, `\u{%06x}`}
	mix := engine.NewMix(len(ps), len(ps), len(forms))
	join := func(rows [][]string) string {
		s := ""
		for _, f := range rows {
			s += strings.Join(f, ",") + "\n"
		}
		return s
	}
	return &engine.Family{
		Name:   "spelled",
		Bounds: fmt.Sprintf("every one and every pair of the %d characters of a two-row lexicon (all 18 columns) spelled as an escape in %d forms", len(ps), len(forms)),
		Size:   mix.Size(),
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			if d[0] > d[1] {
				return
			}
			m := [][]string{append([]string(nil), rows[0]...), append([]string(nil), rows[1]...)}
			// replace the later one first
			for _, k := range []int{d[1], d[0]} {
				p := ps[k]
				f := m[p.r][p.c]
				c, _ := utf8.DecodeRuneInString(rows[p.r][p.c][p.i:])
				m[p.r][p.c] = f[:p.i] + fmt.Sprintf(forms[d[2]], c) + f[p.i+p.n:]
				if d[0] == d[1] {
					break
				}
			}
			lex := join(m)
			want, v, why := ref.Compile([]string{join(rows)}, matrix, nil, false)
			if v != ref.Accept {
				panic(why)
			}
			t.Input("%q", lex)
			t.Transition(1)
			t.State(lex)
			compare(t, lex, want, false)
		},
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	n := 0
	if tier == engine.Thorough {
		n = 1
	}
	return []*engine.Family{
		seqFamily("chars", []string{`\`, "u", "{", "}", "0", "4", "z", "C", "あ"}, 6+n, 1000),
		seqFamily("pieces", []string{`\`, `\u`, `\u{`, "u", "{", "}", "0", "0041", "3042", `\u0041`, `\u{3042}`, `\u002C`, `\u{1F600}`, `\uD842`, `\uDFB7`, `\u{d842}`, `\u{DFB7}`, "110000", "/", "é", "\xff"}, 4, 1000),
		seqFamily("digits", []string{`\u`, `\u{`, "0", "9", "a", "F", "}", "g"}, 6+n, 1000),
		cpFamily(tier),
		spelledFamily(),
		longFamily(tier),
	}
}

func main() {
	engine.Main(&engine.Check{
		ID: "C23", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct column text (with the encoding); a transition is one column decoded by the real compiler; a trace is one lexicon compiled, loaded and compared with the text decoded by the specification's grammar of escapes",
		Assumptions: []string{"an escape of a lone surrogate or above U+10FFFF denotes no character and is kept verbatim; a high and a low surrogate escape in a row denote one character"},
	})
}
