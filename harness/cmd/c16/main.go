// C16: every code point gets the classes that the definition file assigns to it.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/engine"
	"verif/harness/ref"

	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// load reads a definition with the real reader.
func load(src string) (*dictionary.CharacterCategory, error) {
	cc := dictionary.NewCharacterCategory()
	return cc, cc.ReadCharacterDefinition(strings.NewReader(src))
}

// check compares the real reader with the model on a source.
func check(t *engine.T, src string, points []rune) {
	rs, v := ref.ParseRanges(src)
	cc, err := load(src)
	t.Trace(1)
	switch {
	case v == ref.Reject && err == nil:
		t.Fail("accepted", "malformed definition %q is accepted", src)
		return
	case v == ref.Accept && err != nil:
		t.Fail("rejected", "definition %q is rejected: %v", src, err)
		return
	case err != nil:
		t.Outcome("rejected")
		return
	case v == ref.Either:
		t.Outcome("accepted, unspecified")
		return
	}
	t.Outcome("accepted")
	for _, c := range points {
		t.Transition(1)
		if got, want := cc.GetCategoryTypes(c), ref.CatsOf(rs, c); got != want {
			t.Fail("classes", "definition %q: code point %#x has classes %#x, want %#x", src, c, got, want)
			return
		}
	}
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	// 1. lists of ranges
	{
		type rg struct{ lo, hi int }
		w := 4
		n := 3
		bases := []int{0x3041, 0, 0xFFFD, 0x10FFFC, 0x7FFFFFF0}
		if thorough {
			n = 4
		}
		var rgs []rg
		for a := 0; a < w; a++ {
			for b := a; b < w; b++ {
				rgs = append(rgs, rg{a, b})
			}
		}
		sets := []string{"KANJI", "NUMERIC", "KANJI NUMERIC"}
		sp := engine.NewStrings(len(rgs)*len(sets), n)
		fs = append(fs, &engine.Family{
			Name: "ranges", Bounds: fmt.Sprintf("every ordered list of 0..%d ranges over a window of %d code points with every non-empty subset of two classes, at bases %#x", n, w, bases),
			Size: sp.Size() * int64(len(bases)),
			Run: func(i int64, t *engine.T) {
				base := bases[i%int64(len(bases))]
				src := ""
				for _, x := range sp.Get(i / int64(len(bases))) {
					r := rgs[x%len(rgs)]
					if r.lo == r.hi {
						src += fmt.Sprintf("0x%04X %s\n", base+r.lo, sets[x/len(rgs)])
					} else {
						src += fmt.Sprintf("0x%04X..0x%04X %s\n", base+r.lo, base+r.hi, sets[x/len(rgs)])
					}
				}
				t.Input("%q", src)
				t.State(src)
				var ps []rune
				for k := -1; k <= w; k++ {
					ps = append(ps, rune(base+k))
				}
				ps = append(ps, -1, 0, 0x7f, 0xd800, 0xfffd, 0x10ffff, 0x7fffffff)
				check(t, src, ps)
			},
		})
	}

	// 2. ways to write a code point
	{
		vals := []int{0, 1, 9, 0xa, 0xf, 0x10, 0x7f, 0x80, 0xff, 0x100, 0xabc, 0xfff, 0x1000, 0x8000, 0xabcd, 0xffff, 0x10000, 0x20bb7, 0xfffff, 0x100000, 0x10ffff, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x7fffffff}
		if thorough {
			for b := 0; b < 31; b++ {
				vals = append(vals, 1<<uint(b), 1<<uint(b)-1, 1<<uint(b)+1, 5<<uint(b)&0x7fffffff)
			}
		}
		mix := engine.NewMix(len(vals), 9, 2, 3)
		fs = append(fs, &engine.Family{
			Name: "notations", Bounds: fmt.Sprintf("%d code points, written with 1..8 digits as leading zeros allow, in upper and lower case, alone and as either end of a range", len(vals)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				v := vals[d[0]]
				f := fmt.Sprintf("%%0%d%s", d[1], []string{"x", "X"}[d[2]])
				if d[1] == 0 {
					f = "%" + []string{"x", "X"}[d[2]]
				}
				h := "0x" + fmt.Sprintf(f, v)
				var src string
				switch d[3] {
				case 0:
					src = h
				case 1:
					src = "0x00.." + h
				case 2:
					src = h + "..0x7FFFFFFF"
				}
				src += " KANJI"
				t.Input("%q", src)
				t.State(src)
				check(t, src, []rune{0, 1, rune(v - 1), rune(v), rune(v) + 1, rune(v / 2), 0x7fffffff, rune(v / 16), rune(v) << 4, rune(v / 256)})
			},
		})
	}

	// 3. lines made of any parts
	{
		lo := []string{"0x41", "0x5A", "0x", "0xG1", "41", "0X41", "x41", "", "0x-1", "0x+41", "0x 41", "0x4.1", "0x100000000", "0x41_1", "ALPHA", "#0x41", "0x80000000", "0xFFFFFF41", "0x7FFFFFFF"}
		sep := []string{"", "..", ".", "...", "-", " .. ", "..0x42.."}
		hi := []string{"", "0x5A", "0x41", "0x5", "5A", "0x", "0xZZ", "0X5A", "0x123456789", "ab5A", "0x80000000", "0xFFFFFFFF"}
		cat := []string{"", " ", " KANJI", "\tKANJI  NUMERIC", " KANJI # NUMERIC", " KANJI #x", " #KANJI", " kanji", " KANJI NOSUCH", " KANJI,NUMERIC", " KANJI#", " 0 1 0", " KANJI KANJI\r"}
		mix := engine.NewMix(len(lo), len(sep), len(hi), len(cat))
		fs = append(fs, &engine.Family{
			Name: "lines", Bounds: fmt.Sprintf("every line made of one of %d beginnings, %d separators, %d ends and %d class lists", len(lo), len(sep), len(hi), len(cat)),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				l := lo[d[0]] + sep[d[1]] + hi[d[2]] + cat[d[3]]
				t.Input("%q", l)
				t.State(l)
				ps := []rune{0, 5, 0x40, 0x41, 0x42, 0x50, 0x5a, 0x5b, 0x411}
				check(t, l, ps)
			},
		})
	}

	// 4. all short sources over the bytes that matter to line and field splitting
	{
		sym := []string{"0x41", " KANJI", " NUMERIC", "\n", "#", "\t", "\r\n", "..0x43", "DEFAULT 0 1 0"}
		n := 5
		if thorough {
			n = 7
		}
		sp := engine.NewStrings(len(sym), n)
		fs = append(fs, &engine.Family{
			Name: "sources", Bounds: fmt.Sprintf("all sequences of up to %d pieces over %q", n, sym),
			Size: sp.Size(),
			Run: func(i int64, t *engine.T) {
				src := ""
				for _, x := range sp.Get(i) {
					src += sym[x]
				}
				t.Input("%q", src)
				t.State(src)
				check(t, src, []rune{0x40, 0x41, 0x42, 0x43, 0x44})
			},
		})
	}

	// 4b. lines that do not fit into a buffer
	{
		lens := engine.LongLines(tier)
		kinds := [][2]string{{"0x41 KANJI~", " "}, {"#~", "0x42 KANJI "}, {"0x41~KANJI", " \t"}, {"0x41 KANJI #~", " x"}, {"0x41..0x42~ALPHA", " NUMERIC "}, {"~", " \t"}}
		ends := []string{"\n", "\r\n", ""}
		mix := engine.NewMix(len(lens), len(kinds), len(ends), 3, len(kinds)+1)
		fs = append(fs, &engine.Family{
			Name: "long-lines", Bounds: fmt.Sprintf("a line of each of %v bytes of %d kinds and line ends %q, first, after a short line and after another long one, followed by a short line or another long one", lens, len(kinds), ends),
			Size: mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				l := engine.PadTo(kinds[d[1]][0], kinds[d[1]][1], lens[d[0]])
				src := []string{"", "0x40 NUMERIC\n", engine.PadTo("0x40 SPACE~", " ", lens[d[0]]-1) + "\n"}[d[3]] + l + ends[d[2]]
				if ends[d[2]] != "" {
					if d[4] == len(kinds) {
						src += "0x43 GREEK\n"
					} else {
						src += engine.PadTo(strings.ReplaceAll(kinds[d[4]][0], "0x41", "0x43"), kinds[d[4]][1], lens[d[0]]+1) + "\n0x44 CYRILLIC"
					}
				} else if d[4] > 0 {
					return
				}
				t.Input("%d %q %q %d %d", lens[d[0]], kinds[d[1]], ends[d[2]], d[3], d[4])
				t.State(src)
				check(t, src, []rune{0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45})
			},
		})
	}

	// 5. many ranges: every code point of large generated definitions
	{
		ks := []int{1, 2, 3, 7, 64, 65, 255, 256, 257, 1000, 4097, 40000, 70000}
		fs = append(fs, &engine.Family{
			Name: "many-ranges", Bounds: fmt.Sprintf("definitions of %v ranges of mixed length and overlap, every code point 0..0x2FFF (for more than 1000 ranges every 37th, and those of the first and last ranges)", ks),
			Size: int64(len(ks)) * 4, Chunk: 1,
			Run: func(i int64, t *engine.T) {
				k := ks[i/4]
				var sb strings.Builder
				for j := 0; j < k; j++ {
					lo := (j * []int{1, 7, 131, 4099}[i%4]) % 0x2000
					hi := lo + (j*j)%97
					fmt.Fprintf(&sb, "0x%X..0x%X %s\n", lo, hi, ref.Classes[(j*5)%16])
				}
				src := sb.String()
				t.Input("%d ranges, variant %d", k, i%4)
				t.State(k, i%4)
				var ps []rune
				step := rune(1)
				if k > 1000 {
					// the last ranges cover what no other does
					step = 37
					src += "\n\n# last\n0x8000..0x8003 GREEK\n0x8002 USER1 USER2 # x\n0x8003..0x8004 CYRILLIC\n"
					ps = append(ps, 0x7fff, 0x8000, 0x8001, 0x8002, 0x8003, 0x8004, 0x8005)
				}
				for c := rune(0); c < 0x3000; c += step {
					ps = append(ps, c)
				}
				check(t, src, ps)
			},
		})
	}

	// 6. the shipped file, embedded and in the source tree
	{
		const step = 0x1000
		var src [2]string
		var cc [2]*dictionary.CharacterCategory
		var rs [2][]ref.Range
		fs = append(fs, &engine.Family{
			Name: "shipped", Bounds: "every code point 0..0x10FFFF of the shipped char.def, as embedded and as in the tree",
			Size: 2 * 0x110000 / step, Serial: true,
			Run: func(i int64, t *engine.T) {
				k := int(i % 2)
				if cc[k] == nil {
					var b []byte
					var err error
					if k == 0 {
						f, e := data.Assets.Open("char.def")
						if e != nil {
							t.Fail("asset", "the embedded char.def cannot be opened: %v", e)
							return
						}
						b, err = io.ReadAll(f)
						f.Close()
					} else {
						b, err = os.ReadFile(filepath.Join(os.Getenv("REPO_DIR"), "data", "root", "char.def"))
					}
					if err != nil {
						panic(err)
					}
					src[k] = string(b)
					var v ref.Verdict
					rs[k], v = ref.ParseRanges(src[k])
					if v != ref.Accept {
						panic(fmt.Sprintf("shipped char.def: %v", v))
					}
					c, err := load(src[k])
					if err != nil {
						t.Fail("shipped", "the shipped char.def is rejected: %v", err)
						return
					}
					cc[k] = c
				}
				t.Input("block %d of char.def %d", i/2, k)
				t.State(k, i/2)
				t.Trace(1)
				for c := rune(i / 2 * step); c < rune((i/2+1)*step); c++ {
					t.Transition(1)
					if got, want := cc[k].GetCategoryTypes(c), ref.CatsOf(rs[k], c); got != want {
						t.Fail("shipped", "code point %#x has classes %#x, want %#x", c, got, want)
						return
					}
				}
			},
		})
	}
	return fs
}

func main() {
	engine.Main(&engine.Check{
		ID: "C16", Level: "model_checking", Families: families,
		Rule:        "a state is a distinct definition (or block of the shipped one); a transition is one code point looked up and compared; a trace is one definition loaded by the real reader after the model's verdict",
		Assumptions: []string{"ranges beyond 0x7fffffff and ranges without a class are left unspecified"},
	})
}
