package ref

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Word is one row of a dictionary as the source describes it.
type Word struct {
	Indexed            bool
	Head               string
	Left, Right, Cost  int
	Surface            string
	POS                [6]string
	Reading, Norm      string
	RawReading         string
	DicForm            int
	A, B, WS           []int32 // ids as stored: tag 1<<28 marks a word of the same user dictionary
	splitA, splitB, ws string
}

// Dict is what a source says.
type Dict struct {
	Words  []Word
	POS    [][6]string // entries of its own, in order of first use
	L, R   int
	Matrix []int // [right*L+left]
}

// Verdict of the specification on a source.
type Verdict int

const (
	Accept Verdict = iota
	Reject
	Either // unspecified whether accepted; when accepted it must be faithful
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "either"}[v] }

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// escapeAt parses an escape at s[i:]; n is its length, 0 if there is none.
func escapeAt(s string, i int) (r int64, n int) {
	if !strings.HasPrefix(s[i:], "\\u") {
		return 0, 0
	}
	j := i + 2
	if j < len(s) && s[j] == '{' {
		k := j + 1
		for k < len(s) && isHex(s[k]) {
			k++
		}
		if k == j+1 || k >= len(s) || s[k] != '}' {
			return 0, 0
		}
		v, err := strconv.ParseInt(s[j+1:k], 16, 64)
		if err != nil {
			v = 1 << 40
		}
		return v, k + 1 - i
	}
	if j+4 > len(s) {
		return 0, 0
	}
	for k := j; k < j+4; k++ {
		if !isHex(s[k]) {
			return 0, 0
		}
	}
	v, _ := strconv.ParseInt(s[j:j+4], 16, 64)
	return v, 6
}

// Decode replaces the escapes of one column.
func Decode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		v, n := escapeAt(s, i)
		if n == 0 {
			b.WriteByte(s[i])
			i++
			continue
		}
		if v >= 0xD800 && v < 0xDC00 {
			if w, m := escapeAt(s, i+n); m > 0 && w >= 0xDC00 && w < 0xE000 {
				b.WriteRune(utf16.DecodeRune(rune(v), rune(w)))
				i += n + m
				continue
			}
		}
		if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
			b.WriteByte(s[i])
			i++
			continue
		}
		b.WriteRune(rune(v))
		i += n
	}
	return b.String()
}

// Lines splits a source into lines the way all readers must.
func Lines(s string) []string {
	var out []string
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			out = append(out, s)
			break
		}
		l := s[:i]
		if strings.HasSuffix(l, "\r") {
			l = l[:len(l)-1]
		}
		out = append(out, l)
		s = s[i+1:]
	}
	return out
}

func tooLong(s string, u16 bool) bool {
	if u16 {
		return len(utf16.Encode([]rune(s))) > 32767
	}
	return len(s) > 32767
}

type compiler struct {
	d       *Dict
	sys     *Dict
	u16     bool
	v       Verdict
	why     string
	posSeen map[[6]string]bool
}

func (c *compiler) reject(f string, a ...interface{}) {
	if c.v != Reject {
		c.v = Reject
		c.why = fmt.Sprintf(f, a...)
	}
}

func (c *compiler) either(f string, a ...interface{}) {
	if c.v == Accept {
		c.v = Either
		c.why = fmt.Sprintf(f, a...)
	}
}

func int16OK(s string) (int, bool) {
	v, err := strconv.ParseInt(s, 10, 16)
	return int(v), err == nil
}

// Compile interprets lexicon sources (and, for a system dictionary, a matrix source).
// sys is nil for a system dictionary.
func Compile(lex []string, matrix string, sys *Dict, u16 bool) (*Dict, Verdict, string) {
	c := &compiler{d: &Dict{}, sys: sys, u16: u16, posSeen: map[[6]string]bool{}}
	for _, l := range lex {
		for _, line := range Lines(l) {
			c.row(line)
			if c.v == Reject {
				return nil, c.v, c.why
			}
		}
	}
	homo := map[string]int{}
	for _, w := range c.d.Words {
		if w.Indexed {
			homo[w.Head]++
			if homo[w.Head] > 255 {
				c.reject("more than 255 homographs")
			}
			if strings.IndexByte(w.Head, 0) >= 0 {
				c.reject("NUL in indexed headword")
			}
		}
	}
	npos := len(c.d.POS)
	if sys != nil {
		npos += len(sys.POS)
	}
	if npos > 32768 {
		c.reject("too many POS")
	} else if npos == 32768 {
		c.either("32768 POS")
	}
	for i := range c.d.Words {
		w := &c.d.Words[i]
		w.A = c.split(w.splitA)
		w.B = c.split(w.splitB)
		w.WS = c.split(w.ws)
		if w.DicForm >= len(c.d.Words) {
			c.reject("dictionary form of word %d does not exist", i)
		} else if w.DicForm < -1 {
			c.either("negative dictionary form")
		}
	}
	if sys == nil {
		c.matrix(matrix)
	}
	if c.v == Reject {
		return nil, c.v, c.why
	}
	return c.d, c.v, c.why
}

func (c *compiler) row(line string) {
	raw := strings.Split(line, ",")
	if len(raw) != 18 {
		c.reject("%d columns", len(raw))
		return
	}
	var col [18]string
	for i, r := range raw {
		col[i] = Decode(r)
	}
	if col[0] == "" {
		c.reject("empty headword")
		return
	}
	if len(col[0]) > 32767 {
		c.reject("headword longer than its length field")
	}
	for _, k := range []int{0, 4, 5, 6, 7, 8, 9, 10, 11, 12} {
		if tooLong(col[k], c.u16) {
			c.reject("column %d too long", k)
		}
		if c.u16 && k != 0 && !utf8.ValidString(col[k]) {
			c.reject("column %d not representable", k)
		}
	}
	if c.u16 && !utf8.ValidString(col[0]) {
		c.either("headword is not UTF-8")
	}
	var w Word
	var ok [3]bool
	w.Left, ok[0] = int16OK(col[1])
	w.Right, ok[1] = int16OK(col[2])
	w.Cost, ok[2] = int16OK(col[3])
	if !ok[0] || !ok[1] || !ok[2] {
		c.reject("bad number")
	}
	if w.Left < -1 || w.Right < -1 {
		c.either("negative connection id")
	}
	w.Head = col[0]
	w.Indexed = w.Left != -1
	w.Surface = col[4]
	for k := 0; k < 6; k++ {
		w.POS[k] = col[5+k]
		if strings.Contains(w.POS[k], ",") {
			c.reject("comma in part of speech")
		}
	}
	w.RawReading = col[11]
	w.Reading = col[11]
	if w.Reading == "" {
		w.Reading = w.Surface
	}
	w.Norm = col[12]
	if w.Norm == "" {
		w.Norm = w.Surface
	}
	w.DicForm = -1
	if col[13] != "*" {
		v, err := strconv.ParseInt(col[13], 10, 32)
		if err != nil {
			c.reject("bad dictionary form id")
		}
		w.DicForm = int(v)
	}
	for k := 15; k < 18; k++ {
		if strings.Count(col[k], "/")+1 > 127 {
			c.reject("too many units")
		}
	}
	if col[14] == "A" && (col[15] != "*" || col[16] != "*") {
		c.reject("splits in an A word")
	}
	w.splitA, w.splitB, w.ws = col[15], col[16], col[17]
	c.d.Words = append(c.d.Words, w)
	known := c.posSeen[w.POS]
	if !known && c.sys != nil {
		for _, p := range c.sys.POS {
			if p == w.POS {
				known = true
				break
			}
		}
	}
	if !known {
		c.posSeen[w.POS] = true
		c.d.POS = append(c.d.POS, w.POS)
	}
}

func (c *compiler) split(s string) []int32 {
	if s == "*" {
		return nil
	}
	var out []int32
	for _, e := range strings.Split(s, "/") {
		if strings.HasPrefix(e, "U") {
			if v, err := strconv.ParseInt(e[1:], 10, 32); err == nil {
				if v < 0 || v >= int64(len(c.d.Words)) {
					c.reject("no such word %s", e)
					return nil
				}
				if c.sys != nil {
					v |= 1 << 28
				}
				out = append(out, int32(v))
				continue
			}
		}
		if v, err := strconv.ParseInt(e, 10, 32); err == nil {
			n := len(c.d.Words)
			if c.sys != nil {
				n = len(c.sys.Words)
			}
			if v < 0 || v >= int64(n) {
				c.reject("no such word %s", e)
				return nil
			}
			out = append(out, int32(v))
			continue
		}
		if ls := Lines(e); len(ls) == 1 && ls[0] != e {
			c.either("reference with a line end")
			e = ls[0]
		}
		f := strings.Split(e, ",")
		if len(f) < 8 {
			c.reject("incomplete reference %q", e)
			return nil
		}
		if len(f) > 8 {
			c.either("reference with extra columns")
		}
		for i := range f {
			f[i] = Decode(f[i])
		}
		var pos [6]string
		copy(pos[:], f[1:7])
		id := int32(-1)
		for i, w := range c.d.Words {
			if w.Surface == f[0] && w.POS == pos && w.RawReading == f[7] {
				id = int32(i)
				if c.sys != nil {
					id |= 1 << 28
				}
				break
			}
		}
		if id < 0 && c.sys != nil {
			for i, w := range c.sys.Words {
				if w.Surface == f[0] && w.POS == pos && w.Reading == f[7] {
					id = int32(i)
					break
				}
			}
		}
		if id < 0 {
			c.reject("unknown word %q", e)
			return nil
		}
		out = append(out, id)
	}
	return out
}

func blank(l string) bool { return strings.Trim(l, " \t") == "" }

func (c *compiler) matrix(src string) {
	ls := Lines(src)
	if len(ls) == 0 {
		c.reject("no matrix header")
		return
	}
	h := strings.Fields(ls[0])
	if len(h) < 2 {
		c.reject("bad matrix header")
		return
	}
	if len(h) > 2 {
		c.either("matrix header with extra columns")
	}
	l, ok1 := int16OK(h[0])
	r, ok2 := int16OK(h[1])
	if !ok1 || !ok2 || l < 0 || r < 0 {
		c.reject("bad matrix size")
		return
	}
	if l == 0 || r == 0 {
		c.either("empty matrix")
	}
	c.d.L, c.d.R = l, r
	c.d.Matrix = make([]int, l*r)
	for _, line := range ls[1:] {
		if blank(line) {
			continue
		}
		f := strings.Fields(line)
		if len(f) < 3 {
			c.either("short matrix line")
			continue
		}
		if len(f) > 3 {
			c.either("long matrix line")
		}
		x, ok1 := int16OK(f[0])
		y, ok2 := int16OK(f[1])
		v, ok3 := int16OK(f[2])
		if !ok1 || !ok2 || !ok3 {
			c.reject("bad matrix entry")
			return
		}
		if x < 0 || x >= l || y < 0 || y >= r {
			c.reject("matrix entry outside the declared size")
			return
		}
		c.d.Matrix[y*l+x] = v
	}
}
