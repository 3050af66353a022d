// Package rows has templates of valid lexicon rows.
package rows

import (
	"fmt"
	"strings"
)

// Parts of speech.
const (
	N = "名詞,普通名詞,一般,*,*,*"
	V = "動詞,一般,*,*,五段,終止形"
	E = ",,,,,"
)

// Row of a lexicon.
func Row(head string, l, r, c int, surf, pos, read, norm, df, mode, a, b, ws string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", head, l, r, c, surf, pos, read, norm, df, mode, a, b, ws)
}

// Tmpl is a row at place self of a lexicon of n rows.
type Tmpl func(n, self int) string

// Tmpls are rows with homographs, unindexed rows, extreme costs, self, forward
// and column references, escapes and long strings.  Ids are below 3, connection
// ids fit a 3x2 matrix.
func Tmpls() []Tmpl {
	w := Row
	k := func(s string) Tmpl { return func(n, self int) string { return s } }
	return []Tmpl{
		k(w("a", 0, 0, 10, "a", N, "a", "a", "*", "A", "*", "*", "*")),
		k(w("a", 1, 1, -32768, "A", V, "エー", "a", "*", "A", "*", "*", "*")),
		k(w("ab", 2, 1, 32767, "ab", N, "エービー", "AB", "*", "B", "0/0", "*", "0")),
		k(w("b", -1, -1, 0, "b", E, "", "", "0", "A", "*", "*", "*")),
		k(w("日本", 0, 1, -1, "日本", V, "ニッポン", "日本", "0", "C", "0", "0/0", "0/0/0")),
		k(w("𠮷a", -1, 0, 255, "𠮷a", N, "ヨシ", "吉a", "*", "C", "0", "*", "*")),
		func(n, self int) string { // refers to itself and to the last row
			return w("abc", 1, 0, 256, "abc", N, "abc", "x", fmt.Sprint(self), "C", fmt.Sprint(n-1), "U"+fmt.Sprint(self)+"/"+fmt.Sprint(n-1), "*")
		},
		func(n, self int) string { // dictionary form of a later row
			return w(`\u0061\u{62}`, 0, 0, -257, "あ", V, "ア", "", fmt.Sprint(n-1), "C", "*", "0", "*")
		},
		k(w("a", -1, 2, 7, "a", N, "a", "a", "*", "A", "*", "*", "*")),
		k(w("bb", 2, 0, -32767, strings.Repeat("x", 127), E, strings.Repeat("y", 128), strings.Repeat("あ", 100), "*", "*", "*", "*", "0/0/0/0")),
		func(n, self int) string { // reference by columns to itself
			return w("c", 1, 1, 1, "シ", V, "シー", "c", "*", "C", `シ\u002C動詞\u002C一般\u002C*\u002C*\u002C五段\u002C終止形\u002Cシー`, "*", "0/"+fmt.Sprint(self))
		},
		func(n, self int) string {
			return w("\xe3\x81\x82", 1, 1, 1, "", V, "あ", "", fmt.Sprint(n-1), "C", "*", "*", fmt.Sprint(n-1))
		},
	}
}
