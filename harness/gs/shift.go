package gs

import (
	"fmt"
	"strconv"
	"strings"
)

// Far is a number of words that does not fit in two bytes.
const Far = 66000

// Filler is a lexicon of n words that are not indexed.
func Filler(n int, pos string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "f,-1,-1,0,f%d,%s,g%d,h%d,*,A,*,*,*\n", i, pos, i, i)
	}
	return sb.String()
}

// Shift adds n to every number of a word in the references of a lexicon.
func Shift(lex string, n int) string {
	var out []string
	for _, line := range strings.Split(lex, "\n") {
		c := strings.Split(line, ",")
		for _, k := range []int{13, 15, 16, 17} {
			if k >= len(c) {
				continue
			}
			parts := strings.Split(c[k], "/")
			for i, p := range parts {
				d := strings.TrimPrefix(p, "U")
				if x, err := strconv.Atoi(d); err == nil {
					parts[i] = p[:len(p)-len(d)] + strconv.Itoa(x+n)
				}
			}
			c[k] = strings.Join(parts, "/")
		}
		out = append(out, strings.Join(c, ","))
	}
	return strings.Join(out, "\n")
}
