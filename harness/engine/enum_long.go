package engine

// LongLines gives lengths of lines around the multiples of the size of the
// buffers that a reader of lines is likely to have.
func LongLines(tier Tier) (lens []int) {
	around := []int{-2, -1, 0, 1}
	mult := []int{1, 2, 3}
	if tier == Thorough {
		around = []int{-17, -16, -4, -3, -2, -1, 0, 1, 2, 3, 16, 17}
		mult = []int{1, 2, 3, 4, 8, 16, 17}
	}
	for _, k := range mult {
		for _, a := range around {
			lens = append(lens, 4096*k+a)
		}
	}
	return
}

// PadTo lengthens a line to n bytes by repeating fill where the line has a "~".
func PadTo(line, fill string, n int) string {
	for i := 0; i < len(line); i++ {
		if line[i] == '~' {
			s := make([]byte, 0, n)
			s = append(s, line[:i]...)
			for k := 0; len(s) < n-(len(line)-i-1); k++ {
				s = append(s, fill[k%len(fill)])
			}
			return string(append(s, line[i+1:]...))
		}
	}
	return line
}
