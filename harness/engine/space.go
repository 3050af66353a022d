package engine

// Strings is the indexed space of all sequences of length 0..max over an
// alphabet of k symbols, shortest first.
type Strings struct {
	K   int
	Max int
	cum []int64
}

func NewStrings(k, max int) *Strings {
	s := &Strings{K: k, Max: max}
	n := int64(1)
	tot := int64(0)
	for l := 0; l <= max; l++ {
		s.cum = append(s.cum, tot)
		tot += n
		n *= int64(k)
	}
	s.cum = append(s.cum, tot)
	return s
}

func (s *Strings) Size() int64 { return s.cum[len(s.cum)-1] }

// Get returns the symbol numbers of sequence i.
func (s *Strings) Get(i int64) []int {
	l := 0
	for i >= s.cum[l+1] {
		l++
	}
	i -= s.cum[l]
	out := make([]int, l)
	for p := l - 1; p >= 0; p-- {
		out[p] = int(i % int64(s.K))
		i /= int64(s.K)
	}
	return out
}

// Mix is a mixed radix decoder.
type Mix struct{ r []int64 }

func NewMix(radices ...int) *Mix {
	m := &Mix{}
	for _, r := range radices {
		m.r = append(m.r, int64(r))
	}
	return m
}

func (m *Mix) Size() int64 {
	n := int64(1)
	for _, r := range m.r {
		n *= r
	}
	return n
}

// Get decodes i; the last radix varies fastest.
func (m *Mix) Get(i int64) []int {
	out := make([]int, len(m.r))
	for p := len(m.r) - 1; p >= 0; p-- {
		out[p] = int(i % m.r[p])
		i /= m.r[p]
	}
	return out
}

// Concat is the disjoint union of several sizes.
type Concat struct{ cum []int64 }

func NewConcat(sizes ...int64) *Concat {
	c := &Concat{cum: []int64{0}}
	for _, s := range sizes {
		c.cum = append(c.cum, c.cum[len(c.cum)-1]+s)
	}
	return c
}
func (c *Concat) Size() int64 { return c.cum[len(c.cum)-1] }
func (c *Concat) Get(i int64) (int, int64) {
	k := 0
	for i >= c.cum[k+1] {
		k++
	}
	return k, i - c.cum[k]
}

// Subset returns the members of bit mask m.
func Subset(m int64, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if m>>uint(i)&1 == 1 {
			out = append(out, i)
		}
	}
	return out
}
