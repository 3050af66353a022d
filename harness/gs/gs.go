// Package gs builds and loads dictionaries through the exported API of the code under test.
package gs

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// MemFile is an in-memory io.WriteSeeker with optional fault injection.
type MemFile struct {
	B   []byte
	Pos int64
	Ops int
	// Fault, when set, is asked before operation n (0-based) of the given kind.
	Fault func(n int, op string, p []byte) (k int, err error, hit bool)
}

func (m *MemFile) Write(p []byte) (int, error) {
	n := m.Ops
	m.Ops++
	q := p
	var ferr error
	if m.Fault != nil {
		if k, err, hit := m.Fault(n, "write", p); hit {
			if k < len(p) {
				q = p[:k]
			}
			ferr = err
		}
	}
	end := m.Pos + int64(len(q))
	if end > int64(len(m.B)) {
		m.B = append(m.B, make([]byte, end-int64(len(m.B)))...)
	}
	copy(m.B[m.Pos:], q)
	m.Pos = end
	if ferr != nil {
		return len(q), ferr
	}
	return len(q), nil
}

func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	n := m.Ops
	m.Ops++
	if m.Fault != nil {
		if _, err, hit := m.Fault(n, "seek", nil); hit && err != nil {
			return 0, err
		}
	}
	switch whence {
	case io.SeekStart:
		m.Pos = off
	case io.SeekCurrent:
		m.Pos += off
	case io.SeekEnd:
		m.Pos = int64(len(m.B)) + off
	}
	if m.Pos < 0 {
		return 0, errors.New("negative position")
	}
	return m.Pos, nil
}

// Opts of a build.
type Opts struct {
	UTF16 bool
	Desc  string
	Time  int64
}

// Sys compiles a system dictionary.
func Sys(lex, matrix string, o Opts) ([]byte, error) {
	return SysR([]io.Reader{strings.NewReader(lex)}, strings.NewReader(matrix), &MemFile{}, o)
}

// SysR compiles a system dictionary from readers into out, the way the dicbuilder command does.
func SysR(lex []io.Reader, matrix io.Reader, out *MemFile, o Opts) ([]byte, error) {
	hb, err := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, o.Time, o.Desc).ToBytes()
	if err != nil {
		return nil, err
	}
	if _, err := out.Write(hb); err != nil {
		return nil, err
	}
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, o.UTF16)
	store := dictionary.NewPosTable()
	for _, l := range lex {
		if err := b.BuildLexicon(store, l); err != nil {
			return nil, err
		}
	}
	if err := b.WriteGrammar(store, matrix, out); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(out, store); err != nil {
		return nil, err
	}
	return out.B, nil
}

// User compiles a user dictionary against a compiled system dictionary.
func User(lex string, sys []byte, o Opts) ([]byte, error) {
	return UserR([]io.Reader{strings.NewReader(lex)}, sys, &MemFile{}, o)
}

func UserR(lex []io.Reader, sys []byte, out *MemFile, o Opts) ([]byte, error) {
	hb, err := dictionary.NewDictionaryHeader(dictionary.UserDictVersion2, o.Time, o.Desc).ToBytes()
	if err != nil {
		return nil, err
	}
	if _, err := out.Write(hb); err != nil {
		return nil, err
	}
	sg, sl := Load(sys, o.UTF16)
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), sl, o.UTF16)
	store := dictionary.NewPosTableUser(sg)
	for _, l := range lex {
		if err := b.BuildLexicon(store, l); err != nil {
			return nil, err
		}
	}
	if err := b.WriteGrammarUser(&store.PosTable, out); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(out, store); err != nil {
		return nil, err
	}
	return out.B, nil
}

// Load opens dictionary bytes (with a grammar).
func Load(b []byte, utf16 bool) (*dictionary.Grammar, *dictionary.DoubleArrayLexicon) {
	b = b[:len(b):len(b)] // reading past the end must not go unnoticed
	g := dictionary.NewGrammar(b, dictionary.HeaderStorageSize, utf16)
	l := dictionary.NewDoubleArrayLexicon(b, dictionary.HeaderStorageSize+g.StorageSize, utf16)
	return g, l
}

// LoadNoGrammar opens the bytes of a user dictionary of the first version.
func LoadNoGrammar(b []byte, utf16 bool) *dictionary.DoubleArrayLexicon {
	b = b[:len(b):len(b)]
	return dictionary.NewDoubleArrayLexicon(b, dictionary.HeaderStorageSize, utf16)
}

// Cat reads a character definition.
func Cat(def string) (*dictionary.CharacterCategory, error) {
	c := dictionary.NewCharacterCategory()
	if err := c.ReadCharacterDefinition(strings.NewReader(def)); err != nil {
		return nil, err
	}
	return c, nil
}

// Matrix renders a connection matrix source.
func Matrix(l, r int, f func(left, right int) int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", l, r)
	for x := 0; x < l; x++ {
		for y := 0; y < r; y++ {
			fmt.Fprintf(&b, "%d %d %d\n", x, y, f(x, y))
		}
	}
	return b.String()
}

// WriteFile writes b to a fresh file.
func WriteFile(path string, b []byte) string {
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
	return path
}

// Morph is the observable content of a morpheme.
type Morph struct {
	Begin, End       int
	Surface          string
	POS              string
	Norm, Dict, Read string
	OOV              bool
	DicId, WordId    int
}

// Morphs reads a result completely.
func Morphs(ms *gosudachi.MorphemeList) []Morph {
	out := make([]Morph, ms.Length())
	for i := range out {
		m := ms.Get(i)
		out[i] = Morph{m.Begin(), m.End(), m.Surface(), strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), m.IsOOV(), m.GetDictionaryId(), m.GetWordId()}
	}
	return out
}

func (m Morph) String() string {
	return fmt.Sprintf("[%d,%d %q pos=%s norm=%q dict=%q read=%q oov=%v dic=%d word=%d]", m.Begin, m.End, m.Surface, m.POS, m.Norm, m.Dict, m.Read, m.OOV, m.DicId, m.WordId)
}

// Show renders a result.
func Show(ms []Morph) string {
	var p []string
	for _, m := range ms {
		p = append(p, m.String())
	}
	return strings.Join(p, " ")
}

// Equal compares two results.
func Equal(a, b []Morph) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Row renders a lexicon row; f has the 18 columns.
func Row(f ...string) string { return strings.Join(f, ",") + "\n" }

// Word is a convenient row: indexed headword, ids, cost, POS (six comma separated), reading, splits.
func Word(head string, l, r, c int, pos, norm, read, dicForm, mode, a, b, ws string) string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", head, l, r, c, head, pos, read, norm, dicForm, mode, a, b, ws)
}

// Readers turns sources into readers.
func Readers(src []string) []io.Reader {
	out := make([]io.Reader, len(src))
	for i, s := range src {
		out[i] = strings.NewReader(s)
	}
	return out
}

// SysFiles compiles a system dictionary from several lexicon sources.
func SysFiles(lex []string, matrix string, o Opts) ([]byte, error) {
	return SysR(Readers(lex), strings.NewReader(matrix), &MemFile{}, o)
}

// UserFiles compiles a user dictionary from several lexicon sources.
func UserFiles(lex []string, sys []byte, o Opts) ([]byte, error) {
	return UserR(Readers(lex), sys, &MemFile{}, o)
}

// FirstVersion turns a user dictionary without POS of its own into the first version, which has no grammar.
func FirstVersion(b []byte) []byte {
	const header = 272
	const old = uint64(0xa50f31188bd211e7)
	var out []byte
	for i := 0; i < 8; i++ {
		out = append(out, byte(old>>(8*i)))
	}
	out = append(out, b[8:header]...)
	rest := b[header+6:] // empty POS table and an empty matrix
	out = append(out, rest...)
	// the word info offsets are absolute
	at := header
	rd := func(p int) int {
		return int(out[p]) | int(out[p+1])<<8 | int(out[p+2])<<16 | int(out[p+3])<<24
	}
	at += 4 + 4*rd(at)
	at += 4 + rd(at)
	n := rd(at)
	at += 4 + 6*n
	for i := 0; i < n; i++ {
		v := rd(at) - 6
		out[at], out[at+1], out[at+2], out[at+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
		at += 4
	}
	return out
}
