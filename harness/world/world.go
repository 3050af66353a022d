// Package world is a small but complete set of resources: a system dictionary
// with splits of every kind, a user dictionary, definitions and plug-ins.
package world

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"

	"github.com/msnoigrs/gosudachi"
)

// Parts of speech.
const (
	N   = "名詞,普通名詞,一般,*,*,*"
	NUM = "名詞,数詞,*,*,*,*"
	V   = "動詞,一般,*,*,五段-カ行,終止形-一般"
	SYM = "補助記号,一般,*,*,*,*"
	U   = "名詞,固有名詞,ユーザ,*,*,*"
)

// Row of a lexicon.
func Row(head string, l, r, c int, pos, norm, a, b string) string {
	return RowS(head, head, l, r, c, pos, norm, a, b)
}

// RowS is a row with a written form of its own.
func RowS(head, surface string, l, r, c int, pos, norm, a, b string) string {
	h := strings.ReplaceAll(head, ",", `\u002C`)
	w := strings.ReplaceAll(surface, ",", `\u002C`)
	n := strings.ReplaceAll(norm, ",", `\u002C`)
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,*,C,%s,%s,*\n", h, l, r, c, w, pos, "ヨミ", n, a, b)
}

// Lexicon is the system lexicon; the comment gives the word number.
var Lexicon = strings.Join([]string{
	Row("あ", 0, 0, 100, N, "あ", "*", "*"),                  // 0
	Row("い", 1, 1, 120, V, "い", "*", "*"),                  // 1
	Row("あい", 2, 2, 150, N, "愛", "0/1", "*"),               // 2
	Row("あいあ", 0, 1, 200, N, "あいあ", "0/1/0", "2/0"),        // 3
	Row("いあい", 1, 0, 210, V, "いあい", "*", "1/2"),            // 4
	Row("東", 1, 1, 300, N, "東", "*", "*"),                  // 5
	Row("京", 1, 1, 300, N, "京", "*", "*"),                  // 6
	Row("都", 1, 2, 300, N, "都", "*", "*"),                  // 7
	Row("東京", 1, 1, 310, N, "東京", "5/6", "8"),              // 8
	Row("東京都", 1, 1, 320, N, "東京都", "5/6/7", "8/7"),        // 9
	Row("1", 2, 2, 50, NUM, "1", "*", "*"),                 // 10
	Row("2", 2, 2, 50, NUM, "2", "*", "*"),                 // 11
	Row("一", 2, 2, 60, NUM, "一", "*", "*"),                 // 12
	Row("十", 2, 2, 60, NUM, "十", "*", "*"),                 // 13
	Row("0", 2, 2, 50, NUM, "0", "*", "*"),                 // 14
	Row(",", 0, 0, 70, SYM, ",", "*", "*"),                 // 15
	Row(".", 0, 0, 70, SYM, ".", "*", "*"),                 // 16
	Row("カ", 1, 1, 400, N, "カ", "*", "*"),                  // 17
	Row("カナ", 1, 1, 400, N, "仮名", "*", "*"),                // 18
	Row("アイ", 1, 2, 5000, N, "目", "*", "*"),                // 19
	Row("センチ", 1, 1, 300, N, "センチメートル", "*", "*"),          // 20
	Row("a", 0, 0, 200, N, "a", "*", "*"),                  // 21
	Row("ab", 0, 0, 200, N, "AB", "21/23", "21/23"),        // 22
	Row("b", -1, -1, 200, N, "b", "*", "*"),                // 23
	Row("km", 1, 1, 200, N, "キロメートル", "*", "*"),            // 24
	Row("ー", 1, 1, 500, SYM, "ー", "*", "*"),                // 25
	Row("𠮷", 1, 1, 300, N, "吉", "*", "*"),                  // 26
	Row("𠮷い", 1, 1, 200, N, "吉い", "26/1", "26/1"),          // 27
	Row("ァ", 1, 1, 900, N, "ア", "*", "*"),                  // 28
	Row("東京都あい", 1, 1, 200, N, "東京都愛", "5/6/7/0/1", "9/2"), // 29
}, "")

// UserLexicon belongs to a user dictionary.
var UserLexicon = strings.Join([]string{
	Row("都い", 1, 1, -100, U, "都い", "7/U1", "*"),         // U0
	Row("い", -1, -1, 0, U, "意", "*", "*"),               // U1
	Row("京都", 1, 1, -32768, U, "京都", "6/7", "6/7"),      // U2 (automatic cost)
	Row("東京都い", 1, 1, -2000, U, "東京都意", "8/U0", "9/U1"), // U3
}, "")

// Matrix of connection costs.
var Matrix = gs.Matrix(3, 3, func(l, r int) int {
	if l == 2 && r == 0 {
		return 5
	}
	return 7*l - 3*r
})

// CharDef is the character definition.
const CharDef = `DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 0 1 0
GREEK 1 1 0
0x0020 SPACE
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x03B1..0x03C9 GREEK
0x3041..0x309F HIRAGANA
0x30A1..0x30FA KATAKANA
0x30FC..0x30FF KATAKANA
0x30A1 NOOOVBOW
0x30E3 NOOOVBOW
0x30FC NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC
0x5341 KANJINUMERIC
0x20000..0x2FFFF KANJI
`

// UnkDef is the unknown word definition.
const UnkDef = `DEFAULT,0,0,4000,` + SYM + `
SPACE,0,0,4000,` + SYM + `
KANJI,1,1,8000,` + N + `
KANJI,1,2,9000,` + V + `
NUMERIC,2,2,600,` + NUM + `
ALPHA,0,0,1500,` + N + `
HIRAGANA,1,1,7000,` + N + `
KATAKANA,1,1,3000,` + N + `
KANJINUMERIC,2,2,9000,` + NUM + `
GREEK,0,0,1500,` + N + `
`

// RewriteDef is the rewrite table.
const RewriteDef = `# exempt
Ⅲ
〇
# table
ｶﾞ ガ
ｱｱ ア
ｱｱﾞ イ
㌢ センチ
`

// Marks of the prolonged sound.
var Marks = []string{"ー", "〜", "~"}

// Set names a combination of plug-ins.
type Set struct {
	Name                       string
	Default, Prolonged         bool
	Numeric, NoNormalize, Kana bool
	MeCab                      bool
	User                       bool
	UTF16                      bool
	Far                        bool // the words have numbers that do not fit in two bytes
	MinLen                     int
	Probe                      *tk.Probe
	First                      *tk.Probe // before the other path plug-ins
}

// Sets are the usual combinations.
var Sets = []Set{
	{Name: "bare"},
	{Name: "input", Default: true, Prolonged: true},
	{Name: "shipped", Default: true, Prolonged: true, Numeric: true, Kana: true, MinLen: 3, MeCab: true},
	{Name: "mecab", MeCab: true, Kana: true, MinLen: 2},
	{Name: "numeric", Default: true, Numeric: true, NoNormalize: true, User: true},
	{Name: "user", Prolonged: true, Default: true, Numeric: true, Kana: true, MinLen: 3, MeCab: true, User: true},
	{Name: "utf16", Default: true, Kana: true, MinLen: 1, User: true, UTF16: true},
}

var (
	mu    sync.Mutex
	built = map[string]string{}
)

// Dics compiles the dictionaries once and gives their paths.
func Dics(scratch string, utf16 bool) (sys, user string) { return dics(scratch, utf16, false) }

// lexicons gives the sources of the dictionaries.
func lexicons(far bool) (sys, user string) {
	if !far {
		return Lexicon, UserLexicon
	}
	return gs.Filler(gs.Far, N) + gs.Shift(Lexicon, gs.Far), gs.Filler(gs.Far, U) + gs.Shift(UserLexicon, gs.Far)
}

func dics(scratch string, utf16, far bool) (sys, user string) {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%v-%v", utf16, far)
	if p, ok := built[k]; ok {
		return p, filepath.Join(scratch, "world-user-"+k+".dic")
	}
	o := gs.Opts{UTF16: utf16, Desc: "world", Time: 1}
	sysLex, userLex := lexicons(far)
	b, err := gs.Sys(sysLex, Matrix, o)
	if err != nil {
		panic(err)
	}
	u, err := gs.User(userLex, b, o)
	if err != nil {
		panic(err)
	}
	sys = tk.File(scratch, "world-sys-"+k+".dic", b)
	user = tk.File(scratch, "world-user-"+k+".dic", u)
	built[k] = sys
	return sys, user
}

// Models are the models of the dictionaries.
func Models() []*ref.Dict { return Set{}.Models() }

// Models are the models of the dictionaries of a set.
func (x Set) Models() []*ref.Dict {
	sysLex, userLex := lexicons(x.Far)
	s, v, why := ref.Compile([]string{sysLex}, Matrix, nil, false)
	if v == ref.Reject {
		panic(why)
	}
	u, v, why := ref.Compile([]string{userLex}, "", s, false)
	if v == ref.Reject {
		panic(why)
	}
	return []*ref.Dict{s, u}
}

// Conf is the configuration of a set.
func (s Set) Conf(scratch string) tk.Conf {
	sys, user := dics(scratch, s.UTF16, s.Far)
	c := tk.Conf{Sys: sys, CharDef: tk.File(scratch, "world-char.def", []byte(CharDef)), UTF16: s.UTF16}
	if s.User {
		c.User = []string{user}
	}
	if s.Default {
		c.In = append(c.In, tk.DefaultInput(tk.File(scratch, "world-rewrite.def", []byte(RewriteDef))))
	}
	if s.Prolonged {
		c.In = append(c.In, tk.Prolonged(Marks, "ー"))
	}
	if s.MeCab {
		c.OOV = append(c.OOV, tk.MeCabOOV(c.CharDef, tk.File(scratch, "world-unk.def", []byte(UnkDef))))
	}
	c.OOV = append(c.OOV, tk.SimpleOOV(SYM, 0, 0, 6000))
	if s.First != nil {
		c.Path = append(c.Path, s.First)
	}
	if s.Numeric {
		c.Path = append(c.Path, tk.JoinNumeric(!s.NoNormalize))
	}
	if s.Kana {
		c.Path = append(c.Path, tk.JoinKatakana(N, s.MinLen))
	}
	if s.Probe != nil {
		c.Path = append(c.Path, s.Probe)
	}
	return c
}

// JSON are the settings of a set for the command.
func (s Set) JSON(scratch string) string {
	c := s.Conf(scratch)
	q := func(x interface{}) string { b, _ := json.Marshal(x); return string(b) }
	pos := func(p string) string { return q(strings.Split(p, ",")) }
	file := func(name, body string) string { return q(tk.File(scratch, name, []byte(body))) }
	var in, oov, path []string
	if s.Default {
		in = append(in, `{"name":"DefaultInputTextPlugin","rewriteDef":`+file("world-rewrite.def", RewriteDef)+`}`)
	}
	if s.Prolonged {
		in = append(in, `{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":`+q(Marks)+`,"replacementSymbol":"ー"}`)
	}
	if s.MeCab {
		oov = append(oov, `{"name":"MeCabOovProviderPlugin","charDef":`+q(c.CharDef)+`,"unkDef":`+file("world-unk.def", UnkDef)+`}`)
	}
	oov = append(oov, `{"name":"SimpleOovProviderPlugin","oovPOS":`+pos(SYM)+`,"leftId":0,"rightId":0,"cost":6000}`)
	if s.Numeric {
		path = append(path, `{"name":"JoinNumericPlugin","enableNormalize":`+fmt.Sprint(!s.NoNormalize)+`}`)
	}
	if s.Kana {
		path = append(path, `{"name":"JoinKatakanaOovPlugin","oovPOS":`+pos(N)+`,"minLength":`+fmt.Sprint(s.MinLen)+`}`)
	}
	user := c.User
	if user == nil {
		user = []string{}
	}
	return fmt.Sprintf(`{"systemDict":%s,"userDict":%s,"characterDefinitionFile":%s,"utf16String":%v,"inputTextPlugin":[%s],"oovProviderPlugin":[%s],"pathRewritePlugin":[%s]}`,
		q(c.Sys), q(user), q(c.CharDef), s.UTF16, strings.Join(in, ","), strings.Join(oov, ","), strings.Join(path, ","))
}

// Open opens a set.
func (s Set) Open(scratch string) *gosudachi.JapaneseDictionary { return tk.Must(s.Conf(scratch)) }

// Text renders a string of the space over symbols.
func Text(sp *engine.Strings, sym []string, i int64) string {
	x := ""
	for _, k := range sp.Get(i) {
		x += sym[k]
	}
	return x
}
