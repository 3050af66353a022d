// Package conc has the calls that the concurrency check runs at the same time.
package conc

import (
	"bytes"
	"fmt"

	"verif/harness/gs"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
)

// Call is what one thread does: it creates a tokenizer and tokenizes the texts in turn.
type Call struct {
	Mode  string
	Texts []string
	Dump  bool
}

func (c Call) String() string { return fmt.Sprintf("%s%q dump=%v", c.Mode, c.Texts, c.Dump) }

// Conf is a configuration with calls that exercise its plug-ins.
type Conf struct {
	Set   world.Set
	Calls []Call
}

func c(mode string, texts ...string) Call { return Call{mode, texts, false} }

// Confs are the configurations.
var Confs = []Conf{
	{world.Set{Name: "shipped", Default: true, Prolonged: true, Numeric: true, Kana: true, MinLen: 3, MeCab: true},
		[]Call{c("C", "1,200"), c("C", "二十.1"), c("C", "カァα"), c("C", "あーーい"), c("A", "東京都"), c("C", "ｱｱﾞA"), c("B", "𠮷い")}},
	{world.Set{Name: "user", Default: true, Prolonged: true, Numeric: true, Kana: true, MinLen: 2, MeCab: true, User: true},
		[]Call{c("A", "東京都い"), c("B", "京都"), c("C", "12."), c("C", "ア~~カ"), {"C", []string{"都い"}, true}}},
	{world.Set{Name: "numeric", Default: true, Numeric: true, NoNormalize: true, User: true},
		[]Call{c("C", "1,2"), c("C", "一0.十"), c("A", "いあい")}},
	{world.Set{Name: "utf16", Default: true, Kana: true, MinLen: 1, User: true, UTF16: true},
		[]Call{c("A", "東京都い"), c("C", "㌢カ"), c("B", "𠮷いab")}},
	{world.Set{Name: "mecab", MeCab: true, Kana: true, MinLen: 2},
		[]Call{c("C", "東α"), c("C", "ェカナ"), c("C", "a", "", "あ")}},
}

// Open opens the dictionary of a configuration.
func (c Conf) Open(scratch string) *gosudachi.JapaneseDictionary { return c.Set.Open(scratch) }

// Do performs the call.
func (c Call) Do(d *gosudachi.JapaneseDictionary) string {
	tz := d.Create()
	var dump bytes.Buffer
	if c.Dump {
		tz.DumpOutput = &dump
	}
	var out string
	for _, t := range c.Texts {
		ms, err := tz.Tokenize(c.Mode, t)
		if err != nil {
			out += "error: " + err.Error() + "\n"
			continue
		}
		out += fmt.Sprintf("%s cost=%d\n", gs.Show(gs.Morphs(ms)), ms.GetInternalCost())
	}
	return out + dump.String()
}
