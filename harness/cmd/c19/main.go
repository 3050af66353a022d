// C19: settings resolve the way the documentation says.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"verif/harness/cli"
	"verif/harness/engine"
	"verif/harness/gs"
	"verif/harness/ref"
	"verif/harness/tk"
	"verif/harness/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// fake is a plug-in that keeps its options.
type fake struct {
	name string
	opts map[string]interface{}
}

func (f *fake) GetConfigStruct() interface{}            { return &f.opts }
func (f *fake) SetUp(grammar *dictionary.Grammar) error { return nil }
func (f *fake) Edit(grammar *dictionary.Grammar) error  { return nil }
func (f *fake) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	return nil
}
func (f *fake) ProvideOOV(inputText *gosudachi.InputText, offset int, hasOtherWords bool) ([]*gosudachi.LatticeNode, error) {
	return nil, nil
}

type fakeInput struct {
	name string
	opts map[string]interface{}
}

func (f *fakeInput) GetConfigStruct() interface{}                      { return &f.opts }
func (f *fakeInput) SetUp() error                                      { return nil }
func (f *fakeInput) Rewrite(builder *gosudachi.InputTextBuilder) error { return nil }

// arrays lists the plug-ins of all kinds with their options.
func arrays(s *gosudachi.SettingsJSON) (out [4][]string, err error) {
	item := func(n string, o map[string]interface{}) string {
		b, _ := json.Marshal(o)
		return n + " " + string(b)
	}
	in, err := s.GetInputTextPluginArray(func(n string) gosudachi.InputTextPlugin { return &fakeInput{name: n} })
	if err != nil {
		return out, err
	}
	for _, p := range in {
		out[0] = append(out[0], item(p.(*fakeInput).name, p.(*fakeInput).opts))
	}
	oov, err := s.GetOovProviderPluginArray(func(n string) gosudachi.OovProviderPlugin { return &fake{name: n} })
	if err != nil {
		return out, err
	}
	for _, p := range oov {
		out[1] = append(out[1], item(p.(*fake).name, p.(*fake).opts))
	}
	path, err := s.GetPathRewritePluginArray(func(n string) gosudachi.PathRewritePlugin { return &fake{name: n} })
	if err != nil {
		return out, err
	}
	for _, p := range path {
		out[2] = append(out[2], item(p.(*fake).name, p.(*fake).opts))
	}
	edit, err := s.GetEditConnectionCostPluginArray(func(n string) gosudachi.EditConnectionCostPlugin { return &fake{name: n} })
	if err != nil {
		return out, err
	}
	for _, p := range edit {
		out[3] = append(out[3], item(p.(*fake).name, p.(*fake).opts))
	}
	return out, nil
}

var kinds = []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

// model of the settings after some documents.
type model struct {
	base      string
	sys, char string
	utf16     bool
	user      []string
	plugins   [4][]string
}

func (m *model) resolve(p string) string {
	if p == "" || filepath.IsAbs(p) || m.base == "" {
		return p
	}
	return m.base + "/" + p
}

func same(a, b string) bool {
	if a == "" || b == "" {
		return a == b
	}
	return filepath.Clean(a) == filepath.Clean(b)
}

func (m *model) compare(s *gosudachi.SettingsJSON) string {
	c := s.GetBaseConfig()
	if !same(c.SystemDict, m.sys) {
		return fmt.Sprintf("system dictionary %q, want %q", c.SystemDict, m.sys)
	}
	if !same(c.CharacterDefinitionFile, m.char) {
		return fmt.Sprintf("character definition %q, want %q", c.CharacterDefinitionFile, m.char)
	}
	if c.Utf16String != m.utf16 {
		return fmt.Sprintf("utf16String %v, want %v", c.Utf16String, m.utf16)
	}
	if len(c.UserDict) != len(m.user) {
		return fmt.Sprintf("user dictionaries %q, want %q", c.UserDict, m.user)
	}
	for i := range m.user {
		if !same(c.UserDict[i], m.user[i]) {
			return fmt.Sprintf("user dictionaries %q, want %q", c.UserDict, m.user)
		}
	}
	a, err := arrays(s)
	if err != nil {
		return fmt.Sprintf("plug-ins: %v", err)
	}
	for k := range kinds {
		if strings.Join(a[k], "\n") != strings.Join(m.plugins[k], "\n") {
			return fmt.Sprintf("%s: %q, want %q", kinds[k], a[k], m.plugins[k])
		}
	}
	return ""
}

// doc is a settings document as text and as its effect on the model.
type doc struct {
	fields []string
	apply  []func(m *model)
	path   *string
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func (d *doc) add(src string, f func(m *model)) {
	d.fields = append(d.fields, src)
	d.apply = append(d.apply, f)
}

func (d *doc) text() string { return "{" + strings.Join(d.fields, ",\n") + "}" }

func (d *doc) run(m *model, def string) {
	if d.path != nil {
		m.base = *d.path
	} else if m.base == "" {
		m.base = def
	}
	for _, f := range d.apply {
		f(m)
	}
}

// entry of a plug-in list.
func entry(key, name string, opts map[string]interface{}) (src, item string) {
	m := map[string]interface{}{key: name}
	for k, v := range opts {
		m[k] = v
	}
	b, _ := json.Marshal(m)
	return string(b), name + " " + string(b)
}

func families(tier engine.Tier, scratch string) []*engine.Family {
	thorough := tier == engine.Thorough
	var fs []*engine.Family

	parse := func(t *engine.T, s *gosudachi.SettingsJSON, def, text string) bool {
		t.Trace(1)
		if err := s.ParseSettingsJSON(def, strings.NewReader(text)); err != nil {
			t.Fail("rejected", "settings %s: %v", text, err)
			return false
		}
		return true
	}

	// 1. paths
	{
		paths := []string{"-", "", "/res", "res/sub", "/res/../x/"}
		vals := []string{"-", "", "a.dic", "/abs/a.dic", "d/./a.dic", "../a.dic"}
		defs := []string{"", "/def", "def"}
		users := [][]string{nil, {}, {"u.dic"}, {"/abs/u.dic", "d/u.dic", ""}}
		mix := engine.NewMix(len(defs), len(paths), len(vals), len(vals), len(users), len(paths), len(vals), len(users))
		fs = append(fs, &engine.Family{
			Name:   "paths",
			Bounds: fmt.Sprintf("every pair of documents with a path from %q, dictionary and definition paths from %q (- is absent) and user dictionary lists, for base directories %q", paths, vals, defs),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				mk := func(p, s, c string, u []string) *doc {
					x := &doc{}
					if p != "-" {
						x.fields = append(x.fields, `"path": `+q(p))
						x.path = &p
					}
					if s != "-" {
						x.add(`"systemDict": `+q(s), func(m *model) { m.sys = m.resolve(s) })
					}
					if c != "-" {
						x.add(`"characterDefinitionFile": `+q(c), func(m *model) { m.char = m.resolve(c) })
					}
					if u != nil {
						b, _ := json.Marshal(u)
						x.add(`"userDict": `+string(b), func(m *model) {
							m.user = nil
							for _, p := range u {
								m.user = append(m.user, m.resolve(p))
							}
						})
					}
					return x
				}
				a := mk(paths[d[1]], vals[d[2]], vals[d[3]], users[d[4]])
				b := mk(paths[d[5]], vals[d[6]], "-", users[d[7]])
				t.Input("base %q: %s, then %s", defs[d[0]], a.text(), b.text())
				s := gosudachi.NewSettingsJSON()
				m := &model{}
				for _, x := range []*doc{a, b} {
					if !parse(t, s, defs[d[0]], x.text()) {
						return
					}
					x.run(m, defs[d[0]])
					t.State(d[0], x.text(), m.base)
					t.Transition(1)
					if why := m.compare(s); why != "" {
						t.Fail("paths", "base %q, after %s: %s", defs[d[0]], x.text(), why)
						return
					}
				}
				t.Outcome("resolved")
			},
		})
	}

	// 2. overriding field by field
	{
		n := 2
		if thorough {
			n = 3
		}
		const nf = 9
		mk := func(mask, k int) *doc {
			x := &doc{}
			if mask&1 != 0 {
				p := fmt.Sprintf("/base%d", k)
				x.path = &p
				x.fields = append(x.fields, `"path":`+q(p))
			}
			name := fmt.Sprintf("f%d", k)
			if mask&2 != 0 {
				x.add(`"systemDict":`+q(name), func(m *model) { m.sys = m.resolve(name) })
			}
			if mask&4 != 0 {
				x.add(`"characterDefinitionFile":`+q(name), func(m *model) { m.char = m.resolve(name) })
			}
			if mask&8 != 0 {
				x.add(`"userDict":[`+q(name)+`,"/z"]`, func(m *model) { m.user = []string{m.resolve(name), "/z"} })
			}
			if mask&16 != 0 {
				v := k%2 == 0
				x.add(fmt.Sprintf(`"utf16String":%v`, v), func(m *model) { m.utf16 = v })
			}
			for j := range kinds {
				j := j
				if mask>>(5+j)&1 == 0 {
					continue
				}
				s1, i1 := entry("name", fmt.Sprintf("p%d", k), map[string]interface{}{"o": k})
				s2, i2 := entry("class", "com."+name, map[string]interface{}{"x": []int{k}})
				if k == 1 {
					x.add(`"`+kinds[j]+`":[`+s1+`,`+s2+`]`, func(m *model) { m.plugins[j] = []string{i1, i2} })
				} else if k == 2 {
					x.add(`"`+kinds[j]+`":[]`, func(m *model) { m.plugins[j] = nil })
				} else {
					x.add(`"`+kinds[j]+`":[`+s2+`]`, func(m *model) { m.plugins[j] = []string{i2} })
				}
			}
			return x
		}
		size := int64(1)
		for k := 0; k < n; k++ {
			size *= 1 << nf
		}
		step := int64(64)
		fs = append(fs, &engine.Family{
			Name:   "override",
			Bounds: fmt.Sprintf("every sequence of %d documents, each with any subset of the nine fields", n),
			Size:   size / step,
			Run: func(i int64, t *engine.T) {
				for z := i * step; z < (i+1)*step; z++ {
					s := gosudachi.NewSettingsJSON()
					m := &model{}
					r := z
					in := ""
					for k := 0; k < n; k++ {
						x := mk(int(r%(1<<nf)), k)
						r /= 1 << nf
						in += x.text() + "\n"
						t.Input("%s", in)
						if !parse(t, s, "/def", x.text()) {
							return
						}
						x.run(m, "/def")
						t.Transition(1)
					}
					t.State(z)
					if why := m.compare(s); why != "" {
						t.Fail("override", "after %s: %s", in, why)
						return
					}
				}
				t.Outcome("overridden")
			},
		})
	}

	// 2a. long lists, long values, many documents
	{
		ns := []int{4, 5, 7, 8, 9, 10, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}
		fs = append(fs, &engine.Family{
			Name:   "long",
			Bounds: fmt.Sprintf("lists of %v user dictionaries, plug-ins of each kind, options of a plug-in; paths of 7 times as many bytes; as many documents one after the other (up to 129) that set the lists in turn", ns),
			Size:   int64(len(ns) * 12), Chunk: 1,
			Run: func(i int64, t *engine.T) {
				n, what := ns[i/12], int(i%12)
				s := gosudachi.NewSettingsJSON()
				m := &model{}
				list := func(x *doc, k, n int) {
					var src, items []string
					for j := 0; j < n; j++ {
						opts := map[string]interface{}{"cost": float64(j)}
						if what >= 8 {
							for z := 0; z < n && j == 0; z++ {
								opts[fmt.Sprintf("o%d", z)] = fmt.Sprint(z, strings.Repeat("x", z%7))
							}
						}
						a, b := entry([]string{"class", "name"}[j%2], fmt.Sprintf("P%d-%d", k, j), opts)
						src, items = append(src, a), append(items, b)
					}
					x.add(q(kinds[k])+": ["+strings.Join(src, ",\n ")+"]", func(m *model) { m.plugins[k] = items })
				}
				users := func(x *doc, n int) {
					var u, src []string
					for j := 0; j < n; j++ {
						u = append(u, fmt.Sprintf([]string{"u%d.dic", "/abs/u%d.dic", "d/u%d.dic"}[j%3], j))
						src = append(src, q(u[j]))
					}
					x.add(`"userDict": [`+strings.Join(src, ", ")+"]", func(m *model) {
						m.user = nil
						for _, p := range u {
							m.user = append(m.user, m.resolve(p))
						}
					})
				}
				x := &doc{}
				switch {
				case what < 4:
					list(x, what, n)
				case what == 4:
					users(x, n)
				case what == 5:
					base := "/b" + strings.Repeat("/elong", n)
					x.fields = append(x.fields, `"path": `+q(base))
					x.path = &base
					sd, cd := strings.Repeat("sub/dir", n)+".dic", "/"+strings.Repeat("辞書/ab", n)
					x.add(`"systemDict": `+q(sd), func(m *model) { m.sys = m.resolve(sd) })
					x.add(`"characterDefinitionFile": `+q(cd), func(m *model) { m.char = m.resolve(cd) })
					users(x, 3)
				case what == 6:
					for k := range kinds {
						list(x, k, n)
					}
					users(x, n)
				case what == 7:
					if n > 129 {
						return
					}
					for k := 0; k < n; k++ {
						y := &doc{}
						if k%6 < 4 {
							list(y, k%6, 1+k%5)
						} else {
							users(y, 1+k%7)
						}
						if k%9 == 4 {
							p := fmt.Sprintf("/p%d", k)
							y.fields = append(y.fields, `"path": `+q(p))
							y.path = &p
						}
						if !parse(t, s, "/def", y.text()) {
							return
						}
						y.run(m, "/def")
						if why := m.compare(s); why != "" {
							t.Fail("long", "document %d: %s", k, why)
							return
						}
					}
				default:
					list(x, what-8, 3)
				}
				t.Input("%d, kind %d", n, what)
				t.State(i)
				t.Transition(1)
				if !parse(t, s, "/def", x.text()) {
					return
				}
				x.run(m, "/def")
				if why := m.compare(s); why != "" {
					t.Fail("long", "%d, kind %d: %.1000s", n, what, why)
				}
			},
		})
	}

	// 3. plug-in lists with the real plug-ins
	{
		type pl struct {
			kind int
			name string
			typ  string
			opts []string // sets of options
		}
		pls := []pl{
			{0, "DefaultInputTextPlugin", "*gosudachi.DefaultInputTextPlugin", []string{"", `"rewriteDef":"/r.def"`}},
			{0, "ProlongedSoundMarkInputTextPlugin", "*gosudachi.ProlongedSoundMarkInputTextPlugin", []string{"", `"prolongedSoundMarks":["a","b"]`, `"replacementSymbol":"x"`, `"prolongedSoundMarks":["c"],"replacementSymbol":"y"`}},
			{1, "MeCabOovProviderPlugin", "*gosudachi.MeCabOovProviderPlugin", []string{"", `"charDef":"/c.def"`, `"unkDef":"/u.def"`, `"charDef":"/c2.def","unkDef":"/u2.def"`}},
			{1, "SimpleOovProviderPlugin", "*gosudachi.SimpleOovProviderPlugin", []string{"", `"oovPOS":["a"],"leftId":1,"rightId":2,"cost":3`, `"leftId":-1`, `"cost":7,"oovPOS":["b","c"]`, `"rightId":32767`}},
			{2, "JoinNumericPlugin", "*gosudachi.JoinNumericPlugin", []string{"", `"enableNormalize":false`, `"enableNormalize":true`}},
			{2, "JoinKatakanaOovPlugin", "*gosudachi.JoinKatakanaOovPlugin", []string{"", `"oovPOS":["a","b"]`, `"minLength":3`, `"oovPOS":["c"],"minLength":0`}},
			{3, "InhibitConnectionPlugin", "*gosudachi.InhibitConnectionPlugin", []string{"", `"inhibitedPair":[[1,2]]`, `"inhibitedPair":[[3,4],[5,6]]`}},
		}
		type item struct {
			src, want string
			bad       bool
		}
		var menu [4][]item
		norm := func(opts string) string {
			var m map[string]interface{}
			if err := json.Unmarshal([]byte("{"+opts+"}"), &m); err != nil {
				panic(err)
			}
			out := map[string]interface{}{}
			for k, v := range m {
				out[strings.ToLower(k)] = v
			}
			b, _ := json.Marshal(out)
			return string(b)
		}
		for _, p := range pls {
			for oi, o := range p.opts {
				forms := []string{`"name":` + q(p.name), `"class":` + q(p.name), `"name":` + q("com.worksap.nlp.sudachi."+p.name), `"class":` + q("com.worksap.nlp.sudachi."+p.name)}
				if oi > 0 {
					forms = forms[oi%4:][:1]
				}
				for _, f := range forms {
					s := "{" + f + "}"
					if o != "" {
						s = "{" + f + "," + o + "}"
					}
					menu[p.kind] = append(menu[p.kind], item{s, p.typ + " " + norm(o), false})
				}
			}
		}
		for k := range menu {
			for _, s := range []string{`{}`, `{"name":"Unknown"}`, `{"class":"com.worksap.nlp.sudachi.Unknown"}`, `{"name":""}`, `{"name":7}`, `"x"`, `[]`, `null`, `3`,
				`{"name":` + q(pls[(2*k+5)%7].name) + `}`} {
				if strings.Contains(s, "Plugin") && pls[(2*k+5)%7].kind == k {
					continue
				}
				menu[k] = append(menu[k], item{s, "", true})
			}
		}
		options := func(p gosudachi.Plugin) string {
			v := reflect.ValueOf(p.GetConfigStruct()).Elem()
			out := map[string]interface{}{}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.IsZero() {
					continue
				}
				n := strings.ToLower(v.Type().Field(i).Name)
				b, _ := json.Marshal(f.Interface())
				var x interface{}
				_ = json.Unmarshal(b, &x)
				out[n] = x
			}
			b, _ := json.Marshal(out)
			return fmt.Sprintf("%T ", p) + string(b)
		}
		get := func(s *gosudachi.SettingsJSON, k int) (out []string, err error) {
			switch k {
			case 0:
				ps, err := s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin)
				if err != nil {
					return nil, err
				}
				for _, p := range ps {
					out = append(out, options(p))
				}
			case 1:
				ps, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
				if err != nil {
					return nil, err
				}
				for _, p := range ps {
					out = append(out, options(p))
				}
			case 2:
				ps, err := s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin)
				if err != nil {
					return nil, err
				}
				for _, p := range ps {
					out = append(out, options(p))
				}
			case 3:
				ps, err := s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
				if err != nil {
					return nil, err
				}
				for _, p := range ps {
					out = append(out, options(p))
				}
			}
			return out, nil
		}
		n := 3
		if thorough {
			n = 4
		}
		for k := range kinds {
			k := k
			sp := engine.NewStrings(len(menu[k]), n)
			step := int64(16)
			fs = append(fs, &engine.Family{
				Name:   "plugins-" + kinds[k],
				Bounds: fmt.Sprintf("every list of 0..%d entries over %d (all plug-ins of the kind, short and long names under either key, every option set; unknown, missing and ill-typed names, plug-ins of other kinds)", n, len(menu[k])),
				Size:   (sp.Size() + step - 1) / step,
				Run: func(i int64, t *engine.T) {
					for z := i * step; z < (i+1)*step && z < sp.Size(); z++ {
						var src, want []string
						bad := false
						for _, x := range sp.Get(z) {
							e := menu[k][x]
							src = append(src, e.src)
							want = append(want, e.want)
							bad = bad || e.bad
						}
						text := `{"` + kinds[k] + `":[` + strings.Join(src, ",") + `]}`
						t.Input("%s", text)
						t.State(text)
						t.Trace(1)
						s := gosudachi.NewSettingsJSON()
						err := s.ParseSettingsJSON("", strings.NewReader(text))
						var got []string
						if err == nil {
							got, err = get(s, k)
						}
						if bad {
							if err == nil {
								t.Fail("plugin-accepted", "%s is accepted: %q", text, got)
								return
							}
							t.Outcome("list rejected")
							continue
						}
						if err != nil {
							t.Fail("plugin-rejected", "%s: %v", text, err)
							return
						}
						if strings.Join(got, "\n") != strings.Join(want, "\n") {
							t.Fail("plugins", "%s gives %q, want %q", text, got, want)
							return
						}
						// asking again gives the same plug-ins again
						if again, err := get(s, k); err != nil || strings.Join(again, "\n") != strings.Join(want, "\n") {
							t.Fail("plugins-again", "%s gives %q (%v) the second time, want %q", text, again, err, want)
							return
						}
						t.Outcome("list accepted")
					}
				},
			})
		}
	}

	// 4. malformed documents
	{
		valid := `{"path":"/r","systemDict":"s.dic","characterDefinitionFile":"c.def","userDict":["u.dic","v.dic"],"utf16String":true,"inputTextPlugin":[{"name":"a","x":[1,2]}],"oovProviderPlugin":[{"class":"b"}]}`
		edits := []string{"", "{", "}", "[", "]", ",", ":", `"`, "0", "t", "\\", " x"}
		mix := engine.NewMix(len(valid)+1, len(edits), 2)
		fs = append(fs, &engine.Family{
			Name:   "malformed",
			Bounds: fmt.Sprintf("a document of %d bytes with every prefix of it, every byte deleted or replaced by, and every position preceded by, each of %q", len(valid), edits),
			Size:   mix.Size(),
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				var texts []string
				if d[2] == 0 {
					texts = append(texts, valid[:d[0]]+edits[d[1]]+valid[d[0]:])
				} else if d[0] < len(valid) {
					texts = append(texts, valid[:d[0]]+edits[d[1]]+valid[d[0]+1:])
				}
				if d[1] == 0 {
					texts = append(texts, valid[:d[0]])
				}
				for _, text := range texts {
					t.Input("%s", text)
					t.State(text)
					t.Trace(1)
					s := gosudachi.NewSettingsJSON()
					err := s.ParseSettingsJSON("", strings.NewReader(text))
					if !json.Valid([]byte(text)) {
						if err == nil {
							t.Fail("malformed", "malformed settings are accepted: %s", text)
							return
						}
						t.Outcome("malformed rejected")
					} else {
						if err == nil {
							_, _ = arrays(s)
						}
						t.Outcome("valid JSON")
					}
				}
			},
		})
	}
	{
		fields := []string{"path", "systemDict", "characterDefinitionFile", "utf16String", "userDict", kinds[0], kinds[1], kinds[2], kinds[3]}
		vals := []string{`"s"`, `1`, `true`, `null`, `[]`, `["a"]`, `[1]`, `{}`, `[{"name":"a"}]`, `"s`, ``}
		ok := func(f int, v string) bool {
			switch {
			case v == "null":
				return true
			case v == `"s` || v == "":
				return false
			case f < 3:
				return v == `"s"`
			case f == 3:
				return v == "true"
			case f == 4:
				return v == "[]" || v == `["a"]`
			}
			return v[0] == '['
		}
		docs := []string{"", "null", "[]", "[{}]", "1", `"x"`, "{} {}", "{}x", "{},", "x{}", "{\"a\":1}\n", " {} \n\t", "{}\x00", "// c\n{}"}
		mix := engine.NewMix(len(fields), len(vals), len(fields), len(vals))
		fs = append(fs, &engine.Family{
			Name:   "types",
			Bounds: fmt.Sprintf("every pair of fields with every pair of values from %d of all types; %d whole documents", len(vals), len(docs)),
			Size:   mix.Size() + int64(len(docs)),
			Run: func(i int64, t *engine.T) {
				t.Trace(1)
				s := gosudachi.NewSettingsJSON()
				if i >= mix.Size() {
					x := docs[i-mix.Size()]
					t.Input("%q", x)
					t.State(x)
					err := s.ParseSettingsJSON("", strings.NewReader(x))
					if !json.Valid([]byte(x)) && err == nil {
						t.Fail("malformed", "malformed settings are accepted: %q", x)
					}
					if json.Valid([]byte(x)) && strings.TrimSpace(x)[0] == '{' && err != nil {
						t.Fail("rejected", "settings %q: %v", x, err)
					}
					t.Outcome("document")
					return
				}
				d := mix.Get(i)
				if d[0] == d[2] {
					return
				}
				text := fmt.Sprintf("{%q: %s, %q: %s}", fields[d[0]], vals[d[1]], fields[d[2]], vals[d[3]])
				t.Input("%s", text)
				t.State(text)
				good := ok(d[0], vals[d[1]]) && ok(d[2], vals[d[3]])
				err := s.ParseSettingsJSON("", strings.NewReader(text))
				if good && err != nil {
					t.Fail("rejected", "settings %s: %v", text, err)
				}
				if !good && err == nil {
					t.Fail("ill-typed", "settings with an ill-typed value are accepted: %s", text)
				}
				t.Outcome(fmt.Sprint("accepted: ", good))
			},
		})
	}

	fs = append(fs, optionFamilies(tier, scratch)...)
	return fs
}

// res makes a directory with all resources once.
var res = func() func(scratch string) string {
	var once sync.Once
	var dir string
	return func(scratch string) string {
		once.Do(func() {
			dir = filepath.Join(scratch, "res")
			os.MkdirAll(filepath.Join(dir, "sub"), 0755)
			sys, user := world.Dics(scratch, false)
			sys16, user16 := world.Dics(scratch, true)
			cp := func(from, to string) {
				b, err := os.ReadFile(from)
				if err != nil {
					panic(err)
				}
				put(dir, to, b)
			}
			cp(sys, "sys.dic")
			cp(user, "user.dic")
			cp(sys16, "sys16.dic")
			cp(user16, "user16.dic")
			cp(user, "sub/user.dic")
			put(dir, "char.def", []byte(world.CharDef))
			put(dir, "sub/char.def", []byte(strings.ReplaceAll(world.CharDef, "0x3041..0x309F HIRAGANA", "0x3041..0x309F ALPHA")))
			put(dir, "unk.def", []byte(world.UnkDef))
			put(dir, "sub/unk.def", []byte(strings.ReplaceAll(world.UnkDef, "ALPHA,0,0,1500", "ALPHA,1,2,777")))
			put(dir, "rewrite.def", []byte(world.RewriteDef))
			put(dir, "sub/rewrite.def", []byte("zz あい\n"))
			put(dir, "bad-char.def", []byte("DEFAULT 0 1\n"))
			put(dir, "bad-range.def", []byte("0xZZ KANJI\n"))
			put(dir, "bad-unk.def", []byte("ALPHA,0,0\n"))
			put(dir, "far-unk.def", []byte("ALPHA,0,9,100,"+world.N+"\n"))
			put(dir, "bad-rewrite.def", []byte("a b c\n"))
			put(dir, "bad.dic", []byte("nonsense"))
		})
		return dir
	}
}()

// opened is what a set of settings leads to.
type opened struct {
	d     *gosudachi.JapaneseDictionary
	probe *tk.Probe
	in    *tk.Probe
	err   error
}

// start opens a dictionary the way the command does.
func start(def string, texts ...string) opened {
	s := gosudachi.NewSettingsJSON()
	for _, x := range texts {
		if err := s.ParseSettingsJSON(def, strings.NewReader(x)); err != nil {
			return opened{err: err}
		}
	}
	in, err := s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin)
	if err != nil {
		return opened{err: err}
	}
	oov, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
	if err != nil {
		return opened{err: err}
	}
	path, err := s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin)
	if err != nil {
		return opened{err: err}
	}
	edit, err := s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
	if err != nil {
		return opened{err: err}
	}
	o := opened{probe: &tk.Probe{Lattice: true}, in: &tk.Probe{Lattice: true}}
	path = append([]gosudachi.PathRewritePlugin{o.in}, append(path, o.probe)...)
	o.d, o.err = gosudachi.NewJapaneseDictionary(s.GetBaseConfig(), in, oov, path, edit)
	return o
}

// setting of one option: the JSON, whether start-up must fail, and what must be seen.
type setting struct {
	src  string
	bad  bool
	sees func(o opened) string
}

func tokenize(o opened, text string) ([]gs.Morph, error) {
	ms, err := o.d.Create().Tokenize("C", text)
	if err != nil {
		return nil, err
	}
	return gs.Morphs(ms), nil
}

func norms(ms []gs.Morph) string {
	var p []string
	for _, m := range ms {
		p = append(p, m.Surface+"="+m.Norm)
	}
	return strings.Join(p, " ")
}

// expect says what a text must be tokenized to.
func expect(text, want string) func(o opened) string {
	return func(o opened) string {
		ms, err := tokenize(o, text)
		if err != nil {
			return fmt.Sprintf("text %q: %v", text, err)
		}
		if g := norms(ms); g != want {
			return fmt.Sprintf("text %q is tokenized to %q, want %q", text, g, want)
		}
		return ""
	}
}

func input(text, want string) func(o opened) string {
	return func(o opened) string {
		if _, err := tokenize(o, text); err != nil {
			return fmt.Sprintf("text %q: %v", text, err)
		}
		if g := string(o.probe.Input.GetByteText()); g != want {
			return fmt.Sprintf("text %q is normalised to %q, want %q", text, g, want)
		}
		return ""
	}
}

// unknown asks for a candidate among the unknown words of a text.
func unknown(text string, b, e int, pos string, l, r, c int, present bool) func(o opened) string {
	return func(o opened) string {
		if _, err := tokenize(o, text); err != nil {
			return fmt.Sprintf("text %q: %v", text, err)
		}
		var seen []string
		for _, n := range o.in.Nodes {
			x := n.Cand(o.d)
			if x.OOV && x.B == b && x.E == e && x.POS == pos && x.Left == l && x.Right == r && x.Cost == c {
				if !present {
					return fmt.Sprintf("text %q has the candidate %v", text, x)
				}
				return ""
			}
			seen = append(seen, x.String())
		}
		if present {
			return fmt.Sprintf("text %q has no unknown word [%d,%d) %s %d %d %d, only %s", text, b, e, pos, l, r, c, strings.Join(seen, "; "))
		}
		return ""
	}
}

func optionFamilies(tier engine.Tier, scratch string) []*engine.Family {
	pos := func(p string) string { b, _ := json.Marshal(strings.Split(p, ",")); return string(b) }
	simple := func(p, l, r, c string) string {
		var f []string
		for _, x := range [][2]string{{"oovPOS", p}, {"leftId", l}, {"rightId", r}, {"cost", c}} {
			if x[1] != "-" {
				f = append(f, fmt.Sprintf(",%q:%s", x[0], x[1]))
			}
		}
		return `{"name":"SimpleOovProviderPlugin"` + strings.Join(f, "") + `}`
	}
	plain := simple(pos(world.SYM), "0", "0", "6000")
	unk := world.SYM

	// each dimension has settings that work and settings that do not
	dims := []struct {
		name string
		opts []setting
	}{
		{"systemDict", []setting{
			{`"systemDict":"sys.dic"`, false, expect("あい", "あい=愛")},
			{`"systemDict":"sub/none.dic"`, true, nil},
			{`"systemDict":"bad.dic"`, true, nil},
			{`"systemDict":"user.dic"`, true, nil},
			{``, true, nil},
		}},
		{"utf16String", []setting{
			{`"utf16String":false`, false, nil},
			{`"utf16String":true,"systemDict":"sys16.dic","userDict":["user16.dic"]`, false, expect("あい都い", "あい=愛 都い=都い")},
		}},
		{"characterDefinitionFile", []setting{
			{`"characterDefinitionFile":"char.def"`, false, expect("ああ", "あ=あ あ=あ")},
			{`"characterDefinitionFile":"sub/char.def"`, false, func(o opened) string {
				// hiragana as letters: no word begins in the middle of them
				if _, err := tokenize(o, "ああ"); err == nil {
					return "the character definition has no effect"
				}
				return ""
			}},
			{`"characterDefinitionFile":"none.def"`, true, nil},
			{`"characterDefinitionFile":"bad-range.def"`, true, nil},
			{``, false, expect("あい", "あい=愛")},
		}},
		{"userDict", []setting{
			{`"userDict":["user.dic"]`, false, expect("都い", "都い=都い")},
			{`"userDict":["sub/user.dic","user.dic"]`, false, expect("都い", "都い=都い")},
			{`"userDict":[]`, false, expect("都い", "都=都 い=い")},
			{``, false, expect("都い", "都=都 い=い")},
			{`"userDict":["none.dic"]`, true, nil},
			{`"userDict":["user.dic","bad.dic"]`, true, nil},
			{`"userDict":["sys.dic"]`, true, nil},
		}},
		{"inputTextPlugin", []setting{
			{``, false, input("ＡーーＢ〜〜", "ＡーーＢ〜〜")},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin"}]`, false, input("Ａーー〜〜ｶﾞ", "aーー〜〜ガ")},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin","rewriteDef":"rewrite.def"}]`, false, input("Ａｱｱﾞ", "aイ")},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin","rewriteDef":"sub/rewrite.def"}]`, false, input("Ａzzｱ", "aあいア")},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin","rewriteDef":"none.def"}]`, true, nil},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin","rewriteDef":"bad-rewrite.def"}]`, true, nil},
			{`"inputTextPlugin":[{"name":"DefaultInputTextPlugin","rewriteDef":3}]`, true, nil},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["ー","〜"],"replacementSymbol":"ー"}]`, false, input("Ａーー〜〜~", "Ａー~")},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["~"],"replacementSymbol":"〜"}]`, false, input("Ａーー〜〜~~~", "Ａーー〜〜〜")},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","replacementSymbol":"〜"}]`, true, nil},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":[],"replacementSymbol":"〜"}]`, true, nil},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["~"]}]`, true, nil},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":"~","replacementSymbol":"x"}]`, true, nil},
			{`"inputTextPlugin":[{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["~"],"replacementSymbol":"Ａ"},{"class":"com.worksap.nlp.sudachi.DefaultInputTextPlugin"}]`, false, input("~~", "a")},
			{`"inputTextPlugin":[{"class":"com.worksap.nlp.sudachi.DefaultInputTextPlugin"},{"name":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["~"],"replacementSymbol":"Ａ"}]`, false, input("~~", "Ａ")},
		}},
		{"oovProviderPlugin", []setting{
			{`"oovProviderPlugin":[` + plain + `]`, false, unknown("え", 0, 3, unk, 0, 0, 6000, true)},
			{``, true, nil},
			{`"oovProviderPlugin":[]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.V), "2", "1", "-32768") + `]`, false, unknown("え", 0, 3, world.V, 2, 1, -32768, true)},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "2", "32767") + `]`, false, unknown("え", 0, 3, world.N, 0, 2, 32767, true)},
			{`"oovProviderPlugin":[` + simple("-", "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "-", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "-", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "0", "-") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple("[]", "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos("無,い,*,*,*,*"), "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos("名詞,普通名詞,一般,*,*"), "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos("名詞"), "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N+",*"), "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "3", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "3", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "-1", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "-1", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "32768", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "0", "32768") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "0", "1.5") + `]`, true, nil},
			{`"oovProviderPlugin":[` + simple(`"名詞"`, "0", "0", "0") + `]`, true, nil},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"char.def","unkDef":"unk.def"},` + plain + `]`, false, unknown("xyz", 0, 3, world.N, 0, 0, 1500, true)},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"char.def","unkDef":"sub/unk.def"},` + plain + `]`, false, unknown("xyz", 0, 3, world.N, 1, 2, 777, true)},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"sub/none.def","unkDef":"unk.def"},` + plain + `]`, true, nil},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"char.def","unkDef":"none.def"},` + plain + `]`, true, nil},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"bad-char.def","unkDef":"unk.def"},` + plain + `]`, true, nil},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"char.def","unkDef":"bad-unk.def"},` + plain + `]`, true, nil},
			{`"oovProviderPlugin":[{"name":"MeCabOovProviderPlugin","charDef":"char.def","unkDef":"far-unk.def"},` + plain + `]`, true, nil},
			{`"oovProviderPlugin":[` + plain + `,` + simple(pos(world.N), "0", "0", "1") + `]`, false, unknown("え", 0, 3, unk, 0, 0, 6000, true)},
			{`"oovProviderPlugin":[` + simple(pos(world.N), "0", "0", "1") + `,` + plain + `]`, false, unknown("え", 0, 3, world.N, 0, 0, 1, true)},
		}},
		{"pathRewritePlugin", []setting{
			{``, false, expect("1.2アアア", "")},
			{`"pathRewritePlugin":[]`, false, expect("一1", "一=一 1=1")},
			{`"pathRewritePlugin":[{"name":"JoinNumericPlugin"}]`, false, expect("一1", "一1=11")},
			{`"pathRewritePlugin":[{"name":"JoinNumericPlugin","enableNormalize":true}]`, false, expect("一1", "一1=11")},
			{`"pathRewritePlugin":[{"name":"JoinNumericPlugin","enableNormalize":false}]`, false, expect("一1", "一1=一1")},
			{`"pathRewritePlugin":[{"name":"JoinNumericPlugin","enableNormalize":"false"}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":` + pos(world.V) + `,"minLength":1}]`, false, expect("カカ", "カ=カ カ=カ")},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":` + pos(world.V) + `}]`, false, expect("カカ", "カ=カ カ=カ")},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":` + pos(world.V) + `,"minLength":2}]`, false, func(o opened) string {
				ms, err := tokenize(o, "カカ")
				if err != nil {
					return err.Error()
				}
				if len(ms) != 1 || ms[0].POS != world.V {
					// a candidate of the lattice for the same range keeps its part of speech
					if len(ms) == 1 {
						for _, n := range o.in.Nodes {
							if n.Begin == 0 && n.End == 6 {
								return ""
							}
						}
					}
					return "カカ is not joined: " + gs.Show(ms)
				}
				return ""
			}},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":` + pos(world.V) + `,"minLength":-1}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","minLength":1}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":[]}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":["名詞","数詞"]}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"JoinKatakanaOovPlugin","oovPOS":` + pos("無,い,*,*,*,*") + `}]`, true, nil},
			{`"pathRewritePlugin":[{"name":"Unknown"}]`, true, nil},
		}},
		{"editConnectionCostPlugin", []setting{
			{``, false, nil},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[[2,2]]}]`, false, func(o opened) string {
				_, err := tokenize(o, "12あい")
				if err != nil {
					return ""
				}
				for i := 1; i < len(o.in.Path); i++ {
					if o.in.Path[i-1].Right == 2 && o.in.Path[i].Left == 2 {
						return "an inhibited connection is used"
					}
				}
				return ""
			}},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[]}]`, false, expect("カ都", "カ=カ 都=都")},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[[1,3]]}]`, true, nil},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[[-1,0]]}]`, true, nil},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[[1]]}]`, true, nil},
			{`"editConnectionCostPlugin":[{"name":"InhibitConnectionPlugin","inhibitedPair":[["a","b"]]}]`, true, nil},
		}},
	}
	// the effect on joining without plug-ins is that there is none
	dims[6].opts[0].sees = expect("一1", "一=一 1=1")

	// all settings of two dimensions at a time, the others as by default (the first setting)
	type combo = combo2
	var cs []combo
	for a := range dims {
		for b := a + 1; b < len(dims); b++ {
			for x := range dims[a].opts {
				for y := range dims[b].opts {
					cs = append(cs, combo{a, b, x, y})
				}
			}
		}
	}
	build := func(c combo) (docs []string, bad bool, all []setting) {
		doc := []string{}
		for k, d := range dims {
			o := d.opts[0]
			if k == c.a {
				o = d.opts[c.x]
			} else if k == c.b {
				o = d.opts[c.y]
			}
			if k == 3 && (c.a == 1 && c.x == 1 || c.b == 1 && c.y == 1) {
				o.src = "" // given with the encoding
			}
			if o.src != "" {
				if strings.HasPrefix(o.src, `"utf16String":true`) { // also gives the dictionaries
					for i := range doc {
						if strings.HasPrefix(doc[i], `"systemDict"`) {
							doc[i] = `"z":0`
						}
					}
				}
				doc = append(doc, o.src)
			}
			bad = bad || o.bad
			all = append(all, o)
		}
		return doc, bad, all
	}
	skip := func(c combo) bool {
		utf := c.a == 1 && c.x == 1 || c.b == 1 && c.y == 1
		if !utf {
			return false
		}
		// the UTF-16 dictionaries replace those of the two other dimensions
		return c.a == 0 || c.b == 3
	}
	var fs []*engine.Family
	fs = append(fs, &engine.Family{
		Name:   "options",
		Bounds: fmt.Sprintf("all %d pairs of settings of two of %d dimensions (dictionaries, encodings, definitions, every option of every plug-in with valid, missing, ill-typed and out-of-range values), with relative paths under the base directory, under a configured path, and in two documents", len(cs), len(dims)),
		Size:   int64(len(cs)) * 3,
		Run: func(i int64, t *engine.T) {
			c := cs[i/3]
			if skip(c) {
				return
			}
			doc, bad, all := build(c)
			dir := res(scratch)
			def := dir
			var texts []string
			switch i % 3 {
			case 0:
				texts = []string{"{" + strings.Join(doc, ",") + "}"}
			case 1:
				def = "/nowhere"
				texts = []string{`{"path":` + q(dir) + `,` + strings.Join(doc, ",") + "}"}
			case 2:
				n := len(doc) / 2
				texts = []string{"{" + strings.Join(doc[:n], ",") + "}", "{" + strings.Join(doc[n:], ",") + "}"}
			}
			in := strings.Join(texts, "\n")
			t.Input("base %s: %s", def, in)
			t.State(i)
			t.Trace(1)
			// user dictionaries are replaced by the UTF-16 ones when both are given
			utf := c.a == 1 && c.x == 1 || c.b == 1 && c.y == 1
			o := start(def, texts...)
			if bad {
				if o.err == nil {
					t.Fail("start-accepted", "start-up succeeds with %s", in)
				}
				t.Outcome("start-up refused")
				return
			}
			if o.err != nil {
				t.Fail("start-refused", "start-up fails with %s: %v", in, o.err)
				return
			}
			defer o.d.Close()
			for k, s := range all {
				if s.sees == nil || k != c.a && k != c.b {
					continue
				}
				// effects that another setting of the pair changes
				other, at := c.b, c.y
				if k == c.b {
					other, at = c.a, c.x
				}
				if interferes(dims[k].name, dims[other].name, at, utf) {
					continue
				}
				t.Transition(1)
				if why := s.sees(o); why != "" {
					t.Fail("effect", "%s in %s: %s", s.src, in, why)
					return
				}
				t.Outcome("effect of " + dims[k].name + " seen")
			}
		},
	})
	fs = append(fs, commandFamilies(tier, scratch)...)
	return fs
}

// interferes tells whether what is observed for a setting may depend on the other one.
func interferes(name, other string, at int, utf bool) bool {
	if at == 0 {
		return false
	}
	free := other == "userDict" && !utf || other == "pathRewritePlugin"
	return !(free && (name == "inputTextPlugin" || name == "oovProviderPlugin"))
}

type combo2 = struct{ a, b, x, y int }

// lines is what the command prints for a result.
func lines(ms []gs.Morph) string {
	var p strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&p, "%s\t%s\t%s\n", m.Surface, m.POS, m.Norm)
	}
	return p.String() + "EOS\n"
}

func commandFamilies(tier engine.Tier, scratch string) []*engine.Family {
	pos := func(p string) string { b, _ := json.Marshal(strings.Split(p, ",")); return string(b) }
	texts := []string{"あい都い東京都", "Ａｱｱﾞーー〜〜い", "えx え1一", "カカナアアアカ", "12あい"}
	type plug struct{ kind, name, opts string }
	forms := []string{"", "com.worksap.nlp.sudachi.", "github.com/msnoigrs/gosudachi."}
	simple := plug{"oovProviderPlugin", "SimpleOovProviderPlugin", `"oovPOS":` + pos(world.SYM) + `,"leftId":0,"rightId":0,"cost":6000`}
	all := []plug{
		{"inputTextPlugin", "DefaultInputTextPlugin", `"rewriteDef":"rewrite.def"`},
		{"inputTextPlugin", "ProlongedSoundMarkInputTextPlugin", `"prolongedSoundMarks":["ー","〜"],"replacementSymbol":"ー"`},
		{"oovProviderPlugin", "MeCabOovProviderPlugin", `"charDef":"char.def","unkDef":"unk.def"`},
		{"pathRewritePlugin", "JoinNumericPlugin", `"enableNormalize":true`},
		{"pathRewritePlugin", "JoinKatakanaOovPlugin", `"oovPOS":` + pos(world.N) + `,"minLength":2`},
		{"editConnectionCostPlugin", "InhibitConnectionPlugin", `"inhibitedPair":[[2,2]]`},
	}
	// the settings with some of the plug-ins
	settings := func(sel []plug, key, prefix string, utf16 bool, extra string) string {
		by := map[string][]string{}
		for _, p := range append(append([]plug{}, sel...), simple) {
			by[p.kind] = append(by[p.kind], fmt.Sprintf(`{%q:%q,%s}`, key, prefix+p.name, p.opts))
		}
		f := []string{`"systemDict":"sys.dic","userDict":["user.dic"],"characterDefinitionFile":"char.def"`}
		if utf16 {
			f[0] = `"systemDict":"sys16.dic","userDict":["user16.dic"],"characterDefinitionFile":"char.def"`
		}
		for _, k := range kinds {
			f = append(f, fmt.Sprintf("%q:[%s]", k, strings.Join(by[k], ",")))
		}
		return "{" + extra + strings.Join(f, ",\n") + "}"
	}
	sels := [][]plug{nil, all}
	for i := range all {
		sels = append(sels, all[i:i+1])
	}
	// order of input plug-ins matters
	sels = append(sels, []plug{all[1], all[0]}, []plug{all[4], all[3]})
	expected := func(set string) (string, bool) {
		o := start(res(scratch), set)
		if o.err != nil {
			panic(fmt.Sprintf("%s: %v", set, o.err))
		}
		defer o.d.Close()
		out := ""
		for _, x := range texts {
			ms, err := tokenize(o, x)
			if err != nil {
				return out, false
			}
			out += lines(ms)
		}
		return out, true
	}
	keys := []string{"name", "class"}
	var fs []*engine.Family
	mix := engine.NewMix(len(sels), 3, 3, len(keys), len(forms), 2)
	fs = append(fs, &engine.Family{
		Name:   "command",
		Bounds: fmt.Sprintf("gosudachicli run in another directory with %d selections of plug-ins, settings given as -r relative, -r absolute or -s, base directory by -p, by the program's place or in the settings, names under either key in three forms, with and without -j; %d texts", len(sels), len(texts)),
		Size:   mix.Size(),
		Chunk:  4,
		Run: func(i int64, t *engine.T) {
			d := mix.Get(i)
			key, prefix, utf16 := keys[d[3]], forms[d[4]], d[5] == 1
			bin := cli.Build(scratch, "gosudachicli")
			dir := res(scratch)
			work, err := os.MkdirTemp(scratch, "cwd")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(work)
			extra := ""
			var args []string
			switch d[2] {
			case 0:
				args = append(args, "-p", dir)
			case 1: // a copy of the program among the resources
				inst.Do(func() {
					cli.Copy(bin, filepath.Join(dir, "prog"))
				})
				bin = filepath.Join(dir, "prog")
			case 2:
				args = append(args, "-p", filepath.Join(scratch, "none"))
				extra = `"path":` + q(dir) + ","
			}
			set := settings(sels[d[0]], key, prefix, utf16, extra)
			switch d[1] {
			case 0:
				put(work, "conf.json", []byte(set))
				args = append(args, "-r", "conf.json")
			case 1:
				put(work, "conf.json", []byte(set))
				args = append(args, "-r", filepath.Join(work, "conf.json"))
			case 2:
				args = append(args, "-s", set)
			}
			if utf16 {
				args = append(args, "-j")
			}
			plain := settings(sels[d[0]], "name", "", false, "")
			want, good := expected(plain)
			t.Input("gosudachicli %s: %s", strings.Join(args, " "), set)
			t.State(i)
			t.Trace(1)
			r := cli.Run(work, bin, strings.NewReader(strings.Join(texts, "\n")+"\n"), args...)
			if r.Panicked() {
				t.Fail("command-crash", "the command crashes: %s", r.Err)
				return
			}
			if (r.Code == 0) != good {
				t.Fail("command-code", "exit %d, success expected %v: %s", r.Code, good, r.Err)
				return
			}
			if r.Out != want {
				t.Fail("command-output", "output %q, want %q (%s)", r.Out, want, r.Err)
				return
			}
			t.Outcome(fmt.Sprint("command success: ", good))
		},
	})
	// settings the command must refuse
	type bad struct {
		what string
		args func(work string) []string
	}
	with := func(set string) func(work string) []string {
		return func(work string) []string {
			put(work, "conf.json", []byte(set))
			return []string{"-r", "conf.json"}
		}
	}
	bads := []bad{
		{"no settings file", func(string) []string { return []string{"-r", "none.json"} }},
		{"malformed additional settings", func(string) []string { return []string{"-s", "{"} }},
		{"ill-typed additional settings", func(string) []string { return []string{"-s", `{"systemDict":1}`} }},
		{"malformed settings", with(`{"systemDict":"sys.dic",}`)},
		{"empty settings", with(``)},
		{"two documents", with(settings(nil, "name", "", false, "") + "{}")},
		{"no unknown word provider", with(`{"systemDict":"sys.dic"}`)},
		{"missing dictionary", with(strings.ReplaceAll(settings(nil, "name", "", false, ""), "sys.dic", "none.dic"))},
		{"missing definition", with(strings.ReplaceAll(settings(nil, "name", "", false, ""), "char.def", "none.def"))},
	}
	for i, p := range all {
		one := settings(all[i:i+1], "name", "", false, "")
		bads = append(bads,
			bad{"unknown plug-in instead of " + p.name, with(strings.ReplaceAll(one, p.name, "X"+p.name))},
			bad{"unknown package of " + p.name, with(strings.ReplaceAll(one, p.name, "com.example."+p.name))},
			bad{"no name for " + p.name, with(strings.ReplaceAll(one, `"name":"`+p.name+`",`, ""))},
			bad{"option of " + p.name, with(strings.ReplaceAll(one, p.opts, strings.SplitN(p.opts, ":", 2)[0]+`:{"x":1}`))},
		)
	}
	fs = append(fs, &engine.Family{
		Name:   "command-refuses",
		Bounds: fmt.Sprintf("gosudachicli with %d invalid settings", len(bads)),
		Size:   int64(len(bads)),
		Chunk:  4,
		Run: func(i int64, t *engine.T) {
			bin := cli.Build(scratch, "gosudachicli")
			work, err := os.MkdirTemp(scratch, "cwd")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(work)
			args := append([]string{"-p", res(scratch)}, bads[i].args(work)...)
			t.Input("%s: gosudachicli %s", bads[i].what, strings.Join(args, " "))
			t.State(i)
			t.Trace(1)
			r := cli.Run(work, bin, strings.NewReader("あ\n"), args...)
			if r.Panicked() {
				t.Fail("command-crash", "%s: the command crashes: %s", bads[i].what, r.Err)
				return
			}
			if r.Code == 0 || r.Out != "" || r.Err == "" {
				t.Fail("command-accepts", "%s: exit %d, output %q, message %q", bads[i].what, r.Code, r.Out, r.Err)
				return
			}
			t.Outcome("command refuses")
		},
	})
	// the settings that are built in, with and without changes
	{
		type change struct {
			set string
			ok  bool
		}
		changes := []change{
			{"", true},
			{"{}", true},
			{`{"systemDict":"other.dic"}`, true},
			{`{"systemDict":"none.dic"}`, false},
			{`{"userDict":["user.dic"]}`, true},
			{`{"userDict":["user.dic","user.dic"]}`, true},
			{`{"userDict":["none.dic"]}`, false},
			{`{"characterDefinitionFile":"char.def"}`, true},
			{`{"characterDefinitionFile":"none.def"}`, false},
			{`{"inputTextPlugin":[]}`, true},
			{`{"inputTextPlugin":[{"class":"DefaultInputTextPlugin","rewriteDef":"rewrite.def"}]}`, true},
			{`{"inputTextPlugin":[{"class":"DefaultInputTextPlugin","rewriteDef":"none.def"}]}`, false},
			{`{"inputTextPlugin":[{"class":"NoPlugin"}]}`, false},
			{`{"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":` + pos(shippedPOS) + `,"leftId":3,"rightId":3,"cost":10}]}`, true},
			{`{"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["x"],"leftId":3,"rightId":3,"cost":10}]}`, false},
			{`{"pathRewritePlugin":[]}`, true},
			{`{"pathRewritePlugin":[{"class":"JoinNumericPlugin","enableNormalize":false}]}`, true},
			{`{"pathRewritePlugin":[{"class":"JoinKatakanaOovPlugin","oovPOS":` + pos(shippedPOS) + `,"minLength":1}]}`, true},
			{`{"editConnectionCostPlugin":[{"class":"InhibitConnectionPlugin","inhibitedPair":[[1,2]]}]}`, true},
			{`{`, false},
			{`{"systemDict":"other.dic"`, false},
			{`{"systemDict":1}`, false},
			{`{"systemDict":"other.dic","userDict":"user.dic"}`, false},
			{`{"path":3}`, false},
			{`{"oovProviderPlugin":{}}`, false},
			{`{"systemDict":"other.dic"}}`, false},
			{`{} {}`, false},
			{`none`, false},
			{`[]`, false},
		}
		texts := []string{"東京都に２０２０年１２月", "ＡＢＣabcｱｲｳカナアア", "すごーーい〜〜〜〰", "三千一百12.5あい、 α я", "東京"}
		mix := engine.NewMix(len(changes), 2)
		fs = append(fs, &engine.Family{
			Name:   "command-defaults",
			Bounds: fmt.Sprintf("gosudachicli without a settings file: the settings that are built in, as they are and with %d overriding ones (-s), valid, invalid and malformed; base directory by -p or by the program's place; %d texts", len(changes)-1, len(texts)),
			Size:   mix.Size(),
			Chunk:  1,
			Run: func(i int64, t *engine.T) {
				d := mix.Get(i)
				c := changes[d[0]]
				dir := shippedDir(scratch)
				bin := cli.Build(scratch, "gosudachicli")
				var args []string
				if d[1] == 0 {
					args = append(args, "-p", dir)
				} else {
					bin = filepath.Join(dir, "prog")
				}
				if c.set != "" {
					args = append(args, "-s", c.set)
				}
				t.Input("gosudachicli %s", strings.Join(args, " "))
				t.State(i)
				t.Trace(1)
				r := cli.Run(scratch, bin, strings.NewReader(strings.Join(texts, "\n")+"\n"), args...)
				if r.Panicked() {
					t.Fail("command-crash", "the command crashes: %s", r.Err)
					return
				}
				if !c.ok {
					if r.Code == 0 || r.Out != "" || r.Err == "" {
						t.Fail("command-accepts", "exit %d, output %q, message %q", r.Code, r.Out, r.Err)
					}
					t.Outcome("refused")
					return
				}
				docs := []string{asset("sudachi.json")}
				if c.set != "" {
					docs = append(docs, c.set)
				}
				o := start(dir, docs...)
				if o.err != nil {
					t.Fail("start-refused", "the library refuses the settings: %v", o.err)
					return
				}
				defer o.d.Close()
				want, code := "", 0
				for _, x := range texts {
					ms, err := tokenize(o, x)
					if err != nil { // no path through the lattice
						code = 1
						break
					}
					want += lines(ms)
				}
				if (r.Code != 0) != (code != 0) || r.Out != want {
					t.Fail("command-output", "exit %d, output %q, want %q (%s)", r.Code, r.Out, want, r.Err)
					return
				}
				t.State(want)
				t.Outcome("as the library")
			},
		})
	}
	return fs
}

const shippedPOS = "名詞,普通名詞,一般,*,*,*"

var (
	shippedOnce sync.Once
	shippedPath string
)

// shippedDir is a directory with dictionaries that fit the definitions that are built in.
func shippedDir(scratch string) string {
	shippedOnce.Do(func() {
		shippedPath = filepath.Join(scratch, "shipped")
		if err := os.MkdirAll(shippedPath, 0755); err != nil {
			panic(err)
		}
		lex, seen := "", map[string]bool{}
		row := func(h, p string, cost int) string {
			return fmt.Sprintf("%s,1,1,%d,%s,%s,%s,%s,*,A,*,*,*\n", h, cost, h, p, h, h)
		}
		for _, l := range ref.Lines(asset("unk.def")) {
			p := strings.Join(strings.Split(l, ",")[4:10], ",")
			if !seen[p] {
				seen[p] = true
				lex += row("記", p, 9999)
			}
		}
		if !seen[shippedPOS] {
			panic("no " + shippedPOS)
		}
		for _, p := range []string{"補助記号,一般,*,*,*,*", "名詞,数詞,*,*,*,*"} {
			lex += row("々々", p, 9999)
		}
		for _, x := range []string{"東京", "都", "に", "すごーい", "一", "三", "千", "1", "2", "0", "カナ"} {
			p := shippedPOS
			if len(x) < 4 && x != "都" && x != "に" {
				p = "名詞,数詞,*,*,*,*"
			}
			lex += row(x, p, 100)
		}
		var v struct {
			SystemDict string `json:"systemDict"`
		}
		if err := json.Unmarshal([]byte(asset("sudachi.json")), &v); err != nil {
			panic(err)
		}
		for k, n := range []string{v.SystemDict, "other.dic"} {
			b, err := gs.Sys(lex+row("東京都", shippedPOS, []int{5000, -5000}[k]), "5969 5969\n1 1 10\n", gs.Opts{Desc: "s", Time: 1})
			if err != nil {
				panic(err)
			}
			put(shippedPath, n, b)
			if k == 0 {
				u, err := gs.User(row("２０２０年", shippedPOS, -9000)+row("2020年", shippedPOS, -9000), b, gs.Opts{Desc: "u", Time: 1})
				if err != nil {
					panic(err)
				}
				put(shippedPath, "user.dic", u)
			}
		}
		put(shippedPath, "char.def", []byte("0x30A1..0x30FF KATAKANA\n0x0041..0x005A ALPHA\n"))
		put(shippedPath, "rewrite.def", []byte("ABC か\n"))
		cli.Copy(cli.Build(scratch, "gosudachicli"), filepath.Join(shippedPath, "prog"))
	})
	return shippedPath
}

func asset(name string) string {
	f, err := data.Assets.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var inst sync.Once

func main() {
	engine.Main(&engine.Check{
		ID: "C19", Level: "model_checking",
		Rule:        "settings documents are applied to a model field by field; base configuration, plug-in lists and options must agree, malformed and invalid documents must be rejected at start-up, and every option must have its effect on a real tokenizer",
		Assumptions: []string{"when several documents are read, all are given the same base directory"},
		Families:    families,
	})
}

func put(dir, name string, b []byte) {
	if err := os.WriteFile(filepath.Join(dir, name), b, 0644); err != nil {
		panic(err)
	}
}
