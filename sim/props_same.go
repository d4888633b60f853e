package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ------------------------------------------------------------------ C23, C24
// Two schema files in one simulated project, related by their meaning: the
// outputs must be related the same way. The second file replaces the first one
// after a complete, killed or failed run of the command, or is all there is.

// schemaKinds read schema files.
var schemaKinds = []string{
	"export dbml", "export quickdbd", "export mysql", "export xlsx",
	"generate gorm", "generate graphql", "generate kt", "generate liquibase", "generate plantuml", "generate pb", "generate sqlalchemy",
	"diff flyway", "diff liquibase", "diff md",
}

// kv is a JSON object with an order of keys.
type kv struct {
	k string
	v interface{}
}

// respelled writes a schema in another way that says the same.
func respelled(r *rng, s *Sch) []byte {
	s = s.clone()
	if r.p(2, 3) {
		alias(r, s)
		for _, t := range s.Tables {
			for _, c := range t.Columns {
				if r.p(1, 8) {
					c.Type = strings.ToUpper(c.Type)
				}
			}
		}
	}
	if r.p(2, 3) {
		r.shuffle(len(s.Tables), func(i, j int) { s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i] })
	}
	zeros, order, foreign := r.p(1, 2), r.p(1, 2), r.p(1, 3)
	obj := func(l ...kv) []kv {
		var out []kv
		for _, x := range l {
			zero := x.v == nil || x.v == "" || x.v == 0 || x.v == false
			if a, ok := x.v.([]interface{}); ok && len(a) == 0 {
				zero = true
				if r.p(1, 2) {
					x.v = nil
				}
			}
			if zero && !(zeros && r.p(1, 2)) {
				continue
			}
			if zero && r.p(1, 4) {
				x.v = nil
			}
			out = append(out, x)
		}
		if foreign && r.p(1, 4) {
			out = append(out, kv{r.pick([]string{"x-note", "$schema", "comment"}), r.pick([]string{"", "ignored", "id"})})
		}
		if order {
			r.shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		}
		return out
	}
	strs := func(l []string) []interface{} {
		var a []interface{}
		for _, x := range l {
			a = append(a, x)
		}
		return a
	}
	var tabs []interface{}
	for _, t := range s.Tables {
		var cols, idx []interface{}
		for _, c := range t.Columns {
			var ref interface{}
			if c.Ref != nil {
				ref = obj(kv{"table", c.Ref.Table}, kv{"column", c.Ref.Column}, kv{"relationship", c.Ref.Relationship})
			}
			cols = append(cols, obj(kv{"name", c.Name}, kv{"type", c.Type}, kv{"desc", c.Desc}, kv{"size", c.Size}, kv{"scale", c.Scale}, kv{"notnull", c.NotNull}, kv{"pk", c.PK}, kv{"unique", c.Unique}, kv{"autoinc", c.AutoInc}, kv{"default", c.Default}, kv{"onupdate", c.OnUpd}, kv{"values", strs(c.Values)}, kv{"ref", ref}))
		}
		for _, x := range t.Indices {
			idx = append(idx, obj(kv{"name", x.Name}, kv{"columns", strs(x.Columns)}))
		}
		tabs = append(tabs, obj(kv{"name", t.Name}, kv{"columns", cols}, kv{"desc", t.Desc}, kv{"group", t.Group}, kv{"className", t.Class}, kv{"indices", idx}))
	}
	root := obj(kv{"author", s.Author}, kv{"name", s.Name}, kv{"version", s.Version}, kv{"tables", tabs})
	nl, in, colon := "\n", r.pick([]string{"  ", "\t", "", "      "}), r.pick([]string{": ", ":", " : "})
	switch r.n(4) {
	case 0:
		nl, in = "", ""
	case 1:
		nl = "\r\n"
	}
	escape := r.n(3)
	var b bytes.Buffer
	text := func(x string) {
		if escape == 0 {
			j, _ := json.Marshal(x)
			b.Write(j)
			return
		}
		b.WriteByte('"')
		for _, c := range x {
			switch {
			case c == '"' || c == '\\':
				b.WriteString("\\" + string(c))
			case c == '/' && escape == 1:
				b.WriteString("\\/")
			case c < ' ' || escape == 2 && c < 0x10000 && (c > '~' || r.p(1, 10)):
				fmt.Fprintf(&b, "\\u%04x", c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	var put func(v interface{}, ind string)
	list := func(n int, open, end, ind string, f func(i int)) {
		b.WriteString(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(nl + ind + in)
			f(i)
		}
		if n > 0 {
			b.WriteString(nl + ind)
		}
		b.WriteString(end)
	}
	put = func(v interface{}, ind string) {
		switch x := v.(type) {
		case []kv:
			list(len(x), "{", "}", ind, func(i int) {
				text(x[i].k)
				b.WriteString(colon)
				put(x[i].v, ind+in)
			})
		case []interface{}:
			list(len(x), "[", "]", ind, func(i int) { put(x[i], ind+in) })
		case string:
			text(x)
		default:
			j, _ := json.Marshal(x)
			b.Write(j)
		}
	}
	if r.p(1, 6) {
		b.WriteString("\n \t")
	}
	put(root, "")
	b.WriteString(r.pick([]string{"", "\n", "\n\n", " "}))
	return b.Bytes()
}

func readSch(b []byte) *Sch {
	s := &Sch{}
	if json.Unmarshal(b, s) != nil {
		return nil
	}
	return s
}

// bystanderTable is a table no other table has to do with.
func bystanderTable(r *rng, name, group string) *Tab {
	t := &Tab{Name: name, Group: group, Desc: r.pick([]string{"", "not related"})}
	(&genOpt{noIndex: true, pk: true}).columns(r, t)
	own := r.p(1, 2)
	for i, c := range t.Columns {
		if own {
			c.Name = fmt.Sprintf("by_%s_%d", name, i)
		}
	}
	if r.p(1, 5) {
		for _, c := range t.Columns {
			if c.PK {
				t.Columns = []*Col{c}
				c.Unique = r.p(1, 2)
				break
			}
		}
	}
	if r.p(1, 3) {
		// to itself
		c := t.Columns[r.n(len(t.Columns))]
		o := t.Columns[0]
		if c != o && c.Ref == nil && !c.AutoInc {
			c.Type, c.Size, c.Scale, c.Values, c.Default = o.Type, o.Size, o.Scale, o.Values, ""
			c.Ref = &Ref{Table: name, Column: o.Name, Relationship: r.pick([]string{"", "n:1", "1:1", "1:n"})}
		}
	}
	return t
}

func (sc *Scen) opt(long string) string {
	for _, o := range sc.opts {
		if o.long == long {
			return o.val
		}
	}
	return ""
}

// runningNo are the parts of an output that number what comes before.
var runningNo = regexp.MustCompile(`^\s+id: `)

// outLines are the lines of an output file.
func outLines(p, c string) []string {
	if strings.HasSuffix(p, ".xlsx") {
		sheets, err := readXlsx([]byte(c))
		if err != nil {
			return []string{"unreadable: " + err.Error()}
		}
		var l []string
		for _, x := range sheets {
			for _, row := range x.rows {
				n := len(row)
				for n > 0 && row[n-1] == "" {
					n--
				}
				if x.name == "Meta" {
					l = append(l, x.name+"\t"+strings.Join(row[:n], "\t"))
				} else {
					l = append(l, x.name+"\t"+strings.Join(row[:n], "\t"))
				}
			}
		}
		return l
	}
	return strings.Split(c, "\n")
}

// within reports what of one output is not in another.
func within(a, b Tree, own bool) string {
	for _, p := range a.keys() {
		if strings.HasSuffix(p, "/") {
			continue
		}
		c, ok := b[p]
		if !ok {
			return p + " is missing"
		}
		if c == a[p] {
			continue
		}
		if own {
			return p + " differs: " + firstDiff(a[p], c)
		}
		have := map[string]int{}
		var imports []string
		for _, l := range outLines(p, c) {
			have[l]++
			if strings.HasPrefix(l, "from ") {
				imports = append(imports, l)
			}
		}
		last := -1
		nl := outLines(p, c)
		at := map[string][]int{}
		for i, l := range nl {
			at[l] = append(at[l], i)
		}
	lines:
		for _, l := range outLines(p, a[p]) {
			if runningNo.MatchString(l) || l == "" {
				continue
			}
			if strings.HasPrefix(l, "from ") {
				for _, m := range imports {
					if wordsWithin(l, m) {
						continue lines
					}
				}
				return fmt.Sprintf("%s lacks %q", p, head(l, 120))
			}
			if have[l] == 0 {
				return fmt.Sprintf("%s lacks %q", p, head(l, 120))
			}
			// and in the same order
			if strings.HasPrefix(l, "import ") || strings.HasPrefix(l, "\t\"") {
				continue
			}
			k := sort.SearchInts(at[l], last+1)
			if k == len(at[l]) {
				return fmt.Sprintf("%s has %q in another place", p, head(l, 120))
			}
			last = at[l][k]
		}
	}
	return ""
}

// without reports what is in the whole but in none of its two parts.
func without(whole, a, b Tree) string {
	for _, p := range whole.keys() {
		if strings.HasSuffix(p, "/") {
			continue
		}
		have := map[string]int{}
		words := ""
		for _, t := range []Tree{a, b} {
			c, ok := t[p]
			if !ok {
				continue
			}
			for _, l := range outLines(p, c) {
				have[l]++
				if strings.HasPrefix(l, "from ") {
					words += l + ","
				}
			}
		}
		if len(have) == 0 {
			return p + " belongs to neither"
		}
		for _, l := range outLines(p, whole[p]) {
			if runningNo.MatchString(l) || strings.TrimSpace(l) == "" || strings.HasPrefix(l, "from ") && wordsWithin(l, words) {
				continue
			}
			if have[l] == 0 {
				return fmt.Sprintf("%s has %q, which belongs to neither part", p, head(l, 120))
			}
			have[l]--
		}
	}
	return ""
}

func wordsWithin(a, b string) bool {
	f := func(c rune) bool { return c == ' ' || c == ',' }
	w := map[string]bool{}
	for _, x := range strings.FieldsFunc(b, f) {
		w[x] = true
	}
	for _, x := range strings.FieldsFunc(a, f) {
		if !w[x] {
			return false
		}
	}
	return true
}

func judgeSame(env *Env, c *Case) Verdict {
	b := c.base
	if b == nil {
		b = env.run(c.Scen.run1(11))
		c.base = b
	}
	res := env.run(c.World)
	v := Verdict{Res: res}
	if c.Prop == "C24" && b.Procs[0].Exit != 0 {
		return v
	}
	p := res.Procs[len(res.Procs)-1]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		return v
	}
	if p.Exit != b.Procs[0].Exit {
		v.Msg = fmt.Sprintf("%s: the exit status is %d instead of %d: %s", c.Arg["what"], p.Exit, b.Procs[0].Exit, head(p.Stderr, 200))
		return v
	}
	bt, rt := c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)
	if c.Arg["rel"] == "within" {
		own := strings.HasPrefix(c.Scen.Kind, "generate kt") || c.Scen.Kind == "generate sqlalchemy" && !strings.HasSuffix(c.Scen.Outs[0], ".py")
		m := within(bt, rt, own)
		if m == "" {
			only := c.Scen.copy()
			for _, in := range c.Scen.Inputs {
				s := readSch(only.Files[in])
				s.Tables = []*Tab{{}}
				json.Unmarshal([]byte(c.Arg["table"]), s.Tables[0])
				only.Files[in] = s.json()
			}
			u := env.run(only.run1(12))
			if u.Procs[0].Exit != 0 {
				m = "alone it is rejected: " + head(u.Procs[0].Stderr, 200)
			} else {
				m = without(rt, bt, c.Scen.outTree(u.Final))
			}
		}
		if m != "" {
			v.Msg = c.Arg["what"] + ": " + m
		}
	} else if m := diffTree(bt, rt); m != "" {
		v.Msg = c.Arg["what"] + ": " + m
	}
	return v
}

// variantWorld runs the command of a scenario on other files of the same names.
func variantWorld(env *Env, r *rng, sc *Scen, files map[string][]byte, fresh bool, base *Result) *World {
	w := sc.world()
	add := func() { w.Phases = append(w.Phases, []ProcSpec{sc.spec(r.seed())}) }
	w.Phases = nil
	if !fresh && r.p(1, 2) {
		add()
		ops := base.Procs[0].Ops
		if r.p(2, 3) && len(ops) > 1 {
			w.Faults = append(w.Faults, disturb(r, ops)...)
			for _, f := range w.Faults {
				if f.Kind == "full" || f.Kind == "power" {
					w.Faults = []Fault{{Op: r.n(len(ops)), Kind: "kill"}}
					break
				}
			}
		}
		for _, p := range sc.Inputs {
			w.Edits = append(w.Edits, Edit{Phase: 1, Path: p, Data: files[p]})
		}
	} else {
		w.Files = map[string][]byte{}
		for p, b := range sc.Files {
			w.Files[p] = b
		}
		for p, b := range files {
			w.Files[p] = b
		}
	}
	add()
	if r.p(1, 3) {
		w.MaxRead = int64(1 + r.n(3000))
	}
	if r.p(1, 4) {
		w.MaxWrite = int64(1 + r.n(3000))
	}
	return w
}

// foreignType gives some column a type the tool does not know.
func foreignType(r *rng, sc *Scen) {
	t := r.pick([]string{"uuid", "inet", "money"})
	n := r.n(1 << 20)
	for _, p := range sc.Inputs {
		s := readSch(sc.Files[p])
		if s == nil || len(s.Tables) == 0 {
			continue
		}
		tb := s.Tables[n%len(s.Tables)]
		at := n / 64 % (len(tb.Columns) + 1)
		tb.Columns = append(tb.Columns[:at:at], append([]*Col{{Name: "foreign_value", Type: t}}, tb.Columns[at:]...)...)
		sc.Files[p] = s.json()
	}
}

func init() {
	const how = "; the second file replaces the first after a complete, killed or failed run, or is there from the start, with short transfers; "
	p := &Property{ID: "C23", Level: "exploration", Quick: 6000, Deep: 60000, Judge: judgeSame,
		Rule: "per scenario (every command that reads schema files) the schema files are replaced by files that say the same: tables and keys in another order, other names and letter case of types, other white space and line ends, escaped characters, values left out or stated that are the default, unknown keys" + how + "every output byte (spreadsheets: every part) and the exit status must be equal; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc := env.newScen(r, schemaKinds[i%len(schemaKinds)], scenOpt{big: r.p(1, 10)})
		if r.p(1, 8) {
			foreignType(r, sc)
		}
		b := env.run(sc.run1(11))
		var out []*Case
		max := 5
		if env.tier == "thorough" {
			max = 30
		}
		for k := 0; k < max; k++ {
			files := map[string][]byte{}
			for _, in := range sc.Inputs {
				files[in] = respelled(r, readSch(sc.Files[in]))
			}
			verdict(env, p, &Case{Prop: "C23", Sub: "respelled", Seed: env.seed, Index: i, Scen: sc, World: variantWorld(env, r, sc, files, false, b), base: b, Arg: map[string]string{"rel": "same", "what": "a schema file that says the same"}}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)

	q := &Property{ID: "C24", Level: "exploration", Quick: 6000, Deep: 60000, Judge: judgeSame,
		Rule: "per scenario (every command that reads schema files) tables are added that no other table has to do with: to groups the options do not select (the output must be the same, byte by byte), or to any group (every line of the output must still be there in the same order, running numbers aside, in the same files), first, last or in the middle of the file and the alphabet" + how + "distinct: different system-call trace"}
	q.Run = func(env *Env, i int, r *rng) []*Case {
		sc := env.newScen(r, schemaKinds[i%len(schemaKinds)], scenOpt{big: r.p(1, 10)})
		b := env.run(sc.run1(11))
		if b.Procs[0].Exit != 0 {
			return nil
		}
		var out []*Case
		max := 5
		if env.tier == "thorough" {
			max = 30
		}
		for k := 0; k < max; k++ {
			sel := sc.opt("groups")
			arg := map[string]string{"rel": "within", "what": "with an unrelated table"}
			var groups []string
			for _, t := range sc.Schema.Tables {
				groups = append(groups, t.Group)
			}
			if sel != "" && r.p(2, 3) {
				arg = map[string]string{"rel": "same", "what": "with an unrelated table of a group that is not selected"}
				chosen := strings.Split(sel, ",")
				in := groups
				groups = []string{"zz", "aa", chosen[0] + "s", chosen[0][:1]}
				for _, g := range in {
					groups = append(groups, g)
				}
				n := groups[:0]
				for _, g := range groups {
					if g != "" && !has(chosen, g) {
						n = append(n, g)
					}
				}
				groups = n
			} else {
				groups = append(groups, "zz", "aa")
			}
			g := r.pick(groups)
			if sel != "" && arg["rel"] == "within" {
				g = r.pick(strings.Split(sel, ","))
			}
			name := r.pick([]string{"aa_first", "zz_last", "mm_middle", "by_stander"})
			t := bystanderTable(r, name, g)
			tj, _ := json.Marshal(t)
			arg["table"] = string(tj)
			at := r.n(100)
			files := map[string][]byte{}
			for _, in := range sc.Inputs {
				s := readSch(sc.Files[in])
				n := at % (len(s.Tables) + 1)
				s.Tables = append(s.Tables[:n:n], append([]*Tab{t}, s.Tables[n:]...)...)
				files[in] = s.json()
			}
			verdict(env, q, &Case{Prop: "C24", Sub: "unrelated", Seed: env.seed, Index: i, Scen: sc, World: variantWorld(env, r, sc, files, false, b), base: b, Arg: arg}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(q)
}
