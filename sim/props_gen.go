package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ------------------------------------------------------------------ C18–C20
// Generated artefacts: every one is read back by an independent reader and
// compared with what the schema says.

// optSpec is one option of a command, with its documented spellings.
type optSpec struct {
	key, long, short, env string
	flag                  bool
}

// spell gives the options of a history one of their documented spellings.
func spell(h *Hist, specs []optSpec) (argv, env []string) {
	for _, s := range specs {
		v, ok := h.Opt[s.key]
		if !ok {
			continue
		}
		r := newRng(h.TextSeed, "spell", s.long)
		k := r.n(5)
		if s.env == "" && k == 4 {
			k = 0
		}
		if s.short == "" && (k == 2 || k == 3) {
			k = r.n(2)
		}
		if s.flag {
			switch k {
			case 0:
				argv = append(argv, "--"+s.long)
			case 1:
				argv = append(argv, "--"+s.long+"=true")
			case 2, 3:
				argv = append(argv, "-"+s.short)
			case 4:
				env = append(env, s.env+"="+r.pick([]string{"true", "1"}))
			}
			continue
		}
		switch k {
		case 0:
			argv = append(argv, "--"+s.long, v)
		case 1:
			argv = append(argv, "--"+s.long+"="+v)
		case 2:
			argv = append(argv, "-"+s.short, v)
		case 3:
			argv = append(argv, "-"+s.short+"="+v)
		case 4:
			env = append(env, s.env+"="+v)
		}
	}
	return
}

var ioSpecs = []optSpec{{key: "in", long: "input", short: "i", env: "OCTOPUS_INPUT"}, {key: "out", long: "output", short: "o", env: "OCTOPUS_OUTPUT"}}

// genHist is one command that turns the schema into something else.
func genHist(specs []optSpec, cmd ...string) func(h *Hist) *histSetup {
	return func(h *Hist) *histSetup {
		in := h.Schemas[0].clone()
		if h.Opt["alias"] != "" {
			alias(newRng(h.TextSeed, "alias"), in)
		}
		s := &histSetup{Files: map[string][]byte{"/home/u/db.json": in.json()}, Dirs: []string{"/home/u/out"}}
		h = h.clone()
		h.Opt["in"] = "db.json"
		argv, env := spell(h, append(append([]optSpec{}, ioSpecs...), specs...))
		s.Cmds = append(s.Cmds, HCmd{Argv: append(append([]string{}, cmd...), argv...), Env: env})
		return s
	}
}

// selected is the part of the schema the options ask for.
func selected(h *Hist) *Sch {
	s := h.Schemas[0].clone()
	if v := h.Opt["groups"]; v != "" {
		g := strings.Split(v, ",")
		dropTabs(s, func(t *Tab) bool { return has(g, t.Group) })
	}
	return s
}

// sameFacts compares two lists of facts, "" when they are the same.
func sameFacts(what string, want, got []string) string {
	w, g := map[string]int{}, map[string]int{}
	for _, x := range want {
		w[x]++
	}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		if g[x] < w[x] {
			near := ""
			key := strings.SplitN(x, " [", 2)[0]
			for _, y := range got {
				if strings.SplitN(y, " [", 2)[0] == key && y != x {
					near = ", but has " + y
				}
			}
			return what + " lacks " + x + near
		}
	}
	for _, x := range got {
		if w[x] < g[x] {
			return what + " has " + x + ", which the schema does not say (that often)"
		}
	}
	return ""
}

func genGroups(r *rng, h *Hist) {
	if !r.p(1, 3) {
		return
	}
	var pick []string
	for _, g := range h.Schemas[0].groups() {
		if g != "" && r.p(2, 3) {
			pick = append(pick, g)
		}
	}
	if len(pick) > 0 {
		if r.p(1, 6) {
			pick = append(pick, "nobody")
		}
		h.Opt["groups"] = strings.Join(pick, ",")
	}
}

// twin adds a table that only its group's prefix tells from another in what is
// generated, and references to both.
func twin(r *rng, h *Hist, className bool) {
	s := h.Schemas[0]
	t, o := s.Tables[r.n(len(s.Tables))], s.Tables[r.n(len(s.Tables))]
	if t.Class != "" && className || selected(h).tab(t.Name) == nil {
		return
	}
	if h.Opt["remove"] == "" {
		h.Opt["remove"] = r.pick([]string{"tb_", "t_,app_"})
	}
	p := strings.Split(h.Opt["remove"], ",")[0]
	u := &Tab{Name: p + t.Name, Group: r.pick([]string{"twins", "shop2", "user"}), Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "memo", Type: "varchar", Size: 20}}}
	if strings.HasPrefix(t.Name, p) {
		u.Name = strings.TrimPrefix(t.Name, p)
	}
	if u.Name == "" || s.tab(u.Name) != nil || u.Group == t.Group {
		return
	}
	if v := h.Opt["groups"]; v != "" {
		h.Opt["groups"] = v + "," + u.Group
	}
	var m []string
	for _, g := range append(s.groups(), u.Group) {
		if g != "" && !has(m, g+":"+camel(g, true)) {
			m = append(m, g+":"+camel(g, true))
		}
	}
	prefix, remove := h.Opt["prefix"], h.Opt["remove"]
	h.Opt["prefix"] = strings.Join(m, ",")
	s.Tables = append(s.Tables, u)
	seen := map[string]bool{}
	for _, x := range s.Tables {
		n := strings.ToLower(typeName(h, x, className))
		if seen[n] {
			h.Opt["prefix"], h.Opt["remove"] = prefix, remove
			s.Tables = s.Tables[:len(s.Tables)-1]
			return
		}
		seen[n] = true
	}
	for k, x := range []*Tab{t, u} {
		o.Columns = append(o.Columns, &Col{Name: fmt.Sprintf("twin%c_id", 'a'+k), Type: "int64", Ref: &Ref{Table: x.Name, Column: x.Columns[0].Name, Relationship: r.pick([]string{"n:1", "1:n", "1:1", ""})}})
	}
}

// clash adds a table that would be generated as the same class as another.
func clash(r *rng, h *Hist, className bool) {
	if h.Model != "generate graphql" && r.p(1, 10) {
		twin(r, h, className)
		return
	}
	if !r.p(1, 10) {
		return
	}
	s := h.Schemas[0]
	t := s.Tables[r.n(len(s.Tables))]
	if selected(h).tab(t.Name) == nil {
		return
	}
	if r.p(1, 3) {
		clashCol(r, h, t)
		return
	}
	u := &Tab{Name: t.Name, Group: t.Group, Columns: []*Col{{Name: "key_no", Type: "int64", PK: true, NotNull: true}, {Name: "memo", Type: "varchar", Size: 20}}}
	n := strings.Count(t.Name, "_")
	switch k := r.n(4); {
	case k == 0 && className:
		u.Name, u.Class = "zz_extra", typeName(h, t, true)
	case k == 1 && h.Opt["remove"] != "":
		u.Name = strings.Split(h.Opt["remove"], ",")[0] + t.Name
	case k == 2 && n > 0:
		p := strings.SplitN(t.Name, "_", 2)
		u.Name = p[0] + camel(p[1], true)
	default:
		u.Name = camel(t.Name, r.p(1, 2))
	}
	if h.Model == "generate graphql" && r.p(1, 4) && !strings.HasSuffix(t.Name, "s") {
		u.Name = t.Name + "s" // the query fields are plurals
		u.Class, h.Opt["plural"] = t.Class, u.Name
		if u.Class != "" {
			u.Class += "s"
		}
	}
	if s.tab(u.Name) != nil || h.Opt["plural"] == "" && typeName(h, u, className) != typeName(h, t, className) {
		return
	}
	h.Opt["clash"] = t.Name + "," + u.Name
	i := r.n(len(s.Tables) + 1)
	s.Tables = append(s.Tables[:i:i], append([]*Tab{u}, s.Tables[i:]...)...)
}

var snakeName = regexp.MustCompile(`^[a-z]+(_[a-z]+)+$`)

// clashCol adds a column that would be generated as the same field as another.
func clashCol(r *rng, h *Hist, t *Tab) {
	c := t.Columns[r.n(len(t.Columns))]
	n := camel(c.Name, r.p(1, 3))
	if h.Model == "generate sqlalchemy" { // fields are lower case
		n = strings.ToUpper(c.Name)
	}
	if !snakeName.MatchString(c.Name) || strings.HasSuffix(c.Name, "ed_at") || t.col(n) != nil {
		return
	}
	i := r.n(len(t.Columns) + 1)
	t.Columns = append(t.Columns[:i:i], append([]*Col{{Name: n, Type: r.pick([]string{"varchar", "int64", "boolean"})}}, t.Columns[i:]...)...)
	h.Opt["clash"], h.Opt["clashTable"] = c.Name+","+n, t.Name
}

// clashOracle wants a run refused, with nothing generated, if two tables
// would be the same class in one scope.
func clashOracle(className bool, apart func(h *Hist) bool, next func(h *Hist, res *Result) string) func(h *Hist, res *Result) string {
	return func(h *Hist, res *Result) string {
		if h.Opt["clash"] == "" {
			return next(h, res)
		}
		p := res.Procs[len(res.Procs)-1]
		both := ""
		if v := h.Opt["clashTable"]; v != "" {
			ab := strings.Split(h.Opt["clash"], ",")
			if t := selected(h).tab(v); t != nil && t.col(ab[0]) != nil && t.col(ab[1]) != nil {
				both = fmt.Sprintf("the columns %s and %s of %s are one field", ab[0], ab[1], v)
			}
		} else if !apart(h) {
			names := map[string]string{}
			s := selected(h)
			for _, t := range s.Tables {
				n := typeName(h, t, className)
				if v := h.Opt["plural"]; v == t.Name && s.tab(v[:len(v)-1]) != nil {
					if p.Exit == 0 {
						break // the reader knows whether the query fields clash
					}
					both = "the queries for " + v[:len(v)-1] + " and " + v + " have the same name"
				}
				if names[n] != "" {
					both = fmt.Sprintf("the tables %s and %s are both %s", names[n], t.Name, n)
				}
				names[n] = t.Name
			}
		}
		switch {
		case both != "" && p.Exit == 0:
			return h.Model + ": " + both + ", but nothing is reported"
		case both == "" && p.Exit != 0 && h.Opt["repos"] != "": // there may be no primary key left
			return ""
		case both == "" && p.Exit != 0:
			return h.Model + " fails although no fault is left: " + head(p.Stderr, 300)
		case both == "":
			return next(h, res)
		}
		for f := range res.Final {
			if strings.HasPrefix(f, "/home/u/out") && !strings.HasSuffix(f, "/") {
				return h.Model + ": " + both + ": it is refused, but " + f + " is written"
			}
		}
		return ""
	}
}

func together(h *Hist) bool { return false }

func artefact(res *Result, f string) (string, string) {
	b, ok := res.Final["/home/u/"+f]
	if !ok {
		return "", f + " is missing"
	}
	return b, ""
}

// ---- DBML ----

var dbmlRel = map[string]string{"n:1": ">", "": ">", "1:n": "<", "1:1": "-"}

// dbmlTokens splits DBML into names, numbers, strings ('x, "x or `x) and
// punctuation.
func dbmlTokens(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n' || c == ' ' || c == '\t':
			i++
		case c == '/' && strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`':
			var b strings.Builder
			b.WriteByte(c)
			j := i + 1
			for ; ; j++ {
				if j >= len(s) || s[j] == '\n' {
					return nil, fmt.Errorf("the string %s is not closed", head(s[i:], 60))
				}
				if s[j] == '\\' && c != '`' && j+1 < len(s) && (s[j+1] == c || s[j+1] == '\\') {
					j++
					b.WriteByte(s[j])
					continue
				}
				if s[j] == c {
					break
				}
				b.WriteByte(s[j])
			}
			out = append(out, b.String())
			i = j + 1
		case strings.IndexByte("{}[],:.<>-()", c) >= 0 && !(c == '-' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9'):
			out = append(out, string(c))
			i++
		default:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '-' && j == i || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '.' && j > i && s[i] <= '9' && j+1 < len(s) && s[j+1] >= '0' && s[j+1] <= '9') {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("unexpected %q", head(s[i:], 30))
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out, nil
}

type tokens struct {
	t []string
	i int
}

func (t *tokens) peek() string {
	if t.i < len(t.t) {
		return t.t[t.i]
	}
	return ""
}

func (t *tokens) next() string {
	s := t.peek()
	t.i++
	return s
}

func (t *tokens) want(s string) {
	if x := t.next(); x != s {
		panic(parseErr(fmt.Sprintf("%q where %q is expected, after %q", x, s, t.before())))
	}
}

func (t *tokens) before() string {
	a := t.i - 8
	if a < 0 {
		a = 0
	}
	b := t.i
	if b > len(t.t) {
		b = len(t.t)
	}
	return strings.Join(t.t[a:b], " ")
}

var identRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$|^[0-9]+[A-Za-z_][A-Za-z0-9_]*$`)

func (t *tokens) name() string {
	x := t.next()
	if strings.HasPrefix(x, `"`) {
		return x[1:]
	}
	if !identRe.MatchString(x) {
		panic(parseErr(fmt.Sprintf("%q where a name is expected, after %q", x, t.before())))
	}
	return x
}

type parseErr string

// parsing turns the panics of a reader into an error text.
func parsing(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			msg = string(e)
		}
	}()
	f()
	return ""
}

func colFact(table, col string, attrs ...string) string {
	var l []string
	for _, a := range attrs {
		if a != "" {
			l = append(l, a)
		}
	}
	sort.Strings(l)
	return "column " + table + "." + col + " [" + strings.Join(l, ", ") + "]"
}

func on(v bool, s string) string {
	if v {
		return s
	}
	return ""
}

func isNumType(t string) bool {
	return isInt(t) || t == "decimal" || t == "float" || t == "double" || t == "bit" || t == "year"
}

func dbmlWant(s *Sch) (facts []string) {
	tab := map[string]bool{}
	for _, t := range s.Tables {
		tab[t.Name] = true
	}
	for _, t := range s.Tables {
		facts = append(facts, "table "+t.Name)
		for i, c := range t.Columns {
			def := ""
			switch {
			case c.Default == "":
			case strings.HasPrefix(c.Default, "fn::"):
				def = "default expression " + strings.ToLower(strings.TrimSuffix(c.Default[4:], "()"))
			case isNumType(c.Type):
				def = "default " + plain(c.Default)
			case c.Type == "boolean":
				def = "default " + plain(c.Default)
			default:
				def = "default text " + c.Default
			}
			facts = append(facts, colFact(t.Name, c.Name, fmt.Sprintf("#%d", i), "type "+fmtType(c), on(c.PK, "pk"), on(c.Unique, "unique"), on(c.NotNull, "not null"), def, on(c.Desc != "", "note "+c.Desc)))
			if c.Ref != nil && tab[c.Ref.Table] {
				facts = append(facts, fmt.Sprintf("reference %s.%s %s %s.%s", t.Name, c.Name, dbmlRel[c.Ref.Relationship], c.Ref.Table, c.Ref.Column))
			}
		}
	}
	return
}

func dbmlFacts(s string) (facts []string, msg string) {
	tk, err := dbmlTokens(s)
	if err != nil {
		return nil, err.Error()
	}
	t := &tokens{t: tk}
	msg = parsing(func() {
		defined := map[string]bool{}
		var targets []string
		for t.i < len(t.t) {
			switch x := t.next(); strings.ToLower(x) {
			case "ref":
				t.want(":")
				a := t.name()
				t.want(".")
				b := t.name()
				rel := t.next()
				c := t.name()
				t.want(".")
				d := t.name()
				facts = append(facts, fmt.Sprintf("reference %s.%s %s %s.%s", a, b, rel, c, d))
				targets = append(targets, a+"."+b, c+"."+d)
			case "table":
				n := t.name()
				facts = append(facts, "table "+n)
				t.want("{")
				for i := 0; t.peek() != "}"; i++ {
					col := t.name()
					defined[n+"."+col] = true
					ty := t.name()
					if t.peek() == "(" {
						t.next()
						ty += "(" + t.next()
						if t.peek() == "," {
							t.next()
							ty += "," + t.next()
						}
						t.want(")")
						ty += ")"
					}
					at := []string{fmt.Sprintf("#%d", i), "type " + ty}
					if t.peek() == "[" {
						t.next()
						for {
							switch a := t.next(); a {
							case "pk", "unique":
								at = append(at, a)
							case "not":
								t.want("null")
								at = append(at, "not null")
							case "default":
								t.want(":")
								v := t.next()
								switch v[0] {
								case '\'', '"':
									at = append(at, "default text "+v[1:])
								case '`':
									at = append(at, "default expression "+strings.ToLower(strings.TrimSuffix(v[1:], "()")))
								default:
									if !numRe.MatchString(v) && !strings.EqualFold(v, "true") && !strings.EqualFold(v, "false") {
										panic(parseErr("the default value " + v + " of " + n + "." + col + " is neither a number nor a string"))
									}
									at = append(at, "default "+plain(v))
								}
							case "ref":
								t.want(":")
								rel := t.next()
								c := t.name()
								t.want(".")
								d := t.name()
								facts = append(facts, fmt.Sprintf("reference %s.%s %s %s.%s", n, col, rel, c, d))
								targets = append(targets, c+"."+d)
							case "note":
								t.want(":")
								v := t.next()
								if v == "" || v[0] != '\'' && v[0] != '"' {
									panic(parseErr("the note " + v + " is no string"))
								}
								at = append(at, "note "+v[1:])
							default:
								panic(parseErr("unknown setting " + a + " after " + t.before()))
							}
							if t.peek() == "," {
								t.next()
								continue
							}
							t.want("]")
							break
						}
					}
					facts = append(facts, colFact(n, col, at...))
				}
				t.want("}")
			default:
				panic(parseErr(fmt.Sprintf("%q where a table or reference is expected", x)))
			}
		}
		for _, x := range targets {
			if !defined[x] {
				panic(parseErr("a reference names " + x + ", which is not defined"))
			}
		}
	})
	return
}

var numRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

// ---- QuickDBD ----

var qdRel = map[string]string{"n:1": ">-", "": ">-", "1:n": "-<", "1:1": "-"}

func qdWant(s *Sch) (facts []string) {
	for _, t := range s.Tables {
		facts = append(facts, "table "+t.Name+on(t.Desc != "", " # "+t.Desc))
		for i, c := range t.Columns {
			fk := ""
			if c.Ref != nil {
				fk = "FK " + qdRel[c.Ref.Relationship] + " " + c.Ref.Table + "." + c.Ref.Column
			}
			facts = append(facts, colFact(t.Name, c.Name, fmt.Sprintf("#%d", i), "type "+c.Type, on(c.PK, "PK"), on(c.Unique, "UNIQUE"), on(c.AutoInc, "AUTOINCREMENT"), on(!c.NotNull, "NULLABLE"), on(c.Default != "", "default="+c.Default), fk, on(c.Desc != "", "# "+c.Desc)))
		}
	}
	return
}

func qdFacts(s string) (facts []string, msg string) {
	lines := strings.Split(s, "\n")
	table := ""
	n := 0
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.TrimSpace(l) == "" {
			continue
		}
		if i+1 < len(lines) && lines[i+1] != "" && strings.Trim(lines[i+1], "-") == "" {
			p := strings.SplitN(l, " # ", 2)
			table = strings.TrimSpace(p[0])
			f := "table " + table
			if len(p) == 2 {
				f += " # " + p[1]
			}
			facts = append(facts, f)
			n = 0
			i++
			continue
		}
		if table == "" {
			return nil, fmt.Sprintf("%q stands before any table", l)
		}
		desc := ""
		if k := strings.Index(l, " # "); k >= 0 {
			desc, l = l[k+1:], l[:k]
		}
		w := strings.Fields(l)
		if len(w) < 2 {
			return nil, fmt.Sprintf("the column %q has no type", l)
		}
		at := []string{fmt.Sprintf("#%d", n), "type " + w[1], desc}
		n++
		for k := 2; k < len(w); k++ {
			switch x := w[k]; {
			case x == "FK" && k+2 < len(w):
				at = append(at, "FK "+w[k+1]+" "+w[k+2])
				k += 2
			case strings.HasPrefix(x, "default="):
				for k+1 < len(w) && w[k+1] != "FK" {
					k++
					x += " " + w[k]
				}
				at = append(at, x)
			default:
				at = append(at, x)
			}
		}
		facts = append(facts, colFact(table, w[0], at...))
	}
	return
}

// ---- PlantUML ----

var puRel = map[string]string{"n:1": "}o-||", "": "}o-||", "1:n": "||-o{", "1:1": "||-||"}

func puWant(s *Sch) (facts []string) {
	for _, t := range s.Tables {
		facts = append(facts, "table "+t.Name)
		for i, c := range t.Columns {
			facts = append(facts, colFact(t.Name, c.Name, fmt.Sprintf("#%d", i), "type "+c.Type, on(c.PK, "<<PK>>"), on(c.Unique, "<<UQ>>"), on(c.Ref != nil, "<<FK>>"), on(c.NotNull, "*")))
			if c.Ref != nil {
				facts = append(facts, "reference "+t.Name+" "+puRel[c.Ref.Relationship]+" "+c.Ref.Table)
			}
		}
	}
	return
}

var (
	puEntity = regexp.MustCompile(`^entity (\S+) \{$`)
	puCol    = regexp.MustCompile(`^(\* ?)?(\S+) ?: ?(\S+)((?: <<[A-Z]+>>)*)$`)
	puLink   = regexp.MustCompile(`^(\S+) (\S+) (\S+)$`)
)

func puFacts(s string) (facts []string, msg string) {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) < 2 || lines[0] != "@startuml" || lines[len(lines)-1] != "@enduml" {
		return nil, "it is not framed by @startuml and @enduml"
	}
	table, n, sep := "", 0, 0
	for _, l := range lines[1 : len(lines)-1] {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if table != "" {
			switch {
			case l == "}":
				table = ""
			case l == "--":
				if sep++; sep > 1 {
					return nil, "the entity " + table + " has more than one separator"
				}
			default:
				m := puCol.FindStringSubmatch(l)
				if m == nil {
					return nil, fmt.Sprintf("%q is no column", l)
				}
				at := append([]string{fmt.Sprintf("#%d", n), "type " + m[3], strings.TrimSpace(m[1])}, strings.Fields(m[4])...)
				if !strings.Contains(m[4], "<<PK>>") && sep == 0 {
					return nil, fmt.Sprintf("%s.%s stands among the keys", table, m[2])
				}
				facts = append(facts, colFact(table, m[2], at...))
				n++
			}
			continue
		}
		if m := puEntity.FindStringSubmatch(l); m != nil {
			table, n, sep = m[1], 0, 0
			facts = append(facts, "table "+table)
			continue
		}
		m := puLink.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Sprintf("%q is no relation", l)
		}
		facts = append(facts, "reference "+l)
	}
	if table != "" {
		return nil, "the entity " + table + " is not closed"
	}
	return
}

func init() {
	groups := optSpec{key: "groups", long: "groups", short: "g", env: "OCTOPUS_GROUPS"}
	histModels["export dbml"] = genHist([]optSpec{groups}, "export", "dbml")
	histModels["export quickdbd"] = genHist(nil, "export", "quickdbd")
	histModels["generate plantuml"] = genHist(nil, "generate", "plantuml")
	gen := func(r *rng) *Hist {
		h := &Hist{Opt: map[string]string{}, TextSeed: r.seed(), Schemas: []*Sch{genSchema(r, genOpt{})}}
		if r.p(1, 3) {
			h.Opt["alias"] = "1"
		}
		switch r.n(4) {
		case 0, 1:
			h.Model = "export dbml"
			h.Opt["out"] = "out/db.dbml"
			for _, t := range h.Schemas[0].Tables {
				for _, c := range t.Columns {
					if c.Default == "none" {
						c.Default = r.pick([]string{"none", "it's", "say \"hi\"", "a\\b"})
					}
				}
			}
			genGroups(r, h)
		case 2:
			h.Model = "export quickdbd"
			h.Opt["out"] = "out/db.txt"
		default:
			h.Model = "generate plantuml"
			h.Opt["out"] = r.pick([]string{"out/db.puml", "out/db.wsd", "out/db.pu", "out/db.plantuml", "out/db.iuml", "out/uml", "out/new/x", "out/PU.PUML"})
		}
		return h
	}
	histProp("C18", "", 4000, 20000,
		"a history is a schema that is exported as a DBML, QuickDBD or PlantUML diagram, with options in every documented spelling (long, short, with =, environment), with killed, power-lost and failing attempts before; the diagram is read by an independent reader and compared fact by fact with the selected part of the schema; distinct: different system-call trace and final disk",
		gen, func(h *Hist, res *Result) string {
			f := h.Opt["out"]
			if h.Model == "generate plantuml" && (f == "out/uml" || f == "out/new/x") {
				f += "/output.plantuml"
			}
			b, msg := artefact(res, f)
			if msg != "" {
				return msg
			}
			s := selected(h)
			var want, got []string
			switch h.Model {
			case "export dbml":
				want = dbmlWant(s)
				got, msg = dbmlFacts(b)
			case "export quickdbd":
				want = qdWant(s)
				got, msg = qdFacts(b)
			default:
				want = puWant(s)
				got, msg = puFacts(b)
			}
			if msg == "" {
				msg = sameFacts("it", want, got)
			}
			if msg != "" {
				return h.Model + ": " + msg
			}
			return ""
		})
}
