package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// ------------------------------------------------------------------ C19
// GraphQL schemas and protobuf definitions.

// camel turns a name of letters, digits and underscores into camel case.
func camel(s string, upper bool) string {
	var b strings.Builder
	up := upper
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteRune(c)
		}
		up = c >= '0' && c <= '9'
	}
	if !upper {
		return lowerFirst(b.String())
	}
	return b.String()
}

func lowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

// typeName is the name of what is generated for a table.
func typeName(h *Hist, t *Tab, className bool) string {
	if className && t.Class != "" {
		return t.Class
	}
	n := t.Name
	if v := h.Opt["remove"]; v != "" {
		for _, p := range strings.Split(v, ",") {
			n = strings.TrimPrefix(n, p)
		}
	}
	n = camel(n, true)
	if v := h.Opt["prefix"]; strings.Contains(v, ":") {
		for _, p := range strings.Split(v, ",") {
			if kv := strings.SplitN(p, ":", 2); kv[0] == t.Group {
				return kv[1] + n
			}
		}
	} else {
		return v + n
	}
	return n
}

func genNaming(r *rng, h *Hist) {
	if r.p(1, 3) {
		h.Opt["remove"] = r.pick([]string{"tb_", "t_,app_", "tb_,t_,app_", "zz_"})
	}
	if r.p(1, 3) {
		var l []string
		for _, g := range h.Schemas[0].groups() {
			if g != "" && r.p(2, 3) {
				l = append(l, g+":"+r.pick([]string{"C", "Db", "X"}))
			}
		}
		if len(l) > 0 {
			h.Opt["prefix"] = strings.Join(l, ",")
		} else {
			h.Opt["prefix"] = "My"
		}
	}
}

// ---- protobuf ----

var pbType = map[string]string{"char": "string", "varchar": "string", "text8": "string", "text16": "string", "text24": "string", "text32": "string", "boolean": "bool", "int64": "int64", "int8": "int32", "int16": "int32", "int24": "int32", "int32": "int32", "decimal": "double", "float": "float", "double": "double", "datetime": "google.protobuf.Timestamp", "binary": "bytes", "varbinary": "bytes", "blob8": "bytes", "blob16": "bytes", "blob24": "bytes", "blob32": "bytes"}

var pbScalars = map[string]bool{"double": true, "float": true, "int32": true, "int64": true, "uint32": true, "uint64": true, "sint32": true, "sint64": true, "fixed32": true, "fixed64": true, "sfixed32": true, "sfixed64": true, "bool": true, "string": true, "bytes": true}

var pbImport = map[string]string{"google.protobuf.Timestamp": "google/protobuf/timestamp.proto"}

func pbWant(h *Hist, s *Sch) (facts []string) {
	if v := h.Opt["package"]; v != "" {
		facts = append(facts, "package "+v)
	}
	if v := h.Opt["goPackage"]; v != "" {
		facts = append(facts, "option go_package = "+v)
	}
	tab := map[string]*Tab{}
	for _, t := range s.Tables {
		tab[t.Name] = t
	}
	start := -1
	if v := h.Opt["relStart"]; v != "" {
		start, _ = strconv.Atoi(v)
	}
	decr := h.Opt["relDecr"] != ""
	imp := false
	for _, t := range s.Tables {
		n := typeName(h, t, false)
		facts = append(facts, "message "+n)
		used := map[string]bool{}
		var rels []*Col
		for i, c := range t.Columns {
			ty := pbType[c.Type]
			if ty == "" {
				ty = "other"
			}
			imp = imp || c.Type == "datetime"
			used[camel(c.Name, false)] = true
			facts = append(facts, fmt.Sprintf("field %s.%s [%s = %d]", n, camel(c.Name, false), ty, i+1))
			if c.Ref != nil && tab[c.Ref.Table] != nil {
				rels = append(rels, c)
			}
		}
		k, max := len(rels), len(t.Columns)
		first := start
		if decr {
			if first-k+1 <= max {
				first = max + k
			}
		} else if first <= max {
			first = max + 1
		}
		for i, c := range rels {
			tag := first + i
			if decr {
				tag = first - i
			}
			m := typeName(h, tab[c.Ref.Table], false)
			nm := lowerFirst(m)
			if used[nm] {
				nm = "(another name)"
			}
			used[nm] = true
			facts = append(facts, fmt.Sprintf("field %s.%s [%s%s = %d]", n, nm, on(c.Ref.Relationship == "1:n", "repeated "), m, tag))
		}
	}
	if imp {
		facts = append(facts, "import google/protobuf/timestamp.proto")
	}
	return
}

var (
	pbLine  = regexp.MustCompile(`^(repeated )?([A-Za-z_][A-Za-z0-9_.]*) ([A-Za-z_][A-Za-z0-9_]*) = ([0-9]+);$`)
	pbMsg   = regexp.MustCompile(`^message ([A-Za-z_][A-Za-z0-9_]*) \{\s*(\})?$`)
	pbPkg   = regexp.MustCompile(`^package ([A-Za-z_][A-Za-z0-9_.]*);$`)
	pbOpt   = regexp.MustCompile(`^option ([a-z_]+) = "([^"]*)";$`)
	pbImpRe = regexp.MustCompile(`^import "([^"]*)";$`)
)

// pbFacts reads a definition. Names and types that are free (names of further
// relations, types of unusual columns) are given as the wanted facts give them.
func pbFacts(s string, want []string) (facts []string, msg string) {
	wanted := map[string]bool{}
	for _, w := range want {
		wanted[w] = true
	}
	type field struct{ msg, rep, ty, name, tag string }
	var fields []field
	msgs := map[string]bool{}
	imports := map[string]bool{}
	cur, seenSyntax := "", false
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if k := strings.Index(l, "//"); k == 0 || l == "" {
			continue
		}
		if !seenSyntax {
			if l != `syntax = "proto3";` {
				return nil, fmt.Sprintf("it begins with %q", l)
			}
			seenSyntax = true
			continue
		}
		if cur != "" {
			if l == "}" {
				cur = ""
				continue
			}
			m := pbLine.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Sprintf("%q is no field", l)
			}
			fields = append(fields, field{cur, m[1], m[2], m[3], m[4]})
			continue
		}
		if m := pbMsg.FindStringSubmatch(l); m != nil {
			if m[2] == "" {
				cur = m[1]
			}
			if msgs[m[1]] {
				return nil, "the message " + m[1] + " is defined twice"
			}
			msgs[m[1]] = true
			facts = append(facts, "message "+m[1])
		} else if m := pbPkg.FindStringSubmatch(l); m != nil {
			facts = append(facts, "package "+m[1])
		} else if m := pbOpt.FindStringSubmatch(l); m != nil {
			facts = append(facts, "option "+m[1]+" = "+m[2])
		} else if m := pbImpRe.FindStringSubmatch(l); m != nil {
			imports[m[1]] = true
			facts = append(facts, "import "+m[1])
		} else {
			return nil, fmt.Sprintf("%q is no statement", l)
		}
	}
	if cur != "" {
		return nil, "the message " + cur + " is not closed"
	}
	names, tags := map[string]bool{}, map[string]bool{}
	for _, f := range fields {
		if names[f.msg+"."+f.name] {
			return nil, "the field " + f.msg + "." + f.name + " is defined twice"
		}
		names[f.msg+"."+f.name] = true
		if tags[f.msg+"."+f.tag] || f.tag == "0" {
			return nil, "the tag " + f.tag + " of " + f.msg + "." + f.name + " is not unique and positive"
		}
		tags[f.msg+"."+f.tag] = true
		if i := pbImport[f.ty]; i != "" && !imports[i] {
			return nil, f.msg + "." + f.name + " needs an import of " + i
		}
		if !pbScalars[f.ty] && !msgs[f.ty] && pbImport[f.ty] == "" {
			return nil, "the type " + f.ty + " of " + f.msg + "." + f.name + " is not defined"
		}
		x := fmt.Sprintf("field %s.%s [%s%s = %s]", f.msg, f.name, f.rep, f.ty, f.tag)
		if !wanted[x] && pbScalars[f.ty] && f.rep == "" {
			if y := fmt.Sprintf("field %s.%s [other = %s]", f.msg, f.name, f.tag); wanted[y] {
				x = y
			}
		} else if !wanted[x] && msgs[f.ty] {
			if y := fmt.Sprintf("field %s.(another name) [%s%s = %s]", f.msg, f.rep, f.ty, f.tag); wanted[y] {
				x = y
			}
		}
		facts = append(facts, x)
	}
	return
}

// ---- GraphQL ----

var gqlType = map[string]string{"boolean": "Boolean", "int8": "Int", "int16": "Int", "int24": "Int", "int32": "Int", "int64": "Int", "decimal": "Float", "float": "Float", "double": "Float"}

func gqlWant(h *Hist, s *Sch) (facts []string) {
	for _, t := range s.Tables {
		n := typeName(h, t, true)
		facts = append(facts, "type "+n, "query for ["+n+"]")
		pk := 0
		for _, c := range t.Columns {
			if c.PK {
				pk++
			}
		}
		for i, c := range t.Columns {
			ty := gqlType[c.Type]
			if ty == "" {
				ty = "String"
			}
			ty += on(c.NotNull, "!")
			if c.PK && pk == 1 {
				ty = "ID!"
			}
			facts = append(facts, fmt.Sprintf("field %s.%s [#%d, %s]", n, camel(c.Name, false), i, ty))
		}
	}
	return
}

func gqlFacts(s string) (facts []string, msg string) {
	var tk []string
	for _, l := range strings.Split(s, "\n") {
		if k := strings.Index(l, "#"); k >= 0 {
			l = l[:k]
		}
		for _, m := range gqlToken.FindAllString(l, -1) {
			tk = append(tk, m)
		}
	}
	t := &tokens{t: tk}
	msg = parsing(func() {
		types, names := map[string]bool{"String": true, "Int": true, "Float": true, "Boolean": true, "ID": true}, map[string]bool{}
		var uses []string
		root := ""
		for t.i < len(t.t) {
			switch x := t.next(); x {
			case "schema":
				t.want("{")
				t.want("query")
				t.want(":")
				root = t.name()
				uses = append(uses, root)
				t.want("}")
			case "type":
				n := t.name()
				if types[n] {
					panic(parseErr("the type " + n + " is defined twice"))
				}
				types[n] = true
				if n != root {
					facts = append(facts, "type "+n)
				}
				t.want("{")
				for i := 0; t.peek() != "}"; i++ {
					f := t.name()
					if names[n+"."+f] {
						panic(parseErr("the field " + n + "." + f + " is defined twice"))
					}
					names[n+"."+f] = true
					t.want(":")
					ty := ""
					if t.peek() == "[" {
						t.next()
						e := t.name()
						uses = append(uses, e)
						ty = "[" + e + "]"
						t.want("]")
					} else {
						ty = t.name()
						uses = append(uses, ty)
					}
					if t.peek() == "!" {
						t.next()
						ty += "!"
					}
					if n == root {
						facts = append(facts, "query for "+ty)
						if e := strings.Trim(ty, "[]!"); !strings.HasPrefix(strings.ToLower(f), strings.ToLower(e)[:1]) {
							panic(parseErr("the query for " + e + " is named " + f))
						}
					} else {
						facts = append(facts, fmt.Sprintf("field %s.%s [#%d, %s]", n, f, i, ty))
					}
				}
				t.want("}")
			default:
				panic(parseErr(fmt.Sprintf("%q where a definition is expected", x)))
			}
		}
		for _, u := range uses {
			if !types[u] {
				panic(parseErr("the type " + u + " is not defined"))
			}
		}
		if root == "" {
			panic(parseErr("it has no schema"))
		}
	})
	return
}

var gqlToken = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*|\S`)

func init() {
	groups := optSpec{key: "groups", long: "groups", short: "g", env: "OCTOPUS_GROUPS"}
	pb := []optSpec{groups, {key: "goPackage", long: "goPackage", env: "OCTOPUS_GO_PACKAGE"}, {key: "package", long: "package", short: "p", env: "OCTOPUS_PACKAGE"}, {key: "prefix", long: "prefix", short: "f", env: "OCTOPUS_PREFIX"}, {key: "remove", long: "removePrefix", short: "d", env: "OCTOPUS_REMOVE_PREFIX"}, {key: "relDecr", long: "relationTagDecr", env: "OCTOPUS_RELATION_TAG_DECR", flag: true}, {key: "relStart", long: "relationTagStart", short: "s", env: "OCTOPUS_RELATION_TAG_START"}}
	histModels["generate pb"] = func(h *Hist) *histSetup { return genHist(pb, "generate", "pb")(h) }
	histModels["generate graphql"] = genHist([]optSpec{{key: "package", long: "graphqlPackage", short: "p", env: "OCTOPUS_GRAPHQL_PACKAGE"}}, "generate", "graphql")
	gen := func(r *rng) *Hist {
		h := &Hist{Opt: map[string]string{}, TextSeed: r.seed(), Schemas: []*Sch{genSchema(r, genOpt{})}}
		if r.p(1, 3) {
			h.Opt["alias"] = "1"
		}
		if r.p(1, 3) {
			h.Model = "generate graphql"
			h.Opt["out"] = r.pick([]string{"out", "out/gql", "out/a/b"})
			if r.p(1, 3) {
				h.Opt["package"] = "com.x.y"
			}
			clash(r, h, true)
			return h
		}
		h.Model = "generate pb"
		h.Opt["out"] = "out/db.proto"
		genGroups(r, h)
		genNaming(r, h)
		if r.p(1, 2) {
			h.Opt["package"] = r.pick([]string{"octopus", "com.x.y"})
		}
		if r.p(1, 2) {
			h.Opt["goPackage"] = r.pick([]string{"model", "x.org/y/z"})
		}
		if r.p(1, 2) {
			h.Opt["relStart"] = r.pick([]string{"-1", "1", "4", "7", "20", "100"})
		}
		if r.p(1, 3) {
			h.Opt["relDecr"] = "1"
		}
		// some tables with many references
		if s := h.Schemas[0]; r.p(1, 3) {
			t := s.Tables[r.n(len(s.Tables))]
			for k := 0; k < 2+r.n(3); k++ {
				o := s.Tables[r.n(len(s.Tables))]
				t.Columns = append(t.Columns, &Col{Name: fmt.Sprintf("ref%c_id", 'a'+k), Type: "int64", Ref: &Ref{Table: o.Name, Column: o.Columns[0].Name, Relationship: r.pick([]string{"n:1", "1:n", "1:1", ""})}})
			}
		}
		clash(r, h, false)
		return h
	}
	api := func(next func(h *Hist, res *Result) string) func(h *Hist, res *Result) string {
		return func(h *Hist, res *Result) string {
			return clashOracle(h.Model != "generate pb", together, next)(h, res)
		}
	}
	histProp("C19", "", 4000, 20000,
		"a history is a schema from which a GraphQL schema or protobuf definition is generated, with options in every documented spelling (long, short, with =, environment), with killed, power-lost and failing attempts before; the result is read by an independent reader that checks that it is well-formed (unique names and tags, defined types, needed imports) and compared fact by fact with the selected part of the schema; distinct: different system-call trace and final disk",
		gen, api(func(h *Hist, res *Result) string {
			f := h.Opt["out"]
			if h.Model == "generate graphql" {
				f += "/" + h.Schemas[0].Name + "-" + h.Schemas[0].Version + ".graphqls"
			}
			b, msg := artefact(res, f)
			if msg != "" {
				return msg
			}
			s := selected(h)
			var want, got []string
			if h.Model == "generate pb" {
				want = pbWant(h, s)
				got, msg = pbFacts(b, want)
			} else {
				want = gqlWant(h, s)
				got, msg = gqlFacts(b)
			}
			if msg == "" {
				msg = sameFacts("it", want, got)
			}
			if msg != "" {
				return h.Model + ": " + msg
			}
			return ""
		}))
}
