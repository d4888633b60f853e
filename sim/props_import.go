package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ------------------------------------------------------------------ C13
// Imports: what the foreign schema says is what the octopus schema says.

// schemaDiffers compares two schemas, "" when they say the same.
func schemaDiffers(want, got *Sch) string {
	str := func(what, a, b string) string {
		if a != b {
			return fmt.Sprintf("%s is %q instead of %q", what, b, a)
		}
		return ""
	}
	for _, m := range []string{str("the author", want.Author, got.Author), str("the name", want.Name, got.Name), str("the version", want.Version, got.Version)} {
		if m != "" {
			return m
		}
	}
	tabs := func(s *Sch) (l []string, m map[string]*Tab) {
		m = map[string]*Tab{}
		for _, t := range s.Tables {
			l = append(l, t.Name)
			m[t.Name] = t
		}
		sort.Strings(l)
		return
	}
	wl, wm := tabs(want)
	gl, gm := tabs(got)
	if a, b := strings.Join(wl, " "), strings.Join(gl, " "); a != b {
		return fmt.Sprintf("the tables are [%s] instead of [%s]", b, a)
	}
	for _, n := range wl {
		a, b := wm[n], gm[n]
		if m := str("the description of "+n, a.Desc, b.Desc); m != "" {
			return m
		}
		if m := str("the group of "+n, a.Group, b.Group); m != "" {
			return m
		}
		if m := str("the class name of "+n, a.Class, b.Class); m != "" {
			return m
		}
		cols := func(t *Tab) string {
			var l []string
			for _, c := range t.Columns {
				l = append(l, c.Name)
			}
			return strings.Join(l, " ")
		}
		if m := str("the columns of "+n, cols(a), cols(b)); m != "" {
			return m
		}
		for i := range a.Columns {
			if m := colDiffers(a.Columns[i], b.Columns[i]); m != "" {
				return "column " + n + "." + a.Columns[i].Name + ": " + m
			}
		}
		ix := func(t *Tab) string {
			var l []string
			for _, x := range t.Indices {
				l = append(l, x.Name+"("+strings.Join(x.Columns, ",")+")")
			}
			sort.Strings(l)
			return strings.Join(l, " ")
		}
		if m := str("the indices of "+n, ix(a), ix(b)); m != "" {
			return m
		}
	}
	return ""
}

func plainExpr(s string) string {
	if strings.HasPrefix(s, "fn::") {
		return "fn::" + strings.ToLower(strings.TrimSuffix(s[4:], "()"))
	}
	return plain(s)
}

func colDiffers(a, b *Col) string {
	f := func(c *Col) [][2]string {
		ref := ""
		if c.Ref != nil {
			ref = c.Ref.Table + "." + c.Ref.Column + " " + c.Ref.Relationship
		}
		return [][2]string{{"type", fmtType(c)}, {"description", c.Desc}, {"not null", fmt.Sprint(c.NotNull)}, {"primary key", fmt.Sprint(c.PK)}, {"unique", fmt.Sprint(c.Unique)}, {"auto increment", fmt.Sprint(c.AutoInc)}, {"default", plainExpr(c.Default)}, {"on update", plainExpr(c.OnUpd)}, {"values", strings.Join(c.Values, "|")}, {"reference", ref}}
	}
	x, y := f(a), f(b)
	for i := range x {
		if x[i] != y[i] {
			return fmt.Sprintf("%s is %q instead of %q", x[i][0], y[i][1], x[i][1])
		}
	}
	return ""
}

// alone-standing SQL names
var reserved = map[string]bool{"order": true, "from": true, "default": true, "class": false, "type": false, "value": false, "rank": true, "key": true, "group": true}

var sqlTypes = []string{"varchar", "char", "int8", "int16", "int24", "int32", "int64", "boolean", "decimal", "float", "double", "date", "datetime", "time", "year", "text8", "text16", "text24", "text32", "blob8", "blob16", "blob24", "blob32", "json", "enum", "set", "bit", "binary", "varbinary"}

// genSQLSchema generates what a SQL script can say about a schema.
func genSQLSchema(r *rng, g genOpt) *Sch {
	g.types = sqlTypes
	s := genSchema(r, g)
	noFns(s)
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if c.Default == "" && r.p(1, 4) && !c.AutoInc && !c.PK {
				switch c.Type {
				case "date":
					c.Default = "2020-02-29"
				case "datetime":
					c.Default = "2020-02-29 10:20:30"
				case "time":
					c.Default = "10:20:30"
				case "year":
					c.Default = "2020"
				case "decimal", "float", "double":
					c.Default = r.pick([]string{"0", "1.5", "-2.25"})
				case "int16", "int32", "int64":
					c.Default = r.pick([]string{"-1", "32767"})
				case "bit":
					c.Default = fmt.Sprint(r.n(4))
				case "set":
					c.Default = c.Values[0]
				case "varchar":
					if c.Size > 20 {
						c.Default = r.pick([]string{"it's", "a,b", "say \"hi\"", "x (y)", "back\\slash", "1.50", "true", "고객", "a;b", "-- no"})
					}
				}
			}
			if isInt(c.Type) && r.p(1, 4) {
				c.Size = []int{3, 5, 8, 11, 20}[r.n(5)]
			}
			if len(c.Values) > 0 && !g.simple && r.p(1, 3) {
				c.Values = append(c.Values, r.pick([]string{"it's", "a b", "x(y)", "高", "back\\slash", "50%"}))
			}
		}
	}
	return s
}

func sqlString(r *rng, s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	if r.p(1, 8) {
		return `"` + strings.ReplaceAll(s, `"`, r.pick([]string{`""`, `\"`})) + `"`
	}
	if r.p(1, 2) {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return "'" + strings.ReplaceAll(s, "'", `\'`) + "'"
}

// renderSQL writes a schema as a SQL script, in one of the many ways scripts
// look like.
func renderSQL(s *Sch, seed uint64) []byte {
	var b strings.Builder
	top := newRng(seed, "sql")
	style := top.n(3)
	kw := func(x string) string {
		if style == 1 {
			return strings.ToLower(x)
		}
		return x
	}
	name := func(r *rng, n string) string {
		if style != 0 && !reserved[strings.ToLower(n)] && r.p(1, 3) && strings.ToLower(n) != "default" {
			return n
		}
		return "`" + n + "`"
	}
	// names of columns are case-insensitive
	key := func(r *rng, n string, part bool) string {
		if r.p(1, 20) {
			n = strings.ToUpper(n)
		}
		if style != 0 && !reserved[strings.ToLower(n)] && strings.ToLower(n) != "default" && r.p(1, 3) {
			// unquoted
		} else {
			n = "`" + n + "`"
		}
		if part && r.p(1, 6) {
			n += r.pick([]string{" ASC", " desc"})
		}
		return n
	}
	db := ""
	if top.p(1, 8) {
		db = top.pick([]string{"shop", "`my-db`"}) + "."
	}
	if top.p(1, 3) {
		b.WriteString("-- MySQL dump 10.13  Distrib 5.7.31; it's a dump\n/*!40101 SET NAMES utf8mb4 */;\nSET FOREIGN_KEY_CHECKS = 0;\n\n")
	}
	for _, t := range s.Tables {
		r := newRng(seed, "sql", t.Name)
		if r.p(1, 3) {
			fmt.Fprintf(&b, "%s `%s`;\n", kw("DROP TABLE IF EXISTS"), t.Name)
		}
		if r.p(1, 6) {
			b.WriteString("# generated\n")
		}
		fmt.Fprintf(&b, "%s %s%s (\n", kw("CREATE TABLE"), r.pick([]string{"", "IF NOT EXISTS "}), db+name(r, t.Name))
		var lines []string
		var pk, uq []string
		npk := 0
		for _, c := range t.Columns {
			if c.PK {
				npk++
			}
		}
		for _, c := range t.Columns {
			r := newRng(seed, "sql", t.Name, c.Name)
			ty := sqlTypeOf(r, c)
			if style == 1 {
				ty = ty[:len(ty)-len(strings.TrimLeft(ty, "abcdefghijklmnopqrstuvwxyz"))] + strings.TrimLeft(ty, "abcdefghijklmnopqrstuvwxyz")
			} else if style == 2 {
				i := len(ty) - len(strings.TrimLeft(ty, "abcdefghijklmnopqrstuvwxyz"))
				ty = strings.ToUpper(ty[:i]) + ty[i:]
			}
			l := "  " + name(r, c.Name) + " " + ty
			if isInt(c.Type) && r.p(1, 6) {
				l += kw(" UNSIGNED")
			}
			if (c.Type == "varchar" || c.Type == "char") && r.p(1, 8) {
				l += " CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"
			}
			inlinePK := c.PK && npk == 1 && c.NotNull && r.p(1, 4)
			if inlinePK {
				l += kw(" PRIMARY KEY")
			}
			if c.NotNull && (!inlinePK || r.p(1, 2)) && !(c.AutoInc && r.p(1, 3)) {
				l += kw(" NOT NULL")
			} else if !c.NotNull && r.p(1, 3) {
				l += kw(" NULL")
			}
			if c.AutoInc {
				l += kw(" AUTO_INCREMENT")
			} else if c.Default != "" {
				l += kw(" DEFAULT ") + sqlDefault(r, c, ty)
			} else if !c.NotNull && r.p(1, 3) {
				l += kw(" DEFAULT NULL")
			}
			if c.OnUpd != "" {
				l += kw(" ON UPDATE ") + c.OnUpd[4:] + r.pick([]string{"", "()"})
			}
			inlineUq := c.Unique && r.p(1, 4)
			if inlineUq {
				l += kw(r.pick([]string{" UNIQUE", " UNIQUE KEY"}))
			}
			if c.Desc != "" {
				l += kw(" COMMENT ") + sqlString(r, c.Desc)
			}
			lines = append(lines, l)
			if c.PK && !inlinePK {
				pk = append(pk, key(r, c.Name, false))
			}
			if c.Unique && !inlineUq {
				uq = append(uq, key(r, c.Name, true))
			}
		}
		if len(pk) > 0 {
			lines = append(lines, "  "+r.pick([]string{"", "CONSTRAINT `pk_" + t.Name + "` "})+kw("PRIMARY KEY")+" ("+strings.Join(pk, r.pick([]string{", ", ","}))+")")
		}
		if len(uq) > 0 {
			if r.p(1, 2) {
				lines = append(lines, "  "+r.pick([]string{"UNIQUE KEY", "UNIQUE INDEX", "CONSTRAINT `uq` UNIQUE", "UNIQUE"})+" `uq_"+t.Name+"` ("+strings.Join(uq, ", ")+")")
			} else {
				for i, u := range uq {
					lines = append(lines, fmt.Sprintf("  UNIQUE KEY `uq_%s_%d` (%s)", t.Name, i, u))
				}
			}
		}
		for _, i := range t.Indices {
			var parts []string
			for _, n := range i.Columns {
				k := "`" + n + "`"
				if c := t.col(n); c != nil && c.Type == "varchar" && c.Size > 20 && r.p(1, 6) {
					k += "(10)"
				}
				parts = append(parts, k)
			}
			lines = append(lines, fmt.Sprintf("  %s `%s` (%s)%s", kw(r.pick([]string{"KEY", "INDEX"})), i.Name, strings.Join(parts, ", "), r.pick([]string{"", "", " USING BTREE"})))
		}
		for i := range lines {
			if r.p(1, 20) {
				lines[i] = r.pick([]string{"  -- it's the next one, (not) the last;\n", "  /* a ',' in a comment */\n", "  # note\n"}) + lines[i]
			}
		}
		b.WriteString(strings.Join(lines, ",\n"))
		b.WriteString("\n)" + r.pick([]string{"", " ENGINE=InnoDB", " ENGINE=InnoDB AUTO_INCREMENT=7 DEFAULT CHARSET=utf8mb4"}))
		if t.Desc != "" {
			b.WriteString(r.pick([]string{" COMMENT=", " COMMENT ", " COMMENT = "}) + sqlString(r, t.Desc))
		}
		b.WriteString(";\n\n")
		if r.p(1, 6) {
			fmt.Fprintf(&b, "INSERT INTO `%s` VALUES (1, 'x; y');\n", t.Name)
		}
	}
	if top.p(1, 6) {
		b.WriteString("/*!40101 SET SQL_MODE=@OLD_SQL_MODE */;\n")
	}
	if top.p(1, 8) {
		return []byte(strings.ReplaceAll(b.String(), "\n", "\r\n"))
	}
	return []byte(b.String())
}

func sqlTypeOf(r *rng, c *Col) string {
	sz := func(n string) string {
		if c.Size > 0 {
			return fmt.Sprintf("%s(%d)", n, c.Size)
		}
		return n
	}
	switch c.Type {
	case "int8":
		return sz("tinyint")
	case "int16":
		return sz("smallint")
	case "int24":
		return sz("mediumint")
	case "int32":
		return sz(r.pick([]string{"int", "integer"}))
	case "int64":
		return sz("bigint")
	case "boolean":
		return r.pick([]string{"bit(1)", "tinyint(1)", "bool", "boolean"})
	case "decimal":
		if c.Scale == 0 && r.p(1, 2) {
			return fmt.Sprintf("decimal(%d)", c.Size)
		}
		return fmt.Sprintf("%s(%d,%s%d)", r.pick([]string{"decimal", "numeric"}), c.Size, r.pick([]string{"", " "}), c.Scale)
	case "float", "double":
		if c.Size > 0 {
			return fmt.Sprintf("%s(%d,%d)", c.Type, c.Size, c.Scale)
		}
		return c.Type
	case "text8", "text16", "text24", "text32", "blob8", "blob16", "blob24", "blob32":
		return map[string]string{"8": "tiny", "16": "", "24": "medium", "32": "long"}[c.Type[4:]] + c.Type[:4]
	case "enum", "set":
		var l []string
		for _, v := range c.Values {
			l = append(l, sqlString(r, v))
		}
		return c.Type + "(" + strings.Join(l, r.pick([]string{",", ", "})) + ")"
	case "datetime":
		return r.pick([]string{"datetime", "timestamp"})
	}
	return sz(c.Type)
}

func sqlDefault(r *rng, c *Col, ty string) string {
	d := c.Default
	if strings.HasPrefix(d, "fn::") {
		return d[4:] + r.pick([]string{"", "()"})
	}
	switch c.Type {
	case "boolean":
		d = plain(d)
		if strings.HasPrefix(strings.ToLower(ty), "bit") && r.p(1, 3) {
			return "b'" + d + "'"
		}
		return r.pick([]string{d, "'" + d + "'", map[string]string{"0": "false", "1": "TRUE"}[d]})
	case "bit":
		var n int
		fmt.Sscan(d, &n)
		return r.pick([]string{d, fmt.Sprintf("b'%b'", n)})
	case "int8", "int16", "int24", "int32", "int64", "decimal", "float", "double", "year":
		return r.pick([]string{d, "'" + d + "'"})
	}
	return sqlString(r, d)
}

// importHist is one import; the schema in h.Schemas[0] is the truth.
func importHist(kind, ext string, render func(h *Hist) []byte) func(h *Hist) *histSetup {
	return func(h *Hist) *histSetup {
		in := "db/in" + ext
		argv := []string{"import", kind, "-i", in, "-o", "out/db.json"}
		if v := h.Opt["author"]; v != "" {
			argv = append(argv, "--author", v)
		}
		if v := h.Opt["version"]; v != "" {
			argv = append(argv, "--version", v)
		}
		if v := h.Opt["excludes"]; v != "" {
			argv = append(argv, "--excludes", v)
		}
		s := &histSetup{Files: map[string][]byte{"/home/u/" + in: render(h)}, Dirs: []string{"/home/u/out"}}
		s.Cmds = append(s.Cmds, HCmd{Argv: argv})
		return s
	}
}

func importOracle(want func(h *Hist) *Sch) func(h *Hist, res *Result) string {
	return func(h *Hist, res *Result) string {
		b, ok := res.Final["/home/u/out/db.json"]
		if h.Opt["oversize"] != "" && res.Procs[len(res.Procs)-1].Exit != 0 {
			if ok {
				return h.Model + ": a schema that cannot be held is refused, but out/db.json exists"
			}
			return ""
		}
		if !ok {
			return "out/db.json is missing"
		}
		var got Sch
		if err := json.Unmarshal([]byte(b), &got); err != nil {
			return "out/db.json: " + err.Error()
		}
		if m := schemaDiffers(want(h), &got); m != "" {
			return h.Model + ": " + m
		}
		return ""
	}
}

// refused: nothing was imported, and the last command says so.
func refused(res *Result) bool {
	_, ok := res.Final["/home/u/out/db.json"]
	return !ok && res.Procs[len(res.Procs)-1].Exit != 0
}

// oversize gives a column a size no octopus schema can state: the schema is
// refused, or the size is kept.
func oversize(r *rng, h *Hist) {
	if !r.p(1, 12) {
		return
	}
	t := h.Schemas[0].Tables[r.n(len(h.Schemas[0].Tables))]
	for _, c := range t.Columns {
		if (c.Type == "varchar" || c.Type == "varbinary") && c.Size > 0 {
			c.Size = 65536 + r.n(5)*r.n(20000)
			h.Opt["oversize"] = "1"
			return
		}
	}
}

func withoutGroups(s *Sch) *Sch {
	s = s.clone()
	s.Author, s.Name, s.Version = "", "", ""
	for _, t := range s.Tables {
		t.Group, t.Class = "", ""
		for _, c := range t.Columns {
			c.Ref = nil
			if c.AutoInc {
				c.NotNull = true
			}
		}
	}
	return s
}

func dropTabs(s *Sch, keep func(t *Tab) bool) *Sch {
	var l []*Tab
	for _, t := range s.Tables {
		if keep(t) {
			l = append(l, t)
		}
	}
	s.Tables = l
	return s
}

var ojsonTypes = map[string]string{"string": "varchar", "varchar": "varchar", "char": "varchar", "text": "text16", "int": "int32", "integer": "int32", "smallint": "int32", "long": "int64", "bigint": "int64", "boolean": "boolean", "bool": "boolean", "date": "date", "datetime": "datetime", "number": "decimal", "decimal": "decimal", "double": "decimal", "float": "float", "time": "time", "blob": "blob16"}

func genOjsonSchema(r *rng) *Sch {
	ty := sortedKeys(ojsonTypes)
	s := genSchema(r, genOpt{noIndex: true, types: []string{"varchar", "text16", "int32", "int64", "boolean", "date", "datetime", "decimal", "float", "time", "blob16"}})
	noFns(s)
	back := map[string][]string{}
	for _, o := range ty {
		back[ojsonTypes[o]] = append(back[ojsonTypes[o]], o)
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			c.Type = r.pick(back[c.Type])
			if r.p(1, 6) {
				c.Type = strings.ToUpper(c.Type)
			}
			c.OnUpd = ""
			if strings.HasPrefix(c.Default, "fn::") {
				c.Default = ""
			}
			if c.Ref != nil {
				c.Ref.Relationship = ""
			}
		}
	}
	return s
}

// renderOjson writes a schema in the octopus v1 format.
func renderOjson(s *Sch) []byte {
	type m = map[string]interface{}
	put := func(x m, k, v string) {
		if v != "" {
			x[k] = v
		}
	}
	on := func(x m, k string, v bool) {
		if v {
			x[k] = true
		}
	}
	tabs := []m{}
	for _, t := range s.Tables {
		cols := []m{}
		for _, c := range t.Columns {
			x := m{"name": c.Name, "type": c.Type}
			put(x, "description", c.Desc)
			put(x, "default", c.Default)
			on(x, "notnull", c.NotNull)
			on(x, "pk", c.PK)
			on(x, "unique", c.Unique)
			on(x, "autoinc", c.AutoInc)
			if c.Size > 0 {
				x["size"] = c.Size
			}
			if c.Scale > 0 {
				x["scale"] = c.Scale
			}
			if c.Ref != nil {
				x["ref"] = m{"table": c.Ref.Table, "column": c.Ref.Column}
			}
			cols = append(cols, x)
		}
		x := m{"name": t.Name, "columns": cols}
		put(x, "desc", t.Desc)
		put(x, "group", t.Group)
		put(x, "className", t.Class)
		tabs = append(tabs, x)
	}
	d := m{"tables": tabs}
	put(d, "author", s.Author)
	put(d, "name", s.Name)
	put(d, "version", s.Version)
	b, _ := json.MarshalIndent(d, "", "  ")
	return b
}

func renderStaruml(s *Sch, seed uint64) []byte {
	type m = map[string]interface{}
	nid := func(k string) string { return fmt.Sprintf("AAAAAA%08x", newRng(seed, "id", k).u64()>>32) }
	var ents []interface{}
	for _, t := range s.Tables {
		var cols []interface{}
		for _, c := range t.Columns {
			r := newRng(seed, "uml", t.Name, c.Name)
			cm := m{"_type": "ERDColumn", "_id": nid(t.Name + "." + c.Name), "_parent": m{"$ref": nid(t.Name)}, "name": c.Name, "type": c.Type}
			if r.p(1, 2) {
				cm["type"] = strings.ToUpper(c.Type)
			}
			switch {
			case c.Scale > 0:
				cm["type"] = fmt.Sprintf("%s(%d,%s%d)", c.Type, c.Size, r.pick([]string{"", " "}), c.Scale)
			case c.Size > 0:
				switch r.n(3) {
				case 0:
					cm["length"] = c.Size
				case 1:
					cm["length"] = fmt.Sprint(c.Size)
				default:
					cm["type"] = fmt.Sprintf("%s(%d)", c.Type, c.Size)
				}
			}
			if c.PK {
				cm["primaryKey"] = true
			}
			if c.Unique {
				cm["unique"] = true
			}
			if !c.NotNull {
				cm["nullable"] = true
			} else if r.p(1, 2) {
				cm["nullable"] = false
			}
			if c.Desc != "" {
				cm["documentation"] = c.Desc + r.pick([]string{"", "\n"})
			}
			if c.Ref != nil {
				cm["foreignKey"] = true
				cm["referenceTo"] = m{"$ref": nid(c.Ref.Table + "." + c.Ref.Column)}
			}
			cols = append(cols, cm)
		}
		e := m{"_type": "ERDEntity", "_id": nid(t.Name), "name": t.Name, "columns": cols}
		r := newRng(seed, "uml", t.Name)
		if t.Desc != "" {
			e["documentation"] = r.pick([]string{"", "", "\n"}) + t.Desc
		}
		if r.p(1, 2) {
			e["ownedElements"] = []interface{}{m{"_type": "ERDRelationship", "_id": nid("rel" + t.Name), "name": ""}}
		}
		if r.p(1, 3) {
			ents = append(ents, m{"_type": "ERDDiagram", "_id": nid("dia" + t.Name), "name": "Diagram", "ownedViews": []interface{}{m{"_type": "ERDEntityView", "_id": nid("view" + t.Name)}}})
		}
		ents = append(ents, e)
	}
	elems := []interface{}{m{"_type": "UMLModel", "_id": nid("um"), "name": "Model"}}
	r := newRng(seed, "uml")
	for k, cut := 1, 0; cut < len(ents); k++ {
		n := len(ents) - cut
		if r.p(1, 4) {
			n = 1 + r.n(n)
		}
		elems = append(elems, m{"_type": "ERDDataModel", "_id": nid(fmt.Sprint("dm", k)), "name": fmt.Sprint("Data Model", k), "ownedElements": ents[cut : cut+n]})
		cut += n
	}
	doc := m{"_type": "Project", "_id": nid("proj"), "name": s.Version, "ownedElements": elems}
	b, _ := json.MarshalIndent(doc, "", "\t")
	return b
}

func init() {
	histModels["import mysql"] = importHist("mysql", ".sql", func(h *Hist) []byte { return renderSQL(h.Schemas[0], h.TextSeed) })
	histModels["import ojson"] = importHist("ojson", ".ojson", func(h *Hist) []byte { return renderOjson(h.Schemas[0]) })
	histModels["import staruml"] = importHist("staruml", ".mdj", func(h *Hist) []byte { return renderStaruml(h.Schemas[0], h.TextSeed) })
	histModels["export mysql, import mysql"] = func(h *Hist) *histSetup {
		s := &histSetup{Files: map[string][]byte{"/home/u/db.json": asWritten(h, 0)}, Dirs: []string{"/home/u/out"}}
		ex := []string{"export", "mysql", "-i", "db.json", "-o", "out/db.sql"}
		if v, ok := h.Opt["groups"]; ok {
			ex = append(ex, "-g", v)
		}
		if v := h.Opt["suffix"]; v != "" {
			ex = append(ex, "-u", v)
		}
		im := []string{"import", "mysql", "-i", "out/db.sql", "-o", "out/db.json"}
		if v := h.Opt["excludes"]; v != "" {
			im = append(im, "-x", v)
		}
		s.Cmds = append(s.Cmds, HCmd{Argv: ex}, HCmd{Argv: im})
		if h.Opt["again"] != "" {
			s.Cmds = append(s.Cmds, HCmd{Argv: []string{"export", "mysql", "-i", "out/db.json", "-o", "out/db2.sql"}}, HCmd{Argv: []string{"import", "mysql", "-i", "out/db2.sql", "-o", "out/db.json"}})
		}
		return s
	}
	excluded := func(h *Hist, s *Sch) *Sch {
		x := strings.Split(h.Opt["excludes"], ",")
		return dropTabs(s, func(t *Tab) bool { return !has(x, t.Name) })
	}
	wants := map[string]func(h *Hist) *Sch{
		"import mysql": func(h *Hist) *Sch {
			s := excluded(h, withoutGroups(h.Schemas[0]))
			s.Author, s.Version = h.Opt["author"], h.Opt["version"]
			return s
		},
		"export mysql, import mysql": func(h *Hist) *Sch {
			s := h.Schemas[0].clone()
			if v, ok := h.Opt["groups"]; ok {
				g := strings.Split(v, ",")
				dropTabs(s, func(t *Tab) bool { return has(g, t.Group) })
			}
			return excluded(h, withoutGroups(s))
		},
		"import ojson": func(h *Hist) *Sch {
			s := h.Schemas[0].clone()
			for _, t := range s.Tables {
				for _, c := range t.Columns {
					c.Type = ojsonTypes[strings.ToLower(c.Type)]
				}
			}
			return s
		},
		"import staruml": func(h *Hist) *Sch {
			s := h.Schemas[0].clone()
			s.Author, s.Name = "", ""
			for _, t := range s.Tables {
				t.Group, t.Class = "", ""
				for _, c := range t.Columns {
					c.AutoInc, c.Default, c.OnUpd = false, "", ""
				}
			}
			return s
		},
	}
	gen := func(r *rng) *Hist {
		h := &Hist{Opt: map[string]string{}, TextSeed: r.seed()}
		excl := func() {
			if r.p(1, 4) {
				h.Opt["excludes"] = h.Schemas[0].Tables[r.n(len(h.Schemas[0].Tables))].Name + r.pick([]string{"", ",zzz"})
			}
		}
		switch r.n(6) {
		case 0, 1:
			h.Model = "import mysql"
			h.Schemas = []*Sch{genSQLSchema(r, genOpt{noRefs: true, simple: r.p(1, 3)})}
			if r.p(1, 3) {
				h.Opt["author"] = "kim"
			}
			if r.p(1, 3) {
				h.Opt["version"] = "3.1"
			}
			excl()
			oversize(r, h)
		case 2:
			h.Model = "import ojson"
			h.Schemas = []*Sch{genOjsonSchema(r)}
			oversize(r, h)
		case 3:
			h.Model = "import staruml"
			s := genSchema(r, genOpt{noIndex: true, noValues: true})
			noFns(s)
			for _, t := range s.Tables {
				for _, c := range t.Columns {
					if c.Ref != nil {
						c.Ref.Relationship = ""
					}
				}
			}
			h.Schemas = []*Sch{s}
			oversize(r, h)
		default:
			h.Model = "export mysql, import mysql"
			h.Schemas = []*Sch{genSQLSchema(r, genOpt{simple: r.p(1, 3)})}
			if r.p(2, 3) {
				plainNames(h.Schemas[0])
			}
			if r.p(1, 3) {
				h.Opt["groups"] = r.pick(h.Schemas[0].groups())
				if h.Opt["groups"] == "" {
					delete(h.Opt, "groups")
				}
			}
			if r.p(1, 3) {
				h.Opt["suffix"] = "_uq"
			}
			if r.p(1, 3) {
				h.Opt["again"] = "1"
			}
			excl()
		}
		return h
	}
	histProp("C13", "", 4000, 20000,
		"a history is a foreign schema (SQL script in many styles, octopus v1 file, StarUML model) that is imported, or a schema exported to SQL and imported again, with killed, power-lost and failing attempts before; the imported schema is compared attribute by attribute with the schema the input was written from; distinct: different system-call trace and final disk",
		gen, func(h *Hist, res *Result) string { return importOracle(wants[h.Model])(h, res) })
	knownKey("C13", func(h *Hist, msg string) string {
		if m := nearWord.FindStringSubmatch(msg); m != nil && h.Model == "export mysql, import mysql" && reserved[strings.ToLower(m[1])] && hasName(h.Schemas[0], m[1]) {
			return "export mysql: reserved word as name"
		}
		return ""
	})
}

// knownKey gives the violations of a property that are listed as known
// findings their identity.
func knownKey(id string, key func(h *Hist, msg string) string) {
	p := properties[id]
	judge := p.Judge
	p.Judge = func(env *Env, c *Case) Verdict {
		v := judge(env, c)
		if v.Msg != "" {
			v.Key = key(c.Hist, v.Msg)
		}
		return v
	}
}

var nearWord = regexp.MustCompile(`^oct import mysql .* fails although no fault is left: exit 1: .*near "([A-Za-z]+) `)

func hasName(s *Sch, n string) bool {
	for _, t := range s.Tables {
		if t.Name == n {
			return true
		}
		for _, c := range t.Columns {
			if c.Name == n {
				return true
			}
		}
	}
	return false
}

// plainNames keeps names that need quotes in SQL out of a schema.
// noFns drops default functions that MySQL does not take without parentheses.
func noFns(s *Sch) {
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if c.Default == "fn::UUID" {
				c.Default = ""
			}
		}
	}
}

func plainNames(s *Sch) {
	for _, t := range s.Tables {
		if reserved[strings.ToLower(t.Name)] {
			old := t.Name
			t.Name += "_t"
			for _, x := range s.Tables {
				for _, c := range x.Columns {
					if c.Ref != nil && c.Ref.Table == old {
						c.Ref.Table = t.Name
					}
				}
			}
		}
		for _, c := range t.Columns {
			if reserved[strings.ToLower(c.Name)] {
				old := c.Name
				c.Name += "_c"
				renameUses(s, t, old, c.Name)
			}
		}
	}
}
