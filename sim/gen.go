package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Generators of schemas in every input language of the tool.

type Ref struct {
	Table        string `json:"table,omitempty"`
	Column       string `json:"column,omitempty"`
	Relationship string `json:"relationship,omitempty"`
}

type Col struct {
	Name    string   `json:"name"`
	Type    string   `json:"type"`
	Desc    string   `json:"desc,omitempty"`
	Size    int      `json:"size,omitempty"`
	Scale   int      `json:"scale,omitempty"`
	NotNull bool     `json:"notnull,omitempty"`
	PK      bool     `json:"pk,omitempty"`
	Unique  bool     `json:"unique,omitempty"`
	AutoInc bool     `json:"autoinc,omitempty"`
	Default string   `json:"default,omitempty"`
	OnUpd   string   `json:"onupdate,omitempty"`
	Values  []string `json:"values,omitempty"`
	Ref     *Ref     `json:"ref,omitempty"`
}

type Idx struct {
	Name    string   `json:"name"`
	Columns []string `json:"columns"`
}

type Tab struct {
	Name    string `json:"name,omitempty"`
	Columns []*Col `json:"columns,omitempty"`
	Desc    string `json:"desc,omitempty"`
	Group   string `json:"group,omitempty"`
	Class   string `json:"className,omitempty"`
	Indices []*Idx `json:"indices,omitempty"`
}

type Sch struct {
	Author  string `json:"author,omitempty"`
	Name    string `json:"name,omitempty"`
	Version string `json:"version,omitempty"`
	Tables  []*Tab `json:"tables,omitempty"`
}

func (s *Sch) json() []byte {
	b, err := json.MarshalIndent(s, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Sch) clone() *Sch {
	var t Sch
	json.Unmarshal(s.json(), &t)
	return &t
}

func (s *Sch) tab(name string) *Tab {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (s *Sch) groups() []string {
	seen := map[string]bool{}
	var out []string
	for _, t := range s.Tables {
		if !seen[t.Group] {
			seen[t.Group] = true
			out = append(out, t.Group)
		}
	}
	return out
}

var nouns = []string{"user", "account", "order", "item", "category", "address", "payment", "invoice", "product", "city", "company", "box", "bus", "person", "child", "status", "stock", "role", "event", "message", "session", "ticket", "policy", "branch", "leaf", "news", "series", "audit_log", "mouse", "day"}
var colNouns = []string{"name", "title", "code", "kind", "amount", "price", "total", "email", "phone", "memo", "body", "flag", "level", "rank", "color", "width", "height", "begin_at", "end_at", "created_at", "updated_at", "deleted", "is_open", "url", "api_key", "class", "from", "type", "order", "default", "import", "value", "count", "ratio", "x1", "y2"}
var prefixes0 = []string{"", "", "tb_", "t_", "app_"}

type genOpt struct {
	types    []string // nil: all
	noValues bool
	simple   bool // names and descriptions restricted to what text formats keep
	noRefs   bool
	noIndex  bool
	big      bool
	pk       bool // every table has a primary key
	noClass  bool
	oneGroup bool
}

var allTypes = []string{"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime", "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json", "point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year"}
var aliasTypes = []string{"string", "tinyint", "smallint", "mediumint", "int", "integer", "bigint", "long", "numeric", "real", "timestamp", "tinyblob", "blob", "mediumblob", "longblob", "tinytext", "text", "mediumtext", "longtext", "VARCHAR", "BigInt", "Text"}

func isInt(t string) bool { return strings.HasPrefix(t, "int") }

func uniqNames(r *rng, base []string, n int, decorate func(i int, s string) string) []string {
	seen := map[string]bool{}
	var out []string
	for i := 0; len(out) < n; i++ {
		s := base[r.n(len(base))]
		if len(out) > 0 && r.p(1, 12) {
			s = r.pick([]string{"old_", "my_"}) + r.pick(out)
		}
		if seen[s] {
			s = fmt.Sprintf("%s%s", s, []string{"_sub", "_ext", "_of", "_aux"}[r.n(4)])
			if seen[s] {
				s = fmt.Sprintf("%s%c%c", s, 'a'+rune(r.n(26)), 'a'+rune(r.n(26)))
			}
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		out = append(out, decorate(len(out), s))
	}
	return out
}

var words = []string{"main", "record", "of", "the", "customer", "legacy", "unique", "id", "shipping", "price in cents", "see wiki", "deprecated", "고객", "größe", "naïve", "100%", "a/b", "x<y", "it's", "say \"hi\"", "#1", "back\\slash", "c:\\", "\\\\n", "a|b", "$var", "{b}", "tab"}

func (g *genOpt) text(r *rng) string {
	if r.p(1, 3) {
		return ""
	}
	n := 1 + r.n(4)
	var p []string
	lim := len(words)
	if g.simple {
		lim = 14
	}
	for i := 0; i < n; i++ {
		p = append(p, words[r.n(lim)])
	}
	return strings.Join(p, " ")
}

func genSchema(r *rng, g genOpt) *Sch {
	s := &Sch{Name: r.pick([]string{"shop", "crm", "db", "myapp"}), Version: r.pick([]string{"1", "1.0.2", "2.0.0-beta", "1.0.0", "2.0", "v3"}), Author: r.pick([]string{"", "kim", "lee@example.com", "Jane Doe"})}
	n := 1 + r.n(4)
	if r.p(1, 8) {
		n = 5 + r.n(8)
	}
	if g.big {
		n = 12 + r.n(30)
	}
	gr := []string{"", "common", "user", "shop", "admin"}
	ng := 1 + r.n(4)
	r.shuffle(len(gr), func(i, j int) { gr[i], gr[j] = gr[j], gr[i] })
	gr = gr[:ng]
	if g.oneGroup {
		gr = gr[:1]
	}
	pfx := r.pick(prefixes0)
	names := uniqNames(r, nouns, n, func(i int, t string) string {
		if r.p(1, 4) {
			return t
		}
		return pfx + t
	})
	// names that merge into one another once prefixes are stripped would
	// collide in the generated code; keep stems distinct
	stems := map[string]bool{}
	for i, nm := range names {
		st := strings.TrimPrefix(nm, pfx)
		if stems[st] {
			names[i] = nm + "_alt"
			st += "_alt"
		}
		stems[st] = true
	}
	if r.p(1, 10) {
		for i, nm := range names {
			names[i] = camel(nm, r.p(2, 3))
		}
	}
	for _, nm := range names {
		t := &Tab{Name: nm, Group: r.pick(gr), Desc: g.text(r)}
		if !g.noClass && r.p(1, 6) {
			t.Class = strings.ToUpper(nm[:1]) + strings.ReplaceAll(nm[1:], "_", "") + r.pick([]string{"Model", "Model", "V2", "_V2", "DTO", "model"})
		}
		g.columns(r, t)
		s.Tables = append(s.Tables, t)
	}
	if !g.noRefs {
		for _, t := range s.Tables {
			for _, c := range t.Columns {
				if c.PK || !r.p(1, 5) || c.Type == "enum" || c.Type == "set" {
					continue
				}
				o := s.Tables[r.n(len(s.Tables))]
				oc := o.Columns[r.n(len(o.Columns))]
				for _, x := range o.Columns {
					if x.PK {
						oc = x
						break
					}
				}
				if oc == c {
					continue
				}
				c.Ref = &Ref{Table: o.Name, Column: oc.Name, Relationship: r.pick([]string{"n:1", "n:1", "1:1", "1:n", ""})}
				if g.simple {
					c.Ref.Relationship = "n:1"
				}
			}
		}
	}
	return s
}

func (g *genOpt) columns(r *rng, t *Tab) {
	m := 1 + r.n(6)
	if g.big {
		m = 3 + r.n(8)
	}
	cn := uniqNames(r, colNouns, m, func(i int, s string) string { return s })
	defer letterCase(r, t)
	defer func() {
		if r.p(1, 8) { // keys need not come first
			r.shuffle(len(t.Columns), func(i, j int) { t.Columns[i], t.Columns[j] = t.Columns[j], t.Columns[i] })
		}
	}()
	pkm := r.n(10)
	if g.pk && pkm == 9 {
		pkm = 0
	}
	switch {
	case pkm < 7: // single generated key
		id := &Col{Name: r.pick([]string{"id", "id", t.Name + "_id"}), Type: r.pick([]string{"int64", "int32"}), PK: true, NotNull: true, AutoInc: r.p(2, 3)}
		if g.types == nil && !g.simple && r.p(1, 6) {
			id.Type, id.AutoInc = "varchar", false
			id.Size = 36
		}
		t.Columns = append(t.Columns, id)
	case pkm < 9: // composite
		t.Columns = append(t.Columns, &Col{Name: "a_id", Type: "int64", PK: true, NotNull: true}, &Col{Name: "b_id", Type: "int32", PK: true, NotNull: true})
	}
	for _, c := range t.Columns {
		c.Unique = r.p(1, 15)
	}
	ty := allTypes
	if g.types != nil {
		ty = g.types
	}
	for _, c := range cn {
		col := &Col{Name: c, Desc: g.text(r), NotNull: r.p(1, 2)}
		for {
			if r.p(1, 3) {
				col.Type = r.pick([]string{"varchar", "int64", "datetime", "int32", "boolean", "decimal"})
			} else {
				col.Type = r.pick(ty)
			}
			if g.types != nil && !has(g.types, col.Type) {
				continue
			}
			if g.noValues && (col.Type == "enum" || col.Type == "set") {
				continue
			}
			break
		}
		switch col.Type {
		case "varchar", "varbinary":
			col.Size = 1 + r.n(500)
		case "char", "binary":
			col.Size = 1 + r.n(60)
			if r.p(1, 6) {
				col.Size = 255
			}
		case "int16", "int24", "int32", "int64":
			if !g.simple && r.p(1, 12) {
				col.Size = 3 + r.n(18)
			}
		case "bit":
			col.Size = 2 + r.n(60)
		case "decimal":
			col.Size = 5 + r.n(20)
			col.Scale = r.n(5)
			if r.p(1, 20) {
				col.Size, col.Scale = 4, 4
			}
		case "float", "double":
			if r.p(1, 3) {
				col.Size = 6 + r.n(10)
				col.Scale = 1 + r.n(4)
			}
		case "enum", "set":
			k := 1 + r.n(4)
			odd := !g.simple && r.p(1, 4)
			for i := 0; i < k; i++ {
				if odd && r.p(1, 2) {
					v := []string{"in progress", "it's", "a\\b", "N/A", "say \"hi\"", "größe", "c:\\", "x-y", "(none)"}
					if col.Type == "enum" {
						v = append(v, "x, y")
					}
					if v := r.pick(v); !has(col.Values, v) {
						col.Values = append(col.Values, v)
						continue
					}
				}
				col.Values = append(col.Values, fmt.Sprintf("%s%d", r.pick([]string{"on", "off", "new", "v"}), i))
			}
		}
		if r.p(1, 5) {
			col.Unique = true
		}
		if r.p(1, 4) {
			switch {
			case isInt(col.Type):
				col.Default = fmt.Sprint(r.n(100) - r.n(2)*r.n(2)*50)
			case col.Type == "varchar" && col.Size > 36 && !g.simple && r.p(1, 8):
				col.Default = "fn::UUID"
			case col.Type == "varchar" && col.Size > 12 && !g.simple && r.p(1, 4):
				col.Default = r.pick([]string{"it's", "a\\b", "say \"hi\"", "a=b", "x, y", "100%", "größe"})
			case col.Type == "varchar" && col.Size > 8 || strings.HasPrefix(col.Type, "text") && !g.simple:
				col.Default = r.pick([]string{"none", "N/A", "hello world", "0"})
			case col.Type == "datetime":
				col.Default = "fn::CURRENT_TIMESTAMP"
				if r.p(1, 2) {
					col.OnUpd = "fn::CURRENT_TIMESTAMP"
				}
			case col.Type == "boolean":
				col.Default = r.pick([]string{"true", "false", "0", "1", "TRUE"})
			case col.Type == "enum":
				col.Default = col.Values[0]
			default:
				g.moreDefaults(r, col)
			}
		}
		t.Columns = append(t.Columns, col)
	}
	if r.p(1, 6) {
		for _, n := range []string{"created_at", "updated_at", "deleted_at"} {
			dup := false
			for _, c := range t.Columns {
				dup = dup || c.Name == n
			}
			if !dup && has(ty, "datetime") {
				t.Columns = append(t.Columns, &Col{Name: n, Type: "datetime", NotNull: n != "deleted_at"})
			}
		}
	}
	if !g.noIndex && r.p(1, 3) {
		k, plain := 1+r.n(2), r.p(1, 3)
		for i := 0; i < k; i++ {
			ix := &Idx{Name: fmt.Sprintf("idx_%s_%d", t.Name, i)}
			if plain {
				ix.Name = fmt.Sprintf("idx_%d", i)
			}
			if i == 0 && r.p(1, 8) {
				ix.Name = t.Name
			}
			perm := r.n(len(t.Columns))
			for j := 0; j < 1+r.n(2) && j < len(t.Columns); j++ {
				ix.Columns = append(ix.Columns, t.Columns[(perm+j)%len(t.Columns)].Name)
			}
			t.Indices = append(t.Indices, ix)
		}
	}
}

// moreDefaults are the default values of less common types.
func (g *genOpt) moreDefaults(r *rng, c *Col) {
	if g.simple {
		return
	}
	switch c.Type {
	case "decimal", "float", "double":
		c.Default = r.pick([]string{"0", "7", "-3"})
		if c.Scale > 0 {
			c.Default = r.pick([]string{"0", "0.5", "-0.5", "0.0"})
		}
		if c.Type == "decimal" && c.Size-c.Scale >= 18 && r.p(2, 3) {
			c.Default = r.pick([]string{"123456789012345678", "-999999999999999999", "100000000000000000"})
			if c.Scale >= 2 {
				c.Default += r.pick([]string{"", ".5", ".12"})
			}
		}
	case "bit":
		c.Default = fmt.Sprint(1 + r.n(1<<uint(min(c.Size, 20))-1))
	case "char":
		c.Default = r.pick([]string{"y", "N", "0", "'", "-"})
	case "date":
		c.Default = "2020-02-29"
	case "time":
		c.Default = "10:30:00"
	case "year":
		c.Default = "2020"
	}
}

// letterCase gives the columns of some tables names in camel case.
func letterCase(r *rng, t *Tab) {
	if !r.p(1, 8) {
		return
	}
	upper, part := r.p(1, 3), r.p(1, 2)
	m := map[string]string{}
	for _, c := range t.Columns {
		if part && r.p(1, 2) {
			continue
		}
		m[c.Name] = camel(c.Name, upper)
		c.Name = m[c.Name]
	}
	for _, x := range t.Indices {
		for i, n := range x.Columns {
			if m[n] != "" {
				x.Columns[i] = m[n]
			}
		}
	}
}

func has(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// alias rewrites some column types with the accepted synonyms.
func alias(r *rng, s *Sch) {
	m := map[string][]string{"varchar": {"string", "VARCHAR"}, "int8": {"tinyint"}, "int16": {"smallint"}, "int24": {"mediumint"}, "int32": {"int", "integer"}, "int64": {"bigint", "long", "BigInt"}, "decimal": {"numeric"}, "double": {"real"}, "datetime": {"timestamp"}, "blob8": {"tinyblob"}, "blob16": {"blob"}, "blob24": {"mediumblob"}, "blob32": {"longblob"}, "text8": {"tinytext"}, "text16": {"text", "Text"}, "text24": {"mediumtext"}, "text32": {"longtext"}}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if a := m[c.Type]; a != nil && r.p(1, 4) {
				c.Type = r.pick(a)
			}
		}
	}
}

// asWritten is the file of a schema whose author prefers other names of some types.
func asWritten(h *Hist, k int) []byte {
	s := h.Schemas[k].clone()
	if r := newRng(h.TextSeed, "alias", fmt.Sprint(k)); r.p(1, 2) {
		alias(r, s)
	}
	return s.json()
}

// evolve makes a plausible later version of a schema (for diffs).
func evolve(r *rng, s *Sch, g genOpt) *Sch {
	t := s.clone()
	t.Version = s.Version + ".1"
	k := 1 + r.n(5)
	for i := 0; i < k; i++ {
		if len(t.Tables) == 0 {
			break
		}
		ti := r.n(len(t.Tables))
		tb := t.Tables[ti]
		switch r.n(9) {
		case 0: // add table
			nt := &Tab{Name: "new_" + nouns[r.n(len(nouns))] + fmt.Sprint(i), Group: tb.Group}
			g.columns(r, nt)
			t.Tables = append(t.Tables, nt)
		case 1: // drop table
			if len(t.Tables) > 1 {
				dropTable(t, ti)
			}
		case 2, 3: // rename table
			old := tb.Name
			tb.Name = "re_" + old
			for _, x := range t.Tables {
				for _, c := range x.Columns {
					if c.Ref != nil && c.Ref.Table == old {
						c.Ref.Table = tb.Name
					}
				}
			}
		case 4: // add column
			tb.Columns = append(tb.Columns, &Col{Name: fmt.Sprintf("added_%d", i), Type: "varchar", Size: 10 + r.n(20)})
		case 5: // drop column
			if len(tb.Columns) > 1 {
				ci := r.n(len(tb.Columns))
				dropCol(t, tb, ci)
			}
		case 6, 7: // rename columns
			for ci := range tb.Columns {
				if r.p(1, 2) {
					c := tb.Columns[ci]
					old := c.Name
					c.Name = "re_" + old
					renameUses(t, tb, old, c.Name)
				}
			}
		case 8: // modify column
			c := tb.Columns[r.n(len(tb.Columns))]
			c.NotNull = !c.NotNull
			if c.Type == "varchar" {
				c.Size += 7
			}
			c.Desc = "changed"
		}
	}
	return t
}

func dropTable(s *Sch, i int) {
	n := s.Tables[i].Name
	s.Tables = append(s.Tables[:i:i], s.Tables[i+1:]...)
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if c.Ref != nil && c.Ref.Table == n {
				c.Ref = nil
			}
		}
	}
}

func dropCol(s *Sch, t *Tab, ci int) {
	n := t.Columns[ci].Name
	t.Columns = append(t.Columns[:ci:ci], t.Columns[ci+1:]...)
	var ix []*Idx
	for _, i := range t.Indices {
		if !has(i.Columns, n) {
			ix = append(ix, i)
		}
	}
	t.Indices = ix
	for _, x := range s.Tables {
		for _, c := range x.Columns {
			if c.Ref != nil && c.Ref.Table == t.Name && c.Ref.Column == n {
				c.Ref = nil
			}
		}
	}
}

func renameUses(s *Sch, t *Tab, from, to string) {
	for _, i := range t.Indices {
		for k := range i.Columns {
			if i.Columns[k] == from {
				i.Columns[k] = to
			}
		}
	}
	for _, x := range s.Tables {
		for _, c := range x.Columns {
			if c.Ref != nil && c.Ref.Table == t.Name && c.Ref.Column == from {
				c.Ref.Column = to
			}
		}
	}
}

// ---- other input languages ----

func genSQL(r *rng) []byte {
	g := genOpt{simple: true, pk: true, types: []string{"varchar", "char", "int8", "int16", "int24", "int32", "int64", "boolean", "decimal", "float", "double", "date", "datetime", "time", "year", "text8", "text16", "text24", "text32", "blob8", "blob16", "blob24", "blob32", "json", "enum", "set", "bit"}, noRefs: true}
	s := genSchema(r, g)
	var b strings.Builder
	if r.p(1, 3) {
		b.WriteString("-- dump\nSET NAMES utf8mb4;\n\n")
	}
	for _, t := range s.Tables {
		if r.p(1, 3) {
			fmt.Fprintf(&b, "DROP TABLE IF EXISTS `%s`;\n", t.Name)
		}
		fmt.Fprintf(&b, "CREATE TABLE %s`%s` (\n", r.pick([]string{"", "IF NOT EXISTS "}), t.Name)
		var lines []string
		var pk, uq []string
		for _, c := range t.Columns {
			l := fmt.Sprintf("  `%s` %s", c.Name, sqlType(r, c))
			if c.NotNull {
				l += " NOT NULL"
			} else if r.p(1, 3) {
				l += " NULL"
			}
			if c.AutoInc {
				l += " AUTO_INCREMENT"
			} else if d := c.Default; d != "" {
				if strings.HasPrefix(d, "fn::") {
					l += " DEFAULT " + d[4:]
					if c.OnUpd != "" {
						l += " ON UPDATE " + c.OnUpd[4:]
					}
				} else if isInt(c.Type) || c.Type == "boolean" {
					if d == "true" {
						d = "1"
					}
					if d == "false" {
						d = "0"
					}
					l += " DEFAULT " + d
				} else {
					l += " DEFAULT '" + d + "'"
				}
			}
			if c.Desc != "" {
				l += " COMMENT '" + strings.ReplaceAll(c.Desc, "'", "''") + "'"
			}
			lines = append(lines, l)
			if c.PK {
				pk = append(pk, "`"+c.Name+"`")
			}
			if c.Unique {
				uq = append(uq, "`"+c.Name+"`")
			}
		}
		if len(pk) > 0 {
			lines = append(lines, "  PRIMARY KEY ("+strings.Join(pk, ", ")+")")
		}
		if len(uq) > 0 {
			lines = append(lines, "  UNIQUE KEY `uq_"+t.Name+"` ("+strings.Join(uq, ", ")+")")
		}
		for _, i := range t.Indices {
			lines = append(lines, fmt.Sprintf("  %s `%s` (`%s`)", r.pick([]string{"KEY", "INDEX"}), i.Name, strings.Join(i.Columns, "`, `")))
		}
		b.WriteString(strings.Join(lines, ",\n"))
		b.WriteString("\n)" + r.pick([]string{"", " ENGINE=InnoDB", " ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"}) + ";\n\n")
	}
	return []byte(b.String())
}

func sqlType(r *rng, c *Col) string {
	switch c.Type {
	case "varchar", "char", "bit":
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)
	case "int8":
		return "tinyint"
	case "int16":
		return "smallint"
	case "int24":
		return "mediumint"
	case "int32":
		return r.pick([]string{"int", "int(11)", "integer"})
	case "int64":
		return r.pick([]string{"bigint", "bigint(20)"})
	case "boolean":
		return r.pick([]string{"bit(1)", "tinyint(1)"})
	case "decimal":
		return fmt.Sprintf("decimal(%d,%d)", c.Size, c.Scale)
	case "float", "double":
		return c.Type
	case "text8", "text16", "text24", "text32", "blob8", "blob16", "blob24", "blob32":
		m := map[string]string{"8": "tiny", "16": "", "24": "medium", "32": "long"}
		return m[c.Type[4:]] + c.Type[:4]
	case "enum", "set":
		return c.Type + "('" + strings.Join(c.Values, "','") + "')"
	case "datetime":
		return r.pick([]string{"datetime", "timestamp"})
	}
	return c.Type
}

func genOjson(r *rng) []byte {
	g := genOpt{simple: true, noIndex: true, types: []string{"string", "text", "int", "long", "boolean", "date", "datetime", "decimal", "float", "time", "blob"}}
	s := genSchema(r, g)
	type oc struct {
		Name    string `json:"name"`
		Type    string `json:"type"`
		Desc    string `json:"description,omitempty"`
		Size    int    `json:"size,omitempty"`
		Scale   int    `json:"scale,omitempty"`
		NotNull bool   `json:"notnull,omitempty"`
		PK      bool   `json:"pk,omitempty"`
		Unique  bool   `json:"unique,omitempty"`
		AutoInc bool   `json:"autoinc,omitempty"`
		Default string `json:"default,omitempty"`
		Ref     *Ref   `json:"ref,omitempty"`
	}
	type ot struct {
		Name    string `json:"name,omitempty"`
		Columns []*oc  `json:"columns,omitempty"`
		Desc    string `json:"desc,omitempty"`
		Group   string `json:"group,omitempty"`
		Class   string `json:"className,omitempty"`
	}
	doc := struct {
		Author  string `json:"author,omitempty"`
		Name    string `json:"name,omitempty"`
		Version string `json:"version,omitempty"`
		Tables  []*ot  `json:"tables"`
	}{s.Author, s.Name, s.Version, nil}
	for _, t := range s.Tables {
		o := &ot{Name: t.Name, Desc: t.Desc, Group: t.Group}
		for _, c := range t.Columns {
			ty := c.Type
			if ty == "int64" {
				ty = "long"
			}
			if ty == "int32" {
				ty = "int"
			}
			if ty == "varchar" {
				ty = "string"
			}
			var ref *Ref
			if c.Ref != nil {
				ref = &Ref{Table: c.Ref.Table, Column: c.Ref.Column}
			}
			o.Columns = append(o.Columns, &oc{c.Name, ty, c.Desc, c.Size, c.Scale, c.NotNull, c.PK, c.Unique, c.AutoInc, c.Default, ref})
		}
		doc.Tables = append(doc.Tables, o)
	}
	b, _ := json.MarshalIndent(doc, "", "  ")
	return b
}

func genStaruml(r *rng) []byte {
	g := genOpt{simple: true, noIndex: true, noValues: true}
	s := genSchema(r, g)
	type m = map[string]interface{}
	id := map[string]string{}
	n := 0
	nid := func(k string) string {
		if v, ok := id[k]; ok {
			return v
		}
		n++
		id[k] = fmt.Sprintf("AAAAAA%04d", n)
		return id[k]
	}
	var ents []interface{}
	for _, t := range s.Tables {
		var cols []interface{}
		for _, c := range t.Columns {
			cm := m{"_type": "ERDColumn", "_id": nid(t.Name + "." + c.Name), "_parent": m{"$ref": nid(t.Name)}, "name": c.Name, "type": strings.ToUpper(c.Type)}
			if c.Size > 0 {
				switch r.n(3) {
				case 0:
					cm["length"] = c.Size
				case 1:
					cm["length"] = fmt.Sprint(c.Size)
				default:
					cm["type"] = fmt.Sprintf("%s(%d)", c.Type, c.Size)
				}
			}
			if c.PK {
				cm["primaryKey"] = true
			}
			if c.Unique {
				cm["unique"] = true
			}
			if !c.NotNull {
				cm["nullable"] = true
			}
			if c.Desc != "" {
				cm["documentation"] = c.Desc
			}
			if c.Ref != nil {
				cm["referenceTo"] = m{"$ref": nid(c.Ref.Table + "." + c.Ref.Column)}
			}
			cols = append(cols, cm)
		}
		ents = append(ents, m{"_type": "ERDEntity", "_id": nid(t.Name), "name": t.Name, "columns": cols,
			"ownedElements": []interface{}{m{"_type": "ERDRelationship", "_id": nid("rel" + t.Name), "name": ""}}})
	}
	doc := m{"_type": "Project", "_id": nid("proj"), "name": s.Version, "ownedElements": []interface{}{
		m{"_type": "ERDDataModel", "_id": nid("dm"), "name": "Data Model1", "ownedElements": ents},
	}}
	b, _ := json.MarshalIndent(doc, "", "\t")
	return b
}

func (s *Sch) parse(text string) bool {
	return json.Unmarshal([]byte(text), s) == nil && len(s.Tables) > 0
}

// col finds a column by name.
func (t *Tab) col(name string) *Col {
	for _, c := range t.Columns {
		if c.Name == name {
			return c
		}
	}
	return nil
}
