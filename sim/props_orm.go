package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ------------------------------------------------------------------ C20–C22
// Sources of object-relational mappings: GORM, JPA (Kotlin), SQLAlchemy.

// snake is the column name that ORMs derive from a camel case name.
func snake(s string) string {
	up := func(c byte) bool { return c >= 'A' && c <= 'Z' }
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i > 0 && up(s[i]) && s[i-1] != '_' && (!up(s[i-1]) || i+1 < len(s) && !up(s[i+1]) && s[i+1] != '_' && !(s[i+1] >= '0' && s[i+1] <= '9')) {
			b.WriteByte('_')
		}
		b.WriteString(strings.ToLower(s[i : i+1]))
	}
	return b.String()
}

// ormNames gives some columns names that need care in generated sources.
func ormNames(r *rng, s *Sch, special []string) {
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if !r.p(1, 6) {
				continue
			}
			n := r.pick(special)
			ok := true
			for _, o := range t.Columns {
				if strings.EqualFold(camel(o.Name, true), camel(n, true)) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, o := range s.Tables {
				for _, oc := range o.Columns {
					if oc.Ref != nil && oc.Ref.Table == t.Name && oc.Ref.Column == c.Name {
						oc.Ref.Column = n
					}
				}
			}
			for _, x := range t.Indices {
				for i := range x.Columns {
					if x.Columns[i] == c.Name {
						x.Columns[i] = n
					}
				}
			}
			c.Name = n
		}
	}
}

// ormNaming adds naming options, unless they would give two tables one name.
func ormNaming(r *rng, h *Hist) {
	genNaming(r, h)
	ok := func() bool {
		seen := map[string]bool{}
		for _, t := range h.Schemas[0].Tables {
			n := strings.ToLower(typeName(h, t, true))
			if seen[n] {
				return false
			}
			seen[n] = true
		}
		return true
	}
	if !ok() {
		delete(h.Opt, "prefix")
		delete(h.Opt, "remove")
		if !ok() {
			for _, t := range h.Schemas[0].Tables {
				t.Class = ""
			}
		}
	}
}

// references adds references between the tables, also many to one table.
func references(r *rng, s *Sch) {
	if !r.p(1, 3) {
		return
	}
	t := s.Tables[r.n(len(s.Tables))]
	o := s.Tables[r.n(len(s.Tables))]
	for k := 0; k < 1+r.n(3); k++ {
		if r.p(1, 2) {
			o = s.Tables[r.n(len(s.Tables))]
		}
		t.Columns = append(t.Columns, &Col{Name: fmt.Sprintf("ref%c_id", 'a'+k), Type: "int64", NotNull: r.p(1, 2), Ref: &Ref{Table: o.Name, Column: o.Columns[0].Name, Relationship: r.pick([]string{"n:1", "1:n", "1:1", ""})}})
	}
}

func join2(l []string) string { return strings.Join(l, ", ") }

func uniques(t *Tab) (l []string) {
	for _, c := range t.Columns {
		if c.Unique {
			l = append(l, c.Name)
		}
	}
	return
}

// ---- GORM ----

var gormStubs = map[string]string{
	"gopkg.in/guregu/null.v4":       "package null\ntype String struct{}\ntype Int struct{}\ntype Bool struct{}\ntype Float struct{}\ntype Time struct{}",
	"github.com/shopspring/decimal": "package decimal\ntype Decimal struct{}\ntype NullDecimal struct{}",
	"github.com/jinzhu/gorm":        "package gorm\nimport \"time\"\ntype Model struct{ ID uint; CreatedAt, UpdatedAt time.Time; DeletedAt *time.Time }",
	"time":                          "package time\ntype Time struct{}",
}

type stubImporter struct {
	fset *token.FileSet
	got  map[string]*types.Package
}

func (s *stubImporter) Import(path string) (*types.Package, error) {
	if p := s.got[path]; p != nil {
		return p, nil
	}
	src, ok := gormStubs[path]
	if !ok {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	f, err := parser.ParseFile(s.fset, path, src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: s}
	p, err := conf.Check(path, s.fset, []*ast.File{f}, nil)
	s.got[path] = p
	return p, err
}

// gormEmbeds are the embedded models of the option and the default.
func gormEmbeds(h *Hist) map[string][]string {
	m := map[string][]string{"gorm.Model": {"id", "created_at", "updated_at", "deleted_at"}}
	if v := h.Opt["embed"]; v != "" {
		kv := strings.SplitN(v, ":", 2)
		if kv[1] == "" {
			delete(m, kv[0])
		} else {
			m[kv[0]] = strings.Split(kv[1], ",")
		}
	}
	return m
}

// gormSplit tells the embedded models of a table and the columns they cover,
// given the models which the generated struct embeds.
func gormType(c *Col) string {
	pick := func(a, b string) string {
		if c.NotNull {
			return a
		}
		return b
	}
	switch c.Type {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return pick("string", "null.String")
	case "boolean":
		return pick("bool", "null.Bool")
	case "int8", "int16", "int64":
		return pick(c.Type, "null.Int")
	case "int24", "int32":
		return pick("int32", "null.Int")
	case "decimal":
		return pick("decimal.Decimal", "decimal.NullDecimal")
	case "float":
		return pick("float32", "null.Float")
	case "double":
		return pick("float64", "null.Float")
	case "datetime", "date", "time":
		return pick("time.Time", "null.Time")
	case "blob8", "blob16", "blob24", "blob32":
		return "[]byte"
	}
	return "any"
}

// holds tells whether the struct of one table contains that of another.
func holds(s *Sch, from, to *Tab, seen map[string]bool) bool {
	if from.Name == to.Name {
		return true
	}
	if seen[from.Name] {
		return false
	}
	seen[from.Name] = true
	for _, c := range from.Columns {
		if c.Ref == nil || c.Ref.Relationship == "1:n" {
			continue
		}
		for _, o := range s.Tables {
			if o.Name == c.Ref.Table && holds(s, o, to, seen) {
				return true
			}
		}
	}
	return false
}

// gormOther are the Go types that can hold a column without a customary one.
func gormOther(c *Col) *regexp.Regexp {
	switch c.Type {
	case "enum", "set", "json":
		return gormText
	case "bit":
		if c.NotNull {
			return gormBit
		}
		return gormNullBit
	case "year":
		return gormYear
	}
	return gormBytes
}

var (
	gormText    = regexp.MustCompile(`^(string|\*string|null\.String|interface\{\}|any)$`)
	gormBit     = regexp.MustCompile(`^(byte|uint8|uint64|\[\]byte|interface\{\}|any)$`)
	gormNullBit = regexp.MustCompile(`^(\*byte|\*uint8|\*uint64|\[\]byte|interface\{\}|any)$`)
	gormYear    = regexp.MustCompile(`^(u?int(16|32|64)?|\*u?int(16|32|64)?|null\.Int|interface\{\}|any)$`)
	gormBytes   = regexp.MustCompile(`^(\[\]byte|interface\{\}|any)$`)
	ktOther     = map[string]*regexp.Regexp{
		"enum": regexp.MustCompile(`^(Any|String)\??$`), "set": regexp.MustCompile(`^(Any|String)\??$`), "json": regexp.MustCompile(`^(Any|String)\??$`),
		"bit": regexp.MustCompile(`^(Any|ByteArray|Int|Long|Byte)\??$`), "year": regexp.MustCompile(`^(Any|Int|Short|Year)\??$`), "": regexp.MustCompile(`^(Any|ByteArray|Blob)\??$`),
	}
	saOther = map[string]*regexp.Regexp{
		"enum": regexp.MustCompile(`^(|String|Enum\b.*)$`), "set": regexp.MustCompile(`^(|String|Enum\b.*)$`), "json": regexp.MustCompile(`^(|String|JSON)$`),
		"bit": regexp.MustCompile(`^(|Integer|BigInteger|LargeBinary)$`), "year": regexp.MustCompile(`^(|Integer|SmallInteger)$`), "": regexp.MustCompile(`^(|LargeBinary)$`),
	}
)

func gormWant(h *Hist, s *Sch) (facts []string) {
	pkg := h.Opt["package"]
	if pkg == "" {
		pkg = "main"
	}
	facts = append(facts, "package "+pkg)
	embeds := gormEmbeds(h)
	var names []string
	for n := range embeds {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, t := range s.Tables {
		n := typeName(h, t, true)
		facts = append(facts, "struct "+n+" ["+t.Name+"]")
		left := map[string]bool{}
		for _, c := range t.Columns {
			left[c.Name] = true
		}
		for _, e := range names {
			all := true
			for _, x := range embeds[e] {
				all = all && left[x]
			}
			if all {
				for _, x := range embeds[e] {
					delete(left, x)
				}
				facts = append(facts, "embed "+n+"."+e)
			}
		}
		uq := uniques(t)
		for _, c := range t.Columns {
			if c.Ref != nil {
				for _, o := range h.Schemas[0].Tables {
					if o.Name != c.Ref.Table {
						continue
					}
					ty := typeName(h, o, true)
					if c.Ref.Relationship == "1:n" {
						ty = "[]" + ty
					}
					if h.Opt["pointer"] != "" || c.Ref.Relationship != "1:n" && holds(h.Schemas[0], o, t, map[string]bool{}) {
						ty = "*" + ty
					}
					facts = append(facts, fmt.Sprintf("association %s.%s [%s by %s]", n, c.Name, ty, c.Ref.Column))
				}
			}
			if !left[c.Name] {
				continue
			}
			var a []string
			if c.PK {
				a = append(a, "primary_key")
			}
			if c.Unique {
				if len(uq) > 1 {
					a = append(a, "unique_index:"+t.Name+h.Opt["suffix"])
				} else {
					a = append(a, "unique")
				}
			}
			for _, x := range t.Indices {
				for i, y := range x.Columns {
					if y == c.Name {
						v := "index:" + x.Name
						if len(x.Columns) > 1 {
							v += fmt.Sprintf(",priority:%d", i+1)
						}
						a = append(a, v)
					}
				}
			}
			if c.AutoInc {
				a = append(a, "auto_increment")
			} else if c.NotNull {
				a = append(a, "not null")
			}
			if (c.Type == "char" || c.Type == "varchar" || c.Type == "bit") && c.Size > 0 {
				a = append(a, fmt.Sprintf("type:%s(%d)", c.Type, c.Size))
			}
			if (c.Type == "float" || c.Type == "double" || c.Type == "decimal") && c.Size > 0 && c.Scale > 0 {
				a = append(a, fmt.Sprintf("type:%s(%d,%d)", c.Type, c.Size, c.Scale))
			}
			sort.Strings(a)
			facts = append(facts, fmt.Sprintf("column %s.%s [%s; %s]", n, c.Name, gormType(c), strings.Join(a, "; ")))
		}
	}
	return
}

// gormNames are the names that generated sources get wrong, see
// known_findings.json: the existing tests of the repository demand them.
func gormNames(s *Sch) (alias map[string]string) {
	alias = map[string]string{}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if n := snake(gormField(c.Name)); n != c.Name && snakeNumber.MatchString(c.Name) {
				alias[t.Name+"."+n] = c.Name
			}
		}
	}
	return
}

var snakeNumber = regexp.MustCompile(`_[0-9]`)

func gormFacts(h *Hist, src string, s *Sch, lenient bool) (facts []string, msg string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, 0)
	if err != nil {
		return nil, "the source does not parse: " + err.Error()
	}
	// what the source does not have to define: structs of other groups and
	// embedded structs
	var extra strings.Builder
	fmt.Fprintf(&extra, "package %s\n", f.Name.Name)
	here, declared := map[string]bool{}, map[string]bool{}
	for _, t := range s.Tables {
		here[t.Name] = true
	}
	for _, t := range h.Schemas[0].Tables {
		if !here[t.Name] {
			n := typeName(h, t, true)
			if !declared[n] {
				fmt.Fprintf(&extra, "type %s struct{}\n", n)
			}
			declared[n] = true
		}
	}
	for e := range gormEmbeds(h) {
		if !strings.Contains(e, ".") {
			fmt.Fprintf(&extra, "type %s struct{}\n", e)
		}
	}
	x, err := parser.ParseFile(fset, "extra.go", extra.String(), 0)
	if err != nil {
		panic(err)
	}
	var errs []string
	conf := types.Config{Importer: &stubImporter{fset, map[string]*types.Package{}}, Error: func(err error) { errs = append(errs, err.Error()) }}
	conf.Check("out", fset, []*ast.File{f, x}, nil)
	if len(errs) > 0 {
		return nil, "the source does not compile: " + errs[0]
	}
	facts = append(facts, "package "+f.Name.Name)
	byStruct := map[string]*Tab{}
	for _, t := range h.Schemas[0].Tables {
		byStruct[typeName(h, t, true)] = t
	}
	fieldCol := map[string]map[string]string{} // struct, field -> column
	type assoc struct{ st, ty, fk, ref string }
	var assocs []assoc
	table := map[string]string{}
	var order []string
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.Name != "TableName" || d.Recv == nil || len(d.Body.List) != 1 {
				return nil, "unexpected function " + d.Name.Name
			}
			ret, ok := d.Body.List[0].(*ast.ReturnStmt)
			if !ok {
				return nil, "TableName returns nothing"
			}
			lit, ok := ret.Results[0].(*ast.BasicLit)
			if !ok {
				return nil, "TableName returns no name"
			}
			v, _ := strconv.Unquote(lit.Value)
			table[strings.TrimPrefix(types.ExprString(d.Recv.List[0].Type), "*")] = v
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				ts, ok := sp.(*ast.TypeSpec)
				if !ok {
					continue
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					return nil, "the type " + ts.Name.Name + " is no struct"
				}
				n := ts.Name.Name
				order = append(order, n)
				fieldCol[n] = map[string]string{}
				for _, fl := range st.Fields.List {
					ty := types.ExprString(fl.Type)
					if len(fl.Names) == 0 {
						facts = append(facts, "embed "+n+"."+ty)
						for _, c := range gormEmbeds(h)[ty] {
							fieldCol[n][gormField(c)] = c
						}
						continue
					}
					name := fl.Names[0].Name
					var tags []string
					if fl.Tag != nil {
						v, err := strconv.Unquote(fl.Tag.Value)
						g, ok := reflect.StructTag(v).Lookup("gorm")
						if err != nil || !ok {
							return nil, "the tag " + fl.Tag.Value + " has no value for gorm"
						}
						tags = strings.Split(g, ";")
					}
					col := ""
					var rest []string
					fk, ref := "", ""
					for _, tg := range tags {
						switch {
						case strings.HasPrefix(tg, "column:"):
							col = tg[7:]
						case strings.HasPrefix(tg, "foreignKey:"):
							fk = tg[11:]
						case strings.HasPrefix(tg, "references:"):
							ref = tg[11:]
						default:
							rest = append(rest, tg)
						}
					}
					if fk != "" {
						assocs = append(assocs, assoc{n, ty, fk, ref})
						continue
					}
					if col == "" {
						// ID is one of GORM's initialisms
						col = snake(strings.ReplaceAll(name, "ID", "Id"))
						if t := byStruct[n]; t != nil && lenient {
							if c := gormNames(h.Schemas[0])[t.Name+"."+col]; c != "" {
								col = c
							}
						}
					}
					if !ast.IsExported(name) && !(lenient && col[0] >= '0' && col[0] <= '9') {
						return nil, "the field " + name + " of column " + n + "." + col + " is not exported, so that GORM ignores it"
					}
					fieldCol[n][name] = col
					if t := byStruct[n]; t != nil {
						for _, c := range t.Columns {
							if c.Name == col && gormType(c) == "any" && gormOther(c).MatchString(ty) {
								ty = "any"
							}
						}
					}
					sort.Strings(rest)
					facts = append(facts, fmt.Sprintf("column %s.%s [%s; %s]", n, col, ty, strings.Join(rest, "; ")))
				}
			}
		}
	}
	for _, n := range order {
		facts = append(facts, "struct "+n+" ["+table[n]+"]")
	}
	for _, a := range assocs {
		col, ok := fieldCol[a.st][a.fk]
		if !ok {
			return nil, "the foreign key " + a.st + "." + a.fk + " of an association is no field"
		}
		target := strings.TrimPrefix(strings.TrimPrefix(a.ty, "*"), "[]")
		ref := ""
		if m, ok := fieldCol[target]; ok {
			if ref, ok = m[a.ref]; !ok {
				return nil, "the association to " + target + " references " + a.ref + ", which is no field of it"
			}
		} else if t := byStruct[target]; t != nil {
			for _, c := range t.Columns {
				if gormField(c.Name) == a.ref {
					ref = c.Name
				}
			}
		}
		facts = append(facts, fmt.Sprintf("association %s.%s [%s by %s]", a.st, col, a.ty, ref))
	}
	return
}

// gormField is the customary field name of a column that needs no other name.
func gormField(c string) string {
	n := camel(c, true)
	if strings.HasSuffix(n, "Id") {
		n = n[:len(n)-2] + "ID"
	}
	if n[0] >= '0' && n[0] <= '9' {
		n = "_" + n
	}
	if n == "TableName" {
		n += "_"
	}
	return n
}

// ---- JPA (Kotlin) ----

var ktType = map[string]string{"char": "String", "varchar": "String", "text8": "String", "text16": "String", "text24": "String", "text32": "String", "boolean": "Boolean", "int8": "Int", "int16": "Int", "int24": "Int", "int32": "Int", "int64": "Long", "decimal": "BigDecimal", "float": "Float", "double": "Double", "datetime": "Timestamp", "date": "LocalDate", "time": "LocalTime", "blob8": "Blob", "blob16": "Blob", "blob24": "Blob", "blob32": "Blob"}

var ktImport = map[string]string{"BigDecimal": "java.math.BigDecimal", "Timestamp": "java.sql.Timestamp", "LocalDate": "java.time.LocalDate", "LocalTime": "java.time.LocalTime", "Blob": "java.sql.Blob", "CreationTimestamp": "org.hibernate.annotations.CreationTimestamp", "UpdateTimestamp": "org.hibernate.annotations.UpdateTimestamp", "Serializable": "java.io.Serializable"}

var ktBuiltin = map[string]bool{"String": true, "Boolean": true, "Int": true, "Long": true, "Float": true, "Double": true, "Any": true}

func ktTypeOf(c *Col) string {
	ty := ktType[c.Type]
	if ty == "" {
		ty = "other"
	}
	if !c.NotNull {
		ty += "?"
	}
	return ty
}

func ktWant(h *Hist, s *Sch, t *Tab) (facts []string) {
	n := typeName(h, t, true)
	facts = append(facts, "package "+h.Opt["package"], "class "+n+" ["+t.Name+"]", n+" is @Entity")
	if v := h.Opt["annotation"]; strings.Contains(v, ":") {
		for _, p := range strings.Split(v, ",") {
			if kv := strings.SplitN(p, ":", 2); kv[0] == t.Group {
				for _, a := range strings.Split(kv[1], ";") {
					facts = append(facts, n+" is "+a)
				}
			}
		}
	} else if v != "" {
		facts = append(facts, n+" is "+v)
	}
	var pk []*Col
	for _, c := range t.Columns {
		if c.PK {
			pk = append(pk, c)
		}
	}
	var idEntity *Col
	if v := h.Opt["idEntity"]; v != "" && len(pk) == 1 && camel(pk[0].Name, false) == "id" {
		idEntity = pk[0]
		facts = append(facts, n+" extends "+v+"<"+ktTypeOf(idEntity)+">")
	}
	if len(pk) > 1 {
		facts = append(facts, n+" is @IdClass("+n+"PK::class)", n+"PK extends Serializable")
		for _, c := range pk {
			facts = append(facts, fmt.Sprintf("key %sPK.%s [%s]", n, camel(c.Name, false), ktTypeOf(c)))
		}
	}
	if u := uniques(t); len(u) > 0 {
		facts = append(facts, fmt.Sprintf("unique %s of %s", t.Name+h.Opt["suffix"], join2(u)))
	}
	for i, c := range t.Columns {
		var a, ca []string
		if c.PK {
			a = append(a, "@Id")
		}
		if c.AutoInc {
			a = append(a, "@GeneratedValue(strategy = GenerationType.AUTO)")
		}
		if strings.HasPrefix(c.Type, "text") {
			a = append(a, "@Lob")
		}
		if h.Opt["relation"] == "VRelation" && c.Ref != nil {
			for _, o := range s.Tables {
				if o.Name == c.Ref.Table {
					a = append(a, fmt.Sprintf(`@VRelation(cls = "%s", field = "%s")`, typeName(h, o, true), camel(c.Ref.Column, false)))
				}
			}
		}
		if c.NotNull {
			ca = append(ca, "nullable = false")
		}
		if ktType[c.Type] == "String" && c.Size > 0 {
			ca = append(ca, fmt.Sprintf("length = %d", c.Size))
		}
		if c.Type == "float" || c.Type == "double" || c.Type == "decimal" {
			if c.Size > 0 {
				ca = append(ca, fmt.Sprintf("precision = %d", c.Size))
			}
			if c.Scale > 0 {
				ca = append(ca, fmt.Sprintf("scale = %d", c.Scale))
			}
		}
		if c.Type == "datetime" && camel(c.Name, false) == "createdAt" {
			a = append(a, "@CreationTimestamp")
			ca = append(ca, "updatable = false")
		}
		if c.Type == "datetime" && camel(c.Name, false) == "updatedAt" {
			a = append(a, "@UpdateTimestamp")
		}
		if c == idEntity {
			a = append(a, "override")
		}
		sort.Strings(a)
		sort.Strings(ca)
		facts = append(facts, fmt.Sprintf("property %s.%s [#%d, %s; %s; column %s]", n, c.Name, i, ktTypeOf(c), strings.Join(a, " "), join2(ca)))
	}
	return
}

var ktToken = regexp.MustCompile("\"(?:[^\"\\\\\n]|\\\\.)*\"|`[^`\n]+`|[0-9]+(?:\\.[0-9]+)?[LF]?|@?[A-Za-z_][A-Za-z0-9_]*|::|\\S")

var ktHard = map[string]bool{"as": true, "break": true, "class": true, "continue": true, "do": true, "else": true, "false": true, "for": true, "fun": true, "if": true, "in": true, "interface": true, "is": true, "null": true, "object": true, "package": true, "return": true, "super": true, "this": true, "throw": true, "true": true, "try": true, "typealias": true, "typeof": true, "val": true, "var": true, "when": true, "while": true}

var plainIdent = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

func (t *tokens) ktName() string {
	x := t.next()
	if strings.HasPrefix(x, "`") {
		return strings.Trim(x, "`")
	}
	if !plainIdent.MatchString(x) || ktHard[x] {
		panic(parseErr(fmt.Sprintf("%q where a Kotlin name is expected, after %q", x, t.before())))
	}
	return x
}

// ktExpr reads an expression up to , or ) of the enclosing list.
func (t *tokens) ktExpr() string {
	depth := 0
	out := ""
	for {
		x := t.peek()
		if x == "" {
			panic(parseErr("the source ends within an expression"))
		}
		if depth == 0 && (x == "," || x == ")" || x == "]") {
			if out == "" {
				panic(parseErr("an expression is missing after " + t.before()))
			}
			return out
		}
		if x == "(" || x == "[" {
			depth++
		}
		if x == ")" || x == "]" {
			depth--
		}
		out += t.next()
	}
}

// ktArgs reads a parenthesised list of name = value.
func (t *tokens) ktArgs(close string) (l [][2]string) {
	for t.peek() != close {
		k := ""
		if t.i+1 < len(t.t) && t.t[t.i+1] == "=" {
			k = t.ktName()
			t.want("=")
		}
		l = append(l, [2]string{k, t.ktExpr()})
		if t.peek() != close {
			t.want(",")
		}
	}
	t.want(close)
	return
}

type ktProp struct {
	name, ty, def string
	override      bool
	anno          [][2]string // name, arguments
	args          map[string][][2]string
}

func (t *tokens) ktProps() (l []*ktProp) {
	t.want("(")
	for t.peek() != ")" {
		p := &ktProp{args: map[string][][2]string{}}
		for strings.HasPrefix(t.peek(), "@") {
			a := t.next()
			p.anno = append(p.anno, [2]string{a})
			p.args[a] = nil
			if t.peek() == "(" {
				t.next()
				p.args[a] = t.ktArgs(")")
			}
		}
		if t.peek() == "override" {
			t.next()
			p.override = true
		}
		if x := t.next(); x != "var" && x != "val" {
			panic(parseErr(fmt.Sprintf("%q where a property is expected, after %q", x, t.before())))
		}
		p.name = t.ktName()
		t.want(":")
		p.ty = t.ktName()
		if t.peek() == "?" {
			t.next()
			p.ty += "?"
		}
		if t.peek() == "=" {
			t.next()
			p.def = t.ktExpr()
		}
		l = append(l, p)
		if t.peek() != ")" {
			t.want(",")
			if t.peek() == ")" { // legal since Kotlin 1.4 only
				panic(parseErr("a comma behind the last property"))
			}
		}
	}
	t.want(")")
	if len(l) == 0 {
		panic(parseErr("a data class has no property"))
	}
	return
}

var ktDefault = map[string]*regexp.Regexp{
	"String": regexp.MustCompile(`^"[^"]*"$`), "Boolean": regexp.MustCompile(`^(true|false)$`), "Int": regexp.MustCompile(`^-?[0-9]+$`), "Long": regexp.MustCompile(`^-?[0-9]+L?$`),
	"Float": regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?F$`), "Double": regexp.MustCompile(`^-?[0-9]+\.[0-9]+$`),
	"BigDecimal": regexp.MustCompile(`^BigDecimal[.(]`), "Timestamp": regexp.MustCompile(`^Timestamp\(`), "LocalDate": regexp.MustCompile(`^LocalDate[.(]`), "LocalTime": regexp.MustCompile(`^LocalTime[.(]`),
}

func (p *ktProp) check() {
	base := strings.TrimSuffix(p.ty, "?")
	if p.def == "" || p.def == "null" && base != p.ty {
		return
	}
	re := ktDefault[base]
	if re == nil || !re.MatchString(p.def) {
		panic(parseErr(fmt.Sprintf("the property %s of type %s has the default value %s", p.name, p.ty, p.def)))
	}
}

func unq(s string) string { return strings.Trim(s, `"`) }

func ktFacts(src string, t *Tab) (facts []string, msg string) {
	msg = parsing(func() {
		lines := strings.Split(src, "\n")
		imports := map[string]bool{}
		var body []string
		for _, l := range lines {
			f := strings.Fields(l)
			switch {
			case len(f) == 2 && f[0] == "package":
				facts = append(facts, "package "+f[1])
			case len(f) > 0 && f[0] == "package":
				facts = append(facts, "package ")
			case len(f) == 2 && f[0] == "import":
				imports[f[1]] = true
			default:
				body = append(body, l)
			}
		}
		tk := &tokens{t: ktToken.FindAllString(strings.Join(body, "\n"), -1)}
		used := map[string]bool{}
		main := ""
		for tk.peek() != "" {
			var anno []string
			table := ""
			for strings.HasPrefix(tk.peek(), "@") {
				a := tk.next()
				used[a[1:]] = true
				if tk.peek() != "(" {
					anno = append(anno, a)
					continue
				}
				tk.next()
				args := tk.ktArgs(")")
				if a == "@Table" {
					for _, kv := range args {
						switch kv[0] {
						case "name":
							table = unq(kv[1])
						case "uniqueConstraints":
							in := &tokens{t: ktToken.FindAllString(kv[1], -1)}
							in.want("[")
							for in.peek() != "]" {
								in.want("UniqueConstraint")
								in.want("(")
								name, cols := "", []string{}
								for _, x := range in.ktArgs(")") {
									if x[0] == "name" {
										name = unq(x[1])
									}
									if x[0] == "columnNames" {
										cn := &tokens{t: ktToken.FindAllString(x[1], -1)}
										cn.want("[")
										for _, y := range cn.ktArgs("]") {
											cols = append(cols, unq(y[1]))
										}
									}
								}
								if in.peek() == "," {
									in.next()
								}
								facts = append(facts, fmt.Sprintf("unique %s of %s", name, join2(cols)))
							}
						}
					}
					continue
				}
				var l []string
				for _, x := range args {
					if x[0] != "" {
						l = append(l, x[0]+" = "+x[1])
					} else {
						l = append(l, x[1])
					}
				}
				anno = append(anno, a+"("+join2(l)+")")
			}
			tk.want("data")
			tk.want("class")
			n := tk.ktName()
			props := tk.ktProps()
			super := ""
			if tk.peek() == ":" {
				tk.next()
				super = tk.ktName()
				used[super] = true
				if tk.peek() == "<" {
					tk.next()
					super += "<" + tk.ktName()
					if tk.peek() == "?" {
						super += tk.next()
					}
					tk.want(">")
					super += ">"
				}
			}
			if super != "" {
				facts = append(facts, n+" extends "+super)
			}
			seen := map[string]bool{}
			for _, p := range props {
				p.check()
				base := strings.TrimSuffix(p.ty, "?")
				used[base] = true
				for a := range p.args {
					used[a[1:]] = true
				}
				if seen[p.name] {
					panic(parseErr("two properties of " + n + " are named " + p.name))
				}
				seen[p.name] = true
			}
			if main != "" { // key class
				if n != main+"PK" || len(anno) > 0 {
					panic(parseErr("unexpected class " + n))
				}
				for _, p := range props {
					if p.def == "" {
						panic(parseErr("the property " + p.name + " of the key class has no default value"))
					}
					facts = append(facts, fmt.Sprintf("key %s.%s [%s]", n, p.name, p.ty))
				}
				continue
			}
			main = n
			facts = append(facts, "class "+n+" ["+table+"]")
			for _, a := range anno {
				facts = append(facts, n+" is "+a)
			}
			for i, p := range props {
				var a, ca []string
				col := snake(p.name)
				for _, an := range p.anno {
					args := p.args[an[0]]
					if an[0] == "@Column" {
						for _, kv := range args {
							if kv[0] == "name" {
								col = unq(kv[1])
							} else {
								ca = append(ca, kv[0]+" = "+kv[1])
							}
						}
						continue
					}
					var l []string
					for _, kv := range args {
						l = append(l, kv[0]+" = "+kv[1])
					}
					if len(l) > 0 {
						a = append(a, an[0]+"("+join2(l)+")")
					} else {
						a = append(a, an[0])
					}
				}
				if p.override {
					a = append(a, "override")
				}
				ty := p.ty
				for _, c := range t.Columns {
					re := ktOther[c.Type]
					if re == nil {
						re = ktOther[""]
					}
					if c.Name == col && ktType[c.Type] == "" && re.MatchString(ty) {
						ty = ktTypeOf(&Col{Type: c.Type, NotNull: !strings.HasSuffix(p.ty, "?")})
					}
				}
				sort.Strings(a)
				sort.Strings(ca)
				facts = append(facts, fmt.Sprintf("property %s.%s [#%d, %s; %s; column %s]", n, col, i, ty, strings.Join(a, " "), join2(ca)))
			}
		}
		for u := range used {
			imp, ok := ktImport[u]
			if ok && !imports[imp] {
				panic(parseErr(u + " is not imported"))
			}
			if !ok && (u == "Entity" || u == "Id") && !imports["javax.persistence.*"] && !imports["javax.persistence."+u] {
				panic(parseErr(u + " is not imported"))
			}
		}
	})
	return
}

var ktRepo = regexp.MustCompile(`(?s)^package (\S+)\s+(.*)@Repository\s+interface (\w+)\s*:\s*JpaRepository<\s*(\w+)\s*,\s*(\w+\??)\s*>\s*(?:\{\s*\})?\s*$`)

func ktRepoWant(h *Hist, t *Tab) string {
	n := typeName(h, t, true)
	id, k := n+"PK", 0
	for _, c := range t.Columns {
		if c.PK {
			if k++; k == 1 {
				id = ktTypeOf(c)
			} else {
				id = n + "PK"
			}
		}
	}
	return fmt.Sprintf("package %s: %sRepository of %s by %s", h.Opt["repos"], n, n, id)
}

func ktRepoFacts(h *Hist, src string) (string, string) {
	m := ktRepo.FindStringSubmatch(src)
	if m == nil {
		return "", "the repository is no interface: " + head(src, 200)
	}
	for _, i := range []string{h.Opt["package"] + ".", "org.springframework.data.jpa.repository.JpaRepository", "org.springframework.stereotype.Repository"} {
		if !strings.Contains(m[2], "import "+i) {
			return "", "the repository does not import " + i
		}
	}
	return fmt.Sprintf("package %s: %s of %s by %s", m[1], m[3], m[4], m[5]), ""
}

// ---- SQLAlchemy ----

var saType = map[string]string{"char": "String", "varchar": "String", "text8": "String", "text16": "String", "text24": "String", "text32": "String", "boolean": "Boolean", "int8": "Integer", "int16": "Integer", "int24": "Integer", "int32": "Integer", "int64": "BigInteger", "decimal": "Numeric", "float": "Float", "double": "Float", "datetime": "DateTime", "date": "Date", "time": "Time", "blob8": "LargeBinary", "blob16": "LargeBinary", "blob24": "LargeBinary", "blob32": "LargeBinary"}

func saWant(h *Hist, s *Sch) (facts []string) {
	for _, t := range s.Tables {
		n := typeName(h, t, true)
		facts = append(facts, "class "+n+" ["+t.Name+"]")
		u := uniques(t)
		if len(u) > 1 {
			facts = append(facts, fmt.Sprintf("unique %s of %s(%s)", t.Name+h.Opt["suffix"], n, join2(u)))
		}
		for i, c := range t.Columns {
			ty := saType[c.Type]
			if ty == "" {
				ty = "other"
			}
			var a []string
			if c.Type == "bit" && c.Size == 1 {
				ty = "Boolean"
			}
			switch {
			case (c.Type == "char" || c.Type == "varchar") && c.Size > 0:
				ty += fmt.Sprintf("(%d)", c.Size)
			case c.Type == "decimal" || c.Type == "float" || c.Type == "double":
				var l []string
				if c.Size > 0 {
					l = append(l, fmt.Sprintf("precision=%d", c.Size))
				}
				if c.Scale > 0 && c.Type == "decimal" {
					l = append(l, fmt.Sprintf("scale=%d", c.Scale))
				}
				if len(l) > 0 {
					ty += "(" + join2(l) + ")"
				}
			case c.Type == "datetime":
				now := "datetime.now"
				if h.Opt["utc"] != "" {
					now = "datetime.utcnow"
				}
				switch c.Name {
				case "created_at":
					a = append(a, "default="+now)
				case "updated_at":
					a = append(a, "default="+now, "onupdate="+now)
				default:
					if h.Opt["utc"] != "" {
						ty = "TZDateTime"
					}
				}
			}
			if c.PK {
				a = append(a, "primary_key=True")
			}
			if c.Unique && len(u) == 1 {
				a = append(a, "unique=True")
			}
			if c.AutoInc {
				a = append(a, "autoincrement=True")
			} else if c.NotNull {
				a = append(a, "nullable=False")
			}
			sort.Strings(a)
			facts = append(facts, fmt.Sprintf("column %s.%s [#%d, %s; %s]", n, c.Name, i, ty, join2(a)))
		}
	}
	return
}

var pyReserved = map[string]bool{"False": true, "None": true, "True": true, "and": true, "as": true, "assert": true, "async": true, "await": true, "break": true, "class": true, "continue": true, "def": true, "del": true, "elif": true, "else": true, "except": true, "finally": true, "for": true, "from": true, "global": true, "if": true, "import": true, "in": true, "is": true, "lambda": true, "nonlocal": true, "not": true, "or": true, "pass": true, "raise": true, "return": true, "try": true, "while": true, "with": true, "yield": true}

var pyToken = regexp.MustCompile(`'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|[0-9]+|[A-Za-z_][A-Za-z0-9_]*|\S`)

// pyExpr is a parsed expression: a name, number or string, with an argument
// list when it is called; a tuple has the name "".
type pyExpr struct {
	name string
	call bool
	args []*pyExpr
	key  []string
}

func (e *pyExpr) String() string {
	if !e.call {
		return e.name
	}
	var l []string
	for i, a := range e.args {
		if e.key[i] != "" {
			l = append(l, e.key[i]+"="+a.String())
		} else {
			l = append(l, a.String())
		}
	}
	return e.name + "(" + join2(l) + ")"
}

func (t *tokens) pyName() string {
	x := t.next()
	if !plainIdent.MatchString(x) || pyReserved[x] && x != "True" && x != "False" && x != "None" {
		panic(parseErr(fmt.Sprintf("%q where a Python name is expected, after %q", x, t.before())))
	}
	return x
}

func (t *tokens) pyExpr(known func(string)) *pyExpr {
	e := &pyExpr{}
	x := t.peek()
	switch {
	case x == "(":
		e.call = true
	case x != "" && strings.ContainsAny(x[:1], `'"0123456789`):
		e.name = t.next()
		return e
	default:
		e.name = t.pyName()
		known(e.name)
		for t.peek() == "." {
			t.next()
			e.name += "." + t.pyName()
		}
		if t.peek() != "(" {
			return e
		}
		e.call = true
	}
	t.want("(")
	kw := false
	seen := map[string]bool{}
	for t.peek() != ")" {
		k := ""
		if t.i+1 < len(t.t) && t.t[t.i+1] == "=" {
			k = t.pyName()
			t.want("=")
			if seen[k] {
				panic(parseErr("the argument " + k + " is repeated"))
			}
			seen[k] = true
		}
		if kw && k == "" {
			panic(parseErr("a positional argument after keyword arguments"))
		}
		kw = kw || k != ""
		e.key = append(e.key, k)
		e.args = append(e.args, t.pyExpr(known))
		if t.peek() != ")" {
			t.want(",")
		}
	}
	t.want(")")
	return e
}

var saParams = map[string]string{"String": "length", "Integer": "", "BigInteger": "", "Boolean": "", "DateTime": "timezone", "Date": "", "Time": "timezone", "LargeBinary": "length", "Float": "precision,asdecimal,decimal_return_scale", "Numeric": "precision,scale,decimal_return_scale,asdecimal", "TZDateTime": ""}

var pyWords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield self cls super object type isinstance issubclass len str int float bool bytes dict list tuple set print repr getattr setattr hasattr callable min max sum abs any all zip map filter range enumerate sorted property staticmethod classmethod Exception TypeError ValueError KeyError AttributeError RuntimeError NotImplementedError AssertionError NotImplemented __name__ f r b u") {
		m[w] = true
	}
	return m
}()

var pyIdent = regexp.MustCompile(`"[^"]*"|'[^']*'|#.*|\.\s*[A-Za-z_]\w*|[A-Za-z_]\w*(\s*=)?`)

// pyFree looks for names used in the bodies of helper classes that nothing
// defines.
func pyFree(src string, names map[string]bool) {
	local := map[string]bool{}
	for _, m := range regexp.MustCompile(`(?m)def\s+(\w+)\s*\(([^)]*)\)|^\s*(\w+)(?:\s*:[^=\n]*)?\s*=[^=]|(?:for|as)\s+(\w+)`).FindAllStringSubmatch(src, -1) {
		for _, g := range m[1:] {
			for _, n := range strings.Split(g, ",") {
				n, _, _ = strings.Cut(n, "=")
				n, _, _ = strings.Cut(n, ":")
				local[strings.Trim(n, " *")] = true
			}
		}
	}
	for _, m := range pyIdent.FindAllStringSubmatch(src, -1) {
		n := m[0]
		if strings.ContainsAny(n[:1], `"'#.`) || m[1] != "" {
			continue
		}
		if !local[n] && !names[n] && !pyWords[n] {
			panic(parseErr("the name " + n + " is not defined"))
		}
	}
}

func saFacts(src string, s *Sch) (facts []string, msg string) {
	types := map[string]map[string]string{}
	for _, t := range s.Tables {
		types[t.Name] = map[string]string{}
		for _, c := range t.Columns {
			types[t.Name][c.Name] = c.Type
			if c.Type == "bit" && c.Size == 1 {
				types[t.Name][c.Name] = "bit1"
			}
		}
	}
	msg = parsing(func() {
		names := map[string]bool{"True": true, "False": true, "None": true}
		class, table := "", ""
		var local map[string]bool
		var cols, body []string
		opaque, empty := false, false
		end := func() {
			if class == "" {
				return
			}
			if empty {
				panic(parseErr("the class " + class + " is empty"))
			}
			if !opaque {
				facts = append(facts, "class "+class+" ["+table+"]")
				facts = append(facts, cols...)
			}
			names[class] = true
			class = ""
		}
		nth := 0
		known := func(n string) {
			if local != nil && local[n] {
				panic(parseErr("the name " + n + " means a column of " + class))
			}
			if !names[n] {
				panic(parseErr("the name " + n + " is not defined"))
			}
		}
		for _, l := range strings.Split(src, "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			in := strings.HasPrefix(l, "    ")
			tk := &tokens{t: pyToken.FindAllString(l, -1)}
			if !in {
				end()
				local = nil
				switch tk.peek() {
				case "from":
					m := regexp.MustCompile(`^from [A-Za-z0-9_.]+ import (.*)$`).FindStringSubmatch(l)
					if m == nil {
						panic(parseErr("the import " + l))
					}
					for _, n := range strings.Split(m[1], ",") {
						n = strings.TrimSpace(n)
						if !plainIdent.MatchString(n) {
							panic(parseErr("the import " + l))
						}
						names[n] = true
					}
				case "class":
					tk.next()
					class = tk.pyName()
					if names[class] {
						panic(parseErr("the name " + class + " is defined twice"))
					}
					tk.want("(")
					base := tk.pyName()
					known(base)
					tk.want(")")
					tk.want(":")
					opaque, empty, table, cols, nth = base != "Base", true, "", nil, 0
					local = map[string]bool{}
				default:
					n := tk.pyName()
					tk.want("=")
					tk.pyExpr(known)
					names[n] = true
				}
				if tk.peek() != "" && class == "" && !strings.HasPrefix(l, "from") {
					panic(parseErr("the line " + l))
				}
				continue
			}
			if class == "" {
				panic(parseErr("the indented line " + l))
			}
			empty = false
			if opaque {
				body = append(body, l)
				continue
			}
			n := tk.pyName()
			tk.want("=")
			e := tk.pyExpr(known)
			if tk.peek() != "" {
				panic(parseErr("the line " + l))
			}
			switch {
			case n == "__tablename__":
				table = strings.Trim(e.name, `'"`)
			case n == "__table_args__":
				if e.name != "" || !e.call {
					panic(parseErr("__table_args__ is no tuple"))
				}
				for _, u := range e.args {
					if u.name != "UniqueConstraint" {
						panic(parseErr("the table argument " + u.name))
					}
					var l []string
					name := ""
					for i, a := range u.args {
						if u.key[i] == "name" {
							name = strings.Trim(a.name, `'"`)
						} else {
							l = append(l, strings.Trim(a.name, `'"`))
						}
					}
					cols = append(cols, fmt.Sprintf("unique %s of %s(%s)", name, class, join2(l)))
				}
			case e.name == "Column" && e.call:
				if local[n] || n == "metadata" || n == "registry" {
					panic(parseErr("the attribute " + class + "." + n + " is taken"))
				}
				local[n] = true
				col, ty := n, ""
				var a []string
				for i, x := range e.args {
					switch {
					case e.key[i] != "":
						a = append(a, e.key[i]+"="+x.String())
					case i == 0 && strings.ContainsAny(x.name[:1], `'"`):
						col = strings.Trim(x.name, `'"`)
					case ty == "":
						if p, ok := saParams[x.name]; ok && x.call {
							for j, k := range x.key {
								if k != "" && !has(strings.Split(p, ","), k) || k == "" && j >= len(strings.Split(p, ",")) || p == "" {
									panic(parseErr(x.name + " takes no argument " + k))
								}
							}
						}
						ty = strings.TrimSuffix(x.String(), "()")
					default:
						panic(parseErr("the column argument " + x.String()))
					}
				}
				if t := types[table][col]; t != "" && saType[t] == "" && t != "bit1" {
					re := saOther[t]
					if re == nil {
						re = saOther[""]
					}
					if re.MatchString(ty) {
						ty = "other"
					}
				}
				sort.Strings(a)
				cols = append(cols, fmt.Sprintf("column %s.%s [#%d, %s; %s]", class, col, nth, ty, join2(a)))
				nth++
			default:
				panic(parseErr("the line " + l))
			}
		}
		end()
		pyFree(strings.Join(body, "\n"), names)
	})
	return
}

var special = []string{"name_2", "addr_1_line", "md5_hash", "object", "in", "is", "val", "async", "metadata", "registry", "datetime", "table_name", "created_at", "updated_at", "deleted_at", "group_id", "user_id", "a_b", "userId", "id"}

const gormKnown = " (only names with digits at the start of a part are wrong)"

func init() {
	groups := optSpec{key: "groups", long: "groups", short: "g", env: "OCTOPUS_GROUPS"}
	prefix := func(short string) optSpec {
		return optSpec{key: "prefix", long: "prefix", short: short, env: "OCTOPUS_PREFIX"}
	}
	remove := func(short string) optSpec {
		return optSpec{key: "remove", long: "removePrefix", short: short, env: "OCTOPUS_REMOVE_PREFIX"}
	}
	suffix := func(short string) optSpec {
		return optSpec{key: "suffix", long: "uniqueNameSuffix", short: short, env: "OCTOPUS_UNIQUE_NAME_SUFFIX"}
	}
	utc := func(short string) optSpec {
		return optSpec{key: "utc", long: "useUTC", short: short, env: "OCTOPUS_USE_UTC", flag: true}
	}
	base := func(r *rng) *Hist {
		h := &Hist{Opt: map[string]string{}, TextSeed: r.seed(), Schemas: []*Sch{genSchema(r, genOpt{})}}
		if r.p(1, 3) {
			h.Opt["alias"] = "1"
		}
		l := special
		var words []string
		if r.p(2, 3) {
			l = special[2:]
		}
		for w := range pyReserved {
			if w == strings.ToLower(w) {
				words = append(words, w)
			}
		}
		for w := range ktHard {
			words = append(words, w)
		}
		sort.Strings(words)
		l = append(append([]string{}, l...), words[r.n(len(words))], words[r.n(len(words))], words[r.n(len(words))])
		ormNames(r, h.Schemas[0], l)
		references(r, h.Schemas[0])
		genGroups(r, h)
		ormNaming(r, h)
		if r.p(1, 2) {
			h.Opt["suffix"] = r.pick([]string{"_uq", "_unique", "UQ"})
		}
		return h
	}
	const rule = ", with options in every documented spelling (long, short, with =, environment), with killed, power-lost and failing attempts before; "

	histModels["generate gorm"] = genHist([]optSpec{groups, {key: "pointer", long: "pointerAssociation", short: "a", env: "OCTOPUS_POINTER_ASSOCIATION", flag: true}, {key: "embed", long: "embed", short: "e", env: "OCTOPUS_EMBED"}, {key: "package", long: "package", short: "k", env: "OCTOPUS_PACKAGE"}, prefix("p"), remove("r"), suffix("u")}, "generate", "gorm")
	histProp("C20", "generate gorm", 4000, 20000,
		"a history is a schema from which GORM sources are generated"+rule+"the source is type-checked against stand-ins of the packages it imports and compared fact by fact with the selected part of the schema; distinct: different system-call trace and final disk",
		func(r *rng) *Hist {
			h := base(r)
			h.Opt["out"] = r.pick([]string{"out/db.go", "out/DB.GO", "out", "out/new/model"})
			if r.p(1, 2) {
				h.Opt["package"] = r.pick([]string{"model", "entity"})
			}
			if r.p(1, 3) {
				h.Opt["pointer"] = "1"
			}
			if r.p(1, 2) {
				h.Opt["embed"] = r.pick([]string{"IdName:id,name", "gorm.Model:", "Audit:created_at,updated_at", "Base:id", "Gone:", "Zed:id,created_at,updated_at,deleted_at"})
			}
			embeds := map[*Tab]bool{}
			if r.p(1, 12) { // an association and an embedded model of one name
				s := h.Schemas[0]
				for _, t := range s.Tables {
					for _, c := range t.Columns {
						if c.Ref != nil && s.tab("model") == nil && !embeds[t] {
							o := s.tab(c.Ref.Table)
							for _, x := range s.Tables {
								for _, k := range x.Columns {
									if k.Ref != nil && k.Ref.Table == o.Name {
										k.Ref.Table = "model"
									}
								}
							}
							o.Name, o.Class = "model", ""
							embeds[t] = true
						}
					}
				}
			}
			for _, t := range h.Schemas[0].Tables { // columns of embedded models
				if embeds[t] || r.p(1, 4) {
					for _, n := range []string{"id", "name", "created_at", "updated_at", "deleted_at"} {
						used := false
						for _, c := range t.Columns {
							used = used || camel(c.Name, true) == camel(n, true)
						}
						if !used && !r.p(1, 12) {
							ty := "datetime"
							if n == "id" {
								ty = "int64"
							} else if n == "name" {
								ty = "varchar"
							}
							t.Columns = append(t.Columns, &Col{Name: n, Type: ty, NotNull: r.p(1, 2)})
						}
					}
				}
				if r.p(1, 40) {
					t.Columns = append(t.Columns, &Col{Name: "2fa_code", Type: "varchar", Size: 20})
				}
			}
			if r.p(1, 12) { // nothing but an embedded model
				t := h.Schemas[0].Tables[0]
				t.Columns, t.Indices = nil, nil
				for _, n := range []string{"created_at", "updated_at", "deleted_at", "id"} {
					t.Columns = append(t.Columns, &Col{Name: n, Type: "datetime", NotNull: r.p(1, 2)})
				}
				id := t.Columns[3]
				id.Type, id.PK, id.NotNull, id.AutoInc = "int64", true, true, r.p(1, 2)
				for _, o := range h.Schemas[0].Tables {
					for _, c := range o.Columns {
						if c.Ref != nil && c.Ref.Table == t.Name {
							c.Ref = nil
						}
					}
				}
				h.Schemas[0].Tables = append(h.Schemas[0].Tables[:1], h.Schemas[0].Tables[1:r.n(len(h.Schemas[0].Tables))+1]...)
			}
			for _, t := range h.Schemas[0].Tables {
				for _, c := range t.Columns {
					if c.Ref != nil && h.Schemas[0].tab(c.Ref.Table) == nil {
						c.Ref = nil
					}
				}
			}
			clash(r, h, true)
			return h
		}, clashOracle(true, together, func(h *Hist, res *Result) string {
			f := h.Opt["out"]
			if !strings.HasSuffix(strings.ToLower(f), ".go") {
				f += "/output.go"
			}
			b, msg := artefact(res, f)
			if msg != "" {
				return msg
			}
			s := selected(h)
			judge := func(lenient bool) string {
				got, msg := gormFacts(h, b, s, lenient)
				if msg == "" {
					msg = sameFacts("it", gormWant(h, s), got)
				}
				return msg
			}
			msg = judge(false)
			if msg != "" {
				// anything but what is known comes first
				if other := judge(true); other != "" {
					msg = other
				} else {
					msg += gormKnown
				}
				return h.Model + ": " + msg
			}
			return ""
		}))
	knownKey("C20", func(h *Hist, msg string) string {
		if strings.HasSuffix(msg, gormKnown) {
			return "generate gorm: digits at the start of a part of a column name"
		}
		return ""
	})

	histModels["generate kt"] = genHist([]optSpec{groups, {key: "annotation", long: "annotation", short: "a", env: "OCTOPUS_ANNOTATION"}, {key: "idEntity", long: "idEntity", short: "e", env: "OCTOPUS_ID_ENTITY"}, {key: "package", long: "package", short: "p", env: "OCTOPUS_PACKAGE"}, prefix("f"), {key: "relation", long: "relation", short: "l", env: "OCTOPUS_RELATION"}, remove("d"), {key: "repos", long: "reposPackage", short: "r", env: "OCTOPUS_REPOS_PACKAGE"}, suffix("q"), utc("u")}, "generate", "kt")
	histProp("C21", "generate kt", 4000, 20000,
		"a history is a schema from which JPA entities and repositories in Kotlin are generated"+rule+"the sources are read by an independent reader that checks that they are well-formed (names, default values, needed imports) and compared fact by fact with the selected part of the schema; distinct: different system-call trace and final disk",
		func(r *rng) *Hist {
			h := base(r)
			h.Opt["out"] = r.pick([]string{"out", "out/new/kt"})
			h.Opt["package"] = r.pick([]string{"octopus.entity", "model"})
			sel := selected(h)
			for _, o := range []struct {
				k string
				v []string
			}{{"annotation", []string{"common:@Common,user:@User;@Audited", "shop:@A,admin:@B;@C;@D", "@All"}}, {"idEntity", []string{"IdEntity"}}, {"repos", []string{"octopus.repos", "model"}}, {"relation", []string{"VRelation", "VRelation", "none"}}, {"utc", []string{"1"}}} {
				if r.p(1, 3) {
					h.Opt[o.k] = r.pick(o.v)
				}
			}
			for _, t := range sel.Tables {
				pk := false
				for _, c := range t.Columns {
					pk = pk || c.PK
					if c.Ref != nil && !hasTable(sel, c.Ref.Table) {
						delete(h.Opt, "relation")
					}
				}
				if !pk {
					delete(h.Opt, "repos")
				}
			}
			clash(r, h, true)
			return h
		}, clashOracle(true, together, func(h *Hist, res *Result) string {
			s := selected(h)
			dir := h.Opt["out"] + "/" + strings.ReplaceAll(h.Opt["package"], ".", "/")
			repos := h.Opt["out"] + "/" + strings.ReplaceAll(h.Opt["repos"], ".", "/")
			ours := map[string]bool{}
			for _, t := range s.Tables {
				n := typeName(h, t, true)
				f := dir + "/" + n + ".kt"
				ours[f] = true
				b, msg := artefact(res, f)
				if msg != "" {
					return msg
				}
				got, msg := ktFacts(b, t)
				if msg == "" {
					msg = sameFacts("it", ktWant(h, s, t), got)
				}
				if msg != "" {
					return "generate kt: " + n + ".kt: " + msg
				}
				if h.Opt["repos"] == "" {
					continue
				}
				f = repos + "/" + n + "Repository.kt"
				ours[f] = true
				if b, msg = artefact(res, f); msg != "" {
					return msg
				}
				g, msg := ktRepoFacts(h, b)
				if w := ktRepoWant(h, t); msg == "" && g != w {
					msg = "it has " + g + ", not " + w
				}
				if msg != "" {
					return "generate kt: " + f + ": " + msg
				}
			}
			for f := range res.Final {
				if f = strings.TrimPrefix(f, "/home/u/"); strings.HasSuffix(f, ".kt") && !ours[f] {
					return "generate kt: unexpected file " + f
				}
			}
			return ""
		}))

	apart := func(h *Hist) bool { return !strings.HasSuffix(strings.ToLower(h.Opt["out"]), ".py") }
	histModels["generate sqlalchemy"] = genHist([]optSpec{groups, prefix("p"), remove("r"), suffix("u"), utc("t")}, "generate", "sqlalchemy")
	histProp("C22", "generate sqlalchemy", 4000, 20000,
		"a history is a schema from which SQLAlchemy classes are generated"+rule+"the sources are read by an independent reader that checks that they are well-formed (names, defined and imported, arguments) and compared fact by fact with the selected part of the schema; distinct: different system-call trace and final disk",
		func(r *rng) *Hist {
			h := base(r)
			h.Opt["out"] = r.pick([]string{"out/db.py", "out/DB.PY", "out", "out/new/sa"})
			if r.p(1, 2) {
				h.Opt["utc"] = "1"
			}
			h.Model = "generate sqlalchemy"
			clash(r, h, true)
			return h
		}, clashOracle(true, apart, func(h *Hist, res *Result) string {
			s := selected(h)
			f := h.Opt["out"]
			if strings.HasSuffix(strings.ToLower(f), ".py") {
				b, msg := artefact(res, f)
				if msg == "" {
					var got []string
					if got, msg = saFacts(b, s); msg == "" {
						msg = sameFacts("it", saWant(h, s), got)
					}
				}
				if msg != "" {
					return "generate sqlalchemy: " + msg
				}
				return ""
			}
			ours := map[string]bool{}
			for _, t := range s.Tables {
				g := f + "/" + t.Name + ".py"
				ours[g] = true
				b, msg := artefact(res, g)
				if msg == "" {
					one := &Sch{Tables: []*Tab{t}}
					var got []string
					if got, msg = saFacts(b, one); msg == "" {
						msg = sameFacts("it", saWant(h, one), got)
					}
				}
				if msg != "" {
					return "generate sqlalchemy: " + t.Name + ".py: " + msg
				}
			}
			for f := range res.Final {
				if f = strings.TrimPrefix(f, "/home/u/"); strings.HasSuffix(f, ".py") && !ours[f] {
					return "generate sqlalchemy: unexpected file " + f
				}
			}
			return ""
		}))
}

func hasTable(s *Sch, n string) bool {
	for _, t := range s.Tables {
		if t.Name == n {
			return true
		}
	}
	return false
}
