package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
)

// A reference model of a database that applies Liquibase change logs: each
// change set once, in order, refused when it does not fit the database.

type dbCol struct {
	Type    string
	NotNull int // 0 no, 1 yes, 2 left to the database
	Auto    bool
	Def     string
	Remarks string
}

type dbTab struct {
	Cols    map[string]*dbCol
	PK      map[string]bool
	Uniq    map[string][]string
	Inline  map[string]bool // unique constraints declared with the column
	Remarks string
}

type database struct {
	Tabs map[string]*dbTab
	Done map[string]bool
	old  bool // older releases: renaming a column loses its not null
}

func newDatabase() *database {
	return &database{Tabs: map[string]*dbTab{}, Done: map[string]bool{}}
}

type lqColumn struct {
	Name                 string      `yaml:"name"`
	Type                 string      `yaml:"type"`
	AutoIncrement        bool        `yaml:"autoIncrement"`
	Remarks              string      `yaml:"remarks"`
	DefaultValue         interface{} `yaml:"defaultValue"`
	DefaultValueBoolean  interface{} `yaml:"defaultValueBoolean"`
	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric"`
	DefaultValueDate     interface{} `yaml:"defaultValueDate"`
	DefaultValueComputed interface{} `yaml:"defaultValueComputed"`
	AfterColumn          string      `yaml:"afterColumn"`
	Constraints          struct {
		PrimaryKey bool  `yaml:"primaryKey"`
		Nullable   *bool `yaml:"nullable"`
		Unique     bool  `yaml:"unique"`
	} `yaml:"constraints"`
}

// one struct for the attributes of all changes
type lqChange struct {
	TableName      string `yaml:"tableName"`
	NewTableName   string `yaml:"newTableName"`
	OldTableName   string `yaml:"oldTableName"`
	ColumnName     string `yaml:"columnName"`
	NewColumnName  string `yaml:"newColumnName"`
	OldColumnName  string `yaml:"oldColumnName"`
	ColumnNames    string `yaml:"columnNames"`
	ConstraintName string `yaml:"constraintName"`
	NewDataType    string `yaml:"newDataType"`
	ColumnDataType string `yaml:"columnDataType"`
	Remarks        string `yaml:"remarks"`

	DefaultValue         interface{} `yaml:"defaultValue"`
	DefaultValueBoolean  interface{} `yaml:"defaultValueBoolean"`
	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric"`
	DefaultValueDate     interface{} `yaml:"defaultValueDate"`
	DefaultValueComputed interface{} `yaml:"defaultValueComputed"`

	Columns []struct {
		Column lqColumn `yaml:"column"`
	} `yaml:"columns"`
}

type lqChangeSet struct {
	ID      string                `yaml:"id"`
	Author  string                `yaml:"author"`
	Changes []map[string]lqChange `yaml:"changes"`
}

func parseChangeLog(b []byte) ([]lqChangeSet, error) {
	var raw struct {
		Log []map[string]interface{} `yaml:"databaseChangeLog"`
	}
	if err := yaml.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	var out []lqChangeSet
	for _, e := range raw.Log {
		cs, ok := e["changeSet"]
		if !ok {
			continue
		}
		x, err := yaml.Marshal(cs)
		if err != nil {
			return nil, err
		}
		var s lqChangeSet
		if err := yaml.Unmarshal(x, &s); err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return out, nil
}

// plain brings default values of different notations to one form.
func plain(v string) string {
	switch strings.ToLower(v) {
	case "true":
		return "1"
	case "false":
		return "0"
	}
	if _, err := strconv.ParseFloat(v, 64); err == nil {
		if x, ok := new(big.Rat).SetString(v); ok {
			return strings.TrimSuffix(strings.TrimRight(x.FloatString(40), "0"), ".")
		}
	}
	return v
}

func defOf(vals ...interface{}) string {
	computed := vals[len(vals)-1]
	for _, v := range vals[:len(vals)-1] {
		if v != nil {
			return plain(fmt.Sprint(v))
		}
	}
	if computed != nil {
		return "fn " + strings.ToLower(strings.TrimSuffix(fmt.Sprint(computed), "()"))
	}
	return ""
}

func names(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func (c *lqColumn) col() *dbCol {
	d := &dbCol{Type: c.Type, Auto: c.AutoIncrement, Remarks: c.Remarks}
	d.Def = defOf(c.DefaultValue, c.DefaultValueBoolean, c.DefaultValueNumeric, c.DefaultValueDate, c.DefaultValueComputed)
	if c.Constraints.PrimaryKey {
		d.NotNull = 2
	}
	if n := c.Constraints.Nullable; n != nil {
		d.NotNull = 1
		if *n {
			d.NotNull = 0
		}
	}
	return d
}

// apply runs a change log; crash >= 0 stops after that many change sets.
func (db *database) apply(file string, b []byte, crash int) error {
	sets, err := parseChangeLog(b)
	if err != nil {
		return fmt.Errorf("%s is not valid YAML: %v", file, err)
	}
	seen := map[string]bool{}
	for _, s := range sets {
		k := file + "\x00" + s.ID + "\x00" + s.Author
		if seen[k] {
			return fmt.Errorf("%s: two change sets have the id %s", file, s.ID)
		}
		seen[k] = true
	}
	for i, s := range sets {
		if crash >= 0 && i >= crash {
			return nil
		}
		k := file + "\x00" + s.ID + "\x00" + s.Author
		if db.Done[k] {
			continue
		}
		for _, ch := range s.Changes {
			for _, kind := range sortedKeys(ch) {
				if err := db.change(kind, ch[kind]); err != nil {
					return fmt.Errorf("%s: change set %s: %s: %v", file, s.ID, kind, err)
				}
			}
		}
		db.Done[k] = true
	}
	return nil
}

func (db *database) change(kind string, c lqChange) error {
	if kind == "createTable" {
		if db.Tabs[c.TableName] != nil {
			return fmt.Errorf("table %s exists", c.TableName)
		}
		t := &dbTab{Cols: map[string]*dbCol{}, PK: map[string]bool{}, Uniq: map[string][]string{}, Inline: map[string]bool{}, Remarks: c.Remarks}
		for _, x := range c.Columns {
			if t.Cols[x.Column.Name] != nil {
				return fmt.Errorf("column %s.%s twice", c.TableName, x.Column.Name)
			}
			t.Cols[x.Column.Name] = x.Column.col()
			if x.Column.Constraints.PrimaryKey {
				t.PK[x.Column.Name] = true
			}
			if x.Column.Constraints.Unique {
				t.Inline[x.Column.Name] = true
			}
		}
		db.Tabs[c.TableName] = t
		return nil
	}
	if kind == "renameTable" {
		if db.Tabs[c.OldTableName] == nil {
			return fmt.Errorf("no table %s", c.OldTableName)
		}
		if db.Tabs[c.NewTableName] != nil {
			return fmt.Errorf("table %s exists", c.NewTableName)
		}
		db.Tabs[c.NewTableName] = db.Tabs[c.OldTableName]
		delete(db.Tabs, c.OldTableName)
		return nil
	}
	t := db.Tabs[c.TableName]
	if t == nil {
		return fmt.Errorf("no table %s", c.TableName)
	}
	col := func() (*dbCol, error) {
		if x := t.Cols[c.ColumnName]; x != nil {
			return x, nil
		}
		return nil, fmt.Errorf("no column %s.%s", c.TableName, c.ColumnName)
	}
	cols := func() ([]string, error) {
		l := names(c.ColumnNames)
		if len(l) == 0 {
			return nil, fmt.Errorf("no columns given for %s", c.TableName)
		}
		for _, n := range l {
			if t.Cols[n] == nil {
				return nil, fmt.Errorf("no column %s.%s", c.TableName, n)
			}
		}
		return l, nil
	}
	switch kind {
	case "dropTable":
		delete(db.Tabs, c.TableName)
	case "setTableRemarks":
		t.Remarks = c.Remarks
	case "addColumn":
		for _, x := range c.Columns {
			if t.Cols[x.Column.Name] != nil {
				return fmt.Errorf("column %s.%s exists", c.TableName, x.Column.Name)
			}
			if a := x.Column.AfterColumn; a != "" && t.Cols[a] == nil {
				return fmt.Errorf("no column %s.%s to put %s after", c.TableName, a, x.Column.Name)
			}
			t.Cols[x.Column.Name] = x.Column.col()
			if x.Column.Constraints.PrimaryKey {
				t.PK[x.Column.Name] = true
			}
			if x.Column.Constraints.Unique {
				t.Inline[x.Column.Name] = true
			}
		}
	case "dropColumn":
		if _, err := col(); err != nil {
			return err
		}
		delete(t.Cols, c.ColumnName)
		delete(t.PK, c.ColumnName)
		delete(t.Inline, c.ColumnName)
		for _, l := range t.Uniq {
			if has(l, c.ColumnName) {
				return fmt.Errorf("column %s.%s is in a unique constraint", c.TableName, c.ColumnName)
			}
		}
	case "renameColumn":
		x := t.Cols[c.OldColumnName]
		if x == nil {
			return fmt.Errorf("no column %s.%s", c.TableName, c.OldColumnName)
		}
		if t.Cols[c.NewColumnName] != nil {
			return fmt.Errorf("column %s.%s exists", c.TableName, c.NewColumnName)
		}
		delete(t.Cols, c.OldColumnName)
		t.Cols[c.NewColumnName] = x
		if db.old && x.NotNull == 1 {
			x.NotNull = 0
		}
		if c.ColumnDataType != x.Type { // MySQL needs it
			return fmt.Errorf("column %s.%s has type %s, not %s", c.TableName, c.NewColumnName, x.Type, c.ColumnDataType)
		}
		for _, m := range []map[string]bool{t.PK, t.Inline} {
			if m[c.OldColumnName] {
				delete(m, c.OldColumnName)
				m[c.NewColumnName] = true
			}
		}
		for _, l := range t.Uniq {
			for i := range l {
				if l[i] == c.OldColumnName {
					l[i] = c.NewColumnName
				}
			}
			sort.Strings(l)
		}
	case "setColumnRemarks":
		x, err := col()
		if err != nil {
			return err
		}
		x.Remarks = c.Remarks
	case "modifyDataType":
		x, err := col()
		if err != nil {
			return err
		}
		x.Type = c.NewDataType
	case "addNotNullConstraint", "dropNotNullConstraint":
		x, err := col()
		if err != nil {
			return err
		}
		if c.ColumnDataType == "" {
			return fmt.Errorf("%s of %s.%s has no data type, which MySQL needs", kind, c.TableName, c.ColumnName)
		}
		x.Type = c.ColumnDataType
		x.NotNull = 0
		if kind[0] == 'a' {
			x.NotNull = 1
		}
	case "addAutoIncrement":
		x, err := col()
		if err != nil {
			return err
		}
		if c.ColumnDataType == "" {
			return fmt.Errorf("%s of %s.%s has no data type, which MySQL needs", kind, c.TableName, c.ColumnName)
		}
		x.Type = c.ColumnDataType
		x.Auto = true
	case "addDefaultValue":
		x, err := col()
		if err != nil {
			return err
		}
		x.Def = defOf(c.DefaultValue, c.DefaultValueBoolean, c.DefaultValueNumeric, c.DefaultValueDate, c.DefaultValueComputed)
	case "dropDefaultValue":
		x, err := col()
		if err != nil {
			return err
		}
		x.Def = ""
	case "addPrimaryKey":
		l, err := cols()
		if err != nil {
			return err
		}
		if len(t.PK) > 0 {
			return fmt.Errorf("table %s has a primary key", c.TableName)
		}
		for _, n := range l {
			t.PK[n] = true
		}
	case "dropPrimaryKey":
		if len(t.PK) == 0 {
			return fmt.Errorf("table %s has no primary key", c.TableName)
		}
		for n := range t.PK {
			if x := t.Cols[n]; x != nil && x.NotNull == 0 {
				x.NotNull = 2
			}
		}
		t.PK = map[string]bool{}
	case "addUniqueConstraint":
		l, err := cols()
		if err != nil {
			return err
		}
		if t.Uniq[c.ConstraintName] != nil {
			return fmt.Errorf("unique constraint %s of %s exists", c.ConstraintName, c.TableName)
		}
		t.Uniq[c.ConstraintName] = l
	case "dropUniqueConstraint":
		l := t.Uniq[c.ConstraintName]
		if l == nil {
			return fmt.Errorf("table %s has no unique constraint %s", c.TableName, c.ConstraintName)
		}
		for _, n := range l {
			delete(t.Inline, n)
		}
		delete(t.Uniq, c.ConstraintName)
	default:
		return fmt.Errorf("unknown change")
	}
	return nil
}

var lqTypes = map[string]string{"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "int8": "tinyint", "int16": "smallint", "int24": "mediumint", "int32": "int", "int64": "bigint", "blob8": "blob", "blob16": "blob", "blob24": "blob", "blob32": "blob"}

func lqType(c *Col) string {
	t := strings.ToLower(c.Type)
	if len(c.Values) > 0 {
		var l []string
		for _, v := range c.Values {
			l = append(l, "'"+strings.ReplaceAll(strings.ReplaceAll(v, `\`, `\\`), "'", "''")+"'")
		}
		return t + "(" + strings.Join(l, ", ") + ")"
	}
	if m := lqTypes[t]; m != "" {
		t = m
	}
	if c.Size > 0 && c.Scale > 0 {
		return fmt.Sprintf("%s(%d,%d)", t, c.Size, c.Scale)
	}
	if c.Size > 0 {
		return fmt.Sprintf("%s(%d)", t, c.Size)
	}
	return t
}

func lqDefault(c *Col) string {
	if strings.HasPrefix(c.Default, "fn::") {
		return "fn " + strings.ToLower(c.Default[4:])
	}
	return plain(c.Default)
}

type dbExpect struct {
	suffix   string
	comments bool
	groups   []string // nil: all
	autoSeen map[string]bool
}

// differs compares the database with a schema; "" when it matches.
func (db *database) differs(s *Sch, x dbExpect) string {
	want := map[string]*Tab{}
	for _, t := range s.Tables {
		if x.groups == nil || has(x.groups, t.Group) {
			want[t.Name] = t
		}
	}
	for _, n := range sortedKeys(db.Tabs) {
		if want[n] == nil {
			return "table " + n + " should not exist"
		}
	}
	for _, n := range sortedKeys(want) {
		t, d := want[n], db.Tabs[n]
		if d == nil {
			return "table " + n + " is missing"
		}
		if x.comments && d.Remarks != t.Desc {
			return fmt.Sprintf("table %s has the remarks %q instead of %q", n, d.Remarks, t.Desc)
		}
		wc := map[string]*Col{}
		pk := map[string]bool{}
		var uq []string
		for _, c := range t.Columns {
			wc[c.Name] = c
			if c.PK {
				pk[c.Name] = true
			}
			if c.Unique {
				uq = append(uq, c.Name)
			}
		}
		sort.Strings(uq)
		for _, cn := range sortedKeys(d.Cols) {
			if wc[cn] == nil {
				return "column " + n + "." + cn + " should not exist"
			}
		}
		for _, cn := range sortedKeys(wc) {
			c, k := wc[cn], d.Cols[cn]
			if k == nil {
				return "column " + n + "." + cn + " is missing"
			}
			if k.Type != lqType(c) {
				return fmt.Sprintf("column %s.%s has the type %s instead of %s", n, cn, k.Type, lqType(c))
			}
			if !c.PK && k.NotNull != 2 && (k.NotNull == 1) != c.NotNull {
				return fmt.Sprintf("column %s.%s: not null is %v instead of %v", n, cn, k.NotNull == 1, c.NotNull)
			}
			if c.AutoInc && !k.Auto || !c.AutoInc && k.Auto && !x.autoSeen[cn] && !x.autoSeen["*"] {
				return fmt.Sprintf("column %s.%s: auto increment is %v instead of %v", n, cn, k.Auto, c.AutoInc)
			}
			if k.Def != lqDefault(c) {
				return fmt.Sprintf("column %s.%s has the default %q instead of %q", n, cn, k.Def, lqDefault(c))
			}
			if !x.comments && k.Remarks != "" {
				return fmt.Sprintf("column %s.%s has the remarks %q, and comments were not asked for", n, cn, k.Remarks)
			}
			if x.comments && k.Remarks != c.Desc {
				return fmt.Sprintf("column %s.%s has the remarks %q instead of %q", n, cn, k.Remarks, c.Desc)
			}
		}
		if a, b := strings.Join(sortedKeys(d.PK), ","), strings.Join(sortedKeys(pk), ","); a != b {
			return fmt.Sprintf("table %s has the primary key (%s) instead of (%s)", n, a, b)
		}
		wu := map[string]string{}
		if len(uq) > 0 {
			wu[n+x.suffix] = strings.Join(uq, ",")
		}
		for _, cn := range sortedKeys(d.Uniq) {
			if wu[cn] != strings.Join(d.Uniq[cn], ",") {
				return fmt.Sprintf("table %s has the unique constraint %s (%s) instead of (%s)", n, cn, strings.Join(d.Uniq[cn], ","), wu[cn])
			}
		}
		for _, cn := range sortedKeys(wu) {
			if d.Uniq[cn] == nil {
				return fmt.Sprintf("table %s lacks the unique constraint %s (%s)", n, cn, wu[cn])
			}
		}
	}
	return ""
}

// pair is a table (Col empty) or a column of two versions that is the same
// thing, by name or because it was renamed and nothing else can be meant.
type pair struct{ OldTab, NewTab, OldCol, NewCol string }

func (p pair) String() string {
	switch {
	case p.OldCol == "" && p.OldTab == p.NewTab:
		return "table " + p.OldTab
	case p.OldCol == "":
		return fmt.Sprintf("table %s, renamed to %s,", p.OldTab, p.NewTab)
	case p.OldCol == p.NewCol:
		return "column " + p.NewTab + "." + p.OldCol
	}
	return fmt.Sprintf("column %s.%s, renamed to %s,", p.NewTab, p.OldCol, p.NewCol)
}

func (p pair) renamed() bool { return p.OldTab != p.NewTab || p.OldCol != p.NewCol }

// kept lists the tables and columns whose rows must survive the step.
func kept(from, to *Sch, x dbExpect) []pair {
	sel := func(s *Sch) map[string]*Tab {
		m := map[string]*Tab{}
		for _, t := range s.Tables {
			if x.groups == nil || has(x.groups, t.Group) {
				m[t.Name] = t
			}
		}
		return m
	}
	js := func(v interface{}) string {
		b, _ := json.Marshal(v)
		return string(b)
	}
	old, now := sel(from), sel(to)
	var out []pair
	var gone, came []string
	for _, n := range sortedKeys(old) {
		if now[n] == nil {
			gone = append(gone, n)
		}
	}
	for _, n := range sortedKeys(now) {
		if old[n] == nil {
			came = append(came, n)
			continue
		}
		out = append(out, pair{n, n, "", ""})
		var lost, fresh []*Col
		oc, nc := map[string]*Col{}, map[string]*Col{}
		for _, c := range old[n].Columns {
			oc[c.Name] = c
		}
		for _, c := range now[n].Columns {
			nc[c.Name] = c
			if oc[c.Name] == nil {
				fresh = append(fresh, c)
			} else {
				out = append(out, pair{n, n, c.Name, c.Name})
			}
		}
		for _, c := range old[n].Columns {
			if nc[c.Name] == nil {
				lost = append(lost, c)
			}
		}
		key := func(c *Col, whole bool) string {
			k := *c
			k.Name = ""
			if !whole {
				k.Ref = nil
			}
			if !whole || !x.comments {
				k.Desc = ""
			}
			return js(k)
		}
		for _, a := range lost {
			var b *Col
			same := 0
			for _, c := range fresh {
				if key(a, false) == key(c, false) {
					b = c
					same++
				}
			}
			for _, c := range lost {
				if c != a && key(a, false) == key(c, false) {
					same++
				}
			}
			if same == 1 && b != nil && key(a, true) == key(b, true) {
				out = append(out, pair{n, n, a.Name, b.Name})
			}
		}
	}
	key := func(t *Tab) string {
		var l []Col
		for _, c := range t.Columns {
			k := *c
			k.Ref, k.Desc = nil, ""
			l = append(l, k)
		}
		return js(l)
	}
	for _, a := range gone {
		b := ""
		same := 0
		for _, n := range came {
			if key(old[a]) == key(now[n]) {
				b = n
				same++
			}
		}
		for _, n := range gone {
			if n != a && key(old[a]) == key(old[n]) {
				same++
			}
		}
		if same == 1 && b != "" && len(old[a].Columns) > 0 && js(old[a].Columns) == js(now[b].Columns) {
			out = append(out, pair{a, b, "", ""})
			for _, c := range old[a].Columns {
				out = append(out, pair{a, b, c.Name, c.Name})
			}
		}
	}
	return out
}

// what a name stands for; a column or table that is dropped and created again
// is another one.
func (db *database) things() map[[2]string]interface{} {
	m := map[[2]string]interface{}{}
	for n, t := range db.Tabs {
		m[[2]string{n, ""}] = t
		for c, k := range t.Cols {
			m[[2]string{n, c}] = k
		}
	}
	return m
}

// lostData compares what the names stood for with what they stand for.
func lostData(before, after map[[2]string]interface{}, l []pair) string {
	for _, p := range l {
		a, b := before[[2]string{p.OldTab, p.OldCol}], after[[2]string{p.NewTab, p.NewCol}]
		if a != nil && a != b {
			return "the " + p.String() + " is dropped and created again: its data is lost"
		}
	}
	return ""
}
