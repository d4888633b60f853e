package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Histories of a database project: its schema changes from version to version
// and every change is turned into a change log, a migration script or a report.

// evolveOpt restricts what changes between versions.
type evolveOpt struct {
	flyway bool // only kinds of changes the flyway writer implements
	descs  bool
}

func evolveDB(r *rng, g genOpt, s *Sch, o evolveOpt) *Sch {
	s = s.clone()
	s.Version = fmt.Sprintf("%s.%d", s.Version, r.n(10))
	if r.p(1, 6) {
		s.Author = r.pick([]string{"", "park", "Joe"})
	}
	fresh := func(base []string, used func(n string) bool) string {
		for {
			n := r.pick(base)
			if r.p(1, 2) {
				n += r.pick([]string{"_new", "_v2", "_old", "_tmp"})
			}
			if r.p(1, 4) {
				n += string(rune('a' + r.n(26)))
			}
			if !used(n) {
				return n
			}
		}
	}
	before, lost := s.clone(), map[*Col]bool{}
	tabUsed := func(n string) bool {
		for _, t := range before.Tables {
			if strings.EqualFold(t.Name, n) {
				return true // a table that moves to another group is none of ours
			}
		}
		for _, t := range s.Tables {
			if strings.EqualFold(t.Name, n) {
				return true
			}
		}
		return false
	}
	colUsed := func(t *Tab) func(n string) bool {
		return func(n string) bool {
			for _, c := range t.Columns {
				if strings.EqualFold(c.Name, n) {
					return true
				}
			}
			return false
		}
	}
	renCol := func(t *Tab, c *Col, n string) {
		old := c.Name
		c.Name = n
		for _, x := range s.Tables {
			for _, y := range x.Columns {
				if y.Ref != nil && y.Ref.Table == t.Name && y.Ref.Column == old {
					y.Ref.Column = n
				}
			}
		}
		for _, ix := range t.Indices {
			for i := range ix.Columns {
				if ix.Columns[i] == old {
					ix.Columns[i] = n
				}
			}
		}
	}
	for k := 1 + r.n(6); k > 0; k-- {
		t := s.Tables[r.n(len(s.Tables))]
		c := t.Columns[r.n(len(t.Columns))]
		switch op := r.n(23); op {
		case 0: // new table
			n := &Tab{Name: fresh(nouns, tabUsed), Group: s.Tables[r.n(len(s.Tables))].Group, Desc: g.text(r)}
			g.columns(r, n)
			at := r.n(len(s.Tables) + 1)
			s.Tables = append(s.Tables[:at:at], append([]*Tab{n}, s.Tables[at:]...)...)
		case 1: // drop table
			if len(s.Tables) > 1 {
				for i := range s.Tables {
					if s.Tables[i] == t {
						dropTable(s, i)
						break
					}
				}
			}
		case 2: // rename table
			old := t.Name
			t.Name = fresh(nouns, tabUsed)
			for _, x := range s.Tables {
				for _, y := range x.Columns {
					if y.Ref != nil && y.Ref.Table == old {
						y.Ref.Table = t.Name
					}
				}
			}
			if o.descs && r.p(1, 3) {
				t.Desc = g.text(r)
			}
		case 3: // two tables exchange names
			u := s.Tables[r.n(len(s.Tables))]
			if u.Group == t.Group && !o.flyway && autoCol(u) == autoCol(t) {
				t.Name, u.Name = u.Name, t.Name
				for _, x := range s.Tables {
					for _, y := range x.Columns {
						y.Ref = nil
					}
				}
			}
		case 4, 5, 6: // new column
			n := &Tab{Name: "zz"}
			g.columns(r, n)
			x := n.Columns[len(n.Columns)-1]
			x.Name = fresh(colNouns, colUsed(t))
			x.PK, x.AutoInc = false, false
			if o.flyway {
				x.Unique = false
			}
			at := r.n(len(t.Columns) + 1)
			t.Columns = append(t.Columns[:at:at], append([]*Col{x}, t.Columns[at:]...)...)
		case 7: // drop column
			if len(t.Columns) > 1 && !o.flyway {
				for i := range t.Columns {
					if t.Columns[i] == c {
						dropCol(s, t, i)
						break
					}
				}
			}
		case 8, 9: // rename column
			if !o.flyway {
				renCol(t, c, fresh(colNouns, colUsed(t)))
			}
		case 10: // two columns exchange names
			d := t.Columns[r.n(len(t.Columns))]
			if d != c && !o.flyway && !c.AutoInc && !d.AutoInc {
				c.Name, d.Name = d.Name, c.Name
				for _, x := range s.Tables {
					for _, y := range x.Columns {
						y.Ref = nil
					}
				}
			}
		case 11: // other type
			if c.AutoInc || lost[c] || o.flyway {
				break
			}
			n := &Tab{Name: "zz"}
			g.columns(r, n)
			x := n.Columns[len(n.Columns)-1]
			c.Type, c.Size, c.Scale, c.Values, c.Default, c.OnUpd, c.Ref = x.Type, x.Size, x.Scale, x.Values, x.Default, x.OnUpd, nil
		case 20: // other values
			if len(c.Values) == 0 || o.flyway {
				break
			}
			c.Values = append([]string{}, c.Values...)
			switch i := r.n(len(c.Values)); {
			case len(c.Values) > 1 && c.Default == "" && r.p(1, 3):
				c.Values = append(c.Values[:i], c.Values[i+1:]...)
			case len(c.Values) > 1 && r.p(1, 3):
				j := r.n(len(c.Values))
				c.Values[i], c.Values[j] = c.Values[j], c.Values[i]
			default:
				c.Values = append(c.Values, fmt.Sprintf("%s%d", r.pick([]string{"it's", "two words", "neu", "x"}), r.n(1000)))
			}
		case 21: // other scale
			if c.Type == "decimal" && !o.flyway {
				c.Scale = (c.Scale + 1 + r.n(3)) % 5
			}
		case 22:
			if c.AutoInc {
				c.AutoInc, lost[c] = false, true
			}
		case 12: // other size
			if c.Size > 0 && !o.flyway {
				c.Size += 1 + r.n(20)
			}
		case 13, 14:
			if !c.PK {
				c.NotNull = !c.NotNull
			}
		case 15:
			if !o.flyway {
				c.Unique = !c.Unique
			}
		case 16: // key change
			if !c.AutoInc && !lost[c] {
				c.PK = !c.PK
				if c.PK {
					c.NotNull = true
				}
			}
		case 17: // default
			if o.flyway {
				break
			}
			switch {
			case c.Default != "":
				c.Default = ""
			case isInt(c.Type) && !c.AutoInc:
				c.Default = fmt.Sprint(r.n(100))
			case c.Type == "varchar" && c.Size > 8:
				c.Default = r.pick([]string{"none", "N/A", "7"})
			case c.Type == "boolean":
				c.Default = r.pick([]string{"true", "false", "0", "1"})
			case c.Type == "datetime":
				c.Default = "fn::CURRENT_TIMESTAMP"
			case c.Type == "decimal":
				c.Default = r.pick([]string{"0", "1.5", "20"})
			}
		case 18:
			if o.descs {
				if r.p(1, 2) {
					t.Desc = g.text(r)
				} else {
					c.Desc = g.text(r)
				}
			}
		case 19:
			if isInt(c.Type) && c.PK && c.Default == "" {
				c.AutoInc = true
			}
		}
	}
	if r.p(1, 8) {
		r.shuffle(len(s.Tables), func(i, j int) { s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i] })
	}
	return s
}

func autoCol(t *Tab) string {
	for _, c := range t.Columns {
		if c.AutoInc {
			return c.Name
		}
	}
	return ""
}

func genVersions(r *rng, o evolveOpt) []*Sch {
	g := genOpt{noIndex: true, noClass: true}
	if o.flyway {
		g.simple = true
	}
	s := genSchema(r, g)
	out := []*Sch{s}
	for n := 1 + r.n(4); n > 0; n-- {
		s = evolveDB(r, g, s, o)
		out = append(out, s)
	}
	return out
}

// migrateFlags are the options shared by the commands of a history.
func migrateFlags(h *Hist, diff bool) (argv []string) {
	if v := h.Opt["suffix"]; v != "" {
		argv = append(argv, "-u", v)
	}
	if h.Opt["comments"] != "" && (diff || h.Model == "liquibase") {
		argv = append(argv, "-c")
	}
	if v, ok := h.Opt["groups"]; ok {
		argv = append(argv, "-g", v)
	}
	if v := h.Opt["author"]; v != "" && diff {
		argv = append(argv, "-a", v)
	}
	return argv
}

func (h *Hist) expect() dbExpect {
	x := dbExpect{suffix: h.Opt["suffix"], comments: h.Opt["comments"] != "", autoSeen: map[string]bool{}}
	if v, ok := h.Opt["groups"]; ok {
		x.groups = strings.Split(v, ",")
	}
	// Liquibase cannot make a column lose its auto increment
	var old map[string]bool
	for _, s := range h.Schemas {
		now := map[string]bool{}
		for _, t := range s.Tables {
			for _, c := range t.Columns {
				if c.AutoInc {
					x.autoSeen[c.Name] = true
					now[c.Type] = true
				} else if old[c.Type] && c.PK {
					x.autoSeen["*"] = true
				}
			}
		}
		old = now
	}
	return x
}

const migDir = "/home/u/ch"

// migration sets up: a command for the first version, one per change, one for
// the last version as a whole.
func migration(first, step, whole []string, ext string) func(h *Hist) *histSetup {
	return func(h *Hist) *histSetup {
		s := &histSetup{Files: map[string][]byte{}, Dirs: []string{migDir}}
		inPlace := h.Opt["layout"] == "in-place"
		var edits [][]Edit
		name := func(k int) string { return fmt.Sprintf("/home/u/db/v%d.json", k+1) }
		if inPlace {
			s.Files["/home/u/db/now.json"] = asWritten(h, 0)
			s.Files["/home/u/db/before.json"] = asWritten(h, 0)
			for k := 1; k < len(h.Schemas); k++ {
				edits = append(edits, []Edit{{Path: "/home/u/db/before.json", Data: asWritten(h, k-1)}, {Path: "/home/u/db/now.json", Data: asWritten(h, k)}})
			}
		} else {
			for k := range h.Schemas {
				s.Files[name(k)] = asWritten(h, k)
			}
		}
		add := func(cmd []string, e []Edit, diff bool, more ...string) {
			argv := append([]string{}, cmd...)
			argv = append(argv, more...)
			argv = append(argv, migrateFlags(h, diff)...)
			s.Cmds = append(s.Cmds, HCmd{Argv: argv, Edits: e})
		}
		in := func(k int) (string, string) {
			if inPlace {
				return "db/before.json", "db/now.json"
			}
			return fmt.Sprintf("db/v%d.json", k), fmt.Sprintf("db/v%d.json", k+1)
		}
		if first != nil {
			_, to := in(0)
			var e []Edit
			if inPlace {
				e = []Edit{{Path: "/home/u/db/now.json", Data: asWritten(h, 0)}}
			}
			add(first, e, false, "-i", to, "-o", "ch/1"+ext)
		}
		for k := 1; k < len(h.Schemas); k++ {
			from, to := in(k)
			var e []Edit
			if inPlace {
				e = edits[k-1]
			}
			add(step, e, true, "-f", from, "-t", to, "-o", fmt.Sprintf("ch/%d%s", k+1, ext))
		}
		if whole != nil {
			_, to := in(len(h.Schemas) - 1)
			var e []Edit
			if inPlace {
				e = []Edit{{Path: "/home/u/db/now.json", Data: asWritten(h, len(h.Schemas)-1)}}
			}
			add(whole, e, false, "-i", to, "-o", "ch/whole"+ext)
		}
		return s
	}
}

func init() {
	histModels["liquibase"] = migration([]string{"generate", "liquibase"}, []string{"diff", "liquibase"}, []string{"generate", "liquibase"}, ".yaml")
	histModels["flyway"] = migration([]string{"export", "mysql"}, []string{"diff", "flyway"}, []string{"export", "mysql"}, ".sql")
	histModels["report"] = migration(nil, []string{"diff", "md"}, nil, ".md")
}

func judgeHist(oracle func(h *Hist, res *Result) string) func(env *Env, c *Case) Verdict {
	return func(env *Env, c *Case) Verdict {
		for _, s := range c.Hist.Schemas {
			if len(s.Tables) == 0 {
				return Verdict{Trivial: true}
			}
		}
		res, _, msg := env.runHist(c.Hist)
		v := Verdict{Res: res, Msg: msg}
		if msg == "" {
			v.Msg = oracle(c.Hist, res)
		}
		return v
	}
}

// ------------------------------------------------------------------ C15

func oracleLiquibase(h *Hist, res *Result) string {
	x := h.expect()
	for _, old := range []bool{false, true} {
		db := newDatabase()
		db.old = old
		r := newRng(h.Seed, "deploy")
		for k := range h.Schemas {
			f := fmt.Sprintf("%s/%d.yaml", migDir, k+1)
			b, ok := res.Final[f]
			if !ok {
				return f + " is missing"
			}
			before := db.things()
			if old || r.p(1, 2) {
				// the deployment is interrupted and repeated
				if err := db.apply(f, []byte(b), r.n(8)); err != nil {
					return err.Error()
				}
			}
			if err := db.apply(f, []byte(b), -1); err != nil {
				return err.Error()
			}
			if m := db.differs(h.Schemas[k], x); m != "" {
				if k == 0 {
					return fmt.Sprintf("after deploying %s: %s", f, m)
				}
				return fmt.Sprintf("after deploying %s (version %d to %d): %s", f, k, k+1, m)
			}
			if k > 0 {
				if m := lostData(before, db.things(), kept(h.Schemas[k-1], h.Schemas[k], x)); m != "" {
					return fmt.Sprintf("after deploying %s (version %d to %d): %s", f, k, k+1, m)
				}
			}
		}
	}
	db := newDatabase()
	f := migDir + "/whole.yaml"
	if err := db.apply(f, []byte(res.Final[f]), -1); err != nil {
		return err.Error()
	}
	if m := db.differs(h.Schemas[len(h.Schemas)-1], x); m != "" {
		return fmt.Sprintf("after deploying %s: %s", f, m)
	}
	return ""
}

// ------------------------------------------------------------------ C16

type sqlDB struct {
	made int
	ids  map[string]int               // which table a name stands for
	tabs map[string]map[string]string // definitions of columns
	pk   map[string]string
}

var spaces = regexp.MustCompile(`\s+`)

func normSQL(s string) string {
	return strings.TrimSpace(spaces.ReplaceAllString(s, " "))
}

func unquote(s string) string { return strings.Trim(strings.TrimSpace(s), "`") }

// statements splits a script at semicolons outside quotes.
func statements(s string) []string {
	var out []string
	q := byte(0)
	from := 0
	for i := 0; i < len(s); i++ {
		switch {
		case q != 0:
			if s[i] == q {
				q = 0
			}
		case s[i] == '\'' || s[i] == '`' || s[i] == '"':
			q = s[i]
		case s[i] == ';':
			if t := normSQL(s[from:i]); t != "" {
				out = append(out, t)
			}
			from = i + 1
		}
	}
	if t := normSQL(s[from:]); t != "" {
		out = append(out, t)
	}
	return out
}

func splitTop(s string) []string {
	var out []string
	depth, from := 0, 0
	q := byte(0)
	for i := 0; i < len(s); i++ {
		switch {
		case q != 0:
			if s[i] == q {
				q = 0
			}
		case s[i] == '\'' || s[i] == '`':
			q = s[i]
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		case s[i] == ',' && depth == 0:
			out = append(out, strings.TrimSpace(s[from:i]))
			from = i + 1
		}
	}
	return append(out, strings.TrimSpace(s[from:]))
}

// closing finds the bracket that closes the one at i.
func closing(s string, i int) int {
	q := byte(0)
	d := 0
	for ; i >= 0 && i < len(s); i++ {
		switch {
		case q != 0:
			if s[i] == '\\' {
				i++
			} else if s[i] == q {
				q = 0
			}
		case s[i] == '\'' || s[i] == '`':
			q = s[i]
		case s[i] == '(':
			d++
		case s[i] == ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func pkList(s string) string {
	s = s[strings.Index(s, "(")+1:]
	s = s[:strings.LastIndex(s, ")")]
	var l []string
	for _, x := range strings.Split(s, ",") {
		l = append(l, unquote(x))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (db *sqlDB) run(script string) error {
	for _, st := range statements(script) {
		if err := db.exec(st); err != nil {
			return fmt.Errorf("%q: %v", head(st, 120), err)
		}
	}
	return nil
}

func (db *sqlDB) exec(st string) error {
	up := strings.ToUpper(st)
	w := strings.Fields(st)
	word := func(i int) string {
		if i < len(w) {
			return unquote(w[i])
		}
		return ""
	}
	table := func(n string) error {
		if db.tabs[n] == nil {
			return fmt.Errorf("no table %s", n)
		}
		return nil
	}
	switch {
	case strings.HasPrefix(up, "CREATE TABLE "):
		rest := strings.TrimSpace(st[len("CREATE TABLE "):])
		if strings.HasPrefix(strings.ToUpper(rest), "IF NOT EXISTS ") {
			rest = rest[len("IF NOT EXISTS "):]
		}
		i := strings.Index(rest, "(")
		j := closing(rest, i)
		if i < 0 || j < i {
			return fmt.Errorf("not a table definition")
		}
		n := unquote(rest[:i])
		if db.tabs[n] != nil {
			return fmt.Errorf("table %s exists", n)
		}
		t := map[string]string{}
		for _, d := range splitTop(rest[i+1 : j]) {
			u := strings.ToUpper(d)
			switch {
			case strings.HasPrefix(u, "PRIMARY KEY"):
				db.pk[n] = pkList(d)
			case strings.HasPrefix(u, "UNIQUE "), strings.HasPrefix(u, "INDEX `"):
			default:
				p := strings.SplitN(d, " ", 2)
				if len(p) < 2 {
					return fmt.Errorf("bad column definition %q", d)
				}
				t[unquote(p[0])] = normSQL(p[1])
			}
		}
		db.tabs[n] = t
		db.made++
		db.ids[n] = db.made
	case strings.HasPrefix(up, "DROP TABLE "):
		if err := table(word(2)); err != nil {
			return err
		}
		delete(db.tabs, word(2))
		delete(db.pk, word(2))
	case strings.HasPrefix(up, "RENAME TABLE "):
		a, b := word(2), word(4)
		if err := table(a); err != nil {
			return err
		}
		if db.tabs[b] != nil || b == "" {
			return fmt.Errorf("table %q exists", b)
		}
		db.tabs[b] = db.tabs[a]
		delete(db.tabs, a)
		db.ids[b] = db.ids[a]
		if k, ok := db.pk[a]; ok {
			db.pk[b] = k
			delete(db.pk, a)
		}
	case strings.HasPrefix(up, "ALTER TABLE "):
		n := word(2)
		if err := table(n); err != nil {
			return err
		}
		act := strings.ToUpper(word(3))
		k := 4
		switch {
		case act == "DROP" && strings.ToUpper(word(4)) == "PRIMARY":
			if _, ok := db.pk[n]; !ok {
				return fmt.Errorf("table %s has no primary key", n)
			}
			delete(db.pk, n)
		case act == "ADD" && strings.ToUpper(word(4)) == "PRIMARY":
			if _, ok := db.pk[n]; ok {
				return fmt.Errorf("table %s has a primary key", n)
			}
			db.pk[n] = pkList(st)
			for _, c := range strings.Split(db.pk[n], ",") {
				if _, ok := db.tabs[n][c]; !ok {
					return fmt.Errorf("no column %s.%s", n, c)
				}
			}
		case act == "ADD" || act == "MODIFY":
			if strings.ToUpper(word(4)) == "COLUMN" {
				k = 5
			}
			c := word(k)
			_, ok := db.tabs[n][c]
			if ok == (act == "ADD") {
				return fmt.Errorf("column %s.%s: exists is %v", n, c, ok)
			}
			if k+1 >= len(w) {
				return fmt.Errorf("no column definition")
			}
			db.tabs[n][c] = strings.Join(w[k+1:], " ")
		default:
			return fmt.Errorf("unknown statement")
		}
	default:
		return fmt.Errorf("unknown statement")
	}
	return nil
}

func newSQL() *sqlDB {
	return &sqlDB{ids: map[string]int{}, tabs: map[string]map[string]string{}, pk: map[string]string{}}
}

// things is what the tables' names stand for.
func (db *sqlDB) things() map[[2]string]interface{} {
	m := map[[2]string]interface{}{}
	for n := range db.tabs {
		m[[2]string{n, ""}] = db.ids[n]
	}
	return m
}

func oracleFlyway(h *Hist, res *Result) string {
	db := newSQL()
	for k := range h.Schemas {
		f := fmt.Sprintf("%s/%d.sql", migDir, k+1)
		b, ok := res.Final[f]
		if !ok {
			return f + " is missing"
		}
		before := db.things()
		if err := db.run(b); err != nil {
			return f + ": " + err.Error()
		}
		if k > 0 {
			if m := lostData(before, db.things(), kept(h.Schemas[k-1], h.Schemas[k], h.expect())); m != "" {
				return f + ": " + m
			}
		}
	}
	want := newSQL()
	if err := want.run(res.Final[migDir+"/whole.sql"]); err != nil {
		return "whole.sql: " + err.Error()
	}
	if a, b := strings.Join(sortedKeys(db.tabs), " "), strings.Join(sortedKeys(want.tabs), " "); a != b {
		return fmt.Sprintf("the scripts lead to the tables [%s] instead of [%s]", a, b)
	}
	x := h.expect()
	last := h.Schemas[len(h.Schemas)-1]
	n := 0
	for _, t := range last.Tables {
		if x.groups != nil && !has(x.groups, t.Group) {
			continue
		}
		n++
		if want.tabs[t.Name] == nil {
			return "whole.sql lacks the table " + t.Name
		}
		for _, c := range t.Columns {
			if want.tabs[t.Name][c.Name] == "" {
				return "whole.sql lacks the column " + t.Name + "." + c.Name
			}
		}
		if len(want.tabs[t.Name]) != len(t.Columns) {
			return "whole.sql has a column of " + t.Name + " that the schema lacks"
		}
	}
	if n != len(want.tabs) {
		return "whole.sql has a table that the schema lacks"
	}
	for _, n := range sortedKeys(want.tabs) {
		a, b := db.tabs[n], want.tabs[n]
		for _, c := range sortedKeys(b) {
			if a[c] != b[c] {
				return fmt.Sprintf("the scripts define %s.%s as %q instead of %q", n, c, a[c], b[c])
			}
		}
		if len(a) != len(b) {
			return fmt.Sprintf("the scripts leave %d columns in %s instead of %d", len(a), n, len(b))
		}
		if db.pk[n] != want.pk[n] {
			return fmt.Sprintf("the scripts leave %s with the primary key (%s) instead of (%s)", n, db.pk[n], want.pk[n])
		}
	}
	return ""
}

// ------------------------------------------------------------------ C17

func mdType(c *Col) string {
	if len(c.Values) > 0 {
		return c.Type + "(" + strings.Join(c.Values, ", ") + ")"
	}
	return fmtType(c)
}

func fmtType(c *Col) string {
	if c.Size == 0 {
		return c.Type
	}
	if c.Scale == 0 {
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)
	}
	return fmt.Sprintf("%s(%d,%d)", c.Type, c.Size, c.Scale)
}

func keyCols(t *Tab, uniq bool) string {
	var l []string
	for _, c := range t.Columns {
		if uniq && c.Unique || !uniq && c.PK {
			l = append(l, c.Name)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

var renameRe = regexp.MustCompile("^rename (table|column):? `(.*)` → `(.*)`$")
var addRe = regexp.MustCompile("^(add|drop) column: `(.*)`$")

func oracleReport(h *Hist, res *Result) string {
	x := h.expect()
	for k := 1; k < len(h.Schemas); k++ {
		f := fmt.Sprintf("%s/%d.md", migDir, k+1)
		b, ok := res.Final[f]
		if !ok {
			return f + " is missing"
		}
		if m := reportDiffers(b, h.Schemas[k-1], h.Schemas[k], x); m != "" {
			return fmt.Sprintf("%s (version %d to %d): %s", f, k, k+1, m)
		}
	}
	return ""
}

func reportDiffers(b string, from, to *Sch, x dbExpect) string {
	byName := func(s *Sch) map[string]*Tab {
		m := map[string]*Tab{}
		for _, t := range s.Tables {
			if x.groups == nil || has(x.groups, t.Group) {
				m[t.Name] = t
			}
		}
		return m
	}
	old, now := byName(from), byName(to)
	for _, v := range []string{"* from: `" + from.Version + "`", "* to: `" + to.Version + "`"} {
		if !strings.Contains(b, v+"\n") {
			return "the report lacks " + strconv.Quote(v)
		}
	}
	sec := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(b, "\n") {
		switch {
		case strings.HasPrefix(l, "## "):
			cur = l[3:]
			if _, dup := sec[cur]; dup {
				return "two sections for " + cur
			}
			sec[cur] = nil
		case strings.HasPrefix(l, "* ") && cur != "":
			sec[cur] = append(sec[cur], l[2:])
		}
	}
	for _, p := range kept(from, to, x) {
		if p.OldCol == "" && p.renamed() && has(sec[p.OldTab], "drop table") {
			return "the " + p.String() + " is reported as dropped"
		}
		if p.OldTab == p.NewTab && p.renamed() && has(sec[p.NewTab], "drop column: `"+p.OldCol+"`") {
			return "the " + p.String() + " is reported as dropped"
		}
	}
	gone, came := map[string]bool{}, map[string]bool{}
	for n := range old {
		if now[n] == nil {
			gone[n] = true
		}
	}
	for n := range now {
		if old[n] == nil {
			came[n] = true
		}
	}
	for _, n := range sortedKeys(sec) {
		lines := sec[n]
		if o, t := old[n], now[n]; o != nil && t != nil {
			if m := tableReport(lines, o, t, x); m != "" {
				return "table " + n + ": " + m
			}
			continue
		}
		seen := map[string]bool{}
		for _, l := range lines {
			if seen[l] {
				return fmt.Sprintf("table %s: %q twice", n, l)
			}
			seen[l] = true
			switch {
			case l == "create table":
				if !came[n] {
					return "table " + n + " is reported as new"
				}
				delete(came, n)
			case l == "drop table":
				if !gone[n] {
					return "table " + n + " is reported as dropped"
				}
				delete(gone, n)
			case renameRe.MatchString(l):
				m := renameRe.FindStringSubmatch(l)
				if m[1] != "table" || !gone[m[2]] || !came[m[3]] {
					return fmt.Sprintf("table %s: wrong line %q", n, l)
				}
				if a, b := colsKey(old[m[2]]), colsKey(now[m[3]]); a != b {
					return fmt.Sprintf("%q: the tables have different columns", l)
				}
				o, t := old[m[2]], now[m[3]]
				delete(gone, m[2])
				delete(came, m[3])
				var want []string
				if u := keyCols(o, true); u != "" {
					want = append(want, "drop unique constraint: ["+u+"]", "create unique constraint: ["+keyCols(t, true)+"]")
				}
				if x.comments && o.Desc != t.Desc {
					want = append(want, "update table comment: `"+t.Desc+"`")
				}
				for _, w := range want {
					if !has(append(append([]string{}, sec[m[2]]...), sec[m[3]]...), w) {
						return fmt.Sprintf("%q is not reported with %q", w, l)
					}
				}
			case strings.HasPrefix(l, "drop unique constraint: "), strings.HasPrefix(l, "create unique constraint: "), strings.HasPrefix(l, "update table comment: ") && x.comments:
			default:
				return fmt.Sprintf("table %s: wrong line %q", n, l)
			}
		}
	}
	for n := range gone {
		return "the report does not tell that the table " + n + " is gone"
	}
	for n := range came {
		return "the report does not tell that the table " + n + " is new"
	}
	for _, n := range sortedKeys(now) {
		if o := old[n]; o != nil {
			if _, ok := sec[n]; !ok {
				if m := tableReport(nil, o, now[n], x); m != "" {
					return "table " + n + ": " + m
				}
			}
		}
	}
	return ""
}

func colsKey(t *Tab) string {
	var l []string
	for _, c := range t.Columns {
		l = append(l, fmt.Sprintf("%s %s %v %v %v %v %s", c.Name, mdType(c), c.NotNull, c.PK, c.Unique, c.AutoInc, c.Default))
	}
	return strings.Join(l, "\n")
}

func tableReport(lines []string, o, t *Tab, x dbExpect) string {
	var want []string
	if x.comments && o.Desc != t.Desc {
		want = append(want, "update table comment: `"+t.Desc+"`")
	}
	oc, tc := map[string]*Col{}, map[string]*Col{}
	for _, c := range o.Columns {
		oc[c.Name] = c
	}
	for _, c := range t.Columns {
		tc[c.Name] = c
		p := oc[c.Name]
		if p == nil {
			continue
		}
		if mdType(p) != mdType(c) {
			want = append(want, fmt.Sprintf("change column type: `%s` :`%s` → `%s`", c.Name, mdType(p), mdType(c)))
		}
		if x.comments && p.Desc != c.Desc {
			want = append(want, fmt.Sprintf("update column comment: `%s` :`%s`", c.Name, c.Desc))
		}
		if p.NotNull != c.NotNull {
			want = append(want, fmt.Sprintf("set %s: `%s`", map[bool]string{true: "not null", false: "nullable"}[c.NotNull], c.Name))
		}
		if p.AutoInc != c.AutoInc {
			want = append(want, fmt.Sprintf("%s auto incremental: `%s`", map[bool]string{true: "set", false: "remove"}[c.AutoInc], c.Name))
		}
		if p.Default != c.Default {
			if c.Default == "" {
				want = append(want, fmt.Sprintf("remove default value: `%s`", c.Name))
			} else {
				want = append(want, fmt.Sprintf("update default value: `%s` : `%s`", c.Name, c.Default))
			}
		}
	}
	if a, b := keyCols(o, false), keyCols(t, false); a != b {
		want = append(want, fmt.Sprintf("update PK: [%s] → [%s]", a, b))
	}
	if a, b := keyCols(o, true), keyCols(t, true); a != b {
		if a != "" {
			want = append(want, "drop unique constraint: ["+a+"]")
		}
		if b != "" {
			want = append(want, "create unique constraint: ["+b+"]")
		}
	}
	left := map[string]int{}
	for _, w := range want {
		left[w]++
	}
	for _, l := range lines {
		if left[l] > 0 {
			left[l]--
			continue
		}
		if m := addRe.FindStringSubmatch(l); m != nil {
			if m[1] == "add" && oc[m[2]] == nil && tc[m[2]] != nil {
				delete(tc, m[2])
				continue
			}
			if m[1] == "drop" && tc[m[2]] == nil && oc[m[2]] != nil {
				delete(oc, m[2])
				continue
			}
		}
		if m := renameRe.FindStringSubmatch(l); m != nil && m[1] == "column" {
			p, c := oc[m[2]], tc[m[3]]
			if p != nil && c != nil && tc[m[2]] == nil && oc[m[3]] == nil {
				if mdType(p) == mdType(c) && p.NotNull == c.NotNull && p.PK == c.PK && p.Unique == c.Unique && p.AutoInc == c.AutoInc && p.Default == c.Default {
					delete(oc, m[2])
					delete(tc, m[3])
					continue
				}
			}
		}
		return fmt.Sprintf("wrong line %q", l)
	}
	for _, w := range want {
		if left[w] > 0 {
			return fmt.Sprintf("the report lacks %q", w)
		}
	}
	for _, n := range sortedKeys(tc) {
		if oc[n] == nil {
			return "the report does not tell that the column " + n + " is new"
		}
	}
	for _, n := range sortedKeys(oc) {
		if tc[n] == nil {
			return "the report does not tell that the column " + n + " is gone"
		}
	}
	return ""
}

// ------------------------------------------------------------------

func migrateOpts(r *rng, h *Hist) {
	if r.p(1, 2) {
		h.Opt["layout"] = "in-place"
	}
	if r.p(1, 2) {
		h.Opt["suffix"] = r.pick([]string{"_UNIQUE", "_uq"})
	}
	if r.p(1, 2) {
		h.Opt["comments"] = "1"
	}
	if r.p(1, 3) {
		h.Opt["author"] = "Choi"
	}
	if r.p(1, 4) {
		gs := h.Schemas[0].groups()
		var pick []string
		for _, g := range gs {
			if g != "" && r.p(1, 2) {
				pick = append(pick, g)
			}
		}
		if len(pick) > 0 {
			h.Opt["groups"] = strings.Join(pick, ",")
		}
	}
}

// histProp registers a property judged on histories.
func histProp(id, model string, quick, deep int, rule string, gen func(r *rng) *Hist, oracle func(h *Hist, res *Result) string) {
	histGens[id], histOracles[id] = gen, oracle
	p := &Property{ID: id, Level: "exploration", Quick: quick, Deep: deep, Judge: judgeHist(oracle), Rule: rule}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		h := gen(r)
		if model != "" {
			h.Model = model
		}
		h.Seed = r.seed()
		var out []*Case
		c := &Case{Prop: id, Sub: "undisturbed", Seed: env.seed, Index: i, Hist: h}
		verdict(env, p, c, &out)
		if len(out) > 0 {
			return out
		}
		res, last, _ := env.runHist(h)
		n := 3
		if env.tier == "thorough" {
			n = 12
		}
		for ; n > 0; n-- {
			d := h.clone()
			d.Seed = r.seed()
			d.plan(r, res, last)
			if len(d.Plan) == 0 && d.MaxRead == 0 && d.MaxWrite == 0 {
				continue
			}
			verdict(env, p, &Case{Prop: id, Sub: "disturbed", Seed: env.seed, Index: i, Hist: d}, &out)
			if len(out) > 0 {
				return out
			}
		}
		return out
	}
	register(p)
}

func init() {
	versions := func(o evolveOpt) func(r *rng) *Hist {
		return func(r *rng) *Hist {
			o := o
			h := &Hist{Opt: map[string]string{}}
			h.Schemas = genVersions(r, o)
			migrateOpts(r, h)
			return h
		}
	}
	histProp("C15", "liquibase", 2500, 8000,
		"a history is a schema in two to five versions (tables and columns added, dropped, renamed and exchanged; types, sizes, keys, defaults, comments changed), one command per step, attempts of commands that are killed, lose power or meet disk errors, and interrupted deployments; the change logs are then applied to a model database; distinct: different system-call trace and final disk",
		versions(evolveOpt{descs: true}), oracleLiquibase)
	histProp("C16", "flyway", 2800, 8000,
		"as C15, with the kinds of changes the flyway writer implements; the scripts are run on a model database and compared with the full export of the last version; distinct: different system-call trace and final disk",
		versions(evolveOpt{flyway: true}), oracleFlyway)
	histProp("C17", "report", 4000, 8000,
		"as C15; every report is compared line by line with an independent comparison of the two versions; distinct: different system-call trace and final disk",
		versions(evolveOpt{descs: true}), oracleReport)
}
