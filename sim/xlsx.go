package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"path"
	"regexp"
	"strings"
)

// A small reader and writer of spreadsheets, and the documented layout of a
// schema in one (docs/xlsx.md), independent of the code under test.

type xsheet struct {
	name string
	rows [][]string
}

func colLetter(i int) string { return string(rune('A' + i)) }

func writeXlsx(sheets []xsheet, r *rng) []byte {
	var shared []string
	idx := map[string]int{}
	useShared := r.p(1, 2)
	esc := func(s string) string {
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	put := func(n, s string) {
		w, _ := z.Create(n)
		io.WriteString(w, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\n"+s)
	}
	var ct, wb, rel strings.Builder
	for i, s := range sheets {
		fmt.Fprintf(&ct, `<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>`, i+1)
		fmt.Fprintf(&wb, `<sheet name="%s" sheetId="%d" r:id="rId%d"/>`, esc(s.name), i+1, i+1)
		fmt.Fprintf(&rel, `<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%d.xml"/>`, i+1, i+1)
		var d strings.Builder
		w := 1
		for _, row := range s.rows {
			if len(row) > w {
				w = len(row)
			}
		}
		fmt.Fprintf(&d, `<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><dimension ref="A1:%s%d"/><sheetData>`, colLetter(w-1), len(s.rows))
		for k, row := range s.rows {
			fmt.Fprintf(&d, `<row r="%d">`, k+1)
			for c, v := range row {
				if v == "" && r.p(2, 3) {
					continue
				}
				ref := fmt.Sprintf("%s%d", colLetter(c), k+1)
				if useShared {
					n, ok := idx[v]
					if !ok {
						n = len(shared)
						idx[v] = n
						shared = append(shared, v)
					}
					fmt.Fprintf(&d, `<c r="%s" t="s"><v>%d</v></c>`, ref, n)
				} else {
					fmt.Fprintf(&d, `<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>`, ref, esc(v))
				}
			}
			d.WriteString(`</row>`)
		}
		d.WriteString(`</sheetData></worksheet>`)
		put(fmt.Sprintf("xl/worksheets/sheet%d.xml", i+1), d.String())
	}
	var ss strings.Builder
	fmt.Fprintf(&ss, `<sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="%d" uniqueCount="%d">`, len(shared), len(shared))
	for _, v := range shared {
		fmt.Fprintf(&ss, `<si><t xml:space="preserve">%s</t></si>`, esc(v))
	}
	ss.WriteString(`</sst>`)
	put("xl/sharedStrings.xml", ss.String())
	n := len(sheets)
	fmt.Fprintf(&rel, `<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/><Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/>`, n+1, n+2)
	put("xl/styles.xml", `<styleSheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><fonts count="1"><font><sz val="10"/><name val="Arial"/></font></fonts><fills count="1"><fill><patternFill patternType="none"/></fill></fills><borders count="1"><border/></borders><cellStyleXfs count="1"><xf/></cellStyleXfs><cellXfs count="1"><xf/></cellXfs></styleSheet>`)
	put("xl/workbook.xml", `<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets>`+wb.String()+`</sheets></workbook>`)
	put("xl/_rels/workbook.xml.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`+rel.String()+`</Relationships>`)
	put("_rels/.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	put("[Content_Types].xml", `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/sharedStrings.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"/><Override PartName="/xl/styles.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"/>`+ct.String()+`</Types>`)
	z.Close()
	return buf.Bytes()
}

var cellRef = regexp.MustCompile(`^([A-Z]+)([0-9]+)$`)

func readXlsx(b []byte) ([]xsheet, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	part := func(n string, v interface{}) error {
		for _, f := range z.File {
			if f.Name == n {
				r, err := f.Open()
				if err != nil {
					return err
				}
				d, err := io.ReadAll(r)
				if err != nil {
					return err
				}
				return xml.Unmarshal(d, v)
			}
		}
		return fmt.Errorf("the part %s is missing", n)
	}
	type text struct {
		T string `xml:"t"`
		R []struct {
			T string `xml:"t"`
		} `xml:"r"`
	}
	plainText := func(t text) string {
		s := t.T
		for _, x := range t.R {
			s += x.T
		}
		return s
	}
	var wb struct {
		Sheets []struct {
			Name string `xml:"name,attr"`
			ID   string `xml:"id,attr"`
		} `xml:"sheets>sheet"`
	}
	if err := part("xl/workbook.xml", &wb); err != nil {
		return nil, err
	}
	var rels struct {
		R []struct {
			ID     string `xml:"Id,attr"`
			Target string `xml:"Target,attr"`
		} `xml:"Relationship"`
	}
	if err := part("xl/_rels/workbook.xml.rels", &rels); err != nil {
		return nil, err
	}
	var sst struct {
		SI []text `xml:"si"`
	}
	part("xl/sharedStrings.xml", &sst)
	var out []xsheet
	for _, s := range wb.Sheets {
		x := xsheet{name: s.Name}
		for _, r := range rels.R {
			if r.ID != s.ID {
				continue
			}
			var ws struct {
				Rows []struct {
					R  int `xml:"r,attr"`
					Cs []struct {
						R  string `xml:"r,attr"`
						T  string `xml:"t,attr"`
						V  string `xml:"v"`
						Is text   `xml:"is"`
					} `xml:"c"`
				} `xml:"sheetData>row"`
			}
			if err := part(path.Join("xl", r.Target), &ws); err != nil {
				return nil, err
			}
			for _, row := range ws.Rows {
				for row.R > 0 && len(x.rows) < row.R-1 {
					x.rows = append(x.rows, nil)
				}
				var cells []string
				for _, c := range row.Cs {
					v := c.V
					switch c.T {
					case "s":
						if v == "" {
							break
						}
						var n int
						fmt.Sscan(v, &n)
						if n >= len(sst.SI) {
							return nil, fmt.Errorf("cell %s refers to a shared string that does not exist", c.R)
						}
						v = plainText(sst.SI[n])
					case "inlineStr":
						v = plainText(c.Is)
					}
					if m := cellRef.FindStringSubmatch(c.R); m != nil {
						for len(cells) < int(m[1][0]-'A') {
							cells = append(cells, "")
						}
					}
					cells = append(cells, v)
				}
				x.rows = append(x.rows, cells)
			}
		}
		out = append(out, x)
	}
	return out, nil
}

// schemaSheets lays a schema out as documented.
func schemaSheets(s *Sch, seed uint64) []xsheet {
	top := newRng(seed, "sheets")
	out := []xsheet{{name: "Meta", rows: [][]string{{"author", s.Author}, {"name", s.Name}, {"version", s.Version}}}}
	useNull := top.p(1, 3)
	mixed := top.p(1, 3)
	layouts := map[int]bool{}
	if top.p(1, 3) {
		out[0].rows = append(out[0].rows, []string{"note", "not for octopus"})
	}
	by := map[string]int{}
	for _, t := range s.Tables {
		r := newRng(seed, "sheets", t.Name)
		g := t.Group
		if g == "" {
			g = "Common"
		}
		i, ok := by[g]
		if !ok {
			i = len(out)
			by[g] = i
			if mixed {
				useNull = top.p(1, 2)
			}
			layouts[i] = useNull
			h := "not null"
			if useNull {
				h = "nullable"
			}
			out = append(out, xsheet{name: g, rows: [][]string{{"table/ref.", "column", "type", "key", h, "attributes", "description"}}})
		} else if r.p(2, 3) {
			out[i].rows = append(out[i].rows, nil)
		}
		pad := func(s string) string {
			if r.p(1, 12) {
				return " " + s + " "
			}
			return s
		}
		row := func(c ...string) {
			for len(c) > 0 && c[len(c)-1] == "" && r.p(1, 2) {
				c = c[:len(c)-1]
			}
			for k := range c {
				if c[k] != "" {
					c[k] = pad(c[k])
				}
			}
			out[i].rows = append(out[i].rows, c)
		}
		attr := ""
		if t.Class != "" {
			attr = "class=" + t.Class
		}
		row(t.Name, "", "table", "", "", attr, t.Desc)
		for _, c := range t.Columns {
			ref := ""
			if c.Ref != nil {
				ref = map[string]string{"n:1": ">", "1:n": "<", "1:1": "-"}[c.Ref.Relationship]
				if ref == ">" && r.p(1, 3) {
					ref = ""
				}
				ref += c.Ref.Table + "." + c.Ref.Column
			}
			key := ""
			if c.PK {
				key = "P"
			} else if c.Unique {
				key = "U"
			}
			null := ""
			if c.NotNull != layouts[i] {
				null = "O"
			}
			ty := fmtType(c)
			if r.p(1, 3) {
				ty = strings.Replace(ty, ",", ", ", 1)
			}
			var at []string
			if c.AutoInc {
				at = append(at, r.pick([]string{"autoinc", "autoInc"}))
			}
			if c.Default != "" {
				at = append(at, "default="+c.Default)
			}
			if c.OnUpd != "" {
				at = append(at, "onUpdate="+c.OnUpd)
			}
			row(ref, c.Name, ty, key, null, strings.Join(at, r.pick([]string{",", ", "})), c.Desc)
		}
		for _, x := range t.Indices {
			for _, c := range x.Columns {
				row(x.Name, c, "", "I", "", "", "")
			}
		}
	}
	return out
}

var sheetType = regexp.MustCompile(`^([A-Za-z]+[0-9]*)(?:\((\d+)(?:,\s*(\d+))?\))?$`)

// sheetsSchema reads a laid out schema as the documentation says.
func sheetsSchema(sheets []xsheet) (*Sch, error) {
	s := &Sch{}
	for _, x := range sheets {
		if x.name == "Meta" {
			for _, r := range x.rows {
				if len(r) < 2 {
					continue
				}
				switch r[0] {
				case "author":
					s.Author = r[1]
				case "name":
					s.Name = r[1]
				case "version":
					s.Version = r[1]
				}
			}
			continue
		}
		var t *Tab
		useNull := false
		for k, r := range x.rows {
			r = append(append([]string{}, r...), "", "", "", "", "", "", "")
			for i := range r {
				r[i] = strings.TrimSpace(r[i])
			}
			if k == 0 {
				switch r[4] {
				case "nullable":
					useNull = true
				case "not null":
				default:
					return nil, fmt.Errorf("sheet %s: the fifth column is headed %q", x.name, r[4])
				}
				continue
			}
			at := map[string]string{}
			for _, a := range strings.Split(r[5], ",") {
				kv := strings.SplitN(strings.TrimSpace(a), "=", 2)
				if len(kv) == 2 {
					at[kv[0]] = kv[1]
				} else if kv[0] != "" {
					at[strings.ToLower(kv[0])] = "true"
				}
			}
			if r[2] == "table" {
				t = &Tab{Name: r[0], Group: x.name, Class: at["class"], Desc: r[6]}
				s.Tables = append(s.Tables, t)
				continue
			}
			if r[1] == "" {
				continue
			}
			if t == nil {
				return nil, fmt.Errorf("sheet %s, row %d: a column outside of tables", x.name, k+1)
			}
			if r[3] == "I" {
				var ix *Idx
				for _, i := range t.Indices {
					if i.Name == r[0] {
						ix = i
					}
				}
				if ix == nil {
					ix = &Idx{Name: r[0]}
					t.Indices = append(t.Indices, ix)
				}
				ix.Columns = append(ix.Columns, r[1])
				continue
			}
			m := sheetType.FindStringSubmatch(r[2])
			if m == nil {
				return nil, fmt.Errorf("sheet %s, row %d: %q is no type", x.name, k+1, r[2])
			}
			c := &Col{Name: r[1], Type: m[1], PK: r[3] == "P", Unique: r[3] == "U", NotNull: (r[4] == "O") != useNull, AutoInc: at["autoinc"] != "", Default: at["default"], OnUpd: at["onUpdate"], Desc: r[6]}
			fmt.Sscan(m[2], &c.Size)
			fmt.Sscan(m[3], &c.Scale)
			if r[0] != "" {
				rel := "n:1"
				ref := r[0]
				switch ref[0] {
				case '<':
					rel, ref = "1:n", ref[1:]
				case '-':
					rel, ref = "1:1", ref[1:]
				case '>':
					ref = ref[1:]
				}
				p := strings.SplitN(ref, ".", 2)
				if len(p) != 2 {
					return nil, fmt.Errorf("sheet %s, row %d: %q is no reference", x.name, k+1, r[0])
				}
				c.Ref = &Ref{Table: p[0], Column: p[1], Relationship: rel}
			}
			t.Columns = append(t.Columns, c)
		}
	}
	return s, nil
}

// sheetLosses is what a spreadsheet keeps of a schema.
func sheetLosses(s *Sch) *Sch {
	s = s.clone()
	for _, t := range s.Tables {
		if t.Group == "" {
			t.Group = "Common"
		}
		t.Desc = strings.TrimSpace(t.Desc)
		for _, c := range t.Columns {
			c.Desc = strings.TrimSpace(c.Desc)
			c.Values = nil
			if c.PK {
				c.Unique = false
			}
			if c.Ref != nil && c.Ref.Relationship == "" {
				c.Ref.Relationship = "n:1"
			}
		}
	}
	return s
}

var emptyValues = regexp.MustCompile(`^oct import xlsx .* fails although no fault is left: exit 1: .*table: '([A-Za-z_0-9]+)': column '([A-Za-z_0-9]+)' has invalid values: (?:empty|invalud set member count: 0)`)

var cutDefault = regexp.MustCompile(`: default is "([^"]*)" instead of "([^"]*,[^"]*)"$`)

func init() {
	histModels["import xlsx"] = importHist("xlsx", ".xlsx", func(h *Hist) []byte {
		return writeXlsx(schemaSheets(h.Schemas[0], h.TextSeed), newRng(h.TextSeed, "zip"))
	})
	histModels["export xlsx, import xlsx"] = func(h *Hist) *histSetup {
		s := &histSetup{Files: map[string][]byte{"/home/u/db.json": asWritten(h, 0)}, Dirs: []string{"/home/u/out"}}
		ex := []string{"export", "xlsx", "-i", "db.json", "-o", "out/db.xlsx"}
		if v := h.Opt["null"]; v != "" {
			ex = append(ex, v)
		}
		s.Cmds = append(s.Cmds, HCmd{Argv: ex}, HCmd{Argv: []string{"import", "xlsx", "-i", "out/db.xlsx", "-o", "out/db.json"}})
		if h.Opt["again"] != "" {
			s.Cmds = append(s.Cmds, HCmd{Argv: []string{"export", "xlsx", "-i", "out/db.json", "-o", "out/db2.xlsx"}}, HCmd{Argv: []string{"import", "xlsx", "-i", "out/db2.xlsx", "-o", "out/db.json"}})
		}
		return s
	}
	gen := func(r *rng) *Hist {
		h := &Hist{Opt: map[string]string{}, TextSeed: r.seed(), Schemas: []*Sch{genSchema(r, genOpt{noValues: !r.p(1, 20)})}}
		if r.p(1, 3) {
			h.Model = "import xlsx"
			oversize(r, h)
			return h
		}
		h.Model = "export xlsx, import xlsx"
		if r.p(1, 3) {
			h.Opt["null"] = r.pick([]string{"--useNullColumn", "--useNullColumn=true"})
		}
		if r.p(1, 4) {
			h.Opt["again"] = "1"
		}
		if gs := h.Schemas[0].groups(); r.p(1, 12) && gs[0] != "" {
			// a group that may not be the name of a sheet
			n := r.pick([]string{"Meta", "Common", "a/b", "x:y", "q?", "who*", "[a]", "b\\c", "'a'", "two words", "모든 사람들", "a-very-long-name-of-a-group-of-tables", "thirty-one-characters-in-a-name", "meta", "R&D <x>"})
			g := r.pick(gs)
			for _, t := range h.Schemas[0].Tables {
				if t.Group == g {
					t.Group = n
				}
			}
			h.Opt["oversize"] = n
		}
		return h
	}
	histProp("C12", "", 2500, 15000,
		"a history is a schema laid out in a spreadsheet as documented and imported, or a schema exported to a spreadsheet (with either kind of null column) and imported again, once or twice, with killed, power-lost and failing attempts before; the exported sheets are read by an independent reader, and both they and the imported schema compared attribute by attribute with the schema; distinct: different system-call trace and final disk",
		gen, func(h *Hist, res *Result) string {
			want := sheetLosses(h.Schemas[0])
			if h.Model == "export xlsx, import xlsx" {
				b, ok := res.Final["/home/u/out/db.xlsx"]
				if !ok && h.Opt["oversize"] != "" && refused(res) {
					return ""
				}
				if !ok {
					return "out/db.xlsx is missing"
				}
				sheets, err := readXlsx([]byte(b))
				if err != nil {
					return "out/db.xlsx: " + err.Error()
				}
				for _, x := range sheets {
					for k, r := range x.rows {
						null := len(r) > 4 && k == 0 && r[4] == "nullable"
						if x.name != "Meta" && k == 0 && null != (h.Opt["null"] != "") {
							return fmt.Sprintf("sheet %s is headed %q, useNullColumn is %q", x.name, r, h.Opt["null"])
						}
					}
				}
				got, err := sheetsSchema(sheets)
				if err != nil {
					return "out/db.xlsx: " + err.Error()
				}
				if m := schemaDiffers(want, got); m != "" {
					return "the exported spreadsheet: " + m
				}
			}
			return importOracle(func(h *Hist) *Sch { return want })(h, res)
		})
	knownKey("C12", func(h *Hist, msg string) string {
		if m := cutDefault.FindStringSubmatch(msg); m != nil && m[1] == strings.TrimSpace(strings.SplitN(m[2], ",", 2)[0]) {
			return "spreadsheet: default value with a comma"
		}
		if m := emptyValues.FindStringSubmatch(msg); m != nil {
			for _, t := range h.Schemas[0].Tables {
				for _, c := range t.Columns {
					if t.Name == m[1] && c.Name == m[2] && (c.Type == "enum" || c.Type == "set") {
						return "spreadsheet: enum and set columns"
					}
				}
			}
		}
		return ""
	})
}
