package main

import (
	"encoding/json"
	"strings"
)

// C25: what one command writes, the others read. A schema file is made by init
// or an import and then given to a command that reads schemas; what that gives
// is judged by the oracle of its own property, against the schema file.

var histGens = map[string]func(r *rng) *Hist{}
var histOracles = map[string]func(h *Hist, res *Result) string{}

var pipeReaders = []struct{ prop, model string }{
	{"C18", "export dbml"}, {"C18", "export quickdbd"}, {"C18", "generate plantuml"},
	{"C19", "generate pb"}, {"C19", "generate graphql"},
	{"C20", "generate gorm"}, {"C21", "generate kt"}, {"C22", "generate sqlalchemy"},
	{"C12", "export xlsx, import xlsx"}, {"C13", "export mysql, import mysql"},
}

// pipeHist is [producer, consumer...]; the schema file in between is db.json.
func pipeHist(h *Hist) *histSetup {
	var s *histSetup
	if h.Opt["from"] == "init" {
		s = &histSetup{Files: map[string][]byte{}, Dirs: []string{"/home/u/out"}, Cmds: []HCmd{{Argv: []string{"init", "-o", "db.json"}}}}
	} else {
		p := h.clone()
		p.Model = h.Opt["from"]
		p.Opt = map[string]string{}
		s = histModels[p.Model](p)
		for i, a := range s.Cmds[0].Argv {
			s.Cmds[0].Argv[i] = strings.Replace(a, "out/db.json", "db.json", 1)
		}
	}
	c := h.clone()
	c.Model = h.Opt["to"]
	s.Cmds = append(s.Cmds, histModels[c.Model](c).Cmds...)
	return s
}

func pipeGen(r *rng) *Hist {
	to := pipeReaders[r.n(len(pipeReaders))]
	var c *Hist
	for c == nil || c.Model != to.model && c.Model != "" {
		c = histGens[to.prop](r)
	}
	from := r.pick([]string{"import mysql", "import ojson", "import staruml", "import xlsx", "init"})
	if from == "init" && to.model == "export mysql, import mysql" { // a table named group: known finding of C13
		from = "import mysql"
	}
	prop := "C13"
	if from == "import xlsx" {
		prop = "C12"
	}
	var h *Hist
	for h == nil || h.Model != from && from != "init" || h.Opt["oversize"] != "" {
		h = histGens[prop](r)
	}
	h.Opt = map[string]string{}
	for k, v := range c.Opt {
		switch k {
		case "clash", "clashTable", "plural", "oversize", "relation", "repos", "alias", "excludes":
		case "groups", "prefix":
			if from == "import xlsx" && k == "groups" { // only sheets are groups
				h.Opt[k] = r.pick(h.Schemas[0].groups())
				if h.Opt[k] == "" {
					h.Opt[k] = "Common"
				}
			}
		default:
			h.Opt[k] = v
		}
	}
	s := h.Schemas[0]
	plainNames(s)
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if to.prop == "C12" || to.prop == "C13" {
				c.Default = ""
			}
			if len(c.Values) > 0 || to.prop == "C13" && !has(sqlTypes, c.Type) {
				c.Type, c.Values, c.Default, c.Size, c.Scale = "varchar", nil, "", 20, 0
			}
		}
	}
	h.Opt["from"], h.Opt["to"], h.Opt["prop"] = from, to.model, to.prop
	if from == "init" {
		h.Schemas[0].Tables = h.Schemas[0].Tables[:1]
	}
	return h
}

func init() {
	histModels["pipe"] = pipeHist
	histProp("C25", "pipe", 3000, 15000,
		"a history is a schema file made by init or imported from another format and a command that reads it (every exporter and generator, also with the way back), with killed, power-lost and failing attempts of each before; what is made is judged by the oracle of the reading command against the schema file, and the file by the schema the foreign input was written from; distinct: different system-call trace and final disk",
		pipeGen, func(h *Hist, res *Result) string {
			b, ok := res.Final["/home/u/db.json"]
			if !ok {
				return h.Opt["from"] + ": db.json is missing"
			}
			var s Sch
			if err := json.Unmarshal([]byte(b), &s); err != nil {
				return h.Opt["from"] + ": db.json: " + err.Error()
			}
			if len(s.Tables) == 0 {
				return h.Opt["from"] + ": db.json has no table"
			}
			c := h.clone()
			c.Model = h.Opt["to"]
			c.Schemas[0] = &s
			if m := histOracles[h.Opt["prop"]](c, res); m != "" && !strings.HasSuffix(m, gormKnown) {
				return h.Opt["from"] + ", then " + m
			}
			return ""
		})
}
