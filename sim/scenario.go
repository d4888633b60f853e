package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"sync"
)

// Scen is one invocation of the tool together with the files around it.
type Scen struct {
	Kind    string
	Files   map[string][]byte // everything on disk before the run
	Inputs  []string
	Dirs    []string
	Argv    []string
	Env     []string
	Outs    []string // the requested output: a file, or a directory tree
	OutDir  bool
	Schema  *Sch
	OldOuts []string // outputs of an earlier run that are about to be replaced
	Cwd     string
	opts    []optVal
	noEnv   bool
	once    sync.Once
	aloneR  *Result
}

// alone is the undisturbed run of the command on a disk of its own.
func (env *Env) alone(sc *Scen) *Result {
	sc.once.Do(func() { sc.aloneR = env.run(sc.run1(11)) })
	return sc.aloneR
}

var allKinds = []string{
	"init", "import mysql", "import ojson", "import staruml", "import xlsx",
	"export dbml", "export quickdbd", "export mysql", "export xlsx",
	"generate gorm", "generate graphql", "generate kt", "generate liquibase", "generate plantuml", "generate pb", "generate sqlalchemy",
	"diff flyway", "diff liquibase", "diff md",
}

type scenOpt struct {
	big      bool
	flagsMax bool
	kinds    []string
	old      bool // place older output files at the destination
	tiny     bool
	schema   *Sch
	root     string // relative directory that holds everything
	noEnv    bool   // options on the command line only
	in       string // input path without extension
	stem     string // output path without extension
}

// optVal is an option the scenario sets.
type optVal struct {
	long, val string
	flag      bool
}

func (sc *Scen) flag(r *rng, short, long, env, val string) {
	sc.opts = append(sc.opts, optVal{long: long, val: val})
	switch {
	case env != "" && !sc.noEnv && r.p(1, 8):
		sc.Env = append(sc.Env, env+"="+val)
	case short != "" && r.p(1, 2):
		sc.Argv = append(sc.Argv, "-"+short, val)
	default:
		if r.p(1, 3) {
			sc.Argv = append(sc.Argv, "--"+long+"="+val)
		} else {
			sc.Argv = append(sc.Argv, "--"+long, val)
		}
	}
}

func (sc *Scen) bool(r *rng, short, long, env string) {
	sc.opts = append(sc.opts, optVal{long: long, flag: true})
	switch {
	case env != "" && !sc.noEnv && r.p(1, 8):
		sc.Env = append(sc.Env, env+"=true")
	case short != "" && r.p(1, 2):
		sc.Argv = append(sc.Argv, "-"+short)
	default:
		sc.Argv = append(sc.Argv, "--"+long)
	}
}

func groupArg(r *rng, s *Sch) string {
	var g []string
	for _, x := range s.groups() {
		if x != "" && r.p(2, 3) {
			g = append(g, x)
		}
	}
	if len(g) == 0 {
		for _, x := range s.groups() {
			if x != "" {
				g = append(g, x)
				break
			}
		}
	}
	return strings.Join(g, ",")
}

func mapArg(r *rng, s *Sch, vals []string) string {
	if r.p(1, 3) {
		return vals[r.n(len(vals))]
	}
	var p []string
	for _, g := range s.groups() {
		if g != "" && r.p(2, 3) {
			p = append(p, g+":"+vals[r.n(len(vals))])
		}
	}
	if len(p) == 0 {
		return vals[0]
	}
	return strings.Join(p, ",")
}

func extOf(kind string, r *rng) (ext string, dir bool) {
	switch kind {
	case "init", "import mysql", "import ojson", "import staruml", "import xlsx":
		return r.pick([]string{".json", ".ojson"}), false
	case "export dbml":
		return ".dbml", false
	case "export quickdbd":
		return ".txt", false
	case "export mysql", "diff flyway":
		return ".sql", false
	case "export xlsx":
		return ".xlsx", false
	case "generate gorm":
		return ".go", r.p(1, 3)
	case "generate graphql", "generate kt":
		return "", true
	case "generate liquibase", "diff liquibase":
		return ".yaml", false
	case "generate plantuml":
		return r.pick([]string{".puml", ".plantuml", ".pu"}), r.p(1, 3)
	case "generate pb":
		return ".proto", false
	case "generate sqlalchemy":
		return ".py", r.p(1, 2)
	case "diff md":
		return ".md", false
	}
	return "", false
}

// newScen draws a scenario of the given kind.
func (env *Env) newScen(r *rng, kind string, o scenOpt) *Scen {
	sc := &Scen{Kind: kind, Files: map[string][]byte{}, Cwd: "/home/u", noEnv: o.noEnv}
	sc.Argv = strings.Split(kind, " ")
	g := genOpt{big: o.big}
	var s *Sch
	if o.schema != nil {
		s = o.schema.clone()
	} else {
		if kind == "generate kt" {
			g.pk = true
		}
		if kind == "import xlsx" || kind == "export xlsx" {
			g.noValues = r.p(1, 2) || kind == "import xlsx"
		}
		s = genSchema(r, g)
		if r.p(1, 3) {
			alias(r, s)
		}
	}
	if kind == "export xlsx" || kind == "import xlsx" {
		for _, t := range s.Tables {
			if t.Group == "" {
				t.Group = "base"
			}
		}
	}
	sc.Schema = s
	inDir := r.pick([]string{"", "", "in/", "/data/schema/"})
	if o.root != "" {
		inDir = o.root + "/" + r.pick([]string{"", "in/"})
	}
	in := inDir + r.pick([]string{"db", "schema", "my.model"})
	if o.in != "" {
		in = o.in
	}
	abs := func(p string) string {
		if strings.HasPrefix(p, "/") {
			return path.Clean(p)
		}
		return path.Clean(sc.Cwd + "/" + p)
	}
	addIn := func(p string, b []byte) {
		sc.Files[abs(p)] = b
		sc.Inputs = append(sc.Inputs, abs(p))
	}
	ext, dir := extOf(kind, r)
	stem := r.pick([]string{"out", "result", "gen/out", "gen/result", "/srv/target/out"})
	if o.root != "" {
		stem = o.root + "/" + r.pick([]string{"out", "gen/out"})
	}
	if o.stem != "" {
		stem = o.stem
	}
	out := stem + ext
	if dir {
		out = stem
		if r.p(1, 3) {
			out += "/deep/er"
		}
		if r.p(1, 6) {
			out += "/"
		}
	}
	sc.Dirs = append(sc.Dirs, path.Dir(abs(stem+".x")))
	sc.OutDir = dir || kind == "generate sqlalchemy"
	sc.Outs = []string{abs(out)}
	switch kind {
	case "init":
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
	case "import mysql":
		in += ".sql"
		addIn(in, genSQL(r))
		sc.flag(r, "i", "input", "OCTOPUS_INPUT", in)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
		if r.p(1, 3) {
			sc.flag(r, "a", "author", "OCTOPUS_AUTHOR", "kim")
		}
		if r.p(1, 3) {
			sc.flag(r, "v", "version", "OCTOPUS_VERSION", "3.1")
		}
		if r.p(1, 4) {
			sc.flag(r, "x", "excludes", "OCTOPUS_EXCLUDES", "user,tb_order,item")
		}
	case "import ojson":
		in += r.pick([]string{".json", ".ojson"})
		addIn(in, genOjson(r))
		sc.flag(r, "i", "input", "OCTOPUS_INPUT", in)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
	case "import staruml":
		in += ".mdj"
		addIn(in, genStaruml(r))
		sc.flag(r, "i", "input", "OCTOPUS_INPUT", in)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
	case "import xlsx":
		in += ".xlsx"
		addIn(in, env.xlsxOf(s, r.p(1, 2)))
		sc.flag(r, "i", "input", "OCTOPUS_INPUT", in)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
	case "diff flyway", "diff liquibase", "diff md":
		from, to := in+"-1.json", in+"-2.ojson"
		s2 := evolve(r, s, g)
		addIn(from, s.json())
		addIn(to, s2.json())
		sc.flag(r, "f", "from", "", from)
		sc.flag(r, "t", "to", "", to)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
		if r.p(1, 3) {
			sc.flag(r, "a", "author", "", "kim")
		}
		if r.p(1, 4) {
			sc.flag(r, "g", "groups", "OCTOPUS_GROUPS", groupArg(r, s))
		}
		if r.p(1, 3) {
			sc.flag(r, "u", "uniqueNameSuffix", "OCTOPUS_UNIQUE_NAME_SUFFIX", "_uq")
		}
		if r.p(1, 3) {
			sc.bool(r, "c", "comments", "")
		}
	default:
		in += r.pick([]string{".json", ".json", ".ojson"})
		addIn(in, s.json())
		sc.flag(r, "i", "input", "OCTOPUS_INPUT", in)
		sc.flag(r, "o", "output", "OCTOPUS_OUTPUT", out)
		den := 3
		opt := func() bool { return r.p(1, den) }
		ga := func(short string) {
			if r.p(1, 4) {
				sc.flag(r, short, "groups", "OCTOPUS_GROUPS", groupArg(r, s))
			}
		}
		pfx := []string{"App", "Db", "X"}
		switch kind {
		case "export dbml":
			ga("g")
		case "export mysql":
			ga("g")
			if opt() {
				sc.flag(r, "u", "uniqueNameSuffix", "OCTOPUS_UNIQUE_NAME_SUFFIX", "_uq")
			}
		case "export xlsx":
			if opt() {
				sc.bool(r, "", "useNullColumn", "")
			}
		case "generate gorm":
			ga("g")
			if r.p(1, 2) {
				sc.flag(r, "e", "embed", "", r.pick([]string{"Audit:created_at,updated_at", "Base:id", "Base:id,created_at", "x.Model:id,created_at,updated_at,deleted_at"}))
			}
			if opt() {
				sc.flag(r, "k", "package", "", "model")
			}
			if opt() {
				sc.flag(r, "p", "prefix", "OCTOPUS_PREFIX", mapArg(r, s, pfx))
			}
			if opt() {
				sc.flag(r, "r", "removePrefix", "", r.pick([]string{"tb_", "t_,app_"}))
			}
			if opt() {
				sc.bool(r, "a", "pointerAssociation", "")
			}
			if opt() {
				sc.flag(r, "u", "uniqueNameSuffix", "", "_uq")
			}
		case "generate graphql":
			// OutDir; flags below are shared names
			if opt() {
				sc.flag(r, "p", "graphqlPackage", "", "x")
			}
		case "generate kt":
			ga("g")
			sc.flag(r, "p", "package", "OCTOPUS_PACKAGE", r.pick([]string{"com.x", "a", "com.acme.deep.model"}))
			if opt() {
				sc.flag(r, "a", "annotation", "", mapArg(r, s, []string{"@A", "@B;@C"}))
			}
			if opt() {
				sc.flag(r, "e", "idEntity", "", "IdEntity")
			}
			if opt() {
				sc.flag(r, "f", "prefix", "", mapArg(r, s, pfx))
			}
			if opt() && !contains(sc.Argv, "groups") && !contains(sc.Env, "GROUPS") && !contains(sc.Argv, "-g") {
				sc.flag(r, "l", "relation", "", "VRelation")
			}
			if opt() {
				sc.flag(r, "d", "removePrefix", "", "tb_,t_")
			}
			if r.p(1, 2) {
				sc.flag(r, "r", "reposPackage", "", r.pick([]string{"com.x.repos", "r"}))
			}
			if opt() {
				sc.flag(r, "q", "uniqueNameSuffix", "", "_uq")
			}
			if opt() {
				sc.bool(r, "u", "useUTC", "")
			}
		case "generate liquibase":
			ga("g")
			if opt() {
				sc.flag(r, "u", "uniqueNameSuffix", "", "_uq")
			}
			if opt() {
				sc.bool(r, "c", "comments", "")
			}
		case "generate pb":
			if opt() {
				sc.flag(r, "", "goPackage", "", "proto/x")
			}
			if opt() {
				sc.flag(r, "p", "package", "", "com.x")
			}
			if opt() {
				sc.flag(r, "f", "prefix", "", mapArg(r, s, pfx))
			}
			if opt() {
				sc.flag(r, "d", "removePrefix", "", "tb_")
			}
			if opt() {
				sc.flag(r, "", "relationTagStart", "", r.pick([]string{"-1", "20", "3", "100"}))
			}
			if opt() {
				sc.bool(r, "", "relationTagDecr", "")
			}
		case "generate sqlalchemy":
			ga("g")
			if opt() {
				sc.flag(r, "p", "prefix", "", mapArg(r, s, pfx))
			}
			if opt() {
				sc.flag(r, "r", "removePrefix", "", "tb_,app_")
			}
			if opt() {
				sc.flag(r, "u", "uniqueNameSuffix", "", "_uq")
			}
			if opt() {
				sc.bool(r, "t", "useUTC", "")
			}
		}
	}
	// bystanders that no run may touch
	od := path.Dir(sc.Outs[0])
	for _, p := range []string{od + "/neighbour.txt", "/home/u/notes.md", "/home/u/.profile", od + "/out.bak"} {
		if sc.Files[p] == nil && !(sc.OutDir && underAny(p, sc.Outs)) {
			sc.Files[p] = []byte("bystander " + p + "\n")
		}
	}
	return sc
}

func contains(ss []string, sub string) bool {
	for _, s := range ss {
		if strings.Contains(s, sub) {
			return true
		}
	}
	return false
}

func (sc *Scen) spec(seed uint64) ProcSpec {
	return ProcSpec{Argv: sc.Argv, Env: sc.Env, Cwd: sc.Cwd, Seed: seed}
}

func (sc *Scen) world(phases ...[]ProcSpec) *World {
	w := &World{Files: map[string][]byte{}, Dirs: append([]string{}, sc.Dirs...), Phases: phases}
	for p, b := range sc.Files {
		w.Files[p] = b
	}
	return w
}

func (sc *Scen) run1(seed uint64, faults ...Fault) *World {
	w := sc.world([]ProcSpec{sc.spec(seed)})
	w.Faults = faults
	return w
}

// outTree is what the run left at the requested output (canonical form).
func (sc *Scen) outTree(t Tree) Tree {
	o := Tree{}
	for p, c := range t {
		if !underAny(p, sc.Outs) {
			continue
		}
		if strings.HasSuffix(p, "/") {
			continue
		}
		o[p] = canon(p, c)
	}
	return o
}

// canon maps a spreadsheet (a zip archive whose member order is not part of
// the result) to its sorted members; other files are compared byte for byte.
func canon(p, c string) string {
	if !strings.HasSuffix(p, ".xlsx") {
		return c
	}
	z, err := zip.NewReader(bytes.NewReader([]byte(c)), int64(len(c)))
	if err != nil {
		return "BROKEN ZIP (" + fmt.Sprint(len(c)) + " bytes) " + c
	}
	var parts []string
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			return "BROKEN ZIP " + c
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return "BROKEN ZIP " + c
		}
		parts = append(parts, f.Name+"\x00"+string(b))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\x01")
}

// outside is everything except the requested output and the directories
// leading to it.
func (sc *Scen) outside(t Tree) Tree {
	o := Tree{}
	for p, c := range t {
		if underAny(p, sc.Outs) {
			continue
		}
		if strings.HasSuffix(p, "/") && underAny(sc.Outs[0], []string{strings.TrimSuffix(p, "/")}) {
			continue
		}
		o[p] = c
	}
	return o
}

func diffTree(a, b Tree) string {
	var d []string
	for _, p := range a.keys() {
		v, ok := b[p]
		if !ok {
			d = append(d, p+" is missing")
		} else if v != a[p] {
			d = append(d, p+" differs: "+firstDiff(a[p], v))
		}
	}
	for _, p := range b.keys() {
		if _, ok := a[p]; !ok {
			d = append(d, p+" is unexpected")
		}
	}
	if len(d) > 4 {
		d = append(d[:4], fmt.Sprintf("(%d more)", len(d)-4))
	}
	return strings.Join(d, "; ")
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-20, i+40
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d of %d/%d: %q vs %q", i, len(a), len(b), cut(a), cut(b))
}

func (sc *Scen) copy() *Scen {
	d := &Scen{Kind: sc.Kind, Inputs: sc.Inputs, Dirs: sc.Dirs, Argv: sc.Argv, Env: sc.Env, Outs: sc.Outs, OutDir: sc.OutDir, Schema: sc.Schema, OldOuts: sc.OldOuts, Cwd: sc.Cwd, opts: sc.opts, noEnv: sc.noEnv, Files: map[string][]byte{}}
	for p, b := range sc.Files {
		d.Files[p] = b
	}
	return d
}
