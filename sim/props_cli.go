package main

import (
	"fmt"
	"strings"
)

// ------------------------------------------------------------------ C11
// The command line: documented spellings of options are interchangeable, and
// wrong command lines are rejected without a trace.

var cliOpts = func() map[string][]optSpec {
	in := optSpec{long: "input", short: "i", env: "OCTOPUS_INPUT"}
	out := optSpec{long: "output", short: "o", env: "OCTOPUS_OUTPUT"}
	groups := optSpec{long: "groups", short: "g", env: "OCTOPUS_GROUPS"}
	suffix := func(short string) optSpec {
		return optSpec{long: "uniqueNameSuffix", short: short, env: "OCTOPUS_UNIQUE_NAME_SUFFIX"}
	}
	prefix := func(short string) optSpec { return optSpec{long: "prefix", short: short, env: "OCTOPUS_PREFIX"} }
	remove := func(short string) optSpec {
		return optSpec{long: "removePrefix", short: short, env: "OCTOPUS_REMOVE_PREFIX"}
	}
	pkg := func(short string) optSpec {
		return optSpec{long: "package", short: short, env: "OCTOPUS_PACKAGE"}
	}
	utc := func(short string) optSpec {
		return optSpec{long: "useUTC", short: short, env: "OCTOPUS_USE_UTC", flag: true}
	}
	comments := optSpec{long: "comments", short: "c", env: "OCTOPUS_COMMENTS", flag: true}
	author := optSpec{long: "author", short: "a", env: "OCTOPUS_AUTHOR"}
	diff := []optSpec{author, {long: "from", short: "f", env: "OCTOPUS_FROM"}, groups, out, {long: "to", short: "t", env: "OCTOPUS_TO"}, suffix("u"), comments}
	return map[string][]optSpec{
		"init":                {out},
		"import mysql":        {author, in, out, {long: "excludes", short: "x", env: "OCTOPUS_EXCLUDES"}, {long: "version", short: "v", env: "OCTOPUS_VERSION"}},
		"import ojson":        {in, out},
		"import staruml":      {in, out},
		"import xlsx":         {in, out},
		"export dbml":         {in, out, groups},
		"export quickdbd":     {in, out},
		"export mysql":        {in, out, groups, suffix("u")},
		"export xlsx":         {in, out, {long: "useNullColumn", env: "OCTOPUS_USE_NULL_COLUMN", flag: true}},
		"generate gorm":       {in, out, {long: "pointerAssociation", short: "a", env: "OCTOPUS_POINTER_ASSOCIATION", flag: true}, {long: "embed", short: "e", env: "OCTOPUS_EMBED"}, groups, pkg("k"), prefix("p"), remove("r"), suffix("u")},
		"generate graphql":    {in, out, {long: "graphqlPackage", short: "p", env: "OCTOPUS_GRAPHQL_PACKAGE"}},
		"generate kt":         {in, out, {long: "annotation", short: "a", env: "OCTOPUS_ANNOTATION"}, groups, {long: "idEntity", short: "e", env: "OCTOPUS_ID_ENTITY"}, pkg("p"), prefix("f"), {long: "relation", short: "l", env: "OCTOPUS_RELATION"}, remove("d"), {long: "reposPackage", short: "r", env: "OCTOPUS_REPOS_PACKAGE"}, suffix("q"), utc("u")},
		"generate liquibase":  {in, out, groups, suffix("u"), comments},
		"generate plantuml":   {in, out},
		"generate pb":         {in, out, {long: "goPackage", env: "OCTOPUS_GO_PACKAGE"}, groups, pkg("p"), prefix("f"), remove("d"), {long: "relationTagDecr", env: "OCTOPUS_RELATION_TAG_DECR", flag: true}, {long: "relationTagStart", env: "OCTOPUS_RELATION_TAG_START"}},
		"generate sqlalchemy": {in, out, groups, prefix("p"), remove("r"), suffix("u"), utc("t")},
		"diff flyway":         diff,
		"diff liquibase":      diff,
		"diff md":             diff,
	}
}()

func cliSpec(kind, long string) optSpec {
	for _, s := range cliOpts[kind] {
		if s.long == long {
			return s
		}
	}
	return optSpec{long: long}
}

// respell states the options of a scenario anew. With plain set, every option
// is given in its long form, in the order of the documentation.
func respell(r *rng, sc *Scen, plain bool) *Scen {
	d := sc.copy()
	d.Env, d.Argv = nil, strings.Split(sc.Kind, " ")
	set := map[string]bool{}
	var parts [][]string
	for _, o := range sc.opts {
		set[o.long] = true
		s := cliSpec(sc.Kind, o.long)
		k := 0
		if !plain {
			k = r.n(6)
		}
		if s.short == "" && (k == 2 || k == 3) {
			k -= 2
		}
		if s.env == "" && k > 3 {
			k = 0
		}
		if o.flag {
			parts = append(parts, []([]string){{"--" + s.long}, {"--" + s.long + "=true"}, {"-" + s.short}, {"-" + s.short + "=true"}, nil, {"--" + s.long}}[k])
			switch k {
			case 4:
				d.Env = append(d.Env, s.env+"="+r.pick([]string{"true", "1", "TRUE", "t"}))
			case 5: // the command line counts, not the environment
				d.Env = append(d.Env, s.env+"=false")
			}
			continue
		}
		parts = append(parts, []([]string){{"--" + s.long, o.val}, {"--" + s.long + "=" + o.val}, {"-" + s.short, o.val}, {"-" + s.short + "=" + o.val}, nil, {"--" + s.long, o.val}}[k])
		switch k {
		case 4:
			d.Env = append(d.Env, s.env+"="+o.val)
		case 5:
			d.Env = append(d.Env, s.env+"="+r.pick([]string{"zzz", "base", "/home/u/other.json", "-1", "a:b,c:d"}))
		}
	}
	if !plain {
		for i := len(parts) - 1; i > 0; i-- {
			j := r.n(i + 1)
			parts[i], parts[j] = parts[j], parts[i]
		}
		for _, s := range cliOpts[sc.Kind] {
			switch {
			case set[s.long]:
			case r.p(1, 6): // set, but to nothing
				d.Env = append(d.Env, s.env+"=")
			case s.flag && r.p(1, 4):
				if r.p(1, 2) {
					parts = append(parts, []string{"--" + s.long + "=false"})
				} else {
					d.Env = append(d.Env, s.env+"="+r.pick([]string{"false", "0"}))
				}
			}
		}
	}
	for _, p := range parts {
		d.Argv = append(d.Argv, p...)
	}
	return d
}

// misspell makes a command line wrong.
func misspell(r *rng, sc *Scen) (*Scen, string) {
	d := respell(r, sc, true)
	words := len(strings.Split(sc.Kind, " "))
	at := func(i int, s ...string) {
		d.Argv = append(append(append([]string{}, d.Argv[:i]...), s...), d.Argv[i:]...)
	}
	switch k := r.n(5); k {
	case 0:
		at(words, r.pick([]string{"--bogus", "--bogus=1", "-Z", "--inputs", "--outputs=x", "--Output=y"}))
		return d, "an option that does not exist"
	case 1:
		s := cliOpts[sc.Kind][r.n(len(cliOpts[sc.Kind]))]
		if s.flag {
			at(len(d.Argv), "--"+s.long+"="+r.pick([]string{"maybe", "yes", "2"}))
			return d, "a flag that is neither true nor false"
		}
		at(len(d.Argv), "--"+s.long)
		return d, "an option without its value"
	case 2:
		if words == 2 {
			d.Argv[r.n(2)] += r.pick([]string{"s", "x", "-2"})
		} else {
			d.Argv[0] += "x"
		}
		return d, "a command that does not exist"
	default:
		// the options that are required by every command which has them
		var req []int
		for i, o := range sc.opts {
			switch o.long {
			case "input", "from", "to":
				req = append(req, i)
			case "output":
				if sc.Kind != "init" {
					req = append(req, i)
				}
			}
		}
		if len(req) == 0 {
			at(words, "--bogus")
			return d, "an option that does not exist"
		}
		i := req[r.n(len(req))]
		c := sc.copy()
		c.opts = append(append([]optVal{}, sc.opts[:i]...), sc.opts[i+1:]...)
		return respell(r, c, true), "no --" + sc.opts[i].long
	}
}

func judgeC11(env *Env, c *Case) Verdict {
	b := c.Multi[0]
	if c.Sub == "rejected" {
		res := env.run(c.World)
		v := Verdict{Res: res}
		p := res.Procs[0]
		switch {
		case p.Exit != 3 && crashMsg(p) != "": // 3: no such command
			v.Msg = crashMsg(p)
		case p.Exit == 0:
			v.Msg = fmt.Sprintf("%s: the command succeeds", c.Arg["why"])
		case strings.TrimSpace(p.Stderr+p.Stdout) == "":
			v.Msg = fmt.Sprintf("%s: the command fails without a message", c.Arg["why"])
		default:
			if d := diffTree(res.Before, res.Final); d != "" {
				v.Msg = fmt.Sprintf("%s: the command changes the disk: %s", c.Arg["why"], d)
			}
		}
		return v
	}
	a := env.alone(b)
	sc := c.Multi[1]
	res := env.run(c.World)
	v := Verdict{Res: res}
	bt, be, bs, br := observable(b, a)
	rt, re, rs, rr := observable(sc, res)
	how := fmt.Sprintf("oct %s [%s]", strings.Join(sc.Argv, " "), strings.Join(sc.Env, " "))
	switch {
	case crashMsg(res.Procs[0]) != "":
		v.Msg = crashMsg(res.Procs[0])
	case be != re:
		v.Msg = fmt.Sprintf("%s exits with %d, oct %s with %d: %s", how, re, strings.Join(b.Argv, " "), be, head(rr+br, 300))
	case diffTree(bt, rt) != "":
		v.Msg = fmt.Sprintf("%s writes something else than oct %s: %s", how, strings.Join(b.Argv, " "), diffTree(bt, rt))
	case bs != rs || br != rr:
		v.Msg = fmt.Sprintf("%s tells something else than oct %s: %s", how, strings.Join(b.Argv, " "), firstDiff(bs+br, rs+rr))
	}
	return v
}

func init() {
	p := &Property{ID: "C11", Level: "exploration", Quick: 4000, Deep: 40000, Judge: judgeC11,
		Rule: "per scenario the command line with all options in their long form is the reference; seeded respellings (short and long names, with and without equals sign, the documented environment variables, contradicting environment variables next to an option, variables set to nothing, flags set to false, any order) must give the same exit status, outputs and messages, and seeded wrong command lines (unknown commands and options, missing values and required options, flags neither true nor false) a non-zero status, a message and an untouched disk; distinct: different system-call trace and final disk"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc := env.newScen(r, kindAt(i), scenOpt{})
		if sc.Kind == "init" && r.p(1, 3) {
			// the documented default
			sc.Outs, sc.opts = []string{"/home/u/db.json"}, []optVal{{long: "output", val: "db.json"}}
			b, s := respell(r, sc, true), sc.copy()
			s.Argv, s.Env = []string{"init"}, nil
			var out []*Case
			verdict(env, p, &Case{Prop: "C11", Sub: "respelled", Seed: env.seed, Index: i, Multi: []*Scen{b, s}, World: s.run1(r.seed()), Arg: map[string]string{"fixed": "1"}}, &out)
			return out
		}
		b := respell(r, sc, true)
		var out []*Case
		for k := 0; k < 6; k++ {
			if k < 4 {
				s := respell(r, sc, false)
				verdict(env, p, &Case{Prop: "C11", Sub: "respelled", Seed: env.seed, Index: i, Multi: []*Scen{b, s}, World: s.run1(r.seed()), Arg: map[string]string{"fixed": "1"}}, &out)
			} else {
				s, why := misspell(r, sc)
				verdict(env, p, &Case{Prop: "C11", Sub: "rejected", Seed: env.seed, Index: i, Multi: []*Scen{s}, World: s.run1(r.seed()), Arg: map[string]string{"why": why, "fixed": "1"}}, &out)
			}
			if stopEarly(out) {
				break
			}
		}
		return out
	}
	register(p)
}
