package main

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"
)

// ------------------------------------------------------------------ C06
// The environment of a run must not show in its result.

func observable(c *Scen, r *Result) (Tree, int, string, string) {
	p := r.Procs[0]
	return c.outTree(r.Final), p.Exit, p.Stdout, normErr(p.Stderr)
}

// relocated moves a project to another directory (only relative paths in use).
func relocated(sc *Scen, cwd string) *Scen {
	d := sc.copy()
	mv := func(p string) string {
		if p == sc.Cwd || strings.HasPrefix(p, sc.Cwd+"/") {
			return cwd + strings.TrimPrefix(p, sc.Cwd)
		}
		return p
	}
	d.Cwd = cwd
	d.Files = map[string][]byte{}
	for p, b := range sc.Files {
		d.Files[mv(p)] = b
	}
	d.Inputs, d.Outs, d.Dirs, d.OldOuts = nil, nil, nil, nil
	for _, p := range sc.Inputs {
		d.Inputs = append(d.Inputs, mv(p))
	}
	for _, p := range sc.Outs {
		d.Outs = append(d.Outs, mv(p))
	}
	for _, p := range sc.Dirs {
		d.Dirs = append(d.Dirs, mv(p))
	}
	for _, p := range sc.OldOuts {
		d.OldOuts = append(d.OldOuts, mv(p))
	}
	return d
}

func relocatable(sc *Scen) bool {
	for _, p := range append(append([]string{}, sc.Inputs...), sc.Outs...) {
		if !strings.HasPrefix(p, sc.Cwd+"/") {
			return false
		}
	}
	for _, a := range append(append([]string{}, sc.Argv...), sc.Env...) {
		if strings.Contains(a, sc.Cwd) {
			return false
		}
	}
	return true
}

func judgeC06(env *Env, c *Case) Verdict {
	b := c.base
	if b == nil {
		b = env.run(c.Scen.run1(11))
		c.base = b
	}
	res := env.run(c.World)
	v := Verdict{Res: res}
	if m := crashMsg(res.Procs[0]); m != "" {
		v.Msg = m
		return v
	}
	bt, be, bs, br := observable(c.Scen, b)
	sc2 := c.Scen
	if to := c.Arg["moved"]; to != "" {
		sc2 = relocated(c.Scen, to)
	}
	rt, re, rs, rr := observable(sc2, res)
	if to := c.Arg["moved"]; to != "" {
		n := Tree{}
		for p, x := range rt {
			n[c.Scen.Cwd+strings.TrimPrefix(p, to)] = x
		}
		rt = n
	}
	switch {
	case be != re:
		v.Msg = fmt.Sprintf("the exit status depends on the environment: %d and %d", be, re)
	case diffTree(bt, rt) != "":
		v.Msg = "the output depends on the environment: " + diffTree(bt, rt)
	case bs != rs:
		v.Msg = "standard output depends on the environment: " + firstDiff(bs, rs)
	case br != rr:
		v.Msg = "the messages depend on the environment: " + firstDiff(br, rr)
	}
	return v
}

func init() {
	p := &Property{ID: "C06", Level: "exploration", Quick: 6000, Deep: 60000, Judge: judgeC06,
		Rule: "per scenario (also ones that fail) the same command is executed under seeded variations of everything it should not depend on: hash-map iteration and select order, goroutine scheduling, start time, clock jumps (also backwards) at any system call, process id, host name, unrelated environment variables, time zone, location of the project, transfer sizes; exit status, every output byte (spreadsheets: every part), standard output and messages (without time stamps) must be equal; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc, _ := env.prepared(r, kindAt(i), scenOpt{big: r.p(1, 6)})
		if sc == nil {
			return nil
		}
		if r.p(1, 8) { // a run that fails must fail the same way everywhere
			sc = failing(r, sc)
		}
		b := env.run(sc.run1(11))
		var out []*Case
		max := 10
		if env.tier == "thorough" {
			max = 60
		}
		for k := 0; k < max; k++ {
			s := sc
			arg := map[string]string{}
			if k%5 == 4 && relocatable(sc) {
				arg["moved"] = r.pick([]string{"/", "/srv/build/42", "/home/u/a b", "/x"}) // "/" is skipped below
				if arg["moved"] == "/" {
					arg["moved"] = "/opt"
				}
				s = relocated(sc, arg["moved"])
			}
			w := s.run1(r.seed())
			sp := &w.Phases[0][0]
			if k%2 == 1 {
				w.Clock = []int64{1, 951782400e9, 1709164800e9, 4102444800e9, 2147483647e9, 1e18 + 999999999}[r.n(6)]
				w.Tick = int64(r.n(3_600_000_000_000))
			}
			for n := r.n(4); n > 0; n-- {
				j := int64(r.n(1<<40)) * 1000
				if r.p(1, 2) {
					j = -j
				}
				w.Faults = append(w.Faults, Fault{Op: r.n(60), Kind: "clock", Arg: j})
			}
			if r.p(1, 2) {
				sp.Pid = 1 + r.n(4_000_000)
				w.Host = r.pick([]string{"ci-runner-17", "localhost", "", "laptop.local"})
			}
			if r.p(1, 2) {
				// a tool may look at any of these; none is an option of oct
				for _, e := range []string{"TZ=Asia/Seoul", "LANG=ko_KR.UTF-8", "LC_ALL=C", "HOME=/nonexistent", "USER=" + r.pick([]string{"kim", "root"}), "TMPDIR=/var/tmp", "PATH=/bin", "COLUMNS=40", "TERM=dumb", "EDITOR=vi", "SOURCE_DATE_EPOCH=0", "PWD=" + s.Cwd} {
					if r.p(1, 3) {
						sp.Env = append(append([]string{}, sp.Env...), e)
					}
				}
			}
			if r.p(1, 3) {
				sp.Cfg = &WorkerCfg{Gosched: uint64(1 + r.n(50))}
			}
			if r.p(1, 4) {
				w.MaxRead = int64(200 + r.n(5000))
			}
			verdict(env, p, &Case{Prop: "C06", Sub: "environment", Seed: env.seed, Index: i, Scen: sc, World: w, base: b, Arg: arg}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}

// failing damages a scenario so that the command is expected to be rejected
// (or not: only the equality of the two runs matters).
func failing(r *rng, sc *Scen) *Scen {
	d := sc.copy()
	switch r.n(4) {
	case 0:
		d.Argv = append(append([]string{}, sc.Argv...), "--bogus")
	case 1:
		if len(sc.Inputs) > 0 {
			delete(d.Files, sc.Inputs[r.n(len(sc.Inputs))])
		}
	case 2:
		if len(sc.Inputs) > 0 {
			in := sc.Inputs[r.n(len(sc.Inputs))]
			d.Files[in] = d.Files[in][:r.n(len(d.Files[in]))]
		}
	case 3:
		if len(sc.Argv) > 3 {
			d.Argv = sc.Argv[:len(sc.Argv)-1]
		}
	}
	return d
}

// ------------------------------------------------------------------ C07
// Several commands in one process: no command may notice the earlier ones.

func sessionWorld(scs []*Scen, seed uint64, order []int) *World {
	w := &World{Files: map[string][]byte{}}
	var cmds []Cmd
	put := map[int][][2]string{}
	now := map[string][]byte{}
	seen := map[string]bool{}
	for k, s := range scs {
		// someone replaces or removes files after the commands before
		for p, b := range s.Files {
			old, ok := now[p]
			now[p] = b
			if !seen[p] {
				w.Files[p] = b
			} else if !ok || !bytes.Equal(old, b) {
				stage := fmt.Sprintf("/data/stage/%d%s", k, p)
				w.Files[stage] = b
				w.Dirs = append(w.Dirs, path.Dir(p))
				put[k] = append(put[k], [2]string{stage, p})
			}
			seen[p] = true
		}
		for _, p := range s.Inputs {
			if _, ok := s.Files[p]; ok {
				continue
			}
			if _, ok := now[p]; ok {
				put[k] = append(put[k], [2]string{p, fmt.Sprintf("/data/stage/gone%d", k)})
				w.Dirs = append(w.Dirs, "/data/stage")
				delete(now, p)
			}
			seen[p] = true
		}
		sort.Slice(put[k], func(a, b int) bool { return put[k][a][0] < put[k][b][0] })
		w.Dirs = append(w.Dirs, s.Dirs...)
	}
	for _, k := range order {
		cmds = append(cmds, Cmd{Argv: append([]string{"oct"}, scs[k].Argv...), Put: put[k]})
	}
	w.Phases = [][]ProcSpec{{{Argv: []string{"session"}, Cwd: "/home/u", Seed: seed, Cfg: &WorkerCfg{Session: true, Lanes: [][]Cmd{cmds}, Limit: 400_000_000}}}}
	return w
}

func judgeC07(env *Env, c *Case) Verdict {
	var order []int
	for k := range c.Multi {
		order = append(order, k)
	}
	w := sessionWorld(c.Multi, c.World.Phases[0][0].Seed, order)
	c.World = w
	res := env.run(w)
	v := Verdict{Res: res}
	p := res.Procs[0]
	if m := crashMsg(p); m != "" {
		v.Msg = "in one process: " + m
		return v
	}
	if p.Report == nil || len(p.Report.Codes) != 1 || len(p.Report.Codes[0]) != len(order) {
		v.Msg = "the sequence of commands in one process ended early (exit " + fmt.Sprint(p.Exit) + "): " + head(p.Panic, 300)
		return v
	}
	for k, sc := range c.Multi {
		// the command alone, in a fresh process
		a := env.alone(sc)
		ap := a.Procs[0]
		if m := crashMsg(ap); m != "" {
			v.Trivial = true
			continue
		}
		if got := p.Report.Codes[0][k]; got != ap.Exit {
			v.Msg = fmt.Sprintf("command %d (oct %s) ends with %d after the commands before it in the same process (%s), and with %d in a fresh process", k+1, strings.Join(sc.Argv, " "), got, p.Report.Notes[0][k], ap.Exit)
			return v
		}
		if d := diffTree(sc.outTree(a.Final), sc.outTree(res.Final)); d != "" {
			v.Msg = fmt.Sprintf("command %d (oct %s) writes something else after the commands before it in the same process: %s", k+1, strings.Join(sc.Argv, " "), d)
			return v
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C07", Level: "exploration", Quick: 4000, Deep: 30000, Judge: judgeC07,
		Rule: "seeded histories of 2 to 9 commands (all kinds, shared and separate schemas, repeated kinds with other options, commands that fail) executed one after another in one process; each command's exit status and outputs must equal those of the same command in a fresh process; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		n := 2 + r.n(8)
		var scs []*Scen
		fam := r.n(4)
		shared := genSchema(r, genOpt{pk: true})
		for _, t := range shared.Tables {
			if t.Group == "" {
				t.Group = "base"
			}
		}
		k0 := kindAt(i)
		rewrite := r.p(1, 2)
		for k := 0; k < n; k++ {
			kind := allKinds[r.n(len(allKinds))]
			if fam == 0 || k == 0 || k == n-1 {
				kind = k0
			}
			o := scenOpt{root: fmt.Sprintf("p%d", k), noEnv: true}
			if r.p(1, 3) {
				o.schema = shared
			}
			if rewrite && r.p(1, 2) {
				// the command reads a file that other commands read with other contents
				o.in = "same/db"
			}
			sc := env.newScen(r, kind, o)
			if k > 0 && k < n-1 && r.p(1, 6) {
				sc = failing(r, sc)
			}
			scs = append(scs, sc)
		}
		var out []*Case
		w := &World{Phases: [][]ProcSpec{{{Seed: r.seed()}}}}
		verdict(env, p, &Case{Prop: "C07", Sub: "one-process", Seed: env.seed, Index: i, Multi: scs, World: w}, &out)
		return out
	}
	register(p)
}
