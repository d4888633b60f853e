package main

import (
	"fmt"
	"strings"
)

// ------------------------------------------------------------------ C08
// Several oct processes on one disk.

func multiWorld(scs []*Scen, r *rng, same bool) *World {
	w := &World{Files: map[string][]byte{}}
	var ph []ProcSpec
	for _, s := range scs {
		for p, b := range s.Files {
			w.Files[p] = b
		}
		w.Dirs = append(w.Dirs, s.Dirs...)
		ph = append(ph, s.spec(r.seed()))
	}
	for k := range ph {
		ph[k].Pid = 100 + r.n(60000)
	}
	w.Phases = [][]ProcSpec{ph}
	w.SchedSeed = r.seed()
	w.Period = []int{1, 2, 3, 5, 9, 20}[r.n(6)]
	return w
}

// freeze turns a seeded schedule into the explicit one it produced.
func freeze(w *World, res *Result) {
	if w.SchedSeed != 0 {
		w.Sched = res.Sched
		w.SchedSeed = 0
	}
}

func judgeC08(env *Env, c *Case) Verdict {
	res := env.run(c.World)
	v := Verdict{Res: res, Trivial: len(res.Sched) == 0 && len(c.World.Sched) == 0}
	for k, p := range res.Procs {
		if m := crashMsg(p); m != "" {
			v.Msg = fmt.Sprintf("process %d: %s", k, m)
			return v
		}
	}
	switch c.Sub {
	case "separate-outputs", "one-killed":
		for k, sc := range c.Multi {
			p := res.Procs[k]
			if p.Signal {
				continue
			}
			a := env.alone(sc)
			if a.Procs[0].Exit != p.Exit {
				v.Msg = fmt.Sprintf("oct %s ends with %d next to the other processes and with %d alone: %s", strings.Join(sc.Argv, " "), p.Exit, a.Procs[0].Exit, head(normErr(p.Stderr), 200))
				return v
			}
			want, got := sc.outTree(a.Final), sc.outTree(res.Final)
			for q, x := range want {
				if got[q] != x {
					v.Msg = fmt.Sprintf("oct %s: %s differs from what it writes alone: %s", strings.Join(sc.Argv, " "), q, firstDiff(x, got[q]))
					return v
				}
			}
			// nothing that none of the processes would have written
			if k == 0 {
				all := map[string]bool{}
				for _, s2 := range c.Multi {
					for q := range env.alone(s2).Final {
						all[q] = true
					}
				}
				for q := range res.Final {
					if !all[q] {
						if _, had := res.Before[q]; !had && c.Sub == "separate-outputs" {
							v.Msg = "the processes left " + q + ", which none of them writes alone"
							return v
						}
					}
				}
			}
		}
	case "same-command":
		sc := c.Multi[0]
		ok := false
		for _, p := range res.Procs {
			if p.Exit != 0 {
				v.Msg = fmt.Sprintf("oct %s failed (exit %d) because the same command ran at the same time: %s", strings.Join(sc.Argv, " "), p.Exit, head(normErr(p.Stderr), 200))
				return v
			}
			ok = true
		}
		a := env.alone(sc)
		if d := diffTree(sc.outTree(a.Final), sc.outTree(res.Final)); ok && d != "" {
			v.Msg = "two runs of the same command at the same time leave something else than one run: " + d
		}
	case "reader":
		// Multi[0] writes the file that Multi[1..] read
		a := env.alone(c.Multi[0])
		file := c.Multi[0].Outs[0]
		for k := 1; k < len(c.Multi); k++ {
			p := res.Procs[k]
			if p.Exit != 0 {
				env.bump("readers that were refused")
				continue
			}
			env.bump("readers that succeeded")
			sc := c.Multi[k]
			rw := sc.run1(11)
			rw.Files[file] = []byte(a.Final[file])
			want := env.run(rw)
			if d := diffTree(sc.outTree(want.Final), sc.outTree(res.Final)); d != "" {
				v.Msg = "a command reading " + file + " while it was being written succeeded with an incomplete schema: " + d
				return v
			}
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C08", Level: "exploration", Quick: 3600, Deep: 40000, Judge: judgeC08,
		Rule: "2 to 5 oct processes interleaved at every system call by a seeded scheduler on one disk: separate outputs (shared inputs and shared output directories), the same command several times, readers of a file another process is writing, and one process killed or hit by errors in the middle; distinct: different interleaved system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		var out []*Case
		var scs []*Scen
		sub := []string{"separate-outputs", "one-killed", "same-command", "reader"}[i%4]
		arg := map[string]string{}
		switch sub {
		case "separate-outputs", "one-killed":
			n := 2 + r.n(4)
			s := genSchema(r, genOpt{pk: true})
			for _, t := range s.Tables {
				if t.Group == "" {
					t.Group = "base"
				}
			}
			dir := r.pick([]string{"gen", "gen/all", "/srv/target"})
			for k := 0; k < n; k++ {
				kind := allKinds[r.n(len(allKinds))]
				if k < 2 && r.p(1, 3) {
					kind = kindAt(i / 4)
				}
				o := scenOpt{root: fmt.Sprintf("p%d", k)}
				if r.p(2, 3) {
					// one directory for all results
					o.stem = fmt.Sprintf("%s/part%d", dir, k)
				}
				if r.p(2, 3) && !strings.HasPrefix(kind, "import") && kind != "init" {
					o.schema = s
					o.in = "shared/db"
					if strings.HasPrefix(kind, "diff") {
						o.in = fmt.Sprintf("shared/v%d", k)
					}
				}
				scs = append(scs, env.newScen(r, kind, o))
			}
			// the directory itself must exist for commands that expect it
			for _, sc := range scs {
				sc.Dirs = append(sc.Dirs, "/home/u/gen", "/home/u/gen/all", "/srv/target")
			}
		case "same-command":
			kind := kindAt(i / 4)
			if kind == "export xlsx" {
				kind = "generate kt"
			}
			sc, _ := env.prepared(r, kind, scenOpt{old: true})
			if sc == nil {
				return nil
			}
			for n := 2 + r.n(2); n > 0; n-- {
				scs = append(scs, sc)
			}
			arg["fixed"] = "1"
		case "reader":
			kind := []string{"import mysql", "import ojson", "import staruml", "import xlsx"}[(i/4)%4]
			wsc, b := env.prepared(r, kind, scenOpt{stem: "flow/db"})
			if wsc == nil {
				return nil
			}
			scs = append(scs, wsc)
			var mid Sch
			if !mid.parse(b.Final[wsc.Outs[0]]) {
				return nil
			}
			ext := wsc.Outs[0][strings.LastIndex(wsc.Outs[0], "."):]
			for n := 1 + r.n(2); n > 0; n-- {
				k := allKinds[5+r.n(11)]
				rs := env.newScen(r, k, scenOpt{root: fmt.Sprintf("r%d", n), schema: &mid})
				// redirect its input to the file that is being written
				in := rs.Inputs[0]
				delete(rs.Files, in)
				rs.Inputs = nil
				rel := strings.TrimPrefix(in, "/home/u/")
				for q, a := range rs.Argv {
					if a == rel || a == "--input="+rel {
						rs.Argv[q] = strings.Replace(a, rel, "flow/db"+ext, 1)
					}
				}
				for q, a := range rs.Env {
					if strings.HasSuffix(a, "="+rel) {
						rs.Env[q] = strings.Replace(a, rel, "flow/db"+ext, 1)
					}
				}
				scs = append(scs, rs)
			}
			arg["fixed"] = "1"
		}
		max := 6
		if env.tier == "thorough" {
			max = 30
		}
		for k := 0; k < max; k++ {
			w := multiWorld(scs, r, false)
			if r.p(1, 2) {
				w.MaxWrite = int64(20 + r.n(2000))
			}
			if r.p(1, 2) {
				w.MaxRead = int64(100 + r.n(2000))
			}
			switch sub {
			case "one-killed":
				w.Faults = []Fault{{Proc: 0, Op: 5 + r.n(60), Kind: []string{"kill", "killafter", "killmid"}[r.n(3)], Arg: int64(1 + r.n(100))}}
			case "reader":
				// let the writer get under way first
				if r.p(1, 2) {
					w.Period = 12 + r.n(30)
				}
				if r.p(1, 4) {
					w.Faults = []Fault{{Proc: 0, Op: 5 + r.n(60), Kind: "killmid", Arg: int64(1 + r.n(100))}}
				}
			}
			c := &Case{Prop: "C08", Sub: sub, Seed: env.seed, Index: i, Multi: scs, World: w, Arg: arg}
			v := verdict(env, p, c, &out)
			if v.Msg != "" && v.Res != nil {
				freeze(w, v.Res)
			}
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}
