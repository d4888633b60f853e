package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Histories: several commands of a project, one after another, on one disk.
// Any command may first be attempted under faults (killed, power lost, I/O
// errors, a full disk); it is then run again. Once the faults stop, the
// outcome of the whole history is compared with a reference model.

// Attempt is one run of command Cmd under faults, before its final run.
type Attempt struct {
	Cmd    int     `json:"cmd"`
	Final  bool    `json:"final,omitempty"` // faults of the final run: transparent ones only
	Faults []Fault `json:"faults,omitempty"`
}

type HCmd struct {
	Argv  []string
	Env   []string
	Edits []Edit // files the user writes before the command
}

type Hist struct {
	Model    string            `json:"model"`
	Schemas  []*Sch            `json:"schemas,omitempty"`
	Text     map[string]string `json:"text,omitempty"`
	Opt      map[string]string `json:"opt,omitempty"`
	Plan     []Attempt         `json:"plan,omitempty"`
	MaxRead  int64             `json:"maxRead,omitempty"`
	MaxWrite int64             `json:"maxWrite,omitempty"`
	Seed     uint64            `json:"seed"`
	TextSeed uint64            `json:"textSeed,omitempty"`
}

// histModels turn a history into its files and commands.
type histSetup struct {
	Files map[string][]byte
	Dirs  []string
	Cmds  []HCmd
}

var histModels = map[string]func(h *Hist) *histSetup{}

func (h *Hist) clone() *Hist {
	b, _ := json.Marshal(h)
	var d Hist
	json.Unmarshal(b, &d)
	return &d
}

// world expands the history. last[k] is the process that ran command k for the
// last time; runs[i] is the command process i ran.
func (h *Hist) world() (w *World, setup *histSetup, last []int, runs []int) {
	setup = histModels[h.Model](h)
	r := newRng(h.Seed, "hist")
	w = &World{Files: setup.Files, Dirs: setup.Dirs, MaxRead: h.MaxRead, MaxWrite: h.MaxWrite}
	last = make([]int, len(setup.Cmds))
	id := 0
	free := false
	add := func(k int, fs []Fault) {
		c := setup.Cmds[k]
		for _, e := range c.Edits {
			e.Phase = id
			w.Edits = append(w.Edits, e)
		}
		w.Phases = append(w.Phases, []ProcSpec{{Argv: c.Argv, Env: c.Env, Cwd: "/home/u", Seed: r.seed()}})
		if free {
			w.Faults = append(w.Faults, Fault{Proc: id, Op: 0, Kind: "free"})
			free = false
		}
		for _, f := range fs {
			f.Proc = id
			w.Faults = append(w.Faults, f)
			if f.Kind == "full" {
				free = true
			}
		}
		last[k] = id
		runs = append(runs, k)
		id++
	}
	for k := range setup.Cmds {
		power := false
		for _, a := range h.Plan {
			if a.Cmd != k || a.Final {
				continue
			}
			add(k, a.Faults)
			for _, f := range a.Faults {
				power = power || f.Kind == "power"
			}
		}
		if power {
			// whatever was not on stable storage is made again
			for j := 0; j < k; j++ {
				add(j, nil)
			}
		}
		var fin []Fault
		for _, a := range h.Plan {
			if a.Cmd == k && a.Final {
				fin = append(fin, a.Faults...)
			}
		}
		add(k, fin)
	}
	return w, setup, last, runs
}

// plan adds faults to a history, given its undisturbed execution.
func (h *Hist) plan(r *rng, res *Result, last []int) {
	if r.p(1, 5) {
		h.MaxRead = []int64{3, 64, 511, 4000}[r.n(4)]
	}
	if r.p(1, 5) {
		h.MaxWrite = []int64{5, 64, 500, 4095}[r.n(4)]
	}
	for k, pid := range last {
		ops := res.Procs[pid].Ops
		if r.p(1, 3) {
			n := 1 + r.n(2)
			for ; n > 0; n-- {
				h.Plan = append(h.Plan, Attempt{Cmd: k, Faults: disturb(r, ops)})
			}
		}
		if r.p(1, 5) {
			var fs []Fault
			for n := 1 + r.n(4); n > 0; n-- {
				q := r.n(len(ops))
				switch ops[q].Class {
				case "read", "pread", "write", "pwrite":
					if ops[q].N > 1 && r.p(2, 3) {
						fs = append(fs, Fault{Op: q, Kind: "short", Arg: 1 + int64(r.n(int(ops[q].N)-1))})
					} else {
						fs = append(fs, Fault{Op: q, Kind: "errno", Err: "EINTR"})
					}
				case "openat", "openw":
					fs = append(fs, Fault{Op: q, Kind: "errno", Err: "EINTR"})
				}
			}
			if len(fs) > 0 {
				h.Plan = append(h.Plan, Attempt{Cmd: k, Final: true, Faults: fs})
			}
		}
	}
}

func disturb(r *rng, ops []Op) []Fault {
	var mut, any []int
	for q, o := range ops {
		if !interesting(o) {
			continue
		}
		any = append(any, q)
		if o.Mut || o.Wrote {
			mut = append(mut, q)
		}
	}
	if len(any) == 0 {
		return nil
	}
	q := any[r.n(len(any))]
	if len(mut) > 0 && r.p(3, 4) {
		q = mut[r.n(len(mut))]
	}
	switch r.n(6) {
	case 0:
		return []Fault{{Op: q, Kind: "kill"}}
	case 1:
		return []Fault{{Op: q, Kind: "killafter"}}
	case 2:
		if ops[q].Class == "write" && ops[q].N > 1 {
			return []Fault{{Op: q, Kind: "killmid", Arg: int64(r.n(int(ops[q].N)))}}
		}
		return []Fault{{Op: q, Kind: "kill"}}
	case 3:
		return []Fault{{Op: q, Kind: "power", Arg: int64(r.u64() >> 20)}}
	}
	fs := singleErrors(ops, 0)
	if len(fs) == 0 {
		return []Fault{{Op: q, Kind: "kill"}}
	}
	return []Fault{fs[r.n(len(fs))]}
}

// runHist executes a history. It reports a final run that did not succeed.
func (env *Env) runHist(h *Hist) (res *Result, last []int, msg string) {
	w, setup, last, runs := h.world()
	res = env.run(w)
	for k, pid := range last {
		p := res.Procs[pid]
		if m := crashMsg(p); m != "" {
			return res, last, fmt.Sprintf("oct %s: %s", strings.Join(setup.Cmds[k].Argv, " "), m)
		}
		if p.Exit != 0 && (h.Opt["oversize"] != "" || h.Opt["clash"] != "") && strings.TrimSpace(p.Stderr) != "" {
			continue
		}
		if p.Exit != 0 {
			return res, last, fmt.Sprintf("oct %s fails although no fault is left: exit %d: %s", strings.Join(setup.Cmds[k].Argv, " "), p.Exit, head(p.Stderr, 300))
		}
	}
	_ = runs
	return res, last, ""
}

// shrinks lists smaller variants of a history.
func (h *Hist) shrinks() []func() *Hist {
	var out []func() *Hist
	add := func(f func(d *Hist) bool) {
		out = append(out, func() *Hist {
			d := h.clone()
			if !f(d) {
				return nil
			}
			return d
		})
	}
	if len(h.Plan) > 0 {
		add(func(d *Hist) bool { d.Plan = nil; return true })
	}
	for i := range h.Plan {
		i := i
		add(func(d *Hist) bool { d.Plan = append(d.Plan[:i:i], d.Plan[i+1:]...); return true })
		for j := range h.Plan[i].Faults {
			j := j
			if len(h.Plan[i].Faults) > 1 {
				add(func(d *Hist) bool {
					d.Plan[i].Faults = append(d.Plan[i].Faults[:j:j], d.Plan[i].Faults[j+1:]...)
					return true
				})
			}
		}
	}
	if h.MaxRead != 0 || h.MaxWrite != 0 {
		add(func(d *Hist) bool { d.MaxRead, d.MaxWrite = 0, 0; return true })
	}
	if len(h.Schemas) > 2 {
		add(func(d *Hist) bool { d.Schemas = d.Schemas[1:]; d.Plan = nil; return true })
		add(func(d *Hist) bool { d.Schemas = d.Schemas[:len(d.Schemas)-1]; d.Plan = nil; return true })
	}
	names := map[string]bool{}
	for _, s := range h.Schemas {
		for _, t := range s.Tables {
			names[t.Name] = true
		}
	}
	for _, n := range sortedKeys(names) {
		n := n
		add(func(d *Hist) bool {
			for _, s := range d.Schemas {
				for i, t := range s.Tables {
					if t.Name == n {
						dropTable(s, i)
						break
					}
				}
				if len(s.Tables) == 0 {
					return false
				}
			}
			return true
		})
	}
	cols := map[string]bool{}
	for _, s := range h.Schemas {
		for _, t := range s.Tables {
			for _, c := range t.Columns {
				cols[t.Name+"\x00"+c.Name] = true
			}
		}
	}
	for _, n := range sortedKeys(cols) {
		n := n
		add(func(d *Hist) bool {
			x := strings.SplitN(n, "\x00", 2)
			for _, s := range d.Schemas {
				for _, t := range s.Tables {
					if t.Name != x[0] {
						continue
					}
					for ci, c := range t.Columns {
						if c.Name == x[1] {
							if len(t.Columns) == 1 {
								return false
							}
							dropCol(s, t, ci)
							break
						}
					}
				}
			}
			return true
		})
	}
	// simpler columns
	for si, s := range h.Schemas {
		for ti, t := range s.Tables {
			if t.Desc != "" || t.Class != "" || len(t.Indices) > 0 {
				si, ti := si, ti
				add(func(d *Hist) bool {
					t := d.Schemas[si].Tables[ti]
					t.Desc, t.Class, t.Indices = "", "", nil
					return true
				})
			}
			for ci, c := range t.Columns {
				if c.Desc != "" || c.Ref != nil || c.Default != "" || c.OnUpd != "" {
					si, ti, ci := si, ti, ci
					add(func(d *Hist) bool {
						c := d.Schemas[si].Tables[ti].Columns[ci]
						c.Desc, c.Ref, c.Default, c.OnUpd = "", nil, "", ""
						return true
					})
				}
			}
		}
	}
	return out
}
