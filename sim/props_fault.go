package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
)

// Which faults make sense at which system call.
var hardErr = map[string][]string{
	"openat":    {"EIO", "EACCES", "EMFILE", "ENFILE"},
	"openw":     {"ENOSPC", "EACCES", "EROFS", "EIO", "EMFILE", "EDQUOT", "EPERM", "ETXTBSY"},
	"read":      {"EIO", "ESTALE"},
	"pread":     {"EIO"},
	"write":     {"ENOSPC", "EIO", "EDQUOT", "EFBIG"},
	"pwrite":    {"ENOSPC", "EIO"},
	"mkdirat":   {"EACCES", "ENOSPC", "EROFS", "EIO"},
	"stat":      {"EACCES", "EIO"},
	"fstat":     {"EIO"},
	"unlinkat":  {"EACCES", "EIO"},
	"renameat":  {"EACCES", "ENOSPC", "EIO"},
	"renameat2": {"EACCES", "ENOSPC", "EIO"},
	"ftruncate": {"EIO", "ENOSPC"},
	"fsync":     {"EIO", "ENOSPC"},
	"getdents":  {"EIO"},
	"lseek":     {"EIO"},
	"fchmodat":  {"EPERM"},
	"fchmod":    {"EPERM"},
}

// interesting drops the calls made with an empty path (option files that were
// not given) and the runtime's own probes, which every run repeats.
func interesting(o Op) bool {
	switch o.Class {
	case "clock", "sleep", "fcntl", "getpid", "uname", "getcwd", "getuid", "getrandom", "ioctl":
		return false
	case "openat", "stat":
		return o.Path != "." && o.Path != "/home/u/oct" && o.Path != "/etc/localtime"
	}
	return true
}

// singleErrors lists every single hard-error fault for a run.
func singleErrors(ops []Op, proc int) []Fault {
	var fs []Fault
	for i, o := range ops {
		if !interesting(o) {
			continue
		}
		for _, e := range hardErr[o.Class] {
			fs = append(fs, Fault{Proc: proc, Op: i, Kind: "errno", Err: e})
		}
		switch o.Class {
		case "close":
			es := []string{"EIO"}
			if o.Wrote {
				es = []string{"EIO", "ENOSPC", "EDQUOT"}
			}
			for _, e := range es {
				fs = append(fs, Fault{Proc: proc, Op: i, Kind: "closeerr", Err: e})
			}
		case "write", "pwrite":
			fs = append(fs, Fault{Proc: proc, Op: i, Kind: "full", Arg: o.N / 2})
			if o.N > 1 {
				fs = append(fs, Fault{Proc: proc, Op: i, Kind: "full", Arg: o.N - 1})
			}
			fs = append(fs, Fault{Proc: proc, Op: i, Kind: "full", Arg: 0})
		case "openw":
			fs = append(fs, Fault{Proc: proc, Op: i, Kind: "stick", Err: "EIO"}, Fault{Proc: proc, Op: i, Kind: "stick", Err: "ENOSPC"}, Fault{Proc: proc, Op: i, Kind: "full", Arg: 0}, Fault{Proc: proc, Op: i, Kind: "full", Arg: 10})
		}
	}
	return fs
}

func kindAt(i int) string { return allKinds[i%len(allKinds)] }

// oldOutputs places the result of an earlier version of the schema where the
// new result is going to be written.
func (env *Env) oldOutputs(r *rng, sc *Scen, base *Result) {
	out := sc.outTree(base.Final)
	if len(out) == 0 {
		return
	}
	for p, c := range out {
		switch r.n(4) {
		case 0: // longer than the new content
			sc.Files[p] = []byte(base.Final[p] + "\n# tail of an older, longer file\n" + strings.Repeat("x", 300))
		case 1: // shorter
			sc.Files[p] = []byte("old\n")
		case 2:
			sc.Files[p] = []byte(strings.ToUpper(head(c, 2000)))
		}
		if sc.Files[p] != nil {
			sc.OldOuts = append(sc.OldOuts, p)
		}
	}
	sort.Strings(sc.OldOuts)
}

func (env *Env) prepared(r *rng, kind string, o scenOpt) (*Scen, *Result) {
	for try := 0; try < 20; try++ {
		sc := env.newScen(r, kind, o)
		b := env.base(sc)
		if b.Procs[0].Exit == 0 && !b.Procs[0].Hang {
			if o.old && r.p(1, 2) {
				env.oldOutputs(r, sc, b)
				if len(sc.OldOuts) > 0 {
					b.planOps = env.run(sc.run1(11)).Procs[0].Ops
				}
			}
			return sc, b
		}
		env.mu.Lock()
		env.rejected++
		env.extra["rejected "+kind+": "+head(normErr(b.Procs[0].Stderr), 60)]++
		env.mu.Unlock()
	}
	return nil, nil
}

func (c *Case) baseline(env *Env) *Result {
	if c.base == nil {
		c.base = env.base(c.Scen)
	}
	return c.base
}

func sample(r *rng, fs []Fault, n int) []Fault {
	if len(fs) <= n {
		return fs
	}
	r.shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs[:n]
}

// OCTSIM_DUMP=<command kind> prints every run of that kind (a debugging aid).
var dumpKind = os.Getenv("OCTSIM_DUMP")

func verdict(env *Env, p *Property, c *Case, out *[]*Case) Verdict {
	v := p.Judge(env, c)
	if dumpKind != "" && c.Scen != nil && strings.HasPrefix(c.Scen.Kind, dumpKind) && v.Res != nil {
		b, _ := json.Marshal(c.World.Faults)
		fmt.Println("CASE", c.Sub, c.Scen.Argv, string(b))
		for _, l := range traceLines(v.Res) {
			fmt.Println(" ", l)
		}
		for _, q := range v.Res.Procs {
			fmt.Println("  exit", q.Exit, q.Stderr)
		}
	}
	env.count(c, v)
	if v.Msg != "" {
		c.Msg = v.Msg
		c.keyed = v.Key
		*out = append(*out, c)
	}
	return v
}

// stopEarly bounds the work spent on a scenario that keeps failing.
func stopEarly(out []*Case) bool { return len(out) >= 4 }

// ------------------------------------------------------------------ C01

func judgeC01(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res, Trivial: len(res.Injected) == 0}
	if b.Procs[0].Exit != 0 {
		v.Trivial = true
		return v
	}
	p := res.Procs[len(res.Procs)-1]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		return v
	}
	bo, ro := c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)
	if p.Exit == 0 {
		if d := c.outDiff(bo, ro); d != "" {
			v.Msg = "the command reported success (exit 0) but its output is not the complete output: " + d
		}
		return v
	}
	if strings.TrimSpace(normErr(p.Stderr)) == "" && !hitsDiag(c.World, p) {
		v.Msg = fmt.Sprintf("the command failed (exit %d) without saying why on standard error", p.Exit)
	}
	return v
}

// hitsDiag: the fault plan itself silenced the diagnostics channel.
func hitsDiag(w *World, p *ProcResult) bool {
	for _, f := range w.Faults {
		if f.Kind == "stickall" {
			return true
		}
		if f.Op < len(p.Ops) && p.Ops[f.Op].Class == "diag" {
			return true
		}
	}
	return false
}

func init() {
	p := &Property{ID: "C01", Level: "fault_enumeration", Quick: 900, Deep: 6000, Judge: judgeC01,
		Rule: "per scenario (command kind x seeded schema x flags) every system call of the fault-free run is failed in turn with every applicable error, the disk is filled at every write, and seeded multi-fault plans are added; non-trivial: at least one fault fired; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc, b := env.prepared(r, kindAt(i), scenOpt{old: true, big: r.p(1, 10)})
		if sc == nil {
			return nil
		}
		var out []*Case
		plans := [][]Fault{}
		fs := singleErrors(b.ops(), 0)
		max := 130
		if env.tier == "thorough" {
			max = 400
		}
		for _, f := range sample(r, fs, max) {
			plans = append(plans, []Fault{f})
		}
		for k := 0; k < 12 && len(fs) > 1; k++ {
			var pl []Fault
			for n := 2 + r.n(3); n > 0; n-- {
				f := fs[r.n(len(fs))]
				// keep the run going with a short operation first
				if r.p(1, 3) && (f.Kind == "errno") {
					o := b.ops()[f.Op]
					if o.Class == "write" || o.Class == "read" || o.Class == "pread" {
						f = Fault{Op: f.Op, Kind: "short", Arg: 1 + o.N/3}
					}
				}
				pl = append(pl, f)
			}
			plans = append(plans, pl)
		}
		verdict(env, p, &Case{Prop: "C01", Sub: "fault-free", Seed: env.seed, Index: i, Scen: sc, World: sc.run1(r.seed()), base: b}, &out)
		for k, pl := range plans {
			w := sc.run1(r.seed(), pl...)
			if k%7 == 3 {
				w.MaxWrite = int64(1 + r.n(900))
			}
			if k%9 == 4 {
				w.MaxRead = int64(1 + r.n(600))
			}
			verdict(env, p, &Case{Prop: "C01", Sub: "io-error", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		// a disk with little room: sweep the amount of free space
		total := int64(0)
		for _, c := range sc.outTree(b.Final) {
			total += int64(len(c))
		}
		for k := 0; k < 10; k++ {
			w := sc.run1(r.seed())
			w.Cap = 1 + int64(r.n(int(total)+2))
			if k == 0 {
				w.Cap = 1
			}
			verdict(env, p, &Case{Prop: "C01", Sub: "disk-full", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}

// ------------------------------------------------------------------ C02

func judgeC02(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res, Trivial: len(res.Injected) == 0 && c.World.MaxRead == 0 && c.World.MaxWrite == 0}
	if b.Procs[0].Exit != 0 {
		v.Trivial = true
		return v
	}
	p := res.Procs[0]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		return v
	}
	if p.Exit != 0 {
		v.Msg = fmt.Sprintf("the command failed (exit %d: %s) although every call could be completed by retrying", p.Exit, head(normErr(p.Stderr), 200))
		return v
	}
	if d := c.outDiff(c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)); d != "" {
		v.Msg = "the output differs from that of an undisturbed run: " + d
		return v
	}
	if c.Sub != "diagnostics" && p.Stdout != b.Procs[0].Stdout {
		v.Msg = "standard output differs from that of an undisturbed run"
	}
	return v
}

func init() {
	p := &Property{ID: "C02", Level: "fault_enumeration", Quick: 900, Deep: 6000, Judge: judgeC02,
		Rule: "per scenario: every read, write and diagnostic write is shortened, every retryable call is interrupted, the whole run is squeezed through tiny transfer sizes, and the diagnostic stream fails; non-trivial: the disturbance took effect; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc, b := env.prepared(r, kindAt(i), scenOpt{old: true, big: r.p(1, 8)})
		if sc == nil {
			return nil
		}
		var fs, diag []Fault
		for k, o := range b.ops() {
			if !interesting(o) {
				continue
			}
			switch o.Class {
			case "read", "pread", "write", "pwrite":
				fs = append(fs, Fault{Op: k, Kind: "short", Arg: 1})
				if o.N > 3 {
					fs = append(fs, Fault{Op: k, Kind: "short", Arg: o.N / 2}, Fault{Op: k, Kind: "short", Arg: o.N - 1})
				}
				fs = append(fs, Fault{Op: k, Kind: "errno", Err: "EINTR"})
			case "openat", "openw", "stat", "mkdirat":
				fs = append(fs, Fault{Op: k, Kind: "errno", Err: "EINTR"})
			case "diag":
				diag = append(diag, Fault{Op: k, Kind: "errno", Err: "EIO"}, Fault{Op: k, Kind: "errno", Err: "ENOSPC"}, Fault{Op: k, Kind: "short", Arg: o.N / 2}, Fault{Op: k, Kind: "errno", Err: "EINTR"})
			}
		}
		var out []*Case
		max := 60
		if env.tier == "thorough" {
			max = 300
		}
		do := func(sub string, w *World) bool {
			verdict(env, p, &Case{Prop: "C02", Sub: sub, Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			return stopEarly(out)
		}
		for _, f := range sample(r, fs, max) {
			if do("short-or-interrupted", sc.run1(r.seed(), f)) {
				return out
			}
		}
		for _, f := range sample(r, diag, 12) {
			if do("diagnostics", sc.run1(r.seed(), f)) {
				return out
			}
		}
		for k := 0; k < 8; k++ {
			w := sc.run1(r.seed())
			if k%3 != 0 {
				w.MaxRead = []int64{1, 3, 7, 64, 511, 513}[r.n(6)]
			}
			if k%3 != 1 {
				w.MaxWrite = []int64{1, 5, 64, 500, 4095}[r.n(5)]
			}
			if len(b.Final) > 0 && biggest(sc, b) > 20000 {
				w.MaxRead, w.MaxWrite = w.MaxRead*50, w.MaxWrite*50
			}
			if do("tiny-transfers", w) {
				return out
			}
		}
		for k := 0; k < 6 && len(fs) > 0; k++ {
			var pl []Fault
			for n := 2 + r.n(6); n > 0; n-- {
				pl = append(pl, fs[r.n(len(fs))])
			}
			if do("short-or-interrupted", sc.run1(r.seed(), pl...)) {
				return out
			}
		}
		return out
	}
	register(p)
}

func biggest(sc *Scen, b *Result) int {
	m := 0
	for _, c := range sc.Files {
		if len(c) > m {
			m = len(c)
		}
	}
	for _, c := range sc.outTree(b.Final) {
		if len(c) > m {
			m = len(c)
		}
	}
	return m
}

// ------------------------------------------------------------------ C03

func judgeC03(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	killed := false
	for _, p := range res.Procs {
		killed = killed || p.Signal
	}
	v := Verdict{Res: res, Trivial: !killed}
	if b.Procs[0].Exit != 0 || len(res.Procs) == 0 {
		v.Trivial = true
		return v
	}
	for _, p := range res.Procs {
		if m := crashMsg(p); m != "" {
			v.Msg = m
			return v
		}
	}
	p := res.Procs[len(res.Procs)-1]
	if p.Signal {
		v.Trivial = true
		return v
	}
	if p.Exit != 0 {
		v.Msg = fmt.Sprintf("running the command again after the crash failed (exit %d): %s", p.Exit, head(normErr(p.Stderr), 300))
		return v
	}
	bo, ro := c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)
	if d := c.outDiff(bo, ro); d != "" {
		v.Msg = "after a crash and a complete second run the output is not that of an undisturbed run: " + d
		return v
	}
	return v
}

func init() {
	p := &Property{ID: "C03", Level: "fault_enumeration", Quick: 800, Deep: 6000, Judge: judgeC03,
		Rule: "per scenario the process is killed before, after and in the middle of every system call that changes the disk (and at sampled other calls), or the machine loses power there (unsynced files torn, emptied, zeroed, reverted or lost), once to three times in a row, and the command is then run again; non-trivial: a process was actually killed; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		kind := kindAt(i)
		sc, b := env.prepared(r, kind, scenOpt{old: true, big: r.p(1, 10)})
		if sc == nil {
			return nil
		}
		var pts []Fault
		for k, o := range b.ops() {
			if !interesting(o) {
				continue
			}
			if o.Mut || o.Wrote {
				pts = append(pts, Fault{Op: k, Kind: "kill"}, Fault{Op: k, Kind: "killafter"})
				if o.Class == "write" && o.N > 1 {
					pts = append(pts, Fault{Op: k, Kind: "killmid", Arg: 1}, Fault{Op: k, Kind: "killmid", Arg: o.N / 2}, Fault{Op: k, Kind: "killmid", Arg: o.N - 1}, Fault{Op: k, Kind: "killmid", Arg: int64(r.n(int(o.N)))})
				}
				for q := 0; q < 3; q++ {
					pts = append(pts, Fault{Op: k, Kind: "power", Arg: int64(r.u64() >> 20)})
				}
			} else if o.Class == "diag" {
				for q := 0; q < 3; q++ {
					pts = append(pts, Fault{Op: k, Kind: "power", Arg: int64(r.u64() >> 20)})
				}
			} else if r.p(1, 3) {
				pts = append(pts, Fault{Op: k, Kind: "kill"})
			}
		}
		max := 60
		if env.tier == "thorough" {
			max = 400
		}
		var out []*Case
		for _, f := range sample(r, pts, max) {
			w := sc.world([]ProcSpec{sc.spec(r.seed())}, []ProcSpec{sc.spec(r.seed())})
			w.Faults = []Fault{f}
			if r.p(1, 5) {
				w.MaxWrite = int64(1 + r.n(3000))
			}
			verdict(env, p, &Case{Prop: "C03", Sub: "crash-then-rerun", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		for k := 0; k < 10 && len(pts) > 0; k++ {
			n := 2 + r.n(2)
			var ph [][]ProcSpec
			var fs []Fault
			for q := 0; q < n; q++ {
				ph = append(ph, []ProcSpec{sc.spec(r.seed())})
				f := pts[r.n(len(pts))]
				f.Proc = q
				if r.p(1, 4) {
					f.Op = r.n(len(b.ops()))
				}
				fs = append(fs, f)
			}
			ph = append(ph, []ProcSpec{sc.spec(r.seed())})
			w := sc.world(ph...)
			w.Faults = fs
			verdict(env, p, &Case{Prop: "C03", Sub: "crash-then-rerun", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		// disk errors first, a healthy disk afterwards
		fs := singleErrors(b.ops(), 0)
		for _, f := range sample(r, fs, 10) {
			w := sc.world([]ProcSpec{sc.spec(r.seed())}, []ProcSpec{sc.spec(r.seed())})
			w.Faults = []Fault{f}
			if f.Kind == "full" {
				w.Faults = append(w.Faults, Fault{Proc: 1, Op: 0, Kind: "free"})
			}
			verdict(env, p, &Case{Prop: "C03", Sub: "error-then-rerun", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}

// ------------------------------------------------------------------ C04

// protected lists what a run must leave alone: its inputs and every file that
// is not one of the files an undisturbed run writes.
func protected(c *Case, b *Result) map[string]string {
	gen := c.Scen.outTree(b.Final)
	written := map[string]bool{}
	for _, e := range b.Trace {
		if e.Call == "openat" && e.Err == "" && e.Op < len(b.Procs[0].Ops) && b.Procs[0].Ops[e.Op].Class == "openw" {
			written[e.Path] = true
		}
	}
	out := map[string]string{}
	in := map[string]bool{}
	for _, p := range c.Scen.Inputs {
		in[p] = true
	}
	for p, d := range c.Scen.Files {
		if _, g := gen[p]; g && written[p] && !in[p] {
			continue
		}
		out[p] = string(d)
	}
	return out
}

func judgeC04(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res}
	prot := protected(c, b)
	crash := false
	for _, p := range res.Procs {
		crash = crash || p.Signal
	}
	for _, e := range res.Trace {
		if e.Err != "" {
			continue
		}
		ops := res.Procs[e.Proc].Ops
		if e.Op >= len(ops) {
			continue
		}
		cl := ops[e.Op].Class
		_, isP := prot[e.Path]
		switch cl {
		case "openw", "unlinkat", "renameat", "renameat2", "truncate", "write", "pwrite", "ftruncate":
			if isP {
				v.Msg = fmt.Sprintf("the run changed %s (%s), which is not one of its output files", e.Path, e.Call)
				return v
			}
		}
	}
	for p, d := range prot {
		got, ok := res.Final[p]
		if !ok {
			v.Msg = "the run removed " + p
			return v
		}
		if got != d {
			v.Msg = "the run changed " + p + ": " + firstDiff(d, got)
			return v
		}
	}
	// nothing new outside the requested output
	before, after := c.Scen.outside(res.Before), c.Scen.outside(res.Final)
	for _, p := range after.keys() {
		if _, ok := before[p]; ok {
			continue
		}
		if crash && path.Dir(p) == path.Dir(c.Scen.Outs[0]) {
			continue // an interrupted run may leave a working file next to its output
		}
		v.Msg = "the run created " + p + ", outside the requested output " + c.Scen.Outs[0]
		return v
	}
	if !c.Scen.OutDir {
		for p := range res.Final {
			if strings.HasSuffix(p, "/") && underAny(p, c.Scen.Outs) {
				if _, ok := res.Before[p]; !ok {
					v.Msg = "the run created the directory " + p + " where a file was requested"
					return v
				}
			}
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C04", Level: "fault_enumeration", Quick: 1000, Deep: 6000, Judge: judgeC04,
		Rule: "per scenario: fault-free runs, runs with injected I/O errors, a full disk, damaged inputs, wrong arguments, kills and power loss, over a disk holding inputs and bystander files next to, inside and away from the output; every system call of the trace and the final disk are compared with what the run may touch; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		sc, b := env.prepared(r, kindAt(i), scenOpt{old: true, big: r.p(1, 12)})
		if sc == nil {
			return nil
		}
		if sc.OutDir {
			// foreign files beside the generated ones, in every directory the
			// run writes to
			dirs := map[string]bool{sc.Outs[0]: true}
			gen := sc.outTree(b.Final)
			for _, q := range gen.keys() {
				if _, pre := sc.Files[q]; pre || strings.HasSuffix(q, "/") {
					continue
				}
				for d := path.Dir(q); len(d) > len(sc.Outs[0]); d = path.Dir(d) {
					dirs[d] = true
				}
			}
			names := []string{"README.md", "keep/a.txt", "Legacy.kt", "output.bak", "__init__.py", "Zz.go", "aa.py", "Old.graphqls", "module.iml", ".gitkeep"}
			if ks := gen.keys(); len(ks) > 0 {
				q := path.Base(strings.TrimSuffix(ks[r.n(len(ks))], "/"))
				names = append(names, q+".bak", q+".tmp", q+"~", "."+q+".swp", strings.TrimSuffix(q, path.Ext(q))+"Test"+path.Ext(q))
			}
			for _, d := range sortedKeys(dirs) {
				for _, q := range names {
					if _, g := b.Final[d+"/"+q]; !g && r.p(1, 3) && !isFileOut(sc, b) {
						sc.Files[d+"/"+q] = []byte("kept " + q)
					}
				}
			}
			b = env.base(sc)
			b.planOps = env.run(sc.run1(11)).Procs[0].Ops
		}
		var out []*Case
		do := func(sub string, w *World) bool {
			verdict(env, p, &Case{Prop: "C04", Sub: sub, Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			return stopEarly(out)
		}
		if do("fault-free", sc.run1(r.seed())) {
			return out
		}
		ops := b.ops()
		for _, f := range sample(r, singleErrors(ops, 0), 45) {
			if do("io-error", sc.run1(r.seed(), f)) {
				return out
			}
		}
		for k := 0; k < 15; k++ {
			f := Fault{Op: r.n(len(ops)), Kind: []string{"kill", "killafter", "power"}[r.n(3)], Arg: int64(r.u64() >> 20)}
			if do("crash", sc.run1(r.seed(), f)) {
				return out
			}
		}
		for k := 0; k < 4; k++ {
			w := sc.run1(r.seed())
			w.Cap = int64(1 + r.n(2000))
			if do("disk-full", w) {
				return out
			}
		}
		// names that are paths
		for k := 0; k < 4 && len(sc.Inputs) > 0; k++ {
			if s2 := pathNames(r, sc); s2 != nil {
				verdict(env, p, &Case{Prop: "C04", Sub: "names", Seed: env.seed, Index: i, Scen: s2, World: s2.run1(r.seed()), base: b}, &out)
				if stopEarly(out) {
					return out
				}
			}
		}
		// wrong arguments
		for k := 0; k < 6; k++ {
			w := sc.run1(r.seed())
			a := append([]string{}, sc.Argv...)
			switch r.n(4) {
			case 0:
				if len(a) > 3 {
					j := 2 + r.n(len(a)-2)
					a = append(a[:j:j], a[j+1:]...)
				}
			case 1:
				a = append(a, "--no-such-option")
			case 2:
				a = append(a, "extra", "arguments")
			case 3:
				a = append(a, "--help")
			}
			w.Phases[0][0].Argv = a
			// whatever the arguments were, only the same output is requested
			if outsChanged(a, sc.Argv) {
				continue
			}
			if do("arguments", w) {
				return out
			}
		}
		return out
	}
	register(p)
}

// pathNames gives things in the input names that are paths.
func pathNames(r *rng, sc *Scen) *Scen {
	in := sc.Inputs[r.n(len(sc.Inputs))]
	var s Sch
	if strings.HasPrefix(sc.Kind, "import") || json.Unmarshal(sc.Files[in], &s) != nil || len(s.Tables) == 0 {
		return nil
	}
	n := r.pick([]string{"../", "../../", "/", "/home/", "../../../../tmp/", "../keep/", "x/../../"}) + r.pick([]string{"escaped", "Escaped", "README.md", "db"})
	t := s.Tables[r.n(len(s.Tables))]
	switch r.n(5) {
	case 0:
		s.Name = n
	case 1:
		s.Version = n
	case 2:
		t.Class = n
	case 3:
		t.Group = n
	default:
		for _, o := range s.Tables {
			for _, c := range o.Columns {
				if c.Ref != nil && c.Ref.Table == t.Name {
					c.Ref.Table = n
				}
			}
		}
		t.Name = n
	}
	s2 := sc.copy()
	s2.Files[in] = s.json()
	return s2
}

// isFileOut: the scenario's output path is itself a file.
func isFileOut(sc *Scen, b *Result) bool {
	_, ok := b.Final[sc.Outs[0]]
	return ok
}

// outsChanged: removing one word may have turned another word into the output
// path; such runs are not judged.
func outsChanged(a, orig []string) bool {
	oa, oo := "", ""
	get := func(x []string) string {
		for i, s := range x {
			if (s == "-o" || s == "--output") && i+1 < len(x) {
				return x[i+1]
			}
			if strings.HasPrefix(s, "--output=") {
				return s
			}
		}
		return ""
	}
	oa, oo = get(a), get(orig)
	return oa != oo
}

// ------------------------------------------------------------------ C09

func judgeC09(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res, Trivial: len(res.Injected) == 0}
	if b.Procs[0].Exit != 0 {
		v.Trivial = true
		return v
	}
	p := res.Procs[0]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		return v
	}
	bo, ro := c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)
	var broken []string
	for _, q := range ro.keys() {
		want, gen := bo[q]
		got := ro[q]
		old, had := c.Scen.Files[q]
		if had && got == canon(q, string(old)) {
			continue
		}
		if !gen {
			if underAny(q, c.Scen.Outs) && strings.HasSuffix(q, ".xlsx") {
				continue
			}
			if p.Signal {
				continue
			}
			v.Msg = "the failed run left " + q + ", which is not one of its output files"
			return v
		}
		if got == want {
			continue
		}
		broken = append(broken, q)
	}
	if len(broken) > 1 {
		v.Msg = fmt.Sprintf("%d output files are incomplete after one interruption: %s", len(broken), strings.Join(broken, ", "))
		return v
	}
	if len(broken) == 1 {
		q := broken[0]
		last := ""
		for _, e := range res.Trace {
			if e.Err == "" && e.Op < len(p.Ops) && p.Ops[e.Op].Class == "openw" {
				last = e.Path
			}
		}
		if last != q {
			v.Msg = fmt.Sprintf("%s is incomplete although the run had moved on to %s", q, last)
			return v
		}
		if !strings.HasSuffix(q, ".xlsx") && !strings.HasPrefix(bo[q], ro[q]) {
			v.Msg = fmt.Sprintf("the interrupted file %s holds something else than a prefix of its content: %s", q, firstDiff(bo[q], ro[q]))
			return v
		}
		if p.Exit == 0 && !p.Signal {
			v.Msg = "the command reported success but left " + q + " incomplete"
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C09", Level: "fault_enumeration", Quick: 900, Deep: 4000, Judge: judgeC09,
		Rule: "multi-file and single-file generation interrupted at every disk operation by an error, a full disk or a kill (also squeezed through small transfers); non-trivial: a fault fired; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		kind := "generate kt"
		switch i % 4 {
		case 2:
			kind = "generate sqlalchemy"
		case 3:
			kind = kindAt(i / 4)
		}
		sc, b := env.prepared(r, kind, scenOpt{old: true, big: r.p(1, 6)})
		if sc == nil {
			return nil
		}
		ops := b.ops()
		fs := singleErrors(ops, 0)
		for k, o := range ops {
			if o.Mut || o.Wrote {
				fs = append(fs, Fault{Op: k, Kind: "kill"}, Fault{Op: k, Kind: "killafter"})
				if o.Class == "write" && o.N > 1 {
					fs = append(fs, Fault{Op: k, Kind: "killmid", Arg: int64(1 + r.n(int(o.N)-1))})
				}
			}
		}
		var out []*Case
		max := 80
		if env.tier == "thorough" {
			max = 500
		}
		for _, f := range sample(r, fs, max) {
			w := sc.run1(r.seed(), f)
			if r.p(1, 6) {
				w.MaxWrite = int64(1 + r.n(500))
			}
			verdict(env, p, &Case{Prop: "C09", Sub: "interrupted", Seed: env.seed, Index: i, Scen: sc, World: w, base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}

// ------------------------------------------------------------------ C10
// Announcements on the diagnostic stream.

func judgeC10(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res, Trivial: len(res.Said) == 0 || b.Procs[0].Exit != 0}
	if v.Trivial {
		return v
	}
	if m := crashMsg(res.Procs[0]); m != "" {
		v.Msg = m
		return v
	}
	for _, a := range res.Said {
		want, ok := b.Final[a.Path]
		if !ok {
			v.Msg = "the run announces " + a.Path + " as written, which an undisturbed run does not write"
			return v
		}
		if !a.Has {
			v.Msg = "the run announces " + a.Path + " as written, but there is no such file"
			return v
		}
		if a.Data != want {
			v.Msg = "the run announces " + a.Path + " as written while its content is incomplete: " + firstDiff(want, a.Data)
			return v
		}
		if res.Final[a.Path] != want {
			v.Msg = a.Path + " was announced as written and is incomplete at the end: " + firstDiff(want, res.Final[a.Path])
			return v
		}
	}
	if res.Procs[0].Exit == 0 {
		// what an undisturbed run announces is announced by every successful run
		said := map[string]int{}
		for _, a := range b.Said {
			said[a.Path]++
		}
		for _, a := range res.Said {
			said[a.Path]--
		}
		for _, q := range sortedKeys(said) {
			if said[q] != 0 && !hitsDiag(c.World, res.Procs[0]) {
				v.Msg = fmt.Sprintf("the announcement of %s is missing or doubled in a successful run", q)
				return v
			}
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C10", Level: "fault_enumeration", Quick: 1200, Deep: 5000, Judge: judgeC10,
		Rule: "commands that announce the files they write, with every disk operation failed, shortened or the disk filled in turn; the simulated disk is inspected at the moment of each announcement and at the end; non-trivial: something was announced; distinct: different system-call trace"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		kind := []string{"generate kt", "generate graphql", "generate liquibase", "diff liquibase", "generate sqlalchemy", "generate kt", "generate plantuml", "generate kt", "diff md", "import mysql"}[i%10]
		if i%30 == 29 {
			kind = kindAt(i / 30)
		}
		sc, b := env.prepared(r, kind, scenOpt{old: true, big: r.p(1, 8)})
		if sc == nil {
			return nil
		}
		var fs []Fault
		for _, f := range singleErrors(b.ops(), 0) {
			if o := b.ops()[f.Op]; o.Mut || o.Wrote {
				fs = append(fs, f)
			}
		}
		for k, o := range b.ops() {
			if o.Mut || o.Wrote {
				fs = append(fs, Fault{Op: k, Kind: "kill"})
				if o.Class == "write" && o.N > 1 {
					fs = append(fs, Fault{Op: k, Kind: "short", Arg: o.N / 2})
				}
			}
		}
		var out []*Case
		max := 70
		if env.tier == "thorough" {
			max = 400
		}
		plans := [][]Fault{nil}
		for _, f := range sample(r, fs, max) {
			plans = append(plans, []Fault{f})
		}
		for k := 0; k < 8 && len(fs) > 0; k++ {
			plans = append(plans, []Fault{fs[r.n(len(fs))], fs[r.n(len(fs))]})
		}
		for _, pl := range plans {
			verdict(env, p, &Case{Prop: "C10", Sub: "announcement", Seed: env.seed, Index: i, Scen: sc, World: sc.run1(r.seed(), pl...), base: b}, &out)
			if stopEarly(out) {
				return out
			}
		}
		return out
	}
	register(p)
}

// outDiff compares outputs; files that were there before, are not outputs of
// the undisturbed run and were left alone do not count.
func (c *Case) outDiff(want, got Tree) string {
	n := Tree{}
	for q, x := range got {
		if _, ok := want[q]; !ok {
			if old, had := c.Scen.Files[q]; had && canon(q, string(old)) == x {
				continue
			}
		}
		n[q] = x
	}
	return diffTree(want, n)
}
