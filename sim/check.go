package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is a complete replayable statement "this world breaks this property".
type Case struct {
	Prop  string            `json:"property"`
	Sub   string            `json:"sub"`
	Seed  uint64            `json:"seed"`
	Index int               `json:"index"`
	Scen  *Scen             `json:"scenario,omitempty"`
	World *World            `json:"world,omitempty"`
	Sess  *Session          `json:"session,omitempty"`
	Multi []*Scen           `json:"multi,omitempty"`
	Hist  *Hist             `json:"history,omitempty"`
	Arg   map[string]string `json:"arg,omitempty"`
	Msg   string            `json:"message"`
	Trace []string          `json:"trace,omitempty"`
	base  *Result
	keyed string
}

// Verdict is what a judge says about one case.
type Verdict struct {
	Msg     string // non-empty: the property is broken
	Key     string // identity of the failing situation (for known findings)
	Res     *Result
	Trivial bool
}

type Env struct {
	bin   string
	dir   string
	root  string // /verif
	sites []site
	tier  string
	seed  uint64

	mu       sync.Mutex
	evals    int64
	runs     int64
	simNanos int64
	distinct map[string]bool
	states   map[string]bool
	inter    map[string]bool
	faults   map[string]int
	kinds    map[string]int
	samples  []interface{}
	rejected int
	machine  []string
	steps    int64
	xcache   sync.Map
	crashed  int64
	extra    map[string]int
	rule     string
	assume   []string
	sites2   map[int]bool
}

type Property struct {
	ID    string
	Level string
	Quick int // scenario count
	Deep  int
	Rule  string
	Run   func(env *Env, i int, r *rng) []*Case // returns violating cases
	Judge func(env *Env, c *Case) Verdict
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func (env *Env) run(w *World) *Result {
	res := RunWorld(env.bin, w)
	atomic.AddInt64(&env.runs, int64(len(res.Procs)))
	env.mu.Lock()
	env.simNanos += res.SimNanos
	env.steps += int64(res.Events)
	for k, n := range res.Injected {
		env.faults[k] += n
	}
	if res.Machine != "" {
		env.machine = append(env.machine, res.Machine)
	}
	for _, n := range res.Notes {
		if len(env.machine) < 20 {
			env.machine = append(env.machine, n)
		}
	}
	if len(env.states) < 4_000_000 {
		env.states[res.Final.digest()] = true
	}
	env.mu.Unlock()
	return res
}

// count records one judged case; key identifies it for distinctness.
func (env *Env) count(c *Case, v Verdict) {
	env.mu.Lock()
	defer env.mu.Unlock()
	env.evals++
	if c.Scen != nil {
		env.kinds[c.Scen.Kind]++
	}
	for _, m := range c.Multi {
		env.kinds[m.Kind]++
	}
	if c.Hist != nil {
		for _, x := range histModels[c.Hist.Model](c.Hist).Cmds {
			env.kinds[strings.Join(x.Argv[:2], " ")]++
		}
	}
	if v.Res != nil && len(v.Res.Sched) > 0 {
		h := sha256.New()
		for _, s := range v.Res.Sched {
			fmt.Fprintln(h, s.Step, s.To)
		}
		for _, e := range v.Res.Trace {
			fmt.Fprintln(h, e.Proc, e.Call, e.Path)
		}
		env.inter[hex.EncodeToString(h.Sum(nil)[:8])] = true
	}
	if v.Trivial || v.Res == nil {
		return
	}
	h := traceHash(v.Res)
	if !env.distinct[h] {
		env.distinct[h] = true
		if len(env.samples) < 6 && (len(env.samples) == 0 || len(env.distinct)%397 == 1) {
			s := map[string]interface{}{"index": c.Index, "sub": c.Sub}
			if c.Scen != nil {
				s["command"] = "oct " + strings.Join(c.Scen.Argv, " ")
			}
			for _, m := range c.Multi {
				l, _ := s["commands"].([]string)
				s["commands"] = append(l, "oct "+strings.Join(m.Argv, " "))
			}
			if c.Hist != nil {
				l := []string{}
				for _, x := range histModels[c.Hist.Model](c.Hist).Cmds {
					l = append(l, "oct "+strings.Join(x.Argv, " "))
				}
				s["commands"] = l
				s["attempts under faults"] = c.Hist.Plan
			}
			if c.World != nil && len(c.World.Faults) > 0 {
				s["faults"] = c.World.Faults
			}
			var ex []int
			for _, p := range v.Res.Procs {
				ex = append(ex, p.Exit)
			}
			s["exits"] = ex
			s["events"] = v.Res.Events
			env.samples = append(env.samples, s)
		}
	}
}

func traceHash(r *Result) string {
	h := sha256.New()
	for _, e := range r.Trace {
		fmt.Fprintf(h, "%d %s %s %d %s %s\n", e.Proc, e.Call, e.Path, e.Ret, e.Err, e.Fault)
	}
	h.Write([]byte(r.Final.digest()))
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func traceLines(r *Result) []string {
	var out []string
	for _, e := range r.Trace {
		if e.Call == "clock" || e.Call == "fcntl" {
			continue
		}
		l := fmt.Sprintf("p%d #%d %s %s", e.Proc, e.Op, e.Call, e.Path)
		if e.N != 0 {
			l += fmt.Sprintf(" n=%d", e.N)
		}
		if e.Err != "" {
			l += " = " + e.Err
		} else {
			l += fmt.Sprintf(" = %d", e.Ret)
		}
		if e.Fault != "" {
			l += "   <== " + e.Fault
		}
		out = append(out, l)
	}
	return out
}

var stampRe = regexp.MustCompile(`(?m)^\d{4,}/\d\d/\d\d \d\d:\d\d:\d\d `)

func normErr(s string) string { return stampRe.ReplaceAllString(s, "") }

// crashMsg reports an uncontrolled end of a process.
func crashMsg(p *ProcResult) string {
	if p.Signal {
		return ""
	}
	if p.Hang {
		return "the process did not terminate within the step bound"
	}
	if p.Exit != 0 && (strings.Contains(p.Panic, "panic:") || strings.Contains(p.Panic, "fatal error:")) || p.Exit == 2 {
		return fmt.Sprintf("the process crashed (exit %d): %s", p.Exit, head(p.Panic, 300))
	}
	if p.Exit > 2 {
		return fmt.Sprintf("the process ended with status %d: %s", p.Exit, head(p.Panic, 300))
	}
	return ""
}

func head(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

// crashKey names the place of a panic (first repository frame).
var frameRe = regexp.MustCompile(`(?m)^\s+(\S*?/?(format|util)/\S+\.go):\d+`)
var funcRe = regexp.MustCompile(`(?m)^github\.com/lechuckroh/octopus-db-tools/(.+)\([^()]*\)$`)

func crashKey(p *ProcResult) string {
	for _, m := range funcRe.FindAllStringSubmatch(p.Panic, -1) {
		if !strings.Contains(m[1], "octsimrt") {
			return m[1]
		}
	}
	return "?"
}

// base runs the scenario without faults and without older outputs in the way.
func (env *Env) base(sc *Scen) *Result {
	w := sc.run1(11)
	for _, p := range sc.OldOuts {
		delete(w.Files, p)
	}
	return env.run(w)
}

func (env *Env) xlsxOf(s *Sch, nullCol bool) []byte {
	h := sha256.Sum256(append(s.json(), fmt.Sprint(nullCol)...))
	if v, ok := env.xcache.Load(h); ok {
		return v.([]byte)
	}
	argv := []string{"export", "xlsx", "-i", "/s.json", "-o", "/o.xlsx"}
	if nullCol {
		argv = append(argv, "--useNullColumn")
	}
	w := &World{Files: map[string][]byte{"/s.json": s.json()}, Phases: [][]ProcSpec{{{Argv: argv, Seed: 5}}}}
	r := env.run(w)
	b := []byte(r.Final["/o.xlsx"])
	env.xcache.Store(h, b)
	return b
}

// ---- exploration driver ----

func newEnv(root, tier string, seed uint64) *Env {
	return &Env{root: root, tier: tier, seed: seed, distinct: map[string]bool{}, states: map[string]bool{}, inter: map[string]bool{}, faults: map[string]int{}, kinds: map[string]int{}, extra: map[string]int{}, sites2: map[int]bool{}}
}

func explore(env *Env, p *Property, from, n int, deadline time.Time) []*Case {
	var next int64 = int64(from)
	var out []*Case
	var mu sync.Mutex
	var wg sync.WaitGroup
	var stop int32
	done := int64(0)
	for g := 0; g < 12; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= from+n || atomic.LoadInt32(&stop) != 0 || time.Now().After(deadline) {
					return
				}
				r := newRng(env.seed, p.ID, strconv.Itoa(i))
				vs := p.Run(env, i, r)
				atomic.AddInt64(&done, 1)
				if len(vs) > 0 {
					mu.Lock()
					out = append(out, vs...)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	sort.SliceStable(out, func(a, b int) bool { return out[a].Index < out[b].Index })
	env.extra["scenarios"] += int(done)
	return out
}

type finding struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

func check(env *Env, p *Property) int {
	start := time.Now()
	n := p.Quick
	limit := 300 * time.Second
	if env.tier == "thorough" {
		n = p.Deep
		limit = 3600 * time.Second
	}
	if v := os.Getenv("OCTSIM_N"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("OCTSIM_SECONDS"); v != "" {
		s, _ := strconv.Atoi(v)
		limit = time.Duration(s) * time.Second
	}
	if msg := selfTest(env); msg != "" {
		fmt.Println("MACHINERY:", msg)
		return 3
	}
	viol := explore(env, p, 0, n, start.Add(limit))
	known := map[string]finding{}
	for _, f := range loadFindings(env.root) {
		if f.Property == p.ID && f.Status == "known" {
			known[f.Key] = f
		}
	}
	printed := map[string]bool{}
	if os.Getenv("OCTSIM_KEYS") != "" {
		h := map[string]int{}
		for _, c := range viol {
			kd := ""
			if c.Scen != nil {
				kd = c.Scen.Kind
			}
			h[c.Sub+" | "+kd+" | "+c.keyed+" | "+head(strings.SplitN(c.Msg, "\n", 2)[0], 160)]++
		}
		for k, n := range h {
			fmt.Println(n, k)
		}
	}
	var real []*Case
	for _, c := range viol {
		if f, ok := known[c.keyed]; ok && c.keyed != "" {
			if !printed[c.keyed] {
				printed[c.keyed] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
			}
			continue
		}
		real = append(real, c)
	}
	rc := 0
	if len(real) > 0 {
		rc = 1
		seen := map[string]bool{}
		shown := 0
		for _, c := range real {
			k := c.Sub
			if c.Scen != nil {
				k += "|" + c.Scen.Kind
			}
			if seen[k] || shown >= 3 {
				continue
			}
			seen[k] = true
			shown++
			m := minimise(env, p, c)
			path := writeReplay(env, m)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  %s: %s\n", m.Sub, head(m.Msg, 600))
			if m.Scen != nil {
				fmt.Printf("  command: oct %s\n", strings.Join(m.Scen.Argv, " "))
			}
			if m.World != nil && len(m.World.Faults) > 0 {
				b, _ := json.Marshal(m.World.Faults)
				fmt.Printf("  faults: %s\n", b)
			}
		}
		fmt.Printf("%d violating cases in %d evaluations\n", len(real), env.evals)
	}
	if len(env.machine) > 0 {
		fmt.Println("MACHINERY:", env.machine[0], "and", len(env.machine)-1, "more")
		if rc == 0 {
			for _, m := range env.machine {
				if strings.HasPrefix(m, "worker") {
					rc = 3
				}
			}
		}
	}
	writeEvidence(env, p, time.Since(start).Seconds(), len(real))
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d runs, %.0f s\n", p.ID, env.tier, env.evals, len(env.distinct), env.runs, time.Since(start).Seconds())
	return rc
}

func writeReplay(env *Env, c *Case) string {
	b, _ := json.MarshalIndent(c, "", " ")
	h := sha256.Sum256(b)
	dir := filepath.Join(env.root, "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", c.Prop, hex.EncodeToString(h[:5])))
	os.WriteFile(p, b, 0644)
	return p
}

func writeEvidence(env *Env, p *Property, wall float64, viol int) {
	perHour := func(n int64) int64 {
		if wall < 1 {
			wall = 1
		}
		return int64(float64(n) / wall * 3600)
	}
	cov := map[string]interface{}{
		"evaluations":             env.evals,
		"distinct_nontrivial":     len(env.distinct),
		"rule":                    p.Rule,
		"samples":                 env.samples,
		"simulated_processes":     env.runs,
		"simulated_runs_per_hour": perHour(env.runs),
		"seeds_per_hour":          perHour(int64(env.extra["scenarios"])),
		"scenario_seeds":          env.extra["scenarios"],
		"simulated_seconds":       float64(env.simNanos) / 1e9,
		"simulated_system_calls":  env.steps,
		"faults_injected":         env.faults,
		"distinct_final_states":   len(env.states),
		"distinct_interleavings":  len(env.inter),
		"state_measure":           "distinct final file-system contents (sha256); distinct runs are distinct system-call traces with results and faults",
		"commands_covered":        env.kinds,
		"rejected_inputs":         env.rejected,
		"counters":                env.extra,
		"real_components":         "the oct program from /repo's working tree (every package, main, urfave/cli, tealeg/xlsx, pingcap/parser, the Go runtime and standard library above package syscall)",
		"stubbed_components":      "Linux system calls below package syscall (in-memory file system, clock, process ids, uname, getrandom); the runtime's start-up randomness (seeded)",
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": env.tier, "seed": env.seed, "level": p.Level,
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{
			"the simulated kernel follows Linux for the calls the program makes (no symbolic or hard links, one user)",
			"goroutines interleave only at Go scheduling points (one P, no asynchronous preemption); map order, select and run-queue order are seeded",
		}, env.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(env.root, "evidence"), 0755)
	os.WriteFile(filepath.Join(env.root, "evidence", p.ID+".json"), b, 0644)
}

// selfTest proves on this build that one seed is one execution.
func selfTest(env *Env) string {
	r := newRng(99, "selftest")
	for _, kind := range []string{"generate kt", "export xlsx", "diff md"} {
		sc := env.newScen(r, kind, scenOpt{})
		a := RunWorld(env.bin, sc.run1(77))
		b := RunWorld(env.bin, sc.run1(77))
		if a.Machine != "" {
			return a.Machine
		}
		if traceHash(a) != traceHash(b) || a.Final.digest() != b.Final.digest() || a.Procs[0].Stderr != b.Procs[0].Stderr {
			return "replaying one seed gave two different executions of oct " + kind
		}
		if len(a.Trace) < 10 {
			return "the system-call seam is not in effect"
		}
	}
	return ""
}

// ---- minimisation ----

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	d.keyed = c.keyed
	return &d
}

func minimise(env *Env, p *Property, c *Case) *Case {
	if p.Judge == nil {
		return c
	}
	best := cloneCase(c)
	v := p.Judge(env, best)
	if v.Msg == "" {
		best.Msg += " (not reproduced on re-judging)"
		return best
	}
	best.Msg = v.Msg
	if v.Res != nil {
		best.Trace = traceLines(v.Res)
	}
	budget := 150
	if c.Hist != nil {
		budget = 600
	}
	deadline := time.Now().Add(40 * time.Second)
	try := func(d *Case) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		d.base = nil
		v := p.Judge(env, d)
		if v.Msg == "" || v.Key != c.keyed {
			return false
		}
		d.Msg = v.Msg
		if v.Res != nil {
			d.Trace = traceLines(v.Res)
		}
		best = d
		return true
	}
	for changed := true; changed; {
		changed = false
		if best.World != nil {
			for i := 0; i < len(best.World.Faults); i++ {
				d := cloneCase(best)
				d.World.Faults = append(d.World.Faults[:i:i], d.World.Faults[i+1:]...)
				if try(d) {
					changed = true
					i--
				}
			}
			for sz := len(best.World.Sched) / 2; sz >= 1; sz /= 2 {
				for i := 0; i+sz <= len(best.World.Sched); {
					d := cloneCase(best)
					d.World.Sched = append(d.World.Sched[:i:i], d.World.Sched[i+sz:]...)
					if try(d) {
						changed = true
					} else {
						i += sz
					}
				}
			}
		}
		if best.Sess != nil {
			for sz := len(best.Sess.Switches) / 2; sz >= 1; sz /= 2 {
				for i := 0; i+sz <= len(best.Sess.Switches); {
					d := cloneCase(best)
					d.Sess.Switches = append(d.Sess.Switches[:i:i], d.Sess.Switches[i+sz:]...)
					if try(d) {
						changed = true
					} else {
						i += sz
					}
				}
			}
			for i := 0; i+1 < len(best.Sess.Cmds); i++ {
				d := cloneCase(best)
				d.Sess.Cmds = append(d.Sess.Cmds[:i:i], d.Sess.Cmds[i+1:]...)
				if try(d) {
					changed = true
					i--
				}
			}
		}
		for i := 0; len(best.Multi) > 1 && i < len(best.Multi) && best.Arg["fixed"] == ""; i++ {
			d := cloneCase(best)
			d.Multi = append(d.Multi[:i:i], d.Multi[i+1:]...)
			if try(d) {
				changed = true
				i--
			}
		}
		for again := best.Hist != nil; again; {
			again = false
			for _, f := range best.Hist.shrinks() {
				h := f()
				if h == nil {
					continue
				}
				d := cloneCase(best)
				d.Hist = h
				if try(d) {
					changed, again = true, true
					break
				}
			}
		}
		if best.Arg["rel"] != "" {
			// both files of a pair stay related
			for _, in := range best.Scen.Inputs {
				for _, part := range schemaParts(best.Scen.Files[in]) {
					if d := cutPair(best, in, part); d != nil && try(d) {
						changed = true
					}
				}
			}
			if budget <= 0 || time.Now().After(deadline) {
				break
			}
			continue
		}
		// shrink octopus schema inputs table by table, column by column
		if best.Scen != nil {
			for _, in := range best.Scen.Inputs {
				if !strings.HasSuffix(in, "json") {
					continue
				}
				for pass := 0; pass < 2; pass++ {
					for k := 0; ; k++ {
						nb, more := dropPart(best.Scen.Files[in], pass, k)
						if !more {
							break
						}
						if nb == nil {
							continue
						}
						d := cloneCase(best)
						d.Scen.Files[in] = nb
						if d.World != nil && string(d.World.Files[in]) == string(best.Scen.Files[in]) {
							d.World.Files[in] = nb
						}
						if try(d) {
							changed = true
							k--
						}
					}
				}
			}
		}
		if budget <= 0 || time.Now().After(deadline) {
			break
		}
	}
	return best
}

// dropPart removes the k-th table (pass 0) or k-th column overall (pass 1).
func dropPart(b []byte, pass, k int) ([]byte, bool) {
	var s Sch
	if json.Unmarshal(b, &s) != nil {
		return nil, false
	}
	if pass == 0 {
		if k >= len(s.Tables) {
			return nil, false
		}
		dropTable(&s, k)
		return s.json(), true
	}
	n := 0
	for _, t := range s.Tables {
		for ci := range t.Columns {
			if n == k {
				if len(t.Columns) == 1 {
					return nil, true
				}
				dropCol(&s, t, ci)
				return s.json(), true
			}
			n++
		}
	}
	return nil, false
}

// schemaParts lists the tables and columns that nothing else in a schema refers to.
func schemaParts(b []byte) [][2]string {
	var s Sch
	if json.Unmarshal(b, &s) != nil {
		return nil
	}
	used := map[[2]string]bool{}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if c.Ref != nil {
				used[[2]string{c.Ref.Table, c.Ref.Column}] = true
				if c.Ref.Table != t.Name {
					used[[2]string{c.Ref.Table, ""}] = true
				}
			}
		}
		for _, i := range t.Indices {
			for _, n := range i.Columns {
				used[[2]string{t.Name, n}] = true
			}
		}
	}
	var parts [][2]string
	for _, t := range s.Tables {
		if p := [2]string{t.Name, ""}; !used[p] {
			parts = append(parts, p)
		}
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if p := [2]string{t.Name, c.Name}; !used[p] && len(t.Columns) > 1 {
				parts = append(parts, p)
			}
		}
	}
	return parts
}

// cutPair removes a part from all versions of a file of a case.
func cutPair(c *Case, in string, part [2]string) *Case {
	d := cloneCase(c)
	ok := true
	cut := func(b []byte) []byte {
		n := cutPart(b, part)
		ok = ok && n != nil
		return n
	}
	d.Scen.Files[in] = cut(d.Scen.Files[in])
	if b, has := d.World.Files[in]; has {
		d.World.Files[in] = cut(b)
	}
	for i := range d.World.Edits {
		if e := &d.World.Edits[i]; e.Path == in {
			e.Data = cut(e.Data)
		}
	}
	if !ok {
		return nil
	}
	return d
}

// cutPart removes a table or a column from the text of a schema, nil if it is not there.
func cutPart(b []byte, part [2]string) []byte {
	lo, hi, ok := findEntry(b, "tables", part[0])
	if !ok {
		return nil
	}
	if part[1] != "" {
		l, h, ok := findEntry(b[lo:hi], "columns", part[1])
		if !ok {
			return nil
		}
		lo, hi = lo+l, lo+h
	}
	out := append([]byte{}, b[:lo]...)
	rest := b[hi:]
	if t := bytes.TrimLeft(rest, " \t\r\n"); len(t) > 0 && t[0] == ',' {
		rest = t[1:]
	} else if t := bytes.TrimRight(out, " \t\r\n"); len(t) > 0 && t[len(t)-1] == ',' {
		out = t[:len(t)-1]
	}
	return append(out, rest...)
}

// findEntry finds the object of that name in the array under a key of a JSON object.
func findEntry(b []byte, key, name string) (int, int, bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	if _, err := dec.Token(); err != nil {
		return 0, 0, false
	}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return 0, 0, false
		}
		var raw json.RawMessage
		if k != key {
			if dec.Decode(&raw) != nil {
				return 0, 0, false
			}
			continue
		}
		if _, err := dec.Token(); err != nil {
			return 0, 0, false
		}
		for dec.More() {
			if dec.Decode(&raw) != nil {
				return 0, 0, false
			}
			end := int(dec.InputOffset())
			var x struct{ Name string }
			if json.Unmarshal(raw, &x) == nil && x.Name == name {
				return end - len(raw), end, true
			}
		}
		return 0, 0, false
	}
	return 0, 0, false
}

func (env *Env) bump(k string) {
	env.mu.Lock()
	env.extra[k]++
	env.mu.Unlock()
}
