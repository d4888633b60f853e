package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	root, _ := filepath.Abs(".")
	if v := os.Getenv("OCTSIM_ROOT"); v != "" {
		root = v
	}
	repo := "/repo"
	if v := os.Getenv("OCTSIM_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("OCTSIM_KINDS"); v != "" { // development only
		allKinds = strings.Split(v, ",")
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: octsim check ID | replay FILE | build DIR")
		os.Exit(2)
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseUint(v, 10, 64); err == nil {
			seed = n
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 3 && (os.Args[3] == "thorough" || os.Args[3] == "quick") {
		tier = os.Args[3]
	}
	env := newEnv(root, tier, seed)
	dir := os.Getenv("OCTSIM_WORKER") // reuse a worker built earlier (development only)
	cleanup := func() {}
	if dir == "" {
		d, err := os.MkdirTemp("", "octsim")
		if err != nil {
			fmt.Println("MACHINERY:", err)
			os.Exit(3)
		}
		dir = d
		cleanup = func() { os.RemoveAll(d) }
	}
	fail := func(rc int) { cleanup(); os.Exit(rc) }
	if _, err := os.Stat(filepath.Join(dir, "oct")); err != nil {
		if err := os.MkdirAll(dir, 0755); err != nil {
			fmt.Println("MACHINERY:", err)
			fail(3)
		}
		sites, err := buildWorker(repo, filepath.Join(root, "sim"), dir)
		if err != nil {
			fmt.Println("MACHINERY:", err)
			fail(3)
		}
		b, _ := json.Marshal(sites)
		os.WriteFile(filepath.Join(dir, "sites.json"), b, 0644)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "sites.json")); err == nil {
		json.Unmarshal(b, &env.sites)
	}
	env.bin = filepath.Join(dir, "oct")
	env.dir = dir
	switch os.Args[1] {
	case "build":
		fmt.Println("built", env.bin)
		return
	case "check":
		p := properties[os.Args[2]]
		if p == nil {
			fmt.Println("MACHINERY: unknown property", os.Args[2])
			fail(3)
		}
		fail(check(env, p))
	case "replay":
		fail(replay(env, os.Args[2]))
	}
	cleanup()
}

func replay(env *Env, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("MACHINERY:", err)
		return 3
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println("MACHINERY:", err)
		return 3
	}
	p := properties[c.Prop]
	v := p.Judge(env, &c)
	if v.Res != nil {
		for _, l := range traceLines(v.Res) {
			fmt.Println(" ", l)
		}
		for i, q := range v.Res.Procs {
			fmt.Printf("  process %d: exit %d killed=%v\n%s%s", i, q.Exit, q.Signal, q.Stderr, q.Panic)
		}
	}
	if v.Msg == "" {
		fmt.Println("replay: the property holds on this case")
		return 0
	}
	fmt.Println(v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, file)
	return 1
}
