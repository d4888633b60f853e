package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The worker is the repository's real command line program, compiled from the
// current working tree.  Three things are laid over the build (nothing is
// written to /repo or GOROOT): a system-call seam and a seeded-randomness seam
// in the Go standard library, and a scheduling point before every statement
// of the repository's packages.

type edit struct{ file, old, new string }

var stdEdits = []edit{
	{"syscall/syscall_linux.go",
		"\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n",
		"\tif octsimOn && !octsimPass(trap) {\n\t\tr, e := octsimCall(trap, a1, a2, a3, a4, a5, a6)\n\t\treturn r, 0, Errno(e)\n\t}\n\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n"},
	{"syscall/syscall_linux.go",
		"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif octsimOn {\n\t\treturn RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n\t}\n"},
	{"syscall/syscall_linux.go",
		"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif octsimOn {\n\t\treturn RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "rawSyscallNoError(", "octsimNoError("},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n",
		"\toctsimParse()\n\tif octsimSeed != 0 {\n\t\toctsimFill(seed)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = true"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif octsimSeed != 0 {\n\t\treturn false\n\t}\n"},
	{"runtime/time.go", "//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.octsimSleep0\n"},
	{"time/sleep.go", "func Sleep(d Duration)\n",
		"func Sleep(d Duration) {\n\tif syscall.OctsimSleep(int64(d)) {\n\t\treturn\n\t}\n\toctsimSleep0(d)\n}\n\nfunc octsimSleep0(d Duration)\n"},
	{"time/sleep.go", "import (\n", "import (\n\t\"syscall\"\n"},
	{"time/time.go", "func Now() Time {\n",
		"func Now() Time {\n\tif s, n, ok := syscall.OctsimClock(); ok {\n\t\treturn Time{uint64(n), s + unixToInternal, Local}\n\t}\n"},
	{"time/time.go", "import (\n", "import (\n\t\"syscall\"\n"},
	{"os/proc.go", "func Exit(code int) {\n",
		"func Exit(code int) {\n\tif OctsimExit != nil {\n\t\tOctsimExit(code)\n\t}\n"},
	{"os/proc.go", "func Exit(", "var OctsimExit func(int)\n\nvar OctsimYield func()\n\nfunc Exit("},
	{"os/file.go", "func (f *File) Read(b []byte) (n int, err error) {\n",
		"func (f *File) Read(b []byte) (n int, err error) {\n\tif OctsimYield != nil && f != Stderr && f != Stdout {\n\t\tOctsimYield()\n\t}\n"},
	{"os/file.go", "func (f *File) Write(b []byte) (n int, err error) {\n",
		"func (f *File) Write(b []byte) (n int, err error) {\n\tif OctsimYield != nil && f != Stderr && f != Stdout {\n\t\tOctsimYield()\n\t}\n"},
	{"os/file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
		"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tif OctsimYield != nil {\n\t\tOctsimYield()\n\t}\n"},
	// the real vgetrandom would bypass the seed
	{"runtime/vgetrandom_linux.go", "func vgetrandom(p []byte, flags uint32) (ret int, supported bool) {\n",
		"func vgetrandom(p []byte, flags uint32) (ret int, supported bool) {\n\tif octsimSeed != 0 {\n\t\treturn -1, false\n\t}\n"},
}

type site struct {
	File string
	Line int
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
}

// buildWorker compiles the simulated program into dir/oct and returns the
// scheduling-site table.
func buildWorker(repo, simDir, dir string) ([]site, error) {
	rootB, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	goroot := strings.TrimSpace(string(rootB))
	ov := map[string]string{}
	n := 0
	put := func(target string, b []byte) error {
		n++
		p := filepath.Join(dir, "ov", fmt.Sprintf("%04d_%s", n, filepath.Base(target)))
		ov[target] = p
		return os.WriteFile(p, b, 0644)
	}
	if err := os.MkdirAll(filepath.Join(dir, "ov"), 0755); err != nil {
		return nil, err
	}
	files := map[string][]byte{}
	var order []string
	for _, e := range stdEdits {
		p := filepath.Join(goroot, "src", e.file)
		b, ok := files[p]
		if !ok {
			if b, err = os.ReadFile(p); err != nil {
				return nil, err
			}
			order = append(order, p)
		}
		c := bytes.Count(b, []byte(e.old))
		if c == 0 || (c != 1 && e.old != "rawSyscallNoError(" && !strings.HasPrefix(e.old, "import")) {
			return nil, fmt.Errorf("seam edit does not fit %s: %d matches of %q", e.file, c, e.old)
		}
		if e.old == "rawSyscallNoError(" {
			b = bytes.ReplaceAll(b, []byte(e.old), []byte(e.new))
		} else {
			b = bytes.Replace(b, []byte(e.old), []byte(e.new), 1)
		}
		files[p] = b
	}
	for _, p := range order {
		if err := put(p, files[p]); err != nil {
			return nil, err
		}
	}
	mod := modPath(repo)
	for src, dst := range map[string]string{
		"syscall_octsim.go.txt": filepath.Join(goroot, "src/syscall/octsim_linux.go"),
		"runtime_octsim.go.txt": filepath.Join(goroot, "src/runtime/octsim.go"),
		"rt.go.txt":             filepath.Join(repo, "octsimrt/rt.go"),
		"main_octsim.go.txt":    filepath.Join(repo, "zz_octsim.go"),
	} {
		b, err := os.ReadFile(filepath.Join(simDir, "overlay", src))
		if err != nil {
			return nil, err
		}
		b = bytes.ReplaceAll(b, []byte("MODPATH"), []byte(mod))
		if err := put(dst, b); err != nil {
			return nil, err
		}
	}
	sites := []site{{"os", 0}}
	var gofiles []string
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			gofiles = append(gofiles, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(gofiles)
	for _, p := range gofiles {
		b, err := instrument(p, strings.TrimPrefix(p, repo+"/"), mod, &sites)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", p, err)
		}
		if b != nil {
			if err := put(p, b); err != nil {
				return nil, err
			}
		}
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ovb, 0644); err != nil {
		return nil, err
	}
	out, err := runGo(repo, dir, ovf, "readonly")
	if err != nil {
		return nil, fmt.Errorf("worker build failed: %v\n%s", err, out)
	}
	return sites, nil
}

func runGo(repo, dir, ovf, mode string) ([]byte, error) {
	cmd := exec.Command("go", "build", "-mod="+mode, "-buildvcs=false", "-trimpath", "-overlay", ovf, "-o", filepath.Join(dir, "oct"), ".")
	cmd.Dir = repo
	cmd.Env = goEnv()
	return cmd.CombinedOutput()
}

func modPath(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return ""
}

// instrument inserts a scheduling point before every statement.
func instrument(path, rel, mod string, sites *[]site) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name == "main" {
		return nil, nil
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			p := fs.Position(s.Pos())
			id := len(*sites)
			*sites = append(*sites, site{rel, p.Line})
			list = append(list, ins{p.Offset, fmt.Sprintf("octsimrt.Y(%d);", id)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(list) == 0 {
		return nil, nil
	}
	list = append(list, ins{fs.Position(f.Name.End()).Offset, "; import octsimrt \"" + mod + "/octsimrt\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out bytes.Buffer
	last := 0
	for _, i := range list {
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}
