package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Fault is one injected event, addressed by process and by the index of that
// process' system call.
type Fault struct {
	Proc int    `json:"proc"`
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	Err  string `json:"err,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
}

type Cmd struct {
	Argv []string    `json:"argv"`
	Put  [][2]string `json:"put,omitempty"` // files that someone else moves into place before the command
}

type LaneSwitch struct {
	Lane int    `json:"lane"`
	Step uint64 `json:"step"`
	To   int    `json:"to"`
}

type WorkerCfg struct {
	Session  bool         `json:"session"`
	Lanes    [][]Cmd      `json:"lanes"`
	Switches []LaneSwitch `json:"switches"`
	Limit    uint64       `json:"limit"`
	Gosched  uint64       `json:"gosched"`
	Cover    bool         `json:"cover"`
}

type Report struct {
	Codes  [][]int       `json:"codes"`
	Notes  [][]string    `json:"notes"`
	Steps  []uint64      `json:"steps"`
	Sites  [][][4]uint64 `json:"sites"`
	Fired  int           `json:"fired"`
	Stalls int           `json:"stalls"`
}

type ProcSpec struct {
	Argv []string   `json:"argv"`
	Env  []string   `json:"env,omitempty"`
	Cwd  string     `json:"cwd,omitempty"`
	Pid  int        `json:"pid,omitempty"`
	Seed uint64     `json:"seed"`
	Cfg  *WorkerCfg `json:"cfg,omitempty"`
}

type Switch struct {
	Step int `json:"step"`
	To   int `json:"to"`
}

// World is one complete, replayable simulation input.
type World struct {
	Files     map[string][]byte `json:"files"`
	Dirs      []string          `json:"dirs,omitempty"`
	Phases    [][]ProcSpec      `json:"phases"`
	Faults    []Fault           `json:"faults,omitempty"`
	Cap       int64             `json:"cap,omitempty"` // free bytes on the disk, 0 = unlimited
	Clock     int64             `json:"clock,omitempty"`
	Tick      int64             `json:"tick,omitempty"`
	Sched     []Switch          `json:"sched,omitempty"`
	SchedSeed uint64            `json:"schedSeed,omitempty"`
	Period    int               `json:"period,omitempty"`
	MaxRead   int64             `json:"maxRead,omitempty"`  // every read returns at most this many bytes
	MaxWrite  int64             `json:"maxWrite,omitempty"` // every write accepts at most this many bytes
	Host      string            `json:"host,omitempty"`
	Edits     []Edit            `json:"edits,omitempty"`
}

// Edit is a file the user (or another program) replaces before a phase starts.
type Edit struct {
	Phase int    `json:"phase"`
	Path  string `json:"path"`
	Data  []byte `json:"data"`
}

type Op struct {
	Class string
	Path  string
	N     int64
	Ret   int64
	Mut   bool
	Wrote bool // for close: the file was written through this descriptor
}

type ProcResult struct {
	Exit   int
	Signal bool // killed by the simulator
	Hang   bool
	Stdout string
	Stderr string
	Panic  string
	Ops    []Op
	Report *Report
}

// Said is an announcement "[WRITE] path" and what the disk held at that moment.
type Said struct {
	Proc int
	Path string
	Has  bool
	Data string
}

type Result struct {
	Procs    []*ProcResult
	Phase    []Tree
	Final    Tree
	Before   Tree
	Trace    []Event
	Sched    []Switch
	Notes    []string
	Injected map[string]int
	Power    []string
	SimNanos int64
	Events   int
	Said     []Said // announcements on standard error
	planOps  []Op   // calls of the run that faults are planned for
	Machine  string // non-empty: the machinery itself failed
}

type proc struct {
	id    int
	spec  ProcSpec
	cmd   *exec.Cmd
	fd    int
	memfd *os.File
	fds   map[int]*ofile
	cwd   string
	res   *ProcResult
	ctl   []byte
	dead  bool
	// pending request
	hdr     [10]uint64
	payload []byte
	stick   syscall.Errno
	stickW  syscall.Errno
}

var errnoByName = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM,
	"EINTR": syscall.EINTR, "EPERM": syscall.EPERM, "EBADF": syscall.EBADF, "ENOENT": syscall.ENOENT,
	"ESTALE": syscall.ESTALE, "ETXTBSY": syscall.ETXTBSY, "EFBIG": syscall.EFBIG, "EBUSY": syscall.EBUSY,
	"EAGAIN": syscall.EAGAIN, "ELOOP": syscall.ELOOP,
}

func errName(e syscall.Errno) string {
	for n, v := range errnoByName {
		if v == e {
			return n
		}
	}
	return fmt.Sprintf("E%d", int(e))
}

type sim struct {
	k     *Kernel
	w     *World
	res   *Result
	procs []*proc
	byOp  map[[2]int][]Fault
	phase []*proc
	off   bool // power lost
	bin   string
}

const defaultLimit = 60_000_000

func (s *sim) start(id int, spec ProcSpec) (*proc, error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	name := []byte("e\x00")
	m, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		return nil, e
	}
	mf := os.NewFile(m, "memfd")
	child := os.NewFile(uintptr(sp[1]), "sock")
	tv := syscall.Timeval{Sec: 60}
	syscall.SetsockoptTimeval(sp[0], syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
	p := &proc{id: id, spec: spec, fd: sp[0], memfd: mf, fds: map[int]*ofile{}, cwd: spec.Cwd, res: &ProcResult{}}
	if p.cwd == "" {
		p.cwd = "/home/u"
	}
	cfg := WorkerCfg{}
	if spec.Cfg != nil {
		cfg = *spec.Cfg
	}
	if cfg.Limit == 0 {
		cfg.Limit = defaultLimit
	}
	cb, _ := json.Marshal(cfg)
	p.cmd = &exec.Cmd{Path: s.bin, Args: append([]string{"oct"}, spec.Argv...), Dir: "/"}
	p.cmd.Env = append(append([]string{}, spec.Env...), "OCTSIM_SEED="+strconv.FormatUint(spec.Seed|1, 10), "OCTSIM_CFG="+string(cb),
		"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=2GiB", "GODEBUG=asyncpreemptoff=1")
	p.cmd.Stderr = mf
	p.cmd.ExtraFiles = []*os.File{child}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	child.Close()
	s.procs = append(s.procs, p)
	s.res.Procs = append(s.res.Procs, p.res)
	return p, nil
}

func readFull(fd int, b []byte) error {
	for len(b) > 0 {
		n, err := syscall.Read(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.EAGAIN {
			return os.ErrDeadlineExceeded
		}
		if err != nil || n == 0 {
			return io.EOF
		}
		b = b[n:]
	}
	return nil
}

func writeFull(fd int, b []byte) error {
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// fetch waits for the process' next system call or its end.
func (s *sim) fetch(p *proc) {
	var hb [80]byte
	err := readFull(p.fd, hb[:])
	if err == nil {
		for i := range p.hdr {
			p.hdr[i] = binary.LittleEndian.Uint64(hb[8*i:])
		}
		n := int(p.hdr[0]) - 80
		p.payload = make([]byte, n)
		err = readFull(p.fd, p.payload)
	}
	if err == nil {
		return
	}
	if err == os.ErrDeadlineExceeded {
		p.res.Hang = true
		p.cmd.Process.Kill()
	}
	s.reap(p)
}

func (s *sim) reap(p *proc) {
	if p.dead {
		return
	}
	p.dead = true
	syscall.Close(p.fd)
	p.cmd.Wait()
	st := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if st.Signaled() {
		p.res.Exit = 128 + int(st.Signal())
	} else {
		p.res.Exit = st.ExitStatus()
	}
	p.memfd.Seek(0, 0)
	b, _ := io.ReadAll(io.LimitReader(p.memfd, 1<<20))
	p.memfd.Close()
	p.res.Panic = string(b)
	if len(p.ctl) > 0 {
		switch {
		case bytes.HasPrefix(p.ctl, []byte("STEPLIMIT")), bytes.HasPrefix(p.ctl, []byte("DEADLOCK")):
			p.res.Hang = true
			p.res.Panic += string(p.ctl)
		default:
			var r Report
			if json.Unmarshal(p.ctl, &r) == nil {
				p.res.Report = &r
			}
		}
	}
	if p.res.Exit == 117 || p.res.Exit == 119 || p.res.Exit == 120 {
		if !p.res.Signal {
			s.res.Machine = fmt.Sprintf("worker exit %d: %s", p.res.Exit, p.res.Panic)
		}
	}
	// descriptors are closed by process exit
	for _, o := range p.fds {
		_ = o
	}
	p.fds = nil
}

func (s *sim) kill(p *proc) {
	p.res.Signal = true
	p.cmd.Process.Kill()
	s.reap(p)
}

// RunWorld executes one simulation.
func RunWorld(bin string, w *World) *Result {
	k := newKernel()
	if w.Clock != 0 {
		k.clock = w.Clock
	}
	t0 := k.clock
	res := &Result{Injected: map[string]int{}}
	s := &sim{k: k, w: w, res: res, bin: bin, byOp: map[[2]int][]Fault{}}
	k.mkdirs("/home/u")
	k.mkdirs("/tmp")
	k.mkdirs("/etc")
	for _, d := range w.Dirs {
		k.mkdirs(d)
	}
	var names []string
	for p := range w.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		k.put(p, w.Files[p])
	}
	if w.Cap > 0 {
		k.cap = k.used + w.Cap
	}
	res.Before = k.snapshot()
	for _, f := range w.Faults {
		s.byOp[[2]int{f.Proc, f.Op}] = append(s.byOp[[2]int{f.Proc, f.Op}], f)
	}
	var sr *rng
	if w.SchedSeed != 0 {
		sr = newRng(w.SchedSeed, "sched")
	}
	period := w.Period
	if period <= 0 {
		period = 4
	}
	step := 0
	si := 0
	id := 0
	for phi, ph := range w.Phases {
		s.phase = nil
		s.off = false
		for _, e := range w.Edits {
			if e.Phase == phi {
				k.put(e.Path, e.Data)
			}
		}
		for _, spec := range ph {
			p, err := s.start(id, spec)
			if err != nil {
				res.Machine = err.Error()
				return res
			}
			id++
			s.phase = append(s.phase, p)
		}
		for _, p := range s.phase {
			s.fetch(p)
		}
		cur := 0
		for {
			live := 0
			for _, p := range s.phase {
				if !p.dead {
					live++
				}
			}
			if live == 0 || s.off {
				break
			}
			if s.phase[cur].dead {
				for i, p := range s.phase {
					if !p.dead {
						cur = i
						break
					}
				}
			}
			if len(s.phase) > 1 {
				if sr != nil {
					if sr.n(period) == 0 {
						to := sr.n(len(s.phase))
						if to != cur && !s.phase[to].dead {
							res.Sched = append(res.Sched, Switch{step, to})
							cur = to
						}
					}
				} else {
					for si < len(w.Sched) && w.Sched[si].Step <= step {
						to := w.Sched[si].To
						si++
						if to < len(s.phase) && !s.phase[to].dead {
							cur = to
						}
					}
				}
			}
			step++
			p := s.phase[cur]
			s.handle(p)
			if s.off {
				break
			}
			if !p.dead {
				s.fetch(p)
			}
			if len(p.res.Ops) > 400000 {
				p.res.Hang = true
				s.kill(p)
			}
		}
		if s.off {
			for _, p := range s.phase {
				if !p.dead {
					s.kill(p)
				}
			}
		}
		res.Phase = append(res.Phase, k.snapshot())
	}
	res.Final = res.Phase[len(res.Phase)-1]
	res.Trace = k.trace
	res.Notes = k.notes
	res.Events = k.nEv
	res.SimNanos = k.clock - t0
	return res
}

func (s *sim) abs(p *proc, q string) string {
	if strings.HasPrefix(q, "/") {
		return q
	}
	if q == "" {
		return ""
	}
	r := p.cwd + "/" + q
	return r
}

// absAt resolves a path relative to an open directory.
func (s *sim) absAt(p *proc, dirfd uint64, q string) string {
	if d := p.fds[int(int32(dirfd))]; d != nil && q != "" && !strings.HasPrefix(q, "/") {
		return d.path + "/" + q
	}
	return s.abs(p, q)
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREAT  = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
	oDIR    = 0x10000
)

var sysNames = map[uint64]string{
	0: "read", 1: "write", 3: "close", 5: "fstat", 8: "lseek", 17: "pread", 18: "pwrite", 32: "dup", 39: "getpid",
	63: "uname", 72: "fcntl", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate", 79: "getcwd", 80: "chdir",
	102: "getuid", 104: "getgid", 107: "geteuid", 108: "getegid", 110: "getppid", 217: "getdents", 257: "openat",
	258: "mkdirat", 262: "stat", 263: "unlinkat", 264: "renameat", 267: "readlinkat", 268: "fchmodat", 269: "faccessat",
	280: "utimensat", 316: "renameat2", 318: "getrandom", 439: "faccessat2", 1<<20 + 1: "clock", 1<<20 + 2: "sleep",
	95: "umask", 293: "pipe2", 16: "ioctl", 91: "fchmod", 265: "linkat", 266: "symlinkat", 137: "statfs", 260: "fchownat",
}

func (s *sim) handle(p *proc) {
	k := s.k
	h := p.hdr
	nr := h[1]
	a := h[2:8]
	tick := s.w.Tick
	if tick == 0 {
		tick = 20_000
	}
	k.clock += tick
	op := len(p.res.Ops)
	o := Op{Class: sysNames[nr]}
	ev := Event{Proc: p.id, Task: h[8], Op: op, Call: sysNames[nr]}
	if o.Class == "" {
		o.Class = fmt.Sprintf("sys%d", nr)
		ev.Call = o.Class
	}
	fd := int(int32(a[0]))
	of := p.fds[fd]
	// describe
	switch o.Class {
	case "openat", "mkdirat", "stat", "unlinkat", "renameat", "renameat2", "faccessat", "faccessat2", "fchmodat", "readlinkat", "utimensat", "truncate", "chdir":
		q, _ := cstr(p.payload)
		if o.Class == "truncate" || o.Class == "chdir" {
			o.Path = path.Clean(s.abs(p, q))
		} else {
			o.Path = path.Clean(s.absAt(p, a[0], q))
		}
	case "read", "pread", "write", "pwrite", "close", "fstat", "lseek", "getdents", "ftruncate", "fsync":
		if of != nil {
			o.Path = of.path
		} else if fd >= 0 && fd <= 2 {
			o.Path = fmt.Sprintf("<%d>", fd)
		}
		o.N = int64(a[2])
	}
	if fd == 900 && o.Class == "write" {
		p.ctl = append(p.ctl, p.payload...)
		s.reply(p, uint64(len(p.payload)), 0, nil)
		return
	}
	switch o.Class {
	case "openat":
		fl := int(a[2])
		if fl&(oWRONLY|oRDWR|oCREAT|oTRUNC) != 0 {
			o.Class = "openw"
			o.Mut = true
		}
	case "write", "pwrite", "mkdirat", "unlinkat", "renameat", "renameat2", "ftruncate", "truncate", "fsync", "utimensat", "fchmodat", "fchmod":
		o.Mut = true
		if fd == 1 || fd == 2 {
			o.Mut = false
			o.Class = "diag"
		}
	case "close":
		if of != nil && of.wrote {
			o.Wrote = true
			o.Mut = true
		}
	}
	ev.Path = o.Path

	var ret int64
	var eno syscall.Errno
	var out []byte
	done := false
	killAfter := false
	limit := int64(-1)
	note := func(f Fault) {
		n := f.Kind
		if f.Err != "" {
			n += ":" + f.Err
		}
		n += "@" + o.Class
		s.res.Injected[n]++
		if ev.Fault != "" {
			ev.Fault += "+"
		}
		ev.Fault += f.Kind
		if f.Err != "" {
			ev.Fault += ":" + f.Err
		}
	}
	for _, f := range s.byOp[[2]int{p.id, op}] {
		switch f.Kind {
		case "errno":
			// a plan made from another run's calls may land on a call that
			// cannot fail this way; such a fault is not injected
			if !canFail(o.Class, f.Err) {
				continue
			}
			eno = errnoByName[f.Err]
			done = true
			note(f)
		case "closeerr": // the descriptor is released but the error is reported
			if o.Class == "close" {
				delete(p.fds, fd)
				eno = errnoByName[f.Err]
				done = true
				note(f)
			}
		case "short":
			if o.Class == "read" || o.Class == "pread" || o.Class == "write" || o.Class == "pwrite" || o.Class == "diag" {
				limit = f.Arg
				note(f)
			}
		case "stick": // every later change to the disk fails
			p.stickW = errnoByName[f.Err]
			note(f)
		case "stickall":
			p.stick = errnoByName[f.Err]
			note(f)
		case "full": // the disk now has this many free bytes
			k.cap = k.used + f.Arg
			note(f)
		case "free":
			k.cap = -1
			note(f)
		case "clock":
			k.clock += f.Arg
			if k.clock < 0 {
				k.clock = 0
			}
			note(f)
		case "kill":
			note(f)
			k.add(ev)
			p.res.Ops = append(p.res.Ops, o)
			s.kill(p)
			return
		case "killafter":
			note(f)
			killAfter = true
		case "killmid":
			note(f)
			if o.Class == "write" || o.Class == "pwrite" {
				limit = f.Arg
			}
			killAfter = true
		case "power":
			note(f)
			k.add(ev)
			p.res.Ops = append(p.res.Ops, o)
			s.off = true
			s.res.Power = k.powerLoss(newRng(uint64(f.Arg), "power"))
			return
		}
	}
	if !done && p.stickW != 0 && o.Mut && o.Class != "close" {
		eno, done = p.stickW, true
		ev.Fault = "stick:" + errName(eno)
	}
	if !done && p.stick != 0 && (o.Mut || o.Class == "openat" || o.Class == "read" || o.Class == "pread") && o.Class != "close" {
		eno, done = p.stick, true
		ev.Fault = "stickall:" + errName(eno)
	}
	if done && o.Class == "close" && eno != 0 {
		delete(p.fds, fd)
	}
	if !done {
		ret, eno, out = s.do(p, nr, a, limit)
	}
	if eno != 0 {
		ret = -1
		ev.Err = errName(eno)
	}
	ev.Ret = ret
	ev.N = o.N
	o.Ret = ret
	if ev.Call == "clock" {
		ev.Ret = k.clock
	}
	if o.Class == "diag" && ret > 0 {
		for _, l := range strings.Split(string(p.payload[:ret]), "\n") {
			if i := strings.Index(l, "[WRITE] "); i >= 0 {
				f := path.Clean(s.abs(p, strings.TrimSpace(l[i+8:])))
				a := Said{Proc: p.id, Path: f}
				if n, e := k.look(f); e == 0 && !n.dir {
					a.Has, a.Data = true, string(n.data)
				}
				s.res.Said = append(s.res.Said, a)
			}
		}
	}
	k.add(ev)
	p.res.Ops = append(p.res.Ops, o)
	if killAfter {
		s.kill(p)
		return
	}
	s.reply(p, uint64(ret), uint64(eno), out)
}

func (k *Kernel) add(ev Event) {
	k.nEv++
	if k.keep {
		k.trace = append(k.trace, ev)
	}
}

func (s *sim) reply(p *proc, ret, eno uint64, out []byte) {
	b := make([]byte, 32+len(out))
	binary.LittleEndian.PutUint64(b[0:], ret)
	binary.LittleEndian.PutUint64(b[8:], eno)
	binary.LittleEndian.PutUint64(b[16:], uint64(len(out)))
	copy(b[32:], out)
	writeFull(p.fd, b)
}

func (s *sim) do(p *proc, nr uint64, a []uint64, limit int64) (int64, syscall.Errno, []byte) {
	k := s.k
	fd := int(int32(a[0]))
	of := p.fds[fd]
	pay := p.payload
	switch nr {
	case 257: // openat
		q, _ := cstr(pay)
		fl := int(a[2])
		full := s.absAt(p, a[0], q)
		n, e := k.look(full)
		if e == syscall.ENOENT && fl&oCREAT != 0 && !strings.HasSuffix(q, "/") {
			d, base, pe := k.parent(full)
			if pe != 0 {
				return 0, pe, nil
			}
			if d.mode&0200 == 0 {
				return 0, syscall.EACCES, nil
			}
			n = k.mk(false, uint32(a[3])&0777&^022)
			n.fresh = true
			d.kids[base] = n
			e = 0
		} else if e == 0 && fl&oCREAT != 0 && fl&oEXCL != 0 {
			return 0, syscall.EEXIST, nil
		}
		if e != 0 {
			return 0, e, nil
		}
		wr := fl&(oWRONLY|oRDWR) != 0
		if n.dir && (wr || fl&oCREAT != 0) {
			return 0, syscall.EISDIR, nil
		}
		if !n.dir && fl&oDIR != 0 {
			return 0, syscall.ENOTDIR, nil
		}
		if wr && n.mode&0200 == 0 {
			return 0, syscall.EACCES, nil
		}
		if fl&oTRUNC != 0 && wr {
			if !n.dirty && !n.fresh {
				n.synced = n.data
			}
			k.truncate(n, 0)
		}
		f := 1000
		for p.fds[f] != nil {
			f++
		}
		p.fds[f] = &ofile{n: n, flags: fl, path: path.Clean(full), wrote: false}
		return int64(f), 0, nil
	case 3: // close
		if fd >= 0 && fd <= 2 {
			return 0, 0, nil
		}
		if of == nil {
			return 0, syscall.EBADF, nil
		}
		delete(p.fds, fd)
		return 0, 0, nil
	case 0, 17: // read, pread
		if fd == 0 {
			return 0, 0, nil
		}
		if of == nil {
			return 0, syscall.EBADF, nil
		}
		if of.n.dir {
			return 0, syscall.EISDIR, nil
		}
		if of.flags&3 == oWRONLY {
			return 0, syscall.EBADF, nil
		}
		off := of.off
		if nr == 17 {
			off = int64(a[3])
		}
		c := int64(a[2])
		if s.w.MaxRead > 0 && c > s.w.MaxRead {
			c = s.w.MaxRead
		}
		if limit >= 0 && limit < c {
			if limit == 0 {
				limit = 1
			}
			c = limit
		}
		if off >= int64(len(of.n.data)) {
			return 0, 0, nil
		}
		b := of.n.data[off:]
		if int64(len(b)) > c {
			b = b[:c]
		}
		if nr == 0 {
			of.off += int64(len(b))
		}
		return int64(len(b)), 0, b
	case 1, 18: // write, pwrite
		if fd == 1 || fd == 2 {
			if s.w.MaxWrite > 0 && int64(len(pay)) > s.w.MaxWrite {
				pay = pay[:s.w.MaxWrite]
			}
			if limit >= 0 && limit < int64(len(pay)) {
				pay = pay[:limit]
			}
			if fd == 1 {
				p.res.Stdout += string(pay)
			} else {
				p.res.Stderr += string(pay)
			}
			return int64(len(pay)), 0, nil
		}
		if of == nil || of.flags&3 == 0 {
			return 0, syscall.EBADF, nil
		}
		off := of.off
		if nr == 18 {
			off = int64(a[3])
		}
		if of.flags&oAPPEND != 0 {
			off = int64(len(of.n.data))
		}
		if len(pay) == 0 {
			return 0, 0, nil
		}
		if s.w.MaxWrite > 0 && int64(len(pay)) > s.w.MaxWrite {
			pay = pay[:s.w.MaxWrite]
		}
		if limit >= 0 && limit < int64(len(pay)) {
			pay = pay[:limit]
		}
		of.wrote = true
		m := k.writeAt(of.n, off, pay)
		if m == 0 && len(pay) > 0 {
			s.res.Injected["diskfull@write"]++
			return 0, syscall.ENOSPC, nil
		}
		if nr == 1 {
			of.off = off + int64(m)
		}
		return int64(m), 0, nil
	case 5: // fstat
		if fd >= 0 && fd <= 2 {
			return 0, 0, charDev()
		}
		if of == nil {
			return 0, syscall.EBADF, nil
		}
		return 0, 0, statBytes(of.n)
	case 262: // newfstatat
		q, _ := cstr(pay)
		if q == "" && a[3]&0x1000 != 0 {
			if of == nil {
				return 0, syscall.EBADF, nil
			}
			return 0, 0, statBytes(of.n)
		}
		n, e := k.look(s.absAt(p, a[0], q))
		if e != 0 {
			return 0, e, nil
		}
		return 0, 0, statBytes(n)
	case 258: // mkdirat
		q, _ := cstr(pay)
		full := s.absAt(p, a[0], q)
		if _, e := k.look(full); e == 0 {
			return 0, syscall.EEXIST, nil
		}
		d, base, e := k.parent(full)
		if e != 0 {
			return 0, e, nil
		}
		n := k.mk(true, uint32(a[2])&0777&^022)
		n.fresh = true
		d.kids[base] = n
		return 0, 0, nil
	case 263: // unlinkat
		q, _ := cstr(pay)
		full := s.absAt(p, a[0], q)
		d, base, e := k.parent(full)
		if e != 0 {
			return 0, e, nil
		}
		n := d.kids[base]
		if n == nil {
			return 0, syscall.ENOENT, nil
		}
		if a[2]&0x200 != 0 {
			if !n.dir {
				return 0, syscall.ENOTDIR, nil
			}
			if len(n.kids) > 0 {
				return 0, syscall.ENOTEMPTY, nil
			}
		} else if n.dir {
			return 0, syscall.EISDIR, nil
		}
		k.used -= int64(len(n.data))
		delete(d.kids, base)
		return 0, 0, nil
	case 264, 316: // renameat
		q, rest := cstr(pay)
		r, _ := cstr(rest)
		d1, b1, e := k.parent(s.absAt(p, a[0], q))
		if e != 0 {
			return 0, e, nil
		}
		d2, b2, e := k.parent(s.absAt(p, a[2], r))
		if e != 0 {
			return 0, e, nil
		}
		n := d1.kids[b1]
		if n == nil {
			return 0, syscall.ENOENT, nil
		}
		if t := d2.kids[b2]; t != nil {
			if t == n {
				return 0, 0, nil
			}
			if t.dir && !n.dir {
				return 0, syscall.EISDIR, nil
			}
			if !t.dir && n.dir {
				return 0, syscall.ENOTDIR, nil
			}
			if t.dir && len(t.kids) > 0 {
				return 0, syscall.ENOTEMPTY, nil
			}
			k.used -= int64(len(t.data))
		}
		delete(d1.kids, b1)
		d2.kids[b2] = n
		return 0, 0, nil
	case 8: // lseek
		if of == nil {
			if fd >= 0 && fd <= 2 {
				return 0, syscall.ESPIPE, nil
			}
			return 0, syscall.EBADF, nil
		}
		off := int64(a[1])
		switch a[2] {
		case 1:
			off += of.off
		case 2:
			off += int64(len(of.n.data))
		}
		if off < 0 {
			return 0, syscall.EINVAL, nil
		}
		of.off = off
		of.dirs = nil
		return off, 0, nil
	case 77, 76:
		if nr == 76 {
			q, _ := cstr(pay)
			n, e := k.look(s.abs(p, q))
			if e != 0 {
				return 0, e, nil
			}
			k.truncate(n, int64(a[1]))
			return 0, 0, nil
		}
		if of == nil {
			return 0, syscall.EBADF, nil
		}
		k.truncate(of.n, int64(a[1]))
		return 0, 0, nil
	case 74, 75, 277:
		if of == nil {
			return 0, syscall.EBADF, nil
		}
		of.n.dirty, of.n.fresh = false, false
		of.n.synced = of.n.data
		return 0, 0, nil
	case 217:
		if of == nil || !of.n.dir {
			return 0, syscall.ENOTDIR, nil
		}
		if of.dirs == nil {
			of.dirs = []string{}
			for s := range of.n.kids {
				of.dirs = append(of.dirs, s)
			}
			sort.Strings(of.dirs)
			of.off = 0
		}
		var b []byte
		for int(of.off) < len(of.dirs) {
			name := of.dirs[of.off]
			c := of.n.kids[name]
			if c == nil {
				of.off++
				continue
			}
			rl := (19 + len(name) + 1 + 7) &^ 7
			if len(b)+rl > int(a[2]) {
				break
			}
			e := make([]byte, rl)
			binary.LittleEndian.PutUint64(e[0:], c.ino)
			binary.LittleEndian.PutUint64(e[8:], uint64(of.off+1))
			binary.LittleEndian.PutUint16(e[16:], uint16(rl))
			e[18] = 8
			if c.dir {
				e[18] = 4
			}
			copy(e[19:], name)
			b = append(b, e...)
			of.off++
		}
		return int64(len(b)), 0, b
	case 267:
		return 0, syscall.EINVAL, nil
	case 269, 439:
		q, _ := cstr(pay)
		if _, e := k.look(s.absAt(p, a[0], q)); e != 0 {
			return 0, e, nil
		}
		return 0, 0, nil
	case 268, 280, 260, 91:
		if nr == 91 {
			return 0, 0, nil
		}
		q, _ := cstr(pay)
		n, e := k.look(s.absAt(p, a[0], q))
		if e != 0 {
			return 0, e, nil
		}
		if nr == 268 {
			n.mode = uint32(a[2]) & 0777
		}
		return 0, 0, nil
	case 72: // fcntl
		switch a[1] {
		case 1, 2, 4:
			return 0, 0, nil
		case 3:
			if of != nil {
				return int64(of.flags), 0, nil
			}
			return 2, 0, nil
		case 0, 1030:
			if of == nil {
				return 0, syscall.EBADF, nil
			}
			f := 1000
			for p.fds[f] != nil {
				f++
			}
			p.fds[f] = of
			return int64(f), 0, nil
		}
		return 0, syscall.EINVAL, nil
	case 79:
		b := append([]byte(path.Clean(p.cwd)), 0)
		return int64(len(b)), 0, b
	case 80:
		q, _ := cstr(pay)
		n, e := k.look(s.abs(p, q))
		if e != 0 {
			return 0, e, nil
		}
		if !n.dir {
			return 0, syscall.ENOTDIR, nil
		}
		p.cwd = s.abs(p, q)
		return 0, 0, nil
	case 39:
		if p.spec.Pid != 0 {
			return int64(p.spec.Pid), 0, nil
		}
		return int64(4000 + p.id), 0, nil
	case 110:
		return 1, 0, nil
	case 102, 104, 107, 108:
		return 1000, 0, nil
	case 95:
		return 022, 0, nil
	case 63:
		b := make([]byte, 390)
		host := s.w.Host
		if host == "" {
			host = "simhost"
		}
		copy(b[0:], "Linux")
		copy(b[65:], host)
		copy(b[130:], "6.1.0")
		copy(b[195:], "#1")
		copy(b[260:], "x86_64")
		return 0, 0, b
	case 318:
		r := newRng(p.spec.Seed, "getrandom", strconv.Itoa(len(p.res.Ops)))
		b := make([]byte, a[1])
		for i := range b {
			b[i] = byte(r.u64())
		}
		return int64(len(b)), 0, b
	case 16:
		return 0, syscall.ENOTTY, nil
	case 1<<20 + 1:
		return k.clock, 0, nil
	case 1<<20 + 2:
		if int64(a[0]) > 0 {
			k.clock += int64(a[0])
		}
		return 0, 0, nil
	}
	k.notes = append(k.notes, fmt.Sprintf("unsupported system call %d", nr))
	return 0, syscall.ENOSYS, nil
}

var _ = time.Now

// canFail tells which errors Linux can report from which call.
func canFail(class, err string) bool {
	switch class {
	case "openat", "openw", "read", "pread", "write", "pwrite", "diag", "stat", "mkdirat", "fstat", "ftruncate", "fsync", "unlinkat", "fchmod", "fchmodat":
		return true
	case "renameat", "renameat2", "getdents", "lseek", "utimensat", "truncate":
		return err != "EINTR"
	}
	return false
}

func (r *Result) ops() []Op {
	if r.planOps != nil {
		return r.planOps
	}
	return r.Procs[0].Ops
}
