// Package simos is the simulated kernel: processes, signals, wait statuses and
// descriptor tables of the simulated processes.  It runs on the deterministic
// scheduler of the patched runtime and is never preempted, so it needs no locks.
package simos

import (
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"syscall"
	"unsafe"
)

type Proc struct {
	Node   int
	Pid    int
	Name   string
	Args   []string
	Dir    string
	Parent int
	Exited bool
	Status syscall.WaitStatus
	Start  int64
	End    int64
	done   chan struct{}
	keep   []any
	Data   any
}

type Program func(p *Proc) int

var (
	Procs    [160]*Proc
	nProcs   int
	Resolve  func(parent *Proc, name string, argv []string, dir string) (Program, error)
	OnStart  func(p *Proc)
	OnExit   func(p *Proc)
	swapBase int
)

func Init() {
	reg := func(p unsafe.Pointer, words int) {
		for i := 0; i < words; i++ {
			runtime.SimRegisterSwap(unsafe.Add(p, i*8))
		}
	}
	reg(unsafe.Pointer(&os.Stdin), 1)
	reg(unsafe.Pointer(&os.Stdout), 1)
	reg(unsafe.Pointer(&os.Stderr), 1)
	reg(unsafe.Pointer(&http.DefaultTransport), 2)
	reg(unsafe.Pointer(&http.DefaultClient), 1)
	reg(unsafe.Pointer(&os.Args), 3)
	os.SimStartProcess = startProcess
	os.SimWaitPid = waitPid
	os.SimSignalPid = Kill
	go reaper()
}

func Current() *Proc { return Procs[runtime.SimGetNode()] }

// Spawn starts a simulated process.  The real descriptors fds are consumed.
func Spawn(name string, args []string, fds [3]int, dir string, prog Program) *Proc {
	nProcs++
	n := nProcs
	p := &Proc{Node: n, Pid: 1000 + n, Name: name, Args: args, Dir: dir, done: make(chan struct{}), Start: runtime.SimNow(), Parent: runtime.SimGetNode()}
	Procs[n] = p
	for i, fd := range fds {
		runtime.SimSetStd(n, i, fd)
		if fd >= 0 {
			runtime.SimFDOwned(fd, n)
		}
	}
	files := [3]*os.File{os.NewFile(0, "/dev/stdin"), os.NewFile(1, "/dev/stdout"), os.NewFile(2, "/dev/stderr")}
	for i, f := range files {
		runtime.SimSetSwap(n, i, uintptr(unsafe.Pointer(f)))
		p.keep = append(p.keep, f)
	}
	var tr http.RoundTripper = http.DefaultTransport.(*http.Transport).Clone()
	w := (*[2]uintptr)(unsafe.Pointer(&tr))
	runtime.SimSetSwap(n, 3, w[0])
	runtime.SimSetSwap(n, 4, w[1])
	cl := &http.Client{}
	runtime.SimSetSwap(n, 5, uintptr(unsafe.Pointer(cl)))
	av := append([]string{}, args...)
	aw := (*[3]uintptr)(unsafe.Pointer(&av))
	for i := 0; i < 3; i++ {
		runtime.SimSetSwap(n, 6+i, aw[i])
	}
	p.keep = append(p.keep, tr, cl, av)
	runtime.SimSetCwd(n, dir)
	if OnStart != nil {
		OnStart(p)
	}
	me := runtime.SimGetNode()
	runtime.SimSetNode(n)
	go func() {
		code := prog(p)
		os.Exit(code)
	}()
	runtime.SimSetNode(me)
	return p
}

func startProcess(name string, argv []string, attr *os.ProcAttr) (int, error) {
	parent := Current()
	dir := parent.Dir
	if attr.Dir != "" {
		if filepath.IsAbs(attr.Dir) {
			dir = attr.Dir
		} else {
			dir = filepath.Join(dir, attr.Dir)
		}
		if st, err := os.Stat(dir); err != nil || !st.IsDir() {
			return 0, syscall.ENOENT
		}
	}
	prog, err := Resolve(parent, name, argv, dir)
	if err != nil {
		return 0, err
	}
	fds := [3]int{-1, -1, -1}
	for i := 0; i < 3 && i < len(attr.Files); i++ {
		if attr.Files[i] == nil {
			continue
		}
		fd := attr.Files[i].Fd()
		r, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, 1030, 64)
		if e != 0 {
			return 0, e
		}
		fds[i] = int(r)
	}
	p := Spawn(filepath.Base(name), argv, fds, dir, prog)
	return p.Pid, nil
}

func waitPid(pid int) (syscall.WaitStatus, error) {
	n := pid - 1000
	if n <= 0 || n >= len(Procs) || Procs[n] == nil {
		return 0, syscall.ECHILD
	}
	p := Procs[n]
	<-p.done
	return p.Status, nil
}

// Kill delivers a signal to a process.
func Kill(pid int, sig syscall.Signal) error {
	n := pid - 1000
	if n <= 0 || n >= len(Procs) || Procs[n] == nil || Procs[n].Exited || runtime.SimDead(n) {
		return syscall.ESRCH
	}
	if sig == 0 {
		return nil
	}
	if sig == syscall.SIGKILL {
		runtime.SimKill(n, int(sig))
		return nil
	}
	if !signal.SimDeliver(n, sig) {
		switch sig {
		case syscall.SIGCHLD, syscall.SIGURG, syscall.SIGWINCH, syscall.SIGCONT:
		case syscall.SIGQUIT:
			runtime.SimKill(n, 2<<8)
		default:
			runtime.SimKill(n, int(sig))
		}
	}
	return nil
}

func reaper() {
	for {
		n, st := runtime.SimReap()
		p := Procs[n]
		netDie(n)
		runtime.SimCloseAll(n)
		p.Exited = true
		p.Status = syscall.WaitStatus(st)
		p.End = runtime.SimNow()
		close(p.done)
		if OnExit != nil {
			OnExit(p)
		}
	}
}

func Live() []*Proc {
	var out []*Proc
	for _, p := range Procs {
		if p != nil && !p.Exited && !runtime.SimDead(p.Node) {
			out = append(out, p)
		}
	}
	return out
}

// InNode0 runs f with its goroutines and timers belonging to the infrastructure.
func InNode0(f func()) {
	me := runtime.SimGetNode()
	runtime.SimSetNode(0)
	f()
	runtime.SimSetNode(me)
}
