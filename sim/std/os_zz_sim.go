package os

import (
	"internal/syscall/unix"
	"runtime"
	"syscall"
)

// Hooks of the simulated kernel; set by the simulator at start.
var (
	SimStartProcess func(name string, argv []string, attr *ProcAttr) (pid int, err error)
	SimWaitPid      func(pid int) (syscall.WaitStatus, error)
	SimSignalPid    func(pid int, sig syscall.Signal) error
)

func simActive() bool { return SimStartProcess != nil && runtime.SimGetNode() != 0 }

func simStart(name string, argv []string, attr *ProcAttr) (*Process, error) {
	pid, err := SimStartProcess(name, argv, attr)
	if err != nil {
		return nil, &PathError{Op: "fork/exec", Path: name, Err: err}
	}
	return &Process{Pid: pid, mode: modePID}, nil
}

func (p *Process) simWait() (*ProcessState, error) {
	if processStatus(p.state.Load()) != statusOK {
		return nil, NewSyscallError("wait", syscall.ECHILD)
	}
	st, err := SimWaitPid(p.Pid)
	if err != nil {
		return nil, NewSyscallError("wait", err)
	}
	p.pidDeactivate(statusDone)
	return &ProcessState{pid: p.Pid, status: st, rusage: &syscall.Rusage{}}, nil
}

func (f *File) simWrite(b []byte) (n int, err error) {
	for {
		chunk := b
		if len(chunk) > 4096 {
			chunk = chunk[:4096]
		}
		for !runtime.SimWritable(uintptr(f.pfd.Sysfd)) {
			if nb, e := unix.IsNonblock(f.pfd.Sysfd); e == nil && nb {
				break
			}
			runtime.SimSwitch()
		}
		m, e := f.pfd.Write(chunk)
		runtime.KeepAlive(f)
		n += m
		if e != nil || m < len(chunk) {
			return n, e
		}
		b = b[m:]
		if len(b) == 0 {
			return n, nil
		}
	}
}

func simGetpid() int { return 1000 + runtime.SimGetNode() }
