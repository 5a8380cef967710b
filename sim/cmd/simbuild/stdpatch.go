package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces one exact piece of text of a GOROOT source file.
type patch struct{ file, old, new string }

var stdPatches = []patch{
	// ---- runtime: clock
	{"runtime/time_nofake.go", "func nanotime() int64 {\n\treturn nanotime1()\n}", "func nanotime() int64 {\n\treturn simClock\n}"},
	// ---- runtime: randomness
	{"runtime/rand.go", "\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i*29 + 7)\n\t}\n"},
	// ---- runtime: goroutine and timer ownership
	{"runtime/runtime2.go", "\tparentGoid    uint64          // goid of goroutine that created this goroutine\n", "\tparentGoid    uint64          // goid of goroutine that created this goroutine\n\tsimNode int32\n\tsimPrio uint32\n"},
	{"runtime/proc.go", "\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.simNode = callergp.simNode\n\tnewg.simPrio = 0\n"},
	{"runtime/time.go", "\tisSending atomic.Int32\n}", "\tisSending atomic.Int32\n\tsimNode int32\n}"},
	{"runtime/time.go", "\tt.lock()\n\tif async {\n\t\tt.maybeRunAsync()\n\t}\n\tt.trace(\"modify\")\n", "\tt.lock()\n\tif gp := getg(); gp != gp.m.g0 {\n\t\tt.simNode = gp.simNode\n\t}\n\tif async {\n\t\tt.maybeRunAsync()\n\t}\n\tt.trace(\"modify\")\n"},
	{"runtime/time.go", "\tf(arg, seq, delay)\n\n\tif !async && t.isChan {", "\tsimG := getg()\n\tsimOld := simG.simNode\n\tsimG.simNode = t.simNode\n\tf(arg, seq, delay)\n\tsimG.simNode = simOld\n\n\tif !async && t.isChan {"},
	// ---- runtime: scheduling
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "\t// now and pollUntil are saved for work stealing later,\n\t// which may steal timers.", "\tif sim.on {\n\t\treturn simPick(pp), false, false\n\t}\n\n\t// now and pollUntil are saved for work stealing later,\n\t// which may steal timers."},
	// ---- runtime: a panic kills the simulated process only
	{"runtime/panic.go", "\tgp := getg()\n\tvar docrash bool\n\t// Switch to the system stack to avoid any stack growth, which\n\t// may make things worse if the runtime is in a bad state.\n", "\tgp := getg()\n\tif sim.on && gp.simNode != 0 {\n\t\tsimNodePanic(msgs)\n\t}\n\tvar docrash bool\n"},
	{"runtime/panic.go", "func fatal(s string) {\n", "func fatal(s string) {\n\tif simFatal(s) {\n\t\treturn\n\t}\n"},
	// ---- runtime: Stack(all) shows the goroutines of one process
	{"runtime/traceback.go", "\tforEachGRace(func(gp *g) {\n\t\tif gp == me || gp == curgp || readgstatus(gp) == _Gdead || isSystemGoroutine(gp, false) && level < 2 {\n", "\tforEachGRace(func(gp *g) {\n\t\tif sim.on && gp.simNode != sim.cur {\n\t\t\treturn\n\t\t}\n\t\tif gp == me || gp == curgp || readgstatus(gp) == _Gdead || isSystemGoroutine(gp, false) && level < 2 {\n"},
	// ---- syscall
	{"syscall/syscall_linux.go", "\tr1, r2, errno = runtimesyscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n", "\tr1, r2, errno = runtimesyscall.SimSyscall6(trap, a1, a2, a3, a4, a5, a6)\n"},
	// ---- os
	{"os/file_posix.go", "func (f *File) write(b []byte) (n int, err error) {\n", "func (f *File) write(b []byte) (n int, err error) {\n\tif simActive() {\n\t\treturn f.simWrite(b)\n\t}\n"},
	{"os/file_unix.go", "\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\tsigpipe()", "\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\tif simActive() {\n\t\t\truntime.SimKill(runtime.SimGetNode(), 13)\n\t\t}\n\t\tsigpipe()"},
	{"os/exec_posix.go", "\tattrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n", "\tif simActive() {\n\t\treturn simStart(name, argv, attr)\n\t}\n\tattrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n"},
	{"os/exec_unix.go", "func (p *Process) wait() (ps *ProcessState, err error) {\n", "func (p *Process) wait() (ps *ProcessState, err error) {\n\tif simActive() {\n\t\treturn p.simWait()\n\t}\n"},
	{"os/exec_unix.go", "\treturn convertESRCH(syscall.Kill(p.Pid, s))\n", "\tif simActive() {\n\t\treturn convertESRCH(SimSignalPid(p.Pid, s))\n\t}\n\treturn convertESRCH(syscall.Kill(p.Pid, s))\n"},
	{"os/proc.go", "\truntime_beforeExit(code)\n", "\tif simActive() {\n\t\truntime.SimKill(runtime.SimGetNode(), (code&0xff)<<8)\n\t}\n\truntime_beforeExit(code)\n"},
	{"os/exec.go", "func Getpid() int { return syscall.Getpid() }", "func Getpid() int {\n\tif simActive() {\n\t\treturn simGetpid()\n\t}\n\treturn syscall.Getpid()\n}"},
	// ---- os/signal
	{"os/signal/signal.go", "\thandlers.Lock()\n\tdefer handlers.Unlock()\n\n\th := handlers.m[c]\n\tif h == nil {\n\t\tif handlers.m == nil {", "\tif simActive() {\n\t\tsimNotify(c, sig)\n\t\treturn\n\t}\n\thandlers.Lock()\n\tdefer handlers.Unlock()\n\n\th := handlers.m[c]\n\tif h == nil {\n\t\tif handlers.m == nil {"},
	{"os/signal/signal.go", "func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n\tif simActive() {\n\t\tsimStop(c)\n\t\treturn\n\t}\n"},
	{"os/signal/signal.go", "\tcancel(sig, ignoreSignal)\n", "\tif simActive() {\n\t\tsimReset(sig, true)\n\t\treturn\n\t}\n\tcancel(sig, ignoreSignal)\n"},
	{"os/signal/signal.go", "\tcancel(sig, disableSignal)\n", "\tif simActive() {\n\t\tsimReset(sig, false)\n\t\treturn\n\t}\n\tcancel(sig, disableSignal)\n"},
	// ---- net
	{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"},
	{"net/dial.go", "\tif ctx == nil {\n\t\tpanic(\"nil context\")\n\t}\n\tdeadline := d.deadline(ctx, time.Now())\n", "\tif ctx == nil {\n\t\tpanic(\"nil context\")\n\t}\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n\tdeadline := d.deadline(ctx, time.Now())\n"},
}

var stdReplace = map[string]string{
	"runtime/timestub.go": `package runtime

import _ "unsafe"

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	w := simWallBase + simClock + sim.wallOff[sim.cur]
	return w / 1e9, int32(w % 1e9), simClock
}
`,
}

var stdDelete = []string{"runtime/timeasm.go", "runtime/time_linux_amd64.s"}

var stdAdd = map[string]string{
	"runtime/zz_sim.go":                  "runtime_zz_sim.go",
	"internal/runtime/syscall/zz_sim.go": "rtsyscall_zz_sim.go",
	"os/zz_sim.go":                       "os_zz_sim.go",
	"os/signal/zz_sim.go":                "signal_zz_sim.go",
	"net/zz_sim.go":                      "net_zz_sim.go",
}

// buildStdOverlay writes patched copies of standard library files under dir
// and returns the overlay map.
func buildStdOverlay(goroot, stdDir, dir string) (map[string]string, error) {
	src := filepath.Join(goroot, "src")
	contents := map[string]string{}
	for _, p := range stdPatches {
		c, ok := contents[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			if err != nil {
				return nil, err
			}
			c = string(b)
		}
		if n := strings.Count(c, p.old); n != 1 {
			return nil, fmt.Errorf("std patch anchor in %s found %d times: %q", p.file, n, p.old)
		}
		contents[p.file] = strings.Replace(c, p.old, p.new, 1)
	}
	for f, c := range stdReplace {
		contents[f] = c
	}
	for f, from := range stdAdd {
		b, err := os.ReadFile(filepath.Join(stdDir, from))
		if err != nil {
			return nil, err
		}
		contents[f] = string(b)
	}
	out := map[string]string{}
	for _, f := range stdDelete {
		out[filepath.Join(src, f)] = ""
	}
	for f, c := range contents {
		dst := filepath.Join(dir, strings.ReplaceAll(f, "/", "__"))
		if err := writeIfChanged(dst, []byte(c)); err != nil {
			return nil, err
		}
		out[filepath.Join(src, f)] = dst
	}
	return out, nil
}
