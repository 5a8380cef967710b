// The simulated run: one OS process, one seed, one execution.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"sim/plan"
	"sim/simos"

	"github.com/google/pprof/profile"
)

var (
	pl       plan.Plan
	events   []plan.Event
	seen     = map[string]bool{}
	waiting  = map[string][]func(int){}
	nextCopy int
	root     *simos.Proc
	faultHit = map[string]int{}
	topDir   string
	ranBefore = map[procData]int{}
	cover    = map[int]string{} // mode each suite was compiled with
)

type procData struct{ proc, suite int }

func logEvent(node, proc, su int, kind, id, spec string, att, ex int, s string) {
	events = append(events, plan.Event{Seq: len(events), T: runtime.SimNow(), Node: node, Proc: proc, Su: su, Kind: kind, ID: id, Spec: spec, Att: att, Ex: ex, S: s})
	key := kind + ":" + id
	if ws := waiting[key]; ws != nil && !seen[key] {
		seen[key] = true
		for _, w := range ws {
			w(node)
		}
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simchild: "+f+"\n", a...)
	os.Exit(9)
}

func memFile(name string) int {
	fd, err := syscall.Open(filepath.Join(topDir, name), syscall.O_RDWR|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0o600)
	if err != nil {
		die("open: %v", err)
	}
	return fd
}

func argValue(args []string, name string) string {
	for _, a := range args {
		if strings.HasPrefix(a, "--"+name+"=") {
			return a[len(name)+3:]
		}
	}
	return ""
}

func resolve(parent *simos.Proc, name string, argv []string, dir string) (simos.Program, error) {
	base := filepath.Base(name)
	switch {
	case base == "go":
		return compileStub, nil
	case strings.HasSuffix(base, ".test"):
		if pl.Watch != nil {
			return watchedProgram, nil
		}
		return testProgram, nil
	case base == "hook":
		return func(p *simos.Proc) int {
			logEvent(p.Node, 0, 0, "hook", strings.Join(argv[1:], " "), "", 0, 0, "")
			fmt.Println("hook ran", strings.Join(argv[1:], " "))
			return 0
		}, nil
	}
	return nil, syscall.ENOENT
}

func suiteByDir(dir string) int {
	for i, s := range pl.Suites {
		if s.Name == filepath.Base(dir) {
			return i
		}
	}
	return -1
}

// compileStub stands for `go test -c` and `go list`.
func compileStub(p *simos.Proc) int {
	args := p.Args[1:]
	if len(args) > 0 && args[0] == "list" {
		fmt.Println("github.com/onsi/ginkgo/v2 v2.0.0-sim")
		return 1
	}
	if len(args) > 3 && args[0] == "tool" && args[1] == "cover" {
		return coverTool(args[3])
	}
	if len(args) < 2 || args[0] != "test" || args[1] != "-c" {
		logEvent(p.Node, 0, 0, "go", strings.Join(args, " "), "", 0, 0, "")
		return 0
	}
	i := suiteByDir(p.Dir)
	if i < 0 {
		fmt.Println("no such suite", p.Dir)
		return 1
	}
	s := pl.Suites[i]
	p.Data = procData{0, i}
	if pl.Watch != nil && !startWatched(p, i) {
		return 1
	}
	logEvent(p.Node, 0, i, "compile-start", s.Name, "", 0, 0, "")
	bad := pl.Watch != nil && broken[i]
	time.Sleep(time.Duration(s.CompileMs) * time.Millisecond)
	if s.CompileFail || bad {
		logEvent(p.Node, 0, i, "compile-fail", s.Name, "", 0, 0, "")
		fmt.Println("./x_test.go:1: simulated compile error in " + s.Name)
		return 1
	}
	out := ""
	for j, a := range args {
		if strings.HasPrefix(a, "--o=") {
			out = a[4:]
		} else if a == "-o" && j+1 < len(args) {
			out = args[j+1]
		} else if strings.HasPrefix(a, "-o=") {
			out = a[3:]
		}
	}
	cover[i] = ""
	for _, a := range args {
		if a == "--cover" && cover[i] == "" {
			cover[i] = "set"
		} else if strings.HasPrefix(a, "--covermode=") {
			cover[i] = a[len("--covermode="):]
		}
	}
	if s.NoTests {
		logEvent(p.Node, 0, i, "compile-empty", s.Name, "", 0, 0, "")
		fmt.Println("?   \t" + s.Name + "\t[no test files]")
		return 0
	}
	if st, err := os.Stat(out); err == nil && st.IsDir() {
		out = filepath.Join(out, s.Name+".test")
	}
	if err := os.WriteFile(out, []byte("simulated test binary"), 0o755); err != nil {
		fmt.Println(err)
		return 1
	}
	logEvent(p.Node, 0, i, "compile-end", s.Name, "", 0, 0, "")
	return 0
}

// coverTool stands for `go tool cover -func FILE`.
func coverTool(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cover:", err)
		return 1
	}
	total, hit := 0, 0
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 || f[0] == "mode:" {
			continue
		}
		n, _ := strconv.Atoi(f[1])
		total += n
		if f[2] != "0" {
			hit += n
		}
	}
	fmt.Printf("sim/lib/x.go:1:\tf\t\t50.0%%\ntotal:\t\t\t(statements)\t\t%.1f%%\n", 100*float64(hit)/float64(max(total, 1)))
	return 0
}

func testProgram(p *simos.Proc) int {
	d, ok := p.Data.(procData)
	if !ok {
		fmt.Println("no such suite", p.Dir)
		return 1
	}
	proc, i := d.proc, d.suite
	if nextCopy >= len(copies) {
		logEvent(p.Node, proc, i, "out-of-copies", "", "", 0, 0, "")
		fmt.Println("sim: out of copies")
		return 97
	}
	mainFn := copies[nextCopy]
	nextCopy++
	ranBefore[d]++
	env := &plan.ProcEnv{Iter: ranBefore[d] - 1, Suite: pl.Suites[i], SuIdx: i, Args: p.Args, Proc: proc, Cover: cover[i], Log: func(kind, id, spec string, att, ex int, s string) {
		logEvent(p.Node, proc, i, kind, id, spec, att, ex, s)
	}}
	return mainFn(env)
}

func findProcs(f plan.Fault, node int) []*simos.Proc {
	var out []*simos.Proc
	for _, p := range simos.Live() {
		if f.Proc == -1 {
			out = append(out, p)
			continue
		}
		if f.Proc == -2 { // where the event happened
			if p.Node == node {
				out = append(out, p)
			}
			continue
		}
		if f.Proc == 0 {
			if p == root {
				out = append(out, p)
			}
			continue
		}
		if d, ok := p.Data.(procData); ok && d.proc == f.Proc && d.suite == f.Suite {
			out = append(out, p)
		}
	}
	return out
}

func inject(i, node int) {
	f := pl.Faults[i]
	if f.Kind == "edit" {
		if len(simos.Live()) > 0 {
			applyEdit(f.Edit)
			faultHit["edit-"+f.Edit.Op]++
			logEvent(0, 0, 0, "edit", f.Edit.Op, "", 0, i, "")
		}
		return
	}
	hit := false
	var who []string
	for _, p := range findProcs(f, node) {
		ok := true
		switch f.Kind {
		case "kill":
			ok = simos.Kill(p.Pid, syscall.SIGKILL) == nil
		case "signal":
			sig := syscall.Signal(f.Sig)
			// nobody asks for progress before or after the suite runs
			ok = (f.Sig != 10 || signal.SimHandles(p.Node, sig)) && simos.Kill(p.Pid, sig) == nil
		case "freeze":
			runtime.SimFreeze(p.Node, f.Ms*1e6)
		case "clockjump":
			runtime.SimSetWallOffset(p.Node, f.Ms*1e6)
		case "slow":
			runtime.SimSetWeight(p.Node, uint8(f.N))
		case "disk":
			runtime.SimSetFault(p.Node, uintptr(f.N), uint32(f.Skip), uint32(max(1, f.Ms)), uintptr(f.Errno))
		}
		if ok {
			hit = true
			who = append(who, strconv.Itoa(p.Node))
		}
	}
	if hit {
		k := f.Kind
		if k == "signal" {
			k = "signal-" + strconv.Itoa(f.Sig)
		}
		faultHit[k]++
		logEvent(0, f.Proc, f.Suite, "fault", k, "", 0, i, strings.Join(who, ","))
	}
}

// sampleText lists the samples of a profile.
func sampleText(b []byte) []byte {
	p, err := profile.ParseData(b)
	if err != nil {
		return []byte("bad: " + err.Error())
	}
	var l []string
	for _, s := range p.Sample {
		l = append(l, fmt.Sprintf("%s %d", s.Location[0].Line[0].Function.Name, s.Value[0]))
	}
	sort.Strings(l)
	return []byte(strings.Join(l, "\n"))
}

func main() {
	if len(os.Args) != 4 {
		die("usage: simchild plan.json scratchdir result.json")
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &pl); err != nil {
		die("%v", err)
	}
	topDir = os.Args[2]
	os.Setenv("TMPDIR", filepath.Join(topDir, "tmp"))
	os.Setenv("PATH", filepath.Join(topDir, "bin"))
	os.Unsetenv("PWD")
	os.MkdirAll(filepath.Join(topDir, "tmp"), 0o700)
	os.MkdirAll(filepath.Join(topDir, "bin"), 0o700)
	for _, n := range []string{"go", "hook"} {
		os.WriteFile(filepath.Join(topDir, "bin", n), []byte("x"), 0o700)
	}
	if pl.Protocol != "" {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", pl.Protocol)
	}
	work := filepath.Join(topDir, "work")
	if pl.Watch != nil {
		work = filepath.Join(topDir, "src")
		os.MkdirAll(work, 0o700)
		watchSetup()
	}
	for _, f := range pl.Unfocus {
		path := filepath.Join(work, f.Path)
		os.MkdirAll(filepath.Dir(path), 0o700)
		os.WriteFile(path, []byte(f.Body), 0o640)
	}
	for _, s := range pl.Suites {
		if pl.Watch != nil {
			break
		}
		d := filepath.Join(work, s.Path())
		os.MkdirAll(d, 0o700)
		os.WriteFile(filepath.Join(d, s.Name+"_suite_test.go"), []byte("package "+s.Name+"\n\nimport _ \"github.com/onsi/ginkgo/v2\"\n"), 0o600)
		if s.Precompiled {
			os.WriteFile(filepath.Join(d, s.Name+".test"), []byte("simulated test binary"), 0o700)
		}
	}
	if pl.Opt.BuildOut != "" {
		os.MkdirAll(filepath.Join(work, pl.Opt.BuildOut), 0o700)
	}
	if !pl.Cli || pl.Opt.Here {
		work = filepath.Join(work, pl.Suites[0].Path())
	}
	os.Chdir(work)

	cfg := runtime.SimConfig{Seed: pl.Seed, Policy: pl.Sched.Policy, Preempt: pl.Sched.Preempt, TickMax: pl.Sched.TickMax, YieldTick: pl.Sched.YieldTick,
		StallProb: pl.Sched.StallProb, StallMax: pl.Sched.StallMax, PauseSites: pl.Sched.PauseSites, PauseMax: pl.Sched.PauseMax, PauseIn: pl.Sched.PauseIn, WinFrom: pl.Sched.WinFrom, WinTo: pl.Sched.WinTo, MaxSteps: pl.MaxSteps, Horizon: pl.HorizonMs * 1e6}
	if cfg.WinTo == 0 {
		cfg.WinTo = 1 << 62
	}
	runtime.SimStart(cfg)
	simos.Init()
	simos.InitNet(simos.NetConfig(pl.Net), pl.Seed)
	simos.Resolve = resolve
	simos.OnStart = func(p *simos.Proc) {
		if i := suiteByDir(p.Dir); i >= 0 && strings.HasSuffix(p.Name, ".test") {
			proc, _ := strconv.Atoi(argValue(p.Args, "ginkgo.parallel.process"))
			if proc == 0 {
				proc = 1
			}
			p.Data = procData{proc, i}
			logEvent(p.Node, proc, i, "proc-start", "", "", 0, 0, "")
		}
	}
	simos.OnExit = func(p *simos.Proc) {
		d, _ := p.Data.(procData)
		logEvent(p.Node, d.proc, d.suite, "proc-exit", p.Name, "", 0, 0, strconv.Itoa(int(p.Status)))
		if p == root {
			logEvent(0, 0, 0, "root-exit", "", "", 0, 0, "")
			// orphans keep running for a bounded time
			go func() {
				for i := 0; i < 240 && len(simos.Live()) > 0; i++ {
					time.Sleep(500 * time.Millisecond)
				}
				runtime.SimFinish()
			}()
		}
	}
	for i, f := range pl.Faults {
		d := time.Duration(f.At) * time.Millisecond
		if f.After == "" {
			time.AfterFunc(d, func() { inject(i, 0) })
		} else {
			waiting[f.After] = append(waiting[f.After], func(node int) {
				simos.InNode0(func() { time.AfterFunc(d, func() { inject(i, node) }) })
			})
		}
	}
	null, _ := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	fds := [3]int{null, memFile("stdout"), memFile("stderr")}
	if pl.Cli {
		args := append([]string{"ginkgo"}, pl.Flags...)
		root = simos.Spawn("ginkgo", args, fds, work, func(p *simos.Proc) int {
			cliMain()
			return 0
		})
	} else {
		args := append([]string{pl.Suites[0].Name + ".test"}, pl.TestArgs...)
		root = simos.Spawn(args[0], args, fds, work, testProgram)
	}
	st := runtime.SimWait()
	res := plan.Result{Status: [...]string{"running", "finished", "deadlock", "horizon", "steps"}[st], Events: events, Files: map[string]string{}, FaultHit: faultHit}
	s := runtime.SimStats()
	res.SimNs, res.Picks, res.Yields, res.Switches, res.Preempts, res.Stalls, res.Pauses, res.Frozen, res.Hash = s.Now, s.Picks, s.Yields, s.Switches, s.Preempts, s.Stalls, s.Pauses, s.FrozenPicks, s.Hash
	if n := runtime.SimFaultHits(); n > 0 {
		faultHit["disk-error-returned"] = int(n)
	}
	ns := simos.Net
	res.NetStats = map[string]uint64{"conns": ns.Conns, "segments": ns.Segments, "bytes": ns.Bytes, "stalls": ns.Stalls, "resets": ns.Resets, "refused": ns.Refused, "shortreads": ns.ShortReads}
	for _, p := range simos.Procs {
		if p != nil {
			d, _ := p.Data.(procData)
			res.Procs = append(res.Procs, plan.ProcInfo{Node: p.Node, Name: p.Name, Proc: d.proc, Suite: d.suite, Exited: p.Exited, Status: int(p.Status), Start: p.Start, End: p.End})
		}
	}
	rd := func(n string) string {
		b, _ := os.ReadFile(filepath.Join(topDir, n))
		return string(b)
	}
	res.Stdout, res.Stderr = rd("stdout"), rd("stderr")
	wd := filepath.Join(topDir, "work")
	if pl.Watch != nil {
		wd = filepath.Join(topDir, "src")
	}
	filepath.WalkDir(wd, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || strings.HasSuffix(p, "_test.go") && pl.Unfocus == nil || pl.Watch != nil && strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(wd, p)
		if strings.HasSuffix(rel, ".prof") {
			b = sampleText(b)
		}
		res.Files[rel] = string(b)
		return nil
	})
	f, err := os.Create(os.Args[3])
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriter(f)
	if err := json.NewEncoder(w).Encode(res); err != nil {
		die("%v", err)
	}
	w.Flush()
	f.Close()
	os.Exit(0)
}
