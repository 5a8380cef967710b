package lab

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// The oracles of this file judge the ginkgo command: what it compiles, runs,
// leaves behind and exits with, in every run.

type compileSpan struct {
	su         int
	start, end int // event sequence numbers
	how        string
}

// failedRun: a process of this run of a suite ended badly.
func failedRun(rv *rview) bool {
	for _, pv := range rv.order {
		if pv.exited && (pv.status != 0 && pv.status != 197<<8 || pv.died) {
			return true
		}
	}
	return false
}

func (rv *rview) span() (int, int) {
	from, to := 1<<60, -1
	for _, pv := range rv.order {
		from = min(from, pv.startSeq)
		to = max(to, pv.endSeq)
	}
	return from, to
}

// asked lists the suites the command was asked to run, in order.
func (v *view) asked() []int {
	var out []int
	for i, s := range v.p.Suites {
		if v.p.Opt.SkipPackage != "" && strings.Contains("./"+s.Path(), v.p.Opt.SkipPackage) {
			continue
		}
		out = append(out, i)
	}
	if v.p.Opt.Recurse {
		// directories in lexical order, parents before children
		sort.SliceStable(out, func(a, b int) bool {
			x, y := strings.Split(v.p.Suites[out[a]].Path(), "/"), strings.Split(v.p.Suites[out[b]].Path(), "/")
			for i := 0; i < len(x) && i < len(y); i++ {
				if x[i] != y[i] {
					return x[i] < y[i]
				}
			}
			return len(x) < len(y)
		})
	}
	return out
}

// rootSignal is when the command itself was first told to stop.  Right after
// its start it may not listen to every signal yet: sure is false.
func (v *view) rootSignal() (t int64, sure bool) {
	if len(v.r.Procs) == 0 {
		return -1, false
	}
	t = -1
	for i := range v.r.Events {
		e := &v.r.Events[i]
		if strings.HasPrefix(e.Kind, "compile-") || e.Kind == "proc-start" && e.Proc > 0 {
			sure = true
		}
		if e.Kind == "fault" && (e.ID == "signal-2" || e.ID == "signal-15") {
			for _, s := range strings.Split(e.S, ",") {
				if s == fmt.Sprint(v.r.Procs[0].Node) {
					if t < 0 {
						t = e.T
					}
					if sure {
						return t, true
					}
				}
			}
		}
	}
	return t, false
}

func (v *view) cli() {
	p := v.p
	st, done := v.rootStatus()
	if !p.Cli || !done || st&0x7f != 0 {
		return
	}
	if p.Opt.Build {
		v.build(st)
	}
	name := func(i int) string { return p.Suites[i].Name }
	asked := v.asked()
	inAsked := map[int]int{}
	for k, i := range asked {
		inAsked[i] = k
	}
	// compilation
	var cs []compileSpan
	open := map[int]int{}
	var startOf []int
	most := 0
	for i := range v.r.Events {
		e := &v.r.Events[i]
		if e.Kind == "compile-start" {
			open[e.Su] = len(cs)
			cs = append(cs, compileSpan{su: e.Su, start: e.Seq, end: 1 << 60})
			startOf = append(startOf, i)
			most = max(most, len(open))
		} else if strings.HasPrefix(e.Kind, "compile-") {
			if j, ok := open[e.Su]; ok {
				cs[j].end, cs[j].how = e.Seq, e.Kind
				delete(open, e.Su)
			}
		} else if e.Kind == "proc-exit" { // the compiler was killed
			for su, j := range open {
				if v.r.Events[startOf[j]].Node == e.Node {
					cs[j].end, cs[j].how = e.Seq, "compile-killed"
					delete(open, su)
				}
			}
		}
	}
	v.fact("compilation limits")
	if p.Opt.Compilers > 0 && most > p.Opt.Compilers {
		v.add("compilers", "C19", "%d suites are compiled at the same time, %d are allowed", most, p.Opt.Compilers)
	}
	compiled := map[int]int{} // end of the compilation
	for _, c := range cs {
		if _, ok := inAsked[c.su]; !ok {
			v.add("compile-unasked", "C19", "suite %s is compiled, it was not asked for", name(c.su))
		}
		if p.Suites[c.su].Precompiled {
			v.add("compile-unasked", "C19", "suite %s is compiled, the command was given its binary", name(c.su))
		}
		if _, ok := compiled[c.su]; ok && !p.Suites[c.su].NoTests {
			v.add("compile-twice", "C19", "suite %s is compiled more than once", name(c.su))
		}
		compiled[c.su] = c.end
	}
	for i, s := range p.Suites {
		if s.Precompiled {
			compiled[i] = -1
		}
	}
	if p.Opt.Build {
		return
	}
	// runs
	runs := append([]*rview{}, v.runs...)
	sort.Slice(runs, func(a, b int) bool {
		x, _ := runs[a].span()
		y, _ := runs[b].span()
		return x < y
	})
	interrupted, surely := v.rootSignal()
	var last *rview
	var order [][]int
	badSoFar := -1
	for _, rv := range runs {
		from, to := rv.span()
		v.fact("suite runs")
		if _, ok := inAsked[rv.suite]; !ok {
			v.add("run-unasked", "C19", "suite %s runs, it was not asked for", name(rv.suite))
		}
		if e, ok := compiled[rv.suite]; !ok || e > from {
			v.add("run-uncompiled", "C19", "suite %s runs before it is compiled", name(rv.suite))
		}
		if _, late := v.suiteDue(rv.order[0]); late < never && rv.order[0].start > late && v.r.FaultHit["clockjump"] == 0 {
			v.add("suite-after-timeout", "C19 C07", "suite %s starts at %.3f s, the time was up at %.3f s", name(rv.suite), float64(rv.order[0].start)/1e9, float64(late)/1e9)
		}
		if last != nil {
			if _, e := last.span(); e > from {
				v.add("suites-overlap", "C19", "suite %s starts while suite %s is running", name(rv.suite), name(last.suite))
			}
			if rv.iter < last.iter {
				v.add("suite-order", "C19", "suite %s of iteration %d runs after iteration %d began", name(rv.suite), rv.iter+1, last.iter+1)
			}
		}
		if len(rv.order) != p.Procs && interrupted < 0 {
			v.add("suite-processes", "C19 C01", "suite %s runs on %d processes, %d were asked for", name(rv.suite), len(rv.order), p.Procs)
		}
		if badSoFar >= 0 && (!p.Opt.KeepGoing || rv.iter > badSoFar) {
			v.add("runs-after-failure", "C19", "suite %s runs (iteration %d) although a suite failed before", name(rv.suite), rv.iter+1)
		}
		if failedRun(rv) && badSoFar < 0 {
			badSoFar = rv.iter
		}
		for len(order) <= rv.iter {
			order = append(order, nil)
		}
		order[rv.iter] = append(order[rv.iter], rv.suite)
		if surely {
			if t := rv.order[0].start; t > interrupted+v.slack() {
				v.add("suite-after-interrupt", "C08 C19", "suite %s starts %.3f s after the command was interrupted", name(rv.suite), float64(t-interrupted)/1e9)
			}
		}
		last = rv
		_ = to
	}
	if len(order) > p.Opt.Repeat+1 && !p.Opt.UntilFails {
		v.add("iterations", "C19", "%d iterations run, %d were asked for", len(order), p.Opt.Repeat+1)
	}
	failedCompile := -1 // position of the first suite that does not compile
	for k, i := range asked {
		if p.Suites[i].CompileFail && failedCompile < 0 {
			failedCompile = k
		}
	}
	times := p.Opt.Repeat
	if p.Opt.UntilFails {
		times = max(len(order)-1, 0)
		if interrupted < 0 && badSoFar < 0 && failedCompile < 0 && len(order) > 0 && v.r.FaultHit["disk-error-returned"] == 0 && p.Opt.Timeout == 0 {
			v.add("stops-early", "C19", "the command stops after %d iterations that passed", len(order))
		}
	}
	if !p.Opt.RandSuites {
		for it, l := range order {
			for k := 1; k < len(l); k++ {
				if inAsked[l[k]] < inAsked[l[k-1]] {
					v.add("suite-order", "C19", "in iteration %d suite %s runs before suite %s", it+1, name(l[k-1]), name(l[k]))
				}
			}
			for _, i := range l {
				if failedCompile >= 0 && !p.Opt.KeepGoing && inAsked[i] > failedCompile {
					v.add("runs-after-failure", "C19", "suite %s runs although suite %s does not compile", name(i), name(asked[failedCompile]))
				}
			}
		}
	}
	// nothing is left out
	due := int64(never)
	if len(runs) > 0 {
		due, _ = v.suiteDue(runs[0].order[0])
	}
	if interrupted < 0 && (p.Opt.Timeout == 0 || len(runs) > 0 && v.rootExit < due) {
		stop := p.Opt.KeepGoing
		want := asked
		for it := 0; it <= times; it++ {
			var got []int
			if it < len(order) {
				got = order[it]
			}
			bad := failedCompile >= 0
			if !p.Opt.KeepGoing && failedCompile >= 0 && !p.Opt.RandSuites {
				want = asked[:failedCompile]
			}
			ran := map[int]bool{}
			for _, i := range got {
				ran[i] = true
			}
			for _, rv := range runs {
				bad = bad || rv.iter == it && failedRun(rv)
			}
			if v.profilesFailed() && v.r.FaultHit["disk-error-returned"] > 0 {
				continue // profiles that could not be combined fail their suite
			}
			if strings.Contains(v.r.Stderr, "configuration issues") && v.r.FaultHit["disk-error-returned"] > 0 {
				continue // it could not make its output directory and said so
			}
			if !bad || stop || !p.Opt.RandSuites && badSoFar < 0 {
				for _, i := range want {
					if s := p.Suites[i]; !s.CompileFail && !s.NoTests && !ran[i] {
						v.add("suite-left-out", "C19", "suite %s does not run in iteration %d", s.Name, it+1)
					}
				}
				for _, i := range want {
					if _, ok := compiled[i]; !ok {
						v.add("suite-left-out", "C19", "suite %s is not compiled", name(i))
					}
				}
			} else if !p.Opt.RandSuites && badSoFar == it { // everything up to the first failure
				for _, i := range want {
					if s := p.Suites[i]; !s.CompileFail && !s.NoTests && !ran[i] && len(got) > 0 && inAsked[i] < inAsked[got[len(got)-1]] {
						v.add("suite-left-out", "C19", "suite %s does not run in iteration %d", s.Name, it+1)
					}
				}
			}
			if bad {
				break
			}
		}
	}
	v.hooks(runs)
	given := map[string]bool{}
	for _, s := range p.Suites {
		if n := s.Path() + "/" + s.Name + ".test"; s.Precompiled {
			given[n] = true
			if _, ok := v.r.Files[n]; !ok && !p.Opt.Here {
				v.add("binary-gone", "C19", "the binary %s that the command was given is removed", n)
			}
		}
	}
	for n := range v.r.Files {
		if strings.HasSuffix(n, ".test") && !given[n] && len(p.Opt.Profiles) == 0 && v.r.FaultHit["disk-error-returned"] == 0 {
			v.add("binary-left", "C19", "the temporary binary %s is not removed", n)
		}
	}
	// the exit status
	bad := ""
	for _, rv := range runs {
		if failedRun(rv) {
			bad = "suite " + name(rv.suite) + " failed"
		}
	}
	if failedCompile >= 0 && (!p.Opt.RandSuites || len(runs) == 0) {
		bad = "suite " + name(asked[failedCompile]) + " does not compile"
	}
	if surely && v.rootExit > interrupted+v.slack() {
		bad = "it was interrupted"
	}
	for it := 0; bad == "" && it <= times && (len(runs) > 0 || p.Opt.Timeout > 0); it++ {
		for _, i := range asked {
			ran := p.Suites[i].NoTests
			for _, rv := range runs {
				ran = ran || rv.suite == i && rv.iter == it
			}
			if !ran {
				bad = fmt.Sprintf("suite %s did not run in iteration %d", name(i), it+1)
			}
		}
	}
	if bad != "" {
		v.fact("failing commands")
		if st == 0 || st == 197<<8 {
			v.add("cli-exit-zero", "C06 C08 C14 C18 C19", "the ginkgo command exits with %d although %s", st>>8, bad)
		}
		if strings.Contains(v.r.Stdout, "Test Suite Passed") {
			v.add("cli-says-passed", "C06 C08 C14 C19", "the ginkgo command announces that the suites passed although %s", bad)
		}
	}
	// nothing keeps running, and deaths are reported
	for _, rv := range v.runs {
		for _, pv := range rv.order {
			v.fact("processes gone")
			if !pv.exited || v.rootExit >= 0 && pv.end > v.rootExit {
				v.add("process-left", "C14 C19 C08", "suite %s: %v is still running when the ginkgo command ends", name(rv.suite), pv)
			}
			if pv.exited && pv.died && p.Procs > 1 {
				inside := 0
				for _, e := range pv.ev {
					switch e.Kind {
					case "enter":
						inside++
					case "exit":
						inside--
					}
				}
				out := v.r.Stdout + v.r.Stderr
				if inside > 0 && pv.status != 0 {
					v.fact("deaths announced")
					if !strings.Contains(out, "report back") && !strings.Contains(out, "disappeared") && !strings.Contains(out, "did not") {
						v.add("death-silent", "C14", "suite %s: %v died inside a callback and the ginkgo command does not say so", name(rv.suite), pv)
					}
				}
			}
		}
	}
	// an interrupted process fails
	for i := range v.r.Events {
		e := &v.r.Events[i]
		if e.Kind != "fault" || e.ID != "signal-2" && e.ID != "signal-15" {
			continue
		}
		for _, s := range strings.Split(e.S, ",") {
			n := 0
			fmt.Sscan(s, &n)
			pv := v.nodes[n]
			if pv == nil || !pv.exited || pv.end < e.T+v.slack() {
				continue
			}
			// Ginkgo was running, not still starting, and had something left
			// to run besides the final report
			ready, left := false, false
			for _, x := range pv.ev {
				ready = ready || x.Kind == "enter" && x.Seq < e.Seq
				left = left || x.Kind == "exit" && kindOf(x.ID) != "ras" && x.T > e.T+v.slack()
			}
			if ready && left {
				v.fact("interrupted processes")
			}
			if ready && left && (pv.status == 0 || pv.status == 197<<8) {
				v.add("interrupt-exit", "C08", "suite %s: %v was interrupted and exits with %d", name(pv.suite), pv, pv.status>>8)
			}
		}
	}
}

// hooks: the after-run hook runs once after every run of a suite.
func (v *view) hooks(runs []*rview) {
	if !v.p.Opt.Hook {
		return
	}
	var hs []*Event
	for i := range v.r.Events {
		if v.r.Events[i].Kind == "hook" {
			hs = append(hs, &v.r.Events[i])
		}
	}
	if sig, _ := v.rootSignal(); len(hs) != len(runs) && sig < 0 {
		v.add("hook-count", "C19", "%d suites ran and the hook ran %d times", len(runs), len(hs))
		return
	}
	for i, h := range hs {
		if i >= len(runs) {
			return
		}
		rv := runs[i]
		v.fact("hooks")
		_, to := rv.span()
		next := 1 << 60
		if i+1 < len(runs) {
			next, _ = runs[i+1].span()
		}
		verdict := "[PASS]"
		if failedRun(rv) {
			verdict = "[FAIL]"
		}
		if v.profilesFailed() && v.r.FaultHit["disk-error-returned"] > 0 && strings.HasSuffix(h.ID, "[FAIL]") {
			verdict = "[FAIL]"
		}
		if h.Seq < to || h.Seq > next || h.ID != v.p.Suites[rv.suite].Name+" "+verdict {
			v.add("hook", "C19", "the hook after suite %s (%s) is called as %q", v.p.Suites[rv.suite].Name, verdict, h.ID)
		}
	}
}

// build: `ginkgo build` compiles every suite it was asked to.
func (v *view) build(st int) {
	p := v.p
	disk := v.r.FaultHit["disk-error-returned"] > 0
	if sig, _ := v.rootSignal(); sig >= 0 || disk || v.r.FaultHit["kill"] > 0 {
		return
	}
	for _, rv := range v.runs {
		v.add("run-unasked", "C19", "ginkgo build runs suite %s", p.Suites[rv.suite].Name)
	}
	bad := false
	at := 0
	for _, i := range v.asked() {
		s := p.Suites[i]
		n := s.Path() + "/" + s.Name + ".test"
		if p.Opt.BuildOut != "" {
			n = p.Opt.BuildOut + "/" + s.Name + ".test"
		}
		_, there := v.r.Files[path.Clean(n)]
		bad = bad || s.CompileFail
		want := !s.CompileFail && !s.NoTests
		v.fact("suites built")
		if want != there {
			v.add("build", "C19", "after ginkgo build, the binary of suite %s exists: %v, it should: %v", s.Name, there, want)
		}
		text := "Compiled " + n + "\n"
		if s.CompileFail {
			text = "simulated compile error in " + s.Name
		}
		k := strings.Index(v.r.Stdout[at:], text)
		if want || s.CompileFail {
			if k < 0 {
				v.add("build-says", "C19", "ginkgo build does not say %q, or not in the order of the suites", text)
			} else {
				at += k
			}
		} else if strings.Contains(v.r.Stdout, text) {
			v.add("build-says", "C19", "ginkgo build says %q of a suite without test files", text)
		}
	}
	want := 0
	if bad {
		want = 1
	}
	if st != want<<8 {
		v.add("build-exit", "C19", "ginkgo build ends with wait status %#x, it should exit with %d", st, want)
	}
}
