package lab

import "strings"

// exits compares the exit status of every test process with the prediction.
func (v *view) exits(rv *rview, pr *predicted) {
	m := v.model(rv.suite, rv.iter)
	for _, pv := range rv.order {
		if !pv.exited || pv.died {
			continue
		}
		want := 0
		switch {
		case !pr.passed[pv.proc]:
			want = 1
		case m.focus:
			want = 197
		}
		if pv.status != want<<8 {
			v.add("process-exit", "C06", "suite %s, %v ends with wait status %#x, it should exit with %d", m.su.Name, pv, pv.status, want)
		}
	}
}

// rootStatus is the wait status of the process the user started.
func (v *view) rootStatus() (int, bool) {
	if len(v.r.Procs) == 0 || !v.r.Procs[0].Exited {
		return 0, false
	}
	return v.r.Procs[0].Status, true
}

// cliExact compares what the ginkgo command did with what it was asked to do.
func (v *view) cliExact(preds map[*rview]*predicted) {
	if !v.p.Cli || v.p.Opt.Build {
		return
	}
	ok, focus := true, false
	for _, rv := range v.runs {
		pr := preds[rv]
		if pr == nil {
			return
		}
		for _, b := range pr.passed {
			ok = ok && b
		}
		focus = focus || v.model(rv.suite, rv.iter).focus && v.lastIter(rv)
	}
	for _, i := range v.asked() {
		ok = ok && !v.p.Suites[i].CompileFail
	}
	st, done := v.rootStatus()
	if !done {
		return
	}
	want := 0
	switch {
	case !ok:
		want = 1
	case focus:
		want = 197
	}
	if st != want<<8 {
		v.add("cli-exit", "C06 C18 C19", "the ginkgo command ends with wait status %#x, it should exit with %d", st, want)
	}
	verdict := ""
	if strings.Contains(v.r.Stdout, "Test Suite Passed") {
		verdict = "passed"
	}
	if strings.Contains(v.r.Stdout, "Test Suite Failed") {
		verdict += "failed"
	}
	if w := map[bool]string{true: "passed", false: "failed"}[ok]; verdict != w {
		v.add("cli-verdict", "C06 C19 C22", "the ginkgo command announces %q, it should announce %q", verdict, w)
	}
}
