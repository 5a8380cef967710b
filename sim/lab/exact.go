package lab

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// call is one user callback seen in the history.
type call struct {
	e      Event
	end    int64 // -1: never ended
	endSeq int
	how    string
}

func (c *call) kind(m *msuite) string {
	if n := m.nodes[c.e.ID]; n != nil {
		return n.Kind
	}
	return "?"
}

// calls pairs enter and exit events of one process.
func calls(pv *pview) []*call {
	var out []*call
	open := map[string]*call{}
	for i := range pv.ev {
		e := pv.ev[i]
		k := fmt.Sprintf("%s/%d", e.ID, e.Ex)
		switch e.Kind {
		case "enter":
			c := &call{e: e, end: -1, endSeq: 1 << 60}
			open[k] = c
			out = append(out, c)
		case "exit":
			if c := open[k]; c != nil {
				c.end, c.endSeq, c.how = e.T, e.Seq, e.S
				delete(open, k)
			}
		}
	}
	return out
}

func kindOf(id string) string { return strings.TrimRight(id, "0123456789") }

// tagsFor names the properties a wrong callback sequence breaks.
func tagsFor(m *msuite, g *mgroup, s *mspec, id string) string {
	t := map[string]bool{"C02": true}
	k := kindOf(id)
	if g != nil && g.root != nil {
		t["C03"] = true
	}
	switch k {
	case "dc":
		t["C04"] = true
	case "rbe", "rae":
		t["C21"] = true
	case "it", "entry":
		t["C01"] = true
	case "ba", "aa":
		t["C03"] = true
	case "bs", "sbs":
		t["C09"] = true
	case "as", "sas":
		t["C10"] = true
	case "rbs", "ras":
		t["C12"] = true
	}
	if s != nil {
		if s.retried(m) {
			t["C05"] = true
		}
		if s.timed() {
			t["C07"] = true
		}
	}
	return keys(t)
}

func keys(t map[string]bool) string {
	var l []string
	for k := range t {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (s *mspec) retried(m *msuite) bool {
	if m.opt.Flake > 0 || s.it.Flake > 0 || s.it.Mpr > 0 {
		return true
	}
	for _, c := range s.chain {
		if c.Flake > 0 || c.Mpr > 0 {
			return true
		}
	}
	return false
}

func (s *mspec) timed() bool {
	if s.it.ST > 0 || s.it.NT > 0 {
		return true
	}
	for _, x := range s.nodes {
		if x.n.NT > 0 {
			return true
		}
	}
	return false
}

func diffEnts(want, got []ent) (int, string) {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	if i == len(want) && i == len(got) {
		return -1, ""
	}
	show := func(l []ent) string {
		lo, hi := i-3, i+4
		if lo < 0 {
			lo = 0
		}
		if hi > len(l) {
			hi = len(l)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprint(l[lo:hi])
	}
	return i, fmt.Sprintf("at callback %d: expected …%s, saw …%s", i, show(want), show(got))
}

// predicted verdicts of one run of a suite
type predicted struct {
	results map[string]*mresult
	passed  map[int]bool // by process
	suite   map[string][]sentry
	exact   bool
	sure    bool // no limit was too close to tell
}

// sentry is the expected report entry of a suite-level node.
type sentry struct {
	proc  int
	typ   string
	state string
	msg   string
	text  string
}

var leafType = map[string]string{"bs": "BeforeSuite", "sbs": "SynchronizedBeforeSuite", "as": "AfterSuite", "sas": "SynchronizedAfterSuite", "rbs": "ReportBeforeSuite", "ras": "ReportAfterSuite", "dc": "DeferCleanup (Suite)"}

type suiteCall struct {
	id   string
	kind string
	post bool
	info string
}

func (g *mgroup) serial() bool {
	for _, s := range g.specs {
		if s.serial {
			return true
		}
	}
	return false
}

// exact compares a whole undisturbed run with the model.
func (v *view) exact(rv *rview) *predicted {
	m := v.model(rv.suite, rv.iter)
	pr := &predicted{sure: true, results: map[string]*mresult{}, passed: map[int]bool{}, suite: map[string][]sentry{}}
	limited, tight, found := hasTimeouts(v.p), false, len(v.out)
	defer func() {
		if limited && !tight {
			v.fact("runs with limits matched exactly")
		}
		if tight { // some limit is too close to tell
			v.out = v.out[:found]
			pr.sure = false
			v.partial(rv)
		}
	}()
	rep := v.rep[m.su.Name]
	if rep != nil && !v.lastIter(rv) {
		rep = nil
	}
	// where did every spec run?
	type seqs struct {
		groups []*mgroup
		ents   map[*mgroup][]ent
		first  int
	}
	owner := map[*mgroup]int{}
	obs := map[int]*seqs{}
	suiteCalls := map[int][]*call{}
	for _, pv := range rv.order {
		sq := &seqs{ents: map[*mgroup][]ent{}, first: -1}
		obs[pv.proc] = sq
		var last *mgroup
		done := map[*mgroup]bool{}
		var lastSpec string
		doneSpec := map[string]bool{}
		for _, c := range calls(pv) {
			if c.e.Spec == "" {
				suiteCalls[pv.proc] = append(suiteCalls[pv.proc], c)
				continue
			}
			s := m.byName[c.e.Spec]
			if s == nil {
				v.add("unknown-spec", "C02 C17", "suite %s: callback %s runs for unknown spec %q", m.su.Name, c.e.ID, c.e.Spec)
				continue
			}
			g := m.groupOf[s.name]
			if sq.first < 0 {
				sq.first = c.e.Seq
			}
			if g != last {
				if done[g] {
					v.add("group-torn", "C01 C02 C03", "suite %s, %v: specs of one group (%s) are not contiguous", m.su.Name, pv, s.name)
				} else {
					sq.groups = append(sq.groups, g)
					done[g] = true
				}
				last = g
			}
			if s.name != lastSpec {
				if doneSpec[s.name] {
					v.add("spec-torn", "C01 C02 C03", "suite %s, %v: callbacks of spec %s are interleaved with those of another spec", m.su.Name, pv, s.name)
				}
				doneSpec[s.name] = true
				lastSpec = s.name
			}
			sq.ents[g] = append(sq.ents[g], ent{c.e.ID, c.e.Att})
			if o, ok := owner[g]; ok && o != pv.proc {
				v.add("group-two-procs", "C01 C03 C20", "suite %s: specs of the group of %s run on process %d and on process %d", m.su.Name, s.name, o, pv.proc)
			}
			owner[g] = pv.proc
		}
	}
	// suite setup
	ranBefore := true
	skipAll := map[int]bool{}
	bsOK := map[int]bool{}
	type outc struct{ state, msg string }
	cleanups := map[int][]*Node{}
	expect := map[int][]suiteCall{}
	addSuite := func(proc int, n *Node, typ string, o outc) {
		pr.suite[typ] = append(pr.suite[typ], sentry{proc, typ, o.state, o.msg, n.ID})
		if failureState(o.state) {
			pr.passed[proc] = false
		}
	}
	runN := func(proc int, n *Node, body []Action, post bool, ex int, info string) outc {
		o := eval(n, body, "", 0, ex, proc, limitOf(m, n), v.graceOf(n)/1e6)
		tight = tight || limited && o.near <= v.slack()/1e6
		if o.state == "timedout" {
			o.timedout("node")
		}
		cleanups[proc] = append(cleanups[proc], o.regs...)
		expect[proc] = append(expect[proc], suiteCall{n.ID, n.Kind, post, info})
		return outc{o.state, o.msg}
	}
	for _, pv := range rv.order {
		pr.passed[pv.proc] = true
		bsOK[pv.proc] = true
	}
	if _, ok := rv.procs[1]; !ok {
		return pr
	}
	for _, n := range m.rbs {
		info := fmt.Sprintf("%d/%d", m.nRun, len(m.specs))
		o := runN(1, n, n.Body, false, 1, info)
		addSuite(1, n, "ReportBeforeSuite", o)
		ranBefore = ranBefore && !failureState(o.state)
	}
	var p1 outc
	for _, pv := range rv.order {
		k := pv.proc
		if !ranBefore {
			bsOK[k] = false
			if k != 1 {
				pr.passed[k] = false
			}
			continue
		}
		if m.bs == nil || m.nRun == 0 {
			continue
		}
		n := m.bs
		var o outc
		if n.Kind == "bs" {
			o = runN(k, n, n.Body, false, 1, "")
		} else {
			if k == 1 {
				p1 = runN(1, n, n.Body, false, 1, "p1")
				o = p1
			}
			switch {
			case p1.state == "passed":
				ex := 1
				if k == 1 {
					ex = 2
				}
				o = runN(k, n, n.Body2, false, ex, "all:"+strconv.Quote(string(n.Data)))
			case k == 1:
			case p1.state == "skipped" || p1.state == "aborted":
				o = outc{p1.state, ""}
			default:
				o = outc{"failed", "*SynchronizedBeforeSuite failed"}
			}
		}
		addSuite(k, n, leafType[n.Kind], o)
		if o.state == "skipped" {
			skipAll[k] = true
		}
		if failureState(o.state) {
			bsOK[k] = false
		}
	}
	// specs
	all := map[*mgroup]bool{}
	for _, pv := range rv.order {
		k := pv.proc
		sq := obs[k]
		groups := sq.groups
		if rep != nil {
			// the report's order, which also has the specs without callbacks
			var l []*mgroup
			in := map[*mgroup]bool{}
			for i := range rep.SpecReports {
				sr := &rep.SpecReports[i]
				if sr.LeafNodeType == "It" && sr.ParallelProcess == k {
					if g := m.groupOf[sr.LeafNodeText]; g != nil && !in[g] {
						in[g] = true
						l = append(l, g)
					}
				}
			}
			for _, g := range groups {
				if !in[g] {
					l = append(l, g)
				}
			}
			groups = l
		} else if len(rv.order) == 1 {
			in := map[*mgroup]bool{}
			for _, g := range groups {
				in[g] = true
			}
			for _, g := range m.groups {
				if !in[g] {
					groups = append(groups, g)
				}
			}
		}
		if !bsOK[k] {
			if sq.first >= 0 {
				v.add("spec-without-setup", "C09 C12", "suite %s, %v: specs run although suite setup did not succeed", m.su.Name, pv)
			}
			continue
		}
		run := newMrun(m, k)
		run.skipAll = skipAll[k]
		if limited {
			run.slackMs = v.slack() / 1e6
		}
		for _, g := range groups {
			if all[g] {
				continue
			}
			all[g] = true
			rs := run.runGroup(g)
			tight = tight || limited && run.tight
			var want []ent
			starts := []int{}
			for _, r := range rs {
				starts = append(starts, len(want))
				want = append(want, r.ents...)
				pr.results[r.name] = r
				if failureState(r.state) {
					pr.passed[k] = false
				}
			}
			if i, d := diffEnts(want, sq.ents[g]); i >= 0 {
				var s *mspec
				for j := range rs {
					if i >= starts[j] {
						s = g.specs[j]
					}
				}
				t := map[string]bool{}
				for _, l := range [][]ent{want, sq.ents[g]} {
					if i < len(l) {
						for _, x := range strings.Fields(tagsFor(m, g, s, l[i].ID)) {
							t[x] = true
						}
					}
				}
				v.add("callback-sequence", keys(t), "suite %s, %v, spec %s: wrong callback sequence %s", m.su.Name, pv, s.name, d)
			}
		}
	}
	// specs that should have run but are nowhere
	anyOK := false
	for _, ok := range bsOK {
		anyOK = anyOK || ok
	}
	allOK := true // then none of them reports specs as skipped
	for k := range rv.procs {
		allOK = allOK && bsOK[k] && !skipAll[k]
	}
	if anyOK && (rep != nil || allOK) {
		for _, g := range m.groups {
			if !all[g] {
				if !bsOK[1] && g.serial() {
					continue // process 1, whose suite setup failed, is the only one that may run it
				}
				for _, s := range g.specs {
					if rep != nil {
						v.add("spec-missing", "C01 C12 C18 C20", "suite %s: spec %s is not in the report and has no callbacks", m.su.Name, s.name)
					} else if !s.skip {
						v.add("spec-missing", "C01 C20", "suite %s: spec %s never runs", m.su.Name, s.name)
					}
				}
			}
		}
	}
	// teardown
	for _, pv := range rv.order {
		k := pv.proc
		if ranBefore {
			if m.as != nil && m.nRun > 0 {
				o := runN(k, m.as, m.as.Body, true, 1, map[string]string{"as": "", "sas": "all"}[m.as.Kind])
				if m.as.Kind == "sas" && k == 1 {
					o2 := runN(k, m.as, m.as.Body2, true, 2, "p1")
					if !failureState(o.state) && failureState(o2.state) || o2.state == "aborted" || o.state == "passed" {
						o = o2
					}
				}
				addSuite(k, m.as, leafType[m.as.Kind], o)
			}
			for i := len(cleanups[k]) - 1; i >= 0; i-- {
				n := cleanups[k][i]
				o := runN(k, n, n.Body, true, 1, "")
				addSuite(k, n, leafType["dc"], o)
			}
		}
	}
	verdict := true
	for _, ok := range pr.passed {
		verdict = verdict && ok
	}
	pend := false
	for _, s := range m.specs {
		pend = pend || s.pending
	}
	for _, pv := range rv.order {
		if bsOK[pv.proc] && (m.opt.FailPending && pend || m.opt.FailEmpty && m.nRun == 0) {
			pr.passed[pv.proc], verdict = false, false
		}
	}
	for _, n := range m.ras {
		o := runN(1, n, n.Body, true, 1, "*")
		addSuite(1, n, "ReportAfterSuite", o)
	}
	for _, pv := range rv.order {
		k := pv.proc
		var want, got []ent
		for _, c := range expect[k] {
			want = append(want, ent{c.id, 0})
		}
		for _, c := range suiteCalls[k] {
			got = append(got, ent{c.e.ID, 0})
		}
		if i, d := diffEnts(want, got); i >= 0 {
			t := map[string]bool{}
			for _, l := range [][]ent{want, got} {
				if i < len(l) {
					for _, x := range strings.Fields(tagsFor(m, nil, nil, l[i].ID)) {
						t[x] = true
					}
				}
			}
			delete(t, "C02")
			if len(t) == 0 {
				t["C02"] = true
			}
			v.add("suite-callbacks", keys(t), "suite %s, %v: wrong sequence of suite-level callbacks %s", m.su.Name, pv, d)
			continue
		}
		for i, c := range suiteCalls[k] {
			w := expect[k][i]
			if w.info != "*" && w.info != c.e.S {
				tag := map[string]string{"sbs": "C09", "sas": "C10", "rbs": "C12"}[w.kind]
				if tag == "" {
					tag = "C02"
				}
				v.add("suite-callback-data", tag, "suite %s, %v: %s received %q, expected %q", m.su.Name, pv, c.e.ID, clip(c.e.S), clip(w.info))
			}
			f, l := obs[k].first, -1
			if len(pv.ev) > 0 && f >= 0 {
				for _, e := range pv.ev {
					if e.Spec != "" && (e.Kind == "enter" || e.Kind == "exit") {
						l = e.Seq
					}
				}
				if !w.post && c.endSeq > f && !leaks(m.nodes[c.e.ID]) {
					v.add("setup-after-spec", map[string]string{"bs": "C09", "sbs": "C09", "rbs": "C12"}[w.kind], "suite %s, %v: %s is not over when the first spec starts", m.su.Name, pv, c.e.ID)
				}
				if w.post && c.e.Seq < l && !leakySpecs(m) {
					v.add("teardown-before-spec", map[string]string{"as": "C10", "sas": "C10", "ras": "C12", "dc": "C04"}[w.kind], "suite %s, %v: %s starts before the last spec is over", m.su.Name, pv, c.e.ID)
				}
			}
		}
	}
	pr.exact = true
	if rep != nil {
		v.compareReport(rv, m, pr, rep, bsOK)
	}
	return pr
}

func limitOf(m *msuite, n *Node) int64 {
	if n.NT > 0 {
		return n.NT
	}
	return -1
}

func leaks(n *Node) bool { return n == nil || n.NT > 0 }

func leakySpecs(m *msuite) bool {
	for _, n := range m.nodes {
		if n.NT > 0 || n.ST > 0 {
			return true
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:80] + "…" + s[len(s)-60:]
	}
	return s
}

func (v *view) lastIter(rv *rview) bool {
	for _, o := range v.runs {
		if o.suite == rv.suite && o.iter > rv.iter {
			return false
		}
	}
	return true
}

// compareReport compares the JSON report with the prediction.
func (v *view) compareReport(rv *rview, m *msuite, pr *predicted, rep *RReport, bsOK map[int]bool) {
	seen := map[string]int{}
	suite := map[string][]*RSpec{}
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		if sr.LeafNodeType != "It" {
			suite[sr.LeafNodeType] = append(suite[sr.LeafNodeType], sr)
			continue
		}
		seen[sr.LeafNodeText]++
		s := m.byName[sr.LeafNodeText]
		if s == nil {
			v.add("report-unknown", "C01 C12 C18", "suite %s: the report has an unknown spec %q", m.su.Name, sr.LeafNodeText)
			continue
		}
		r := pr.results[s.name]
		if r == nil {
			continue
		}
		tags := "C06 C12 C18 C20"
		if s.retried(m) {
			tags += " C05"
		}
		if s.timed() {
			tags += " C07"
		}
		if s.root != nil {
			tags += " C03"
		}
		if r.msgNode == "rbe" || r.msgNode == "rae" {
			tags += " C21"
		}
		if sr.State != r.state {
			v.add("spec-state", tags+" C01", "suite %s: spec %s is reported %q (%s), it should be %q (%s)", m.su.Name, s.name, sr.State, clip(sr.msg()), r.state, r.msg)
			continue
		}
		okMsg := sr.full() == r.msg
		if strings.HasSuffix(r.msg, " in ") {
			okMsg = strings.HasPrefix(sr.msg(), r.msg)
		}
		if !okMsg {
			v.add("spec-message", tags, "suite %s: spec %s is reported with message %q, it should be %q", m.su.Name, s.name, clip(sr.full()), r.msg)
		}
		if sr.NumAttempts != r.attempts {
			v.add("spec-attempts", "C05 C20 C17", "suite %s: spec %s is reported with %d attempts, it should be %d", m.su.Name, s.name, sr.NumAttempts, r.attempts)
		}
		var got []sm
		for _, a := range sr.AdditionalFailures {
			got = append(got, sm{a.State, a.Failure.full()})
		}
		if fmt.Sprint(got) != fmt.Sprint(r.addl) {
			t := "C06 C17"
			if s.retried(m) {
				t += " C05"
			}
			v.add("spec-additional", t, "suite %s: spec %s has additional failures %q, they should be %q", m.su.Name, s.name, got, r.addl)
		}
		var path []string
		for _, c := range s.chain {
			path = append(path, c.Name())
		}
		if sr.IsSerial != s.serial || sr.IsInOrderedContainer != (s.root != nil) || sr.RunningInParallel != (v.p.Procs > 1) {
			v.add("spec-flags", "C18 C20 C22", "suite %s: spec %s is reported as serial: %v, in an ordered container: %v, running in parallel: %v", m.su.Name, s.name, sr.IsSerial, sr.IsInOrderedContainer, sr.RunningInParallel)
		}
		if strings.Join(path, "/") != strings.Join(sr.ContainerHierarchyTexts, "/") {
			v.add("spec-path", "C12 C17 C18", "suite %s: spec %s is reported under %q, it should be %q", m.su.Name, s.name, sr.ContainerHierarchyTexts, path)
		}
	}
	for n, k := range seen {
		if k > 1 {
			v.add("report-twice", "C01 C12 C18 C20", "suite %s: spec %s is in the report %d times", m.su.Name, n, k)
		}
	}
	for typ, want := range pr.suite {
		got := suite[typ]
		delete(suite, typ)
		tag := map[string]string{"BeforeSuite": "C09", "SynchronizedBeforeSuite": "C09", "AfterSuite": "C10", "SynchronizedAfterSuite": "C10", "ReportBeforeSuite": "C12", "ReportAfterSuite": "C12", "DeferCleanup (Suite)": "C04"}[typ] + " C06 C12 C18"
		if len(got) != len(want) {
			v.add("suite-entries", tag, "suite %s: the report has %d entries for %s nodes, it should have %d", m.su.Name, len(got), typ, len(want))
			continue
		}
		perProc := map[int][]*RSpec{}
		for _, g := range got {
			perProc[g.ParallelProcess] = append(perProc[g.ParallelProcess], g)
		}
		for _, w := range want {
			l := perProc[w.proc]
			if len(l) == 0 {
				v.add("suite-entries", tag, "suite %s: no report entry for the %s node of process %d", m.su.Name, typ, w.proc)
				continue
			}
			g := l[0]
			perProc[w.proc] = l[1:]
			if g.State != w.state {
				v.add("suite-node-state", tag, "suite %s: %s (%s) on process %d is reported %q (%s), it should be %q (%s)", m.su.Name, typ, w.text, w.proc, g.State, clip(g.msg()), w.state, w.msg)
			} else if strings.HasPrefix(w.msg, "*") {
				if !strings.Contains(g.msg(), w.msg[1:]) {
					v.add("suite-node-message", tag, "suite %s: %s on process %d is reported with message %q", m.su.Name, typ, w.proc, clip(g.msg()))
				}
			} else if !strings.HasPrefix(g.full(), w.msg) || (w.msg == "" && g.full() != "") {
				v.add("suite-node-message", tag, "suite %s: %s on process %d is reported with message %q, it should be %q", m.su.Name, typ, w.proc, clip(g.full()), w.msg)
			}
		}
	}
	for typ, got := range suite {
		v.add("suite-entries", "C12 C18", "suite %s: the report has %d unexpected entries for %s nodes", m.su.Name, len(got), typ)
	}
	all := true
	for _, ok := range pr.passed {
		all = all && ok
	}
	if rep.SuiteSucceeded != all {
		v.add("suite-verdict", "C06 C12 C18 C20", "suite %s: SuiteSucceeded is %v, it should be %v", m.su.Name, rep.SuiteSucceeded, all)
	}
	if rep.PreRunStats.TotalSpecs != len(m.specs) || rep.PreRunStats.SpecsThatWillRun != m.nRun {
		v.add("prerun-stats", "C12 C18", "suite %s: the report announces %d of %d specs, it should be %d of %d", m.su.Name, rep.PreRunStats.SpecsThatWillRun, rep.PreRunStats.TotalSpecs, m.nRun, len(m.specs))
	}
}
