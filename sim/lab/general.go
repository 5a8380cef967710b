package lab

import (
	"fmt"
	"sort"
	"strings"
)

// The oracles of this file hold in every run, whatever is injected.

func (v *view) general(rv *rview) {
	m := v.model(rv.suite, rv.iter)
	cs := map[int][]*call{}
	ct := map[int]*ctl{}
	for _, pv := range rv.order {
		cs[pv.proc] = calls(pv)
		ct[pv.proc] = v.control(rv, pv)
	}
	v.identity(rv, m, cs)
	for _, pv := range rv.order {
		v.overlap(rv, m, pv, cs[pv.proc], ct[pv.proc])
		v.levels(rv, m, pv, cs[pv.proc], ct[pv.proc])
		v.cleanups(rv, m, pv, cs[pv.proc], ct[pv.proc])
		v.eachReports(rv, m, pv, cs[pv.proc], ct[pv.proc])
		v.limits(rv, m, pv, cs[pv.proc], ct[pv.proc])
	}
	v.suiteNodes(rv, m, cs, ct)
	v.serialSpecs(rv, m, cs)
	v.stops(rv, m, cs, ct)
	v.suiteReport(rv, m, cs, ct)
}

// suiteReport: what the report says about the suite as a whole combines what
// happened on all processes.
func (v *view) suiteReport(rv *rview, m *msuite, cs map[int][]*call, ct map[int]*ctl) {
	rep := v.rep[m.su.Name]
	if rep == nil || !v.lastIter(rv) || len(rep.SpecReports) == 0 || v.r.FaultHit["disk-error-returned"] > 0 {
		return
	}
	slack := v.slack()
	has, must := map[string]bool{}, map[string]string{}
	for _, r := range rep.SpecialSuiteFailureReasons {
		if has[r] {
			v.add("reason-twice", "C12", "suite %s: the report lists the reason %q twice", m.su.Name, r)
		}
		has[r] = true
	}
	user, skips := false, false
	for _, pv := range rv.order {
		if !pv.normalEnd() {
			return
		}
		c := ct[pv.proc]
		for _, s := range c.sig {
			user = user || s < pv.end
		}
		if len(c.sig) == 0 || c.abort >= 0 && c.abort < c.sig[0] {
			continue
		}
		for _, k := range cs[pv.proc] { // it ran something well after that
			if !reportKind(kindOf(k.e.ID)) && k.e.T > c.sig[0]+slack {
				must["Interrupted by User"] = pv.String()
			}
		}
	}
	nBS := 0
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		if k := sr.LeafNodeType; k == "BeforeSuite" || k == "SynchronizedBeforeSuite" {
			nBS++
			if sr.State == "skipped" {
				must["Suite skipped in BeforeSuite"] = fmt.Sprintf("process %d", sr.ParallelProcess)
				skips = true
			}
		}
	}
	v.fact("suites' reasons for failing")
	for r, by := range must {
		if !has[r] {
			v.add("reason-lost", "C12 C06 C08", "suite %s: the report does not say %q, which is what %s has to say", m.su.Name, r, by)
		}
	}
	wrong := ""
	for r := range has {
		switch {
		case r == "Interrupted by User":
			if !user {
				wrong = r
			}
		case r == "Suite skipped in BeforeSuite":
			if !skips {
				wrong = r
			}
		case strings.HasPrefix(r, "Failed to iterate"):
			wrong = r
		case r == "Suite Timeout Elapsed", r == "Interrupted by Timeout":
			if m.opt.Timeout == 0 {
				wrong = r
			}
		}
		if rep.SuiteSucceeded && r != "Suite skipped in BeforeSuite" {
			wrong = r
		}
	}
	if wrong != "" {
		v.add("reason-invented", "C12 C06", "suite %s: the report says %q (succeeded: %v), nothing of that kind happened", m.su.Name, wrong, rep.SuiteSucceeded)
	}
	if v.r.FaultHit["clockjump"] > 0 {
		return
	}
	if rep.RunTime != rep.EndTime.Sub(rep.StartTime) {
		v.add("suite-times", "C12", "suite %s: starts %v, ends %v and takes %v", m.su.Name, rep.StartTime, rep.EndTime, rep.RunTime)
	}
	from, to := rep.StartTime.UnixNano()-wallBase, rep.EndTime.UnixNano()-wallBase
	for _, pv := range rv.order {
		for i, k := range cs[pv.proc] {
			if k.e.T < from && !ct[pv.proc].frozen {
				v.add("suite-times", "C12", "suite %s: the report has %.3f s as its start, %s of %q starts on process %d at %.3f s", m.su.Name, float64(from)/1e9, k.e.ID, k.e.Spec, pv.proc, float64(k.e.T)/1e9)
				return
			}
			if kd := kindOf(k.e.ID); kd != "ras" && k.e.T > to {
				last := true // nothing but the report on the suite followed
				for _, l := range cs[pv.proc][i+1:] {
					last = last && kindOf(l.e.ID) == "ras"
				}
				if last && (has["Suite Timeout Elapsed"] || has["Interrupted by Timeout"] || has["Interrupted by User"]) {
					continue // its goroutine got going after Ginkgo gave it up
				}
				v.add("suite-times", "C12", "suite %s: the report has %.3f s as its end, %s of %q starts on process %d at %.3f s", m.su.Name, float64(to)/1e9, k.e.ID, k.e.Spec, pv.proc, float64(k.e.T)/1e9)
				return
			}
		}
	}
}

func reportKind(k string) bool { return k == "rbe" || k == "rae" || k == "rbs" || k == "ras" }

// identity: every spec on one process, every attempt once, nothing that must not run.
func (v *view) identity(rv *rview, m *msuite, cs map[int][]*call) {
	owner := map[string]int{}
	for _, pv := range rv.order {
		att := map[string]int{}
		ran := map[string]bool{}
		for _, c := range cs[pv.proc] {
			if c.e.Spec == "" {
				continue
			}
			s := m.byName[c.e.Spec]
			if s == nil {
				v.add("unknown-spec", "C02 C17", "suite %s: callback %s runs for unknown spec %q", m.su.Name, c.e.ID, c.e.Spec)
				continue
			}
			k := kindOf(c.e.ID)
			if o, ok := owner[s.name]; ok && o != pv.proc {
				t := "C01 C14 C20"
				if s.root != nil {
					t += " C03"
				}
				v.add("spec-two-procs", t, "suite %s: spec %s runs on process %d and on process %d", m.su.Name, s.name, o, pv.proc)
			}
			owner[s.name] = pv.proc
			if reportKind(k) {
				continue
			}
			if s.skip {
				v.add("skipped-spec-runs", "C01", "suite %s, %v: %s runs for spec %s, which is pending or filtered out", m.su.Name, pv, c.e.ID, s.name)
			}
			if (k == "it" || k == "entry") && c.e.ID == s.name {
				id := fmt.Sprintf("%s@%d", s.name, c.e.Att)
				if ran[id] {
					v.add("subject-twice", "C01 C05", "suite %s, %v: attempt %d of spec %s runs twice", m.su.Name, pv, c.e.Att, s.name)
				}
				ran[id] = true
			}
			if c.e.Att < att[s.name] || c.e.Att > att[s.name]+1 {
				v.add("attempt-order", "C05", "suite %s, %v: attempt %d of spec %s follows attempt %d", m.su.Name, pv, c.e.Att, s.name, att[s.name])
			}
			att[s.name] = c.e.Att
		}
	}
}

func (v *view) fineSlack() int64 {
	slack := int64(20e6)
	if v.p.Sched.StallProb > 0 {
		slack += 2 * v.p.Sched.StallMax
	}
	if v.p.Sched.PauseSites > 0 {
		slack += 5 * v.p.Sched.PauseMax
	}
	return slack
}

// attStarts: when the attempts of each spec started on this process.
func attStarts(cs []*call) map[string]int64 {
	out := map[string]int64{}
	for _, c := range cs {
		key := fmt.Sprintf("%s@%d", c.e.Spec, c.e.Att)
		if _, ok := out[key]; !ok && !reportKind(kindOf(c.e.ID)) {
			out[key] = c.e.T
		}
	}
	return out
}

// leftAt is the earliest time Ginkgo may have given up on a callback.
func (v *view) leftAt(m *msuite, pv *pview, cs []*call, o *call, ct *ctl) int64 {
	return v.cutTime(m, pv, o, ct, attStarts(cs)[fmt.Sprintf("%s@%d", o.e.Spec, o.e.Att)], v.slack())
}

// overlap: one callback at a time per process, unless the earlier one was told
// to stop and given its grace period.
func (v *view) overlap(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) {
	slack := v.fineSlack()
	var open []*call
	attStart := map[string]int64{}
	reported := false
	for _, c := range cs {
		key := fmt.Sprintf("%s@%d", c.e.Spec, c.e.Att)
		if _, ok := attStart[key]; !ok && !reportKind(kindOf(c.e.ID)) {
			attStart[key] = c.e.T
		}
		var still []*call
		for _, o := range open {
			if o.endSeq < c.e.Seq {
				continue
			}
			still = append(still, o)
			if reported {
				continue
			}
			n := m.nodes[o.e.ID]
			earliest := v.cutTime(m, pv, o, ct, attStart[fmt.Sprintf("%s@%d", o.e.Spec, o.e.Att)], slack)
			early := slack
			if s := m.byName[o.e.Spec]; s != nil && s.it.ST > 0 {
				early = v.slack() // its time started a little before its first callback
			}
			if c.e.Spec == "" && strings.Contains(" it be jbe ae jae ba aa ", " "+kindOf(c.e.ID)+" ") && (ct.first >= 0 && ct.first <= c.e.T+slack || v.p.Opt.Timeout > 0 || hasTimeouts(v.p)) {
				continue // it is c that was given up, before it was scheduled
			}
			if c.e.T+early < earliest {
				t := "C02"
				if s := m.byName[o.e.Spec]; n != nil && n.NT > 0 || s != nil && s.it.ST > 0 {
					t += " C07"
				}
				if kindOf(c.e.ID) == "dc" || kindOf(o.e.ID) == "dc" {
					t += " C04"
				}
				if ct.first >= 0 {
					t += " C08 C13"
				}
				if s := m.byName[c.e.Spec]; s != nil && s.serial {
					t += " C11"
				}
				reported = true
				v.add("overlap", t, "suite %s, %v: %s of %q starts while %s of %q is running, which nothing has told to stop and given its grace period", m.su.Name, pv, c.e.ID, c.e.Spec, o.e.ID, o.e.Spec)
			}
		}
		open = append(still, c)
	}
}

// cutTime is the earliest time at which Ginkgo may have moved on from a
// callback that is still running; never if it must wait for it.
func (v *view) cutTime(m *msuite, pv *pview, o *call, ct *ctl, attStart, slack int64) int64 {
	n := m.nodes[o.e.ID]
	earliest := never
	grace := int64(0)
	hasCtx := n == nil || n.Ctx
	if hasCtx {
		grace = v.graceOf(n)
	}
	cand := func(t int64) {
		if t < o.e.T {
			t = o.e.T
		}
		if t+grace < earliest {
			earliest = t + grace
		}
	}
	st := int64(0)
	if s := m.byName[o.e.Spec]; s != nil {
		st = s.it.ST
	}
	if n != nil && n.NT > 0 {
		cand(o.e.T + n.NT*1e6)
	}
	if st > 0 {
		d := attStart + st*1e6
		if d <= o.e.T+slack { // already out of time: the grace period is its limit
			if n == nil || n.NT == 0 {
				cand(o.e.T + v.graceOf(n))
			}
		}
		if d > o.e.T-slack {
			cand(d)
		}
	}
	if v.p.Opt.Timeout > 0 {
		d, _ := v.suiteDue(pv)
		cand(d)
	}
	for _, s := range ct.sig {
		if s >= o.e.T-v.slack() {
			cand(s)
		}
	}
	if ct.abort >= 0 && !cleanupKind[kindOf(o.e.ID)] {
		cand(ct.abort)
	}
	if ct.first >= 0 && o.e.T >= ct.first { // started while interrupted: limited to its grace period
		if n == nil || n.NT == 0 {
			cand(o.e.T + v.graceOf(n))
		}
	}
	if len(ct.sig) > 1 { // a further interrupt takes the grace away
		for i, s := range ct.sig {
			if i > 0 && s >= o.e.T && s < earliest {
				earliest = s
			}
		}
	}
	return earliest
}

// levels: what may start after interrupts.
func (v *view) levels(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) {
	if len(ct.sig) == 0 {
		return
	}
	slack := v.slack()
	for _, c := range cs {
		k := kindOf(c.e.ID)
		l := ct.atLeast(c.e.T, slack)
		ok := true
		switch {
		case l >= 3:
			ok = false
		case l == 2:
			ok = reportKind(k)
		case l == 1:
			ok = cleanupKind[k]
		}
		if !ok {
			v.add("starts-after-interrupt", "C08", "suite %s, %v: %s of %q starts at %.3f s although %d interrupts were received, the first at %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, float64(c.e.T)/1e9, l, float64(ct.sig[0])/1e9)
			return
		}
	}
	// the running callback is left at the latest after its grace period
	for i, c := range cs {
		n := m.nodes[c.e.ID]
		if n != nil && c.e.T > ct.sig[0]+slack && (n.NT == 0 || n.NT > 0 && n.Ctx) { // it started when all was to end
			lim := c.e.T + slack
			switch {
			case n.NT > 0:
				lim += n.NT*1e6 + v.graceOf(n)
			case n.Ctx:
				lim += 2 * v.graceOf(n)
			default:
				lim += v.graceOf(n)
			}
			next := pv.end
			if !pv.exited {
				next = never
			}
			if i+1 < len(cs) && cs[i+1].e.T < next {
				next = cs[i+1].e.T
			}
			if c.end < 0 || c.end > lim {
				v.fact("callbacks left behind after interrupts")
			}
			if (c.end < 0 || c.end > lim) && next > lim && (pv.exited || v.r.SimNs > lim) && (len(rv.order) == 1 || c.e.Spec != "" && i+1 < len(cs) && cs[i+1].e.Spec == c.e.Spec) {
				v.add("left-late", "C07 C08", "suite %s, %v: %s of %q starts after an interrupt at %.3f s and holds up the run until %.3f s, its limit and grace period end at %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, float64(c.e.T)/1e9, float64(next)/1e9, float64(lim-slack)/1e9)
				return
			}
		}
		for j, s := range ct.sig {
			if s < c.e.T || s >= c.end && c.end >= 0 || ct.atMost(s) > 1+j {
				continue
			}
			g := int64(0)
			if n != nil && n.Ctx && (j == 0 || c.e.T >= ct.sig[j-1]-slack) {
				g = v.graceOf(n)
			}
			lim := s + g + slack
			if c.end >= 0 && c.end <= lim || pv.exited && pv.end <= lim {
				continue
			}
			next := pv.end
			if !pv.exited {
				next = never
			}
			if i+1 < len(cs) && cs[i+1].e.T < next {
				next = cs[i+1].e.T
			}
			// barriers and other waiting follow a suite node, reports may take the rest: only judge within specs
			if c.e.Spec != "" && i+1 < len(cs) && cs[i+1].e.Spec == c.e.Spec && next > lim {
				v.add("not-cut-off", "C08", "suite %s, %v: %s of %q still holds up the run %.3f s after the interrupt at %.3f s, its grace period is %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, float64(next-s)/1e9, float64(s)/1e9, float64(g)/1e9)
				return
			}
		}
	}
}

// cleanups: every registration leads to exactly one execution.
func (v *view) cleanups(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) {
	reg := map[string]int{}
	var first = map[string]Event{}
	for _, e := range pv.ev {
		if e.Kind == "reg" {
			reg[e.ID]++
			if _, ok := first[e.ID]; !ok {
				first[e.ID] = e
			}
		}
	}
	ran := map[string]int{}
	for _, c := range cs {
		if kindOf(c.e.ID) != "dc" {
			continue
		}
		ran[c.e.ID]++
		if ran[c.e.ID] > reg[c.e.ID] {
			v.add("cleanup-extra", "C04", "suite %s, %v: cleanup %s runs although it is not registered (%d registrations, %d executions)", m.su.Name, pv, c.e.ID, reg[c.e.ID], ran[c.e.ID])
			return
		}
		// not before the node that registered it is over
		for _, e := range pv.ev {
			if e.Kind != "reg" || e.ID != c.e.ID || e.Seq > c.e.Seq {
				continue
			}
			for _, o := range cs {
				if o.e.ID == e.S && o.e.Ex == e.Ex && o.endSeq > c.e.Seq && o.e.Seq < c.e.Seq && !v.mayLeak(m, o, ct) {
					v.add("cleanup-early", "C04", "suite %s, %v: cleanup %s runs before %s, which registered it, is over", m.su.Name, pv, c.e.ID, o.e.ID)
					return
				}
			}
		}
	}
	if !pv.normalEnd() || ct.atMost(never) > 1 {
		return
	}
	var ids []string
	for id := range reg {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if ran[id] != reg[id] && !v.leakReg(m, pv, cs, ct, id) {
			v.add("cleanup-lost", "C04", "suite %s, %v: cleanup %s, registered by %s of %q, runs %d times for %d registrations", m.su.Name, pv, id, first[id].S, first[id].Spec, ran[id], reg[id])
			return
		}
	}
}

// leakReg: the cleanup was registered by a callback that Ginkgo had given up on.
func (v *view) leakReg(m *msuite, pv *pview, cs []*call, ct *ctl, id string) bool {
	for _, e := range pv.ev {
		if e.Kind != "reg" || e.ID != id {
			continue
		}
		for _, o := range cs {
			if o.e.ID == e.S && o.e.Ex == e.Ex && e.T+v.slack() >= v.leftAt(m, pv, cs, o, ct) {
				return true
			}
		}
	}
	return false
}

// mayLeak: Ginkgo may have moved on while this callback was running.
func (v *view) mayLeak(m *msuite, c *call, ct *ctl) bool {
	n := m.nodes[c.e.ID]
	if n == nil || n.NT > 0 || v.p.Opt.Timeout > 0 || ct.first >= 0 {
		return true
	}
	s := m.byName[c.e.Spec]
	return s != nil && s.it.ST > 0
}

// eachReports: ReportBeforeEach and ReportAfterEach.
func (v *view) eachReports(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) {
	type rec struct {
		before, after []*call
		other         []*call
	}
	by := map[string]*rec{}
	var names []string
	for _, c := range cs {
		if c.e.Spec == "" {
			continue
		}
		r := by[c.e.Spec]
		if r == nil {
			r = &rec{}
			by[c.e.Spec] = r
			names = append(names, c.e.Spec)
		}
		switch kindOf(c.e.ID) {
		case "rbe":
			r.before = append(r.before, c)
		case "rae":
			r.after = append(r.after, c)
		default:
			r.other = append(r.other, c)
		}
	}
	var rep *RReport
	if v.lastIter(rv) {
		rep = v.rep[m.su.Name]
	}
	inRep := map[string]*RSpec{}
	if rep != nil {
		for i := range rep.SpecReports {
			sr := &rep.SpecReports[i]
			if sr.LeafNodeType == "It" && sr.ParallelProcess == pv.proc {
				inRep[sr.LeafNodeText] = sr
				if by[sr.LeafNodeText] == nil {
					by[sr.LeafNodeText] = &rec{}
					names = append(names, sr.LeafNodeText)
				}
			}
		}
	}
	for _, name := range names {
		s := m.byName[name]
		if s == nil {
			continue
		}
		r := by[name]
		want := func(kind string, desc bool) string {
			var l []string
			for _, x := range byLevel(ofKind(s, kind), desc) {
				l = append(l, x.n.ID)
			}
			return strings.Join(l, " ")
		}
		got := func(l []*call) string {
			var o []string
			for _, c := range l {
				o = append(o, c.e.ID)
			}
			return strings.Join(o, " ")
		}
		complete := pv.normalEnd() && ct.atMost(never) < 3
		wb, wa, gb, ga := want("rbe", false), want("rae", true), got(r.before), got(r.after)
		if wb != gb && (complete || !strings.HasPrefix(wb, gb)) {
			v.add("report-before-each", "C21", "suite %s, %v: ReportBeforeEach nodes run as [%s] for spec %s, they should run as [%s]", m.su.Name, pv, gb, name, wb)
			continue
		}
		if wa != ga && (complete || !strings.HasPrefix(wa, ga)) {
			v.add("report-after-each", "C21", "suite %s, %v: ReportAfterEach nodes run as [%s] for spec %s, they should run as [%s]", m.su.Name, pv, ga, name, wa)
			continue
		}
		for _, o := range r.other {
			for _, b := range r.before {
				if b.e.Seq > o.e.Seq {
					v.add("report-before-late", "C21", "suite %s, %v: %s runs after %s of spec %s", m.su.Name, pv, b.e.ID, o.e.ID, name)
				}
			}
			for _, a := range r.after {
				if a.e.Seq < o.e.Seq {
					v.add("report-after-early", "C21", "suite %s, %v: %s runs before %s of spec %s", m.su.Name, pv, a.e.ID, o.e.ID, name)
				}
			}
		}
		if ct.atMost(never) > 0 && len(ct.sig) > 0 || v.p.Opt.Timeout > 0 {
			continue // a reporting node itself may be interrupted
		}
		for _, b := range r.before {
			st := strings.TrimPrefix(b.e.S, name+"=")
			if b == r.before[0] && (st == "pending") != s.pending {
				v.add("report-before-state", "C21", "suite %s, %v: %s sees spec %s in state %q", m.su.Name, pv, b.e.ID, name, st)
			}
		}
		cutOff := false // a reporting node that starts after an interrupt only gets its grace period
		for _, a := range append(append([]*call{}, r.before...), r.after...) {
			if ct.first >= 0 && a.e.T >= ct.first-v.slack() && (a.end < 0 || a.end-a.e.T >= v.graceOf(m.nodes[a.e.ID])-v.slack()) {
				cutOff = true
			}
		}
		if cutOff {
			continue
		}
		state, att := "", 0
		for i, a := range r.after {
			st, n, ok := strings.Cut(strings.TrimPrefix(a.e.S, name+"="), "|")
			k := 0
			fmt.Sscan(n, &k)
			if !ok {
				continue
			}
			if i > 0 && (st != state || k != att) && !v.stray("prpanic") {
				v.add("report-after-state", "C21", "suite %s, %v: %s sees spec %s as %q after %d attempts, it should be %q after %d", m.su.Name, pv, a.e.ID, name, st, k, state, att)
			}
			state, att = st, k
			for _, f := range failsIn(pv, a) {
				if f.Kind == "skip" {
					break
				}
				ns := map[string]string{"fail": "failed", "panic": "panicked", "abort": "aborted"}[f.Kind]
				if !failureState(state) || ns == "aborted" {
					state = ns
				}
				break
			}
		}
		if sr := inRep[name]; sr != nil && len(r.after) > 0 && complete {
			if (sr.State != state || sr.NumAttempts != att) && !v.stray("prpanic") {
				v.add("report-after-final", "C21 C06", "suite %s, %v: the last ReportAfterEach node of spec %s leaves it %q after %d attempts, the report says %q after %d", m.su.Name, pv, name, state, att, sr.State, sr.NumAttempts)
			}
		}
	}
}

// suiteNodes: suite setup, teardown and suite reports.
func (v *view) suiteNodes(rv *rview, m *msuite, cs map[int][]*call, ct map[int]*ctl) {
	p1 := rv.procs[1]
	of := func(proc int, kinds ...string) []*call {
		var out []*call
		for _, c := range cs[proc] {
			for _, k := range kinds {
				if kindOf(c.e.ID) == k && c.e.Spec == "" {
					out = append(out, c)
				}
			}
		}
		return out
	}
	succeeded := func(pv *pview, c *call) bool {
		if c.how != "done" {
			return false
		}
		return len(failsIn(pv, c)) == 0
	}
	// an interrupt may have come while the callback was running
	mayStop := func(ctl *ctl, c *call) bool {
		return ctl.first >= 0 && c.end+v.slack() >= ctl.first
	}
	skippedIn := func(pv *pview, c *call) bool {
		f := failsIn(pv, c)
		return len(f) > 0 && f[0].Kind == "skip"
	}
	// ReportBeforeSuite
	// without process 1 the others may never learn that it was done with them
	rbsOK, rbsUnsure := true, len(m.rbs) > 0 && p1 != nil && !p1.normalEnd()
	for _, pv := range rv.order {
		for _, c := range of(pv.proc, "rbs") {
			if pv.proc != 1 {
				v.add("rbs-process", "C12", "suite %s: ReportBeforeSuite %s runs on process %d", m.su.Name, c.e.ID, pv.proc)
			}
		}
	}
	if len(m.rbs) > 0 && p1 != nil {
		got := map[string]int{}
		for _, c := range of(1, "rbs") {
			got[c.e.ID]++
			rbsOK, rbsUnsure = rbsOK && succeeded(p1, c), rbsUnsure || mayStop(ct[1], c)
			if lo, _ := v.suiteDue(p1); c.e.T+v.slack() > lo || c.end < 0 || c.end+v.slack() > lo {
				rbsUnsure = true
			}
			for _, pv := range rv.order {
				for _, o := range cs[pv.proc] {
					if kindOf(o.e.ID) != "rbs" && kindOf(o.e.ID) != "ras" && o.e.Seq < c.endSeq && !v.mayLeak(m, c, ct[1]) {
						v.add("rbs-late", "C12 C09", "suite %s: %s of process %d starts before ReportBeforeSuite %s is over", m.su.Name, o.e.ID, pv.proc, c.e.ID)
						break
					}
				}
			}
		}
		for _, n := range m.rbs {
			if got[n.ID] > 1 || got[n.ID] == 0 && p1.normalEnd() && ct[1].atMost(never) < 3 {
				v.add("rbs-count", "C12", "suite %s: ReportBeforeSuite %s runs %d times", m.su.Name, n.ID, got[n.ID])
			}
		}
		if len(got) < len(m.rbs) {
			rbsOK = false
		}
		if !rbsOK {
			for _, pv := range rv.order {
				for _, o := range cs[pv.proc] {
					if k := kindOf(o.e.ID); k != "rbs" && k != "ras" {
						v.add("runs-without-rbs", "C12", "suite %s: %s runs on process %d although ReportBeforeSuite did not succeed", m.su.Name, o.e.ID, pv.proc)
						break
					}
				}
			}
		}
	}
	// suite setup
	if m.bs != nil {
		var p1call *call
		for _, pv := range rv.order {
			for _, c := range of(pv.proc, "sbs") {
				if c.e.S == "p1" {
					if pv.proc != 1 || p1call != nil {
						v.add("sbs-p1", "C09", "suite %s: the first function of SynchronizedBeforeSuite runs again or elsewhere, on process %d", m.su.Name, pv.proc)
					}
					p1call = c
				}
			}
		}
		for _, pv := range rv.order {
			l := of(pv.proc, "bs")
			if m.bs.Kind == "sbs" {
				l = nil
				for _, c := range of(pv.proc, "sbs") {
					if c.e.S == "p1" {
						continue
					}
					l = append(l, c)
					want := "all:" + fmt.Sprintf("%q", string(m.bs.Data))
					if c.e.S != want {
						v.add("sbs-data", "C09", "suite %s, %v: the second function of SynchronizedBeforeSuite received %q, the first returned %q", m.su.Name, pv, clip(c.e.S), clip(want))
					}
					switch {
					case p1call == nil:
						v.add("sbs-order", "C09", "suite %s, %v: the second function of SynchronizedBeforeSuite runs without the first", m.su.Name, pv)
					case p1call.endSeq > c.e.Seq:
						v.add("sbs-order", "C09", "suite %s, %v: the second function of SynchronizedBeforeSuite starts before the first has finished on process 1", m.su.Name, pv)
					case !succeeded(p1, p1call):
						v.add("sbs-order", "C09", "suite %s, %v: the second function of SynchronizedBeforeSuite runs although the first did not succeed", m.su.Name, pv)
					}
				}
			}
			if len(l) > 1 {
				v.add("bs-count", "C09", "suite %s, %v: suite setup runs %d times", m.su.Name, pv, len(l))
			}
			for _, c := range cs[pv.proc] {
				k := kindOf(c.e.ID)
				if c.e.Spec == "" || len(l) > 0 && c.e.Seq > l[0].endSeq && succeeded(pv, l[0]) {
					continue
				}
				if reportKind(k) && (len(l) == 0 && p1call != nil && skippedIn(p1, p1call) || len(l) > 0 && c.e.Seq > l[0].endSeq && skippedIn(pv, l[0]) || v.p.Procs > 1) {
					continue // specs reported as skipped
				}
				if len(l) == 0 && ct[pv.proc].first >= 0 && reportKind(k) || m.nRun == 0 && reportKind(k) {
					continue
				}
				v.add("spec-without-setup", "C09", "suite %s, %v: %s of spec %s runs although suite setup has not succeeded on this process", m.su.Name, pv, c.e.ID, c.e.Spec)
				break
			}
		}
	}
	// suite teardown
	for _, pv := range rv.order {
		var last *call
		for _, c := range cs[pv.proc] {
			if c.e.Spec != "" {
				last = c
			}
		}
		tear := func(class, tag string, c *call) {
			if last != nil && last.e.Seq > c.e.Seq {
				v.add(class, tag, "suite %s, %v: %s runs before %s of spec %s", m.su.Name, pv, c.e.ID, last.e.ID, last.e.Spec)
			}
			for _, o := range cs[pv.proc] {
				if o.e.Spec != "" && o.endSeq > c.e.Seq && !v.mayLeak(m, o, ct[pv.proc]) {
					v.add(class, tag, "suite %s, %v: %s runs before %s of spec %s is over", m.su.Name, pv, c.e.ID, o.e.ID, o.e.Spec)
					break
				}
			}
		}
		othersEnded := func(class, tag string, c *call) {
			for _, o := range rv.order {
				if o.proc != pv.proc && o.endSeq > c.e.Seq {
					v.add(class, tag, "suite %s: %s runs on process 1 while process %d is still running", m.su.Name, c.e.ID, o.proc)
					break
				}
			}
		}
		for _, c := range of(pv.proc, "ras") {
			if pv.proc != 1 {
				v.add("ras-process", "C12", "suite %s: ReportAfterSuite %s runs on process %d", m.su.Name, c.e.ID, pv.proc)
				continue
			}
			tear("ras-early", "C12", c)
			othersEnded("ras-early", "C12", c)
			for _, o := range cs[1] {
				if k := kindOf(o.e.ID); k != "ras" && o.endSeq > c.e.Seq && !v.mayLeak(m, o, ct[1]) {
					v.add("ras-early", "C12", "suite %s: ReportAfterSuite %s runs before %s is over", m.su.Name, c.e.ID, o.e.ID)
					break
				}
			}
		}
		l := of(pv.proc, "as", "sas")
		nAll, nP1 := 0, 0
		for _, c := range l {
			tear("as-early", "C10", c)
			if kindOf(c.e.ID) == "sas" && c.e.S == "p1" {
				nP1++
				if pv.proc != 1 {
					v.add("sas-p1", "C10", "suite %s: the process-1 function of SynchronizedAfterSuite runs on process %d", m.su.Name, pv.proc)
				} else {
					othersEnded("sas-p1", "C10 C14", c)
				}
				if nAll == 0 {
					v.add("sas-p1", "C10", "suite %s: the process-1 function of SynchronizedAfterSuite runs before the other one", m.su.Name)
				}
			} else {
				nAll++
			}
		}
		for _, c := range of(pv.proc, "dc") {
			tear("suite-cleanup-early", "C04 C10", c)
			for _, o := range l {
				if o.endSeq > c.e.Seq && !v.mayLeak(m, o, ct[pv.proc]) {
					v.add("suite-cleanup-early", "C04 C10", "suite %s, %v: cleanup %s runs before %s is over", m.su.Name, pv, c.e.ID, o.e.ID)
				}
			}
			if pv.proc == 1 {
				othersEnded("suite-cleanup-early", "C04 C10", c)
			}
		}
		if m.as != nil && m.nRun > 0 && rbsOK && !rbsUnsure && pv.normalEnd() && ct[pv.proc].atMost(never) < 2 {
			if nAll != 1 {
				v.add("as-count", "C10 C08", "suite %s, %v: suite teardown runs %d times", m.su.Name, pv, nAll)
			}
			if m.as.Kind == "sas" && pv.proc == 1 && nP1 != 1 {
				v.add("as-count", "C10 C14 C08", "suite %s: the process-1 function of SynchronizedAfterSuite runs %d times", m.su.Name, nP1)
			}
		} else if nAll > 1 || nP1 > 1 {
			v.add("as-count", "C10", "suite %s, %v: suite teardown runs %d and %d times", m.su.Name, pv, nAll, nP1)
		}
	}
	v.rasContents(rv, m, cs, ct)
}

// rasContents: what ReportAfterSuite nodes see.
func (v *view) rasContents(rv *rview, m *msuite, cs map[int][]*call, ct map[int]*ctl) {
	p1 := rv.procs[1]
	if p1 == nil {
		return
	}
	got := map[string]int{}
	dead := false
	for _, pv := range rv.order {
		dead = dead || !pv.normalEnd()
	}
	var rep *RReport
	if v.lastIter(rv) {
		rep = v.rep[m.su.Name]
	}
	for _, c := range cs[1] {
		if kindOf(c.e.ID) != "ras" {
			continue
		}
		got[c.e.ID]++
		parts := strings.Split(c.e.S, "|")
		if len(parts) < 2 {
			continue
		}
		n := map[string]int{}
		state := map[string]string{}
		for _, x := range parts[2:] {
			if k, st, ok := strings.Cut(x, "="); ok && m.byName[k] != nil {
				n[k]++
				state[k] = st
			}
		}
		for _, s := range m.specs {
			if n[s.name] > 1 {
				v.add("ras-twice", "C12 C01", "suite %s: ReportAfterSuite sees spec %s %d times", m.su.Name, s.name, n[s.name])
			}
		}
		// every spec that ran to its end on a process that lived is there
		for _, pv := range rv.order {
			if !pv.normalEnd() && pv != p1 || dead && pv != p1 {
				continue
			}
			for _, o := range cs[pv.proc] {
				if o.e.Spec != "" && m.byName[o.e.Spec] != nil && n[o.e.Spec] == 0 {
					v.add("ras-missing", "C12 C01 C18", "suite %s: spec %s ran on process %d but ReportAfterSuite does not see it", m.su.Name, o.e.Spec, pv.proc)
					n[o.e.Spec] = 1
				}
			}
		}
		if rep != nil {
			for i := range rep.SpecReports {
				sr := &rep.SpecReports[i]
				if sr.LeafNodeType == "It" && (state[sr.LeafNodeText] != sr.State) {
					v.add("ras-state", "C12 C18", "suite %s: ReportAfterSuite sees spec %s as %q, the report file says %q", m.su.Name, sr.LeafNodeText, state[sr.LeafNodeText], sr.State)
					break
				}
			}
		}
	}
	for _, n := range m.ras {
		if got[n.ID] > 1 || got[n.ID] == 0 && p1.normalEnd() && !dead && ct[1].atMost(never) < 3 {
			v.add("ras-count", "C12", "suite %s: ReportAfterSuite %s runs %d times", m.su.Name, n.ID, got[n.ID])
		}
	}
}

// serialSpecs: Serial specs run on process 1, after all others have ended.
func (v *view) serialSpecs(rv *rview, m *msuite, cs map[int][]*call) {
	if v.p.Procs < 2 {
		return
	}
	for _, pv := range rv.order {
		for _, c := range cs[pv.proc] {
			s := m.byName[c.e.Spec]
			if s == nil || !m.groupOf[s.name].serial() {
				continue
			}
			if pv.proc != 1 {
				v.add("serial-process", "C11", "suite %s: Serial spec %s runs on process %d", m.su.Name, s.name, pv.proc)
				return
			}
			for _, o := range rv.order {
				if o.proc != 1 && o.endSeq > c.e.Seq {
					v.add("serial-overlap", "C11 C14", "suite %s: %s of Serial spec %s runs while process %d has not ended", m.su.Name, c.e.ID, s.name, o.proc)
					return
				}
			}
		}
	}
}
