package lab

import (
	"fmt"
	"strings"
)

// Timeouts.

// limitAt is when the time of a callback is up, and whether it is certain
// that this limit applies to it.
func (v *view) limitAt(m *msuite, pv *pview, c *call, starts map[string]int64) (at, by int64, sure bool) {
	at, sure = v.ownLimitAt(m, pv, c, starts)
	by = at
	lo, hi := v.suiteDue(pv)
	n := m.nodes[c.e.ID]
	if n == nil || lo == never {
		return
	}
	if s := m.byName[c.e.Spec]; s != nil && s.it.ST > 0 {
		if d := starts[fmt.Sprintf("%s@%d", c.e.Spec, c.e.Att)] + s.it.ST*1e6; d <= c.e.T {
			return // out of time already, the suite's limit makes no difference
		}
	}
	g := v.graceOf(n)
	if reportKind(n.Kind) && v.p.Opt.Grace > 0 {
		g = v.p.Opt.Grace * 1e6
	}
	switch slack := v.slack(); {
	case c.e.T < lo-slack:
		at, by = min(at, lo), min(at, hi)
	case c.e.T <= hi+slack: // right when the time of the suite is up: either may apply
		at, sure = min(at, lo, c.e.T+g), false
	case n.NT == 0: // it starts when the time of the suite is up
		at = c.e.T + g
		by = at
	case n.NT > 0:
		at = c.e.T + n.NT*1e6
		by = at
	}
	return
}

// suiteDue is when the time of the suite is up on a process: within two bounds.
func (v *view) suiteDue(pv *pview) (lo, hi int64) {
	t := v.p.Opt.Timeout * 1e6
	if t == 0 {
		return never, never
	}
	if !v.p.Cli {
		return pv.start + t, pv.start + t + v.slack()
	}
	lo, hi = t, t
	for i := range v.r.Events {
		if e := &v.r.Events[i]; e.Kind == "proc-start" || strings.HasPrefix(e.Kind, "compile-") {
			if e.Kind == "proc-start" && e.Proc == 0 {
				lo = e.T + t
				continue
			}
			hi = e.T + t
			break
		}
	}
	return lo, max(lo, hi) + v.slack()
}

// suiteTime: when the time of a suite is up nothing new starts, and the suite fails.
func (v *view) suiteTime(rv *rview, m *msuite, pv *pview, cs []*call) {
	lo, hi := v.suiteDue(pv)
	if lo == never || v.r.FaultHit["clockjump"] > 0 || v.r.FaultHit["freeze"] > 0 {
		return
	}
	slack := v.slack()
	seen := map[string]bool{}
	v.fact("suites with a limit")
	var over *call
	for _, c := range cs {
		k := kindOf(c.e.ID)
		if k != "ras" && c.e.T > hi+slack {
			over = c
		}
		if reportKind(k) {
			continue
		}
		if c.e.Spec != "" && m.byName[c.e.Spec] != nil && !seen[c.e.Spec] && !cleanupKind[k] {
			seen[c.e.Spec] = true
			if c.e.T > hi+slack {
				v.add("runs-after-timeout", "C07", "suite %s, %v: %s of spec %s starts at %.3f s, the time of the suite is up at %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, float64(c.e.T)/1e9, float64(hi)/1e9)
				return
			}
		}
	}
	if over != nil && pv.exited && !pv.died && pv.status == 0 {
		v.add("timeout-lost", "C07 C06", "suite %s, %v: %s starts at %.3f s, the time of the suite is up at %.3f s, and the process exits with 0", m.su.Name, pv, over.e.ID, float64(over.e.T)/1e9, float64(hi)/1e9)
	}
	if rep := v.rep[m.su.Name]; rep != nil && v.lastIter(rv) && len(rep.SpecReports) > 0 {
		said, late := false, false
		for _, r := range rep.SpecialSuiteFailureReasons {
			said = said || r == "Suite Timeout Elapsed"
		}
		for _, q := range rv.order {
			l, _ := v.suiteDue(q)
			late = late || q.end >= l || !q.exited
		}
		if said && !late {
			v.add("timeout-invented", "C07 C06", "suite %s: the report says that its time was up, its last process ends before that", m.su.Name)
		}
		if !said && over != nil && pv.normalEnd() {
			v.add("timeout-lost", "C07 C06 C12", "suite %s: the report does not say that its time was up on process %d", m.su.Name, pv.proc)
		}
	}
}

// ownLimitAt takes the limits of nodes and specs into account.
func (v *view) ownLimitAt(m *msuite, pv *pview, c *call, starts map[string]int64) (at int64, sure bool) {
	n := m.nodes[c.e.ID]
	at, sure = never, true
	if n == nil || reportKind(n.Kind) {
		return at, n != nil
	}
	if n.NT > 0 {
		at = c.e.T + n.NT*1e6
	}
	s := m.byName[c.e.Spec]
	if s == nil || s.it.ST == 0 {
		return at, true
	}
	if s.root != nil && cleanupKind[n.Kind] {
		sure = false // what the last spec of the container leaves behind is not bound by its time
	}
	if d := starts[fmt.Sprintf("%s@%d", c.e.Spec, c.e.Att)] + s.it.ST*1e6; d > c.e.T {
		at = min(at, d)
		if d < c.e.T+v.slack() {
			sure = false
		}
	} else if n.NT == 0 {
		at = c.e.T + v.graceOf(n)
	}
	return at, sure
}

// limits: a callback that exceeds a limit is told so when the limit is reached
// and left behind when its grace period is over; nothing else is.
func (v *view) limits(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) {
	v.suiteTime(rv, m, pv, cs)
	if !hasTimeouts(v.p) && v.p.Opt.Timeout == 0 || ct.first >= 0 {
		return
	}
	slack, fine := v.slack(), v.fineSlack()
	starts := attStarts(cs)
	told := map[string]Event{}
	for _, e := range pv.ev {
		if e.Kind == "ctxdone" || e.Kind == "ctxseen" {
			k := fmt.Sprintf("%s/%d", e.ID, e.Ex)
			if o, ok := told[k]; !ok || e.T < o.T {
				told[k] = e
			}
		}
	}
	for i, c := range cs {
		n := m.nodes[c.e.ID]
		if n == nil {
			continue
		}
		at, by, sure := v.limitAt(m, pv, c, starts)
		if at < never {
			v.fact("limits")
		}
		e, ok := told[fmt.Sprintf("%s/%d", c.e.ID, c.e.Ex)]
		if ok && (c.end < 0 || e.T < c.end) && e.S != "spec has finished" {
			v.fact("cancellations")
			early := fine
			if s := m.byName[c.e.Spec]; s != nil && s.it.ST > 0 || v.p.Opt.Timeout > 0 {
				early = slack // its time started a little before its first callback
			}
			if e.T+early < at {
				v.add("told-early", "C07", "suite %s, %v: the context of %s of %q ends (%q) at %.3f s, its time is up at %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, e.S, float64(e.T)/1e9, float64(at)/1e9)
				return
			}
			if !strings.HasSuffix(e.S, " timeout occurred") {
				v.add("told-why", "C07", "suite %s, %v: the context of %s of %q, which ran out of time, ends with %q", m.su.Name, pv, c.e.ID, c.e.Spec, e.S)
				return
			}
		}
		at = by
		if !sure || at == never || c.end >= 0 && c.end <= at+slack || !pv.exited && v.r.SimNs < at+slack || pv.exited && pv.end < at+slack {
			continue
		}
		watching := n.Ctx && len(n.Body) > 0 && n.Body[0].Op == "watch" && n.Kind != "sbs" && n.Kind != "sas"
		if watching && (!ok || e.T > at+slack) {
			v.add("told-late", "C07", "suite %s, %v: the time of %s of %q is up at %.3f s, and its context does not end", m.su.Name, pv, c.e.ID, c.e.Spec, float64(at)/1e9)
			return
		}
		g := int64(0)
		if n.Ctx {
			g = v.graceOf(n)
		}
		lim := at + g + slack
		if c.end >= 0 && c.end <= lim {
			continue
		}
		next := pv.end
		if !pv.exited {
			next = never
		}
		if i+1 < len(cs) && cs[i+1].e.T < next {
			next = cs[i+1].e.T
		}
		v.fact("callbacks left behind")
		if next > lim && (pv.exited || v.r.SimNs > lim) && (c.e.Spec != "" && i+1 < len(cs) && cs[i+1].e.Spec == c.e.Spec || !pv.exited || len(rv.order) == 1) {
			v.add("not-left", "C07", "suite %s, %v: %s of %q holds up the run until %.3f s, its time is up at %.3f s and its grace period is %.3f s", m.su.Name, pv, c.e.ID, c.e.Spec, float64(next)/1e9, float64(at)/1e9, float64(g)/1e9)
			return
		}
	}
}

// timeoutReports: whatever exceeded a limit is reported so, and nothing else is.
func (v *view) timeoutReports(m *msuite, u *unit, ct *ctl, starts map[string]int64) {
	if !hasTimeouts(v.p) && v.p.Opt.Timeout == 0 || ct.first >= 0 || u.sr == nil {
		return
	}
	slack, fine := v.slack(), v.fineSlack()
	must, may := "", false
	for _, c := range u.calls {
		at, by, sure := v.limitAt(m, u.pv, c, starts)
		if at == never {
			continue
		}
		early := fine
		if s := m.byName[c.e.Spec]; s != nil && s.it.ST > 0 || v.p.Opt.Timeout > 0 {
			early = slack
		}
		if c.end < 0 || c.end+early >= at {
			may = true
		}
		if sure && (c.end < 0 && u.pv.end > by+slack || c.end > by+slack) {
			must = c.e.ID
		}
	}
	said := false
	for _, s := range u.sr.allMessages() {
		said = said || strings.Contains(s, "timeout occurred")
	}
	v.fact("units with limits")
	if must != "" && !said {
		v.add("timeout-lost", "C07 C06", "suite %s: %v: %s exceeded its limit, but no timeout is in its report (%s: %q)", m.su.Name, u, must, u.sr.State, clip(u.sr.msg()))
	}
	if said && !may {
		v.add("timeout-invented", "C06 C07", "suite %s: %v has a timeout in its report (%s: %q), but everything in it was over in time", m.su.Name, u, u.sr.State, clip(u.sr.msg()))
	}
	if f := u.sr.Failure; u.sr.State == "timedout" && f != nil && strings.HasPrefix(f.Message, "A ") {
		v.fact("progress reports of timeouts")
		pr := &f.ProgressReport
		what := strings.TrimPrefix(firstMsg(f.Message), "A ")
		if !strings.Contains(pr.Message, "when the "+what) || pr.CurrentNodeType != f.FailureNodeType || pr.CurrentNodeLocation.LineNumber != f.FailureNodeLocation.LineNumber {
			v.add("timeout-progress", "C07 C16", "suite %s: %v: %q in the %s node at line %d comes with a progress report %q on a %s node at line %d", m.su.Name, u, f.Message, f.FailureNodeType, f.FailureNodeLocation.LineNumber, pr.Message, pr.CurrentNodeType, pr.CurrentNodeLocation.LineNumber)
		}
	}
}

// limits gives context callbacks time limits, and makes some exceed them.
func (g *gen) limits(p *Plan, r *rng, edge bool) {
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			if !n.Ctx || n.Kind == "table" || n.Kind == "container" || n.Pend {
				return
			}
			if r.p(30) {
				n.GP = int64(r.between(500, 20000))
				if r.p(15) {
					n.GP = -1
				}
			}
			if r.p(30) {
				n.NT = int64(r.between(3000, 40000))
			}
			if (n.Kind == "it" || n.Kind == "entry") && r.p(45) {
				n.ST = int64(r.between(4000, 40000))
			}
			if edge {
				n.NT, n.ST, n.GP = n.NT/60, n.ST/60, n.GP/30
			}
			if r.p(25) {
				n.Body = append([]Action{{Op: "watch"}}, n.Body...)
			}
		})
	}
	graceOf := func(n *Node) int64 {
		switch {
		case !n.Ctx:
			return 0
		case n.GP != 0:
			return max(n.GP, 0)
		case p.Opt.Grace > 0:
			return p.Opt.Grace
		}
		return 30000
	}
	// late adds an action after the last registration of a cleanup
	late := func(b []Action, l ...Action) []Action {
		from := 0
		for i := range b {
			if b[i].Op == "dc" {
				from = i + 1
			}
		}
		at := from + r.n(len(b)-from+1)
		out := append([]Action{}, b[:at]...)
		return append(append(out, l...), b[at:]...)
	}
	over := func(n *Node, limit int64, sp []string, finite bool) []Action {
		gr := graceOf(n)
		var l []Action
		k := r.n(8)
		if edge && r.p(70) {
			base := limit
			if r.p(35) {
				base += gr
			}
			d := base*int64(r.between(80, 120))/100 + int64(r.between(-3, 3))
			return []Action{{Op: pick(r, "sleep", "sleep", "csleep"), Ms: max(1, d), Sp: sp}}
		}
		if finite && (k == 1 || k == 2 || k == 3) {
			k = 5
		}
		switch k {
		case 0:
			l = []Action{{Op: "csleep", Ms: limit * int64(r.between(2, 4))}}
		case 1:
			l = []Action{{Op: "waitctx", Ms: gr / int64(r.between(3, 9))}}
		case 2:
			l = []Action{{Op: "waitctx", Ms: gr * int64(r.between(2, 4))}}
		case 3:
			l = []Action{{Op: "hang"}}
		case 4:
			l = []Action{{Op: "sleep", Ms: limit + gr/2}}
		case 5:
			l = []Action{{Op: "sleep", Ms: (limit + gr) * 2}}
		default:
			l = []Action{{Op: pick(r, "sleep", "csleep"), Ms: limit / int64(r.between(3, 12))}}
		}
		if r.p(25) {
			l = append(l, Action{Op: pick(r, "fail", "fail", "panic", "skip", "abort"), S: "fail-" + g.token()})
			if p.Procs > 1 && l[1].Op == "abort" {
				l[1].Op = "fail"
			}
		}
		for i := range l {
			l[i].Sp = sp
		}
		return l
	}
	for _, su := range p.Suites {
		m := buildModel(p, su)
		var all []*Node
		each(su.Nodes, func(n *Node) { all = append(all, n) })
		for _, n := range all {
			limit := n.NT
			if n.ST > 0 && (limit == 0 || n.ST < limit) {
				limit = n.ST
			}
			if limit == 0 || !r.p(40) {
				continue
			}
			if n.Body2 != nil && r.p(50) {
				n.Body2 = late(n.Body2, over(n, limit, nil, false)...)
			} else {
				n.Body = late(n.Body, over(n, limit, nil, false)...)
			}
		}
		for _, s := range m.specs { // set-up and teardown within the time of the spec
			if s.it.ST == 0 || len(s.nodes) == 0 || !r.p(50) {
				continue
			}
			n := s.nodes[r.n(len(s.nodes))].n
			if reportKind(n.Kind) {
				continue
			}
			n.Body = late(n.Body, over(n, s.it.ST, []string{s.name}, n.NT == 0)...)
		}
	}
}

// GenTime: node and spec timeouts, grace periods, and callbacks that exceed them.
func GenTime(seed uint64) *Plan {
	r := newRng(seed ^ 0x71e)
	f := coreFeatures(r)
	f.Focus, f.Ctx, f.MaxSpecs, f.GoFail, f.Fail = 0, 65, 10, 0, 40
	g, p := newGen(seed, f)
	p.Cli = r.p(60)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 1, 2, 3)
	}
	g.coreOpts(p, r)
	noFilters(&p.Opt)
	edge := r.p(25)
	if r.p(85) {
		p.Opt.Grace = int64(r.between(1000, 15000))
		if edge {
			p.Opt.Grace /= 20
		}
	}
	g.suite(p, r)
	g.limits(p, r, edge)
	if r.p(30) {
		p.Opt.Timeout = int64(r.between(1000, pick(r, 5000, 20000, 60000)))
	}
	g.noise(p, r.p(60))
	p.Sched.PauseMax = min(p.Sched.PauseMax, 20e6)
	p.Sched.StallMax = min(p.Sched.StallMax, 2e7)
	p.HorizonMs = 3600_000
	return p
}
