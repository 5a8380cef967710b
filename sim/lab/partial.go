package lab

import (
	"fmt"
	"os"
	"strings"
)

// partial compares a disturbed run with the model: groups that were over
// before anything happened to their process must be exactly right; the group
// in progress must be explained by an interruption at some point (or, when the
// process died, be cut short); later groups must be skipped.
func (v *view) partial(rv *rview) {
	m := v.model(rv.suite, rv.iter)
	var rep *RReport
	if v.lastIter(rv) {
		rep = v.rep[m.su.Name]
	}
	inRep := map[string]*RSpec{}
	if rep != nil {
		for i := range rep.SpecReports {
			sr := &rep.SpecReports[i]
			if sr.LeafNodeType == "It" {
				if inRep[sr.LeafNodeText] != nil {
					v.add("report-twice", "C01 C12 C14 C18", "suite %s: spec %s is in the report more than once", m.su.Name, sr.LeafNodeText)
				}
				inRep[sr.LeafNodeText] = sr
			}
		}
	}
	assigned := map[*mgroup]bool{}
	complete := true // every process lived and reported
	anySetupFailed := false
	for _, pv := range rv.order {
		v.partialProc(rv, m, pv, rep, inRep, assigned)
		complete = complete && pv.normalEnd()
		// did its suite setup succeed?
		if m.bs != nil {
			ok := false
			for _, c := range calls(pv) {
				if (kindOf(c.e.ID) == "bs" || kindOf(c.e.ID) == "sbs" && c.e.S != "p1") && c.how == "done" && len(failsIn(pv, c)) == 0 && (v.control(rv, pv).first < 0 || c.end+v.slack() < v.control(rv, pv).first) && c.end+v.slack() < v.setupLimit(m, pv, c) {
					ok = true
				}
			}
			anySetupFailed = anySetupFailed || !ok
		}
	}
	for _, n := range m.rbs {
		_ = n
		anySetupFailed = true
	}
	if rep != nil && complete && !anySetupFailed {
		for _, s := range m.specs {
			if inRep[s.name] == nil {
				v.add("spec-missing", "C01 C08 C12 C13 C18", "suite %s: spec %s is not in the report although every process ended normally", m.su.Name, s.name)
			}
		}
	}
	// no more groups than dead processes may be missing
	if rep != nil && !complete && !anySetupFailed && rv.procs[1] != nil && rv.procs[1].normalEnd() {
		dead, missing := 0, []string{}
		for _, pv := range rv.order {
			if !pv.normalEnd() {
				dead++
			}
		}
		undone := 0
		for _, g := range m.groups {
			none := true
			for _, s := range g.specs {
				if inRep[s.name] != nil || assigned[g] {
					none = false
				}
			}
			if none {
				undone++
				missing = append(missing, g.specs[0].name)
			}
		}
		if undone > dead && len(rv.order) > dead {
			v.add("specs-abandoned", "C14 C01", "suite %s: %d processes died, but %d groups of specs are neither run nor reported: %v", m.su.Name, dead, undone, missing)
		}
	}
}

// setupLimit is when a suite setup node may have run out of time.
func (v *view) setupLimit(m *msuite, pv *pview, c *call) int64 {
	at := never
	if v.p.Opt.Timeout > 0 {
		at, _ = v.suiteDue(pv)
	}
	if n := m.nodes[c.e.ID]; n != nil && n.NT > 0 {
		at = min(at, c.e.T+n.NT*1e6)
	}
	return at
}

var debugMatch = os.Getenv("VSIM_DEBUG") != ""

type pstate struct {
	run  *mrun
	lvl1 bool
}

func (v *view) partialProc(rv *rview, m *msuite, pv *pview, rep *RReport, inRep map[string]*RSpec, assigned map[*mgroup]bool) {
	ct := v.control(rv, pv)
	first := ct.first
	if v.p.Opt.Timeout > 0 {
		d, _ := v.suiteDue(pv)
		if first < 0 || d < first {
			first = d
		}
	}
	if ct.atMost(never) > 1 {
		return // several interrupts: only the general rules
	}
	// a process whose own spec fails with fail-fast stops by itself; the model knows that
	type obs struct {
		g     *mgroup
		ents  []ent
		calls []*call
		last  int64
		seq   int
	}
	var groups []*obs
	idx := map[*mgroup]*obs{}
	for _, c := range calls(pv) {
		s := m.byName[c.e.Spec]
		if s == nil {
			continue
		}
		g := m.groupOf[s.name]
		o := idx[g]
		if o == nil {
			o = &obs{g: g}
			idx[g] = o
			groups = append(groups, o)
		}
		o.ents = append(o.ents, ent{c.e.ID, c.e.Att})
		o.calls = append(o.calls, c)
		o.last = c.end
		if c.end < 0 {
			o.last = never
		}
	}
	// the report's order also has groups without callbacks
	if rep != nil {
		var l []*obs
		in := map[*mgroup]bool{}
		for i := range rep.SpecReports {
			sr := &rep.SpecReports[i]
			if sr.LeafNodeType != "It" || sr.ParallelProcess != pv.proc {
				continue
			}
			g := m.groupOf[sr.LeafNodeText]
			if g == nil || in[g] {
				continue
			}
			in[g] = true
			o := idx[g]
			if o == nil {
				o = &obs{g: g}
			}
			l = append(l, o)
		}
		for _, o := range groups {
			if !in[o.g] {
				l = append(l, o)
			}
		}
		groups = l
	}
	run := newMrun(m, pv.proc)
	run.slackMs = v.slack() / 1e6
	regs := map[string][]*Node{}
	after := map[string]int{} // when Ginkgo moved on from a callback
	{
		l := calls(pv)
		for i, c := range l {
			k := fmt.Sprintf("%s/%d", c.e.ID, c.e.Ex)
			after[k] = 1 << 60
			if i+1 < len(l) {
				after[k] = l[i+1].e.Seq
			}
		}
	}
	// the cleanup ran where it was registered
	dcRan := func(e Event) bool {
		for _, c := range calls(pv) {
			if c.e.ID == e.ID && c.e.Seq > e.Seq {
				if e.Spec == "" || c.e.Spec == "" {
					return e.Spec == c.e.Spec
				}
				n := m.nodes[e.S]
				return c.e.Spec == e.Spec && c.e.Att == e.Att || kindOf(e.S) == "ba" || n != nil && n.Opo
			}
		}
		return false
	}
	for _, e := range pv.ev {
		if e.Kind == "reg" && m.nodes[e.ID] != nil {
			k := fmt.Sprintf("%s/%d", e.S, e.Ex)
			if e.Seq > after[k] || !dcRan(e) && v.leakReg(m, pv, calls(pv), ct, e.ID) {
				continue // Ginkgo had given up on the callback
			}
			regs[k] = append(regs[k], m.nodes[e.ID])
		}
	}
	run.regsOf = func(id string, ex int) []*Node { return regs[fmt.Sprintf("%s/%d", id, ex)] }
	for _, c := range calls(pv) {
		if (kindOf(c.e.ID) == "bs" || kindOf(c.e.ID) == "sbs") && len(failsIn(pv, c)) > 0 && failsIn(pv, c)[0].Kind == "skip" {
			run.skipAll = true
		}
	}
	if m.bs != nil && m.bs.Kind == "sbs" && pv.proc != 1 && rv.procs[1] != nil { // skipped on process 1
		ran := false
		for _, c := range calls(rv.procs[1]) {
			if kindOf(c.e.ID) == "sbs" && len(failsIn(rv.procs[1], c)) > 0 {
				return
			}
			ran = ran || kindOf(c.e.ID) == "sbs"
		}
		if !ran && v.control(rv, rv.procs[1]).first >= 0 {
			return // interrupted before it
		}
	}
	slack := v.slack()
	match := func(o *obs, rs []*mresult, prefix bool) bool {
		var want []ent
		for _, r := range rs {
			want = append(want, r.ents...)
		}
		if prefix {
			if len(o.ents) > len(want) {
				return false
			}
			want = want[:len(o.ents)]
		}
		if i, d := diffEnts(want, o.ents); i >= 0 {
			if debugMatch {
				fmt.Println("no match:", d)
			}
			return false
		}
		if prefix || rep == nil {
			return true
		}
		for _, r := range rs {
			sr := inRep[r.name]
			if sr == nil || sr.ParallelProcess != pv.proc || sr.State != r.state {
				if debugMatch {
					fmt.Println("no match: state", r.name, r.state, r.msg)
				}
				return false
			}
			if debugMatch && sr.msg() != r.msg {
				fmt.Println("message", r.name, r.msg, sr.msg())
			}
			if failureState(r.state) && r.msgNode != "" && sr.msg() != firstMsg(r.msg) && !strings.HasSuffix(r.msg, " in ") && !strings.HasPrefix(r.msg, "Interrupted by") {
				return false
			}
		}
		return true
	}
	cands := []*mrun{run}
	for gi, o := range groups {
		assigned[o.g] = true
		dead := !pv.normalEnd() && gi == len(groups)-1
		var next []*mrun
		var example []*mresult
		tight := false
		for _, c := range cands {
			if c.level == 0 && !c.expired || first < 0 {
				r := c.clone()
				rs := r.runGroup(o.g)
				tight = tight || r.tight
				if example == nil {
					example = rs
				}
				if match(o, rs, false) || dead && match(o, rs, true) {
					next = append(next, r)
				}
			} else { // already interrupted
				r := c.clone()
				r.in = nil
				rs := r.runGroup(o.g)
				tight = tight || r.tight
				if example == nil {
					example = rs
				}
				if match(o, rs, false) || dead && match(o, rs, true) {
					next = append(next, r)
				}
				continue
			}
			if first < 0 || o.last >= 0 && len(o.ents) > 0 && o.last+slack < first {
				continue
			}
			type cut struct {
				at, mode int
				timeout  bool
			}
			var cuts []cut
			for _, to := range []bool{false, true} {
				if to && v.p.Opt.Timeout == 0 || !to && ct.first < 0 {
					continue
				}
				for i := range o.g.specs {
					cuts = append(cuts, cut{i, 2, to})
				}
				for i := 0; i <= len(o.ents); i++ {
					if !to {
						cuts = append(cuts, cut{i, 0, to})
					}
					if i < len(o.ents) {
						cuts = append(cuts, cut{i, 1, to})
					}
					cuts = append(cuts, cut{i, 3, to})
				}
			}
			for _, k := range cuts {
				if k.mode == 1 { // the callback must really have been running then
					cl := o.calls[k.at]
					if cl.end >= 0 && cl.end+slack < first {
						continue
					}
				}
				r := c.clone()
				msg := "Interrupted by User"
				if k.timeout {
					msg = "A suite timeout occurred"
				}
				r.in = &intr{at: k.at, mode: k.mode, timeout: k.timeout, msg: msg}
				r.cnt = 0
				rs := r.runGroup(o.g)
				tight = tight || r.tight
				if r.level == 0 && !r.expired {
					continue
				}
				if match(o, rs, false) || dead && match(o, rs, true) {
					r.in = nil
					dup := false
					for _, x := range next {
						dup = dup || x.level == r.level && x.expired == r.expired && x.skipAll == r.skipAll && fmt.Sprint(x.ex) == fmt.Sprint(r.ex)
					}
					if !dup {
						next = append(next, r)
					}
				}
			}
		}
		if len(next) == 0 && tight {
			return // a limit was too close to tell
		}
		if len(next) == 0 && v.p.Opt.Timeout > 0 {
			due, _ := v.suiteDue(pv)
			if ct.first >= 0 && o.last+slack >= max(due, ct.first) {
				return // both the suite's deadline and an interrupt came before it was over
			}
			for _, e := range pv.ev {
				if s := m.byName[e.Spec]; e.Kind == "ctxdone" && strings.HasPrefix(e.S, "grace period timeout") && s != nil && m.groupOf[s.name] == o.g && o.last+slack >= due {
					return // the deadline passed just before a node of the group began, which leaves it the grace period
				}
			}
			for _, s := range o.g.specs { // the same, of a node without context
				if sr := inRep[s.name]; sr != nil && sr.msg() == "A grace period timeout occurred" && o.last+slack >= due {
					return
				}
			}
		}
		if len(next) == 0 && v.leakyGroup(m, pv, ct, o.g) {
			return // a callback was given up while it was registering a cleanup
		}
		if len(next) == 0 && v.strayFail(m, pv, ct) {
			return // a helper of a callback that was given up failed during this one
		}
		if len(next) == 0 {
			var want []ent
			var states []string
			for _, r := range example {
				want = append(want, r.ents...)
				states = append(states, r.name+"="+r.state)
			}
			var got []string
			for _, s := range o.g.specs {
				if sr := inRep[s.name]; sr != nil {
					got = append(got, s.name+"="+sr.State)
				}
			}
			tags := "C02 C01"
			if o.g.root != nil {
				tags += " C03"
			}
			_, d := diffEnts(want, o.ents)
			k := ""
			if i, _ := diffEnts(want, o.ents); i >= 0 {
				for _, l := range [][]ent{want, o.ents} {
					if i < len(l) {
						tags += " " + tagsFor(m, o.g, nil, l[i].ID)
					}
				}
			} else {
				tags, k = "C06 C12 C18", "-state"
				if o.g.root != nil {
					tags += " C03"
				}
			}
			if len(ct.sig) > 0 {
				tags += " C08"
			}
			if ct.abort >= 0 {
				tags += " C13"
			}
			if v.p.Opt.Timeout > 0 || hasTimeouts(v.p) {
				tags += " C07"
			}
			for _, q := range rv.order {
				if q.died {
					tags += " C14"
					break
				}
			}
			v.add("disturbed-sequence"+k, uniq(tags), "suite %s, %v: no point of interruption explains the callbacks of the group of %s (undisturbed, %s; expected states %v, reported %v; interrupts from %.3f s, group over at %.3f s)", m.su.Name, pv, o.g.specs[0].name, d, states, got, float64(first)/1e9, float64(o.last)/1e9)
			return
		}
		if len(next) > 40 {
			next = next[:40]
		}
		cands = next
	}
}

func uniq(s string) string {
	t := map[string]bool{}
	for _, x := range strings.Fields(s) {
		t[x] = true
	}
	return keys(t)
}

// strayFail: a goroutine that a callback had started failed when Ginkgo had
// moved on from that callback.  Whatever runs then is taken to have failed.
func (v *view) strayFail(m *msuite, pv *pview, ct *ctl) bool {
	helper := map[string]bool{}
	eachAction(v.p, func(n *Node, a *Action) { helper[a.S] = helper[a.S] || a.Op == "gofail" })
	cs := calls(pv)
	for _, e := range pv.ev {
		if e.Kind != "fail" || !helper[e.S] {
			continue
		}
		for _, o := range cs {
			if o.e.ID == e.ID && o.e.Ex == e.Ex && e.T+v.slack() >= v.leftAt(m, pv, cs, o, ct) {
				return true
			}
		}
	}
	return false
}

// leakyGroup: whether some cleanup of the group may have been registered too
// late to be run in its place.
func (v *view) leakyGroup(m *msuite, pv *pview, ct *ctl, g *mgroup) bool {
	cs := calls(pv)
	for _, e := range pv.ev {
		if e.Kind != "reg" || m.byName[e.Spec] == nil {
			continue
		}
		for _, s := range g.specs {
			if s.name == e.Spec && v.leakReg(m, pv, cs, ct, e.ID) {
				return true
			}
		}
	}
	return false
}

// firstMsg is a message without what was reported after it.
func firstMsg(s string) string {
	a, _, _ := strings.Cut(s, "\x00")
	return a
}
