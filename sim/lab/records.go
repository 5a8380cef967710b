package lab

import (
	"fmt"
	"strings"
)

// The oracles of this file compare what a process recorded while it ran a spec
// or a suite node with that spec's entry in the final report, in every run that
// leaves a report behind.

var suiteKindType = map[string]string{"bs": "BeforeSuite", "sbs": "SynchronizedBeforeSuite", "as": "AfterSuite", "sas": "SynchronizedAfterSuite", "rbs": "ReportBeforeSuite", "ras": "ReportAfterSuite", "dc": "DeferCleanup (Suite)"}

// unit is everything that belongs to one entry of the report.
type unit struct {
	pv    *pview
	name  string // spec, or "" for a suite node
	typ   string
	calls []*call
	ev    []Event
	sr    *RSpec
	sure  bool // nothing that Ginkgo had given up on was involved
}

func (u *unit) String() string {
	if u.name != "" {
		return fmt.Sprintf("spec %s on process %d", u.name, u.pv.proc)
	}
	return fmt.Sprintf("%s (%s) on process %d", u.calls[0].e.ID, u.typ, u.pv.proc)
}

// units pairs the history of each process with the report's entries.
func (v *view) units(rv *rview, m *msuite, rep *RReport) []*unit {
	var out []*unit
	type key struct {
		proc int
		typ  string
	}
	specRep := map[string]*RSpec{}
	suiteRep := map[key][]*RSpec{}
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		if sr.LeafNodeType == "It" {
			specRep[sr.LeafNodeText] = sr
		} else {
			k := key{sr.ParallelProcess, sr.LeafNodeType}
			suiteRep[k] = append(suiteRep[k], sr)
		}
	}
	for _, pv := range rv.order {
		cs := calls(pv)
		ct := v.control(rv, pv)
		idx := map[string]*unit{}
		of := map[string]*unit{} // by execution
		var mine []*unit
		for i, c := range cs {
			var u *unit
			if c.e.Spec != "" {
				u = idx[c.e.Spec]
				if u == nil {
					u = &unit{pv: pv, name: c.e.Spec, typ: "It", sr: specRep[c.e.Spec], sure: true}
					if u.sr != nil && u.sr.ParallelProcess != pv.proc {
						u.sr = nil
					}
					idx[c.e.Spec] = u
					mine = append(mine, u)
				}
			} else {
				k := kindOf(c.e.ID)
				if (k == "sbs" || k == "sas") && i > 0 && cs[i-1].e.ID == c.e.ID {
					u = mine[len(mine)-1]
				} else {
					u = &unit{pv: pv, typ: suiteKindType[k], sure: true}
					mine = append(mine, u)
				}
			}
			u.calls = append(u.calls, c)
			of[fmt.Sprintf("%s/%d", c.e.ID, c.e.Ex)] = u
			if c.end < 0 || c.end >= v.leftAt(m, pv, cs, c, ct) {
				u.sure = false
			}
			if i+1 < len(cs) && cs[i+1].e.Seq < c.endSeq {
				u.sure = false
			}
		}
		// whatever Ginkgo has given up on may write into whatever comes next
		for i, c := range cs {
			if c.end >= 0 && c.end < v.leftAt(m, pv, cs, c, ct) && !(i+1 < len(cs) && cs[i+1].e.Seq < c.endSeq) {
				continue
			}
			for _, d := range cs[i+1:] {
				of[fmt.Sprintf("%s/%d", d.e.ID, d.e.Ex)].sure = false
				if d.e.Seq > c.endSeq { // its entry was open a little earlier
					break
				}
			}
		}
		for _, e := range pv.ev {
			if u := of[fmt.Sprintf("%s/%d", e.ID, e.Ex)]; u != nil {
				u.ev = append(u.ev, e)
			}
		}
		cnt := map[string]int{}
		for _, u := range mine {
			if u.name != "" {
				continue
			}
			cnt[u.typ]++
		}
		seen := map[string]int{}
		for _, u := range mine {
			if u.name != "" {
				continue
			}
			l := suiteRep[key{pv.proc, u.typ}]
			if len(l) == cnt[u.typ] {
				u.sr = l[seen[u.typ]]
			}
			seen[u.typ]++
		}
		out = append(out, mine...)
	}
	return out
}

func (v *view) records(rv *rview) {
	m := v.model(rv.suite, rv.iter)
	if !v.lastIter(rv) || len(v.rep) == 0 {
		return
	}
	rep := v.rep[m.su.Name]
	if rep == nil {
		return
	}
	byBody, par := map[string]bool{}, map[string]bool{}
	eachAction(v.p, func(n *Node, a *Action) {
		if a.Op == "by" && len(a.Body) > 0 {
			byBody[a.S] = true
		}
		if a.Op == "par" {
			par[n.ID] = true
		}
	})
	jumps := v.r.FaultHit["clockjump"] > 0
	us := v.units(rv, m, rep)
	for _, u := range us {
		v.timeoutReports(m, u, v.control(rv, u.pv), attStarts(calls(u.pv)))
		if u.sr == nil || !u.sure {
			continue
		}
		sr := u.sr
		// what was written and recorded
		want, gw, out := v.did(m, u, byBody)
		v.fact("GinkgoWriter output")
		if len(gw) > 0 {
			v.fact("GinkgoWriter output (some)")
		}
		placed, why := place(sr.CapturedGinkgoWriterOutput, gw)
		if !placed {
			v.add("gw-output", "C15", "suite %s: %v: what its report has as written to GinkgoWriter is not what was written: %s", m.su.Name, u, why)
		}
		v.stdOutput(m, u, out)
		// the timeline
		var got []titem
		conc := false
		for _, c := range u.calls {
			conc = conc || par[c.e.ID]
		}
		for i, re := range sr.ReportEntries {
			got = append(got, titem{order: re.TimelineLocation.Order, off: re.TimelineLocation.Offset, what: "entry " + re.Name, t: re.TimelineLocation.Time})
			if i > 0 && !conc && sr.ReportEntries[i-1].TimelineLocation.Order >= re.TimelineLocation.Order {
				v.add("entry-order", "C17", "suite %s: report entry %q of %v is listed out of order", m.su.Name, re.Name, u)
			}
			if val, shown := "value-"+re.Name, ""; re.Visibility != "never" && re.Value != nil {
				if shown = re.Value.Representation; shown != val {
					v.add("entry-value", "C17 C18", "suite %s: report entry %q of %v has the value %q", m.su.Name, re.Name, u, shown)
				}
			} else if re.Visibility != "never" {
				v.add("entry-value", "C17 C18", "suite %s: report entry %q of %v has no value", m.su.Name, re.Name, u)
			}
		}
		v.events(m, u, byBody, conc, &got)
		v.timeline(m, u, want, got, gw, placed)
		if !jumps {
			for i := 1; i < len(got); i++ {
				if got[i].t.Before(got[i-1].t) {
					v.add("timeline-time", "C17", "suite %s: %v: %s has an earlier time than %s before it", m.su.Name, u, got[i].what, got[i-1].what)
					break
				}
			}
		}
		v.accounts(m, u)
	}
	if !jumps {
		v.times(rv, m, rep)
	}
	v.reportVerdict(rv, m, rep)
}

// stdOutput: what was written to the standard streams of a parallel process.
func (v *view) stdOutput(m *msuite, u *unit, out []*chunk) {
	sr := u.sr
	text := sr.CapturedStdOutErr
	if v.p.Procs < 2 || v.p.Opt.Intercept == "none" {
		if text != "" {
			v.add("std-output", "C15", "suite %s: the report of %v has %q as captured output, nothing captures any", m.su.Name, u, clip(text))
		}
		return
	}
	ok, why := v.stdFits(u, out, text, 0)
	if !ok && u.sr.IsInOrderedContainer { // some of it may have run at the end of its group
		for i := range u.ev {
			e := &u.ev[i]
			if k := kindOf(e.ID); e.Kind == "enter" && e.Att == u.ev[len(u.ev)-1].Att && (k == "ae" || k == "aa" || k == "jae" || k == "dc") {
				if fits, _ := v.stdFits(u, out, text, e.Seq); fits {
					ok = true
					break
				}
			}
		}
	}
	if !ok {
		v.add("std-output", "C15", "suite %s: %v: %s", m.su.Name, u, why)
	}
}

func (v *view) stdFits(u *unit, out []*chunk, text string, split int) (bool, string) {
	cs, sure := v.captured(u, out, split)
	// a copying goroutine that stands still for a second is taken for a
	// process that holds on to stdout
	slow := v.r.Pauses > 0 || v.p.Sched.StallMax >= 1e8 || v.r.FaultHit["freeze"] > 0 || v.r.FaultHit["slow"] > 0
	if !sure || slow && strings.Contains(text, bailout) {
		return true, ""
	}
	if split == 0 {
		v.fact("stdout and stderr")
		if len(cs) > 0 {
			v.fact("stdout and stderr (some)")
		}
	}
	for _, c := range cs {
		if c.what == "bailout" { // the message, to its last line
			v.fact("output kept by a child process")
			i := strings.Index(text, bailout)
			const end = "issues/851\n"
			k := -1
			if i >= 0 {
				k = strings.Index(text[i:], end)
			}
			if k < 0 {
				return false, fmt.Sprintf("a child process kept its output open, the report has %q", clip(text))
			}
			text = text[:i] + "\x00bailout" + text[i+k+len(end):]
			c.text = "\x00bailout"
		}
	}
	ok, why := place(text, cs)
	return ok, "what its report has as written to stdout and stderr is not what was written: " + why
}

func (v *view) lineOf(m *msuite, id string) int {
	if n := m.nodes[id]; n != nil {
		return n.L
	}
	return -1
}

// events: starts and ends match.
func (v *view) events(m *msuite, u *unit, byBody map[string]bool, conc bool, got *[]titem) {
	var open []REvent
	last := 0
	for _, ev := range u.sr.SpecEvents {
		if !conc && ev.TimelineLocation.Order <= last {
			v.add("event-order", "C17", "suite %s: %s event %q of %v is listed out of order", m.su.Name, ev.SpecEventType, ev.Message, u)
		}
		last = ev.TimelineLocation.Order
		it := titem{order: ev.TimelineLocation.Order, off: ev.TimelineLocation.Offset, t: ev.TimelineLocation.Time}
		switch ev.SpecEventType {
		case "Node":
			open = append(open, ev)
			it.what = fmt.Sprintf("start of the node at line %d", ev.CodeLocation.LineNumber)
			*got = append(*got, it)
		case "By":
			if byBody[ev.Message] {
				open = append(open, ev)
			}
			it.what = "step " + ev.Message
			*got = append(*got, it)
		case "Node (End)", "By (End)":
			if len(open) == 0 {
				v.add("event-pairs", "C17", "suite %s: %v: %s event %q ends nothing", m.su.Name, u, ev.SpecEventType, ev.Message)
				return
			}
			k := len(open) - 1
			for conc && k > 0 && (open[k].SpecEventType+" (End)" != ev.SpecEventType || open[k].Message != ev.Message) {
				k--
			}
			o := open[k]
			open = append(open[:k:k], open[k+1:]...)
			if o.SpecEventType+" (End)" != ev.SpecEventType || o.Message != ev.Message || o.CodeLocation.LineNumber != ev.CodeLocation.LineNumber {
				v.add("event-pairs", "C17", "suite %s: %v: %s event %q ends %s %q", m.su.Name, u, ev.SpecEventType, ev.Message, o.SpecEventType, o.Message)
				return
			}
			v.fact("event pairs")
			if d := ev.TimelineLocation.Time.Sub(o.TimelineLocation.Time); d != ev.Duration && v.r.FaultHit["clockjump"] == 0 {
				v.add("event-duration", "C17", "suite %s: %v: %s event %q says it took %v, its times are %v apart", m.su.Name, u, ev.SpecEventType, ev.Message, ev.Duration, d)
			}
			it.what = "end of step " + ev.Message
			if ev.SpecEventType == "Node (End)" {
				it.what = fmt.Sprintf("end of the node at line %d", ev.CodeLocation.LineNumber)
			}
			*got = append(*got, it)
		case "Retry", "Repeat":
		default:
			v.add("event-kind", "C17", "suite %s: %v has an event of kind %q", m.su.Name, u, ev.SpecEventType)
		}
	}
	if len(open) > 0 {
		v.add("event-pairs", "C17", "suite %s: %v: %s event %q never ends", m.su.Name, u, open[0].SpecEventType, open[0].Message)
	}
	n := 0
	for _, ev := range u.sr.SpecEvents {
		if ev.SpecEventType == "Retry" || ev.SpecEventType == "Repeat" {
			n++
		}
	}
	if u.name != "" && n != max(u.sr.NumAttempts-1, 0) {
		v.add("event-retries", "C05 C17", "suite %s: %v has %d attempts and %d retry events", m.su.Name, u, u.sr.NumAttempts, n)
	}
}

// allMessages is every failure message an entry of the report carries.
func (s *RSpec) allMessages() []string {
	var out []string
	var f func(x *RFailure)
	f = func(x *RFailure) {
		if x == nil {
			return
		}
		out = append(out, x.Message+"\n"+x.ForwardedPanic)
		if x.AdditionalFailure != nil {
			f(&x.AdditionalFailure.Failure)
		}
	}
	f(s.Failure)
	for i := range s.AdditionalFailures {
		f(&s.AdditionalFailures[i].Failure)
	}
	return out
}

// accounts: the first failure of every callback is in the report of its spec,
// and every failure in there happened.
func (v *view) accounts(m *msuite, u *unit) {
	msgs := u.sr.allMessages()
	any := false
	absorbed := map[string]bool{}
	eachAction(v.p, func(n *Node, a *Action) {
		if a.Op == "recover" {
			for _, b := range a.Body {
				absorbed[b.S] = true
			}
		}
	})
	happened := map[string]bool{}
	for _, c := range u.calls {
		first := true
		for _, e := range failsIn(u.pv, c) {
			if e.Kind == "skip" {
				first = false
				continue
			}
			if e.Kind == "panic" && absorbed[e.S] {
				continue
			}
			any = true
			happened[e.S] = true
			if !first {
				continue
			}
			first = false
			v.fact("failures found in reports")
			found := false
			for _, s := range msgs {
				found = found || strings.Contains(s, e.S)
			}
			if !found && !v.stray("prpanic") {
				t := "C06"
				if reportKind(kindOf(c.e.ID)) {
					t += " C21"
				}
				if kindOf(c.e.ID) == "dc" {
					t += " C04"
				}
				v.add("failure-lost", t, "suite %s: %v: failure %q of %s is not in its report (%s: %q)", m.su.Name, u, e.S, c.e.ID, u.sr.State, msgs)
			}
		}
	}
	if !any {
		for i := range u.pv.ev {
			any = any || u.pv.ev[i].Kind == "prpanic"
		}
	}
	switch u.sr.State {
	case "failed", "panicked", "aborted":
		if !any && u.name != "" {
			v.add("failure-invented", "C06", "suite %s: %v is reported %s (%q), but nothing in it failed", m.su.Name, u, u.sr.State, u.sr.msg())
		}
	case "timedout":
		if v.p.Opt.Timeout == 0 && !v.timedUnit(m, u) {
			v.add("timeout-invented", "C06 C07", "suite %s: %v is reported timed out (%q), but no limit applies to it", m.su.Name, u, u.sr.msg())
		}
	}
}

func (v *view) timedUnit(m *msuite, u *unit) bool {
	if hasTimeouts(v.p) {
		return true
	}
	for i := range v.r.Events { // after an interrupt the grace period is a limit
		if strings.HasPrefix(v.r.Events[i].ID, "signal") || v.r.Events[i].Kind == "abort" {
			return true
		}
	}
	return v.p.Opt.FailFast
}

// times: nothing ends before it starts, and the specs of a process follow each other.
func (v *view) times(rv *rview, m *msuite, rep *RReport) {
	last := map[int]*RSpec{}
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		name := sr.LeafNodeText
		if name == "" {
			name = sr.LeafNodeType
		}
		if sr.RunTime < 0 || !sr.EndTime.IsZero() && sr.EndTime.Before(sr.StartTime) {
			v.add("negative-time", "C17", "suite %s: %s starts %v, ends %v and takes %v", m.su.Name, name, sr.StartTime, sr.EndTime, sr.RunTime)
		}
		if sr.EndTime.IsZero() || sr.StartTime.IsZero() || sr.NumAttempts == 0 && sr.LeafNodeType == "It" {
			continue
		}
		v.fact("entry times")
		if d := sr.EndTime.Sub(sr.StartTime); d != sr.RunTime {
			v.add("run-time", "C17", "suite %s: %s starts %v, ends %v and takes %v", m.su.Name, name, sr.StartTime, sr.EndTime, sr.RunTime)
		}
		if l := last[sr.ParallelProcess]; l != nil && sr.StartTime.Before(l.EndTime) {
			v.add("spec-windows", "C17 C02", "suite %s: on process %d %s starts before %s has ended", m.su.Name, sr.ParallelProcess, name, l.LeafNodeText)
		}
		last[sr.ParallelProcess] = sr
	}
}

// reportVerdict: whatever failed makes the suite and the command fail, also
// when processes die or are interrupted.
func (v *view) reportVerdict(rv *rview, m *msuite, rep *RReport) {
	bad := ""
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		if failureState(sr.State) {
			bad = sr.LeafNodeType + " " + sr.LeafNodeText + " is " + sr.State
		}
	}
	v.fact("suite verdicts")
	if bad != "" && rep.SuiteSucceeded {
		v.add("suite-verdict", "C06 C12 C18", "suite %s: the report says the suite succeeded, but %s", m.su.Name, bad)
	}
	if (bad != "" || !rep.SuiteSucceeded) && v.rootExit >= 0 {
		if st, done := v.rootStatus(); done && st == 0 {
			v.add("exit-zero", "C06 C18", "suite %s failed (%s), but the command exits with 0", m.su.Name, bad)
		}
	}
}
