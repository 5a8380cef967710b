package lab

import "strings"

// relevance notes which properties a run bears on: the situation the property
// speaks about really came up in it.
func (v *view) relevance() {
	p, r := v.p, v.r
	if p.Unfocus != nil {
		for _, f := range p.Unfocus {
			if f.Want != "" {
				v.touch("C26")
				break
			}
		}
		return
	}
	if p.Watch != nil {
		if r.FaultHit["edit-write"]+r.FaultHit["edit-remove"]+r.FaultHit["edit-rmdir"]+r.FaultHit["edit-mkdir"] > 0 {
			v.touch("C25")
		}
		return
	}
	kinds := map[string]int{} // callbacks by kind
	ops := map[string]int{}   // other events by kind
	specProcs := map[[2]int]int{}
	perSpecNodes := map[string]int{}
	serialRan, orderedOnce, retried := false, false, false
	for i := range r.Events {
		e := &r.Events[i]
		if e.Kind != "enter" {
			ops[e.Kind]++
			continue
		}
		k := kindOf(e.ID)
		kinds[k]++
		m := v.model(e.Su, 0)
		if e.Spec == "" {
			continue
		}
		perSpecNodes[e.Spec]++
		retried = retried || e.Att > 1
		if s := m.byName[e.Spec]; s != nil {
			if k == "it" || k == "entry" {
				specProcs[[2]int{e.Su, e.Proc}]++
				serialRan = serialRan || s.serial
			}
			n := m.nodes[e.ID]
			orderedOnce = orderedOnce || s.root != nil && (k == "ba" || k == "aa" || n != nil && n.Opo)
			retried = retried || s.retried(m)
		}
	}
	multi := len(specProcs) > 1
	if multi || len(perSpecNodes) > 1 {
		v.touch("C01")
	}
	for _, n := range perSpecNodes {
		if n >= 3 {
			v.touch("C02")
			break
		}
	}
	if orderedOnce {
		v.touch("C03")
	}
	if kinds["dc"] > 0 {
		v.touch("C04")
	}
	if retried {
		v.touch("C05")
	}
	if ops["fail"]+ops["panic"]+ops["abort"] > 0 {
		v.touch("C06")
	}
	if hasTimeouts(p) || p.Opt.Timeout > 0 || ops["ctxdone"]+ops["ctxseen"] > 0 {
		v.touch("C07")
	}
	if n := r.FaultHit["signal-2"] + r.FaultHit["signal-15"]; n > 0 {
		v.touch("C08")
	}
	if kinds["bs"]+kinds["sbs"] > 0 {
		v.touch("C09")
	}
	if kinds["as"]+kinds["sas"] > 0 {
		v.touch("C10")
	}
	if serialRan && p.Procs > 1 {
		v.touch("C11")
	}
	if kinds["rbs"]+kinds["ras"] > 0 {
		v.touch("C12")
	}
	if ops["abort"] > 0 || p.Opt.FailFast && ops["fail"]+ops["panic"] > 0 {
		v.touch("C13")
	}
	for _, pv := range v.nodes {
		if pv.died {
			v.touch("C14")
			break
		}
	}
	if ops["gw"]+ops["out"]+ops["err"] > 0 {
		v.touch("C15")
	}
	if r.FaultHit["signal-10"]+r.FaultHit["signal-29"] > 0 || ops["attach"] > 0 || strings.Contains(r.Stdout, "Progress Report") {
		v.touch("C16")
	}
	if ops["by"]+ops["entry"] > 0 {
		v.touch("C17")
	}
	if len(v.reps) > 0 {
		v.touch("C18")
	}
	if p.Cli && (len(p.Suites) > 1 || p.Opt.Repeat > 0 || p.Opt.UntilFails) {
		v.touch("C19")
	}
	if multi {
		v.touch("C20")
	}
	if kinds["rbe"]+kinds["rae"] > 0 {
		v.touch("C21")
	}
	if p.Cli && p.Procs > 1 && len(r.Stdout) > 0 {
		v.touch("C22")
	}
}
