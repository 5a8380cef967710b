package lab

import (
	"fmt"
	"sort"
	"strings"
)

// ctl is what happened to one process from outside its own specs.
type ctl struct {
	sig    []int64 // times SIGINT or SIGTERM was delivered
	abort  int64   // earliest time another process may have asked everybody to stop, -1 never
	first  int64   // earliest possible interrupt, -1 never
	frozen bool
}

const never = int64(1) << 62

// slack is how long the simulated machine may take to react, in ns.
func (v *view) slack() int64 {
	s := int64(300e6) + 600_000*v.p.Sched.YieldTick // every statement takes time, and a full progress report is many
	if v.p.Sched.StallProb > 0 {
		s += 5 * v.p.Sched.StallMax
	}
	if v.p.Sched.PauseSites > 0 {
		s += 15 * v.p.Sched.PauseMax
	}
	if v.p.Net.StallProb > 0 {
		s += 5 * v.p.Net.StallMax
	}
	s += 5*v.p.Net.DialMax + 40*v.p.Net.LatMax
	for _, f := range v.p.Faults {
		if f.Kind == "freeze" {
			s += f.Ms * 1e6
		}
	}
	return s
}

// stopEvent: the failure that makes other processes stop, if there is one.
func (v *view) stopTimes(rv *rview) map[int]int64 {
	out := map[int]int64{}
	for _, pv := range rv.order {
		for _, e := range pv.ev {
			if e.Kind == "abort" || v.p.Opt.FailFast && (e.Kind == "fail" || e.Kind == "panic") {
				if _, ok := out[pv.proc]; !ok {
					out[pv.proc] = e.T
				}
			}
		}
		if v.p.Opt.FailFast {
			if _, ok := out[pv.proc]; !ok && (hasTimeouts(v.p) || len(v.ctlSig(pv)) > 0) {
				out[pv.proc] = pv.start
			}
		}
	}
	return out
}

func (v *view) ctlSig(pv *pview) []int64 {
	var out []int64
	for i := range v.r.Events {
		e := &v.r.Events[i]
		if e.Kind == "fault" && (e.ID == "signal-2" || e.ID == "signal-15") && e.T >= pv.start {
			for _, s := range strings.Split(e.S, ",") {
				n := 0
				fmt.Sscan(s, &n)
				if n == pv.node {
					out = append(out, e.T)
				}
			}
		}
	}
	return out
}

func (v *view) control(rv *rview, pv *pview) *ctl {
	c := &ctl{abort: -1, first: -1}
	c.sig = v.ctlSig(pv)
	sort.Slice(c.sig, func(i, j int) bool { return c.sig[i] < c.sig[j] })
	if len(rv.order) > 1 {
		for _, t := range v.stopTimes(rv) {
			if c.abort < 0 || t < c.abort {
				c.abort = t
			}
		}
	}
	if len(c.sig) > 0 {
		c.first = c.sig[0]
	}
	if c.abort >= 0 && (c.first < 0 || c.abort < c.first) {
		c.first = c.abort
	}
	return c
}

// atLeast is the interrupt level certainly reached at time t: signals that
// came well before t and well apart from each other.
func (c *ctl) atLeast(t, slack int64) int {
	n := 0
	last := int64(-never)
	for _, s := range c.sig {
		if s+slack <= t && s-last >= slack {
			n++
			last = s
		}
	}
	if n > 3 {
		n = 3
	}
	return n
}

// atMost is the highest interrupt level possible at time t.
func (c *ctl) atMost(t int64) int {
	n := 0
	for _, s := range c.sig {
		if s <= t {
			n++
		}
	}
	// an abort by another process only interrupts what is not yet interrupted
	if c.abort >= 0 && c.abort <= t {
		k := 1
		for _, s := range c.sig {
			if s <= t && s >= c.abort {
				k++
			}
		}
		if k > n {
			n = k
		}
	}
	return n
}

func (v *view) graceOf(n *Node) int64 {
	if n != nil && n.GP != 0 {
		return max(n.GP, 0) * 1e6
	}
	if v.p.Opt.Grace > 0 {
		return v.p.Opt.Grace * 1e6
	}
	return 30e9
}

// normalEnd: the process ended by itself with a verdict.
func (pv *pview) normalEnd() bool {
	return pv.exited && !pv.died && (pv.status == 0 || pv.status == 1<<8 || pv.status == 197<<8)
}

// failsIn lists the failure events of one execution of a callback.
func failsIn(pv *pview, c *call) []Event {
	var out []Event
	for _, e := range pv.ev {
		if e.ID == c.e.ID && e.Ex == c.e.Ex && e.Seq > c.e.Seq && e.Seq < c.endSeq {
			switch e.Kind {
			case "fail", "skip", "abort", "panic":
				out = append(out, e)
			}
		}
	}
	return out
}

// stopAsked lists the times by which this process has certainly asked the
// others to stop: a spec or suite setup node called AbortSuite, or a spec
// failed with --fail-fast, and the process has reported that.
func (v *view) stopAsked(rv *rview, m *msuite, pv *pview, cs []*call, ct *ctl) []int64 {
	if len(rv.order) < 2 || len(ct.sig) > 0 || hasTimeouts(v.p) || v.p.Opt.Timeout > 0 {
		return nil
	}
	var rep *RReport
	if v.lastIter(rv) {
		rep = v.rep[m.su.Name]
	}
	failed := map[string]bool{}
	if rep != nil && v.p.Opt.FailFast {
		for i := range rep.SpecReports {
			sr := &rep.SpecReports[i]
			if sr.LeafNodeType == "It" && sr.ParallelProcess == pv.proc && failureState(sr.State) {
				failed[sr.LeafNodeText] = true
			}
		}
	}
	type span struct {
		last *call
		next int64
		stop bool
	}
	var order []*span
	idx := map[string]*span{}
	for i, c := range cs {
		key := c.e.Spec
		if key == "" {
			if kindOf(c.e.ID) != "bs" {
				continue
			}
			key = "/" + c.e.ID
		}
		s := idx[key]
		if s == nil {
			s = &span{}
			idx[key] = s
			order = append(order, s)
		}
		s.last, s.next = c, -1
		if i+1 < len(cs) {
			s.next = cs[i+1].e.T
		} else if pv.normalEnd() {
			s.next = pv.end
		}
		if l := failsIn(pv, c); len(l) > 0 && l[0].Kind == "abort" && c.how == "unwound" {
			s.stop = true
		}
		if failed[key] {
			s.stop = true
		}
	}
	var out []int64
	for _, s := range order {
		if !s.stop || s.next < 0 || s.last.end < 0 {
			continue
		}
		t := s.last.end + v.slack()
		if s.next < t {
			t = s.next
		}
		out = append(out, t)
	}
	return out
}

// stops: once one process has asked, the others start nothing new but cleanup
// and reports within the polling interval, and leave what they are running
// after its grace period.
func (v *view) stops(rv *rview, m *msuite, cs map[int][]*call, ct map[int]*ctl) {
	for _, pv := range rv.order {
		asked := v.stopAsked(rv, m, pv, cs[pv.proc], ct[pv.proc])
		if len(asked) == 0 {
			continue
		}
		t := asked[0]
		for _, x := range asked {
			if x < t {
				t = x
			}
		}
		lim := t + 500e6 + v.slack()
		for _, q := range rv.order {
			if q == pv {
				continue
			}
			v.touch("C13")
			for i, c := range cs[q.proc] {
				k := kindOf(c.e.ID)
				if cleanupKind[k] || k == "bs" || k == "sbs" {
					continue
				}
				if c.e.T > lim {
					v.add("stop-ignored", "C13 C08", "suite %s, %v: %s of %q starts %.3f s after %v had asked everybody to stop", m.su.Name, q, c.e.ID, c.e.Spec, float64(c.e.T-t)/1e9, pv)
					return
				}
				n := m.nodes[c.e.ID]
				g := int64(0)
				if n != nil && n.Ctx {
					g = v.graceOf(n)
				}
				if i+1 < len(cs[q.proc]) && c.e.Spec != "" && cs[q.proc][i+1].e.Spec == c.e.Spec && cs[q.proc][i+1].e.T > lim+g && c.end > lim+g {
					v.add("stop-ignored", "C13 C08", "suite %s, %v: %s of %q holds up the run %.3f s after %v had asked everybody to stop", m.su.Name, q, c.e.ID, c.e.Spec, float64(cs[q.proc][i+1].e.T-t)/1e9, pv)
					return
				}
			}
		}
	}
}
