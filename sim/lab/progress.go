package lab

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// The oracles of this file are about progress reports: each request and each
// poll that is due gives one, about the callback that runs, in the report of
// its spec and on the console.

const (
	asked  = "You've requested a progress report:"
	polled = "Automatically polling progress:"
	epoch  = int64(1900000001e9) // of the simulated wall clock
)

var style = regexp.MustCompile(`\{\{[^}]*\}\}`)

func unstyled(s string) string { return style.ReplaceAllString(s, "") }

func (pr *RProgress) at() int64 { return pr.TimelineLocation.Time.UnixNano() - epoch }

// reporter is an attached progress reporter and when it was there.
type reporter struct {
	node, text   string
	ex, kind     int
	ctx          bool
	on, onDone   int64
	off, offDone int64
	seq          int
}

func (v *view) reporters(pv *pview) []*reporter {
	var out []*reporter
	find := func(e *Event) *reporter {
		for i := len(out) - 1; i >= 0; i-- {
			if r := out[i]; r.node == e.ID && r.ex == e.Ex && fmt.Sprintf("%s:%d:%s", r.op(), r.kind, r.text) == e.S {
				return r
			}
		}
		return nil
	}
	for i := range pv.ev {
		e := &pv.ev[i]
		switch e.Kind {
		case "attach":
			r := &reporter{node: e.ID, ex: e.Ex, on: e.T, onDone: never, off: never, offDone: never, seq: e.Seq}
			f := strings.SplitN(e.S, ":", 3)
			r.ctx = f[0] == "cattach"
			fmt.Sscan(f[1], &r.kind)
			r.text = f[2]
			out = append(out, r)
		case "attach!":
			find(e).onDone = e.T
		case "detach":
			find(e).off = e.T
		case "detach!":
			find(e).offDone = e.T
		}
	}
	return out
}

func (r *reporter) op() string {
	if r.ctx {
		return "cattach"
	}
	return "attach"
}

// actionMs: how long the action with that text takes.
func (v *view) actionMs(text string) int64 {
	ms := int64(0)
	eachAction(v.p, func(n *Node, a *Action) {
		if a.S == text {
			ms = a.Ms
		}
	})
	return ms
}

func hanging(p *Plan) bool {
	h := false
	eachAction(p, func(n *Node, a *Action) { h = h || (a.Op == "attach" || a.Op == "cattach") && (a.N == 1 || a.N == 4) })
	return h
}

func (v *view) progress(rv *rview) {
	m := v.model(rv.suite, rv.iter)
	if !v.lastIter(rv) || v.r.FaultHit["clockjump"] > 0 {
		return
	}
	rep := v.rep[m.su.Name]
	if rep == nil {
		return
	}
	slack := v.slack()
	if hanging(v.p) { // they may delay each report by five seconds
		slack += 6e9
	}
	us := v.units(rv, m, rep)
	for _, pv := range rv.order {
		var all []*RProgress
		for i := range rep.SpecReports {
			if sr := &rep.SpecReports[i]; sr.ParallelProcess == pv.proc {
				for j := range sr.ProgressReports {
					all = append(all, &sr.ProgressReports[j])
				}
			}
		}
		var sent []int64
		for i := range v.r.Events {
			if e := &v.r.Events[i]; e.Kind == "fault" && e.ID == "signal-10" && hasStr(strings.Split(e.S, ","), fmt.Sprint(pv.node)) {
				sent = append(sent, e.T)
			}
		}
		// no more than were asked for
		n := 0
		for _, pr := range all {
			if strings.Contains(pr.Message, asked) {
				n++
				due := 0
				for _, t := range sent {
					if t <= pr.at() {
						due++
					}
				}
				if n > due {
					v.add("progress-unasked", "C16", "suite %s: process %d gives %d progress reports up to %.3f s, %d were requested", m.su.Name, pv.proc, n, float64(pr.at())/1e9, due)
				}
			}
		}
		rs := v.reporters(pv)
		for _, u := range us {
			if u.pv != pv || u.sr == nil || !u.sure {
				continue
			}
			for _, c := range u.calls {
				if c.end < 0 {
					continue
				}
				for _, t := range sent { // a report follows
					wait := slack // one that hangs may hold up this one and the one before
					if hanging(v.p) {
						wait += 6e9
					}
					if t < c.e.T || t+wait > c.end {
						continue
					}
					v.fact("progress requests")
					ok := false
					for i := range u.sr.ProgressReports {
						pr := &u.sr.ProgressReports[i]
						ok = ok || strings.Contains(pr.Message, asked) && pr.at() >= t && pr.at() <= t+wait && pr.CurrentNodeLocation.LineNumber == v.lineOf(m, c.e.ID)
					}
					if !ok {
						v.add("progress-missing", "C16", "suite %s: %s is running in %v when a progress report is requested at %.3f s, its report has none", m.su.Name, c.e.ID, u, float64(t)/1e9)
					}
				}
			}
			v.polls(m, u, slack)
			for i := range u.sr.ProgressReports {
				pr := &u.sr.ProgressReports[i]
				if strings.Contains(pr.Message, asked) || strings.Contains(pr.Message, polled) {
					v.about(m, u, pr, rs, slack)
				}
			}
		}
	}
	v.progressConsole(rv, m, rep)
}

// pollOf: after how long, and how often, a node is polled, in ns.
func (v *view) pollOf(n *Node) (after, every int64) {
	after, every = v.p.Opt.PollAfter, 10000
	if v.p.Opt.PollInterval > 0 {
		every = v.p.Opt.PollInterval
	}
	if n.PA != 0 {
		after = max(n.PA, 0)
	}
	if n.PI != 0 {
		every = max(n.PI, 0)
	}
	return after * 1e6, every * 1e6
}

// polls: the reports of a callback come at its poll interval.
func (v *view) polls(m *msuite, u *unit, slack int64) {
	of := map[*call][]*RProgress{}
	for i := range u.sr.ProgressReports {
		pr := &u.sr.ProgressReports[i]
		if !strings.Contains(pr.Message, polled) {
			continue
		}
		start := pr.CurrentNodeStartTime.UnixNano() - epoch
		var best *call
		for _, c := range u.calls {
			if v.lineOf(m, c.e.ID) == pr.CurrentNodeLocation.LineNumber && c.e.T >= start && (best == nil || c.e.T < best.e.T) {
				best = c
			}
		}
		if best == nil {
			v.add("progress-poll", "C16", "suite %s: %v has a progress report about the node at line %d, started at %.3f s; no such callback ran", m.su.Name, u, pr.CurrentNodeLocation.LineNumber, float64(start)/1e9)
			return
		}
		of[best] = append(of[best], pr)
	}
	for _, c := range u.calls {
		n := m.nodes[c.e.ID]
		if n == nil || c.end < 0 || c.end >= never {
			continue
		}
		after, every := v.pollOf(n)
		got := of[c]
		v.fact("polled callbacks")
		if len(got) > 0 {
			v.fact("polled callbacks (some reports)")
		}
		if after == 0 || every == 0 && len(got) > 1 {
			if len(got) > 0 {
				v.add("progress-poll", "C16", "suite %s: %v: %d progress reports poll %s, it is to be polled after %d ms and every %d ms", m.su.Name, u, len(got), c.e.ID, after/1e6, every/1e6)
			}
			continue
		}
		for i, pr := range got {
			start := pr.CurrentNodeStartTime.UnixNano() - epoch
			if due := start + after + int64(i)*every; pr.at() < due {
				v.add("progress-poll", "C16", "suite %s: %v: progress report %d of %s, started at %.3f s, is made at %.3f s; it is to be polled after %d ms and every %d ms", m.su.Name, u, i+1, c.e.ID, float64(start)/1e9, float64(pr.at())/1e9, after/1e6, every/1e6)
				break
			}
		}
		due := c.e.T + after + slack
		k := 0
		for ; due < c.end && (every > 0 || k == 0); due += every + slack {
			k++
		}
		if len(got) < k {
			v.add("progress-poll", "C16", "suite %s: %v: %s runs for %.3f s and is to be polled after %d ms and every %d ms, there are %d progress reports", m.su.Name, u, c.e.ID, float64(c.end-c.e.T)/1e9, after/1e6, every/1e6, len(got))
		}
		last := c.e.T + after
		for i, pr := range got { // not late either
			if pr.at() > last+slack {
				v.add("progress-poll", "C16", "suite %s: %v: progress report %d of %s is made at %.3f s, it was due at %.3f s", m.su.Name, u, i+1, c.e.ID, float64(pr.at())/1e9, float64(last)/1e9)
				break
			}
			last = pr.at() + every
			if hanging(v.p) {
				last += 6e9
			}
		}
	}
}

// about: a report speaks of the callback that runs, and has what the attached
// reporters say.
func (v *view) about(m *msuite, u *unit, pr *RProgress, rs []*reporter, slack int64) {
	t := pr.at()
	var c *call
	for _, x := range u.calls {
		if x.e.T <= t && x.end >= t {
			c = x
		}
	}
	if c == nil { // between two callbacks
		return
	}
	v.fact("progress reports")
	if pr.ParallelProcess != u.pv.proc || pr.RunningInParallel != (v.p.Procs > 1) {
		v.add("progress-about", "C16", "suite %s: %v has a progress report that says it is from process %d, parallel: %v", m.su.Name, u, pr.ParallelProcess, pr.RunningInParallel)
	}
	if pr.LeafNodeText != u.sr.RawText {
		v.add("progress-about", "C16", "suite %s: %v has a progress report about %q", m.su.Name, u, pr.LeafNodeText)
	}
	line := v.lineOf(m, c.e.ID)
	// what runs may have ended while the report is put together
	if t+slack < c.end && pr.CurrentNodeLocation.LineNumber != line {
		v.add("progress-about", "C16", "suite %s: %v has a progress report of %.3f s about the node at line %d, %s at line %d is running", m.su.Name, u, float64(t)/1e9, pr.CurrentNodeLocation.LineNumber, c.e.ID, line)
		return
	}
	if pr.CurrentNodeLocation.LineNumber != line {
		return
	}
	// what the attached reporters said
	type said struct {
		text string
		must bool
	}
	var want []said
	total := int64(0)
	stop := false // whatever comes after one that hangs may be missing
	for _, ctx := range []bool{true, false} {
		for _, r := range rs {
			if r.ctx != ctx || r.on > t+slack || r.offDone < t || ctx && (r.node != c.e.ID || r.ex != c.e.Ex) {
				continue
			}
			sure := r.onDone < t && r.off > t+slack
			switch r.kind {
			case 1:
				stop = true
			case 2:
				want = append(want, said{"failed to query attached progress reporter", sure && !stop})
			case 4:
				total += v.actionMs(r.text)
				stop = stop || total > 4500
				want = append(want, said{r.text, sure && !stop})
			default:
				want = append(want, said{r.text, sure && !stop})
			}
		}
	}
	if len(want) > 0 {
		v.fact("attached reporters")
	}
	i := 0
	for _, w := range want {
		if !w.must {
			continue
		}
		for i < len(pr.AdditionalReports) && pr.AdditionalReports[i] != w.text {
			i++
		}
		if i == len(pr.AdditionalReports) {
			v.add("progress-attached", "C16", "suite %s: %v: the progress report of %.3f s has %q from attached reporters, %q is missing", m.su.Name, u, float64(t)/1e9, pr.AdditionalReports, w.text)
			return
		}
		i++
	}
	i = 0
	for _, w := range want {
		if i < len(pr.AdditionalReports) && pr.AdditionalReports[i] == w.text {
			i++
		}
	}
	if i < len(pr.AdditionalReports) {
		v.add("progress-attached", "C16", "suite %s: %v: the progress report of %.3f s has %q from attached reporters, which none of those attached says in that place", m.su.Name, u, float64(t)/1e9, pr.AdditionalReports[i])
	}
}

// progressConsole: whatever is in a report was shown.
func (v *view) progressConsole(rv *rview, m *msuite, rep *RReport) {
	if len(v.runs) > 1 || !v.whole(rv) || v.torn() {
		return
	}
	if _, done := v.rootStatus(); !done {
		return
	}
	var prs []*RProgress
	for i := range rep.SpecReports {
		sr := &rep.SpecReports[i]
		for j := range sr.ProgressReports {
			prs = append(prs, &sr.ProgressReports[j])
		}
	}
	if v.p.Procs < 2 {
		for _, what := range []string{asked, polled} {
			n := 0
			for _, pr := range prs {
				if pv := rv.procs[1]; strings.Contains(pr.Message, what) && pr.at()+v.slack() <= pv.end {
					n++
				}
			}
			if k := strings.Count(v.r.Stdout, what); k < n {
				v.add("progress-console", "C16", "suite %s: the reports have %d progress reports saying %q, the console shows %d", m.su.Name, n, what, k)
			}
		}
		return
	}
	if !v.p.Cli {
		return
	}
	var blocks [][]string
	all := lines(v.r.Stdout)
	for i, l := range all {
		k := strings.Index(l, "Progress Report for Ginkgo Process #") // forwarded output may precede it
		if k < 0 {
			continue
		}
		j := i + 1
		for j < len(all) && all[j] != bar {
			j++
		}
		blocks = append(blocks, append([]string{l[k:]}, all[i+1:j]...))
	}
	used := make([]bool, len(blocks))
	sort.SliceStable(prs, func(i, j int) bool { return prs[i].at() < prs[j].at() })
	for _, pr := range prs {
		v.fact("progress reports on the console")
		want := []string{fmt.Sprintf("Progress Report for Ginkgo Process #%d", pr.ParallelProcess)}
		want = append(want, lines(unstyled(pr.Message))...)
		if t := pr.CurrentNodeType; t != "" && !strings.Contains(t, "INVALID") {
			want = append(want, pr.CurrentNodeLocation.String())
		}
		if pr.CurrentStepText != "" {
			want = append(want, "At [By Step] "+strings.TrimSpace(pr.CurrentStepText))
		}
		for _, a := range pr.AdditionalReports {
			want = append(want, lines(a)...)
		}
		ok := false
		for i, b := range blocks {
			if used[i] {
				continue
			}
			k := 0
			for _, l := range b {
				if k < len(want) && strings.HasPrefix(l, want[k]) {
					k++
				}
			}
			if k == len(want) {
				ok, used[i] = true, true
				break
			}
		}
		// the process may be gone before it has sent its last one
		if pv := rv.procs[pr.ParallelProcess]; pv != nil && pr.at()+v.slack() > pv.end {
			ok = true
		}
		if !ok {
			v.add("progress-console", "C16 C22", "suite %s: the console does not show the progress report of process %d at %.3f s: %q", m.su.Name, pr.ParallelProcess, float64(pr.at())/1e9, clip(strings.Join(want, " / ")))
		}
	}
	sent := 0
	for i := range v.r.Events {
		if e := &v.r.Events[i]; e.Kind == "fault" && strings.HasPrefix(e.ID, "signal-") {
			sent += len(strings.Split(e.S, ","))
		}
	}
	extra := 0
	for i := range used {
		if !used[i] && !strings.Contains(strings.Join(blocks[i], "\n"), "Autogenerated") {
			extra++
		}
	}
	if extra > sent {
		v.add("progress-console", "C16 C22", "suite %s: the console shows %d progress reports that are in no report, %d were requested", m.su.Name, extra, sent)
	}
}

// GenProgress: progress reports on request, by polling, and with attached
// reporters of all kinds.
func GenProgress(seed uint64) *Plan {
	r := newRng(seed ^ 0x9406)
	f := coreFeatures(r)
	f.MaxSpecs, f.Conc, f.By = 8, pick(r, 0, 8), 20
	f.Fail = 40
	g, p := newGen(seed, f)
	p.Cli = r.p(75)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 2, 2, 3, 4)
	}
	g.coreOpts(p, r)
	if r.p(50) {
		p.Opt.PollAfter = int64(r.between(50, pick(r, 500, 3000)))
	}
	if r.p(50) {
		p.Opt.PollInterval = int64(r.between(50, pick(r, 500, 3000)))
	}
	g.suite(p, r)
	g.pace(p, r, 40, pick(r, 600, 4000, 15000))
	kinds := pick(r, []int{0}, []int{0, 3, 5}, []int{0, 3, 5, 4}, []int{0, 1, 3}, []int{0, 2})
	attached := pick(r, 0, 10, 30)
	var ids []string
	each(p.Suites[0].Nodes, func(n *Node) {
		if n.Kind == "container" || n.Kind == "table" {
			return
		}
		ids = append(ids, n.ID)
		if n.Pend && len(n.Body) == 0 {
			return
		}
		if r.p(20) {
			n.PA = int64(pick(r, -1, r.between(20, 3000), r.between(20, 300)))
		}
		if r.p(20) {
			n.PI = int64(pick(r, -1, r.between(20, 3000), r.between(20, 300)))
		}
		for k := 0; k < 4 && r.p(attached+15*min(k, 1)*min(attached, 1)); k++ {
			a := Action{Op: "attach", N: kinds[r.n(len(kinds))], S: "attached " + g.token()}
			if a.N == 2 && n.Kind == "rbs" { // it fails, then the suite does not run
				a.N = 0
			}
			if a.N == 4 {
				a.Ms = int64(pick(r, 1, 100, 2000, 7000))
			}
			if n.Ctx && r.p(50) {
				a.Op = "cattach"
			}
			body := &n.Body
			if i := r.n(len(*body) + 1); i < len(*body) && ((*body)[i].Op == "attach" || (*body)[i].Op == "cattach") && len((*body)[i].Body) > 0 {
				body = &(*body)[i].Body
			}
			if r.p(60) {
				a.Body = *body
				if len(a.Body) == 0 || r.p(30) {
					a.Body = []Action{{Op: "sleep", Ms: int64(r.between(1, 500))}}
					*body = g.insert(*body, a)
				} else {
					*body = []Action{a}
				}
			} else {
				*body = g.insert(*body, a)
			}
		}
	})
	for k := pick(r, 0, 1, 2, 4); k > 0 && len(ids) > 0; k-- {
		f := Fault{Kind: "signal", Sig: 10, Proc: pick(r, -2, -2, -1)}
		if r.p(80) {
			f.After, f.At = pick(r, "enter:", "enter:", "enter:", "exit:")+ids[r.n(len(ids))], int64(r.n(pick(r, 1, 20, 500, 3000)))
		} else {
			f.Proc, f.At = -1, int64(r.between(1, pick(r, 200, 3000)))
		}
		p.Faults = append(p.Faults, f)
		for r.p(40) {
			f.At += int64(r.n(pick(r, 2, 20, 500)))
			p.Faults = append(p.Faults, f)
		}
	}
	g.noise(p, false)
	p.HorizonMs = 3 * 3600_000
	return p
}
