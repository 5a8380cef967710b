package lab

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Finding is one broken promise seen in a run.
type Finding struct {
	Props []string
	Class string // stable name of what went wrong, used when shrinking
	Msg   string
	Known string // name of the known finding this is an instance of
}

func (f Finding) has(prop string) bool {
	for _, p := range f.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// pview is what one simulated process did.
type pview struct {
	node, proc, suite int
	iter              int
	ev                []Event
	start, end        int64
	exited            bool
	status            int
	startSeq, endSeq  int
	died              bool // killed, crashed or exited early by plan
}

func (p *pview) String() string { return fmt.Sprintf("process %d (kernel node %d)", p.proc, p.node) }

// rview is one run of one suite.
type rview struct {
	suite int
	iter  int
	procs map[int]*pview
	order []*pview
}

type view struct {
	p        *Plan
	r        *Result
	runs     []*rview
	nodes    map[int]*pview
	rep      map[string]*RReport // by suite name, last iteration
	reps     []RReport
	repErr   string
	repPath  map[string]string
	models   map[[2]int]*msuite // by suite and iteration
	rootExit int64
	touched  map[string]int
	facts    map[string]int // comparisons made, per oracle
	out      []Finding
}

// touch notes that facts of these properties were evaluated.
func (v *view) touch(props string) {
	for _, p := range strings.Fields(props) {
		v.touched[p]++
	}
}

// fact counts one comparison an oracle made.
func (v *view) fact(name string) { v.facts[name]++ }

func (v *view) add(class, props string, f string, a ...any) {
	v.out = append(v.out, Finding{Props: strings.Fields(props), Class: class, Msg: fmt.Sprintf(f, a...)})
}

func (v *view) known(name, props string, f string, a ...any) {
	v.out = append(v.out, Finding{Props: strings.Fields(props), Class: "known:" + name, Msg: fmt.Sprintf(f, a...), Known: name})
}

func newView(p *Plan, r *Result) *view {
	v := &view{p: p, r: r, nodes: map[int]*pview{}, rep: map[string]*RReport{}, repPath: map[string]string{}, rootExit: -1, touched: map[string]int{}, facts: map[string]int{}}
	v.models = map[[2]int]*msuite{}
	info := map[int]int{}
	for i, pi := range r.Procs {
		info[pi.Node] = i
	}
	count := map[[2]int]int{}
	late := map[string]Event{}
	for i := range r.Events {
		e := r.Events[i]
		if e.Kind == "proc-start" {
			k := [2]int{e.Su, e.Proc}
			it := count[k]
			count[k]++
			pv := &pview{node: e.Node, proc: e.Proc, suite: e.Su, iter: it, start: e.T, startSeq: e.Seq, endSeq: 1 << 60, end: -1}
			if j, ok := info[e.Node]; ok {
				pv.exited, pv.status = r.Procs[j].Exited, r.Procs[j].Status
				if pv.exited {
					pv.end = r.Procs[j].End
					pv.died = pv.status&0x7f != 0 // by a signal
				}
			}
			v.nodes[e.Node] = pv
			var rv *rview
			for _, x := range v.runs {
				if x.suite == e.Su && x.iter == it {
					rv = x
				}
			}
			if rv == nil {
				rv = &rview{suite: e.Su, iter: it, procs: map[int]*pview{}}
				v.runs = append(v.runs, rv)
			}
			rv.procs[e.Proc] = pv
			rv.order = append(rv.order, pv)
			continue
		}
		if e.Kind == "root-exit" {
			v.rootExit = e.T
		}
		if pv := v.nodes[e.Node]; pv != nil && e.Node != 0 {
			if e.Kind == "proc-exit" {
				pv.endSeq = e.Seq
				continue
			}
			// a reporting node that was given up on before its callback got to
			// run may find that the next spec is current
			if k := kindOf(e.ID); k == "rbe" || k == "rae" {
				key := fmt.Sprintf("%d %s %d", e.Node, e.ID, e.Ex)
				if name, st, ok := strings.Cut(e.S, "="); ok && e.Kind == "enter" && e.Spec != "" && name != e.Spec {
					_, att, _ := strings.Cut(st, "|")
					n := 0
					fmt.Sscan(att, &n)
					late[key] = Event{Spec: name, Att: n}
				}
				if o, ok := late[key]; ok && (e.Kind == "enter" || e.Kind == "exit") {
					e.Spec, e.Att = o.Spec, o.Att
				}
			}
			pv.ev = append(pv.ev, e)
			if e.Kind == "crash" || e.Kind == "os-exit" {
				pv.died = true
			}
		}
		if e.Kind == "fault" && e.ID == "kill" {
			for _, s := range strings.Split(e.S, ",") {
				n := 0
				fmt.Sscan(s, &n)
				if pv := v.nodes[n]; pv != nil {
					pv.died = true
				}
			}
		}
	}
	for _, rv := range v.runs {
		sort.Slice(rv.order, func(i, j int) bool { return rv.order[i].proc < rv.order[j].proc })
	}
	v.loadReports()
	return v
}

func (v *view) loadReports() {
	if !v.p.Opt.JSON {
		return
	}
	var names []string
	for n := range v.r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !strings.HasSuffix(n, "r.json") {
			continue
		}
		reps, err := parseReports(v.r.Files[n])
		if err != nil {
			v.repErr = fmt.Sprintf("%s: %v", n, err)
			continue
		}
		for i := range reps {
			name := reps[i].SuitePath
			if j := strings.LastIndex(name, "/"); j >= 0 {
				name = name[j+1:]
			}
			v.reps = append(v.reps, reps[i])
			v.rep[name] = &reps[i]
			v.repPath[name] = n
		}
	}
	// of a suite that another one kept from running in the last iteration
	last := strings.Count(v.r.Stdout, "This was attempt ") // which no suite may have run in
	for _, rv := range v.runs {
		last = max(last, rv.iter)
	}
	for _, rv := range v.runs {
		if name := v.p.Suites[rv.suite].Name; rv.iter < last && v.lastIter(rv) && v.rep[name] != nil && len(v.rep[name].SpecReports) == 0 && len(v.rep[name].SpecialSuiteFailureReasons) > 0 {
			delete(v.rep, name)
		}
	}
}

// disturbed says whether processes die, are interrupted, or stop early.
func disturbed(p *Plan) bool {
	for _, f := range p.Faults {
		switch f.Kind {
		case "kill", "disk":
			return true
		case "signal":
			if f.Sig != 10 && f.Sig != 29 {
				return true
			}
		}
	}
	d := false
	eachAction(p, func(n *Node, a *Action) {
		if a.Op == "exit" || a.Op == "crash" {
			d = true
		}
		if a.Op == "abort" && p.Procs > 1 {
			d = true
		}
	})
	if p.Opt.FailFast && p.Procs > 1 {
		d = true
	}
	return d || p.Opt.Timeout > 0
}

func eachNode(p *Plan, f func(su *Suite, n *Node)) {
	var body func(su *Suite, b []Action)
	body = func(su *Suite, b []Action) {
		for i := range b {
			if b[i].Dc != nil {
				f(su, b[i].Dc)
				body(su, b[i].Dc.Body)
			}
			body(su, b[i].Body)
		}
	}
	var walk func(su *Suite, ns []*Node)
	walk = func(su *Suite, ns []*Node) {
		for _, n := range ns {
			f(su, n)
			body(su, n.Body)
			body(su, n.Body2)
			walk(su, n.Kids)
		}
	}
	for _, su := range p.Suites {
		walk(su, su.Nodes)
	}
}

func eachAction(p *Plan, f func(n *Node, a *Action)) {
	var body func(n *Node, b []Action)
	body = func(n *Node, b []Action) {
		for i := range b {
			f(n, &b[i])
			body(n, b[i].Body)
		}
	}
	eachNode(p, func(su *Suite, n *Node) {
		body(n, n.Body)
		body(n, n.Body2)
	})
}

// needsLimits: the plan has bodies that only a timeout ends, or timeouts at all.
func hasTimeouts(p *Plan) bool {
	d := false
	eachNode(p, func(su *Suite, n *Node) { d = d || n.NT > 0 || n.ST > 0 })
	return d
}

// stray: something of that kind happened.
func (v *view) stray(kind string) bool {
	for i := range v.r.Events {
		if v.r.Events[i].Kind == kind {
			return true
		}
	}
	return false
}

// model is what suite i is in its k-th run.
func (v *view) model(i, k int) *msuite {
	m := v.models[[2]int{i, k}]
	if m == nil {
		m = buildModel(v.p, inIteration(v.p.Suites[i], k))
		v.models[[2]int{i, k}] = m
	}
	return m
}

// inIteration leaves out what the suite does only in later runs.
func inIteration(su *Suite, k int) *Suite {
	gated := false
	var scan func(b []Action)
	scan = func(b []Action) {
		for i := range b {
			gated = gated || b[i].It > k+1
			scan(b[i].Body)
		}
	}
	each(su.Nodes, func(n *Node) { scan(n.Body); scan(n.Body2) })
	if !gated {
		return su
	}
	var drop func(b []Action) []Action
	drop = func(b []Action) []Action {
		var out []Action
		for _, a := range b {
			if a.It <= k+1 {
				a.Body = drop(a.Body)
				out = append(out, a)
			}
		}
		return out
	}
	raw, _ := json.Marshal(su)
	c := &Suite{}
	json.Unmarshal(raw, c)
	each(c.Nodes, func(n *Node) { n.Body, n.Body2 = drop(n.Body), drop(n.Body2) })
	return c
}
