package lab

// The reference model: an independent, sequential statement of what a suite
// must do when no process is killed or interrupted.  It works on the plan's
// tree, knows nothing of Ginkgo's code, and predicts for every group of specs
// (a spec, or an outermost Ordered container) the exact sequence of user
// callbacks and the report.

import (
	"fmt"
	"regexp"
	"sort"

	"sim/plan"
)

type mnode struct {
	n     *Node
	level int
	ord   int // declaration order in the spec's node list
}

type mspec struct {
	name    string
	it      *Node
	chain   []*Node // containers, outermost first
	nodes   []mnode // setup, teardown and reporting nodes in scope
	pending bool
	skip    bool // pending or filtered out
	serial  bool
	focused bool
	labels  []string
	root    *Node // outermost Ordered container
	rootIdx int
}

func (s *mspec) level() int { return len(s.chain) }

type mgroup struct {
	root  *Node
	specs []*mspec
	cof   bool
}

type msuite struct {
	su       *Suite
	opt      *plan.Opt
	specs    []*mspec
	byName   map[string]*mspec
	groups   []*mgroup
	groupOf  map[string]*mgroup
	focus    bool // programmatic focus
	nodes    map[string]*Node
	bs, as   *Node
	rbs, ras []*Node
	nRun     int
}

func isKid(k string) bool { return k == "container" || k == "it" || k == "entry" || k == "table" }

func isSuiteNode(k string) bool {
	switch k {
	case "bs", "sbs", "as", "sas", "rbs", "ras":
		return true
	}
	return false
}

func buildModel(p *Plan, su *Suite) *msuite {
	m := &msuite{su: su, opt: &p.Opt, byName: map[string]*mspec{}, groupOf: map[string]*mgroup{}, nodes: map[string]*Node{}}
	var index func(ns []*Node)
	var indexBody func(b []Action)
	indexBody = func(b []Action) {
		for i := range b {
			if b[i].Dc != nil {
				m.nodes[b[i].Dc.ID] = b[i].Dc
				indexBody(b[i].Dc.Body)
			}
			indexBody(b[i].Body)
		}
	}
	index = func(ns []*Node) {
		for _, n := range ns {
			m.nodes[n.ID] = n
			indexBody(n.Body)
			indexBody(n.Body2)
			index(n.Kids)
		}
	}
	index(su.Nodes)
	var top []*Node
	for _, n := range su.Nodes {
		switch n.Kind {
		case "bs", "sbs":
			m.bs = n
		case "as", "sas":
			m.as = n
		case "rbs":
			m.rbs = append(m.rbs, n)
		case "ras":
			m.ras = append(m.ras, n)
		default:
			top = append(top, n)
		}
	}
	var walk func(ns []*Node, chain []*Node, nodes []mnode)
	walk = func(ns []*Node, chain []*Node, nodes []mnode) {
		mine := append([]mnode{}, nodes...)
		for _, n := range ns {
			if !isKid(n.Kind) {
				mine = append(mine, mnode{n, len(chain), len(mine)})
			}
		}
		for _, n := range ns {
			switch n.Kind {
			case "container", "table":
				walk(n.Kids, append(append([]*Node{}, chain...), n), mine)
			case "it", "entry":
				s := &mspec{name: n.ID, it: n, chain: chain, nodes: mine, rootIdx: -1}
				for i, c := range append(append([]*Node{}, chain...), n) {
					s.pending = s.pending || c.Pend
					s.serial = s.serial || c.Serial
					s.labels = append(s.labels, c.Labels...)
					if c.Serial {
						s.labels = append(s.labels, "Serial")
					}
					if c.Ordered && s.root == nil {
						s.root, s.rootIdx = c, i
					}
				}
				m.specs = append(m.specs, s)
				m.byName[s.name] = s
			}
		}
	}
	walk(top, nil, nil)
	m.focusPolicy(top)
	for _, s := range m.specs {
		if s.focused && !s.pending {
			m.focus = true
		}
	}
	for _, s := range m.specs {
		s.skip = s.pending || (m.focus && !s.focused) || !m.labelOK(s) || !m.textOK(s) || !m.fileOK(s)
		if !s.skip {
			m.nRun++
		}
	}
	byRoot := map[*Node]*mgroup{}
	for _, s := range m.specs {
		var g *mgroup
		if s.root != nil {
			g = byRoot[s.root]
		}
		if g == nil {
			g = &mgroup{root: s.root}
			if s.root != nil {
				g.cof = s.root.Cof
				byRoot[s.root] = g
			}
			m.groups = append(m.groups, g)
		}
		g.specs = append(g.specs, s)
		m.groupOf[s.name] = g
	}
	return m
}

// focusPolicy: a focused container with focused descendants loses its own focus.
func (m *msuite) focusPolicy(top []*Node) {
	eff := map[*Node]bool{}
	var has func(n *Node) bool
	has = func(n *Node) bool {
		if n.Pend { // focus below a pending container counts for nothing
			eff[n] = n.Focus
			return false
		}
		below := false
		for _, k := range n.Kids {
			if has(k) {
				below = true
			}
		}
		eff[n] = n.Focus && !below
		return n.Focus || below
	}
	for _, n := range top {
		has(n)
	}
	for _, s := range m.specs {
		for _, c := range s.chain {
			s.focused = s.focused || eff[c]
		}
		s.focused = s.focused || eff[s.it]
	}
}

func (m *msuite) labelOK(s *mspec) bool {
	return m.opt.LabelFilter == "" || labelMatch(m.opt.LabelFilter, append(append([]string{}, m.su.Labels...), s.labels...))
}

func (m *msuite) textOK(s *mspec) bool {
	text := "suite " + m.su.Name + " "
	for _, c := range s.chain {
		text += c.Name() + " "
	}
	text += s.it.Name()
	any := func(l []string) bool {
		for _, f := range l {
			if regexp.MustCompile(f).MatchString(text) {
				return true
			}
		}
		return false
	}
	return (len(m.opt.Focus) == 0 || any(m.opt.Focus)) && !any(m.opt.Skip)
}

func (m *msuite) fileOK(s *mspec) bool {
	any := func(l []string) bool {
		for _, f := range l {
			nodes := append(append([]*Node{}, s.chain...), s.it)
			for _, n := range s.nodes {
				nodes = append(nodes, n.n)
			}
			for _, n := range nodes {
				if fileMatch(f, m.su.Name+"_suite_test.go", n.L) {
					return true
				}
			}
		}
		return false
	}
	return (len(m.opt.FocusFile) == 0 || any(m.opt.FocusFile)) && !any(m.opt.SkipFile)
}

// ---- outcomes of one callback ----

type outcome struct {
	state string
	msg   string
	dur   int64
	regs  []*Node
	done  bool  // the body ran to its end
	late  bool  // it was told to stop
	left  bool  // Ginkgo moved on without it
	sub   *sm   // what a callback that timed out had reported
	near  int64 // how close the time of an operation came to the limit, at its closest
}

// eval runs a body in the model. limit < 0: no deadline.  A callback with a
// context is told to stop when the limit is reached, and has its grace period
// to do so.
func eval(n *Node, body []Action, spec string, att, ex, proc int, limit, grace int64) outcome {
	o := outcome{state: "passed", near: 1 << 40}
	if !n.Ctx {
		grace = 0
	}
	if limit >= 0 {
		o.near = limit // the callback may be late off the mark
	}
	var t int64
	const forever = int64(1) << 40
	close := func(at int64) {
		k := t - at
		if k < 0 {
			k = -k
		}
		o.near = min(o.near, k)
	}
	// pass lets time go by; false: Ginkgo has moved on.
	pass := func(d int64) bool {
		t += d
		if limit < 0 {
			return t < forever
		}
		close(limit)
		if t > limit {
			close(limit + grace)
		}
		return t <= limit || t <= limit+grace
	}
	var do func(body []Action, absorb bool) bool
	do = func(body []Action, absorb bool) bool {
		for i := range body {
			a := &body[i]
			if !hasN(a.At, att) || !hasN(a.Ex, ex) || !hasStr(a.Sp, spec) || (a.Proc != 0 && a.Proc != proc) {
				continue
			}
			switch a.Op {
			case "sleep":
				if !pass(a.Ms) {
					return false
				}
			case "csleep":
				if n.Ctx && limit >= 0 && t+a.Ms > limit {
					o.near = min(o.near, t+a.Ms-limit)
					if t < limit {
						t = limit
					}
					o.late = true
					return true // what follows in this body is not done
				}
				if !pass(a.Ms) {
					return false
				}
			case "waitctx":
				if !n.Ctx {
					break
				}
				if limit < 0 {
					t = forever
					return false
				}
				if t < limit {
					t = limit
				}
				o.late = true
				t += a.Ms
				close(limit + grace)
				if t > limit+grace {
					return false
				}
			case "hang":
				d := a.Ms
				if d == 0 {
					d = forever
				}
				if !pass(d) {
					return false
				}
			case "dc":
				o.regs = append(o.regs, a.Dc)
			case "by", "attach", "cattach":
				if !do(a.Body, absorb) {
					return false
				}
			case "par":
				from := t
				to := t
				for j := range a.Body {
					t = from
					if !do(a.Body[j].Body, absorb) {
						return false
					}
					to = max(to, t)
				}
				t = to
			case "gofail":
				if !pass(a.Ms) {
					return false
				}
				if o.state == "passed" {
					o.state, o.msg = "failed", a.S
				}
			case "fail", "skip", "abort", "panic":
				if o.state == "passed" {
					switch a.Op {
					case "fail":
						o.state, o.msg = "failed", a.S
					case "skip":
						o.state, o.msg = "skipped", a.S
					case "abort":
						o.state, o.msg = "aborted", a.S
					case "panic":
						if !absorb {
							o.state, o.msg = "panicked", "Test Panicked"
						}
					}
				}
				return false
			case "recover":
				do(a.Body, true) // a recorded failure stays recorded
				if t >= forever || limit >= 0 && t > limit+grace {
					return false
				}
			}
		}
		return true
	}
	o.done = do(body, false)
	o.dur = t
	if t >= forever || limit >= 0 && (t > limit || o.late) {
		if o.state != "passed" {
			o.sub = &sm{o.state, o.msg}
		}
		o.done = t < forever && t <= limit+grace
		if !o.done && limit >= 0 {
			o.dur, o.left = limit+grace, true
		}
		o.state, o.msg = "timedout", ""
	}
	return o
}

func hasN(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return len(l) == 0
}

func hasStr(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return len(l) == 0
}

// ---- running a group ----

type sm struct{ state, msg string }

type ent struct {
	ID  string
	Att int
}

func (e ent) String() string { return fmt.Sprintf("%s@%d", e.ID, e.Att) }

type mresult struct {
	name      string
	state     string
	msg       string
	msgNode   string // kind of the node the failure is attributed to
	attempts  int
	maxFlake  int
	maxMpr    int
	ents      []ent
	attStates []string // state of every attempt
	addl      []sm     // additional failures
	skipMsg   string
}

func failureState(s string) bool {
	switch s {
	case "failed", "panicked", "timedout", "interrupted", "aborted":
		return true
	}
	return false
}

// reported accounts for the outcome of a reporting node.
func (res *mresult) reported(st, msg, kind string) {
	switch {
	case !failureState(st):
	case !failureState(res.state):
		res.state, res.msg, res.msgNode = st, msg, kind
	case st == "aborted":
		res.addl = append(res.addl, sm{res.state, res.msg})
		res.state, res.msg, res.msgNode = st, msg, kind
	default:
		res.addl = append(res.addl, sm{st, msg})
	}
}

type pairKey struct {
	n *Node
	c *Node
}

type mrun struct {
	m       *msuite
	proc    int
	ex      map[string]int
	skipAll bool
	grace   int64
	left    []cleanup // cleanups waiting to run
	owed    []mnode   // once-only teardown reached by an attempt of this group and still to run

	slackMs int64
	tight   bool  // a limit was so close that either outcome is right
	in      *intr // an interruption to be assumed
	cnt     int   // callbacks so far
	level   int   // 1: interrupted
	expired bool  // the suite's time is up
	regsOf  func(id string, ex int) []*Node
}

// intr is an assumed interruption: during a callback, just before it, or when
// a spec is about to be considered.
type intr struct {
	at      int
	mode    int // 0 before callback at, 1 during callback at, 2 before spec number at of the group, 3 like 1, its goroutine had not got going yet
	timeout bool
	msg     string
}

func (r *mrun) clone() *mrun {
	c := *r
	c.ex = map[string]int{}
	for k, n := range r.ex {
		c.ex[k] = n
	}
	c.left = append([]cleanup{}, r.left...)
	c.owed = append([]mnode{}, r.owed...)
	return &c
}

func (r *mrun) strike() {
	if r.in.timeout {
		r.expired = true
	} else {
		r.level = 1
	}
}

var cleanupKind = map[string]bool{"ae": true, "jae": true, "aa": true, "dc": true, "rbe": true, "rae": true, "as": true, "sas": true, "rbs": true, "ras": true}

// step accounts for one callback about to run: is it blocked by an interrupt,
// is it the one that is interrupted?
func (r *mrun) step(n *Node) (blocked, hit, late bool) {
	if r.in != nil && r.in.mode == 0 && r.in.at == r.cnt {
		r.strike()
	}
	if r.level > 0 && !cleanupKind[n.Kind] {
		return true, false, true
	}
	late = r.level > 0 || r.expired
	if r.in != nil && (r.in.mode == 1 || r.in.mode == 3) && r.in.at == r.cnt {
		r.strike()
		hit = true
	}
	r.cnt++
	return false, hit, late
}

func (r *mrun) graceOf(n *Node) int64 {
	if n.GP != 0 {
		return max(n.GP, 0)
	}
	return r.grace
}

// lateLimit is how long a callback that starts after an interrupt may take.
func (r *mrun) lateLimit(n *Node) (int64, string) {
	if n.NT > 0 {
		return n.NT, "node"
	}
	return r.graceOf(n), "grace period"
}

// cut is the outcome of the interrupted callback.
func (r *mrun) cut(n *Node, o *outcome) {
	o.state, o.msg = "interrupted", r.in.msg
	if r.in.timeout {
		o.state = "timedout"
	}
	o.regs = nil
	if r.regsOf != nil {
		o.regs = r.regsOf(n.ID, r.ex[n.ID])
	}
}

// timedout completes the outcome of a callback that ran into a limit.
func (o *outcome) timedout(what string) {
	o.msg = "A " + what + " timeout occurred"
	if o.sub != nil {
		o.msg += "\x00" + o.sub.state + "\x00" + o.msg + " and then the following failure was recorded in the timedout node before it exited:\n" + o.sub.msg
	}
}

// lateRegs: a callback that is out of time may go on for its grace period and
// register cleanups.
func (r *mrun) lateRegs(n *Node, o *outcome) {
	if r.regsOf != nil {
		o.regs = r.regsOf(n.ID, r.ex[n.ID])
	}
}

func newMrun(m *msuite, proc int) *mrun {
	g := m.opt.Grace
	if g == 0 {
		g = 30000
	}
	return &mrun{m: m, proc: proc, ex: map[string]int{}, grace: g}
}

// oncePairs says, for every run-once node of a spec, which container it is bound to.
func oncePairs(s *mspec) map[*Node]pairKey {
	out := map[*Node]pairKey{}
	for _, x := range s.nodes {
		switch x.n.Kind {
		case "ba", "aa":
			out[x.n] = pairKey{x.n, s.chain[x.level-1]}
		case "be", "jbe", "ae", "jae":
			if !x.n.Opo {
				continue
			}
			in := false
			for i, c := range s.chain {
				in = in || c.Ordered
				if i >= x.level && in {
					out[x.n] = pairKey{x.n, c}
					break
				}
			}
		}
	}
	return out
}

type cleanup struct {
	n     *Node
	from  *Node
	level int
	all   bool // generated by a BeforeAll/AfterAll
}

func ofKind(s *mspec, kinds ...string) []mnode {
	var out []mnode
	for _, k := range kinds {
		for _, x := range s.nodes {
			if x.n.Kind == k {
				out = append(out, x)
			}
		}
	}
	return out
}

func byLevel(l []mnode, desc bool) []mnode {
	out := append([]mnode{}, l...)
	sort.SliceStable(out, func(i, j int) bool {
		if desc {
			return out[i].level > out[j].level
		}
		return out[i].level < out[j].level
	})
	return out
}

// runGroup predicts a whole group run by one process.
func (r *mrun) runGroup(g *mgroup) []*mresult {
	var out []*mresult
	tracker := map[pairKey]string{}
	succeeded, failedInOnce := true, false
	r.owed = nil
	tried := false
	var lastRun *mspec
	for _, s := range g.specs {
		if !s.skip {
			lastRun = s
		}
	}
	pairs := map[*mspec]map[*Node]pairKey{}
	for _, s := range g.specs {
		pairs[s] = oncePairs(s)
	}
	// a spec whose once-only setup was skipped will not run
	onceSkipped := func(o *mspec) bool {
		for _, x := range ofKind(o, "ba", "be", "jbe") {
			if k, ok := pairs[o][x.n]; ok && tracker[k] == "skipped" {
				return true
			}
		}
		return false
	}
	lastWith := func(s *mspec, k pairKey) bool {
		var last *mspec
		for _, o := range g.specs {
			if o != s && onceSkipped(o) {
				continue
			}
			if !o.skip {
				if pk, ok := pairs[o][k.n]; ok && pk == k {
					last = o
				}
			}
		}
		return last == s
	}
	for i, s := range g.specs {
		if r.in != nil && r.in.mode == 2 && r.in.at == i {
			r.strike()
		}
		res := &mresult{name: s.name, state: ""}
		out = append(out, res)
		res.maxFlake, res.maxMpr = 0, 0
		for _, c := range append(append([]*Node{}, s.chain...), s.it) {
			if c.Flake > 0 {
				res.maxFlake = c.Flake
			}
			if c.Mpr > 0 {
				res.maxMpr = c.Mpr
			}
		}
		// does it run at all?
		switch {
		case s.pending:
			res.state = "pending"
		case s.skip, r.skipAll, r.level > 0, r.expired:
			res.state = "skipped"
		case !succeeded && !g.cof:
			res.state, res.msg = "skipped", "Spec skipped because an earlier spec in an ordered container failed"
		case failedInOnce && g.cof:
			res.state, res.msg = "skipped", "Spec skipped because a BeforeAll node failed"
		default:
			for _, x := range append(ofKind(s, "ba"), ofKind(s, "be", "jbe")...) {
				if k, ok := pairs[s][x.n]; ok && tracker[k] == "skipped" {
					res.state, res.msg = "skipped", "Spec skipped because Skip() was called in "
				}
			}
		}
		// reporting before
		for _, x := range byLevel(ofKind(s, "rbe"), false) {
			st, msg := r.call(x.n, x.n.Body, res, s.name, 0, -1)
			res.reported(st, msg, "rbe")
		}
		failedOnceNow := false
		if res.state == "" {
			max := 1
			switch {
			case res.maxMpr > 0:
				max = res.maxMpr
			case r.m.opt.Flake > 0:
				max = r.m.opt.Flake
				res.maxFlake = max
			case res.maxFlake > 0:
				max = res.maxFlake
			}
			flaky := res.maxMpr == 0 && res.maxFlake > 0
			for a := 1; a <= max; a++ {
				res.attempts = a
				tried = true
				failedOnceNow = r.attempt(g, s, res, a, a == max || res.maxMpr == 0, a == max || res.maxMpr > 0, tracker, pairs[s], lastWith, &r.left)
				res.attStates = append(res.attStates, res.state)
				if !flaky && (failureState(res.state) || res.state == "skipped") {
					break
				}
				if flaky {
					if res.state == "passed" || res.state == "skipped" || res.state == "aborted" || res.state == "interrupted" {
						break
					}
					if a < max {
						res.addl = append(res.addl, sm{res.state, fmt.Sprintf("Failure recorded during attempt %d:\n%s", a, res.msg)})
					}
				}
			}
		}
		// whatever the specs that ran left to later specs that did not run after all
		if s == lastRun && g.root != nil && tried {
			r.settle(res, s)
		}
		for _, x := range byLevel(ofKind(s, "rae"), true) {
			st, msg := r.call(x.n, x.n.Body, res, s.name, res.attempts, -1)
			res.reported(st, msg, "rae")
		}
		if failureState(res.state) {
			succeeded = false
			failedInOnce = failedInOnce || failedOnceNow
			if r.m.opt.FailFast || res.state == "aborted" {
				r.skipAll = true
			}
		}
	}
	return out
}

// settle runs the once-only teardown that is still owed at the end of a group.
func (r *mrun) settle(res *mresult, s *mspec) {
	run := func(n *Node, level int) {
		limit := int64(-1)
		if n.NT > 0 {
			limit = n.NT
		}
		_, hit, late := r.step(n)
		r.ex[n.ID]++
		res.ents = append(res.ents, ent{n.ID, res.attempts})
		what := "node"
		if late {
			limit, what = r.lateLimit(n)
		}
		o := eval(n, n.Body, s.name, res.attempts, r.ex[n.ID], r.proc, limit, r.graceOf(n))
		r.tight = r.tight || o.near <= r.slackMs
		if o.state == "timedout" {
			o.timedout(what)
			r.lateRegs(n, &o)
		}
		if hit {
			r.cut(n, &o)
		}
		if n.Kind != "dc" {
			for _, k := range o.regs {
				r.left = append(r.left, cleanup{k, n, level, n.Kind == "aa"})
			}
		}
		if failureState(o.state) {
			if !failureState(res.state) || o.state == "aborted" {
				if failureState(res.state) {
					res.addl = append(res.addl, sm{res.state, res.msg})
				}
				res.state, res.msg, res.msgNode = o.state, o.msg, n.Kind
			} else {
				res.addl = append(res.addl, sm{o.state, o.msg})
			}
		}
	}
	var l []mnode
	for _, x := range r.owed {
		if x.n.Kind == "jae" {
			l = append(l, x)
		}
	}
	l = byLevel(l, true)
	var m []mnode
	for _, x := range r.owed {
		if x.n.Kind != "jae" {
			m = append(m, x)
		}
	}
	for _, x := range append(l, byLevel(m, true)...) {
		run(x.n, x.level)
	}
	for len(r.left) > 0 {
		todo := r.left
		r.left = nil
		for _, all := range []bool{false, true} {
			for i := len(todo) - 1; i >= 0; i-- {
				if todo[i].all == all {
					run(todo[i].n, todo[i].level)
				}
			}
		}
	}
	r.owed = nil
}

// enter records that a callback begins, unless it was given up before that.
func (r *mrun) enter(n *Node, res *mresult, att int, hit bool) {
	if hit && r.in.mode == 3 {
		return
	}
	r.ex[n.ID]++
	res.ents = append(res.ents, ent{n.ID, att})
}

// call runs one callback in the model and records its entry.
func (r *mrun) call(n *Node, body []Action, res *mresult, spec string, att int, limit int64) (string, string) {
	_, hit, late := r.step(n)
	r.enter(n, res, att, hit)
	what := ""
	if late {
		limit, what = r.lateLimit(n)
	}
	o := eval(n, body, spec, att, r.ex[n.ID], r.proc, limit, r.graceOf(n))
	r.tight = r.tight || o.near <= r.slackMs
	if o.state == "timedout" {
		o.timedout(what)
	}
	if hit {
		r.cut(n, &o)
	}
	return o.state, o.msg
}

func (r *mrun) attempt(g *mgroup, s *mspec, res *mresult, att int, finalPass, final bool, tracker map[pairKey]string, pairs map[*Node]pairKey, lastWith func(*mspec, pairKey) bool, cleanups *[]cleanup) bool {
	var elapsed int64
	spent := false // the time of the spec has run out
	run := func(n *Node, body []Action, level int) (string, string) {
		blocked, hit, late := r.step(n)
		if blocked {
			return "skipped", ""
		}
		r.enter(n, res, att, hit)
		limit, what := int64(-1), ""
		if s.it.ST > 0 {
			limit, what = s.it.ST-elapsed, "spec"
		}
		if n.NT > 0 && (limit < 0 && what == "" || limit > n.NT) {
			limit, what = n.NT, "node"
		}
		if what == "spec" && limit <= 0 { // already out of time
			if n.NT > 0 {
				limit, what = n.NT, "node"
			} else {
				limit, what = r.graceOf(n), "grace period"
			}
		}
		if late {
			limit, what = r.lateLimit(n)
		}
		if left := s.it.ST - elapsed; s.it.ST > 0 && !spent && left <= r.slackMs && left >= -r.slackMs {
			r.tight = true
		}
		o := eval(n, body, s.name, att, r.ex[n.ID], r.proc, limit, r.graceOf(n))
		r.tight = r.tight || o.near <= r.slackMs
		if o.state == "timedout" {
			if d := s.it.ST - elapsed - n.NT; s.it.ST > 0 && n.NT > 0 && !spent && d <= r.slackMs && d >= -r.slackMs {
				r.tight = true // two limits at once
			}
			spent = spent || what == "spec"
			o.timedout(what)
			r.lateRegs(n, &o)
		}
		elapsed += o.dur
		if hit {
			r.cut(n, &o)
		}
		for _, k := range o.regs {
			if n.Kind == "dc" {
				continue
			}
			*cleanups = append(*cleanups, cleanup{k, n, level, n.Kind == "ba" || n.Kind == "aa"})
		}
		return o.state, o.msg
	}
	res.state, res.msg = "passed", ""
	var term *mnode
	var termPair *pairKey
	failedOnce := false
	setup := byLevel(append(ofKind(s, "ba"), ofKind(s, "be")...), false)
	setup = append(setup, byLevel(ofKind(s, "jbe"), false)...)
	setup = append(setup, mnode{s.it, s.level(), 0})
	for i := range setup {
		x := setup[i]
		k, once := pairs[x.n]
		if once && tracker[k] == "passed" {
			continue
		}
		st, msg := run(x.n, x.n.Body, x.level)
		res.state, res.msg, res.msgNode = st, msg, x.n.Kind
		if once {
			tracker[k] = st
		}
		if st != "passed" {
			term = &setup[i]
			if once {
				kk := k
				termPair = &kk
			}
			failedOnce = once
			break
		}
	}
	ran := map[*Node]bool{}
	eligible := func(n *Node, level int, k pairKey, once bool, cleanupOf *Node) bool {
		if !once {
			return true
		}
		last := lastWith(s, k)
		switch {
		case res.state == "passed":
			return last && finalPass
		case res.state == "skipped":
			return last || (termPair != nil && term.level == level)
		case res.state == "failed" || res.state == "panicked" || res.state == "timedout":
			if final {
				return !g.cof || r.m.opt.FailFast || last || failedOnce
			}
			if termPair != nil {
				if cleanupOf != nil {
					return term.n == cleanupOf
				}
				return term.level == level
			}
		case res.state == "aborted", res.state == "interrupted":
			return true
		}
		return false
	}
	note := func(st, msg string, n *Node) {
		if res.state == "passed" || st == "aborted" {
			if failureState(res.state) {
				res.addl = append(res.addl, sm{res.state, res.msg})
			}
			res.state, res.msg, res.msgNode = st, msg, n.Kind
		} else if failureState(st) {
			res.addl = append(res.addl, sm{st, msg})
		}
	}
	withCleanups := false
	for {
		type todo struct {
			x  mnode
			cl *cleanup
		}
		var l []todo
		after := byLevel(ofKind(s, "jae"), true)
		after = append(after, byLevel(append(ofKind(s, "ae"), ofKind(s, "aa")...), true)...)
		for _, x := range after {
			if term != nil && term.n.Kind != "jbe" && x.level > term.level {
				continue
			}
			k, once := pairs[x.n]
			if !ran[x.n] && eligible(x.n, x.level, k, once, nil) {
				l = append(l, todo{x: x})
			}
		}
		if withCleanups {
			for _, all := range []bool{false, true} {
				for i := len(*cleanups) - 1; i >= 0; i-- {
					c := (*cleanups)[i]
					if c.all != all {
						continue
					}
					k, once := pairs[c.from]
					if ran[c.from] || eligible(c.n, c.level, k, once, c.from) {
						cc := c
						l = append(l, todo{mnode{c.n, c.level, 0}, &cc})
					}
				}
			}
			if len(l) == 0 {
				break
			}
		}
		for _, t := range l {
			// a failure meanwhile may mean that the spec is retried: too early for once-only teardown
			if t.cl != nil {
				k, once := pairs[t.cl.from]
				if !ran[t.cl.from] && !eligible(t.cl.n, t.cl.level, k, once, t.cl.from) {
					continue
				}
			} else {
				k, once := pairs[t.x.n]
				if !eligible(t.x.n, t.x.level, k, once, nil) {
					continue
				}
			}
			if t.cl != nil {
				for i := range *cleanups {
					if (*cleanups)[i] == *t.cl {
						*cleanups = append(append([]cleanup{}, (*cleanups)[:i]...), (*cleanups)[i+1:]...)
						break
					}
				}
			} else {
				ran[t.x.n] = true
			}
			st, msg := run(t.x.n, t.x.n.Body, t.x.level)
			note(st, msg, t.x.n)
		}
		withCleanups = true
	}
	var owed []mnode
	for _, x := range r.owed {
		if !ran[x.n] {
			owed = append(owed, x)
		}
	}
	for _, x := range append(ofKind(s, "jae"), ofKind(s, "ae", "aa")...) {
		dup := false
		for _, y := range owed {
			dup = dup || y.n == x.n
		}
		if !dup && !ran[x.n] && (term == nil || term.n.Kind == "jbe" || x.level <= term.level) {
			owed = append(owed, x)
		}
	}
	r.owed = owed
	return failedOnce
}
