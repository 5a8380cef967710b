package lab

import (
	"fmt"

	"sim/plan"
)

type Plan = plan.Plan
type Node = plan.Node
type Action = plan.Action
type Suite = plan.Suite
type Fault = plan.Fault

// Features steer the generator; percentages unless noted.
type Features struct {
	MinSpecs, MaxSpecs, MaxDepth int

	Setup       int // density of BeforeEach & co
	Report      int // ReportBeforeEach / ReportAfterEach
	Ordered     int
	Serial      int
	Cof         int
	Opo         int
	Pending     int
	Focus       int
	Flake       int
	Mpr         int
	Table       int
	Labels      int
	Cleanup     int
	Write       int
	Out         int
	By          int
	Entry       int
	Fail        int // chance that a plan has failing actions at all
	FailMax     int // how many sites
	Abort       int
	Skip        int
	GoFail      int
	Timeout     int // chance per context node of a timeout decorator
	Long        int // chance of a long sleep in a subject
	BS, SBS     int
	AS, SAS     int
	RBS, RAS    int
	SuiteFail   int // chance of a failure in a suite node
	Ctx         int
	Loop        int // chance that siblings are declared in a loop, at one code location
	Conc        int // concurrent writers / recorders
	RepFail     int // failing reporting nodes
	SetupFail   int // share of failing sites placed in setup/teardown nodes
	CleanupFail int
	ByFail      int // failures within a By
	Pause       int // pauses of the output interception
	Hold        int // child processes that keep standard output open
}

type gen struct {
	r    *rng
	f    Features
	cnt  map[string]int
	line int
	left int
	all  []*Node
	plan *Plan
	tok  int
}

func (g *gen) id(k string) string {
	g.cnt[k]++
	return fmt.Sprintf("%s%d", k, g.cnt[k])
}

func (g *gen) token() string { g.tok++; return fmt.Sprintf("t%d", g.tok) }

func (g *gen) node(kind string) *Node {
	g.line++
	n := &Node{Kind: kind, ID: g.id(kind), L: g.line}
	if g.r.p(g.f.Ctx) {
		switch kind {
		case "rbe", "rae", "rbs", "ras", "container", "table":
		default:
			n.Ctx = true
		}
	}
	g.all = append(g.all, n)
	return n
}

type scope struct {
	depth   int
	ordered bool // inside an ordered container
	direct  bool // directly in the outermost... ordered container
	serial  bool // an ancestor is serial
	flake   bool
	mpr     bool
}

// level creates the children of one container.
func (g *gen) level(sc scope) []*Node {
	var kids []*Node
	dens := g.f.Setup
	for _, k := range []string{"be", "jbe", "jae", "ae"} {
		pr := dens
		if k == "jbe" || k == "jae" {
			pr = dens / 2
		}
		for i := 0; i < 2 && g.r.p(pr); i++ {
			n := g.node(k)
			if g.r.p(g.f.Opo) {
				n.Opo = true
			}
			kids = append(kids, n)
		}
	}
	if sc.ordered {
		for _, k := range []string{"ba", "aa"} {
			for i := 0; i < 2 && g.r.p(60); i++ {
				kids = append(kids, g.node(k))
			}
		}
	}
	for _, k := range []string{"rbe", "rae"} {
		for i := 0; i < 2 && g.r.p(g.f.Report); i++ {
			kids = append(kids, g.node(k))
		}
	}
	num := g.r.between(1, 4)
	if sc.depth == 0 {
		num = g.r.between(2, 6)
	}
	for i := 0; i < num && g.left > 0; i++ {
		if sc.depth < g.f.MaxDepth && g.r.p(45) {
			if c := g.container(sc); !sc.ordered && !c.Ordered && g.r.p(g.f.Loop) {
				kids = append(kids, g.loop(c)...)
			} else {
				kids = append(kids, c)
			}
		} else if sc.depth < g.f.MaxDepth && g.r.p(g.f.Table) {
			t := g.node("table")
			t.Ctx = g.r.p(g.f.Ctx)
			m := g.r.between(1, 3)
			for j := 0; j < m; j++ {
				e := g.it(sc)
				e.Kind, e.Ctx = "entry", t.Ctx
				t.Kids = append(t.Kids, e)
			}
			kids = append(kids, t)
		} else {
			kids = append(kids, g.it(sc))
		}
	}
	// shuffle positions
	for i := len(kids) - 1; i > 0; i-- {
		j := g.r.n(i + 1)
		kids[i], kids[j] = kids[j], kids[i]
	}
	return kids
}

func (g *gen) decorate(n *Node, sc scope) {
	if g.r.p(g.f.Pending) {
		n.Pend = true
	}
	if !n.Pend && g.r.p(g.f.Focus) {
		n.Focus = true
	}
	if g.r.p(g.f.Labels) {
		n.Labels = []string{pick(g.r, "red", "green", "blue", "set:a", "Set:b", "set:c")}
		if g.r.p(20) {
			n.Labels = append(n.Labels, pick(g.r, "set:A", "set:b", "yellow"))
		}
	}
	if g.r.p(g.f.Flake) {
		n.Flake = g.r.between(1, 4)
	} else if g.r.p(g.f.Mpr) {
		n.Mpr = g.r.between(1, 4)
	}
	if (!sc.ordered || sc.serial) && g.r.p(g.f.Serial) {
		n.Serial = true
	}
}

func (g *gen) container(sc scope) *Node {
	n := g.node("container")
	g.decorate(n, sc)
	in := scope{depth: sc.depth + 1, ordered: sc.ordered, serial: sc.serial || n.Serial}
	if g.r.p(g.f.Ordered) {
		n.Ordered = true
		if !sc.ordered {
			in.serial = n.Serial
			if g.r.p(g.f.Cof) {
				n.Cof = true
			}
		}
		in.ordered = true
	}
	if n.Flake > 0 && !n.Ordered && g.r.p(50) {
		n.Flake = 0
	}
	n.Kids = g.level(in)
	return n
}

// loop makes siblings that differ in their text only, the way a loop would.
func (g *gen) loop(c *Node) []*Node {
	out := []*Node{c}
	num := g.r.between(1, 4)
	if k := len(specsOf([]*Node{c})); k > 0 { // copies of copies add up
		num = min(num, 30/k)
	}
	var clone func(n *Node, first bool) *Node
	clone = func(n *Node, first bool) *Node {
		if n.Kind != "container" && n.Kind != "it" || n.Ordered && !first {
			k := *n
			if n.Kind == "container" || n.Kind == "table" || n.Kind == "entry" {
				return nil
			}
			k.ID = g.id(n.Kind)
			g.all = append(g.all, &k)
			return &k
		}
		k := *n
		k.ID, k.Kids = g.id(n.Kind), nil
		g.all = append(g.all, &k)
		if !first {
			k.Text = n.Name()
		}
		for _, x := range n.Kids {
			if y := clone(x, false); y != nil {
				k.Kids = append(k.Kids, y)
			}
		}
		return &k
	}
	for i := 0; i < num; i++ {
		k := clone(c, true)
		g.left -= len(specsOf(k.Kids))
		out = append(out, k)
	}
	return out
}

func (g *gen) it(sc scope) *Node {
	g.left--
	n := g.node("it")
	g.decorate(n, sc)
	return n
}

func mix(a []Action, b ...Action) []Action { return append(a, b...) }

// specsBelow lists the subjects under (or, for set-up nodes, beside) a node.
func specsOf(nodes []*Node) []string {
	var out []string
	for _, n := range nodes {
		if n.Kind == "it" || n.Kind == "entry" {
			out = append(out, n.ID)
		}
		out = append(out, specsOf(n.Kids)...)
	}
	return out
}

// benign fills a body with harmless work.
func (g *gen) benign(n *Node, kind string) []Action {
	var b []Action
	r := g.r
	m := r.n(3)
	for i := 0; i < m; i++ {
		switch r.n(3) {
		case 0:
			b = mix(b, Action{Op: "sleep", Ms: int64(r.between(1, 15))})
		case 1:
			b = mix(b, Action{Op: "busy", N: r.between(1, 30)})
		case 2:
			b = mix(b, Action{Op: "mark", S: g.token()})
		}
	}
	if r.p(g.f.Write) {
		b = mix(b, Action{Op: "gw", S: g.text()})
	}
	if r.p(g.f.Out) {
		b = mix(b, Action{Op: pick(r, "out", "err"), S: g.text()})
	}
	if r.p(g.f.By) {
		a := Action{Op: "by", S: "step " + g.token()}
		if r.p(40) {
			a.Body = []Action{{Op: "sleep", Ms: int64(r.n(4))}, {Op: "gw", S: g.text()}}
		}
		b = mix(b, a)
	}
	if r.p(g.f.Entry) {
		b = mix(b, Action{Op: "entry", S: "entry " + g.token(), N: r.n(3)})
	}
	if r.p(g.f.Conc) {
		b = mix(b, g.par())
	}
	if r.p(g.f.Pause) {
		b = mix(b, g.pauses()...)
	}
	if r.p(g.f.Hold) {
		b = mix(b, Action{Op: "hold", Ms: int64(pick(r, 10, 300, 3000, 20000))})
	}
	canClean := true
	switch kind {
	case "dc", "rbe", "rae", "rbs", "ras":
		canClean = false
	}
	if canClean {
		for i := 0; i < 3 && r.p(g.f.Cleanup); i++ {
			b = mix(b, Action{Op: "dc", Dc: g.cleanup()})
		}
	}
	// random order
	for i := len(b) - 1; i > 0; i-- {
		j := r.n(i + 1)
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// par makes goroutines that write and record at the same time.
func (g *gen) par() Action {
	r := g.r
	a := Action{Op: "par"}
	var item func(deep bool) Action
	item = func(deep bool) Action {
		switch r.n(9) {
		case 0:
			return Action{Op: "busy", N: r.between(1, 30)}
		case 1:
			return Action{Op: "sleep", Ms: int64(r.n(3))}
		case 2:
			return Action{Op: pick(r, "out", "err"), S: g.text()}
		case 3, 4:
			return Action{Op: "entry", S: "entry " + g.token(), N: r.n(3)}
		case 5, 6:
			b := Action{Op: "by", S: "step " + g.token()}
			if deep && r.p(50) {
				b.Body = append(b.Body, item(false), item(false))
			}
			return b
		}
		return Action{Op: "gw", S: g.text()}
	}
	for i := r.between(2, 4); i > 0; i-- {
		b := Action{Op: "go"}
		for j := r.between(1, 5); j > 0; j-- {
			b.Body = append(b.Body, item(true))
		}
		a.Body = append(a.Body, b)
	}
	return a
}

// pauses are actions around a pause of the output interception.
func (g *gen) pauses() []Action {
	r := g.r
	var b []Action
	w := func() {
		for r.p(60) {
			b = append(b, Action{Op: pick(r, "out", "out", "err"), S: g.text()})
		}
	}
	for i := r.between(1, 2); i > 0; i-- {
		w()
		b = append(b, Action{Op: "pauseout"})
		w()
		if r.p(15) {
			b = append(b, Action{Op: "pauseout"})
		}
		if r.p(75) {
			b = append(b, Action{Op: "resumeout"})
			w()
		}
	}
	if r.p(50) {
		return []Action{{Op: "by", S: "step " + g.token(), Body: b}}
	}
	return b
}

func (g *gen) cleanup() *Node {
	g.line++
	k := &Node{Kind: "dc", ID: g.id("dc"), L: g.line}
	if g.r.p(g.f.Ctx) {
		k.Ctx = true
	}
	k.Body = g.benign(k, "dc")
	if g.r.p(g.f.CleanupFail) {
		k.Body = mix(k.Body, Action{Op: "fail", S: "fail-" + g.token()})
	}
	return k
}

func (g *gen) text() string {
	r := g.r
	switch r.n(12) {
	case 0:
		return g.token() + "\n"
	case 1: // no trailing newline
		return "<" + g.token() + ">"
	case 2: // big
		s := g.token() + ":"
		n := r.between(100, 3000)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + (i+n)%26)
			if i%97 == 96 {
				b[i] = '\n'
			}
		}
		return s + string(b) + "\n"
	case 3:
		return g.token() + " {{red}}ünïcödé{{/}} \t%d %s\n"
	}
	return "line " + g.token() + "\n"
}

func (g *gen) failAction(n *Node) Action {
	r := g.r
	a := Action{S: "fail-" + g.token()}
	switch {
	case r.p(g.f.Abort):
		a.Op = "abort"
	case r.p(g.f.Skip):
		a.Op = "skip"
	case r.p(g.f.GoFail):
		a.Op = "gofail"
		a.Ms = int64(r.n(20))
	case r.p(25):
		a.Op = "panic"
	default:
		a.Op = "fail"
	}
	return a
}

func (g *gen) attempts() []int {
	r := g.r
	switch r.n(6) {
	case 0:
		return []int{1}
	case 1:
		return []int{1, 2}
	case 2:
		return []int{2}
	case 3:
		return []int{1, 3}
	}
	return nil
}

// insertAt puts an action at a random position.
func (g *gen) insert(b []Action, a Action) []Action {
	i := g.r.n(len(b) + 1)
	out := append([]Action{}, b[:i]...)
	out = append(out, a)
	return append(out, b[i:]...)
}

// tree generates the nodes of one suite.
func (g *gen) tree() []*Node {
	f := g.f
	r := g.r
	g.left = r.between(f.MinSpecs, f.MaxSpecs)
	top := g.level(scope{})
	for tries := 0; len(specsOf(top)) == 0 && tries < 5; tries++ {
		top = append(top, g.it(scope{}))
	}
	g.fill(top)
	if r.p(3) {
		top = g.crowd(top, false)
	}
	var suite []*Node
	if r.p(f.SBS) {
		n := g.node("sbs")
		n.Data = []byte(pick(r, "", "x", "payload "+g.token(), "a\x00b\xff\xfe\n", g.bigData()))
		n.Body, n.Body2 = g.benign(n, "sbs"), g.benign(n, "sbs")
		suite = append(suite, n)
	} else if r.p(f.BS) {
		n := g.node("bs")
		n.Body = g.benign(n, "bs")
		suite = append(suite, n)
	}
	if r.p(f.SAS) {
		n := g.node("sas")
		n.Body, n.Body2 = g.benign(n, "sas"), g.benign(n, "sas")
		suite = append(suite, n)
	} else if r.p(f.AS) {
		n := g.node("as")
		n.Body = g.benign(n, "as")
		suite = append(suite, n)
	}
	for i := 0; i < 2 && r.p(f.RBS); i++ {
		n := g.node("rbs")
		n.Body = g.benign(n, "rbs")
		suite = append(suite, n)
	}
	for i := 0; i < 2 && r.p(f.RAS); i++ {
		n := g.node("ras")
		n.Body = g.benign(n, "ras")
		suite = append(suite, n)
	}
	for _, n := range suite {
		for i, pr := 0, f.SuiteFail; i < 3 && r.p(pr); i, pr = i+1, 30 {
			a := g.failAction(n)
			if a.Op == "abort" && (n.Kind == "rbs" || n.Kind == "ras") {
				a.Op = "fail"
			}
			if a.Op == "skip" && n.Kind != "bs" && n.Kind != "sbs" {
				a.Op = "fail"
			}
			if r.p(40) && g.plan != nil && g.plan.Procs > 1 && n.Kind != "rbs" && n.Kind != "ras" {
				a.Proc = r.between(1, g.plan.Procs)
			}
			if (n.Kind == "sbs" || n.Kind == "sas") && r.p(50) {
				n.Body2 = g.insert(n.Body2, a)
			} else {
				n.Body = g.insert(n.Body, a)
			}
		}
	}
	if r.p(30) {
		return append(suite, top...)
	}
	return append(top, suite...)
}

// crowd adds many setup or teardown nodes of one kind to one container
func (g *gen) crowd(kids []*Node, ordered bool) []*Node {
	for _, n := range kids {
		if n.Kind == "container" && g.r.p(50) {
			n.Kids = g.crowd(n.Kids, ordered || n.Ordered)
			return kids
		}
	}
	kind := pick(g.r, "be", "ae", "jbe", "jae", "rbe", "rae")
	if ordered && g.r.p(50) {
		kind = pick(g.r, "ba", "aa")
	}
	for i := g.r.between(12, 16); i > 0; i-- {
		j := g.r.n(len(kids) + 1)
		kids = append(kids[:j:j], append([]*Node{g.node(kind)}, kids[j:]...)...)
	}
	return kids
}

func (g *gen) bigData() string {
	b := make([]byte, g.r.between(1000, 20000))
	for i := range b {
		b[i] = byte(g.r.u64())
	}
	return string(b)
}

// fill gives every node of the tree its body.
func (g *gen) fill(nodes []*Node) {
	r := g.r
	type site struct {
		n     *Node
		specs []string
	}
	var setups, subjects, reps []site
	var walk func(ns []*Node)
	walk = func(ns []*Node) {
		sp := specsOf(ns)
		for _, n := range ns {
			switch n.Kind {
			case "container", "table":
				walk(n.Kids)
			case "it", "entry":
				n.Body = g.benign(n, n.Kind)
				if r.p(g.f.Long) {
					n.Body = g.insert(n.Body, Action{Op: "sleep", Ms: int64(r.between(50, 2500))})
				}
				subjects = append(subjects, site{n, nil})
			case "rbe", "rae":
				n.Body = g.benign(n, n.Kind)
				reps = append(reps, site{n, sp})
			default:
				n.Body = g.benign(n, n.Kind)
				setups = append(setups, site{n, sp})
			}
		}
	}
	walk(nodes)
	if r.p(g.f.Fail) {
		k := r.between(1, g.f.FailMax)
		for i := 0; i < k; i++ {
			var s site
			if len(setups) > 0 && r.p(g.f.SetupFail) {
				s = setups[r.n(len(setups))]
			} else {
				s = subjects[r.n(len(subjects))]
			}
			a := g.failAction(s.n)
			a.At = g.attempts()
			if len(s.specs) > 0 && r.p(60) {
				a.Sp = []string{s.specs[r.n(len(s.specs))]}
			}
			if r.p(g.f.ByFail) {
				b := Action{Op: "by", S: "step " + g.token(), At: a.At, Sp: a.Sp}
				if r.p(50) {
					b.Body = append(b.Body, Action{Op: "gw", S: g.text()})
				}
				a.At, a.Sp = nil, nil
				b.Body = append(b.Body, a, Action{Op: "mark", S: g.token()})
				if r.p(30) {
					b = Action{Op: "by", S: "step " + g.token(), Body: []Action{b}, At: b.At, Sp: b.Sp}
				}
				a = b
			}
			s.n.Body = g.insert(s.n.Body, a)
		}
	}
	for _, s := range reps {
		if r.p(g.f.RepFail) {
			a := Action{Op: pick(r, "fail", "panic", "fail"), S: "fail-" + g.token()}
			if len(s.specs) > 0 && r.p(70) {
				a.Sp = []string{s.specs[r.n(len(s.specs))]}
			}
			s.n.Body = g.insert(s.n.Body, a)
		}
	}
}

// sched draws a scheduling policy and network behaviour.
func (g *gen) noise(p *Plan, gentle bool) {
	r := g.r
	p.Sched.Policy = r.n(5)
	p.Sched.Preempt = pick(r, uint32(0), 20, 100, 500, 2000)
	p.Sched.TickMax = int64(pick(r, 1000, 20000, 100000))
	p.Sched.YieldTick = int64(pick(r, 50, 200, 1000))
	if !gentle && r.p(30) {
		p.Sched.StallProb = uint32(pick(r, 1, 3, 10))
		p.Sched.StallMax = int64(pick(r, 1e6, 2e7, 1e8))
	}
	if !gentle && r.p(40) {
		p.Sched.PauseSites = uint32(pick(r, 60, 200, 600))
		if p.Sched.PauseIn = uint32(pick(r, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5)); p.Sched.PauseIn != 0 {
			p.Sched.PauseSites = uint32(pick(r, 5, 15, 40))
		}
		p.Sched.PauseMax = int64(pick(r, 5e6, 6e7, 3e8))
	}
	for _, f := range p.Faults { // where interrupts land is what matters then
		if f.Kind == "signal" && r.p(70) {
			p.Sched.PauseSites, p.Sched.PauseMax, p.Sched.PauseIn = 0, 0, 0
			break
		}
	}
	p.Net.LatMin = int64(pick(r, 1000, 50000, 500000))
	p.Net.LatMax = p.Net.LatMin * int64(pick(r, 1, 3, 20))
	if !gentle && r.p(30) {
		p.Net.StallProb = pick(r, 1, 5)
		p.Net.StallMax = int64(pick(r, 5e6, 2e8))
	}
	if r.p(40) {
		p.Net.SegMax = pick(r, 1, 7, 100, 1400)
	}
	if r.p(20) {
		p.Net.DialMax = int64(pick(r, 1e6, 5e7))
	}
	p.HorizonMs = 900_000
	p.MaxSteps = 60_000_000
	if r.p(50) {
		p.Protocol = "HTTP"
	}
}
