package lab

func newGen(seed uint64, f Features) (*gen, *Plan) {
	p := &Plan{Seed: seed}
	g := &gen{r: newRng(seed), f: f, cnt: map[string]int{}, plan: p}
	return g, p
}

func coreFeatures(r *rng) Features {
	f := Features{MinSpecs: 1, MaxSpecs: 14, MaxDepth: 3, Setup: 45, Report: 20, Ordered: 35, Serial: 8, Cof: 35, Opo: 25, Pending: 6, Focus: 0, Flake: 8, Mpr: 6, Table: 8, Labels: 10,
		Cleanup: 25, Write: 20, Out: 10, By: 10, Entry: 10, Fail: 60, FailMax: 5, Abort: 0, Skip: 12, GoFail: 12, BS: 35, SBS: 25, AS: 35, SAS: 25, RBS: 15, RAS: 25, SuiteFail: 6, Ctx: 25, RepFail: 10, SetupFail: 55, CleanupFail: 6}
	if r.p(8) {
		f.Focus = 12
	}
	if r.p(10) {
		f.MaxSpecs = 40
	}
	return f
}

// GenCore makes an undisturbed run of a random suite.
func GenCore(seed uint64) *Plan {
	r := newRng(seed ^ 0xc0de)
	g, p := newGen(seed, coreFeatures(r))
	p.Cli = r.p(75)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 2, 2, 3, 4, 5)
	}
	g.coreOpts(p, r)
	g.suite(p, r)
	g.noise(p, false)
	return p
}

func (g *gen) coreOpts(p *Plan, r *rng) {
	p.Opt.Seed = int64(r.between(1, 1000))
	p.Opt.RandAll = r.p(40)
	p.Opt.JSON = true
	p.Opt.Verbosity = pick(r, "", "", "v", "vv", "succinct")
	if r.p(10) {
		p.Opt.Flake = r.between(1, 3)
	}
	if p.Procs == 1 && r.p(20) {
		p.Opt.FailFast = true
	}
	if r.p(12) {
		p.Opt.LabelFilter = labelExpr(r, 0)
	}
	for i := 0; i < 3 && r.p(6); i++ {
		p.Opt.Skip = append(p.Opt.Skip, textFilter(r))
	}
	for i := 0; i < 3 && r.p(6); i++ {
		p.Opt.Focus = append(p.Opt.Focus, textFilter(r))
	}
	p.Opt.FailPending = r.p(5)
	p.Opt.FailEmpty = r.p(5)
}

func (g *gen) suite(p *Plan, r *rng) *Suite {
	s := &Suite{Name: "a", CompileMs: int64(r.n(50))}
	s.Nodes = g.tree()
	p.Suites = []*Suite{s}
	g.fileFilters(p, r, s)
	return s
}

// each visits every node below the given ones, cleanups included.
func each(nodes []*Node, f func(n *Node)) {
	var body func(b []Action)
	body = func(b []Action) {
		for i := range b {
			if b[i].Dc != nil {
				f(b[i].Dc)
				body(b[i].Dc.Body)
			}
			body(b[i].Body)
		}
	}
	for _, n := range nodes {
		f(n)
		body(n.Body)
		body(n.Body2)
		each(n.Kids, f)
	}
}

// pace makes bodies take long enough for things to happen while they run.
func (g *gen) pace(p *Plan, r *rng, pct int, max int) {
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			switch n.Kind {
			case "container", "table":
				return
			}
			if !r.p(pct) {
				return
			}
			a := Action{Op: "sleep", Ms: int64(r.between(1, max))}
			if n.Ctx {
				switch r.n(4) {
				case 0, 1:
					a.Op = "csleep"
				}
			}
			n.Body = g.insert(n.Body, a)
			if n.Body2 != nil && r.p(50) {
				n.Body2 = g.insert(n.Body2, a)
			}
		})
	}
}

// GenOrdered: Ordered containers, their once-only nodes, and retries.
func GenOrdered(seed uint64) *Plan {
	r := newRng(seed ^ 0x04de4ed)
	f := coreFeatures(r)
	f.MinSpecs, f.MaxSpecs, f.Focus = 2, pick(r, 4, 6, 9), 0
	f.Ordered, f.Setup, f.Opo, f.Cof = 75, pick(r, 30, 60), pick(r, 20, 50), 40
	f.Flake, f.Mpr = pick(r, 0, 10, 30), pick(r, 0, 0, 20)
	f.Report, f.RepFail = pick(r, 0, 10, 25), 5
	f.Fail, f.FailMax, f.Skip, f.SetupFail = 95, 4, pick(r, 5, 30), 65
	f.Cleanup, f.CleanupFail = pick(r, 10, 45), pick(r, 0, 6, 20)
	f.Write, f.By, f.Entry, f.Out, f.Abort = 5, 3, 3, 3, pick(r, 0, 0, 5)
	f.BS, f.SBS, f.AS, f.SAS, f.RBS, f.RAS = 8, 4, 8, 4, 3, 3
	g, p := newGen(seed, f)
	p.Procs = 1
	if p.Cli = r.p(40); p.Cli {
		p.Procs = pick(r, 1, 1, 2, 2, 3)
	}
	if p.Procs > 1 {
		g.f.Abort = 0
	}
	g.coreOpts(p, r)
	g.suite(p, r)
	if r.p(30) {
		p.Suites[0].Nodes = topOrdered(g, p.Suites[0].Nodes)
	}
	g.noise(p, r.p(60))
	return p
}

// topOrdered puts everything into one more Ordered container.
func topOrdered(g *gen, nodes []*Node) []*Node {
	var out, kids []*Node
	for _, n := range nodes {
		if isSuiteNode(n.Kind) {
			out = append(out, n)
		} else {
			kids = append(kids, n)
		}
	}
	ok := true
	each(kids, func(n *Node) { // what an Ordered container must not have inside
		ok = ok && !n.Serial && !n.Cof
	})
	if !ok {
		return nodes
	}
	c := g.node("container")
	c.Ordered, c.Cof, c.Kids = true, g.r.p(30), kids
	if g.r.p(30) {
		c.Flake = g.r.between(2, 3)
	}
	return append(out, c)
}

// GenStop: fail-fast and AbortSuite in parallel runs.
func GenStop(seed uint64) *Plan {
	r := newRng(seed ^ 0x570b)
	f := coreFeatures(r)
	f.MinSpecs, f.MaxSpecs, f.Fail, f.FailMax, f.Focus = 4, 20, 90, 3, 0
	f.Ctx = 50
	ff := r.p(60)
	if !ff {
		f.Abort = 70
		f.FailMax = 2
	}
	g, p := newGen(seed, f)
	p.Cli = true
	p.Procs = pick(r, 1, 2, 2, 3, 4, 5)
	g.coreOpts(p, r)
	p.Opt.FailFast = ff
	noFilters(&p.Opt)
	if r.p(50) {
		p.Opt.Grace = int64(r.between(100, 3000))
	}
	g.suite(p, r)
	g.pace(p, r, 40, pick(r, 300, 1500, 4000))
	g.noise(p, r.p(60))
	return p
}

// GenShuffle: processes declare siblings in different orders, as suites that
// range over a map do, and siblings may differ in their texts only.
func GenShuffle(seed uint64) *Plan {
	r := newRng(seed ^ 0x5f1e)
	f := coreFeatures(r)
	f.Loop, f.MinSpecs, f.Serial = 50, 4, pick(r, 0, 8, 25)
	g, p := newGen(seed, f)
	p.Cli = true
	p.Procs = pick(r, 2, 2, 3, 4, 5)
	g.coreOpts(p, r)
	s := g.suite(p, r)
	s.Shuf = r.p(80)
	if r.p(30) {
		g.pace(p, r, 30, 200)
	}
	g.noise(p, false)
	return p
}

// GenOrder: the order in which specs are taken under one seed, and under many.
func GenOrder(seed uint64) *Plan {
	r := newRng(seed ^ 0x0def)
	f := coreFeatures(r)
	f.Loop, f.MinSpecs, f.Serial = pick(r, 0, 30), 5, pick(r, 0, 0, 8, 25)
	f.Ordered = pick(r, 5, 25)
	g, p := newGen(seed, f)
	p.Cli = r.p(85)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 2, 2, 3, 4, 5)
	}
	g.coreOpts(p, r)
	p.Opt.FailFast = false
	if r.p(80) {
		noFilters(&p.Opt)
	}
	if r.p(50) {
		p.Opt.RandAll = !p.Opt.RandAll
	}
	if p.Cli && r.p(30) {
		p.Opt.Seed = 0
	}
	s := g.suite(p, r)
	s.Shuf = r.p(50)
	p.Vary, p.Profile = r.p(12), "order"
	if r.p(30) {
		g.pace(p, r, 30, 200)
	}
	g.noise(p, false)
	return p
}

// GenSync: suite setup, suite teardown and suite reports of parallel runs.
func GenSync(seed uint64) *Plan {
	r := newRng(seed ^ 0x51c)
	f := coreFeatures(r)
	f.MaxSpecs, f.MaxDepth, f.Setup, f.Fail = 6, 1, 20, 20
	f.SBS, f.SAS, f.RBS, f.RAS, f.Serial, f.Cleanup = 80, 70, 30, 45, 20, 40
	f.SuiteFail = pick(r, 0, 0, 8, 30)
	g, p := newGen(seed, f)
	p.Cli = true
	p.Procs = pick(r, 2, 2, 3, 4, 5)
	g.coreOpts(p, r)
	noFilters(&p.Opt)
	g.suite(p, r)
	if r.p(12) {
		// the setup of the suite ends badly
		for _, n := range p.Suites[0].Nodes {
			if n.Kind == "sbs" || n.Kind == "bs" {
				a := Action{Op: pick(r, "skip", "skip", "fail", "panic", "abort"), S: "fail-" + g.token()}
				if n.Kind == "sbs" && r.p(30) {
					n.Body2 = g.insert(n.Body2, a)
				} else {
					n.Body = g.insert(n.Body, a)
				}
			}
		}
	}
	g.pace(p, r, 40, pick(r, 60, 400, 1500))
	g.noise(p, false)
	g.deaths(p, r, pick(r, 0, 0, 40, 100))
	if r.p(15) {
		p.Faults = append(p.Faults, Fault{Kind: "freeze", At: int64(r.n(1500)), Proc: r.between(0, p.Procs), Ms: int64(r.between(50, 3000))})
	}
	return p
}

// deaths makes processes die: killed, crashed, or exiting early.
func (g *gen) deaths(p *Plan, r *rng, pct int) {
	if !r.p(pct) {
		return
	}
	var bodies []*Node
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			if n.Kind != "container" && n.Kind != "table" {
				bodies = append(bodies, n)
			}
		})
	}
	k := pick(r, 1, 1, 1, 2, 3)
	for i := 0; i < k; i++ {
		proc := r.between(1, p.Procs)
		if proc == 1 && r.p(60) {
			proc = p.Procs
		}
		switch r.n(5) {
		case 0:
			n := bodies[r.n(len(bodies))]
			a := Action{Op: "exit", N: pick(r, 1, 1, 2, 3), Proc: proc}
			if n.Body2 != nil && r.p(50) {
				n.Body2 = g.insert(n.Body2, a)
			} else {
				n.Body = g.insert(n.Body, a)
			}
		case 1:
			n := bodies[r.n(len(bodies))]
			n.Body = g.insert(n.Body, Action{Op: "crash", S: "crash-" + g.token(), Proc: proc})
		case 2:
			n := bodies[r.n(len(bodies))]
			p.Faults = append(p.Faults, Fault{Kind: "kill", After: pick(r, "enter:", "exit:") + n.ID, At: int64(r.n(pick(r, 1, 20, 300))), Proc: proc, Suite: r.n(len(p.Suites))})
		default:
			p.Faults = append(p.Faults, Fault{Kind: "kill", At: int64(r.between(1, pick(r, 50, 400, 2500))), Proc: proc, Suite: r.n(len(p.Suites))})
		}
	}
}

// GenDeath: parallel processes die at any moment.
func GenDeath(seed uint64) *Plan {
	r := newRng(seed ^ 0xdead)
	f := coreFeatures(r)
	f.Focus, f.Serial, f.MinSpecs = 0, 15, 2
	g, p := newGen(seed, f)
	p.Cli = true
	p.Procs = pick(r, 2, 2, 3, 4, 5)
	g.coreOpts(p, r)
	noFilters(&p.Opt)
	g.suite(p, r)
	g.pace(p, r, 40, pick(r, 40, 300, 1500))
	g.noise(p, false)
	g.deaths(p, r, 100)
	return p
}

// GenSignal: one to three interrupts, of some or all processes.
func GenSignal(seed uint64) *Plan {
	r := newRng(seed ^ 0x51609)
	f := coreFeatures(r)
	f.Focus, f.Ctx, f.MinSpecs = 0, 55, 2
	f.Cleanup = 35
	g, p := newGen(seed, f)
	p.Cli = r.p(85)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 1, 2, 3, 4)
	}
	g.coreOpts(p, r)
	noFilters(&p.Opt)
	if r.p(80) {
		p.Opt.Grace = int64(r.between(100, 3000))
	}
	g.suite(p, r)
	g.pace(p, r, 50, pick(r, 300, 1500, 5000))
	var ids []string
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			if n.Ctx && n.Kind != "table" && !(n.Pend && len(n.Body) == 0) && r.p(15) {
				n.GP = int64(r.between(50, 4000))
				if r.p(10) {
					n.GP = -1
				}
			}
			if n.Kind != "container" && n.Kind != "table" {
				ids = append(ids, n.ID)
				if r.p(8) { // a callback that does not end by itself
					a := Action{Op: "hang"}
					if n.Ctx && r.p(70) {
						a = Action{Op: "waitctx", Ms: int64(r.n(1500))}
					}
					n.Body = g.insert(n.Body, a)
				}
			}
		})
	}
	if r.p(30) { // teardown that takes longer than anybody wants to wait
		for _, s := range p.Suites {
			each(s.Nodes, func(n *Node) {
				if (cleanupKind[n.Kind] || reportKind(n.Kind)) && r.p(35) {
					a := Action{Op: pick(r, "hang", "sleep", "sleep"), Ms: int64(r.between(2000, 60000))}
					if n.Ctx && r.p(40) {
						a.Op = "csleep"
					}
					n.Body = g.insert(n.Body, a)
				}
			})
		}
	}
	g.signals(p, r, ids, pick(r, 1, 1, 2, 3))
	g.noise(p, r.p(60))
	return p
}

func (g *gen) signals(p *Plan, r *rng, ids []string, num int) {
	var to = -1
	if r.p(25) {
		to = r.between(0, p.Procs)
		if !p.Cli {
			to = 1
		}
	}
	sig := pick(r, 2, 2, 15)
	at := int64(0)
	after := ""
	if r.p(60) {
		after = pick(r, "enter:", "enter:", "exit:") + ids[r.n(len(ids))]
		at = int64(r.n(pick(r, 2, 30, 500)))
	} else {
		at = int64(r.between(1, pick(r, 100, 1000, 5000)))
	}
	for i := 0; i < num; i++ {
		p.Faults = append(p.Faults, Fault{Kind: "signal", Sig: sig, After: after, At: at, Proc: to})
		at += int64(r.between(1, pick(r, 50, 2000, 6000)))
	}
	if after != "" && r.p(50) { // in case that never happens
		at = int64(r.between(3000, 20000))
		for i := 0; i < 3; i++ {
			p.Faults = append(p.Faults, Fault{Kind: "signal", Sig: sig, At: at, Proc: to})
			at += 4000
		}
	}
	for i := 0; i < 3; i++ { // whatever still runs is interrupted until it ends
		p.Faults = append(p.Faults, Fault{Kind: "signal", Sig: sig, At: 100000 + int64(i)*5000, Proc: -1})
	}
}

// GenCli: several suites and what the command does with them.
func GenCli(seed uint64) *Plan {
	r := newRng(seed ^ 0xc11)
	f := coreFeatures(r)
	f.MinSpecs, f.MaxSpecs, f.MaxDepth, f.Setup, f.Report, f.Fail, f.SuiteFail = 0, pick(r, 3, 3, 8), 1, 20, 10, 0, 3
	f.Out, f.Write = 20, 20
	g, p := newGen(seed, f)
	p.Cli = true
	n := pick(r, 1, 2, 2, 3, 3, 4, 5)
	p.Procs = 1
	if n <= 2 {
		p.Procs = pick(r, 1, 2)
	}
	if n == 1 {
		p.Procs = pick(r, 1, 2, 3)
	}
	if left := 5/(n*p.Procs) - 1; left > 0 && r.p(60) {
		p.Opt.Repeat = r.between(1, left)
	}
	g.coreOpts(p, r)
	o := &p.Opt
	noFilters(o)
	o.JSON = r.p(85)
	o.KeepGoing, o.RandSuites, o.Hook, o.Recurse = r.p(40), r.p(25), r.p(40), r.p(20)
	o.Compilers = pick(r, 0, 0, 1, 2, 3)
	fails := r.p(40)
	compile := pick(r, 10, 200, 3000)
	for i := 0; i < n; i++ {
		if fails && r.p(30) {
			g.f.Fail = 100
		} else {
			g.f.Fail = 0
		}
		s := &Suite{Name: string(rune('a' + i)), CompileMs: int64(r.n(compile)), Nodes: g.tree()}
		s.CompileFail = fails && r.p(20)
		s.NoTests = !s.CompileFail && r.p(8)
		if r.p(15) {
			s.Dir = pick(r, "p", "p/q")
		}
		p.Suites = append(p.Suites, s)
	}
	if !o.Recurse { // in any order
		for i := n - 1; i > 0; i-- {
			j := r.n(i + 1)
			p.Suites[i], p.Suites[j] = p.Suites[j], p.Suites[i]
		}
	}
	o.Here = n == 1 && r.p(40)
	if n > 1 && r.p(8) {
		o.SkipPackage = p.Suites[r.n(n)].Path()
	}
	g.files(p, r)
	g.pace(p, r, 15, pick(r, 30, 400))
	if !o.Recurse && !o.Here && r.p(12) { // binaries instead of packages
		for _, s := range p.Suites {
			if r.p(50) {
				s.Precompiled, s.CompileFail, s.NoTests, s.CompileMs = true, false, false, 0
			}
		}
	}
	later := 5 / (n * p.Procs) // iterations there is room for
	if later > 1 && r.p(25) && o.SkipPackage == "" {
		var l []*Suite
		for _, s := range p.Suites {
			if !s.CompileFail && !s.NoTests {
				l = append(l, s)
			}
		}
		if len(l) > 0 { // one fails in a later iteration
			x := g.node("ras")
			x.Body = []Action{{Op: "fail", S: "fail-" + g.token(), It: r.between(2, later)}}
			s := l[r.n(len(l))]
			s.Nodes = append(s.Nodes, x)
			if r.p(60) {
				o.Repeat, o.UntilFails = 0, true
			}
		}
	}
	if r.p(6) {
		p.Procs, o.Build, o.Repeat, o.UntilFails, o.Here = 1, true, 0, false, false
		for _, s := range p.Suites {
			s.Precompiled = false
		}
		if o.BuildOut = pick(r, "", "", "bin", "./"); o.BuildOut == "./" {
			o.BuildOut = "."
		}
	}
	if r.p(12) { // together they may take too long
		o.Timeout = int64(r.between(20, pick(r, 500, 3000, 20000)))
		if r.p(50) {
			g.pace(p, r, 40, 6000)
		}
		if r.p(50) {
			o.Grace = int64(r.between(100, 3000))
		}
	}
	g.noise(p, false)
	return p
}

// files asks for reports.
func (g *gen) files(p *Plan, r *rng) {
	p.Opt.JUnit, p.Opt.Teamcity = r.p(45), r.p(45)
	if p.Cli {
		p.Opt.OutputDir, p.Opt.KeepSeparate = r.p(35), r.p(35)
	}
}

var Profiles = map[string]func(uint64) *Plan{"core": GenCore, "stop": GenStop, "shuffle": GenShuffle, "sync": GenSync, "death": GenDeath, "signal": GenSignal, "cli": GenCli, "files": GenFiles, "time": GenTime, "records": GenRecords, "output": GenOutput, "progress": GenProgress, "ordered": GenOrdered, "order": GenOrder, "cover": GenCover, "watch": GenWatch, "unfocus": GenUnfocus}

// GenCover: coverage and other profiles of several suites and processes.
func GenCover(seed uint64) *Plan {
	r := newRng(seed ^ 0xc0fe4)
	p := GenCli(seed ^ 0xc0fe4<<20)
	o := &p.Opt
	o.Repeat, o.UntilFails, o.Build, o.BuildOut = 0, false, false, ""
	for _, s := range p.Suites {
		s.Precompiled = false
	}
	switch r.n(4) {
	case 0:
		o.Cover = true
	case 1:
		o.CoverProfile = pick(r, "cover.txt", "c.out")
	default:
		o.CoverMode = pick(r, "set", "count", "atomic")
		o.Cover = r.p(30)
	}
	o.KeepCover = r.p(25)
	if r.p(40) {
		for _, k := range []string{"block", "cpu", "mem", "mutex"} {
			if r.p(40) {
				o.Profiles = append(o.Profiles, k)
			}
		}
		if len(o.Profiles) > 0 && r.p(25) {
			o.Cover, o.CoverMode, o.CoverProfile = false, "", ""
		}
	}
	var ids []string
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			if n.Kind != "container" && n.Kind != "table" {
				ids = append(ids, n.ID)
			}
		})
	}
	if r.p(25) {
		f := Fault{Kind: "disk", N: pick(r, 257, 257, 1, 0, 263), Errno: pick(r, 28, 5, 13), Skip: r.n(pick(r, 1, 4, 12)), Ms: int64(pick(r, 1, 1, 3)), Proc: pick(r, 0, 0, 1)}
		f.Suite = r.n(len(p.Suites))
		f.After, f.At = "profile:cover", int64(r.n(3))
		p.Faults = append(p.Faults, f)
	}
	if r.p(20) && len(ids) > 0 {
		f := Fault{Kind: "kill", Proc: r.between(1, p.Procs), Suite: r.n(len(p.Suites)), After: pick(r, "enter:", "exit:") + pick(r, ids...), At: int64(r.n(3))}
		p.Faults = append(p.Faults, f)
	}
	return p
}

// GenFiles: report files when suites are repeated, disks fail, and processes
// die or are interrupted.
func GenFiles(seed uint64) *Plan {
	r := newRng(seed ^ 0xf11e5)
	p := GenCli(seed ^ 0xf11e5<<20)
	o := &p.Opt
	o.Build, o.BuildOut = false, ""
	o.JSON, o.JUnit, o.Teamcity = r.p(70), r.p(60), r.p(60)
	if !o.JSON && !o.JUnit && !o.Teamcity {
		o.JSON = true
	}
	var ids []string
	for _, s := range p.Suites {
		each(s.Nodes, func(n *Node) {
			if n.Kind != "container" && n.Kind != "table" {
				ids = append(ids, n.ID)
			}
		})
	}
	when := func(f *Fault) {
		f.Suite = r.n(len(p.Suites))
		switch s := p.Suites[f.Suite]; {
		case r.p(40):
			f.After, f.At = "proc-exit:"+s.Name+".test", int64(r.n(3))
		case len(ids) > 0 && r.p(70):
			f.After, f.At = "exit:"+ids[len(ids)-1-r.n(min(len(ids), 3))], int64(r.n(pick(r, 1, 1, 100)))
		default:
			f.At = int64(r.between(1, pick(r, 300, 3000)))
		}
	}
	if r.p(60) {
		for k := pick(r, 1, 1, 2); k > 0; k-- {
			f := Fault{Kind: "disk", N: pick(r, 257, 257, 1, 1, 3, 0, 263, 258), Errno: pick(r, 28, 28, 5, 13), Skip: r.n(pick(r, 1, 4, 12)), Ms: int64(pick(r, 1, 1, 2, 5)), Proc: pick(r, 0, 1)}
			when(&f)
			p.Faults = append(p.Faults, f)
		}
	}
	if r.p(30) {
		f := Fault{Kind: "kill", Proc: r.between(1, p.Procs)}
		when(&f)
		p.Faults = append(p.Faults, f)
	}
	if r.p(20) && len(ids) > 0 {
		g := &gen{r: r, plan: p}
		g.signals(p, r, ids, pick(r, 1, 2))
		g.noise(p, r.p(50))
	}
	return p
}

// settle keeps pauses well below the grace periods of a plan: a callback that
// starts only after Ginkgo has given up on it says nothing.
func settle(p *Plan) *Plan {
	if p.Sched.PauseSites == 0 {
		return p
	}
	least := p.Opt.Grace
	eachNode(p, func(su *Suite, n *Node) {
		if n.GP > 0 && (least == 0 || n.GP < least) {
			least = n.GP
		}
	})
	if least > 0 {
		p.Sched.PauseMax = min(p.Sched.PauseMax, max(1e6, least*1e6/4))
	}
	return p
}

// exits turns some panics into calls of os.Exit(0), which panic in a test
// binary that was told to (by the ginkgo command) and end it otherwise.
func exits(p *Plan, seed uint64) *Plan {
	if r := newRng(seed ^ 0xe4175); p.Cli && r.p(30) {
		eachAction(p, func(n *Node, a *Action) {
			if a.Op == "panic" && r.p(50) {
				a.N = 1
			}
		})
	}
	return p
}

func init() {
	for name, f := range Profiles {
		Profiles[name] = func(seed uint64) *Plan { return exits(settle(f(seed)), seed) }
	}
}

// GenRecords: callbacks that write and record from several goroutines, and
// steps that fail.
func GenRecords(seed uint64) *Plan {
	r := newRng(seed ^ 0x4ec04d)
	f := coreFeatures(r)
	f.Conc, f.ByFail, f.By, f.Entry, f.Write, f.Fail = pick(r, 5, 20), 60, 30, 25, 30, 80
	f.MaxSpecs = 8
	g, p := newGen(seed, f)
	p.Cli = r.p(70)
	p.Procs = 1
	if p.Cli {
		p.Procs = pick(r, 1, 2, 2, 3, 4)
	}
	g.coreOpts(p, r)
	if r.p(15) {
		p.Opt.Intercept = pick(r, "none", "swap")
	}
	g.suite(p, r)
	g.noise(p, false)
	return p
}

// GenOutput: what is written to the standard streams, around pauses of the
// interception and with child processes that keep them open.
func GenOutput(seed uint64) *Plan {
	r := newRng(seed ^ 0x0072)
	f := coreFeatures(r)
	f.Out, f.Pause, f.Hold, f.Conc = 50, pick(r, 0, 15, 40), pick(r, 0, 0, 8), pick(r, 0, 5)
	f.MaxSpecs = 8
	g, p := newGen(seed, f)
	p.Cli = true
	p.Procs = pick(r, 1, 2, 2, 2, 3, 4)
	g.coreOpts(p, r)
	p.Opt.Intercept = pick(r, "", "", "none", "swap", "dup")
	g.suite(p, r)
	g.noise(p, false)
	return p
}
