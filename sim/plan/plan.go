// Package plan defines simulated runs: what the generator produces, the child
// executes and the replay file contains.
package plan

import "fmt"

type Action struct {
	Op   string   `json:"op"`
	Ms   int64    `json:"ms,omitempty"`
	N    int      `json:"n,omitempty"`
	S    string   `json:"s,omitempty"`
	At   []int    `json:"at,omitempty"`   // only on these attempts (1-based)
	Ex   []int    `json:"ex,omitempty"`   // only on these executions of the node in this process (1-based)
	Proc int      `json:"proc,omitempty"` // only on this parallel process
	Sp   []string `json:"sp,omitempty"`   // only while one of these specs is current
	It   int      `json:"it,omitempty"`   // only from this run of the suite on (1-based)
	Dc   *Node    `json:"dc,omitempty"`
	Body []Action `json:"body,omitempty"`
}

type Node struct {
	Kind    string   `json:"k"`
	ID      string   `json:"id"`
	Text    string   `json:"text,omitempty"` // what it is called, when that is not the ID
	Labels  []string `json:"labels,omitempty"`
	Ordered bool     `json:"ordered,omitempty"`
	Serial  bool     `json:"serial,omitempty"`
	Cof     bool     `json:"cof,omitempty"` // ContinueOnFailure
	Opo     bool     `json:"opo,omitempty"` // OncePerOrdered
	Pend    bool     `json:"pend,omitempty"`
	Focus   bool     `json:"focus,omitempty"`
	Flake   int      `json:"flake,omitempty"`
	Mpr     int      `json:"mpr,omitempty"`
	NT      int64    `json:"nt,omitempty"` // NodeTimeout ms
	ST      int64    `json:"st,omitempty"` // SpecTimeout ms
	GP      int64    `json:"gp,omitempty"` // GracePeriod ms
	PA      int64    `json:"pa,omitempty"` // PollProgressAfter ms
	PI      int64    `json:"pi,omitempty"` // PollProgressInterval ms
	Ctx     bool     `json:"ctx,omitempty"`
	Body    []Action `json:"body,omitempty"`
	Body2   []Action `json:"body2,omitempty"`
	Data    []byte   `json:"data,omitempty"` // SynchronizedBeforeSuite payload
	Kids    []*Node  `json:"kids,omitempty"`
	L       int      `json:"l,omitempty"` // line of its code location
}

// Name is the text the node is declared with.
func (n *Node) Name() string {
	if n.Text != "" {
		return n.Text
	}
	return n.ID
}

type Suite struct {
	Name        string   `json:"name"`
	Nodes       []*Node  `json:"nodes"`
	CompileMs   int64    `json:"compileMs,omitempty"`
	CompileFail bool     `json:"compileFail,omitempty"`
	NoTests     bool     `json:"noTests,omitempty"`
	Shuf        bool     `json:"shuf,omitempty"` // every process declares siblings in its own order
	Labels      []string `json:"labels,omitempty"`
	Dir         string   `json:"dir,omitempty"` // directory its own lies in
	RunMs       int64    `json:"runMs,omitempty"`
	Precompiled bool     `json:"precompiled,omitempty"` // the command is given the test binary
}

// File is a file of a watched source tree.
type File struct {
	Path    string   `json:"path"`
	Imports []string `json:"imports,omitempty"`
	Mark    string   `json:"mark,omitempty"` // broken, red, torn, syntax
	Pad     int      `json:"pad,omitempty"`
	Ago     int64    `json:"ago,omitempty"` // ms its modification time lies in the past
}

// Edit changes a watched source tree.
type Edit struct {
	Op    string `json:"op"` // write, remove, rmdir, mkdir
	Path  string `json:"path,omitempty"`
	Files []File `json:"files,omitempty"`
}

// Watch is what `ginkgo watch` watches.
type Watch struct {
	Files  []File `json:"files"`
	Depth  int    `json:"depth,omitempty"` // 0: not set
	RegExp string `json:"regexp,omitempty"`
}

// Src is a file below the directory `ginkgo unfocus` runs in.
type Src struct {
	Path string `json:"path"`
	Body string `json:"body"`
	Want string `json:"want,omitempty"` // without focus; empty: the file stays as it is
}

// Path is where the suite lies, relative to the working directory.
func (s *Suite) Path() string {
	if s.Dir != "" {
		return s.Dir + "/" + s.Name
	}
	return s.Name
}

type Fault struct {
	At    int64  `json:"at"`              // ms of simulated time, or when After is set, after that event
	After string `json:"after,omitempty"` // event key "kind:id" (first occurrence), then At ms later
	Kind  string `json:"kind"`            // kill, signal, freeze, clockjump, slow, disk, edit
	Proc  int    `json:"proc,omitempty"`  // parallel process; 0 = CLI; -1 = every live process; -2 = where After happened
	Suite int    `json:"suite,omitempty"`
	Sig   int    `json:"sig,omitempty"`
	Ms    int64  `json:"ms,omitempty"`
	N     int    `json:"n,omitempty"`
	Skip  int    `json:"skip,omitempty"`
	Errno int    `json:"errno,omitempty"`
	Edit  *Edit  `json:"edit,omitempty"`
}

type Sched struct {
	Policy     int    `json:"policy"`
	Preempt    uint32 `json:"preempt"`
	TickMax    int64  `json:"tick"`
	YieldTick  int64  `json:"ytick"`
	StallProb  uint32 `json:"stallp"`
	StallMax   int64  `json:"stallm"`
	PauseSites uint32 `json:"pauses,omitempty"`
	PauseMax   int64  `json:"pausem,omitempty"`
	PauseIn    uint32 `json:"pausein,omitempty"` // part of the code the pauses are confined to
	WinFrom    uint64 `json:"from"`
	WinTo      uint64 `json:"to"`
}

type Net struct {
	LatMin, LatMax int64
	StallProb      int
	StallMax       int64
	SegMax         int
	DialMax        int64
}

// Opt are the command line settings of the run.
type Opt struct {
	Seed         int64    `json:"seed,omitempty"`
	RandAll      bool     `json:"randAll,omitempty"`
	RandSuites   bool     `json:"randSuites,omitempty"`
	FailFast     bool     `json:"failFast,omitempty"`
	Flake        int      `json:"flake,omitempty"`
	LabelFilter  string   `json:"labelFilter,omitempty"`
	Focus        []string `json:"focus,omitempty"`
	Skip         []string `json:"skip,omitempty"`
	FocusFile    []string `json:"focusFile,omitempty"`
	SkipFile     []string `json:"skipFile,omitempty"`
	Timeout      int64    `json:"timeout,omitempty"` // ms
	Grace        int64    `json:"grace,omitempty"`   // ms
	PollAfter    int64    `json:"pollAfter,omitempty"`
	PollInterval int64    `json:"pollInterval,omitempty"`
	FailPending  bool     `json:"failPending,omitempty"`
	FailEmpty    bool     `json:"failEmpty,omitempty"`
	KeepGoing    bool     `json:"keepGoing,omitempty"`
	Repeat       int      `json:"repeat,omitempty"`
	UntilFails   bool     `json:"untilFails,omitempty"`
	Compilers    int      `json:"compilers,omitempty"`
	Verbosity    string   `json:"verbosity,omitempty"` // "", v, vv, succinct
	Intercept    string   `json:"intercept,omitempty"`
	JSON         bool     `json:"json,omitempty"`
	JUnit        bool     `json:"junit,omitempty"`
	Teamcity     bool     `json:"teamcity,omitempty"`
	OutputDir    bool     `json:"outputDir,omitempty"`
	KeepSeparate bool     `json:"keepSeparate,omitempty"`
	Hook         bool     `json:"hook,omitempty"`
	Recurse      bool     `json:"recurse,omitempty"`
	Build        bool     `json:"build,omitempty"`    // ginkgo build
	BuildOut     string   `json:"buildOut,omitempty"` // its -o
	Here         bool     `json:"here,omitempty"` // run in the directory of the only suite, without naming it
	SkipPackage  string   `json:"skipPackage,omitempty"`
	Cover        bool     `json:"cover,omitempty"`
	CoverMode    string   `json:"coverMode,omitempty"`
	CoverProfile string   `json:"coverProfile,omitempty"`
	KeepCover    bool     `json:"keepCover,omitempty"`
	Profiles     []string `json:"profiles,omitempty"` // block, cpu, mem, mutex
}

// Derive computes the command line.
func (p *Plan) Derive() {
	o := &p.Opt
	var f []string
	add := func(c bool, format string, a ...any) {
		if c {
			f = append(f, fmt.Sprintf(format, a...))
		}
	}
	if p.Unfocus != nil {
		p.Flags = []string{"unfocus"}
		return
	}
	packages := func() {
		add(o.SkipPackage != "", "--skip-package=%s", o.SkipPackage)
		switch {
		case o.Recurse:
			f = append(f, "-r")
		case o.Here:
		default:
			for _, s := range p.Suites {
				if s.Precompiled {
					f = append(f, "./"+s.Path()+"/"+s.Name+".test")
				} else {
					f = append(f, "./"+s.Path())
				}
			}
		}
	}
	if o.Build {
		add(true, "build")
		add(o.Compilers > 0, "--compilers=%d", o.Compilers)
		add(o.BuildOut != "", "-o=%s", o.BuildOut)
		packages()
		p.Flags, p.TestArgs = f, nil
		return
	}
	add(p.Cli && p.Watch == nil, "run")
	add(p.Watch != nil, "watch")
	add(true, "--no-color")
	g := ""
	if !p.Cli {
		g = "ginkgo."
		f[0] = "--ginkgo.no-color"
	}
	add(p.Cli && p.Procs > 1, "--procs=%d", p.Procs)
	add(o.Seed != 0, "--%sseed=%d", g, o.Seed)
	add(o.RandAll, "--%srandomize-all", g)
	add(o.FailFast, "--%sfail-fast", g)
	add(o.Flake > 0, "--%sflake-attempts=%d", g, o.Flake)
	add(o.LabelFilter != "", "--%slabel-filter=%s", g, o.LabelFilter)
	for _, l := range []struct {
		flag string
		vals []string
	}{{"focus", o.Focus}, {"skip", o.Skip}, {"focus-file", o.FocusFile}, {"skip-file", o.SkipFile}} {
		for _, v := range l.vals {
			add(true, "--%s%s=%s", g, l.flag, v)
		}
	}
	add(o.Timeout > 0, "--%stimeout=%dms", g, o.Timeout)
	add(o.Grace > 0, "--%sgrace-period=%dms", g, o.Grace)
	add(o.PollAfter > 0, "--%spoll-progress-after=%dms", g, o.PollAfter)
	add(o.PollInterval > 0, "--%spoll-progress-interval=%dms", g, o.PollInterval)
	add(o.FailPending, "--%sfail-on-pending", g)
	add(o.FailEmpty, "--%sfail-on-empty", g)
	add(o.Verbosity != "", "--%s%s", g, o.Verbosity)
	add(o.JSON, "--%sjson-report=r.json", g)
	add(o.JUnit, "--%sjunit-report=r.xml", g)
	add(o.Teamcity, "--%steamcity-report=r.tc", g)
	if p.Cli {
		add(o.Intercept != "", "--output-interceptor-mode=%s", o.Intercept)
		add(o.RandSuites, "--randomize-suites")
		add(o.KeepGoing, "--keep-going")
		add(o.Repeat > 0, "--repeat=%d", o.Repeat)
		add(o.UntilFails, "--until-it-fails")
		add(o.Compilers > 0, "--compilers=%d", o.Compilers)
		add(o.OutputDir, "--output-dir=out")
		add(o.KeepSeparate, "--keep-separate-reports")
		add(o.Hook, "--after-run-hook=hook (ginkgo-suite-name) (ginkgo-suite-passed)")
		add(o.Cover, "--cover")
		add(o.CoverMode != "", "--covermode=%s", o.CoverMode)
		add(o.CoverProfile != "", "--coverprofile=%s", o.CoverProfile)
		add(o.KeepCover, "--keep-separate-coverprofiles")
		for _, k := range o.Profiles {
			add(true, "--%sprofile=%s.prof", k, k)
		}
		if w := p.Watch; w != nil {
			add(w.Depth != 0, "--depth=%d", max(w.Depth, 0))
			add(w.RegExp != "", "--watch-regexp=%s", w.RegExp)
		}
		packages()
		p.Flags, p.TestArgs = f, nil
	} else {
		p.Flags, p.TestArgs = nil, f
	}
}

type Plan struct {
	Seed      uint64   `json:"seed"`
	Prop      string   `json:"prop,omitempty"`
	Profile   string   `json:"profile,omitempty"`
	Cli       bool     `json:"cli"`   // run through the ginkgo CLI
	Procs     int      `json:"procs"` // parallel processes
	Opt       Opt      `json:"opt"`
	Flags     []string `json:"flags,omitempty"` // derived from Opt
	TestArgs  []string `json:"testArgs,omitempty"`
	Protocol  string   `json:"protocol,omitempty"`
	Suites    []*Suite `json:"suites"`
	Faults    []Fault  `json:"faults,omitempty"`
	Sched     Sched    `json:"sched"`
	Watch     *Watch   `json:"watch,omitempty"`
	Unfocus   []Src    `json:"unfocus,omitempty"`
	Vary      bool     `json:"vary,omitempty"` // compare the orders of many seeds
	Net       Net      `json:"net"`
	HorizonMs int64    `json:"horizonMs"`
	MaxSteps  uint64   `json:"maxSteps"`
}

// Event is one entry of the recorded history.
type Event struct {
	Seq  int    `json:"q"`
	T    int64  `json:"t"` // ns
	Node int    `json:"n"` // simulated process (kernel number)
	Proc int    `json:"p"` // parallel process number (0 for the CLI)
	Su   int    `json:"s"` // suite index
	Kind string `json:"k"`
	ID   string `json:"id,omitempty"`
	Spec string `json:"sp,omitempty"`
	Att  int    `json:"a,omitempty"`
	Ex   int    `json:"x,omitempty"`
	S    string `json:"v,omitempty"`
}

type ProcInfo struct {
	Node   int    `json:"node"`
	Name   string `json:"name"`
	Proc   int    `json:"proc"`
	Suite  int    `json:"suite"`
	Exited bool   `json:"exited"`
	Status int    `json:"status"` // wait status
	Start  int64  `json:"start"`
	End    int64  `json:"end"`
	Out    string `json:"-"`
}

// Result is what one simulated run produces.
type Result struct {
	Status   string            `json:"status"` // finished, deadlock, horizon, steps
	Events   []Event           `json:"events"`
	Procs    []ProcInfo        `json:"procs"`
	Stdout   string            `json:"stdout"`
	Stderr   string            `json:"stderr"`
	Files    map[string]string `json:"files"`
	SimNs    int64             `json:"simNs"`
	Picks    uint64            `json:"picks"`
	Yields   uint64            `json:"yields"`
	Switches uint64            `json:"switches"`
	Preempts uint64            `json:"preempts"`
	Stalls   uint64            `json:"stalls"`
	Pauses   uint64            `json:"pauses"`
	Frozen   uint64            `json:"frozen"`
	Hash     uint64            `json:"hash"`
	FaultHit map[string]int    `json:"faultHit"`
	NetStats map[string]uint64 `json:"net"`
	WallUs   int64             `json:"-"`
	Twins    []*Result         `json:"-"` // companion runs
	Err      string            `json:"err,omitempty"`
}

// ProcEnv is what the interpreter of one test process gets.
type ProcEnv struct {
	Suite *Suite
	SuIdx int
	Args  []string
	Proc  int
	Iter  int    // how often this process of the suite ran before
	Cover string // coverage mode it was compiled with
	Log   func(kind, id, spec string, att, ex int, s string)
	Start func(proc int)
}

// CoverProfile is the coverage profile one test process writes.
func CoverProfile(suite string, proc, iter int, mode string) string {
	s := "mode: " + mode + "\n"
	h := func(x string) uint32 {
		n := uint32(2166136261)
		for i := 0; i < len(x); i++ {
			n = (n ^ uint32(x[i])) * 16777619
		}
		return n ^ n>>13 ^ n>>22
	}
	for _, f := range []string{"sim/a/own.go", "sim/b/own.go", "sim/lib/x.go", "sim/lib/y.go", "sim/z/own.go"} {
		if f[len(f)-6:] == "own.go" && f != "sim/"+suite+"/own.go" {
			continue
		}
		n := int(h(f)%7) + 2
		line := 1
		for i := 0; i < n; i++ {
			b := h(fmt.Sprint(f, i))
			// blocks may share lines and follow each other at once
			col, end, ecol := int(b%5)+1, line+int(b>>4%3), int(b>>8%9)+10
			c := h(fmt.Sprint(suite, proc, iter, f, i)) % 4
			if mode == "set" {
				c /= 2
			}
			s += fmt.Sprintf("%s:%d.%d,%d.%d %d %d\n", f, line, col, end, ecol, b>>12%5, c)
			line = end + 1
		}
	}
	return s
}
