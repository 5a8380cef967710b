// Package suite interprets a plan as a Ginkgo suite, through the public DSL.
package suite

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"sim/plan"

	"github.com/google/pprof/profile"
	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/types"
)

type fakeT struct{ failed bool }

func (t *fakeT) Fail() { t.failed = true }

type st struct {
	env  *plan.ProcEnv
	ex   map[string]int
	dcEx map[string]int
	panics *bool // --test.paniconexit0
	file string
}

// Main is the test binary: register the flags `go test` would, build the
// tree, run the suite, exit like the testing package.
func Main(env *plan.ProcEnv) int {
	for _, n := range []string{"test.timeout", "test.v"} {
		flag.CommandLine.String(n, "", "")
	}
	panics := flag.CommandLine.Bool("test.paniconexit0", false, "")
	profs := map[string]*string{}
	for _, n := range []string{"cover", "block", "cpu", "mem", "mutex"} {
		profs[n] = flag.CommandLine.String("test."+n+"profile", "", "")
	}
	flag.CommandLine.Parse(env.Args[1:])
	s := &st{env: env, panics: panics, ex: map[string]int{}}
	wd, _ := os.Getwd()
	s.file = wd + "/" + env.Suite.Name + "_suite_test.go"
	s.build(s.order(env.Suite.Nodes, false))
	t := &fakeT{}
	var extra []any
	if len(env.Suite.Labels) > 0 {
		extra = append(extra, ginkgo.Label(env.Suite.Labels...))
	}
	ok := ginkgo.RunSpecs(t, "suite "+env.Suite.Name, extra...)
	if ok == t.failed {
		env.Log("odd", "runspecs-return", "", 0, 0, fmt.Sprint(ok, t.failed))
	}
	code := 0
	if t.failed {
		fmt.Println("--- FAIL: Test")
		fmt.Println("FAIL")
		code = 1
	} else {
		fmt.Println("PASS")
	}
	for _, n := range []string{"cpu", "mem", "block", "mutex", "cover"} {
		path := *profs[n]
		if path == "" {
			continue
		}
		var b []byte
		if n == "cover" {
			if env.Cover == "" {
				fmt.Fprintln(os.Stderr, "testing: cannot use -test.coverprofile because test binary was not built with coverage enabled")
				return 2
			}
			b = []byte(plan.CoverProfile(env.Suite.Name, env.Proc, env.SuIdx, env.Cover))
		} else {
			b = samples(fmt.Sprintf("%s_%s_%d", n, env.Suite.Name, env.Proc), int64(10*len(n)+env.Proc))
		}
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "testing:", err)
			return 2
		}
		env.Log("profile", n, "", 0, 0, path)
	}
	return code
}

// samples is a profile in which one function was seen n times.
func samples(name string, n int64) []byte {
	f := &profile.Function{ID: 1, Name: name}
	l := &profile.Location{ID: 1, Address: 1, Line: []profile.Line{{Function: f, Line: 1}}}
	p := &profile.Profile{SampleType: []*profile.ValueType{{Type: "samples", Unit: "count"}}, Sample: []*profile.Sample{{Location: []*profile.Location{l}, Value: []int64{n}}}, Function: []*profile.Function{f}, Location: []*profile.Location{l}}
	var b bytes.Buffer
	p.Write(&b)
	return b.Bytes()
}

func ms(n int64) time.Duration { return time.Duration(n) * time.Millisecond }

func (s *st) decorators(n *plan.Node) []any {
	var a []any
	if n.L > 0 {
		a = append(a, types.CodeLocation{FileName: s.file, LineNumber: n.L})
	}
	if len(n.Labels) > 0 {
		a = append(a, ginkgo.Label(n.Labels...))
	}
	if n.Text != "" {
		a = append(a, ginkgo.Label("id:"+n.ID)) // how the oracles tell it from others of that name
	}
	if n.Ordered {
		a = append(a, ginkgo.Ordered)
	}
	if n.Serial {
		a = append(a, ginkgo.Serial)
	}
	if n.Cof {
		a = append(a, ginkgo.ContinueOnFailure)
	}
	if n.Opo {
		a = append(a, ginkgo.OncePerOrdered)
	}
	if n.Pend {
		a = append(a, ginkgo.Pending)
	}
	if n.Focus {
		a = append(a, ginkgo.Focus)
	}
	if n.Flake > 0 {
		a = append(a, ginkgo.FlakeAttempts(n.Flake))
	}
	if n.Mpr > 0 {
		a = append(a, ginkgo.MustPassRepeatedly(n.Mpr))
	}
	if n.NT > 0 {
		a = append(a, ginkgo.NodeTimeout(ms(n.NT)))
	}
	if n.ST > 0 {
		a = append(a, ginkgo.SpecTimeout(ms(n.ST)))
	}
	if n.GP != 0 { // negative: none at all
		a = append(a, ginkgo.GracePeriod(ms(max(n.GP, 0))))
	}
	if n.PA != 0 { // negative: no polling
		a = append(a, ginkgo.PollProgressAfter(ms(max(n.PA, 0))))
	}
	if n.PI != 0 { // negative: once
		a = append(a, ginkgo.PollProgressInterval(ms(max(n.PI, 0))))
	}
	return a
}

func (s *st) body(n *plan.Node, body []plan.Action) any {
	if n.Ctx {
		return func(ctx ginkgo.SpecContext) { s.run(n, body, ctx, "") }
	}
	return func() { s.run(n, body, nil, "") }
}

// leafName identifies the spec of a report.
func leafName(r types.SpecReport) string {
	for _, l := range r.LeafNodeLabels {
		if strings.HasPrefix(l, "id:") {
			return l[3:]
		}
	}
	return r.LeafNodeText
}

func repSummary(r types.Report) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v|%d", r.SuiteSucceeded, len(r.SpecReports))
	for _, sr := range r.SpecReports {
		fmt.Fprintf(&b, "|%s=%s", leafName(sr), sr.State)
		if sr.LeafNodeText == "" {
			fmt.Fprintf(&b, ":%s", sr.LeafNodeType)
		}
	}
	for _, x := range r.SpecialSuiteFailureReasons {
		fmt.Fprintf(&b, "|reason=%s", x)
	}
	return b.String()
}

// order permutes the containers and subjects among themselves, differently on
// every process, the way a suite that ranges over a map would.
func (s *st) order(nodes []*plan.Node, fixed bool) []*plan.Node {
	if !s.env.Suite.Shuf || fixed {
		return nodes
	}
	out := append([]*plan.Node(nil), nodes...)
	var idx []int
	for i, n := range nodes {
		if n.Kind == "container" || n.Kind == "it" {
			idx = append(idx, i)
		}
	}
	x := uint64(s.env.Proc)*0x9e3779b97f4a7c15 + 12345
	for i := len(idx) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		out[idx[i]], out[idx[j]] = out[idx[j]], out[idx[i]]
	}
	return out
}

func (s *st) build(nodes []*plan.Node) { s.buildIn(nodes, false) }

func (s *st) buildIn(nodes []*plan.Node, inOrdered bool) {
	for _, n := range nodes {
		d := s.decorators(n)
		args := append(d, s.body(n, n.Body))
		switch n.Kind {
		case "container":
			ginkgo.Describe(n.Name(), append(d, func() { s.buildIn(s.order(n.Kids, n.Ordered || inOrdered), n.Ordered || inOrdered) })...)
		case "table":
			entries := []any{}
			for _, k := range n.Kids {
				k := k
				entries = append(entries, ginkgo.Entry(k.ID, append(s.decorators(k), k)...))
			}
			var f any = func(k *plan.Node) { s.run(k, k.Body, nil, "") }
			if n.Ctx {
				f = func(ctx ginkgo.SpecContext, k *plan.Node) { s.run(k, k.Body, ctx, "") }
			}
			ginkgo.DescribeTable(n.ID, append(append(d, f), entries...)...)
		case "it":
			if n.Pend && len(n.Body) == 0 {
				ginkgo.It(n.Name(), d...)
			} else {
				ginkgo.It(n.Name(), args...)
			}
		case "be":
			ginkgo.BeforeEach(args...)
		case "jbe":
			ginkgo.JustBeforeEach(args...)
		case "ae":
			ginkgo.AfterEach(args...)
		case "jae":
			ginkgo.JustAfterEach(args...)
		case "ba":
			ginkgo.BeforeAll(args...)
		case "aa":
			ginkgo.AfterAll(args...)
		case "rbe":
			ginkgo.ReportBeforeEach(func(r ginkgo.SpecReport) { s.run(n, n.Body, nil, leafName(r)+"="+r.State.String()) }, d)
		case "rae":
			ginkgo.ReportAfterEach(func(r ginkgo.SpecReport) {
				s.run(n, n.Body, nil, fmt.Sprintf("%s=%s|%d", leafName(r), r.State, r.NumAttempts))
			}, d)
		case "bs":
			ginkgo.BeforeSuite(s.body(n, n.Body), d...)
		case "as":
			ginkgo.AfterSuite(s.body(n, n.Body), d...)
		case "sbs":
			var f1, f2 any
			if n.Ctx {
				f1 = func(ctx ginkgo.SpecContext) []byte { s.run(n, n.Body, ctx, "p1"); return n.Data }
				f2 = func(ctx ginkgo.SpecContext, b []byte) { s.run(n, n.Body2, ctx, "all:"+strconv.Quote(string(b))) }
			} else {
				f1 = func() []byte { s.run(n, n.Body, nil, "p1"); return n.Data }
				f2 = func(b []byte) { s.run(n, n.Body2, nil, "all:"+strconv.Quote(string(b))) }
			}
			ginkgo.SynchronizedBeforeSuite(f1, f2, d...)
		case "sas":
			var f1, f2 any
			if n.Ctx {
				f1 = func(ctx ginkgo.SpecContext) { s.run(n, n.Body, ctx, "all") }
				f2 = func(ctx ginkgo.SpecContext) { s.run(n, n.Body2, ctx, "p1") }
			} else {
				f1 = func() { s.run(n, n.Body, nil, "all") }
				f2 = func() { s.run(n, n.Body2, nil, "p1") }
			}
			ginkgo.SynchronizedAfterSuite(f1, f2, d...)
		case "rbs":
			ginkgo.ReportBeforeSuite(func(r ginkgo.Report) {
				s.run(n, n.Body, nil, fmt.Sprintf("%d/%d", r.PreRunStats.SpecsThatWillRun, r.PreRunStats.TotalSpecs))
			}, d...)
		case "ras":
			ginkgo.ReportAfterSuite(n.ID, func(r ginkgo.Report) { s.run(n, n.Body, nil, repSummary(r)) }, d...)
		}
	}
}

func hasS(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return len(l) == 0
}

func has(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return len(l) == 0
}

// run executes a node body: log enter, actions, log exit (also when unwinding).
func (s *st) run(n *plan.Node, body []plan.Action, ctx context.Context, info string) {
	s.ex[n.ID]++
	ex := s.ex[n.ID]
	spec, att := "", 0
	switch n.Kind {
	case "bs", "as", "sbs", "sas", "rbs", "ras":
	default:
		r := ginkgo.CurrentSpecReport()
		spec, att = leafName(r), r.NumAttempts
		if r.LeafNodeType == types.NodeTypeReportAfterSuite { // a goroutine that got going after Ginkgo gave its node up
			spec = ""
		}
	}
	s.env.Log("enter", n.ID, spec, att, ex, info)
	how := "unwound"
	defer func() { s.env.Log("exit", n.ID, spec, att, ex, how) }()
	s.do(n, body, ctx, spec, att, ex)
	how = "done"
}

func (s *st) by(n *plan.Node, a *plan.Action, ctx context.Context, spec string, att, ex int) {
	s.env.Log("by", n.ID, spec, att, ex, a.S)
	defer s.env.Log("by!", n.ID, spec, att, ex, a.S)
	if len(a.Body) == 0 {
		ginkgo.By(a.S)
		return
	}
	ginkgo.By(a.S, func() {
		s.env.Log("byin", n.ID, spec, att, ex, a.S)
		defer s.env.Log("byout", n.ID, spec, att, ex, a.S)
		s.do(n, a.Body, ctx, spec, att, ex)
	})
}

// attach attaches a progress reporter, to the suite or to the node's context;
// with a body it is detached after that.
func (s *st) attach(n *plan.Node, a *plan.Action, ctx context.Context, spec string, att, ex int) {
	f := func() string {
		switch a.N {
		case 1:
			select {}
		case 2:
			s.env.Log("prpanic", n.ID, spec, att, ex, a.S)
			panic(a.S)
		case 3:
			ginkgo.AttachProgressReporter(func() string { return "" })()
		case 4:
			time.Sleep(ms(a.Ms))
		case 5:
			ginkgo.CurrentSpecReport()
		}
		return a.S
	}
	kind := fmt.Sprintf("%s:%d:%s", a.Op, a.N, a.S)
	s.env.Log("attach", n.ID, spec, att, ex, kind)
	var cancel func()
	if sc, ok := ctx.(ginkgo.SpecContext); ok && a.Op == "cattach" {
		cancel = sc.AttachProgressReporter(f)
	} else {
		cancel = ginkgo.AttachProgressReporter(f)
	}
	s.env.Log("attach!", n.ID, spec, att, ex, kind)
	if len(a.Body) == 0 {
		return
	}
	defer func() {
		s.env.Log("detach", n.ID, spec, att, ex, kind)
		cancel()
		s.env.Log("detach!", n.ID, spec, att, ex, kind)
	}()
	s.do(n, a.Body, ctx, spec, att, ex)
}

func (s *st) do(n *plan.Node, body []plan.Action, ctx context.Context, spec string, att, ex int) {
	for i := range body {
		a := &body[i]
		runtime.SimYield()
		if !has(a.At, att) || !hasS(a.Sp, spec) || !has(a.Ex, ex) || a.It > s.env.Iter+1 || (a.Proc != 0 && a.Proc != s.env.Proc) {
			continue
		}
		switch a.Op {
		case "sleep":
			time.Sleep(ms(a.Ms))
		case "csleep": // sleep, return early when the context is done
			if ctx == nil {
				time.Sleep(ms(a.Ms))
				break
			}
			t := time.NewTimer(ms(a.Ms))
			select {
			case <-t.C:
			case <-ctx.Done():
				t.Stop()
				s.env.Log("ctxdone", n.ID, spec, att, ex, context.Cause(ctx).Error())
				return
			}
		case "waitctx": // wait for the context, then Ms more
			if ctx == nil {
				break
			}
			<-ctx.Done()
			s.env.Log("ctxdone", n.ID, spec, att, ex, context.Cause(ctx).Error())
			time.Sleep(ms(a.Ms))
		case "watch": // note when the context is cancelled, without reacting
			if ctx != nil {
				go func() {
					<-ctx.Done()
					s.env.Log("ctxseen", n.ID, spec, att, ex, context.Cause(ctx).Error())
				}()
			}
		case "hang":
			if a.Ms > 0 {
				time.Sleep(ms(a.Ms))
			} else {
				select {}
			}
		case "busy":
			for j := 0; j < a.N; j++ {
				runtime.SimYield()
			}
		case "gw":
			s.env.Log("gw", n.ID, spec, att, ex, a.S)
			fmt.Fprint(ginkgo.GinkgoWriter, a.S)
			s.env.Log("gw!", n.ID, spec, att, ex, a.S)
		case "out":
			s.env.Log("out", n.ID, spec, att, ex, a.S)
			fmt.Fprint(os.Stdout, a.S)
			s.env.Log("out!", n.ID, spec, att, ex, a.S)
		case "err":
			s.env.Log("err", n.ID, spec, att, ex, a.S)
			fmt.Fprint(os.Stderr, a.S)
			s.env.Log("err!", n.ID, spec, att, ex, a.S)
		case "pauseout":
			s.env.Log("pauseout", n.ID, spec, att, ex, "")
			ginkgo.PauseOutputInterception()
			s.env.Log("pauseout!", n.ID, spec, att, ex, "")
		case "resumeout":
			s.env.Log("resumeout", n.ID, spec, att, ex, "")
			ginkgo.ResumeOutputInterception()
			s.env.Log("resumeout!", n.ID, spec, att, ex, "")
		case "hold": // a child process has its standard output here, for Ms
			s.env.Log("hold", n.ID, spec, att, ex, strconv.FormatInt(a.Ms, 10))
			if fd, err := syscall.Dup(int(os.Stdout.Fd())); err == nil {
				go func() {
					time.Sleep(ms(a.Ms))
					syscall.Close(fd)
				}()
			}
		case "mark":
			s.env.Log("mark", n.ID, spec, att, ex, a.S)
		case "fail":
			s.env.Log("fail", n.ID, spec, att, ex, a.S)
			ginkgo.Fail(a.S)
		case "skip":
			s.env.Log("skip", n.ID, spec, att, ex, a.S)
			ginkgo.Skip(a.S)
		case "abort":
			s.env.Log("abort", n.ID, spec, att, ex, a.S)
			ginkgo.AbortSuite(a.S)
		case "panic":
			s.env.Log("panic", n.ID, spec, att, ex, a.S)
			if a.N == 1 && !*s.panics { // os.Exit(0) in a test binary that was not told to mind it
				s.env.Log("os-exit", n.ID, spec, att, ex, "0")
				os.Exit(0)
			}
			panic(a.S)
		case "gofail": // a goroutine fails after Ms; the node waits for it
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer ginkgo.GinkgoRecover()
				time.Sleep(ms(a.Ms))
				s.env.Log("fail", n.ID, spec, att, ex, a.S)
				ginkgo.Fail(a.S)
			}()
			<-done
		case "go": // background goroutine running the actions
			go func() {
				defer ginkgo.GinkgoRecover()
				s.do(n, a.Body, ctx, spec, att, ex)
			}()
		case "dc":
			k := a.Dc
			cb := func(c context.Context) func() { return func() { s.run(k, k.Body, c, "") } }
			args := []any{}
			if k.Ctx {
				args = append(args, func(c ginkgo.SpecContext) { cb(c)() })
			} else {
				args = append(args, cb(nil))
			}
			args = append(args, s.decorators(k)...)
			s.env.Log("reg", k.ID, spec, att, ex, n.ID)
			ginkgo.DeferCleanup(args...)
		case "by":
			s.by(n, a, ctx, spec, att, ex)
		case "par": // goroutines running the actions; the node waits for them
			var wg sync.WaitGroup
			for j := range a.Body {
				b := a.Body[j].Body
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer ginkgo.GinkgoRecover()
					s.do(n, b, ctx, spec, att, ex)
				}()
			}
			wg.Wait()
		case "entry":
			s.env.Log("entry", n.ID, spec, att, ex, a.S)
			switch a.N {
			case 1:
				ginkgo.AddReportEntry(a.S, types.ReportEntryVisibilityNever)
			case 2:
				ginkgo.AddReportEntry(a.S, "value-"+a.S, types.ReportEntryVisibilityFailureOrVerbose)
			default:
				ginkgo.AddReportEntry(a.S, "value-"+a.S)
			}
			s.env.Log("entry!", n.ID, spec, att, ex, a.S)
		case "attach", "cattach":
			s.attach(n, a, ctx, spec, att, ex)
		case "exit":
			s.env.Log("os-exit", n.ID, spec, att, ex, a.S)
			os.Exit(a.N)
		case "crash":
			s.env.Log("crash", n.ID, spec, att, ex, a.S)
			done := make(chan struct{})
			go func() { defer close(done); panic(a.S) }()
			<-done
		case "report":
			r := ginkgo.CurrentSpecReport()
			s.env.Log("report", n.ID, spec, att, ex, fmt.Sprintf("%s|%d|%d", r.State, r.NumAttempts, len(r.AdditionalFailures)))
		case "recover": // run actions, absorbing a failure panic like user code might
			func() {
				defer func() { recover() }()
				s.do(n, a.Body, ctx, spec, att, ex)
			}()
		}
	}
}
