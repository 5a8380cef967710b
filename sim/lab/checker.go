package lab

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// badEnd turns a child that hung or died into a finding about Ginkgo: the
// machinery itself ends every run, unless the code under test spins without
// ever reaching a preemption point or brings the runtime down.
func badEnd(err error) (Finding, bool) {
	s := err.Error()
	switch {
	case strings.HasPrefix(s, "wall:"):
		return Finding{Props: strings.Fields(allProps), Class: "wall", Msg: s}, true
	case strings.HasPrefix(s, "child:") && !strings.Contains(s, "signal: killed"): // killed: out of memory
		return Finding{Props: strings.Fields(allProps), Class: "child", Msg: s}, true
	}
	return Finding{}, false
}

const allProps = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22"

// Replay is the file that reproduces one violation exactly.
type Replay struct {
	Property string
	Class    string
	Message  string
	Seed     uint64
	From     string // the unminimised plan
	Tried    int
	Hash     uint64 // schedule hash of the minimised run
	History  string // digest of its recorded history
	Trace    []string
	Plan     *Plan
}

func digest(r *Result) string {
	if r == nil {
		return ""
	}
	h := sha256.New()
	for i := range r.Events {
		e := &r.Events[i]
		fmt.Fprintf(h, "%d %d %d %d %d %s %s %s %d %d %q\n", e.Seq, e.T, e.Node, e.Proc, e.Su, e.Kind, e.ID, e.Spec, e.Att, e.Ex, e.S)
	}
	fmt.Fprintf(h, "%s %d %q %q", r.Status, r.SimNs, r.Stdout, r.Stderr)
	return hex.EncodeToString(h.Sum(nil))[:24]
}

// Evidence is what a check writes about itself.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type Settings struct {
	Prop, Tier      string
	Seed            int64
	Bin             string
	Workers         int
	Runs            int
	Budget          time.Duration
	EvidenceFile    string
	ReplayDir       string
	KnownFile       string
	ShrinkBudget    time.Duration
	Verbose         bool
	MaxViolations   int
	KnownDir        string
	BuildS          float64
	ProfileOverride string
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func planSeed(seed int64, prop string, i int) uint64 {
	h := uint64(seed)
	for _, c := range prop {
		h = mix64(h ^ uint64(c))
	}
	return mix64(h^uint64(i))>>16 | 1
}

// PlanFor makes the i-th plan of a check.
func PlanFor(prop string, seed int64, i int, override string) *Plan {
	l := PropProfiles[prop]
	name := override
	if name == "" {
		name = l[i%len(l)]
	}
	s := planSeed(seed, prop, i)
	p := Profiles[name](s)
	p.Seed, p.Prop, p.Profile = s, prop, name
	return p
}

type stat struct {
	runs, hits     int
	simNs          int64
	faults         map[string]int
	profile        map[string]int
	hashes         map[uint64]bool
	hitHashes      map[uint64]bool
	net            map[string]uint64
	picks          uint64
	switches       uint64
	preempts       uint64
	stalls         uint64
	pauses         uint64
	specs, calls   int
	procs          map[int]int
	outcomes       map[string]int
	samples        []any
	known          map[string]int
	policies       map[string]int
	status         map[string]int
	states         map[string]int
	facts          map[string]int
	unreproduced   []string
	unconfirmed    []string
	errs           []string
	processes      int
	killed         int
	selfChecks     int
	selfMismatches int
}

var polName = []string{"fifo", "uniform", "sticky", "pct", "lifo"}

// RunCheck is one check of one property. It returns the exit status.
func RunCheck(s Settings) int {
	t0 := time.Now()
	st := &stat{faults: map[string]int{}, profile: map[string]int{}, hashes: map[uint64]bool{}, hitHashes: map[uint64]bool{}, net: map[string]uint64{}, procs: map[int]int{}, outcomes: map[string]int{}, known: map[string]int{}, policies: map[string]int{}, status: map[string]int{}, states: map[string]int{}, facts: map[string]int{}}
	known := loadKnown(s.KnownFile)
	var runners []*Runner
	for i := 0; i < s.Workers; i++ {
		runners = append(runners, &Runner{Bin: s.Bin})
	}
	defer func() {
		for _, r := range runners {
			r.Close()
		}
	}()
	type hit struct {
		i int
		p *Plan
		f Finding
		// the finding needs the long pauses of its schedule
		soft bool
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	var hits []hit
	deadline := t0.Add(s.Budget)
	broken := false
	firm := func() int {
		n, soft := 0, map[string]int{}
		for _, h := range hits {
			if h.soft {
				soft[h.f.Class]++
			} else {
				n++
			}
		}
		for _, k := range soft { // two of a kind
			if k > 1 {
				n += k
			}
		}
		return n
	}
	for _, r := range runners {
		wg.Add(1)
		go func(r *Runner) {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				limit, until := s.Runs, deadline
				if len(hits) > 0 && firm() == 0 { // look longer for a second case
					limit, until = 3*limit, until.Add(s.Budget*3/2)
				}
				stop := i >= limit || time.Now().After(until) || firm() >= s.MaxViolations || len(st.errs) > 20
				mu.Unlock()
				if stop {
					return
				}
				p := PlanFor(s.Prop, s.Seed, i, s.ProfileOverride)
				res, err := r.Run(p)
				if err != nil {
					// once more, to tell an overloaded machine from a hang
					res, err = r.Run(p)
				}
				if err != nil {
					f, ok := badEnd(err)
					mu.Lock()
					if ok {
						hits = append(hits, hit{i, p, f, false})
					} else {
						st.errs = append(st.errs, fmt.Sprintf("plan %d (seed %d): %v", i, p.Seed, err))
					}
					mu.Unlock()
					continue
				}
				v := Judge(p, res)
				fs := ofProp(v.out, s.Prop)
				soft, q := false, p
				if len(fs) > 0 && p.Sched.PauseSites > 0 {
					g := clone(p)
					g.Sched.PauseSites, g.Sched.PauseMax, g.Sched.PauseIn = 0, 0, 0
					gs, _, err := r.Judge(g, s.Prop)
					soft = true
					for _, f := range gs {
						if err == nil && f.Known == "" {
							soft, fs, q = false, append([]Finding{f}, fs...), g
							break
						}
					}
				}
				mu.Lock()
				st.add(s.Prop, p, res, v)
				for _, f := range fs {
					if f.Known != "" {
						if known.has(s.Prop, f.Known) {
							st.known[f.Known]++
							continue
						}
						f.Known = ""
					}
					hits = append(hits, hit{i, q, f, soft})
					break
				}
				mu.Unlock()
				if i%97 == 5 { // determinism self-check
					res2, err := r.Run(p)
					mu.Lock()
					st.selfChecks++
					if err == nil && (digest(res2) != digest(res) || res2.Hash != res.Hash) {
						st.selfMismatches++
						st.errs = append(st.errs, fmt.Sprintf("plan %d (seed %d) is not repeatable", i, p.Seed))
					}
					mu.Unlock()
				}
			}
		}(r)
	}
	wg.Wait()
	runWall := time.Since(t0)
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
	if firm() == 0 && len(hits) > 0 { // a single case, under long pauses only: too close to the tolerances to be believed
		for _, h := range hits {
			st.unconfirmed = append(st.unconfirmed, fmt.Sprintf("plan %d (seed %d): %s: %s", h.i, h.p.Seed, h.f.Class, h.f.Msg))
		}
		hits = nil
	}
	violations := 0
	done := map[string]bool{}
	for _, h := range hits {
		if done[h.f.Class] || violations >= 3 {
			continue
		}
		// the same plan must fail the same way again
		same := false
		for k := 0; k < 2 && !same; k++ {
			fs, _, err := runners[0].Judge(h.p, s.Prop)
			for _, f := range fs {
				same = same || err == nil && f.Class == h.f.Class
			}
		}
		if !same {
			st.unreproduced = append(st.unreproduced, fmt.Sprintf("plan %d (seed %d): %s: %s", h.i, h.p.Seed, h.f.Class, h.f.Msg))
			continue
		}
		done[h.f.Class] = true
		violations++
		b := s.ShrinkBudget
		if h.f.Class == "wall" {
			b = 0
		}
		small, tried := Shrink(runners, h.p, s.Prop, h.f.Class, b)
		rp := &Replay{Property: s.Prop, Class: h.f.Class, Message: h.f.Msg, Seed: h.p.Seed, From: fmt.Sprintf("profile %s, VERIF_SEED=%d, plan %d", h.p.Profile, s.Seed, h.i), Tried: tried, Plan: small}
		fs, res, _ := runners[0].Judge(small, s.Prop)
		for _, f := range fs {
			if f.Class == h.f.Class {
				rp.Message = f.Msg
				break
			}
		}
		if res != nil {
			rp.Hash, rp.History = res.Hash, digest(res)
			rp.Trace = Trace(res)
		}
		os.MkdirAll(s.ReplayDir, 0o755)
		path := filepath.Join(s.ReplayDir, fmt.Sprintf("%s-%d-%s.json", s.Prop, h.p.Seed, strings.ReplaceAll(h.f.Class, ":", "_")))
		j, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, j, 0o644)
		fmt.Printf("%s: %s\n", h.f.Class, rp.Message)
		fmt.Printf("  seed %d, profile %s; minimised with %d runs; replay with: bash /verif/replay.sh %s\n", h.p.Seed, h.p.Profile, tried, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, path)
	}
	// known findings: show that each listed one still fails
	for _, k := range known.of(s.Prop) {
		n := st.known[k.Name]
		shown := n > 0
		if !shown && k.Plan != "" {
			if rp, err := LoadReplay(filepath.Join(s.KnownDir, k.Plan)); err == nil {
				fs, _, err := runners[0].Judge(rp.Plan, s.Prop)
				for _, f := range fs {
					shown = shown || err == nil && f.Known == k.Name
				}
			}
		}
		if shown {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.Prop, k.What)
		}
	}
	for _, e := range st.errs {
		fmt.Println("machinery:", e)
	}
	for _, e := range st.unreproduced {
		fmt.Println("not reproduced, not counted:", e)
	}
	for _, e := range st.unconfirmed {
		fmt.Println("seen once, under long pauses only, not counted:", e)
	}
	broken = len(st.errs) > 3 || st.runs == 0
	ev := st.evidence(s, violations, runWall, time.Since(t0))
	if s.EvidenceFile != "" {
		os.MkdirAll(filepath.Dir(s.EvidenceFile), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(s.EvidenceFile, append(j, '\n'), 0o644); err != nil {
			fmt.Println("machinery:", err)
			broken = true
		}
	}
	fmt.Printf("%s %s: %d simulated runs (%d bear on it, %d distinct histories) in %.1f s, %.0f s of simulated time, %d violations\n", s.Prop, s.Tier, st.runs, st.hits, len(st.hashes), runWall.Seconds(), float64(st.simNs)/1e9, violations)
	switch {
	case violations > 0:
		return 1
	case broken:
		return 2
	}
	return 0
}

func (st *stat) add(prop string, p *Plan, r *Result, v *view) {
	st.runs++
	st.simNs += r.SimNs
	st.profile[p.Profile]++
	st.hashes[r.Hash] = true
	if v.touched[prop] > 0 {
		st.hits++
		st.hitHashes[r.Hash] = true
	}
	for k, n := range r.FaultHit {
		st.faults[k] += n
	}
	for k, n := range v.facts {
		st.facts[k] += n
	}
	for k, n := range r.NetStats {
		st.net[k] += n
	}
	st.picks += r.Picks
	st.switches += r.Switches
	st.preempts += r.Preempts
	st.stalls += r.Stalls
	st.pauses += r.Pauses
	st.procs[p.Procs]++
	st.policies[polName[p.Sched.Policy%len(polName)]]++
	st.status[r.Status]++
	st.processes += len(r.Procs)
	for i := range r.Events {
		if r.Events[i].Kind == "enter" {
			st.calls++
		}
	}
	for _, rep := range v.reps {
		for i := range rep.SpecReports {
			if rep.SpecReports[i].LeafNodeType == "It" {
				st.specs++
				st.states[rep.SpecReports[i].State]++
			}
		}
	}
	if len(st.samples) < 3 && v.touched[prop] > 0 {
		var names []string
		for _, su := range p.Suites {
			names = append(names, fmt.Sprintf("%s: %d specs", su.Name, len(specsOf(su.Nodes))))
		}
		tr := Trace(r)
		if len(tr) > 25 {
			tr = tr[:25]
		}
		st.samples = append(st.samples, map[string]any{"seed": p.Seed, "profile": p.Profile, "procs": p.Procs, "suites": names, "faults": p.Faults, "flags": append(append([]string{}, p.Flags...), p.TestArgs...), "protocol": p.Protocol, "schedule": p.Sched, "network": p.Net, "simulated_ms": r.SimNs / 1e6, "scheduling_decisions": r.Picks, "history_start": tr})
	}
}

func (st *stat) evidence(s Settings, violations int, runWall, wall time.Duration) *Evidence {
	perH := func(n int) int {
		if runWall <= 0 {
			return 0
		}
		return int(float64(n) / runWall.Hours())
	}
	cov := map[string]any{
		"evaluations":                       st.runs,
		"distinct_nontrivial":               len(st.hitHashes),
		"rule":                              PropRule[s.Prop] + " Every case is one simulated run of the real ginkgo command and/or suite runner on a generated suite; runs are distinct when the hash of all scheduling decisions and events differs, non-trivial when the oracles of this property evaluated at least one fact in it.",
		"samples":                           st.samples,
		"simulated_runs_and_seeds_per_hour": perH(st.runs),
		"simulated_seconds":                 float64(st.simNs) / 1e9,
		"faults_injected":                   st.faults,
		"network":                           st.net,
		"distinct_schedules":                len(st.hashes),
		"scheduling_decisions":              st.picks,
		"context_switches":                  st.switches,
		"preemptions":                       st.preempts,
		"stalls":                            st.stalls,
		"pauses":                            st.pauses,
		"scheduling_policies":               st.policies,
		"profiles":                          st.profile,
		"parallel_processes":                st.procs,
		"simulated_processes":               st.processes,
		"user_callbacks_checked":            st.calls,
		"specs_reported":                    st.specs,
		"spec_states":                       st.states,
		"facts_compared":                    st.facts,
		"run_ends":                          st.status,
		"determinism_checks":                st.selfChecks,
		"determinism_mismatches":            st.selfMismatches,
		"known_findings_seen":               st.known,
		"unreproduced":                      st.unreproduced,
		"unconfirmed":                       st.unconfirmed,
		"machinery_errors":                  st.errs,
		"real_components":                   RealComponents,
		"stubbed_components":                StubComponents,
		"build_s":                           s.BuildS,
		"planned_runs":                      s.Runs,
	}
	if s.Prop == "C25" {
		cov["real_components"] = []string{"all Go code of the ginkgo watch command (flags, suite discovery, dependencies through go/build, package hashes, change detection, compilation, launch of the binaries, combination of profiles, interrupts)", "the Go standard library above the system-call layer, with the runtime scheduler's choices, timers and clock under the simulator", "the files of the watched tree, in a scratch directory, with simulated modification times"}
		cov["stubbed_components"] = []string{"go test -c (a simulated compiler)", "the test binaries (they take a drawn time and pass or fail)", "the kernel: processes, fork/exec/wait, signals, pipes and the clock are simulated"}
	}
	if s.Prop == "C26" {
		cov["real_components"] = []string{"all Go code of the ginkgo unfocus command (directory walk, workers, parsing, rewriting, backups)", "the Go standard library above the system-call layer, with the runtime scheduler's choices, timers and clock under the simulator", "the files of the tree, in a scratch directory"}
		cov["stubbed_components"] = []string{"the kernel: processes, signals and the clock are simulated, disk errors are injected at the system-call layer"}
	}
	return &Evidence{Property: s.Prop, Tier: s.Tier, Seed: s.Seed, Level: "exploration", Coverage: cov, Assumptions: Assumptions, WallS: wall.Seconds() + s.BuildS, Violations: violations}
}

var RealComponents = []string{
	"all Go code of the repository used by a suite (DSL, tree building, ordering, groups, runNode, interrupt handler, output interceptor, writer, progress reports, reporters, report files, parallel client and server over net/rpc and net/http)",
	"all Go code of the ginkgo run command (flags, suite discovery, compilation queue, process launch, report merging, exit codes)",
	"the Go standard library above the system-call layer, with the runtime scheduler's choices, timers and clock under the simulator",
}

var StubComponents = []string{
	"go test -c (a simulated compiler that produces a runnable simulated binary after a simulated delay)",
	"the kernel: processes, fork/exec/wait, signals, pipes, TCP loopback and the clock are simulated; files are real files in a memory-backed scratch directory",
	"user code: generated suites that log every callback",
}

var Assumptions = []string{
	"goroutine preemption happens at statement boundaries of Ginkgo and suite code and at every blocking operation; data races below that granularity are out of reach",
	"the simulated kernel delivers signals, pipe data and connection resets like Linux does",
}

// Trace writes the history out, one line per event.
func Trace(r *Result) []string {
	var out []string
	for i := range r.Events {
		e := &r.Events[i]
		s := fmt.Sprintf("%.3fms", float64(e.T)/1e6)
		if e.Node == 0 {
			s += " cli"
		} else {
			s += fmt.Sprintf(" process %d", e.Proc)
		}
		s += " " + e.Kind
		if e.ID != "" {
			s += " " + e.ID
		}
		if e.Spec != "" {
			s += " of " + e.Spec
		}
		if e.Att > 0 {
			s += fmt.Sprintf(" attempt %d", e.Att)
		}
		if e.S != "" {
			s += " " + clip(e.S)
		}
		out = append(out, s)
		if len(out) >= 400 {
			out = append(out, "…")
			break
		}
	}
	return out
}

func LoadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rp := &Replay{}
	return rp, json.Unmarshal(b, rp)
}

// RunReplay reruns a replay file. 1: reproduced, 0: the property holds now.
func RunReplay(bin, path string, verbose bool) int {
	rp, err := LoadReplay(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := &Runner{Bin: bin}
	defer r.Close()
	fs, res, err := r.Judge(rp.Plan, rp.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if verbose && res != nil {
		for _, l := range Trace(res) {
			fmt.Println(l)
		}
		fmt.Println(res.Stdout)
		fmt.Println(res.Stderr)
	}
	if res != nil {
		if res.Hash == rp.Hash && digest(res) == rp.History {
			fmt.Println("the recorded schedule and history are reproduced exactly")
		} else {
			fmt.Println("the history differs from the recorded one (the code has changed)")
		}
	}
	for _, f := range fs {
		fmt.Printf("%s: %s\n", f.Class, f.Msg)
	}
	if len(fs) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
		return 1
	}
	return 0
}

// ---- known findings ----

type knownFinding struct{ Prop, Name, Plan, What string }

type knownList []knownFinding

// The file has lines "known: property=<id> name=<name> replay=<file> <what fails>"
// and "fixed: property=<id> <commit> <what failed>"; only the former matter here.
func loadKnown(path string) knownList {
	var out knownList
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(f) != 4 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "name="), strings.TrimPrefix(f[2], "replay="), f[3]})
	}
	return out
}

func (k knownList) has(prop, name string) bool {
	for _, x := range k {
		if x.Prop == prop && x.Name == name {
			return true
		}
	}
	return false
}

func (k knownList) of(prop string) []knownFinding {
	var out []knownFinding
	for _, x := range k {
		if x.Prop == prop {
			out = append(out, x)
		}
	}
	return out
}
