package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"

	"sim/lab"
)

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	s := lab.Settings{Workers: 8, MaxViolations: 12}
	fl.StringVar(&s.Bin, "bin", "", "simulation binary")
	fl.StringVar(&s.Prop, "prop", "", "property")
	fl.StringVar(&s.Tier, "tier", "quick", "quick or thorough")
	fl.Int64Var(&s.Seed, "seed", 1, "seed of every random choice")
	fl.StringVar(&s.EvidenceFile, "evidence", "", "evidence file")
	fl.StringVar(&s.ReplayDir, "replays", "/tmp", "where replay files go")
	fl.StringVar(&s.KnownFile, "known", "", "known findings")
	fl.Float64Var(&s.BuildS, "builds", 0, "seconds spent building")
	fl.IntVar(&s.Runs, "runs", 0, "override the number of runs")
	fl.StringVar(&s.ProfileOverride, "profile", "", "use only this profile")
	fl.DurationVar(&s.Budget, "budget", 0, "override the time budget")
	fl.Parse(args)
	s.KnownDir = filepath.Dir(s.KnownFile)
	runs, budget := 9000, 55*time.Second
	s.ShrinkBudget = 15 * time.Second
	if s.Tier == "thorough" {
		runs, budget = 150000, 12*time.Minute
		s.ShrinkBudget = 60 * time.Second
	}
	if s.Runs == 0 {
		s.Runs = runs
	}
	if s.Budget == 0 {
		s.Budget = budget
	}
	if lab.PropProfiles[s.Prop] == nil {
		fmt.Println("machinery: unknown property", s.Prop)
		return 2
	}
	return lab.RunCheck(s)
}

func cmdReplay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	bin := fl.String("bin", "", "simulation binary")
	v := fl.Bool("v", false, "print the history")
	fl.Parse(args)
	return lab.RunReplay(*bin, fl.Arg(0), *v)
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "check":
			os.Exit(cmdCheck(os.Args[2:]))
		case "repeat": // vsim repeat bin profile seed n: is a plan repeatable?
			seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
			n, _ := strconv.Atoi(os.Args[5])
			p := lab.Profiles[os.Args[3]](seed)
			p.Seed = seed
			r := &lab.Runner{Bin: os.Args[2]}
			defer r.Close()
			var first *lab.Result
			for i := 0; i < n; i++ {
				res, err := r.Run(p)
				if err != nil {
					fmt.Println(err)
					continue
				}
				fmt.Println(res.Hash, lab.Digest(res), res.Picks)
				if first == nil {
					first = res
				} else if d := lab.DiffResults(first, res); d != "" {
					fmt.Println(d)
				}
			}
			return
		case "replay":
			os.Exit(cmdReplay(os.Args[2:]))
		}
	}
	bin := flag.String("bin", "/tmp/simout/simchild", "")
	n := flag.Int("n", 200, "")
	from := flag.Uint64("from", 1, "")
	dump := flag.Bool("dump", false, "")
	prof := flag.String("profile", "core", "")
	show := flag.Int("show", 3, "")
	flag.Parse()
	gen := lab.Profiles[*prof]
	if *dump {
		p := gen(*from)
		r := &lab.Runner{Bin: *bin}
		defer r.Close()
		res, err := r.Run(p)
		b, _ := json.Marshal(p)
		os.WriteFile("/tmp/d.plan", b, 0o644)
		if err != nil {
			fmt.Println(err)
			return
		}
		b, _ = json.MarshalIndent(res, "", " ")
		os.WriteFile("/tmp/d.res", b, 0o644)
		for _, e := range res.Events {
			fmt.Printf("%d t=%.3fms n%d p%d %s %s spec=%s att=%d ex=%d %q\n", e.Seq, float64(e.T)/1e6, e.Node, e.Proc, e.Kind, e.ID, e.Spec, e.Att, e.Ex, e.S)
		}
		fmt.Println(res.Stdout)
		fmt.Println("STDERR", res.Stderr)
		fmt.Println(res.Status, res.SimNs/1e6, "ms")
		for _, f := range lab.Check(p, res) {
			fmt.Println("FINDING", f)
		}
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	classes := map[string]int{}
	facts := map[string]int{}
	ex := map[string][]string{}
	next := *from
	t0 := time.Now()
	sim := int64(0)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &lab.Runner{Bin: *bin}
			defer r.Close()
			for {
				mu.Lock()
				s := next
				next++
				mu.Unlock()
				if s >= *from+uint64(*n) {
					return
				}
				p := gen(s)
				res, err := r.Run(p)
				mu.Lock()
				if err != nil {
					classes["ERR"]++
					ex["ERR"] = append(ex["ERR"], fmt.Sprint(s, " ", err))
				} else {
					sim += res.SimNs
					done := map[string]bool{}
					fs, fc := lab.CheckFacts(p, res)
					for k, n := range fc {
						facts[k] += n
					}
					for _, f := range fs {
						if !done[f.Class] {
							done[f.Class] = true
							classes[f.Class]++
							ex[f.Class] = append(ex[f.Class], fmt.Sprint(s, " ", f.Props, " ", f.Msg))
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var l []string
	for c := range classes {
		l = append(l, c)
	}
	sort.Strings(l)
	fmt.Printf("%d runs in %v, %.0f simulated s\n", *n, time.Since(t0), float64(sim)/1e9)
	fmt.Println(facts)
	for _, c := range l {
		fmt.Println(classes[c], c)
		for i, e := range ex[c] {
			if i < *show {
				if len(e) > 700 {
					e = e[:700]
				}
				fmt.Println("     ", e)
			}
		}
	}
}
