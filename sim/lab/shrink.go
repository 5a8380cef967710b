package lab

import (
	"encoding/json"
	"reflect"
	"sync"
	"time"

	"sim/plan"
)

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// Judge runs a plan and returns its findings for one property.
func (r *Runner) Judge(p *Plan, prop string) ([]Finding, *Result, error) {
	res, err := r.Run(p)
	if err != nil {
		if f, ok := badEnd(err); ok {
			return ofProp([]Finding{f}, prop), nil, nil
		}
		return nil, nil, err
	}
	return ofProp(Check(p, res), prop), res, nil
}

func ofProp(l []Finding, prop string) []Finding {
	var out []Finding
	for _, f := range l {
		if prop == "" || f.has(prop) {
			out = append(out, f)
		}
	}
	return out
}

// size orders plans: smaller is better.
func size(p *Plan) int { b, _ := json.Marshal(p); return len(b) }

// Shrink looks for a smaller plan that still breaks the property in the same way.
func Shrink(workers []*Runner, p *Plan, prop, class string, budget time.Duration) (*Plan, int) {
	end := time.Now().Add(budget)
	best := clone(p)
	tried := 0
	bad := func(r *Runner, q *Plan) bool {
		fs, _, err := r.Judge(q, prop)
		if err != nil {
			return false
		}
		for _, f := range fs {
			if f.Known == "" && f.Class == class {
				return true
			}
		}
		return false
	}
	for round := 0; round < 12 && time.Now().Before(end); round++ {
		progress := false
		cands := candidates(best)
		for i := 0; i < len(cands) && time.Now().Before(end); {
			// try a batch in parallel; the first success in order wins
			n := len(workers)
			if i+n > len(cands) {
				n = len(cands) - i
			}
			ok := make([]*Plan, n)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				q := clone(best)
				if !cands[i+j](q) || size(q) >= size(best) {
					continue
				}
				wg.Add(1)
				tried++
				go func(j int) {
					defer wg.Done()
					if bad(workers[j], q) {
						ok[j] = q
					}
				}(j)
			}
			wg.Wait()
			won := false
			for j := 0; j < n; j++ {
				if ok[j] != nil {
					best = ok[j]
					progress, won = true, true
					i += j + 1
					break
				}
			}
			if !won {
				i += n
			}
			if won && structural(best, cands) {
				break
			}
		}
		if !progress {
			break
		}
	}
	return best, tried
}

// structural: candidates are addressed by position, so start over after a success.
func structural(p *Plan, c []func(*Plan) bool) bool { return true }

type candidate = func(*Plan) bool

// candidates lists simplifications, big ones first.
func candidates(p *Plan) []candidate {
	var out []candidate
	add := func(c candidate) { out = append(out, c) }
	if len(p.Suites) > 1 {
		for i := range p.Suites {
			add(func(q *Plan) bool {
				q.Suites = append(q.Suites[:i:i], q.Suites[i+1:]...)
				for k := range q.Faults {
					if q.Faults[k].Suite > i {
						q.Faults[k].Suite--
					}
				}
				return true
			})
		}
	}
	// schedule
	add(func(q *Plan) bool { q.Sched = pSched0(q); return true })
	add(func(q *Plan) bool { q.Sched.Preempt = 0; return true })
	add(func(q *Plan) bool { q.Sched.StallProb, q.Sched.StallMax = 0, 0; return true })
	add(func(q *Plan) bool { q.Sched.PauseSites, q.Sched.PauseMax, q.Sched.PauseIn = 0, 0, 0; return true })
	add(func(q *Plan) bool { q.Sched.Policy = 0; return true })
	add(func(q *Plan) bool { q.Net.StallProb, q.Net.StallMax = 0, 0; return true })
	add(func(q *Plan) bool { q.Net.SegMax, q.Net.DialMax = 0, 0; return true })
	for i := range p.Faults {
		add(func(q *Plan) bool { q.Faults = append(q.Faults[:i:i], q.Faults[i+1:]...); return true })
	}
	if len(p.Unfocus) > 1 {
		add(func(q *Plan) bool { q.Unfocus = q.Unfocus[:len(q.Unfocus)/2]; return true })
		add(func(q *Plan) bool { q.Unfocus = q.Unfocus[len(q.Unfocus)/2:]; return true })
		for i := range p.Unfocus {
			add(func(q *Plan) bool { q.Unfocus = append(q.Unfocus[:i:i], q.Unfocus[i+1:]...); return true })
		}
	}
	// nodes: whole subtrees
	n := 0
	eachList(p, func(l *[]*Node) { n += len(*l) })
	for k := 0; k < n; k++ {
		add(func(q *Plan) bool {
			j := 0
			done := false
			eachList(q, func(l *[]*Node) {
				for i := range *l {
					if j == k && !done {
						done = true
						*l = append((*l)[:i:i], (*l)[i+1:]...)
						j++
						return
					}
					j++
				}
			})
			return done && specsLeft(q)
		})
	}
	// hoist the children of a container
	for k := 0; k < n; k++ {
		add(func(q *Plan) bool {
			j := 0
			done := false
			eachList(q, func(l *[]*Node) {
				for i := range *l {
					if j == k && !done {
						done = true
						c := (*l)[i]
						if c.Kind != "container" {
							j++
							return
						}
						if c.Ordered {
							for _, x := range c.Kids {
								if x.Kind == "ba" || x.Kind == "aa" || x.Opo {
									j++
									return
								}
							}
						}
						*l = append(append(append([]*Node{}, (*l)[:i]...), c.Kids...), (*l)[i+1:]...)
						j++
						return
					}
					j++
				}
			})
			return done
		})
	}
	// actions
	m := 0
	eachBody(p, func(b *[]Action) { m += len(*b) })
	for k := 0; k < m; k++ {
		add(func(q *Plan) bool {
			j := 0
			done := false
			eachBody(q, func(b *[]Action) {
				for i := range *b {
					if j == k && !done {
						done = true
						*b = append((*b)[:i:i], (*b)[i+1:]...)
						j++
						return
					}
					j++
				}
			})
			return done
		})
	}
	// decorators
	nodes := 0
	eachNode(p, func(su *Suite, n *Node) { nodes++ })
	for k := 0; k < nodes; k++ {
		for w := 0; w < 9; w++ {
			add(func(q *Plan) bool {
				j, done := 0, false
				eachNode(q, func(su *Suite, n *Node) {
					if j == k {
						done = plain(n, w)
					}
					j++
				})
				return done
			})
		}
	}
	// options
	for w := 0; w < 14; w++ {
		add(func(q *Plan) bool { return plainOpt(q, w) })
	}
	if p.Procs > 2 {
		add(func(q *Plan) bool { q.Procs = 2; return true })
		add(func(q *Plan) bool { q.Procs--; return true })
	}
	// schedule window
	if p.Sched.WinTo == 0 {
		for _, w := range []uint64{200, 1000, 5000, 20000} {
			add(func(q *Plan) bool { q.Sched.WinTo = w; return true })
		}
	}
	return out
}

func pSched0(q *Plan) (s plan.Sched) {
	s = q.Sched
	s.Policy, s.Preempt, s.StallProb, s.StallMax, s.PauseSites, s.PauseMax, s.PauseIn = 0, 0, 0, 0, 0, 0, 0
	return
}

func specsLeft(q *Plan) bool {
	for _, s := range q.Suites {
		if len(specsOf(s.Nodes)) == 0 && len(q.Suites) == 1 {
			return false
		}
	}
	return true
}

func eachList(p *Plan, f func(l *[]*Node)) {
	var walk func(l *[]*Node)
	walk = func(l *[]*Node) {
		f(l)
		for _, n := range *l {
			walk(&n.Kids)
		}
	}
	for _, s := range p.Suites {
		walk(&s.Nodes)
	}
}

func eachBody(p *Plan, f func(b *[]Action)) {
	var body func(b *[]Action)
	body = func(b *[]Action) {
		f(b)
		for i := range *b {
			body(&(*b)[i].Body)
			if (*b)[i].Dc != nil {
				body(&(*b)[i].Dc.Body)
			}
		}
	}
	eachList(p, func(l *[]*Node) {
		for _, n := range *l {
			body(&n.Body)
			body(&n.Body2)
		}
	})
}

func plain(n *Node, w int) bool {
	switch w {
	case 0:
		if n.Flake > 0 || n.Mpr > 0 {
			n.Flake, n.Mpr = 0, 0
			return true
		}
	case 1:
		if n.Cof {
			n.Cof = false
			return true
		}
	case 2:
		if n.Opo {
			n.Opo = false
			return true
		}
	case 3:
		if len(n.Labels) > 0 {
			n.Labels = nil
			return true
		}
	case 4:
		if n.Serial {
			n.Serial = false
			return true
		}
	case 5:
		if n.Pend {
			n.Pend = false
			return true
		}
	case 6:
		if n.PA > 0 || n.PI > 0 {
			n.PA, n.PI = 0, 0
			return true
		}
	case 7:
		if n.Focus {
			n.Focus = false
			return true
		}
	case 8:
		if len(n.Data) > 1 {
			n.Data = []byte("d")
			return true
		}
	}
	return false
}

func plainOpt(q *Plan, w int) bool {
	o := &q.Opt
	before := *o
	switch w {
	case 0:
		o.RandAll = false
	case 1:
		o.Verbosity = ""
	case 2:
		o.Flake = 0
	case 3:
		noFilters(o)
	case 4:
		o.FailPending, o.FailEmpty = false, false
	case 5:
		o.JUnit, o.Teamcity = false, false
	case 6:
		o.Repeat, o.UntilFails = 0, false
	case 7:
		o.KeepGoing = false
	case 8:
		o.FailFast = false
	case 9:
		o.Hook = false
	case 10:
		o.OutputDir, o.KeepSeparate = false, false
	case 11:
		o.RandSuites = false
	case 12:
		o.PollAfter, o.PollInterval = 0, 0
	case 13:
		o.Compilers = 0
	}
	return !reflect.DeepEqual(before, *o)
}
