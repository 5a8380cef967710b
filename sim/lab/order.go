package lab

import (
	"fmt"
	"slices"
	"sort"
)

// C23: the order of the specs is a function of the seed.  A run of the order
// profile has companions: the same suite with the same seed in series, and for
// some plans in series with other seeds.

const seeds = 12 // orders compared when looking for variety

// companions are the further runs a plan of the order profile asks for.
func companions(p *Plan, r *Result) []*Plan {
	if p.Profile != "order" || r.Status != "finished" {
		return nil
	}
	v := newView(p, r)
	rep := v.rep[p.Suites[0].Name]
	if rep == nil || rep.SuiteConfig.RandomSeed == 0 {
		return nil
	}
	twin := func(seed int64) *Plan {
		q := clone(p)
		q.Profile, q.Procs, q.Opt.Seed = "order-twin", 1, seed
		q.Sched.Policy, q.Sched.Preempt, q.Sched.StallProb, q.Sched.PauseSites = 0, 0, 0, 0
		return q
	}
	l := []*Plan{twin(rep.SuiteConfig.RandomSeed)}
	if p.Vary {
		for i := int64(1); i < seeds; i++ {
			l = append(l, twin(rep.SuiteConfig.RandomSeed+i*7919))
		}
	}
	return l
}

// seed is the seed of the run, which the command picks where none is given.
func (v *view) seed() int64 {
	if v.p.Opt.Seed != 0 {
		return v.p.Opt.Seed
	}
	for i := range v.reps {
		if s := v.reps[i].SuiteConfig.RandomSeed; s != 0 {
			return s
		}
	}
	return wallBase / 1e9
}

// took lists the specs each process ran, in the order it took them.
func (rv *rview) took() [][]string {
	var out [][]string
	for _, pv := range rv.order {
		var l []string
		seen := map[string]bool{}
		for i := range pv.ev {
			if e := pv.ev[i]; e.Kind == "enter" && e.Spec != "" && !seen[e.Spec] {
				seen[e.Spec] = true
				l = append(l, e.Spec)
			}
		}
		out = append(out, l)
	}
	return out
}

// unit is what is shuffled as a whole: the outermost node, or with
// --randomize-all the outermost Ordered container or the spec itself.
func (m *msuite) unit(s *mspec) string {
	if !m.opt.RandAll {
		if len(s.chain) > 0 {
			return s.chain[0].ID
		}
		return s.it.ID
	}
	if s.root != nil {
		return s.root.ID
	}
	return s.it.ID
}

// within orders two specs of one unit as the documentation does: by where
// they are in the file, and those of an Ordered container as declared.
// It is 0 where nothing is promised.
func (m *msuite) within(a, b *mspec) int {
	if a.root != nil && a.root == b.root {
		return slices.Index(m.specs, a) - slices.Index(m.specs, b)
	}
	key := func(s *mspec) []*Node {
		l := append(append([]*Node{}, s.chain...), s.it)
		if s.root != nil {
			l = l[:s.rootIdx+1]
		}
		return l
	}
	x, y := key(a), key(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].L != y[i].L {
			return x[i].L - y[i].L
		}
		if x[i] != y[i] {
			return 0
		}
	}
	return 0
}

func (v *view) order() {
	if v.p.Profile != "order" || len(v.runs) != 1 {
		return
	}
	v.touch("C23")
	v.orderWithin(v.runs[0])
	if len(v.r.Twins) == 0 {
		return
	}
	var orders [][]string
	for i, t := range v.r.Twins {
		q := clone(v.p)
		q.Procs = 1
		w := newView(q, t)
		if t.Status != "finished" || len(w.runs) != 1 {
			v.add("order-twin", "C23", "the run in series with %s does not finish: %s", []string{"the same seed", "another seed"}[min(i, 1)], t.Status)
			return
		}
		w.orderWithin(w.runs[0])
		v.out = append(v.out, w.out...)
		orders = append(orders, w.runs[0].took()[0])
	}
	m := v.model(0, 0)
	pos := map[string]int{}
	for i, n := range orders[0] {
		pos[n] = i
	}
	for i, l := range v.runs[0].took() {
		last := map[bool]string{}
		for _, n := range l {
			s := m.byName[n]
			if s == nil {
				continue
			}
			j, ok := pos[n]
			if !ok {
				continue // suite setup or an earlier spec ended differently there
			}
			k := s.serial && v.p.Procs > 1
			if last[k] != "" {
				v.fact("order of two specs")
				if j < pos[last[k]] {
					v.add("order-seed", "C23", "process %d of %d runs %s before %s; in series with the same seed they run in the opposite order %v", i+1, v.p.Procs, last[k], n, orders[0])
				}
			}
			if v.p.Procs > 1 && !k && last[true] != "" {
				v.add("order-serial", "C23 C11", "process %d runs %s, which is not Serial, after the Serial spec %s", i+1, n, last[true])
			}
			last[k] = n
		}
	}
	if v.p.Procs > 1 {
		v.fact("parallel order against series")
	}
	v.orderVaries(m, orders)
}

// orderWithin judges one run by itself.
func (v *view) orderWithin(rv *rview) {
	m := v.model(rv.suite, rv.iter)
	for i, l := range rv.took() {
		where := fmt.Sprintf("process %d of %d", i+1, v.p.Procs)
		for _, serial := range []bool{false, true} {
			var prev *mspec
			left := map[string]bool{}
			for _, n := range l {
				s := m.byName[n]
				if s == nil || v.p.Procs > 1 && s.serial != serial || v.p.Procs == 1 && serial {
					continue
				}
				u := m.unit(s)
				if left[u] {
					v.add("order-split", "C23", "%s comes back to %s with %s after running specs from elsewhere: %v", where, u, n, l)
				}
				if prev != nil {
					v.fact("order within a unit")
					if pu := m.unit(prev); pu != u {
						left[pu] = true
					} else if m.within(prev, s) > 0 {
						v.add("order-within", "C23", "%s runs %s before %s, which comes first in %s: %v", where, prev.name, n, u, l)
					}
				}
				prev = s
			}
		}
	}
}

// orderVaries looks at the orders of many seeds.  The chance that a fair
// shuffle is reported is below one in ten million.
func (v *view) orderVaries(m *msuite, orders [][]string) {
	if len(orders) < seeds {
		return
	}
	at := map[string]map[int]bool{} // unit → places it takes
	var n int
	firsts := map[string]bool{}
	for _, o := range orders {
		var us []string
		for _, name := range o {
			if s := m.byName[name]; s != nil {
				if u := m.unit(s); !slices.Contains(us, u) {
					us = append(us, u)
				}
			}
		}
		n = len(us)
		for i, u := range us {
			if at[u] == nil {
				at[u] = map[int]bool{}
			}
			at[u][i] = true
		}
		if n > 0 {
			firsts[us[0]] = true
		}
	}
	if n < 6 {
		return
	}
	v.fact("orders under many seeds")
	var us []string
	for u := range at {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		if len(at[u]) == 1 {
			v.add("order-fixed", "C23", "%s has the same place among %d under %d different seeds: %v", u, n, seeds, orders)
			return
		}
	}
}
