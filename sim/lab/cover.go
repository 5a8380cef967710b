package lab

import (
	"fmt"
	"sort"
	"strings"

	"sim/plan"
)

// C24: coverage and other profiles of all processes and suites are combined
// without loss or invention.

// coverSum combines coverage profiles.
func coverSum(texts []string, mode string) (map[string]int, float64) {
	sum := map[string]int{}
	for _, t := range texts {
		for _, l := range strings.Split(t, "\n") {
			f := strings.Fields(l)
			if len(f) != 3 {
				continue
			}
			n := 0
			fmt.Sscan(f[2], &n)
			sum[f[0]+" "+f[1]] += n
		}
	}
	total, hit := 0, 0
	for k, n := range sum {
		if mode == "set" && n > 1 {
			sum[k] = 1
		}
		st := 0
		fmt.Sscan(k[strings.Index(k, " "):], &st)
		total += st
		if n > 0 {
			hit += st
		}
	}
	return sum, 100 * float64(hit) / float64(max(total, 1))
}

// coverParse reads a coverage profile and complains about what is odd in it.
func coverParse(s, mode string) (map[string]int, string) {
	out := map[string]int{}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if lines[0] != "mode: "+mode {
		return nil, fmt.Sprintf("it starts with %q, the mode is %s", lines[0], mode)
	}
	for _, l := range lines[1:] {
		f := strings.Fields(l)
		if len(f) != 3 {
			return nil, fmt.Sprintf("it has the line %q", l)
		}
		k := f[0] + " " + f[1]
		if _, ok := out[k]; ok {
			return nil, "it has the block " + k + " twice"
		}
		n := 0
		fmt.Sscan(f[2], &n)
		out[k] = n
	}
	return out, ""
}

func diffCounts(want, got map[string]int) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok := want[k]
		g, ok2 := got[k]
		switch {
		case !ok:
			return fmt.Sprintf("it has the block %s, which nothing reported", k)
		case !ok2:
			return fmt.Sprintf("it lacks the block %s", k)
		case w != g:
			return fmt.Sprintf("the count of block %s is %d, it should be %d", k, g, w)
		}
	}
	return ""
}

func (v *view) profiles() {
	p, o := v.p, &v.p.Opt
	covers := o.Cover || o.CoverMode != "" || o.CoverProfile != ""
	st, done := v.rootStatus()
	if !p.Cli || !done || st&0x7f != 0 || !covers && len(o.Profiles) == 0 {
		return
	}
	v.touch("C24")
	if st == 2<<8 {
		v.add("profile-panic", "C24", "the command panics: %.300s", v.r.Stderr)
		return
	}
	mode, name := "set", "coverprofile.out"
	if o.CoverMode != "" {
		mode = o.CoverMode
	}
	if o.CoverProfile != "" {
		name = o.CoverProfile
	}
	diskErr := v.r.FaultHit["disk-error-returned"] > 0
	all := v.r.Stdout + v.r.Stderr
	said := v.profilesFailed()
	at := func(i int, name string) string {
		s := p.Suites[i]
		switch {
		case o.Here && o.OutputDir:
			return s.Path() + "/out/" + s.Name + "_" + name
		case o.OutputDir:
			return "out/" + strings.ReplaceAll(s.Path(), "/", "_") + "_" + name
		}
		return s.Path() + "/" + name
	}
	top := name
	if o.OutputDir {
		top = "out/" + name
	}
	if o.Here {
		top = p.Suites[0].Path() + "/" + top
	}
	var texts []string
	anyLost, anyFocus, anyRan := false, false, false
	expect := map[string]bool{}
	for _, rv := range v.runs {
		anyRan = true
		focus, lost := false, false
		wrote := map[string]int{}
		var mine []string
		for _, pv := range rv.order {
			focus = focus || pv.exited && pv.status>>8 == 197
			lost = lost || !pv.exited
			for i := range pv.ev {
				if e := pv.ev[i]; e.Kind == "profile" {
					wrote[e.ID]++
					if e.ID == "cover" {
						mine = append(mine, plan.CoverProfile(p.Suites[rv.suite].Name, pv.proc, rv.suite, mode))
					}
				}
			}
		}
		if len(rv.order) < p.Procs {
			lost = true
		}
		anyFocus = anyFocus || focus
		if focus {
			for _, f := range append([]string{name}, profNames(o.Profiles)...) { // those of other processes may be left
				for k := 0; k <= p.Procs; k++ {
					expect[numbered(at(rv.suite, f), k)] = true
				}
			}
			continue
		}
		whole := func(kind string) bool { return !lost && wrote[kind] == len(rv.order) }
		undisturbed := !diskErr
		for _, pv := range rv.order {
			undisturbed = undisturbed && pv.normalEnd()
		}
		if covers {
			if !whole("cover") {
				anyLost = true
				if undisturbed && !lost {
					v.add("profile-not-asked", "C24", "suite %s: %d of %d processes write a coverage profile", p.Suites[rv.suite].Name, wrote["cover"], len(rv.order))
				} else if !said && (p.Procs > 1 && !diskErr || v.rootStatusCode() == 0) {
					v.add("profile-silent", "C24", "suite %s: only %d of %d processes wrote a coverage profile, and the command does not complain", p.Suites[rv.suite].Name, wrote["cover"], p.Procs)
				}
			}
			texts = append(texts, mine...)
			sum, pct := coverSum(mine, mode)
			expect[at(rv.suite, name)] = o.KeepCover || said
			if whole("cover") && !said {
				v.fact("coverage of suites")
				if p.Procs > 1 {
					v.coverLine("coverage: %.1f%% of statements\n", "coverage: [no statements]\n", pct, p.Suites[rv.suite].Name)
				}
				if o.KeepCover {
					v.coverFile(at(rv.suite, name), mode, sum)
				}
			}
		}
		for _, kind := range o.Profiles {
			f := at(rv.suite, kind+".prof")
			expect[f] = true
			if !whole(kind) {
				if undisturbed && !lost {
					v.add("profile-not-asked", "C24", "suite %s: %d of %d processes write a %s profile", p.Suites[rv.suite].Name, wrote[kind], len(rv.order), kind)
				} else if !said && (p.Procs > 1 && !diskErr || v.rootStatusCode() == 0) {
					v.add("profile-silent", "C24", "suite %s: only %d of %d processes wrote a %s profile, and the command does not complain", p.Suites[rv.suite].Name, wrote[kind], p.Procs, kind)
				}
				continue
			}
			if said {
				continue
			}
			v.fact("profiles of suites")
			var want []string
			for _, pv := range rv.order {
				for i := range pv.ev {
					if e := pv.ev[i]; e.Kind == "profile" && e.ID == kind {
						want = append(want, fmt.Sprintf("%s_%s_%d %d", kind, p.Suites[rv.suite].Name, pv.proc, 10*len(kind)+pv.proc))
					}
				}
			}
			sort.Strings(want)
			if got, ok := v.r.Files[f]; !ok {
				v.add("profile-missing", "C24", "suite %s: there is no %s", p.Suites[rv.suite].Name, f)
			} else if w := strings.Join(want, "\n"); got != w {
				v.add("profile-samples", "C24", "suite %s: %s has the samples %q, it should have %q", p.Suites[rv.suite].Name, f, got, w)
			}
		}
		if len(o.Profiles) > 0 && !said {
			bin := p.Suites[rv.suite].Path() + "/" + p.Suites[rv.suite].Name + ".test"
			if o.OutputDir {
				bin = strings.TrimSuffix(at(rv.suite, ""), "_") + ".test"
			}
			v.fact("binaries kept for profiles")
			if _, ok := v.r.Files[bin]; !ok && !diskErr {
				v.add("profile-binary", "C24", "suite %s: the binary that its profiles need is not at %s", p.Suites[rv.suite].Name, bin)
			}
		}
	}
	if covers && !o.KeepCover && anyRan && !said {
		switch {
		case len(texts) > 0:
			sum, pct := coverSum(texts, mode)
			expect[top] = true
			if !anyLost {
				v.fact("composite coverage")
				v.coverFile(top, mode, sum)
				tail := "\n"
				if anyFocus {
					tail = " however"
				}
				v.coverLine("composite coverage: %.1f%% of statements"+tail, "composite coverage: [no statements]", pct, "all")
			}
		case anyFocus && !strings.Contains(all, "no composite coverage computed"):
			v.add("profile-silent", "C24", "no suite has a coverage profile, and the command does not say so")
		}
	}
	if said {
		ok := diskErr
		for _, rv := range v.runs {
			for _, pv := range rv.order {
				ok = ok || !pv.normalEnd()
			}
			ok = ok || len(rv.order) < p.Procs
		}
		if !ok {
			i := strings.Index(all, "Failed to co")
			if i < 0 {
				i = strings.Index(all, "could not finalize profiles")
			}
			v.add("profile-complaint", "C24 C19", "the command cannot combine the profiles although every process wrote its own: %.300s", all[i:])
		}
		if v.rootStatusCode() == 0 {
			v.add("profile-exit", "C24", "the command could not combine the profiles and exits with 0")
		}
		return
	}
	if diskErr {
		return
	}
	var names []string
	for n := range v.r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if (strings.Contains(n, name) || strings.Contains(n, ".prof")) && !expect[n] {
			v.add("profile-left", "C24", "%s is left behind", n)
		}
	}
}

// profilesFailed: the command says that it cannot combine profiles.
func (v *view) profilesFailed() bool {
	all := v.r.Stdout + v.r.Stderr
	for _, s := range []string{"Failed to combine", "Failed to compute coverage", "could not finalize profiles"} {
		if strings.Contains(all, s) {
			return true
		}
	}
	return false
}

func profNames(kinds []string) []string {
	var l []string
	for _, k := range kinds {
		l = append(l, k+".prof")
	}
	return l
}

func numbered(f string, k int) string {
	if k == 0 {
		return f
	}
	return fmt.Sprintf("%s.%d", f, k)
}

func (v *view) rootStatusCode() int {
	st, _ := v.rootStatus()
	return int(st >> 8)
}

func (v *view) coverLine(format, none string, pct float64, what string) {
	want := fmt.Sprintf(format, pct)
	if fmt.Sprintf("%.1f", pct) == "0.0" {
		want = none
	}
	if !strings.Contains(v.r.Stdout, want) {
		v.add("profile-percentage", "C24", "the coverage of %s is %.1f%%, and the command does not print %q", what, pct, want)
	}
}

func (v *view) coverFile(f, mode string, sum map[string]int) {
	text, ok := v.r.Files[f]
	if !ok {
		v.add("profile-missing", "C24", "there is no coverage profile %s", f)
		return
	}
	got, odd := coverParse(text, mode)
	if odd == "" {
		odd = diffCounts(sum, got)
	}
	if odd != "" {
		v.add("profile-content", "C24", "coverage profile %s: %s", f, odd)
	}
}
