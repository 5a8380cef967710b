package lab

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"

	"sim/plan"
)

// `ginkgo watch`: a source tree is edited while the command watches it.  The
// oracle replays the edits on a model of the tree, works out which suites each
// of them bears on and compares that with what the command compiles and runs.

type wtree map[string]plan.File

func (t wtree) clone() wtree {
	u := wtree{}
	for k, f := range t {
		u[k] = f
	}
	return u
}

func (t wtree) apply(e *plan.Edit) wtree {
	u := t.clone()
	switch e.Op {
	case "write":
		for _, f := range e.Files {
			if u.dir(path.Dir(f.Path)) {
				u[f.Path] = f
			}
		}
	case "remove":
		delete(u, e.Path)
	case "rmdir":
		for k := range u {
			if strings.HasPrefix(k, e.Path+"/") {
				delete(u, k)
			}
		}
	case "mkdir":
		if !u.dir(e.Path) {
			u.mkdir(e.Path)
			for _, f := range e.Files {
				u[f.Path] = f
			}
		}
	}
	return u
}

func (t wtree) dir(d string) bool {
	_, ok := t[d+"/.dir"]
	return ok
}

// mkdir notes directories as hidden files.
func (t wtree) mkdir(d string) { t[d+"/.dir"] = plan.File{Path: d + "/.dir"} }

func hiddenFile(p string) bool { b := path.Base(p); return b[0] == '.' || b[0] == '_' }

func isTest(p string) bool { return strings.HasSuffix(p, "_test.go") }

// files lists the visible files right in a directory.
func (t wtree) files(d string) []plan.File {
	var out []plan.File
	for k, f := range t {
		if path.Dir(k) == d && !hiddenFile(k) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Path < out[j].Path })
	return out
}

// suite: the directory holds a test suite.
func (t wtree) suite(d string) (exists, parses bool) {
	parses = true
	for _, f := range t.files(d) {
		exists = exists || isTest(f.Path)
		parses = parses && (f.Mark != "syntax" || !strings.HasSuffix(f.Path, ".go"))
	}
	return
}

// imports of a package.  What a package imports of which some file does not
// parse is not known for certain.
func (t wtree) imports(d string, tests, sure bool) []string {
	var out []string
	for _, f := range t.files(d) {
		if !strings.HasSuffix(f.Path, ".go") || isTest(f.Path) && !tests {
			continue
		}
		if f.Mark == "syntax" {
			if sure {
				return nil
			}
			continue
		}
		out = append(out, f.Imports...)
	}
	return out
}

// deps are the packages a suite depends on.
func (t wtree) deps(d string, depth int, sure bool, without ...string) map[string]bool {
	out := map[string]bool{}
	level := []string{}
	add := func(l []string) (next []string) {
		for _, i := range l {
			if !out[i] && i != d && (len(t.files(i)) > 0 || !sure && t.dir(i)) && !slices.Contains(without, i) {
				out[i] = true
				next = append(next, i)
			}
		}
		return
	}
	if depth == 0 {
		return out
	}
	level = add(t.imports(d, true, sure))
	for k := 1; k < depth; k++ {
		var l []string
		for _, x := range level {
			l = append(l, t.imports(x, false, sure)...)
		}
		level = add(l)
	}
	return out
}

func watchDepth(w *plan.Watch) int {
	switch {
	case w.Depth == 0:
		return 1
	case w.Depth < 0:
		return 0
	}
	return w.Depth
}

func watched(w *plan.Watch, p string) bool {
	return strings.HasSuffix(p, ".go") || w.RegExp != "" && strings.HasSuffix(p, ".txt")
}

// edited is one edit as it happened.
type edited struct {
	t             int64
	e             *plan.Edit
	before, after wtree
}

func (x *edited) paths() []string {
	var out []string
	switch x.e.Op {
	case "write":
		for _, f := range x.e.Files {
			if _, ok := x.after[f.Path]; ok {
				out = append(out, f.Path)
			}
		}
	case "remove":
		if _, ok := x.before[x.e.Path]; ok {
			out = append(out, x.e.Path)
		}
	case "rmdir":
		for k := range x.before {
			if strings.HasPrefix(k, x.e.Path+"/") {
				out = append(out, k)
			}
		}
	case "mkdir":
		if !x.before.dir(x.e.Path) {
			for _, f := range x.e.Files {
				out = append(out, f.Path)
			}
		}
	}
	sort.Strings(out)
	return out
}

// plain: the command can tell when the edit happened.
func (x *edited) plain() bool {
	if x.e.Op != "write" {
		return false
	}
	for _, f := range x.e.Files {
		if f.Ago > 0 {
			return false
		}
	}
	return true
}

// bears: the edit changes something the suite in directory d depends on.
func (x *edited) bears(w *plan.Watch, d string, deps map[string]bool) bool {
	if (x.e.Op == "rmdir" || x.e.Op == "mkdir") && deps[x.e.Path] {
		return true
	}
	for _, p := range x.paths() {
		if hiddenFile(p) {
			continue
		}
		m := watched(w, p)
		if path.Dir(p) == d && (isTest(p) || m) || deps[path.Dir(p)] && m && !isTest(p) {
			return true
		}
	}
	return false
}

func (v *view) watch() {
	p, w := v.p, v.p.Watch
	st, done := v.rootStatus()
	if !done {
		return
	}
	slack := v.slack()
	bound := int64(2300e6) + 2*slack
	diskFault := v.r.FaultHit["disk-error-returned"] > 0
	rootNode := v.r.Procs[0].Node
	// what happened
	tree := wtree{}
	for _, f := range w.Files {
		tree[f.Path] = f
		tree.mkdir(path.Dir(f.Path))
	}
	first := tree
	var edits []*edited
	comps := map[int][]int64{}
	compEnd := map[int][]int64{}
	sig := int64(never)
	lastDisk := int64(-1)
	fails := 0
	gone := map[int]int{}
	for i := range v.r.Events {
		e := &v.r.Events[i]
		switch e.Kind {
		case "edit":
			x := &edited{t: e.T, e: p.Faults[e.Ex].Edit, before: tree}
			tree = tree.apply(x.e)
			x.after = tree
			edits = append(edits, x)
		case "compile-start":
			comps[e.Su] = append(comps[e.Su], e.T)
		case "compile-end":
			compEnd[e.Su] = append(compEnd[e.Su], e.T)
		case "compile-fail":
			if e.T < sig {
				fails++
			}
		case "compile-gone":
			gone[e.Su]++
		case "fault":
			if strings.HasPrefix(e.ID, "disk") {
				lastDisk = e.T
			}
			if e.ID == "signal-2" || e.ID == "signal-15" {
				for _, s := range strings.Split(e.S, ",") {
					if s == fmt.Sprint(rootNode) {
						sig = min(sig, e.T)
					}
				}
			}
		}
	}
	type span struct{ a, b int64 }
	var busy []span
	for _, pr := range v.r.Procs[1:] {
		b := pr.End
		if !pr.Exited {
			b = v.r.SimNs
		}
		busy = append(busy, span{pr.Start, b})
	}
	sort.Slice(busy, func(i, j int) bool { return busy[i].a < busy[j].a })
	idle := func(a, b int64) int64 {
		n, at := int64(0), a
		for _, s := range busy {
			if s.b <= at || s.a >= b {
				continue
			}
			if s.a > at {
				n += s.a - at
			}
			at = max(at, s.b)
		}
		if b > at {
			n += b - at
		}
		return n
	}
	end := min(sig, v.rootExit)
	if end < 0 || end == never {
		end = v.r.SimNs
	}
	removedBetween := func(d string, a, b int64) bool {
		for _, x := range edits {
			if x.t > a && x.t <= b {
				was, _ := x.before.suite(d)
				is, _ := x.after.suite(d)
				if was && !is || x.e.Op == "rmdir" && x.e.Path == d {
					return true
				}
			}
		}
		return false
	}
	initial := 0
	only := ""
	for _, s := range p.Suites {
		if ok, _ := first.suite(s.Path()); ok {
			initial++
			only = s.Path()
		}
	}
	starting := 1e9 + 2*slack // it has begun to watch by then
	joined := false           // another suite may be there at the start
	for _, x := range edits {
		joined = joined || x.e.Op == "mkdir" && x.t < starting
	}
	firstComp := int64(never)
	for _, l := range comps {
		firstComp = min(firstComp, l[0])
	}
	// the end
	v.fact("watch ends")
	if st&0x7f != 0 && sig != never {
		return // told to stop before it listened, or a second time
	}
	if sig == never || v.rootExit < sig {
		for i, s := range p.Suites {
			for _, c := range comps[i] {
				started := v.rootExit
				for _, pv := range v.nodes {
					if pv.suite == i && pv.start >= c {
						started = min(started, pv.start)
					}
				}
				if removedBetween(s.Path(), c, started) {
					return // the directory may have gone before the suite could start there
				}
			}
		}
		if lastDisk < 0 && !(len(comps) == 0 && strings.Contains(v.r.Stderr+v.r.Stdout, "Found no test suites")) {
			v.add("watch-ended", "C25", "ginkgo watch ends by itself after %.1f s with wait status %#x: %s", float64(v.rootExit)/1e9, st, clip(tail(v.r.Stdout+v.r.Stderr, 300)))
		}
		return
	}
	if st != 0 && lastDisk < 0 {
		v.add("watch-status", "C25", "ginkgo watch was told to stop and exits with wait status %#x: %s", st, clip(tail(v.r.Stdout+v.r.Stderr, 300)))
	}
	stopBy := sig
	for _, s := range busy {
		stopBy = max(stopBy, s.b)
	}
	if sig < starting {
		stopBy = max(stopBy, starting)
	}
	for i := range v.r.Events {
		e := &v.r.Events[i]
		if (e.Kind == "compile-start" || e.Kind == "proc-start") && e.T > sig+slack && !(firstComp > sig && e.T <= firstComp && sig < starting) {
			v.add("watch-goes-on", "C25", "ginkgo watch was told to stop at %.3f s and starts another process %.3f s later", float64(sig)/1e9, float64(e.T-sig)/1e9)
			return
		}
	}
	if v.rootExit > stopBy+slack+300e6 {
		v.add("watch-stop-late", "C25", "ginkgo watch was told to stop at %.3f s, nothing ran after %.3f s, and it ends at %.3f s", float64(sig)/1e9, float64(stopBy)/1e9, float64(v.rootExit)/1e9)
	}
	// nothing left behind
	for f := range v.r.Files {
		if strings.HasSuffix(f, ".test") && lastDisk < 0 {
			v.add("watch-leftover", "C25", "ginkgo watch leaves the binary %s behind", f)
		}
	}
	if n := strings.Count(v.r.Stdout, "simulated compile error"); n < fails {
		v.add("watch-silent", "C25", "%d compilations failed, ginkgo watch shows %d", fails, n)
	}
	depth := watchDepth(w)
	for i, s := range p.Suites {
		d := s.Path()
		// every change leads to a run of the suites it bears on
		if initial == 1 && only == d {
			v.fact("watch initial run")
			if len(comps[i]) == 0 && !joined && idle(0, end) > bound && !diskFault && !removedBetween(d, -1, bound+end/2) {
				v.add("watch-initial", "C25", "suite %s is the only one, ginkgo watch does not run it at first", d)
			}
		}
		for k, x := range edits {
			was, wasOK := x.before.suite(d)
			is, isOK := x.after.suite(d)
			var lost []string
			// a package that was gone is a dependency again once the suite has run
			for j := 0; j <= k; j++ {
				if y := edits[j]; y.e.Op == "mkdir" {
					back := false
					for _, c := range comps[i] {
						back = back || c >= y.t+slack && c < x.t
					}
					if !back {
						lost = append(lost, y.e.Path)
					}
				}
			}
			deps := x.after.deps(d, depth, true, lost...)
			if x.e.Op == "remove" || x.e.Op == "rmdir" {
				deps = x.before.deps(d, depth, true, lost...)
			}
			fresh := is && isOK && !(was && wasOK) && x.e.Op != "remove"
			if !is || !isOK || !(fresh || was && x.bears(w, d, deps)) {
				continue
			}
			if x.t <= lastDisk+bound {
				continue
			}
			// undone, or overlaid by another edit, before it could be noticed
			undone := false
			for j, y := range edits {
				if j > k && idle(x.t, y.t) <= bound {
					for _, q := range x.paths() {
						_, there := y.after[q]
						_, then := x.after[q]
						undone = undone || there != then || !y.plain() && slices.Contains(y.paths(), q)
					}
					if ok, parses := y.after.suite(d); !ok || !parses {
						undone = true
					}
				}
				if j < k && idle(y.t, x.t) <= bound {
					// created and removed again; or two changes of one package, one of which bears no date
					for _, q := range x.paths() {
						for _, q2 := range y.paths() {
							if q == q2 && !x.plain() || path.Dir(q) == path.Dir(q2) && !(x.plain() && y.plain()) {
								undone = true
							}
						}
					}
				}
			}
			if undone {
				continue
			}
			v.fact("watch edits followed")
			c := int64(-1)
			for _, t := range comps[i] {
				if t > x.t {
					c = t
					break
				}
			}
			lim := c
			if c < 0 {
				lim = end
			}
			if lim > end {
				lim, c = end, -1
			}
			if n := idle(x.t, lim); n > bound {
				what := "does not run it again"
				if c >= 0 {
					what = fmt.Sprintf("runs it only %.1f s later", float64(c-x.t)/1e9)
				}
				v.add("watch-missed", "C25", "at %.3f s %s %s (%s), which suite %s depends on; ginkgo watch was idle for %.1f s since and %s", float64(x.t)/1e9, x.e.Op, x.e.Path, strings.Join(x.paths(), " "), d, float64(n)/1e9, what)
				break
			}
		}
		// and only changes do
		if diskFault || lastDisk >= 0 {
			continue
		}
		allowed := map[string]bool{}
		add := func(t wtree) {
			for x := range t.deps(d, depth, false) {
				allowed[x] = true
			}
		}
		add(first)
		budget, at := 0, 0
		if initial == 1 && only == d || len(edits) > 0 && len(comps[i]) > 0 && edits[0].t < comps[i][0] && edits[0].t < starting {
			budget = 1
		}
		plain := true
		var touched []int64
		for k, c := range comps[i] {
			for j := at; j < len(edits) && edits[j].t < c; j++ {
				add(edits[j].before)
				add(edits[j].after)
			}
			for at < len(edits) && edits[at].t < c {
				x := edits[at]
				at++
				add(x.before)
				add(x.after)
				was, wasOK := x.before.suite(d)
				is, isOK := x.after.suite(d)
				if x.bears(w, d, allowed) || is && !was || isOK && !wasOK {
					budget++
					touched = append(touched, x.t)
					if !x.plain() || was != is || wasOK != isOK {
						budget++
						plain = false
					}
				}
			}
			v.fact("watch runs explained")
			budget--
			if budget < 0 {
				v.add("watch-needless", "C25", "suite %s is compiled at %.3f s for the %d. time, more often than anything it depends on changed", d, float64(c)/1e9, k+1)
				break
			}
			if k > 0 && plain {
				prev := int64(-1)
				for _, s := range busy {
					if s.b < comps[i][k-1] {
						prev = max(prev, s.b)
					}
				}
				ok := false
				for _, t := range touched {
					ok = ok || t > prev
				}
				if !ok {
					v.add("watch-needless", "C25", "suite %s is compiled at %.3f s although nothing it depends on changed since %.3f s", d, float64(c)/1e9, float64(comps[i][k-1])/1e9)
					break
				}
			}
		}
		if gone[i] > 2*len(edits) {
			v.add("watch-gone", "C25", "suite %s was removed and is compiled %d times", d, gone[i])
		}
		// what is compiled is run
		for _, c := range compEnd[i] {
			if c+slack+300e6 > end || removedBetween(d, c-s.CompileMs*1e6-slack, c+slack) {
				continue
			}
			v.fact("watch compiled suites run")
			ran := false
			for _, pv := range v.nodes {
				if pv.suite == i && pv.start >= c && pv.start <= c+slack+300e6 {
					ran = true
				}
			}
			if !ran {
				v.add("watch-norun", "C25", "suite %s is compiled at %.3f s and not run", d, float64(c)/1e9)
				break
			}
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// GenWatch: a source tree that is edited while ginkgo watches it.
func GenWatch(seed uint64) *Plan {
	r := newRng(seed ^ 0x3a7c4)
	g, p := newGen(seed, Features{})
	p.Cli, p.Procs = true, 1
	w := &plan.Watch{}
	p.Watch = w
	p.Opt.Recurse = r.p(50)
	w.Depth = pick(r, 0, 0, 1, 2, 2, 3, -1)
	if r.p(25) {
		w.RegExp = `\.(go|txt)$`
	}
	if r.p(15) {
		p.Opt.Seed = int64(r.between(1, 99))
	}
	p.Opt.Cover = r.p(25)
	p.Opt.Hook = r.p(15)
	libs := []string{"lib1", "lib2", "lib3", "lib4"}[:r.n(5)]
	n := pick(r, 1, 1, 2, 2, 3, 4)
	for i := 0; i < n; i++ {
		s := &Suite{Name: string(rune('a' + i)), CompileMs: int64(pick(r, 5, 100, 700, 2500)), RunMs: int64(pick(r, 0, 5, 200, 1500, 4000))}
		if p.Opt.Recurse && r.p(25) {
			s.Dir = "x"
		}
		p.Suites = append(p.Suites, s)
	}
	pad := 0
	imports := func(l int) []string {
		var out []string
		for k := l; k < len(libs); k++ {
			if r.p(45) {
				out = append(out, libs[k])
			}
		}
		return out
	}
	mark := func() string {
		switch r.n(14) {
		case 0:
			return "broken"
		case 1, 2:
			return "red"
		case 3:
			return "syntax"
		case 4:
			return "torn"
		}
		return ""
	}
	mk := func(f plan.File) plan.File {
		pad++
		f.Pad = pad
		return f
	}
	suiteFiles := func(i int, edit bool) []plan.File {
		s := p.Suites[i]
		d := s.Path()
		imps := imports(0)
		for j := i + 1; j < n; j++ {
			if r.p(15) {
				imps = append(imps, p.Suites[j].Path())
			}
		}
		if !r.p(10) {
			imps = append(imps, "github.com/onsi/ginkgo/v2")
		}
		m := ""
		if r.p(25) {
			m = mark()
		}
		out := []plan.File{mk(plan.File{Path: d + "/" + s.Name + "_suite_test.go", Imports: imps, Mark: m})}
		if r.p(60) {
			out = append(out, mk(plan.File{Path: d + "/code.go", Imports: imports(0)}))
		}
		if r.p(40) {
			out = append(out, mk(plan.File{Path: d + "/more_test.go", Imports: imports(0)}))
		}
		return out
	}
	libFile := func(k int, name string) plan.File {
		m := ""
		if r.p(15) {
			m = mark()
		}
		return mk(plan.File{Path: libs[k] + "/" + name, Imports: imports(k + 1), Mark: m})
	}
	old := func(f plan.File) plan.File {
		f.Ago = int64(r.between(20_000, 90_000))
		return f
	}
	exists := map[string]bool{}
	for i := range p.Suites {
		if i > 0 && r.p(20) {
			continue
		}
		exists[p.Suites[i].Path()] = true
		for _, f := range suiteFiles(i, false) {
			w.Files = append(w.Files, old(f))
		}
	}
	for k := range libs {
		w.Files = append(w.Files, old(libFile(k, "l.go")))
		if r.p(50) {
			w.Files = append(w.Files, old(libFile(k, "m.go")))
		}
	}
	at := int64(r.between(300, 6000))
	total := int64(0)
	for _, s := range p.Suites {
		total += s.CompileMs + s.RunMs + 300
	}
	edit := func(e *plan.Edit) {
		p.Faults = append(p.Faults, Fault{At: at, Kind: "edit", Edit: e})
	}
	tree := wtree{}
	for _, f := range w.Files {
		tree[f.Path] = f
		tree.mkdir(path.Dir(f.Path))
	}
	for k := r.between(1, 10); k > 0; k-- {
		i := r.n(n)
		s := p.Suites[i]
		d := s.Path()
		e := &plan.Edit{Op: "write"}
		rewrite := func(f plan.File) plan.File { // the same file, edited
			f.Ago = 0
			if r.p(30) { // of the same size
				return f
			}
			if r.p(40) {
				f.Mark = mark()
			} else if f.Mark != "" && r.p(70) {
				f.Mark = ""
			}
			return mk(f)
		}
		var all []plan.File
		for _, f := range tree {
			if !hiddenFile(f.Path) {
				all = append(all, f)
			}
		}
		sort.Slice(all, func(a, b int) bool { return all[a].Path < all[b].Path })
		switch c := r.n(100); {
		case !exists[d] || c < 6:
			if exists[d] {
				e = &plan.Edit{Op: "rmdir", Path: d}
			} else {
				e = &plan.Edit{Op: "mkdir", Path: d, Files: suiteFiles(i, true)}
			}
			exists[d] = !exists[d]
		case c < 50 && len(all) > 0:
			e.Files = []plan.File{rewrite(all[r.n(len(all))])}
			if r.p(20) {
				e.Files = append(e.Files, rewrite(all[r.n(len(all))]))
			}
		case c < 60:
			e.Files = suiteFiles(i, true)[:1]
		case c < 70 && len(libs) > 0:
			e.Files = []plan.File{libFile(r.n(len(libs)), pick(r, "l.go", "m.go", "n.go"))}
		case c < 80 && len(all) > 0:
			f := all[r.n(len(all))]
			if b := path.Base(f.Path); b == "l.go" || strings.HasSuffix(b, "_suite_test.go") && r.p(80) {
				f = mk(plan.File{Path: d + "/code.go"}) // packages themselves stay
				e.Files = []plan.File{f}
			} else {
				e = &plan.Edit{Op: "remove", Path: f.Path}
			}
		case c < 87 && len(all) > 0:
			f := rewrite(all[r.n(len(all))])
			f.Ago = int64(r.between(20_000, 90_000))
			e.Files = []plan.File{f}
		default:
			dir := d
			if len(libs) > 0 && r.p(50) {
				dir = pick(r, libs...)
			}
			name := pick(r, ".hidden.go", "_draft.go", "notes.txt", "extra.go", ".swp_test.go")
			if !p.Opt.Recurse && dir != d && r.p(30) {
				name = "lib_test.go"
			}
			if dir == d || !strings.HasSuffix(name, "_test.go") || !p.Opt.Recurse || name[0] == '.' {
				e.Files = []plan.File{mk(plan.File{Path: dir + "/" + name})}
			}
		}
		if e.Op == "write" && len(e.Files) == 0 {
			continue
		}
		edit(e)
		tree = tree.apply(e)
		switch r.n(4) {
		case 0:
			at += int64(r.n(300))
		case 1:
			at += int64(r.n(2000))
		case 2:
			at += int64(r.n(6000))
		default:
			at += 3000 + int64(r.n(9000)) + total
		}
	}
	if r.p(12) {
		p.Faults = append(p.Faults, Fault{Kind: "disk", N: 257, Errno: pick(r, 2, 5, 24), Skip: r.n(60), Ms: int64(pick(r, 1, 1, 4)), At: int64(r.n(int(at)))})
	}
	stop := Fault{Kind: "signal", Sig: pick(r, 2, 2, 15), At: at + 12_000 + 2*total, Proc: pick(r, 0, -1)}
	if r.p(35) {
		stop.At = int64(r.between(200, int(at)+5000))
	} else if r.p(20) {
		stop.After, stop.At = pick(r, "compile-start:", "compile-end:", "run-start:", "run-end:")+pick(r, p.Suites...).Name, int64(r.n(pick(r, 1, 5, 300)))
	}
	p.Faults = append(p.Faults, stop)
	if stop.After != "" {
		p.Faults = append(p.Faults, Fault{Kind: "signal", Sig: 2, At: at + 60_000 + 2*total})
	}
	g.noise(p, r.p(40))
	p.Net = plan.Net{LatMin: 1000, LatMax: 1000}
	p.HorizonMs = 400_000
	return p
}
