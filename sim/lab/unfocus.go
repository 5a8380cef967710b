package lab

import (
	"fmt"
	"go/parser"
	"go/scanner"
	"go/token"
	"path"
	"sort"
	"strings"

	"sim/plan"
)

// `ginkgo unfocus`: a tree of sources with all the ways to focus a spec is
// rewritten by concurrent workers while the disk fails or the command is
// killed.  What every file should read afterwards was generated along with it.

// goTokens lists the tokens and comments of a source, without what gofmt would
// add or take away.
func goTokens(src string) []string {
	var s scanner.Scanner
	bad := false
	s.Init(token.NewFileSet().AddFile("", -1, len(src)), []byte(src), func(token.Position, string) { bad = true }, scanner.ScanComments)
	var out, comments []string // a comment and the comma beside it may change places
	comma := -1
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.SEMICOLON && lit == "\n" {
			continue
		}
		if tok == token.COMMENT {
			comments = append(comments, lit)
			continue
		}
		if (tok == token.RPAREN || tok == token.RBRACE) && comma >= 0 {
			out = append(out[:comma], out[comma+1:]...)
		}
		if tok == token.COMMA {
			comma = len(out)
		} else {
			comma = -1
		}
		if lit == "" {
			lit = tok.String()
		}
		out = append(out, lit)
	}
	if bad {
		out = append(out, "SCAN ERROR")
	}
	return append(out, comments...)
}

func sameTokens(a, b string) bool {
	x, y := goTokens(a), goTokens(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (v *view) unfocus() {
	p := v.p
	st, done := v.rootStatus()
	if !done {
		return
	}
	killed := st&0x7f != 0
	disk := v.r.FaultHit["disk-error-returned"] > 0
	shown := v.r.Stdout + v.r.Stderr
	if !killed && st != 0 && !disk {
		v.add("unfocus-status", "C26", "ginkgo unfocus exits with wait status %#x: %s", st, clip(tail(shown, 300)))
	}
	known := map[string]bool{}
	undone := 0
	var names []string
	for n := range v.r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := range p.Unfocus {
		f := &p.Unfocus[i]
		known[f.Path] = true
		now, there := v.r.Files[f.Path]
		if f.Want == "" {
			v.fact("sources to leave alone")
			if !there || now != f.Body {
				v.add("unfocus-touched", "C26", "ginkgo unfocus changes %s, which has nothing to unfocus: %s", f.Path, clip(firstDiff(f.Body, now)))
			}
			if !killed && !disk && scanned(f.Path) {
				if _, err := parser.ParseFile(token.NewFileSet(), "", f.Body, 0); err != nil {
					v.fact("sources that do not parse")
					if !strings.Contains(shown, f.Path) {
						v.add("unfocus-silent", "C26", "ginkgo unfocus says nothing of %s, which does not parse", f.Path)
					}
				}
			}
			continue
		}
		if there && sameTokens(now, f.Want) {
			v.fact("sources unfocused")
			if what := rewritten(f.Body, now); what != "" && !killed && !disk {
				v.add("unfocus-rewritten", "C26", "ginkgo unfocus changes more than the focus in %s: %s", f.Path, clip(what))
			}
			continue
		}
		undone++
		backup := ""
		for _, n := range names {
			if strings.HasPrefix(n, f.Path) && n != f.Path && strings.Trim(n[len(f.Path):], "0123456789") == "" && v.r.Files[n] == f.Body {
				backup = n
			}
		}
		kept := there && now == f.Body
		if !killed && !disk {
			v.add("unfocus-wrong", "C26", "ginkgo unfocus leaves %s focused or damaged: %s", f.Path, clip(firstDiff(f.Want, now)))
			continue
		}
		v.fact("sources that had to survive a fault")
		if !kept && backup == "" {
			v.add("unfocus-lost", "C26", "ginkgo unfocus was stopped or met a disk error, and neither %s nor a backup has what was in it: %s", f.Path, clip(firstDiff(f.Body, now)))
			continue
		}
		if !killed && !strings.Contains(shown, "error") && !strings.Contains(shown, "readdirent") {
			v.add("unfocus-silent", "C26", "ginkgo unfocus met a disk error, leaves %s focused and does not say so", f.Path)
		}
	}
	// an error at one file does not keep the others from being done
	if hits := v.r.FaultHit["disk-error-returned"]; !killed && undone > hits && v.diskOnFiles() {
		v.add("unfocus-stops", "C26", "ginkgo unfocus leaves %d files focused after %d disk errors", undone, hits)
	}
	for _, n := range names {
		if !known[n] && !killed && !disk {
			v.add("unfocus-leftover", "C26", "ginkgo unfocus leaves the file %s behind", n)
		}
	}
	v.fact("unfocus ends")
}

// diskOnFiles: the only disk errors are of reads and writes, which concern one
// file each.
func (v *view) diskOnFiles() bool {
	for i := range v.p.Faults {
		if f := &v.p.Faults[i]; f.Kind == "disk" && f.N != 0 && f.N != 1 {
			return false
		}
	}
	return true
}

func scanned(name string) bool {
	for _, x := range strings.Split(path.Dir(name), "/") {
		if x == "vendor" || x != "." && x[0] == '.' {
			return false
		}
	}
	return strings.HasSuffix(name, ".go")
}

// rewritten: what is left has to be what was there with something taken away,
// and the lines that mention no focus as they were.
func rewritten(before, after string) string {
	i := 0
	for j := 0; j < len(after); j++ {
		for i < len(before) && before[i] != after[j] {
			i++
		}
		if i == len(before) {
			return "it adds something: " + firstDiff(before, after)
		}
		i++
	}
	left := strings.Split(after, "\n")
	k := 0
	for _, l := range strings.Split(before, "\n") {
		if strings.Contains(l, "F") {
			continue
		}
		for k < len(left) && left[k] != l {
			k++
		}
		if k == len(left) {
			return fmt.Sprintf("it changes the line %q", l)
		}
		k++
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("at byte %d …%q became …%q", i, a[from:min(len(a), i+60)], b[from:min(len(b), i+60)])
}

// GenUnfocus: a tree of sources and the faults the command meets.
func GenUnfocus(seed uint64) *Plan {
	r := newRng(seed ^ 0x0f0c)
	g, p := newGen(seed, Features{})
	p.Cli, p.Procs = true, 1
	g.noise(p, false)
	p.Net = plan.Net{LatMin: 1000, LatMax: 1000}
	p.Sched.PauseIn = pick(r, uint32(0), 5)
	if p.Sched.PauseSites > 0 {
		p.Sched.PauseMax = int64(pick(r, 1e5, 1e6, 5e6))
	}
	p.HorizonMs = 900_000
	dirs := []string{"."}
	for k := r.n(4); k > 0; k-- {
		dirs = append(dirs, path.Join(pick(r, dirs...), pick(r, "a", "b", "internal", "vendored", "_x", "testdata", "vendor", ".git", ".x")))
	}
	n := pick(r, 1, 2, 3, 5, 8, 14, 25)
	seen := map[string]bool{}
	bad := pick(r, 0, 8, 8, 8, 60)
	for i := 0; i < n; i++ {
		d := pick(r, dirs...)
		name := path.Join(d, pick(r, "", "", "", "a_", "_", ".")+fmt.Sprintf("f%d", r.n(n+1))+pick(r, "_test.go", "_test.go", "_test.go", ".go", ".go", ".go.tmpl", ".txt"))
		if seen[name] {
			continue
		}
		seen[name] = true
		s := srcGen{r: r, g: g, big: r.p(15)}
		f := plan.Src{Path: name}
		var want string
		f.Body, want = s.file()
		eligible := scanned(name)
		if eligible && r.p(bad) { // does not parse
			cut := strings.LastIndex(f.Body, "}")
			f.Body = f.Body[:cut] + pick(r, "", "(", "{{ .It }}", "\x00")
			eligible = false
		}
		if eligible && want != f.Body {
			f.Want = want
		}
		p.Unfocus = append(p.Unfocus, f)
	}
	switch r.n(3) {
	case 0:
		p.Sched.YieldTick = int64(pick(r, 2_000, 20_000, 100_000))
		p.Faults = append(p.Faults, Fault{Kind: pick(r, "kill", "signal"), Sig: pick(r, 2, 15), At: int64(r.n(pick(r, 20, 100, 500)))})
	case 1:
		f := Fault{Kind: "disk", N: pick(r, 1, 1, 1, 0, 257, 217, 3), Errno: pick(r, 5, 28), Skip: r.n(pick(r, 2, 10, 40)), Ms: int64(pick(r, 1, 1, 2, 6))}
		p.Faults = append(p.Faults, f)
		if r.p(20) {
			p.Sched.YieldTick = 20_000
			p.Faults = append(p.Faults, Fault{Kind: "kill", At: int64(r.n(300))})
		}
	}
	return p
}

// srcGen writes one source twice: as it is and as it should be.
type srcGen struct {
	r      *rng
	g      *gen
	q      string // how the file refers to Ginkgo
	big    bool
	a, b   strings.Builder
	budget int
}

func (s *srcGen) put(x string)       { s.a.WriteString(x); s.b.WriteString(x) }
func (s *srcGen) two(x, want string) { s.a.WriteString(x); s.b.WriteString(want) }

func (s *srcGen) file() (string, string) {
	r := s.r
	nl := "\n"
	if r.p(20) {
		s.put(pick(r, "// Überschrift: FIt(\"x\", Focus, func() {})\n\n", "/* FDescribe( */ ", "\n\n"))
	}
	s.put("package x_test" + nl + nl + "import (" + nl)
	switch r.n(6) {
	case 0:
		s.q = "ginkgo."
		s.put("\t\"github.com/onsi/ginkgo/v2\"" + nl)
	case 1:
		s.q = "g."
		s.put("\tg \"github.com/onsi/ginkgo/v2\"" + nl)
	default:
		s.put("\t. \"github.com/onsi/ginkgo/v2\"" + nl)
	}
	s.put("\t. \"github.com/onsi/gomega\"" + nl + ")" + nl + nl)
	if r.p(30) {
		s.put("type config struct{ Focus bool }" + nl + nl + "var c = config{Focus: true}" + nl + nl)
	}
	s.budget = pick(r, 1, 3, 8)
	if s.big {
		s.budget = 60
	}
	focus := pick(r, 0, 15, 40, 80)
	for s.budget > 0 {
		s.put("var _ = ")
		s.container(0, focus)
		s.put(nl + nl)
	}
	if r.p(20) {
		s.put("// the end: FIt(" + pick(r, "", nl))
	}
	return s.a.String(), s.b.String()
}

// call writes a node: its name, text, decorators, body, in one of the ways to
// focus it, or in none.
func (s *srcGen) call(depth int, name string, focused bool, args []func()) {
	r := s.r
	in := "\n" + strings.Repeat("\t", depth+1)
	if focused && r.p(50) {
		s.two(s.q+"F"+name+"(", s.q+name+"(")
		focused = false
	} else {
		s.put(s.q + name + "(")
	}
	at := -1
	if focused {
		at = 1 + r.n(len(args))
	}
	lines := r.p(20) // an argument per line
	for i := 0; i <= len(args); i++ {
		if i == at {
			dec := s.q + "Focus"
			c := ""
			if r.p(15) {
				c = pick(r, " /* for now */", "/* FIt( */ ")
			}
			switch {
			case lines:
				s.two(in+dec+c+",", in+c)
				if r.p(20) {
					s.put(" // Focus, remove me")
				}
			case i == len(args):
				s.two(", "+dec+c, c)
			default:
				s.two(", "+dec+c, c)
			}
		}
		if i == len(args) {
			break
		}
		if lines {
			s.put(in)
		} else if i > 0 {
			s.put(", ")
		}
		args[i]()
		if lines {
			s.put(",")
			if r.p(10) {
				s.put(" // FContext(")
			}
		}
	}
	if lines {
		s.put("\n" + strings.Repeat("\t", depth))
	}
	s.put(")")
}

func (s *srcGen) text() func() {
	r := s.r
	return func() {
		s.put(pick(r, `"a spec"`, `"ünïcödé 世界"`, `"FIt(\"x\", Focus)"`, "`Focus, `", `"Focus"`, `fmt.Sprintf("%d, %s", 1, "x")`))
	}
}

func (s *srcGen) decorators(args []func()) []func() {
	for s.r.p(25) {
		d := pick(s.r, `Label("a", "Focus")`, "Ordered", "Serial", "FlakeAttempts(3)", "window.Focus", "Offset(1)")
		q := s.q
		if strings.HasPrefix(d, "window") {
			q = ""
		}
		args = append(args, func() { s.put(q + d) })
	}
	return args
}

func (s *srcGen) container(depth, focus int) {
	r := s.r
	s.budget--
	in := "\n" + strings.Repeat("\t", depth+1)
	args := s.decorators([]func(){s.text()})
	args = append(args, func() {
		s.put("func() {")
		for k := r.between(1, 4); k > 0 && (s.budget > 0 || k == 1); k-- {
			s.put(in)
			switch {
			case depth < 4 && r.p(30):
				s.container(depth+1, focus)
			case r.p(15):
				s.table(depth+1, focus)
			case r.p(10):
				s.put(pick(r, "c.Focus = true", "editor.Focus()", "x := Focused(c.Focus)", "defer func() { c.Focus = false }()", "FItness(1)", "s := \"FIt(\" // FIt(x)"))
			case r.p(10):
				if r.p(focus) {
					s.two("l := []any{"+s.q+"Focus, "+s.q+"Label(\"x\")}", "l := []any{"+s.q+"Label(\"x\")}")
				} else {
					s.put("l := []any{1}")
				}
			default:
				s.it(depth+1, focus)
			}
		}
		s.put("\n" + strings.Repeat("\t", depth) + "}")
	})
	s.call(depth, pick(r, "Describe", "Context", "When"), r.p(focus), args)
}

func (s *srcGen) it(depth, focus int) {
	s.budget--
	args := s.decorators([]func(){s.text()})
	body := pick(s.r, "func() {}", "func() { Expect(c.Focus).To(BeTrue()) }", "func(ctx SpecContext) { By(\"FIt(\") }", "check")
	if s.big {
		body = "func() { x = \"" + strings.Repeat(pick(s.r, "lorem ipsum ", "Focus, ", "世"), 60) + "\" }"
	}
	args = append(args, func() { s.put(body) })
	s.call(depth, pick(s.r, "It", "It", "Specify"), s.r.p(focus), args)
}

func (s *srcGen) table(depth, focus int) {
	r := s.r
	s.budget--
	args := s.decorators([]func(){s.text()})
	args = append(args, func() { s.put("func(x int) {}") })
	for k := r.n(4); k > 0; k-- {
		e := []func(){s.text()}
		e = s.decorators(e)
		if r.p(80) {
			e = append(e, func() { s.put(pick(r, "1", "f(2)", "[]int{1, 2}")) })
		}
		focused := r.p(focus)
		args = append(args, func() { s.call(depth+1, "Entry", focused, e) })
	}
	s.call(depth, pick(r, "DescribeTable", "DescribeTableSubtree"), r.p(focus), args)
}
