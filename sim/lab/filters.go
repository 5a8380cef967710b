package lab

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"sim/plan"
)

// Which specs a command line selects: generation and evaluation of filters.

// labelExpr draws a label filter.
func labelExpr(r *rng, depth int) string {
	atom := func() string {
		switch r.n(16) {
		case 3, 4, 5, 6:
			vals := []string{"a", "b", "C"}
			for i := range vals {
				j := r.between(i, 2)
				vals[i], vals[j] = vals[j], vals[i]
			}
			arg := " " + vals[0]
			if r.p(70) {
				arg = " {" + strings.Join(vals[:r.between(1, 3)], pick(r, ",", ", ")) + "}"
			}
			op := pick(r, "isEmpty", "containsAny", "containsAll", "consistsOf", "isSubsetOf", "ContainsAny")
			if op == "isEmpty" {
				arg = " "
			}
			return pick(r, "set", "Set") + ": " + op + arg
		case 0:
			return "/^(red|blue)$/"
		case 1:
			return "/ee|ed$/"
		case 2:
			return "Serial"
		default:
			return pick(r, "red", "green", "blue", "red", "nosuch", "GREEN", "set:a", "set:B")
		}
	}
	if depth >= 2 || r.p(40) {
		if r.p(35) {
			return "!" + atom()
		}
		return atom()
	}
	a, b := labelExpr(r, depth+1), labelExpr(r, depth+1)
	if r.p(35) {
		a = "(" + a + ")"
		if r.p(40) {
			a = "!" + a
		}
	}
	return a + pick(r, " && ", " || ", "&&", ",", " , ", "  ||") + b
}

// labelMatch evaluates a label filter over the labels of a spec.
func labelMatch(f string, labels []string) bool {
	i := 0
	space := func() {
		for i < len(f) && f[i] == ' ' {
			i++
		}
	}
	eat := func(s string) bool {
		space()
		if strings.HasPrefix(f[i:], s) {
			i += len(s)
			return true
		}
		return false
	}
	var or func() bool
	unary := func() bool { return false }
	unary = func() bool {
		switch {
		case eat("!"):
			return !unary()
		case eat("("):
			v := or()
			eat(")")
			return v
		case eat("/"):
			j := strings.IndexByte(f[i:], '/')
			re := regexp.MustCompile(f[i : i+j])
			i += j + 1
			for _, l := range labels {
				if re.MatchString(l) {
					return true
				}
			}
			return false
		}
		space()
		j := i
		for i < len(f) && !strings.ContainsRune("&|!,()/ ", rune(f[i])) && !strings.HasPrefix(f[i:], ": ") {
			i++
		}
		if strings.HasPrefix(f[i:], ": ") {
			set := map[string]bool{}
			for _, l := range labels {
				if k, v, ok := strings.Cut(strings.ToLower(l), ":"); ok && k == strings.ToLower(f[j:i]) {
					set[v] = true
				}
			}
			i++
			space()
			k := i
			for i < len(f) && !strings.ContainsRune("&|!,()/ ", rune(f[i])) {
				i++
			}
			op := strings.ToLower(f[k:i])
			if op == "isempty" {
				return len(set) == 0
			}
			space()
			k = i
			vals := f[k : i+1]
			if f[i] == '{' {
				i += strings.IndexByte(f[i:], '}')
				vals = f[k+1 : i]
			}
			i++
			want := map[string]bool{}
			both := 0
			for _, v := range strings.Split(strings.ToLower(vals), ",") {
				v = strings.TrimSpace(v)
				want[v] = true
				if set[v] {
					both++
				}
			}
			switch op {
			case "containsany":
				return both > 0
			case "containsall":
				return both == len(want)
			case "consistsof":
				return both == len(want) && both == len(set)
			}
			return both == len(set)
		}
		for _, l := range labels {
			if strings.EqualFold(l, f[j:i]) {
				return true
			}
		}
		return false
	}
	and := func() bool {
		v := unary()
		for eat("&&") {
			w := unary()
			v = v && w
		}
		return v
	}
	or = func() bool {
		v := and()
		for eat("||") || eat(",") {
			w := and()
			v = v || w
		}
		return v
	}
	return or()
}

func textFilter(r *rng) string {
	return pick(r, "it1", "it[2-5]$", "container2", "container[13] ", "^suite a it", "suite a", "it2|it7", "con.*it", "nosuch")
}

// fileFilters focuses or skips lines of the suite's file.
func (g *gen) fileFilters(p *Plan, r *rng, s *Suite) {
	if !r.p(6) || len(p.Suites) != 1 {
		return
	}
	var lines []int
	each(s.Nodes, func(n *Node) {
		lines = append(lines, n.L)
	})
	for i := 0; i < 2; i++ {
		var l []string
		for j := r.between(1, 3); j > 0; j-- {
			a := pick(r, lines...)
			l = append(l, fmt.Sprint(a))
			if r.p(30) {
				l[len(l)-1] += fmt.Sprintf("-%d", a+r.n(12))
			}
		}
		f := pick(r, s.Name+"_suite", "suite_test.go$", ".") + ":" + strings.Join(l, ",")
		switch r.n(8) {
		case 0:
			f = "nosuch.go"
		case 1:
			f = "nosuch:" + l[0]
		}
		if r.p(50) {
			p.Opt.FocusFile = append(p.Opt.FocusFile, f)
		} else {
			p.Opt.SkipFile = append(p.Opt.SkipFile, f)
		}
		if r.p(60) {
			break
		}
	}
}

// fileMatch tells if a line of a file matches a filter of the form REGEXP or REGEXP:LINE,FROM-TO
func fileMatch(f, file string, line int) bool {
	re, lines, ok := strings.Cut(f, ":")
	if !regexp.MustCompile(re).MatchString("/" + file) {
		return false
	}
	if !ok {
		return true
	}
	for _, l := range strings.Split(lines, ",") {
		a, b, ok := strings.Cut(l, "-")
		from, _ := strconv.Atoi(a)
		to, _ := strconv.Atoi(b)
		if !ok {
			to = from + 1
		}
		if from <= line && line < to {
			return true
		}
	}
	return false
}

func noFilters(o *plan.Opt) {
	o.LabelFilter, o.Focus, o.Skip, o.FocusFile, o.SkipFile = "", nil, nil, nil, nil
}
