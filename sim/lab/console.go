package lab

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// The oracle of this file reads what the ginkgo command printed, and sets it
// against the reports: every suite is announced once and summed up once, and
// in between every spec of every process shows exactly once, whole, with its
// own content, in the order of its process.

const (
	bar     = "------------------------------"
	stamp   = "01/02/06 15:04:05.999"
	anyLine = "\x00any" // stands for any lines
)

var failureStates = map[string]bool{"failed": true, "aborted": true, "panicked": true, "interrupted": true, "timedout": true}

func (l Loc) String() string { return fmt.Sprintf("%s:%d", l.FileName, l.LineNumber) }

func (s *RSpec) labels() []string {
	var out []string
	seen := map[string]bool{}
	add := func(l string) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	for _, ls := range s.ContainerHierarchyLabels {
		for _, l := range ls {
			add(l)
		}
	}
	for _, l := range s.LeafNodeLabels {
		add(l)
	}
	return out
}

func (s *RSpec) suiteLevel() bool { return s.LeafNodeType != "It" }

// lines cuts text into its lines, without the indentation and blank ones.
func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// where says which spec, and which of its nodes failed.
func (s *RSpec) where(vv, precise bool) []string {
	texts := append([]string{}, s.ContainerHierarchyTexts...)
	locs := append([]Loc{}, s.ContainerHierarchyLocations...)
	labels := append([][]string{}, s.ContainerHierarchyLabels...)
	leaf := s.RawText
	if s.suiteLevel() {
		leaf = fmt.Sprintf("[%s] %s", s.LeafNodeType, leaf)
	}
	texts, locs, labels = append(texts, leaf), append(locs, s.LeafNodeLocation), append(labels, s.LeafNodeLabels)
	f := s.Failure
	if f == nil {
		f = &RFailure{}
	}
	at := f.FailureNodeLocation
	if precise {
		at = f.Location
	}
	switch f.FailureNodeContext {
	case "top-level":
		texts = append([]string{fmt.Sprintf("TOP-LEVEL [%s]", f.FailureNodeType)}, texts...)
		locs = append([]Loc{at}, locs...)
		labels = append([][]string{nil}, labels...)
	case "in-container":
		if i := f.FailureNodeContainerIndex; i < len(texts) {
			texts[i] += fmt.Sprintf(" [%s]", f.FailureNodeType)
			locs[i] = at
		}
	case "leaf-node":
		i := len(texts) - 1
		texts[i] = fmt.Sprintf("[%s] %s", s.LeafNodeType, s.RawText)
		locs[i] = at
	}
	out := ""
	if vv {
		for i := range texts {
			out += texts[i]
			if i < len(labels) && len(labels[i]) > 0 {
				out += fmt.Sprintf(" [%s]", strings.Join(labels[i], ", "))
			}
			out += "\n" + locs[i].String() + "\n"
		}
		return lines(out)
	}
	out = strings.Join(texts, " ")
	if l := s.labels(); len(l) > 0 {
		out += fmt.Sprintf(" [%s]", strings.Join(l, ", "))
	}
	out += "\n"
	end := locs[len(locs)-1]
	switch fl := f.FailureNodeLocation; {
	case precise:
		out += at.String()
	case (fl.FileName != "" || fl.LineNumber != 0) && (fl.FileName != end.FileName || fl.LineNumber != end.LineNumber):
		out += fmt.Sprintf("[%s] %s\n[%s] %s", f.FailureNodeType, fl, s.LeafNodeType, end)
	default:
		out += end.String()
	}
	return lines(out)
}

func failLines(state string, f *RFailure, more bool) []string {
	out := lines(fmt.Sprintf("[%s] %s", strings.ToUpper(state), f.Message))
	out = append(out, fmt.Sprintf("In [%s] at: %s @ %s", f.FailureNodeType, f.Location, f.TimelineLocation.Time.Format(stamp)))
	if f.ForwardedPanic != "" {
		out = append(out, lines(f.ForwardedPanic)...)
		out = append(out, "Full Stack Trace")
		out = append(out, lines(f.Location.FullStackTrace)...)
	}
	if t := f.ProgressReport.CurrentNodeType; t != "" && !strings.Contains(t, "INVALID") {
		out = append(out, anyLine)
	}
	if f.AdditionalFailure != nil && more {
		out = append(out, failLines(f.AdditionalFailure.State, &f.AdditionalFailure.Failure, true)...)
	}
	return out
}

func shortFail(state string, f *RFailure) []string {
	return lines(fmt.Sprintf("[%s] in [%s] - %s @ %s", strings.ToUpper(state), f.FailureNodeType, f.Location, f.TimelineLocation.Time.Format(stamp)))
}

func entryLines(e *REntry) []string {
	out := lines(fmt.Sprintf("%s - %s @ %s", e.Name, e.Location, e.Time.Format(stamp)))
	if e.Value != nil {
		out = append(out, lines(e.Value.Representation)...)
	}
	return out
}

func eventLines(e *REvent, vv bool) []string {
	loc := ""
	if vv {
		loc = fmt.Sprintf("- %s ", e.CodeLocation)
	}
	at := e.TimelineLocation.Time.Format(stamp)
	took := e.Duration.Round(time.Millisecond)
	switch e.SpecEventType {
	case "By":
		return lines(fmt.Sprintf("STEP: %s %s@ %s", e.Message, loc, at))
	case "By (End)":
		return lines(fmt.Sprintf("END STEP: %s %s@ %s (%s)", e.Message, loc, at, took))
	case "Node":
		return lines(fmt.Sprintf("> Enter [%s] %s %s@ %s", e.NodeType, e.Message, loc, at))
	case "Node (End)":
		return lines(fmt.Sprintf("< Exit [%s] %s %s@ %s (%s)", e.NodeType, e.Message, loc, at, took))
	case "Repeat":
		return lines(fmt.Sprintf("Attempt #%d Passed.  Repeating ↺ @ %s", e.Attempt, at))
	case "Retry":
		return lines(fmt.Sprintf("Attempt #%d Failed.  Retrying ↺ @ %s", e.Attempt, at))
	}
	return nil
}

func (e *REntry) always() bool { return e.Visibility == "" || e.Visibility == "always" }

// block is what one spec shows as: a single character, or lines.
type block struct {
	sr   *RSpec
	dot  string
	text []string
}

// shown renders a report the way the documentation describes the verbosity
// levels, for a parallel run.
func (s *RSpec) shown(verb string) *block {
	level := map[string]int{"succinct": 0, "": 1, "v": 2, "vv": 3}[verb]
	failed := failureStates[s.State]
	f := s.Failure
	if f != nil && f.Message == "" && f.Location.FileName == "" {
		f = nil
	}
	var skipped string
	if f != nil {
		skipped = f.Message
	}
	type item struct {
		at    TLoc
		lines []string
		fail  bool
	}
	var tl []item
	if level >= 2 || failed {
		addFail := func(state string, x *RFailure, more bool) {
			it := item{at: x.TimelineLocation, fail: true}
			if level == 3 {
				it.lines = failLines(state, x, more)
			} else {
				it.lines = shortFail(state, x)
			}
			tl = append(tl, it)
		}
		if f != nil {
			addFail(s.State, f, false)
			if a := f.AdditionalFailure; a != nil {
				addFail(a.State, &a.Failure, true)
			}
		}
		for i := range s.AdditionalFailures {
			addFail(s.AdditionalFailures[i].State, &s.AdditionalFailures[i].Failure, true)
		}
		for i := range s.ReportEntries {
			if e := &s.ReportEntries[i]; e.Visibility != "never" {
				tl = append(tl, item{at: e.TimelineLocation, lines: entryLines(e)})
			}
		}
		for i := range s.ProgressReports {
			tl = append(tl, item{at: s.ProgressReports[i].TimelineLocation, lines: []string{anyLine}})
		}
		for i := range s.SpecEvents {
			e := &s.SpecEvents[i]
			if t := e.SpecEventType; level == 3 || t != "By (End)" && t != "Node" && t != "Node (End)" {
				tl = append(tl, item{at: e.TimelineLocation, lines: eventLines(e, level == 3)})
			}
		}
		sort.SliceStable(tl, func(i, j int) bool { return tl[i].at.Order < tl[j].at.Order })
	}
	gw := s.CapturedGinkgoWriterOutput
	showTL := (level >= 2 || failed) && (len(tl) > 0 || gw != "")
	if level < 3 && gw == "" && len(tl) > 0 && tl[0].fail && f != nil && (len(tl) == 1 || len(tl) == 2 && f.AdditionalFailure != nil) {
		showTL = false
	}
	always := false
	for i := range s.ReportEntries {
		always = always || s.ReportEntries[i].always()
	}
	showEntries := always && !showTL
	content := level == 3 || showTL || showEntries || s.CapturedStdOutErr != "" || failed || level == 2 && s.State != "skipped"
	head := "•"
	if s.suiteLevel() {
		head = "[" + s.LeafNodeType + "]"
	}
	switch s.State {
	case "passed":
		if s.suiteLevel() {
			if !content {
				return nil
			}
			head += " PASSED"
		}
		if s.NumAttempts > 1 && s.MaxFlakeAttempts > 1 {
			head, content = fmt.Sprintf("↺ [FLAKEY TEST - TOOK %d ATTEMPTS TO PASS]", s.NumAttempts), true
		}
	case "pending":
		head = "P"
		if level > 0 {
			head, content = "P [PENDING]", true
		}
	case "skipped":
		head = "S"
		if level == 3 || level == 2 && skipped != "" {
			head, content = "S [SKIPPED]", true
		}
	default:
		head += " [" + strings.ToUpper(s.State) + "]"
		if s.MaxMustPassRepeatedly > 1 {
			head += fmt.Sprintf(" DURING REPETITION #%d", s.NumAttempts)
		}
	}
	if !content {
		return &block{sr: s, dot: head}
	}
	if s.State != "skipped" && s.State != "pending" || s.State == "skipped" && skipped != "" {
		head += fmt.Sprintf(" [%.3f seconds]", s.RunTime.Seconds())
	}
	out := append([]string{head}, s.where(level == 3, false)...)
	section := func(name string, l []string) {
		out = append(append(append(out, name+" >>"), l...), "<< "+name)
	}
	if s.CapturedStdOutErr != "" {
		section("Captured StdOut/StdErr Output", lines(s.CapturedStdOutErr))
	}
	if showEntries {
		var l []string
		for i := range s.ReportEntries {
			if e := &s.ReportEntries[i]; e.always() {
				l = append(l, entryLines(e)...)
			}
		}
		section("Report Entries", l)
	}
	if showTL {
		var l []string
		cursor := 0
		for _, it := range tl {
			if to := min(it.at.Offset, len(gw)); to > cursor {
				l = append(l, lines(gw[cursor:to])...)
				cursor = to
			}
			l = append(l, it.lines...)
		}
		section("Timeline", append(l, lines(gw[cursor:])...))
	}
	if f != nil && level < 3 {
		out = append(out, failLines(s.State, f, true)...)
		if len(s.AdditionalFailures) > 0 {
			out = append(out, "There were additional failures detected.  To view them in detail run ginkgo -vv")
		}
	}
	return &block{sr: s, text: out}
}

// matches compares lines with a pattern that may hold anyLine.
func matches(pat, got []string) bool {
	var last []string // what follows the anyLine seen last
	var rest []string
	seen := false
	for {
		if len(pat) > 0 && pat[0] == anyLine {
			seen, last, rest = true, pat[1:], got
			pat = last
			continue
		}
		if len(pat) == 0 && len(got) == 0 {
			return true
		}
		if len(pat) > 0 && len(got) > 0 && pat[0] == got[0] {
			pat, got = pat[1:], got[1:]
			continue
		}
		if !seen || len(rest) == 0 {
			return false
		}
		rest = rest[1:] // the anyLine takes one more
		pat, got = last, rest
	}
}

func differ(pat, got []string) string {
	for i := range pat {
		if pat[i] == anyLine {
			break
		}
		if i >= len(got) {
			return fmt.Sprintf("line %d, %q, is missing", i+1, clip(pat[i]))
		}
		if got[i] != pat[i] {
			return fmt.Sprintf("line %d should be %q, it is %q", i+1, clip(pat[i]), clip(got[i]))
		}
	}
	if len(got) > len(pat) {
		return fmt.Sprintf("%d lines too many, the first is %q", len(got)-len(pat), clip(got[len(pat)]))
	}
	return "it differs in the middle"
}

// whole: every process of the run ended by itself.
func (v *view) whole(rv *rview) bool {
	for _, pv := range rv.order {
		if !pv.exited || pv.died || pv.status != 0 && pv.status != 1<<8 && pv.status != 197<<8 {
			return false
		}
	}
	return len(rv.order) == v.p.Procs
}

// console reads the output of the ginkgo command.
func (v *view) console() {
	p := v.p
	if _, done := v.rootStatus(); !p.Cli || p.Procs < 2 || !done {
		return
	}
	runs := append([]*rview{}, v.runs...)
	sort.SliceStable(runs, func(i, j int) bool {
		a, _ := runs[i].span()
		b, _ := runs[j].span()
		return a < b
	})
	rest := v.r.Stdout
	for k, rv := range runs {
		su := p.Suites[rv.suite]
		whole := v.whole(rv)
		name := fmt.Sprintf("suite %s (run %d)", su.Name, rv.iter+1)
		// what process 1 prints in its own part of a synchronized node shows at once
		cutOut := func(t string) bool {
			for at := 0; ; {
				i := strings.Index(rest[at:], t)
				if i < 0 {
					return false
				}
				if i += at; i < 2 || rest[i-2:i] != "  " { // not in a block
					rest = rest[:i] + rest[i+len(t):]
					return true
				}
				at = i + 1
			}
		}
		sure, unsure := v.forwarded(rv)
		for _, t := range sure { // or it was cut into pieces, or never sent
			whole = cutOut(t) && whole
		}
		for _, t := range unsure {
			cutOut(t)
		}
		header := fmt.Sprintf("Running Suite: suite %s - /SIM/work/%s\n", su.Name, su.Path())
		i := strings.Index(rest, header)
		// with several suites it is brief by default
		brief := fmt.Sprintf("[%d] suite %s ", v.seed(), su.Name)
		verb := p.Opt.Verbosity
		if j := strings.Index(rest, brief); (verb == "succinct" || verb == "" && len(p.Suites) > 1) && j >= 0 && (i < 0 || j < i) {
			header, i, verb = brief, j, "succinct"
		}
		if i < 0 {
			if whole {
				v.add("console-header", "C22", "%s: all its processes ran and ended, and nothing announces it on the console", name)
			}
			continue
		}
		seg := rest[i:]
		next := -1
		for _, o := range runs[k+1:] {
			os := p.Suites[o.suite]
			for _, h := range []string{fmt.Sprintf("Running Suite: suite %s - /SIM/work/%s\n", os.Name, os.Path()), fmt.Sprintf("[%d] suite %s ", v.seed(), os.Name)} {
				if j := strings.Index(seg[len(header):], h); j >= 0 && (next < 0 || j+len(header) < next) {
					next = j + len(header)
				}
			}
		}
		before := rest[:i]
		rest = ""
		if next >= 0 {
			// the next one may print before it is announced
			end := len(header)
			if c, _ := summaryAt(seg[:next], verb == "succinct"); c >= 0 {
				end = c
			}
			rest = seg[end:]
			seg = seg[:next]
		}
		if !whole {
			continue
		}
		v.fact("console-run")
		if strings.Contains(seg[len(header):], header) {
			v.add("console-header", "C22", "%s: the console announces it twice", name)
			continue
		}
		if !strings.Contains(before, "Progress Report") && (strings.Contains(before, bar) || strings.Contains(before, "•")) && k == 0 {
			v.add("console-early", "C22", "%s: results are printed before the suite is announced: %q", name, clip(strings.Join(lines(before), " / ")))
		}
		v.consoleRun(rv, name, seg, verb)
	}
}

// forwarded lists what process 1 wrote to its standard streams in its own
// functions of SynchronizedBeforeSuite and SynchronizedAfterSuite, and what
// callbacks given up on before may have written meanwhile.
func (v *view) forwarded(rv *rview) (sure, unsure []string) {
	pv := rv.procs[1]
	if pv == nil || v.p.Opt.Intercept == "none" {
		return nil, nil
	}
	m := v.model(rv.suite, rv.iter)
	cs := calls(pv)
	for k, c := range cs {
		if kd := c.kind(m); kd != "sbs" && kd != "sas" || c.e.S != "p1" {
			continue
		}
		end := c.endSeq
		if k+1 < len(cs) {
			end = max(end, cs[k+1].e.Seq)
		}
		for i := range pv.ev {
			e := &pv.ev[i]
			if e.Kind != "out" && e.Kind != "err" || e.Seq < c.e.Seq || e.Seq > end {
				continue
			}
			if e.ID == c.e.ID && e.Ex == c.e.Ex {
				sure = append(sure, e.S)
			} else {
				unsure = append(unsure, e.S)
			}
		}
	}
	return sure, unsure
}

// summaryAt finds where a suite is summed up, and how often.
func summaryAt(seg string, succinct bool) (cut, n int) {
	cut = -1
	for _, mark := range []string{"\nRan ", " SUCCESS! "} {
		if mark != "\nRan " && !succinct {
			continue
		}
		for at := 0; ; {
			i := strings.Index(seg[at:], mark)
			if i < 0 {
				break
			}
			line := seg[at+i+1:]
			if j := strings.IndexByte(line, '\n'); j >= 0 {
				line = line[:j]
			}
			var a, b int
			var d string
			if k, _ := fmt.Sscanf(line, "Ran %d of %d Specs in %s", &a, &b, &d); k == 3 || strings.HasPrefix(line, "SUCCESS! ") && !strings.Contains(line, "--") {
				if cut < 0 {
					cut = at + i
				}
				n++
			}
			at += i + 1
		}
	}
	return cut, n
}

func (v *view) consoleRun(rv *rview, name, seg, verb string) {
	p := v.p
	succinct := verb == "succinct"
	var rep *RReport
	if v.lastIter(rv) {
		rep = v.rep[p.Suites[rv.suite].Name]
	}
	cut, n := summaryAt(seg, succinct)
	v.fact("console-summary")
	if n != 1 {
		v.add("console-summary", "C22", "%s: the console sums it up %d times", name, n)
		return
	}
	body, tail := seg[:cut], lines(seg[cut:])
	if rep == nil || v.torn() {
		return
	}
	reps := rep.SpecReports
	// the header
	head := fmt.Sprintf("Running Suite: %s - %s\n", rep.SuiteDescription, rep.SuitePath)
	if succinct {
		head = fmt.Sprintf("[%d] %s ", v.seed(), rep.SuiteDescription)
		if len(rep.SuiteLabels) > 0 {
			head += fmt.Sprintf("[%s] ", strings.Join(rep.SuiteLabels, ", "))
		}
		head += fmt.Sprintf("- %d/%d specs - %d procs ", rep.PreRunStats.SpecsThatWillRun, rep.PreRunStats.TotalSpecs, p.Procs)
	} else {
		if len(rep.SuiteLabels) > 0 {
			l := strings.Join(rep.SuiteLabels, ", ")
			head += fmt.Sprintf("[%s] \n", l)
		}
		head += "\n" + fmt.Sprintf("Random Seed: %d", v.seed())
		if p.Opt.RandAll {
			head += " - will randomize all specs"
		}
		head += fmt.Sprintf("\n\nWill run %d of %d specs\nRunning in parallel across %d processes\n", rep.PreRunStats.SpecsThatWillRun, rep.PreRunStats.TotalSpecs, p.Procs)
	}
	v.fact("console-header")
	if !succinct { // the line below the title is as long as the real path
		if l := strings.SplitN(body, "\n", 5); len(l) > 3 {
			for i := 1; i < 3; i++ {
				if len(l[i]) > 9 && strings.Trim(l[i], "=") == "" {
					l[i] = ""
					break
				}
			}
			body = strings.Join(l, "\n")
		}
	}
	if !strings.HasPrefix(body, head) {
		v.add("console-header", "C22", "%s: the suite is announced with %q, it should be %q", name, clip(strings.Join(lines(body[:min(len(body), len(head))]), " / ")), clip(strings.Join(lines(head), " / ")))
		return
	}
	body = body[len(head):]
	// counts
	own := map[string]int{} // failures the JSON report cannot know of
	if strings.Contains(body, "[ReportAfterSuite] Autogenerated") {
		own["late"]++
	}
	var ran, failed, passed, flaked, repeated, pending, skipped, its int
	var summary []string
	for i := range reps {
		s := &reps[i]
		if failureStates[s.State] {
			mark := map[string]string{"failed": "[FAIL]", "panicked": "[PANICKED!]", "aborted": "[ABORTED]", "timedout": "[TIMEDOUT]", "interrupted": "[INTERRUPTED]"}[s.State]
			w := s.where(false, true)
			w[0] = mark + " " + w[0]
			summary = append(summary, strings.Join(w, "\n"))
		}
		if s.suiteLevel() {
			continue
		}
		its++
		switch {
		case s.State == "passed":
			ran++
			passed++
			if s.NumAttempts > 1 && s.MaxFlakeAttempts > 1 {
				flaked++
			}
		case failureStates[s.State]:
			ran++
			failed++
			if s.NumAttempts > 1 && s.MaxMustPassRepeatedly > 1 {
				repeated++
			}
		case s.State == "pending":
			pending++
		case s.State == "skipped":
			skipped++
		}
	}
	v.fact("console-counts")
	late := own["late"] > 0
	if i := strings.Index(body, "\nSummarizing "); i >= 0 {
		got := lines(body[i:])
		body = body[:i]
		var k int
		fmt.Sscanf(got[0], "Summarizing %d Failure", &k)
		if k != len(summary) && !late {
			v.add("console-failures", "C06 C22", "%s: the console sums up %d failures, the report has %d", name, k, len(summary))
			return
		}
		sort.Strings(summary)
		var gs []string
		for _, l := range got[1:] {
			if strings.HasPrefix(l, "[FAIL] ") || strings.HasPrefix(l, "[PANICKED!] ") || strings.HasPrefix(l, "[ABORTED] ") || strings.HasPrefix(l, "[TIMEDOUT] ") || strings.HasPrefix(l, "[INTERRUPTED] ") {
				gs = append(gs, l)
			} else if len(gs) > 0 {
				gs[len(gs)-1] += "\n" + l
			}
		}
		sort.Strings(gs)
		if !late && strings.Join(gs, "\n") != strings.Join(summary, "\n") {
			v.add("console-failures", "C06 C22", "%s: the failures summed up are %q, they should be %q", name, clip(strings.Join(gs, " | ")), clip(strings.Join(summary, " | ")))
		}
	} else if len(summary) > 0 {
		v.add("console-failures", "C06 C22", "%s: the console does not sum up the %d failures of the report", name, len(summary))
	}
	if !strings.HasPrefix(tail[0], "SUCCESS! ") {
		var a, b int
		fmt.Sscanf(tail[0], "Ran %d of %d Specs", &a, &b)
		if a != ran || b != rep.PreRunStats.TotalSpecs {
			v.add("console-counts", "C22", "%s: the console says %q, the report has %d of %d", name, tail[0], ran, rep.PreRunStats.TotalSpecs)
		}
		want := fmt.Sprintf("%d Passed | %d Failed | ", passed, failed)
		if flaked > 0 {
			want += fmt.Sprintf("%d Flaked | ", flaked)
		}
		if repeated > 0 {
			want += fmt.Sprintf("%d Repeated | ", repeated)
		}
		want += fmt.Sprintf("%d Pending | %d Skipped", pending, skipped)
		ok := false
		for _, l := range tail[1:min(len(tail), 5)] {
			ok = ok || l == want || strings.HasSuffix(l, " -- "+want)
		}
		for i := range reps {
			if s := &reps[i]; its == 0 && (s.LeafNodeType == "BeforeSuite" || s.LeafNodeType == "SynchronizedBeforeSuite") && failureStates[s.State] {
				ok = strings.Contains(strings.Join(tail[:min(len(tail), 5)], "\n"), "A BeforeSuite node failed so all tests were skipped.")
			}
		}
		if !ok {
			v.add("console-counts", "C22", "%s: the console says %q, it should say %q", name, clip(strings.Join(tail[1:min(len(tail), 4)], " / ")), want)
		}
		verdict := strings.Join(tail[1:min(len(tail), 3)], "\n")
		if w := map[bool]string{true: "SUCCESS!", false: "FAIL!"}[rep.SuiteSucceeded && !late]; !late && !strings.HasPrefix(verdict, w) {
			v.add("console-verdict", "C06 C22", "%s: the console says %q, the report says succeeded=%v", name, clip(verdict), rep.SuiteSucceeded)
		}
		if !late {
			for _, r := range rep.SpecialSuiteFailureReasons {
				if !strings.Contains(verdict, r) {
					v.add("console-verdict", "C06 C22", "%s: the console says %q, the report names the reason %q", name, clip(verdict), r)
				}
			}
		}
	} else if !rep.SuiteSucceeded {
		v.add("console-verdict", "C06 C22", "%s: the console says %q, the report says that it failed", name, clip(tail[0]))
	}
	if !v.stray("prpanic") { // it may change a state that has been shown
		v.consoleBlocks(name, body, verb, reps)
	}
}

// unlate leaves out the last k progress reports: they may have been added when
// the report had been sent to the console already.
func (s *RSpec) unlate(k int) *RSpec {
	c := *s
	c.ProgressReports = s.ProgressReports[:len(s.ProgressReports)-k]
	return &c
}

// consoleBlocks compares what is printed between header and summary.
func (v *view) consoleBlocks(name, body, verb string, reps []RSpec) {
	var blocks [][]string
	dots := map[string]int{}
	var cur []string
	progress := false
	flush := func() {
		if len(cur) > 0 && !progress {
			blocks = append(blocks, cur)
		}
		cur, progress = nil, false
	}
	all := lines(body)
	for i, l := range all {
		switch {
		case l == bar:
			flush()
		default:
			if len(cur) == 0 {
				if strings.HasPrefix(l, "Progress Report for Ginkgo Process") {
					progress = true
				} else if strings.Trim(l, "•SP") == "" && (i+1 == len(all) || all[i+1] == bar) {
					for _, c := range l {
						dots[string(c)]++
					}
					continue
				}
			}
			cur = append(cur, l)
		}
	}
	flush()
	used := make([]bool, len(blocks))
	wantDots := map[string]int{}
	place := map[int][]int{} // by process
	v.fact("console-blocks")
	// callbacks that were given up on may record something at the last moment
	leaky := map[int]bool{}
	for i := range reps {
		gone := func(state string) bool {
			return state == "timedout" || state == "interrupted" || state == "aborted"
		}
		l := gone(reps[i].State)
		for j := range reps[i].AdditionalFailures {
			l = l || gone(reps[i].AdditionalFailures[j].State)
		}
		if l {
			leaky[reps[i].ParallelProcess] = true
		}
	}
	texts := map[int]*block{}
	mayDots := map[string][]int{}
	fits := map[int][]int{} // the blocks that may be the one of a report
	for i := range reps {
		b := reps[i].shown(verb)
		if b == nil {
			continue
		}
		if b.dot != "" {
			wantDots[b.dot]++
			continue
		}
		texts[i] = b
		forms := [][]string{b.text}
		for k := 1; k <= len(reps[i].ProgressReports) && k <= 5; k++ {
			if e := reps[i].unlate(k).shown(verb); e != nil && e.dot != "" {
				mayDots[e.dot] = append(mayDots[e.dot], i)
			} else if e != nil {
				forms = append(forms, e.text)
			}
		}
		for j := range blocks {
			for _, f := range forms {
				if matches(f, blocks[j]) {
					fits[i] = append(fits[i], j)
					break
				}
			}
		}
	}
	at, of := map[int]int{}, map[int]int{}
	var assign func(i int, tried map[int]bool) bool
	assign = func(i int, tried map[int]bool) bool {
		for _, j := range fits[i] {
			if tried[j] {
				continue
			}
			tried[j] = true
			if o, taken := of[j]; !taken || assign(o, tried) {
				at[i], of[j] = j, i
				return true
			}
		}
		return false
	}
	for i := range reps {
		if texts[i] != nil && assign(i, map[int]bool{}) {
			v.fact("console-block")
		}
	}
	for j := range of {
		used[j] = true
	}
	for i := range reps {
		b := texts[i]
		if b == nil {
			continue
		}
		if j, ok := at[i]; ok {
			if len(fits[i]) == 1 {
				place[reps[i].ParallelProcess] = append(place[reps[i].ParallelProcess], j)
			}
			continue
		}
		asDot := false
		for c, l := range mayDots {
			for _, k := range l {
				asDot = asDot || k == i
			}
			if asDot {
				wantDots[c]++
				break
			}
		}
		if asDot {
			continue
		}
		near := -1
		for j := range blocks {
			if !used[j] && len(blocks[j]) > 1 && blocks[j][0] == b.text[0] && blocks[j][1] == b.text[1] {
				near = j
				break
			}
		}
		if near < 0 {
			v.add("console-block", "C22", "%s: the console does not show %s %s (process %d): %q", name, reps[i].LeafNodeType, reps[i].LeafNodeText, reps[i].ParallelProcess, clip(strings.Join(b.text, " / ")))
			continue
		}
		used[near] = true
		if !leaky[reps[i].ParallelProcess] {
			v.add("console-block", "C15 C17 C22", "%s: the console shows %s (process %d) wrongly: %s", name, reps[i].LeafNodeText, reps[i].ParallelProcess, differ(b.text, blocks[near]))
		}
	}
	for j := range blocks {
		if !used[j] && !strings.Contains(blocks[j][min(1, len(blocks[j])-1)], "Autogenerated") {
			v.add("console-extra", "C22", "%s: the console shows what no spec accounts for: %q", name, clip(strings.Join(blocks[j], " / ")))
		}
	}
	for _, c := range []string{"•", "S", "P"} {
		if dots[c] != wantDots[c] {
			v.add("console-dots", "C22", "%s: the console shows %d of %s, it should be %d", name, dots[c], c, wantDots[c])
		}
	}
	for proc, l := range place {
		if !sort.IntsAreSorted(l) {
			v.add("console-order", "C22", "%s: the console shows the results of process %d out of order", name, proc)
		}
	}
}
