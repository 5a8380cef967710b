package lab

import (
	"encoding/xml"
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode/utf8"
)

// The report files: each is where it was asked for, is complete, says the same
// as the others, and is never silently missing.

var lineRE = regexp.MustCompile(`line t\d+\b`)

// wallBase is what the simulated wall clock shows when simulated time is 0.
const wallBase = int64(1900000001) * 1e9

type xSuites struct {
	XMLName  xml.Name `xml:"testsuites"`
	Tests    int      `xml:"tests,attr"`
	Disabled int      `xml:"disabled,attr"`
	Errors   int      `xml:"errors,attr"`
	Failures int      `xml:"failures,attr"`
	Suites   []xSuite `xml:"testsuite"`
}

type xSuite struct {
	Name     string  `xml:"name,attr"`
	Package  string  `xml:"package,attr"`
	Tests    int     `xml:"tests,attr"`
	Disabled int     `xml:"disabled,attr"`
	Skipped  int     `xml:"skipped,attr"`
	Errors   int     `xml:"errors,attr"`
	Failures int     `xml:"failures,attr"`
	Time     float64 `xml:"time,attr"`
	Props    []struct {
		Name  string `xml:"name,attr"`
		Value string `xml:"value,attr"`
	} `xml:"properties>property"`
	Cases []xCase `xml:"testcase"`
}

type xCase struct {
	Name      string  `xml:"name,attr"`
	Class     string  `xml:"classname,attr"`
	Status    string  `xml:"status,attr"`
	Time      float64 `xml:"time,attr"`
	Skipped   *xBad   `xml:"skipped"`
	Error     *xBad   `xml:"error"`
	Failure   *xBad   `xml:"failure"`
	SystemOut string  `xml:"system-out"`
	SystemErr string  `xml:"system-err"`
}

type xBad struct {
	Message string `xml:"message,attr"`
	Type    string `xml:"type,attr"`
	Text    string `xml:",chardata"`
}

func (s *xSuite) prop(n string) string {
	for _, p := range s.Props {
		if p.Name == n {
			return p.Value
		}
	}
	return ""
}

// xmlText is what a text becomes in XML, which has no control characters.
func xmlText(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd && r != utf8.RuneError || r >= 0x10000 {
			return r
		}
		return utf8.RuneError
	}, s)
}

// tcMsg is one TeamCity service message.
type tcMsg struct {
	kind string
	attr map[string]string
}

func parseTeamcity(s string) ([]tcMsg, error) {
	var out []tcMsg
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if s == "" {
			break
		}
		rest, ok := strings.CutPrefix(l, "##teamcity[")
		if !ok {
			return out, fmt.Errorf("line %d is no service message: %q", i+1, clip(l))
		}
		k := strings.IndexByte(rest, ' ')
		if k < 0 {
			return out, fmt.Errorf("line %d has no attributes: %q", i+1, clip(l))
		}
		m := tcMsg{rest[:k], map[string]string{}}
		rest = rest[k:]
		for {
			if rest == "]" {
				break
			}
			if !strings.HasPrefix(rest, " ") {
				return out, fmt.Errorf("line %d: malformed at %q", i+1, clip(rest))
			}
			rest = rest[1:]
			e := strings.Index(rest, "='")
			if e < 0 {
				return out, fmt.Errorf("line %d: malformed at %q", i+1, clip(rest))
			}
			name := rest[:e]
			rest = rest[e+2:]
			var val strings.Builder
			closed := false
			for j := 0; j < len(rest); j++ {
				c := rest[j]
				if c == '\'' {
					rest, closed = rest[j+1:], true
					break
				}
				if c == '[' || c == ']' || c == '\r' {
					return out, fmt.Errorf("line %d: unescaped %q in %s", i+1, c, name)
				}
				if c == '|' {
					j++
					if j == len(rest) {
						break
					}
					switch rest[j] {
					case 'n':
						c = '\n'
					case 'r':
						c = '\r'
					case '|', '\'', '[', ']':
						c = rest[j]
					default:
						return out, fmt.Errorf("line %d: unknown escape |%c", i+1, rest[j])
					}
				}
				val.WriteByte(c)
			}
			if !closed {
				return out, fmt.Errorf("line %d: %s does not end", i+1, name)
			}
			m.attr[name] = val.String()
		}
		out = append(out, m)
	}
	return out, nil
}

// fullName is how the flat formats name a spec.
func (s *RSpec) fullName() string {
	n := "[" + s.LeafNodeType + "]"
	t := append([]string{}, s.ContainerHierarchyTexts...)
	if s.RawText != "" {
		t = append(t, s.RawText)
	}
	if f := strings.Join(t, " "); f != "" {
		n += " " + f
	}
	var ls []string
	seen := map[string]bool{}
	for _, l := range append(append([][]string{}, s.ContainerHierarchyLabels...), s.LeafNodeLabels) {
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				ls = append(ls, x)
			}
		}
	}
	if len(ls) > 0 {
		n += " [" + strings.Join(ls, ", ") + "]"
	}
	return n
}

type repFormat struct{ ext, what string }

func (v *view) files() {
	p := v.p
	o := &p.Opt
	var formats []repFormat
	if o.JSON {
		formats = append(formats, repFormat{"json", "JSON"})
	}
	if o.JUnit {
		formats = append(formats, repFormat{"xml", "JUnit"})
	}
	if o.Teamcity {
		formats = append(formats, repFormat{"tc", "TeamCity"})
	}
	st, done := v.rootStatus()
	if len(formats) == 0 || !done || st&0x7f != 0 || st == 2<<8 {
		return
	}
	for _, e := range v.r.Events {
		if e.Kind == "out-of-copies" {
			return
		}
		if e.Kind == "crash" && e.Proc == 0 {
			return
		}
	}
	diskErr := v.r.FaultHit["disk-error-returned"] > 0
	sig, _ := v.rootSignal()
	asked := v.asked()
	if !p.Cli {
		asked = []int{0}
		if rv := v.runs; len(rv) == 0 || !rv[0].procs[1].normalEnd() {
			return
		}
	}
	// what has surely written its reports, at last
	lastRun := map[int]*rview{}
	for _, rv := range v.runs {
		if x := lastRun[rv.suite]; x == nil || rv.iter > x.iter {
			lastRun[rv.suite] = rv
		}
	}
	ended := func(i int) bool {
		rv := lastRun[i]
		if rv == nil || rv.procs[1] == nil || !rv.procs[1].normalEnd() {
			return false
		}
		for _, pv := range rv.order { // no report of a suite that lost a process
			if !pv.normalEnd() {
				return false
			}
		}
		ct := v.control(rv, rv.procs[1])
		// after three interrupts nothing more is reported, nor when the writing itself is interrupted
		return ct.atMost(never) < 3 && !v.lateFailure(rv)
	}
	ns := func(i int) string { return strings.ReplaceAll(p.Suites[i].Path(), "/", "_") }
	sep := func(i int, ext string) string {
		if o.OutputDir {
			return "out/" + ns(i) + "_r." + ext
		}
		return p.Suites[i].Path() + "/r." + ext
	}
	if !p.Cli {
		sep = func(i int, ext string) string { return p.Suites[i].Path() + "/r." + ext }
	}
	merged := p.Cli && !o.KeepSeparate
	mergedName := func(ext string) string {
		n := "r." + ext
		if o.OutputDir {
			n = "out/" + n
		}
		if o.Here {
			n = p.Suites[0].Path() + "/" + n
		}
		return n
	}
	if o.Here && o.OutputDir {
		sep = func(i int, ext string) string {
			return p.Suites[0].Path() + "/out/" + p.Suites[0].Name + "_r." + ext
		}
	}
	jsonOf := map[string][]*RReport{} // by file
	all := v.r.Stdout + v.r.Stderr
	for _, f := range formats {
		type file struct {
			name   string
			suites []int
		}
		var files []file
		if merged {
			files = []file{{mergedName(f.ext), asked}}
		} else {
			for _, i := range asked {
				files = append(files, file{sep(i, f.ext), []int{i}})
			}
		}
		for _, fl := range files {
			text, ok := v.r.Files[fl.name]
			if !ok {
				must := false
				for _, i := range fl.suites {
					must = must || ended(i)
				}
				if must {
					v.fact("report files")
					if st == 0 || !strings.Contains(all, "could not finalize") && !strings.Contains(all, "r."+f.ext) && !strings.Contains(all, "--"+strings.ToLower(f.what)+"-report") {
						v.add("file-silently-missing", "C18 C06", "the %s report %s is missing; the exit status is %d", f.what, fl.name, st>>8)
					} else if !diskErr {
						v.add("file-missing", "C18 C19", "the %s report %s is missing", f.what, fl.name)
					}
				}
				continue
			}
			v.fact("report files")
			// parse
			var got []string // suite paths
			var err error
			var reps []RReport
			var xs xSuites
			var tc []tcMsg
			switch f.ext {
			case "json":
				if reps, err = parseReports(text); err == nil {
					for i := range reps {
						got = append(got, reps[i].SuitePath)
						jsonOf[fl.name] = append(jsonOf[fl.name], &reps[i])
					}
				}
			case "xml":
				if err = xml.Unmarshal([]byte(text), &xs); err == nil {
					for i := range xs.Suites {
						got = append(got, xs.Suites[i].Package)
					}
				}
			case "tc":
				if tc, err = parseTeamcity(text); err == nil {
					err = v.teamcityShape(tc)
				}
			}
			if err != nil {
				if rv := lastRun[fl.suites[0]]; len(fl.suites) == 1 && rv != nil && rv.procs[1] != nil && rv.procs[1].died {
					continue // it died while writing it
				}
				if !diskErr {
					v.add("file-malformed", "C18", "the %s report %s is malformed: %v", f.what, fl.name, err)
				} else if st == 0 && !strings.Contains(all, "r."+f.ext+":\n") {
					v.add("file-silently-broken", "C18 C06", "the %s report %s is malformed (%v), the exit status is 0", f.what, fl.name, err)
				}
				continue
			}
			if f.ext != "tc" {
				// suites in order, each once, none invented
				k := 0
				for _, g := range got {
					j := k
					for j < len(fl.suites) && !strings.HasSuffix(g, "/"+p.Suites[fl.suites[j]].Path()) {
						j++
					}
					if j == len(fl.suites) {
						if !o.RandSuites { // any order is right then
							v.add("file-suites", "C18", "the %s report %s has suites %q: wrong order, twice, or not asked for", f.what, fl.name, got)
						}
						break
					}
					k = j + 1
				}
				for _, i := range fl.suites {
					n := 0
					for _, g := range got {
						if strings.HasSuffix(g, "/"+p.Suites[i].Path()) {
							n++
						}
					}
					s := p.Suites[i]
					must := ended(i) || p.Cli && sig < 0 && v.p.Opt.Timeout == 0 && !dead(v) && (s.CompileFail || s.NoTests || lastRun[i] == nil)
					v.fact("suites in report files")
					if n > 1 {
						v.add("file-suite-twice", "C18", "the %s report %s has suite %s %d times", f.what, fl.name, s.Name, n)
					}
					if n == 0 && must {
						if !diskErr {
							v.add("file-suite-missing", "C18 C19", "the %s report %s says nothing about suite %s", f.what, fl.name, s.Name)
						} else if st == 0 && !strings.Contains(all, sep(i, f.ext)) {
							v.add("file-suite-silently-missing", "C18 C06", "the %s report %s says nothing about suite %s, and no message does", f.what, fl.name, s.Name)
						}
					}
				}
			}
			// the same facts in all formats
			js := jsonOf[strings.TrimSuffix(fl.name, f.ext)+"json"]
			switch f.ext {
			case "json":
				v.jsonReports(fl.name, reps, lastRun)
			case "xml":
				v.junitSums(fl.name, &xs)
				if o.JSON && js != nil {
					v.junitSame(fl.name, &xs, js)
				}
			case "tc":
				if o.JSON && js != nil {
					v.teamcitySame(fl.name, tc, js)
				}
			}
		}
		if merged && !diskErr {
			for _, i := range asked {
				if n := sep(i, f.ext); n != mergedName(f.ext) {
					if _, ok := v.r.Files[n]; ok {
						v.add("file-left", "C18 C19", "the %s report %s of suite %s is left behind although reports are merged", f.what, n, p.Suites[i].Name)
					}
				}
			}
		}
	}
}

// dead: some process did not live to report.
func dead(v *view) bool {
	for _, rv := range v.runs {
		for _, pv := range rv.order {
			if !pv.normalEnd() {
				return true
			}
		}
	}
	return false
}

// jsonReports: what the report says about the suite as a whole.
func (v *view) jsonReports(name string, reps []RReport, lastRun map[int]*rview) {
	for k := range reps {
		r := &reps[k]
		i := -1
		for j, s := range v.p.Suites {
			if strings.HasSuffix(r.SuitePath, "/"+s.Path()) {
				i = j
			}
		}
		if i < 0 {
			continue
		}
		v.fact("suite verdicts in report files")
		bad := ""
		for j := range r.SpecReports {
			if failureState(r.SpecReports[j].State) {
				bad = r.SpecReports[j].LeafNodeType + " " + r.SpecReports[j].LeafNodeText + " " + r.SpecReports[j].State
			}
		}
		if bad != "" && r.SuiteSucceeded {
			v.add("report-succeeded", "C06 C18", "the report %s says that suite %s succeeded, but also: %s", name, v.p.Suites[i].Name, bad)
		}
		if rv := lastRun[i]; rv != nil && r.SuiteSucceeded {
			for _, pv := range rv.order {
				if pv.exited && !pv.died && pv.status != 0 && pv.status != 197<<8 && !v.lateFailure(rv) {
					v.add("report-succeeded", "C06 C14 C18", "the report %s says that suite %s succeeded, but %v ended with wait status %#x", name, v.p.Suites[i].Name, pv, pv.status)
				}
			}
		}
		if rv := lastRun[i]; rv != nil && rv.procs[1] != nil && v.r.FaultHit["clockjump"] == 0 && !r.StartTime.IsZero() && v.r.FaultHit["disk-error-returned"] == 0 {
			v.fact("age of report files")
			if t := r.StartTime.UnixNano() - wallBase; t < rv.procs[1].start {
				v.add("report-stale", "C18 C14", "the report %s on suite %s is of a run that began at %.3f s, the last run of it began at %.3f s", name, v.p.Suites[i].Name, float64(t)/1e9, float64(rv.procs[1].start)/1e9)
			}
		}
		if lastRun[i] == nil {
			s := v.p.Suites[i]
			if r.SuiteSucceeded && !s.NoTests || len(r.SpecialSuiteFailureReasons) == 0 {
				v.add("report-not-run", "C18 C19", "suite %s did not run; the report %s says succeeded=%v, reasons %q", s.Name, name, r.SuiteSucceeded, r.SpecialSuiteFailureReasons)
			}
		}
	}
}

// lateFailure: something may have gone wrong after the report was written.
func (v *view) lateFailure(rv *rview) bool {
	// the writing itself may take too long
	if lo, _ := v.suiteDue(rv.procs[1]); rv.procs[1].end+v.slack() > lo {
		return true
	}
	last := rv.procs[1].startSeq
	for _, e := range rv.procs[1].ev {
		if e.Kind == "exit" {
			last = e.Seq
		}
	}
	for _, e := range v.r.Events {
		if e.Kind == "fault" && strings.HasPrefix(e.ID, "signal-") && e.Seq >= last {
			return true
		}
	}
	return v.r.FaultHit["disk-error-returned"] > 0 || strings.Contains(v.r.Stdout, "[INTERRUPTED] [ReportAfterSuite] Autogenerated")
}

func (v *view) junitSums(name string, xs *xSuites) {
	var t, d, e, f int
	for i := range xs.Suites {
		s := &xs.Suites[i]
		t, d, e, f = t+s.Tests, d+s.Disabled+s.Skipped, e+s.Errors, f+s.Failures
		var n [5]int
		for j := range s.Cases {
			c := &s.Cases[j]
			n[0]++
			switch c.Status {
			case "pending":
				n[1]++
			case "skipped":
				n[2]++
			case "panicked", "interrupted", "aborted":
				n[3]++
			case "failed", "timedout":
				n[4]++
			}
		}
		v.fact("JUnit totals")
		if w := [5]int{s.Tests, s.Disabled, s.Skipped, s.Errors, s.Failures}; w != n {
			v.add("junit-counts", "C18", "the JUnit report %s counts tests, disabled, skipped, errors, failures of %s as %v, its cases give %v", name, s.Name, w, n)
		}
	}
	if w := [4]int{xs.Tests, xs.Disabled, xs.Errors, xs.Failures}; w != [4]int{t, d, e, f} {
		v.add("junit-totals", "C18", "the JUnit report %s has totals %v (tests, disabled, errors, failures), its suites add up to %v", name, w, [4]int{t, d, e, f})
	}
}

// torn: not everything that was to be written could be written.
func (v *view) torn() bool {
	t := dead(v) || v.r.FaultHit["disk-error-returned"] > 0
	for _, rv := range v.runs {
		t = t || rv.procs[1] != nil && v.lateFailure(rv)
	}
	return t
}

func (r *RReport) suiteTitle() string {
	t := r.SuiteDescription
	if len(r.SuiteLabels) > 0 {
		t += " [" + strings.Join(r.SuiteLabels, ", ") + "]"
	}
	return t
}

func (v *view) junitSame(name string, xs *xSuites, js []*RReport) {
	same := len(xs.Suites) == len(js)
	for k := 0; same && k < len(js); k++ {
		same = xs.Suites[k].Package == xmlText(js[k].SuitePath)
	}
	if !same {
		if !v.torn() {
			v.add("junit-suites", "C18", "the JUnit report %s has %d suites, the JSON report %d", name, len(xs.Suites), len(js))
		}
		return
	}
	for k, j := range js {
		s := &xs.Suites[k]
		if s.Name != xmlText(j.SuiteDescription) || s.Package != xmlText(j.SuitePath) || s.prop("SuiteSucceeded") != fmt.Sprint(j.SuiteSucceeded) || s.prop("SuiteHasProgrammaticFocus") != fmt.Sprint(j.SuiteHasProgrammaticFocus) || s.prop("SpecialSuiteFailureReason") != xmlText(strings.Join(j.SpecialSuiteFailureReasons, ",")) || s.prop("SuiteLabels") != xmlText("["+strings.Join(j.SuiteLabels, ",")+"]") || math.Abs(s.Time-j.RunTime.Seconds()) > 1e-6 {
			v.add("junit-suite", "C18", "the JUnit report %s describes suite %s otherwise than the JSON report (%q %q %v %v)", name, j.SuiteDescription, s.Name, s.Package, s.Props, s.Time)
		}
		if len(s.Cases) != len(j.SpecReports) {
			v.add("junit-cases", "C18", "the JUnit report %s has %d cases for suite %s, the JSON report %d", name, len(s.Cases), j.SuiteDescription, len(j.SpecReports))
			continue
		}
		for i := range j.SpecReports {
			sr, c := &j.SpecReports[i], &s.Cases[i]
			v.fact("JUnit cases")
			bad := func(what, got, want string) {
				v.add("junit-case", "C18", "the JUnit report %s, case %d of suite %s (%s, %s): %s is %q, it should be %q", name, i+1, j.SuiteDescription, sr.LeafNodeType, sr.LeafNodeText, what, clip(got), clip(want))
			}
			if w := xmlText(strings.TrimSpace(sr.fullName())); c.Name != w {
				bad("name", c.Name, w)
			}
			if c.Status != sr.State {
				bad("status", c.Status, sr.State)
			}
			if c.Class != xmlText(j.SuiteDescription) {
				bad("classname", c.Class, j.SuiteDescription)
			}
			if math.Abs(c.Time-sr.RunTime.Seconds()) > 1e-6 {
				bad("time", fmt.Sprint(c.Time), fmt.Sprint(sr.RunTime.Seconds()))
			}
			if w := xmlText(sr.CapturedStdOutErr); c.SystemOut != w {
				bad("system-out", c.SystemOut, w)
			}
			for _, w := range lineRE.FindAllString(sr.CapturedGinkgoWriterOutput, -1) { // events may split what is on one line
				if !strings.Contains(c.SystemErr, w) {
					bad("system-err", c.SystemErr, "… "+w+" …")
					break
				}
			}
			var want *xBad
			got := [3]*xBad{c.Skipped, c.Failure, c.Error}
			slot := -1
			switch sr.State {
			case "skipped":
				slot, want = 0, &xBad{Message: "skipped"}
				if m := sr.msg(); m != "" {
					want.Message += " - " + m
				}
			case "pending":
				slot, want = 0, &xBad{Message: "pending"}
			case "failed", "timedout", "aborted":
				slot, want = 1, &xBad{Message: sr.msg(), Type: sr.State}
			case "interrupted":
				slot, want = 2, &xBad{Message: sr.msg(), Type: sr.State}
			case "panicked":
				slot, want = 2, &xBad{Type: sr.State}
				if sr.Failure != nil {
					want.Message = sr.Failure.ForwardedPanic
				}
			}
			for q := range got {
				if (got[q] != nil) != (q == slot) {
					bad("kind of result", fmt.Sprint(q), fmt.Sprint(slot))
				} else if q == slot {
					if got[q].Message != xmlText(want.Message) || got[q].Type != want.Type {
						bad("result", got[q].Type+": "+got[q].Message, want.Type+": "+want.Message)
					}
					if q > 0 {
						for _, l := range strings.Split(sr.msg(), "\n") {
							if w := xmlText(strings.TrimSpace(l)); w != "" && !strings.Contains(l, "{{") && !strings.Contains(got[q].Text, w) {
								bad("description", got[q].Text, "… "+w+" …")
								break
							}
						}
					}
				}
			}
		}
	}
}

// teamcityShape: every suite and every test that starts finishes.
func (v *view) teamcityShape(l []tcMsg) error {
	suite, test, ends := "", "", true
	for i, m := range l {
		n := m.attr["name"]
		switch m.kind {
		case "testSuiteStarted":
			if !ends || test != "" {
				return fmt.Errorf("message %d: suite %q starts within another", i+1, n)
			}
			suite, ends = n, false
		case "testSuiteFinished":
			if ends || suite != n || test != "" {
				return fmt.Errorf("message %d: suite %q finishes, %q was open", i+1, n, suite)
			}
			ends = true
		case "testStarted":
			if ends || test != "" {
				return fmt.Errorf("message %d: test %q starts out of place", i+1, n)
			}
			test = n
		case "testFinished":
			if test == "" || test != n {
				return fmt.Errorf("message %d: test %q finishes, %q was open", i+1, n, test)
			}
			test = ""
		default:
			if test == "" || test != n {
				return fmt.Errorf("message %d: %s about test %q, %q was open", i+1, m.kind, n, test)
			}
		}
	}
	if !ends || test != "" {
		return fmt.Errorf("suite %q does not finish", suite)
	}
	return nil
}

func (v *view) teamcitySame(name string, l []tcMsg, js []*RReport) {
	n, same := 0, true
	for _, m := range l {
		if m.kind == "testSuiteStarted" {
			same = same && n < len(js) && m.attr["name"] == js[n].suiteTitle()
			n++
		}
	}
	if (n != len(js) || !same) && v.torn() {
		return // what is missing was not written in time
	}
	i := 0
	bad := func(j *RReport, f string, a ...any) {
		v.add("teamcity-same", "C18", "the TeamCity report %s: %s", name, fmt.Sprintf(f, a...))
	}
	for _, j := range js {
		want := j.suiteTitle()
		if i >= len(l) || l[i].attr["name"] != want {
			bad(nil, "suite %s does not start where it should", j.SuiteDescription)
			return
		}
		i++
		for k := range j.SpecReports {
			sr := &j.SpecReports[k]
			v.fact("TeamCity tests")
			n := sr.fullName()
			result, out, dur := "", "", ""
			if i >= len(l) || l[i].kind != "testStarted" || l[i].attr["name"] != n {
				bad(j, "test %q does not start where it should", n)
				return
			}
			for i++; i < len(l) && l[i].kind != "testFinished"; i++ {
				switch l[i].kind {
				case "testIgnored", "testFailed":
					result += l[i].kind + " " + l[i].attr["message"]
				case "testStdOut":
					out += l[i].attr["out"]
				}
			}
			if i < len(l) {
				dur = l[i].attr["duration"]
			}
			i++
			m := sr.msg()
			w := ""
			switch sr.State {
			case "pending":
				w = "testIgnored pending"
			case "skipped":
				w = "testIgnored skipped"
				if m != "" {
					w += " - " + m
				}
			case "panicked":
				w = "testFailed panicked - "
				if sr.Failure != nil {
					w += sr.Failure.ForwardedPanic
				}
			case "passed":
			default:
				w = "testFailed " + sr.State + " - " + m
			}
			if utf8.ValidString(result) && result != w {
				bad(j, "test %q has result %q, it should have %q", n, clip(result), clip(w))
			}
			if utf8.ValidString(out) && out != sr.CapturedStdOutErr {
				bad(j, "test %q has output %q, it should have %q", n, clip(out), clip(sr.CapturedStdOutErr))
			}
			if w := fmt.Sprint(int(sr.RunTime.Seconds() * 1000)); dur != w {
				bad(j, "test %q took %s ms, it should say %s", n, dur, w)
			}
		}
		if i >= len(l) || l[i].kind != "testSuiteFinished" {
			bad(j, "suite %s does not finish where it should", j.SuiteDescription)
			return
		}
		i++
	}
	if i != len(l) {
		bad(nil, "%d messages too many", len(l)-i)
	}
}
