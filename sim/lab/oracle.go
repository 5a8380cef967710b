package lab

import "strings"

// Check judges one run.
func Check(p *Plan, r *Result) []Finding { return Judge(p, r).out }

// CheckFacts also counts the comparisons made.
func CheckFacts(p *Plan, r *Result) ([]Finding, map[string]int) {
	v := Judge(p, r)
	return v.out, v.facts
}

// Judge judges one run and says which properties it bore on.
func Judge(p *Plan, r *Result) *view {
	v := newView(p, r)
	v.relevance()
	v.termination()
	if p.Unfocus != nil {
		if r.Status == "finished" {
			v.unfocus()
		}
		return v
	}
	if p.Watch != nil {
		if r.Status == "finished" {
			v.watch()
		}
		return v
	}
	for _, rv := range v.runs {
		v.general(rv)
	}
	if r.Status == "finished" {
		v.cli()
		v.files()
		v.console()
		v.order()
		v.profiles()
		for _, rv := range v.runs {
			v.records(rv)
			v.progress(rv)
		}
		preds := map[*rview]*predicted{}
		if v.stray("prpanic") {
			// it fails whatever runs at that moment
		} else if !disturbed(p) {
			for _, rv := range v.runs {
				if pr := v.exact(rv); pr.sure {
					preds[rv] = pr
					v.exits(rv, pr)
				}
			}
			v.cliExact(preds)
		} else {
			for _, rv := range v.runs {
				v.partial(rv)
			}
		}
	}
	return v
}

func (v *view) termination() {
	if v.r.Status != "finished" {
		v.add("no-end", "C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C18 C19 C20 C25 C26", "the run does not end: %s after %.1f s of simulated time", v.r.Status, float64(v.r.SimNs)/1e9)
	}
}

// PropProfiles says which kinds of runs decide a property; a check cycles
// through the list.
var PropProfiles = map[string][]string{}

// PropRule says what counts as a case of a property (for the evidence file).
var PropRule = map[string]string{
	"C01": "Every spec that was selected and not stopped must be entered once per attempt on exactly one process, and no other spec.",
	"C02": "The callbacks of every spec are compared with the order the reference model computes from the hierarchy of nodes.",
	"C03": "The groups of Ordered containers are compared with the reference model of once-only setup, order and skips.",
	"C04": "Every registered cleanup is paired with its executions: once, last in first out, in its scope.",
	"C05": "Attempts of retried specs are compared with the reference model.",
	"C06": "Every failure user code raises is looked for in reports, verdicts and exit statuses, and every failure reported in the history.",
	"C07": "Every callback with a limit must see its context end at the deadline, be reported so, and not hold up the run beyond its grace period.",
	"C08": "After each injected interrupt only the kinds of callback allowed at that step may start, and the run must end in time.",
	"C09": "Every spec must begin after the suite setup of its process, every process must be given the bytes process 1 returned.",
	"C10": "Suite teardown is counted per process, and process 1's part compared with the ends of the others.",
	"C11": "Every Serial callback is compared with the callbacks of all other processes.",
	"C12": "Every ReportBeforeSuite and ReportAfterSuite is counted, and what it is given compared with the history.",
	"C13": "After a failure under --fail-fast or AbortSuite no process may begin a spec beyond the bound.",
	"C14": "Processes are killed or exit at drawn moments; the command must end, fail, say so and leave nothing running.",
	"C15": "The bytes each callback writes are compared with the output its spec's report holds.",
	"C16": "Progress reports are compared with the requests, limits and poll intervals in force.",
	"C17": "The timeline of every spec's report is compared with the history.",
	"C18": "JSON, JUnit and TeamCity files are parsed and compared with the history and with each other.",
	"C19": "Compilations, runs, hooks and exit status are compared with the suites asked for.",
	"C20": "Outcomes are compared with those of the reference model, which knows neither processes nor schedule nor transport.",
	"C21": "ReportBeforeEach and ReportAfterEach are counted per spec, and the states they see compared with the model.",
	"C22": "The console of parallel runs is parsed and compared with the reports and the history.",
	"C23": "Runs with one seed are compared with each other, runs with different seeds must differ.",
	"C25": "Every edit of the watched tree is replayed on a model of it, and the suites it bears on are looked for among the runs that follow.",
	"C26": "Every file of the tree is compared, token by token, with what it should read without focus; after a fault its content must still be there.",
	"C24": "Coverage and other profiles left behind are compared with the sum of what the processes wrote.",
}

func init() {
	for prop, l := range map[string]string{
		"C01": "core shuffle death stop core signal",
		"C02": "core ordered stop signal core time shuffle",
		"C03": "ordered core ordered stop ordered signal death time",
		"C04": "ordered core signal stop ordered time core sync",
		"C05": "ordered core shuffle ordered core time records",
		"C06": "core stop signal time ordered death shuffle sync cli records output",
		"C07": "time time signal",
		"C08": "signal signal stop signal",
		"C09": "sync death sync core signal time",
		"C10": "sync death core signal time",
		"C11": "sync core death shuffle",
		"C12": "sync core death stop signal",
		"C13": "stop stop signal",
		"C14": "death death sync files",
		"C15": "output records output core records signal",
		"C16": "progress progress signal progress core",
		"C17": "records progress records core output",
		"C18": "files cli files death",
		"C19": "cli cli files cli signal",
		"C20": "shuffle core",
		"C21": "core ordered signal stop records",
		"C22": "core output shuffle records death progress stop",
		"C23": "order",
		"C24": "cover",
		"C25": "watch",
		"C26": "unfocus",
	} {
		PropProfiles[prop] = strings.Fields(l)
	}
}
