import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
SCH="the integration tests observe a handful of runs on whatever interleaving the machine happens to produce"
p("C01","Every selected spec runs exactly once, on exactly one process",
 "In a run that is not interrupted, aborted or hit by a process death, every spec that is neither pending nor filtered out runs on exactly one parallel process, once (once per attempt when retried), and every spec of the suite, run or not, appears exactly once in the suite's final report with a terminal state. Pending and filtered-out specs never run. Even in interrupted, aborted or crashed runs no spec ever runs on two processes or a second time.",
 ["schedules","programs","configurations","fault_sequences"],"all suite trees (containers, tables, Ordered, Serial, Pending, Focus), process counts, random seeds, shared-counter interleavings, slow or stalled processes and networks, and both wire protocols, also when processes build their trees in different orders",
 "partitioning is a race of all processes on one shared counter plus an ordering that every process must compute identically; "+SCH+" with one or two small trees",
 ["internal/suite.go","internal/ordering.go","internal/parallel_support/server_handler.go","internal/group.go"],
 [("shared counter","internal/parallel_support/server_handler.go Counter"),("OrderSpecs deterministic ordering","internal/ordering.go OrderSpecs"),("spec loop","internal/suite.go runSpecs")],
 [("counter","index of the next group to hand out","ServerHandler.counter")],["spec bodies executed per process","aggregated JSON report"])
p("C02","Setup, subject and teardown nodes run in hierarchy order around each spec",
 "For each attempt of a spec, BeforeEach/BeforeAll nodes run outermost first, then JustBeforeEach nodes, the subject, JustAfterEach and AfterEach/AfterAll nodes innermost first, one at a time on one process. If a setup node or the subject fails, skips or panics, no further setup node and no subject runs, yet every teardown node at the nesting levels reached still runs exactly once. No node of one spec runs inside another spec's window.",
 ["programs","schedules","histories"],"all hierarchies, node mixes and failure points (fail, skip, panic, abort, goroutine failure, timeout) at any node on any attempt, under any interleaving of processes",
 "tests pin a few dozen trees; the combination of nesting levels, several nodes per level, failure position and retries is unbounded",
 ["internal/group.go","internal/suite.go","internal/node.go","internal/tree.go"],
 [("attemptSpec","internal/group.go"),("runNode","internal/suite.go"),("nesting-level sorting","internal/node.go SortedBy*NestingLevel")],obs=["entry and exit of user callbacks"])
p("C03","Ordered containers keep order, process and once-only setup",
 "The specs of an Ordered container run contiguously, in declaration order, on one process; BeforeAll and OncePerOrdered setup nodes take effect once before the first spec that needs them and AfterAll and OncePerOrdered teardown nodes run once after the last spec that will run. After a failure the remaining specs are skipped and the once-only teardown still runs; with ContinueOnFailure they run anyway unless a once-only setup node failed. A once-only setup node that failed runs again only if its spec is retried.",
 ["programs","schedules","histories"],"all Ordered trees, failure positions, skips, retries, pending or filtered members, and process interleavings",
 "the run-once bookkeeping depends on which specs are skipped, fail, retry or come last; the tests enumerate some tens of combinations",
 ["internal/group.go","internal/ordering.go"],
 [("run-once tracker","internal/group.go runOnceTracker"),("execution groups","internal/ordering.go OrderSpecs"),("evaluateSkipStatus","internal/group.go")],
 [("runOnceTracker","outcome of each once-only node per container","group.runOnceTracker")],["entry of user callbacks","spec states in report"])
p("C04","Each registered cleanup runs exactly once, in LIFO order, in its scope",
 "Every cleanup registered with DeferCleanup runs exactly once on the registering process: after the attempt's AfterEach nodes when registered by a per-spec node, after the last spec of the once-only scope when registered by a once-only node, and after AfterSuite when registered by a suite node; within a scope they run in reverse order of registration. This holds when the registering node or other nodes fail, panic, skip, time out or are interrupted once, and no cleanup runs before the work it cleans up for ended. Cleanups are dropped only by a second interrupt, an exit or the death of the process.",
 ["programs","schedules","histories","fault_sequences"],"all registration sites and counts, failure points, retries, timeouts, first interrupts, and schedules",
 "a lost or repeated cleanup depends on combinations of scope, retry, failing neighbours and interrupt instants that a finite test list samples",
 ["internal/suite.go","internal/group.go","internal/node.go","core_dsl.go"],
 [("pushCleanupNode","internal/suite.go"),("cleanup selection","internal/group.go attemptSpec"),("suite cleanup","internal/suite.go runAfterSuiteCleanup")],
 [("cleanupNodes","pending cleanups","Suite.cleanupNodes")],["cleanup callbacks"])
p("C05","FlakeAttempts and MustPassRepeatedly retry exactly as promised",
 "A spec with FlakeAttempts(N) is retried until the first attempt that passes or skips and at most N times; it passes iff that attempt passes, and every earlier failed attempt stays recorded in its report. A spec with MustPassRepeatedly(N) runs until the first failing or skipped attempt and passes iff all N attempts pass. Each attempt runs the spec's full setup and teardown; the innermost decorator wins and the command-line settings override decorators.",
 ["programs","histories","schedules","configurations"],"all patterns of per-attempt outcomes, limits, decorator placement, command-line overrides, once-only scopes and schedules",
 "outcome patterns per attempt crossed with scopes and decorators are unbounded and tests use short fixed sequences",
 ["internal/group.go","internal/spec.go"],[("attempt loop","internal/group.go run"),("limits","internal/spec.go FlakeAttempts, MustPassRepeatedly")],obs=["attempt-stamped callbacks","NumAttempts and failures in report"])
p("C06","No failure is ever lost, and no failure is invented",
 "If any node fails, panics, times out or aborts (in a spec, a suite node, a cleanup, a reporting node, or a goroutine that reports through GinkgoRecover while its node runs), the spec or node it happened in is reported with that failure and message, the suite is reported failed, and the test process and the ginkgo command exit non-zero; a spec rescued by a retry and a skipped spec are the only exceptions. If nothing failed, everything is reported as passed and the exit status is zero. A failure is attributed to the spec in which it happened and to no other, even when an earlier node timed out and still runs in the background.",
 ["programs","schedules","histories","configurations"],"all positions and timings of failures, including failures racing with timeouts, grace periods, leaked nodes and other failures, on any process",
 "whether a failure survives depends on races between the node's goroutine, timeouts, leaked goroutines and cross-process reporting that tests do not control",
 ["internal/suite.go","internal/failer.go","internal/group.go","ginkgo/internal/run.go","core_dsl.go"],
 [("failer","internal/failer.go"),("runNode outcome hand-over","internal/suite.go runNode"),("suite verdict","internal/suite.go processCurrentSpecReport"),("exit codes","ginkgo/internal/run.go")],
 [("failer state","first failure since last drain","Failer")],["JSON report","exit status of test processes and CLI"])
p("C07","Timeouts cut nodes off on time and the run moves on",
 "A node with a NodeTimeout, a spec with a SpecTimeout or a suite with --timeout that exceeds its limit is told to stop through its context at the limit, is reported as timed out, and if it does not return within its grace period the runner proceeds without it to teardown, reporting and remaining specs. A node that finishes before every limit in force is never reported as timed out. However a node behaves, the run ends within the sum of the limits and grace periods that apply.",
 ["schedules","programs","histories","fault_sequences"],"all limits, grace periods, body durations, context-aware and oblivious bodies, nested limits, wall-clock jumps, stalls, and failures racing with the deadline",
 "tests use real time with generous margins and cannot explore the race of completion, deadline, grace period and interrupt",
 ["internal/suite.go","internal/spec_context.go","ginkgo/run/run_command.go"],
 [("deadline and grace select loop","internal/suite.go runNode"),("suite deadline","internal/group.go evaluateSkipStatus"),("remaining time per suite","ginkgo/run/run_command.go")],obs=["context cancellation time","spec states","time of next node"])
p("C08","Interrupts stop the run in three bounded, well-defined steps",
 "On the first interrupt (SIGINT/SIGTERM) the running node is told to stop, remaining specs are skipped and cleanup and reporting nodes still run; on the second only reporting nodes run; on the third the process ends without running anything more. After an interrupt no further spec starts, the suite is reported as failed and the exit status is non-zero, however many processes run and wherever the signal lands. Every process ends within the grace periods in force and the time its cleanups take.",
 ["schedules","crash_points","fault_sequences","programs"],"every instant of signal delivery, including none, one, two or three signals at any spacing, to all or some processes, during any node, suite node or parallel synchronisation point or compilation",
 "the instant of the signal relative to node starts, synchronisation barriers and suite boundaries decides the outcome; the tests send a signal at two or three fixed places",
 ["internal/interrupt_handler/interrupt_handler.go","internal/suite.go","internal/group.go","ginkgo/run/run_command.go"],
 [("interrupt levels","internal/interrupt_handler/interrupt_handler.go"),("level checks before each node","internal/suite.go runNode"),("CLI handling","ginkgo/run/run_command.go")],
 [("level","number of interrupts honoured","InterruptHandler.level")],["callbacks after signal","report","exit status"])
p("C09","Suite setup runs before every spec and its data reaches every process",
 "BeforeSuite runs once on each process before any of its specs; the first function of SynchronizedBeforeSuite runs once, on process 1 only, and finishes before the second function starts on any process, which then receives exactly the bytes returned. No spec starts on a process whose suite setup has not succeeded. If setup fails, panics, skips, times out or its process dies on process 1, no process runs a spec or hangs, and the run fails (or is reported skipped when it skipped).",
 ["schedules","programs","fault_sequences","crash_points"],"all payloads, durations, outcomes, process counts, slow processes and networks, and deaths of any process during setup, over both protocols",
 "the barrier is polled across processes; its ordering against slow, failing or dying peers is a schedule property that tests sample once",
 ["internal/suite.go","internal/parallel_support/server_handler.go","internal/parallel_support/rpc_client.go","internal/parallel_support/http_client.go"],
 [("runSuiteNode SynchronizedBeforeSuite","internal/suite.go"),("BeforeSuiteState polling","internal/parallel_support/server_handler.go")],
 [("beforeSuiteState","outcome and data of process 1","ServerHandler.beforeSuiteState")],["suite callbacks on each process"])
p("C10","Suite teardown runs on every process, and process 1 finishes last",
 "AfterSuite and the all-process function of SynchronizedAfterSuite run exactly once on each process after its last spec, whether or not specs or suite setup failed; the process-1 function of SynchronizedAfterSuite, and process 1's suite-level cleanups, run exactly once and only after every other process has ended. A process that died counts as ended: teardown on process 1 still runs. Failure of the first function does not prevent the second.",
 ["schedules","programs","fault_sequences","crash_points"],"all process counts, teardown durations, failures, slow processes and networks and deaths of other processes at any point",
 "that process 1 really waits for all others, and does not wait forever for dead ones, depends on relative timing the tests do not control",
 ["internal/suite.go","internal/parallel_support/server_handler.go","ginkgo/internal/run.go"],
 [("runAfterSuiteCleanup","internal/suite.go"),("HaveNonprimaryProcsFinished","internal/parallel_support/server_handler.go"),("alive registration","ginkgo/internal/run.go runParallel")],
 [("alives","liveness callbacks per process","ServerHandler.alives")],["suite teardown callbacks","process exit times"])
p("C11","Serial specs never overlap anything",
 "Specs marked Serial (directly or through a container) run only on process 1 and only after all other processes have ended, so that no other node of the suite runs at the same time; each still runs exactly once. Without parallelism they run like other specs.",
 ["schedules","programs","configurations","fault_sequences"],"all mixes of Serial and parallel specs, durations, process counts, slow processes and networks and deaths of other processes",
 "an overlap only shows when a slow process is still busy at the moment process 1 runs out of parallel work",
 ["internal/suite.go","internal/ordering.go","internal/parallel_support/server_handler.go"],
 [("serial groups","internal/ordering.go OrderSpecs"),("wait before serial groups","internal/suite.go runSpecs")],obs=["spec windows across processes"])
p("C12","Suite report hooks run once and see the complete suite",
 "ReportBeforeSuite nodes run once, on process 1, and no suite setup or spec starts on any process before they are done. ReportAfterSuite nodes run once, on process 1, after every other process has ended, and receive one report containing every spec and suite node of every process exactly once with its final state and the final suite verdict. If another process died and its results are missing, that is reported as a failure instead of a silently incomplete report, and nothing hangs.",
 ["schedules","programs","fault_sequences","crash_points"],"all trees, process counts, schedules, slow networks, failures in reporting nodes, interrupts and process deaths",
 "completeness of the aggregate depends on the order in which processes finish, report and exit",
 ["internal/suite.go","internal/parallel_support/server_handler.go","types/types.go"],
 [("runReportSuiteNodesIfNeedBe","internal/suite.go"),("AggregatedNonprimaryProcsReport","internal/parallel_support/server_handler.go")],
 [("aggregatedReport","merged reports of finished processes","ServerHandler.aggregatedReport")],["report received by ReportAfterSuite callback"])
p("C13","Fail-fast and AbortSuite stop every process promptly",
 "With --fail-fast, or after AbortSuite, once a failing spec has been reported no process starts another spec after it learns of it, and all learn of it within a bounded time; specs running elsewhere are interrupted, cleanups and suite teardown still run, and each unstarted spec is reported skipped exactly once. The suite fails. Without --fail-fast an ordinary failure stops nothing outside its own Ordered container.",
 ["schedules","programs","configurations"],"all positions of the failing or aborting node, process counts, running states of other processes, network delays, and simultaneous failures on several processes",
 "propagation runs over polling between processes; what other processes are doing at that moment decides the path taken",
 ["internal/suite.go","internal/interrupt_handler/interrupt_handler.go","internal/parallel_support/server_handler.go","internal/group.go"],
 [("PostAbort","internal/suite.go processCurrentSpecReport"),("abort polling","internal/interrupt_handler/interrupt_handler.go"),("skipAll","internal/suite.go")],
 [("shouldAbort","abort requested","ServerHandler.shouldAbort")],["spec starts after failure","spec states"])
p("C14","The death of any test process is detected, reported and survived",
 "If a test process exits, crashes or is killed at any moment, the ginkgo command still ends within bounded time, exits non-zero, says so, and leaves no test process running; the surviving processes complete the specs they hold and the remaining ones, and no spec runs twice.",
 ["crash_points","fault_sequences","schedules","configurations"],"every crash instant (startup, suite setup, specs, barriers, teardown, reporting), every process, kill signals, panics in goroutines and os.Exit, over both protocols and any process count",
 "the tests crash a process at one place; each synchronisation point needs its own detection and they interact",
 ["ginkgo/internal/run.go","internal/parallel_support/server_handler.go","internal/suite.go"],
 [("process wait and timeout on results","ginkgo/internal/run.go runParallel"),("liveness callbacks","internal/parallel_support/server_handler.go procIsAlive")],obs=["CLI exit status and time","surviving processes' events"])
p("C15","Captured output is complete, attributed to its spec and ordered",
 "Everything a spec writes to GinkgoWriter while it runs appears in that spec's report, and in no other's, byte for byte and in order; in a parallel run the same holds for stdout and stderr unless interception is paused or off. Interception never blocks the run: a child or goroutine that keeps the streams open delays the run at most a bounded time, and after the run the original streams work again.",
 ["schedules","programs","histories","fault_sequences"],"all write sizes, interleavings of writers, pauses and resumes, retries, background writers, interceptor modes, and slow readers",
 "loss, mixing or blocking depends on pipe fill levels and the interleaving of copier, writer and spec switch",
 ["internal/output_interceptor.go","internal/output_interceptor_unix.go","internal/writer.go","internal/group.go"],
 [("genericOutputInterceptor","internal/output_interceptor.go"),("Writer","internal/writer.go")],
 [("pipe","where fds 1 and 2 point","genericOutputInterceptor.pipe")],["CapturedGinkgoWriterOutput, CapturedStdOutErr in report"])
p("C16","Progress reports are emitted on request and never disturb the run",
 "A progress signal, or a node running longer than its poll-progress-after setting, yields a progress report naming the running node on the console and in the spec's report, repeated at the poll interval; attached progress reporters that hang or panic neither block nor fail the run. Requesting progress reports at any moment and rate never changes spec outcomes, captured output, or termination.",
 ["schedules","fault_sequences","programs","histories"],"all instants and rates of SIGUSR1, poll settings, node durations, hanging or panicking attached reporters, on any process and during any phase",
 "a report takes locks shared with the running spec at arbitrary instants; deadlock or disturbance needs an unlucky instant",
 ["internal/suite.go","internal/progress_report.go","internal/progress_reporter_manager.go","internal/spec_context.go"],
 [("generateProgressReport under selectiveLock","internal/suite.go"),("QueryProgressReporters","internal/progress_reporter_manager.go"),("poll timer","internal/suite.go runNode")],obs=["ProgressReports in report","console"])
p("C17","Everything a spec records ends up in its own report, in order",
 "Report entries, By steps, node start/end events, retries and failures recorded by a spec, from its own goroutine or others it started and waited for, appear exactly once in that spec's entry of the final report, in the order they happened, with matching start and end events, and in no other spec's entry; transport between processes changes nothing. Times and durations in reports are consistent: no negative durations, start before end, spec windows on one process not overlapping.",
 ["schedules","programs","histories"],"all sequences of recordings from several goroutines, retries, processes, payload contents, wire protocols and wall-clock jumps excluded",
 "losses need concurrent recordings or cross-process aggregation to interleave badly, which tests do not provoke",
 ["internal/suite.go","internal/report_entry.go","types/types.go","reporting_dsl.go"],
 [("AddReportEntry/handleSpecEvent under lock","internal/suite.go"),("Report.Add","types/types.go")],
 [("timelineOrder","per-process order stamp","Suite.timelineOrder")],["JSON report"])
p("C18","Report files are complete, well-formed and agree with each other",
 "When the ginkgo command ends normally, each requested report (JSON, JUnit, TeamCity) exists at the requested place, is well-formed, and contains each suite that ran exactly once with every spec's final state, also after merging several suites, with separate reports, an output directory or parallel processes; the formats and the exit status agree on what failed. A failure to write a report is never silent.",
 ["configurations","programs","fault_sequences","schedules"],"all suite counts, states including compile failures and timeouts, report options, process counts, and disk errors while reports are written or merged",
 "tests cover some option combinations without disk faults, failures and odd texts together",
 ["ginkgo/internal/profiles_and_reports.go","reporters/json_report.go","reporters/junit_report.go","reporters/teamcity_report.go","core_dsl.go"],
 [("FinalizeProfilesAndReportsForSuites","ginkgo/internal/profiles_and_reports.go"),("registered ReportAfterSuite generators","reporting_dsl.go")],obs=["files left after the run","exit status"])
p("C19","The command compiles and runs every suite it was given, in order",
 "Given several packages the ginkgo command compiles each exactly once with at most the configured number of concurrent compilations, runs each compiled suite once and one at a time in the given (or seed-shuffled) order, stops at the first failure unless --keep-going, and its exit status is zero only if every suite it was asked to run compiled, ran and passed. --repeat=N runs all suites N+1 times unless one fails, and temporary test binaries are removed.",
 ["schedules","configurations","fault_sequences","programs"],"all suite counts, compile durations and failures, compiler limits, keep-going, repeat and until-it-fails settings, interrupts during compilation, and schedules",
 "compilations race with each other and with running suites; ordering and stop conditions hold only under every completion order",
 ["ginkgo/internal/compile.go","ginkgo/run/run_command.go","ginkgo/internal/run.go"],
 [("OrderedParallelCompiler","ginkgo/internal/compile.go"),("suite loop","ginkgo/run/run_command.go")],
 [("test suite states","per-suite state machine","internal.TestSuite.State")],["compile and process start events","exit status"])
p("C20","Outcomes do not depend on parallelism, schedule or transport",
 "For a suite whose specs are independent, the final state, number of attempts and failure messages of every spec and the verdict of the suite are the same in series and on any number of parallel processes, for either wire protocol, any network delay or segmentation, any slow or paused process and any schedule.",
 ["schedules","configurations","programs","fault_sequences"],"pairs of runs of the same suite differing in process count, protocol, seed, network behaviour and schedule",
 "this is a relation between runs over the whole schedule space; tests check single runs",
 ["internal/suite.go","internal/parallel_support/server_handler.go","internal/parallel_support/rpc_client.go","internal/parallel_support/http_client.go"],
 [("client/server reporting","internal/parallel_support"),("spec loop","internal/suite.go runSpecs")],obs=["reports of both runs"])
p("C21","Per-spec reporting nodes run for every spec with its true state",
 "ReportBeforeEach and ReportAfterEach nodes run exactly once per spec that is in their scope, also for pending, skipped, failed, timed-out and retried specs and after a first or second interrupt; ReportBeforeEach runs before any other node of the spec, outermost first, and ReportAfterEach after all of them and their cleanups, innermost first, seeing the spec's final state and attempts. A failing reporting node fails an otherwise passing spec and never hides a failure.",
 ["programs","histories","schedules","fault_sequences"],"all trees, spec outcomes, reporting-node failures, interrupts and schedules",
 "the cross product of outcome, scope, skip reason and interrupt instants is sampled thinly by tests",
 ["internal/suite.go","internal/group.go"],[("reportEach","internal/suite.go")],obs=["report callbacks"])
p("C22","The parallel console shows each result once and a correct summary",
 "In a parallel run the command's console reports each failed spec, and in verbose mode each spec, exactly once, never interleaved with another spec's block, after the single suite header and before the single final summary, whose ran, passed, failed, flaked, pending and skipped counts equal what happened; captured output of each spec is shown within its own block.",
 ["schedules","programs","configurations"],"all orders in which processes begin, report and end, including processes that report before others have started, network delays and both protocols",
 "messages from all processes race at the server; early reports are held back and replayed, an ordering that tests do not drive",
 ["internal/parallel_support/server_handler.go","reporters/default_reporter.go"],
 [("reportHoldingArea and begin/end counters","internal/parallel_support/server_handler.go"),("DefaultReporter emission lock","reporters/default_reporter.go")],
 [("reportHoldingArea","spec reports that arrived before all processes began","ServerHandler.reportHoldingArea")],["console output"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
