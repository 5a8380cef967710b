// Deterministic-simulation scheduler, added to package runtime by a build
// overlay (never installed in GOROOT).
//
// In a binary built with this overlay there is one P, no sysmon, no
// preemption, no garbage collection, a simulated clock and a deterministic
// random stream.  Every choice of the next goroutine, every tick of the clock
// and every preemption at a SimYield point is a pure function of the seed and
// of the index of the choice.

package runtime

import (
	"internal/abi"
	"internal/runtime/sys"
	rtsys "internal/runtime/syscall"
	"unsafe"
)

const (
	simMaxNodes = 160
	simMaxRun   = 16384
	simMaxSwap  = 16
	simWallBase = int64(1900000000) * 1e9 // 2030-03-17
)

// SimConfig is the schedule part of a simulated run.
type SimConfig struct {
	Seed       uint64
	Policy     int    // 0 fifo, 1 uniform, 2 sticky, 3 priorities (PCT like), 4 lifo
	Preempt    uint32 // probability /65536 of switching at a SimYield
	TickMax    int64  // ns, clock advance per pick is uniform in [1,TickMax]
	YieldTick  int64  // ns per SimYield
	StallProb  uint32 // probability /65536 per pick that the clock runs ahead
	StallMax   int64  // ns, maximum of such a jump
	PauseSites uint32 // one in so many statements is a place where goroutines get descheduled for a while
	PauseMax   int64  // ns, maximum of such a pause
	PauseIn    uint32 // only statements of this part of the code (see simPauseScopes), 0: of all
	WinFrom    uint64 // random decisions only for picks in [WinFrom,WinTo)
	WinTo      uint64
	MaxSteps   uint64
	Horizon    int64 // ns of simulated time
}

const (
	SimRunning = iota
	SimFinished
	SimDeadlock
	SimHorizon
	SimSteps
)

var sim struct {
	on      bool
	cfg     SimConfig
	now     int64
	status  int
	mainG   guintptr
	reapG   guintptr
	deadQ   [simMaxNodes]int32
	deadN   int
	status_ [simMaxNodes]int32
	dead    [simMaxNodes]bool
	frozen  [simMaxNodes]int64
	wallOff [simMaxNodes]int64
	weight  [simMaxNodes]uint8

	picks, yields, switches, preempts, stalls, frozenPicks, idles uint64
	hash                                                          uint64
	maxRun                                                        int
	lastG                                                         guintptr

	run  [simMaxRun]guintptr
	runN int

	cur int32

	pausePC  [8192]uintptr // the statements met, hashed
	pauseCnt [8192]uint8   // pauses left at each
	pauseN   int
	pauses   uint64

	swapPtr  [simMaxSwap]*[1]uintptr
	swapN    int
	swapSave [simMaxNodes][simMaxSwap]uintptr
	cwd      [simMaxNodes]*[256]byte
	cwdCur   int32
}

var simClock int64 = 1e9 // before SimStart

func simNanotime() int64 { return simClock }

//go:nosplit
func simNodeOfG() int32 {
	gp := getg()
	if gp.m.curg != nil && gp != gp.m.curg {
		return gp.simNode
	}
	return gp.simNode
}

func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func simRand(stream, idx uint64) uint64 {
	return simMix(simMix(sim.cfg.Seed^stream*0xd1342543de82ef95) + idx*0x9e3779b97f4a7c15)
}

func simInWindow() bool {
	return sim.picks >= sim.cfg.WinFrom && sim.picks < sim.cfg.WinTo
}

// SimStart switches the process to simulated scheduling.  Called once, from main.
func SimStart(cfg SimConfig) {
	sim.cfg = cfg
	for i := range sim.weight {
		sim.weight[i] = 255
	}
	mp := getg().m
	var seed [4]uint64
	for i := range seed {
		seed[i] = simMix(cfg.Seed + uint64(i)*77 + 5)
	}
	mp.chacha8.Init64(seed)
	mp.cheaprand = simMix(cfg.Seed + 991)
	overrideWrite = simWrite
	rtsys.SimOn = 1
	sim.on = true
}

// simWrite is runtime.write while simulating: print output and panic messages
// of a node go to the node's own stderr.
func simWrite(fd uintptr, p unsafe.Pointer, n int32) int32 {
	rfd := rtsys.SimFD(uintptr(fd))
	if rfd == ^uintptr(0) {
		return n
	}
	return write1(rfd, p, n)
}

func SimNow() int64 { return simClock - 1e9 }

func SimSetNode(n int)      { getg().simNode = int32(n); simSwitchNode(int32(n)) }
func SimGetNode() int       { return int(getg().simNode) }
func SimGoid() uint64       { return getg().goid }
func SimFreeze(n int, d int64) {
	sim.frozen[n] = simClock + d
}
func SimSetWeight(n int, w uint8)    { sim.weight[n] = w }
func SimSetWallOffset(n int, d int64) { sim.wallOff[n] += d }
func SimAdvance(d int64)             { simClock += d }

type SimStatsT struct {
	Picks, Yields, Switches, Preempts, Stalls, Pauses, FrozenPicks, Idles, Hash uint64
	MaxRun                                                              int
	Now                                                                 int64
}

func SimStats() SimStatsT {
	return SimStatsT{sim.picks, sim.yields, sim.switches, sim.preempts, sim.stalls, sim.pauses, sim.frozenPicks, sim.idles, sim.hash, sim.maxRun, SimNow()}
}

// SimRegisterSwap registers a pointer-sized global to be kept per node.
func SimRegisterSwap(p unsafe.Pointer) int {
	i := sim.swapN
	if i >= simMaxSwap {
		panic("too many swaps")
	}
	sim.swapPtr[i] = (*[1]uintptr)(p)
	sim.swapN++
	v := sim.swapPtr[i][0]
	for n := range sim.swapSave {
		sim.swapSave[n][i] = v
	}
	return i
}

// SimSetSwap sets the value node n sees for swapped variable i.
func SimSetSwap(n, i int, v uintptr) {
	if int32(n) == sim.cur {
		sim.swapPtr[i][0] = v
	}
	sim.swapSave[n][i] = v
}

func SimSetCwd(n int, dir string) {
	b := new([256]byte)
	if len(dir) > 254 {
		panic("cwd too long")
	}
	copy(b[:], dir)
	sim.cwd[n] = b
}

func simSwitchNode(n int32) {
	if n == sim.cur {
		return
	}
	old := sim.cur
	for i := 0; i < sim.swapN; i++ {
		sim.swapSave[old][i] = sim.swapPtr[i][0]
		sim.swapPtr[i][0] = sim.swapSave[n][i]
	}
	if c := sim.cwd[n]; c != nil && sim.cwdCur != n {
		if sim.cwd[sim.cwdCur] == nil || *sim.cwd[sim.cwdCur] != *c {
			rtsys.Syscall6(80 /* chdir */, uintptr(unsafe.Pointer(c)), 0, 0, 0, 0, 0)
		}
		sim.cwdCur = n
	}
	sim.cur = n
	rtsys.SimCur = uint32(n)
	if n != 0 && old != 0 {
		sim.switches++
	}
}

// simPauseScopes are the parts of the code a run can confine its pauses to, by
// the names of the functions.
var simPauseScopes = [...][]string{
	1: {"internal/parallel_support."},
	2: {"ginkgo/v2/internal.(*Suite)", "ginkgo/v2/internal.(*group)"},
	3: {"internal/interrupt_handler.", "ginkgo/v2/internal.(*Failer)", "ginkgo/v2/internal.(*specContext)", "ProgressReport", "ginkgo/v2/internal.(*Suite).runNode"},
	4: {"ginkgo/v2/reporters.", "ginkgo/v2/internal.(*genericOutputInterceptor)", "ginkgo/v2/internal.(*Writer)", "ginkgo/v2/internal.(*pipe"},
	5: {"ginkgo/v2/ginkgo/", "ginkgo/v2."},
}

func simPauseSite(pc uintptr) bool {
	f := findfunc(pc)
	if !f.valid() {
		return false
	}
	name := funcname(f)
	if sc := sim.cfg.PauseIn; sc != 0 {
		in := false
		for _, p := range simPauseScopes[sc%uint32(len(simPauseScopes))] {
			for i := 0; i+len(p) <= len(name) && !in; i++ {
				in = name[i:i+len(p)] == p
			}
		}
		if !in {
			return false
		}
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return simRand(6, h+uint64(pc-f.entry()))%uint64(sim.cfg.PauseSites) == 0
}

// simPause: the operating system takes the processor away from the calling
// thread.  A run draws a few statements at which this happens, a few times each.
func simPause(pc uintptr) {
	i := (pc * 0x9e3779b97f4a7c15 >> 40) % uintptr(len(sim.pausePC))
	for sim.pausePC[i] != pc {
		if sim.pausePC[i] == 0 {
			if sim.pauseN > len(sim.pausePC)*3/4 {
				return
			}
			sim.pauseN++
			sim.pausePC[i] = pc
			if simPauseSite(pc) {
				sim.pauseCnt[i] = 6
			}
			break
		}
		i = (i + 1) % uintptr(len(sim.pausePC))
	}
	if sim.pauseCnt[i] == 0 {
		return
	}
	sim.pauseCnt[i]--
	r := simRand(7, sim.yields)
	if r&1 == 0 {
		return
	}
	sim.pauses++
	timeSleep(1 + int64((r>>8)%uint64(sim.cfg.PauseMax)))
}

// SimYield is a possible preemption point; the instrumenter puts one before
// every statement of the code under test.
//
//go:noinline
func SimYield() {
	if !sim.on {
		return
	}
	pc := sys.GetCallerPC()
	gp := getg()
	if gp.simNode == 0 || gp.m.locks != 0 {
		return
	}
	if sim.dead[gp.simNode] {
		simPark()
	}
	sim.yields++
	simClock += sim.cfg.YieldTick
	if sim.yields&0x3fff == 0 && sim.picks+sim.yields > sim.cfg.MaxSteps {
		mcall(gosched_m)
		return
	}
	if sim.cfg.Preempt != 0 && simInWindow() && uint32(simRand(1, sim.yields)&0xffff) < sim.cfg.Preempt {
		sim.preempts++
		mcall(gosched_m)
	}
	if sim.cfg.PauseSites != 0 && simInWindow() {
		simPause(pc)
	}
}

// SimSwitch gives up the processor unconditionally.
func SimSwitch() {
	if sim.on {
		mcall(gosched_m)
	}
}

func simPark() {
	for {
		gopark(nil, nil, waitReasonForceGCIdle, traceBlockGeneric, 1)
	}
}

// SimPark parks the calling goroutine for ever.
func SimPark() { simPark() }

// simPurge forgets the runnable goroutines of a dead node.
func simPurge(n int32) {
	k := 0
	for i := 0; i < sim.runN; i++ {
		if sim.run[i].ptr().simNode != n {
			sim.run[k] = sim.run[i]
			k++
		}
	}
	sim.runN = k
}

// SimKill marks node n dead with a wait status; its goroutines never run again.
func SimKill(n int, status int) {
	if n <= 0 || sim.dead[n] {
		if n > 0 && getg().simNode == int32(n) {
			simPark()
		}
		return
	}
	sim.dead[n] = true
	simPurge(int32(n))
	sim.status_[n] = int32(status)
	sim.deadQ[sim.deadN] = int32(n)
	sim.deadN++
	if rg := sim.reapG.ptr(); rg != nil {
		sim.reapG = 0
		goready(rg, 1)
	}
	if getg().simNode == int32(n) {
		simPark()
	}
}

func SimDead(n int) bool { return sim.dead[n] }

// SimReap blocks until a node has died.
func SimReap() (node int, status int) {
	for sim.deadN == 0 {
		sim.reapG.set(getg())
		gopark(nil, nil, waitReasonForceGCIdle, traceBlockGeneric, 1)
	}
	n := sim.deadQ[0]
	copy(sim.deadQ[:], sim.deadQ[1:sim.deadN])
	sim.deadN--
	return int(n), int(sim.status_[n])
}

// SimWait parks main until the run is over and returns the status.
func SimWait() int {
	for sim.status == SimRunning {
		sim.mainG.set(getg())
		gopark(nil, nil, waitReasonForceGCIdle, traceBlockGeneric, 1)
	}
	return sim.status
}

// SimFinish ends the run.
func SimFinish() {
	simEnd(SimFinished, true)
}

func simEnd(st int, onUser bool) {
	if sim.status != SimRunning {
		return
	}
	sim.status = st
	if mg := sim.mainG.ptr(); mg != nil {
		sim.mainG = 0
		if onUser {
			goready(mg, 1)
		} else {
			ready(mg, 1, true)
		}
	}
}

// simPick chooses the next goroutine.  It runs on g0 in findRunnable.
func simPick(pp *p) *g {
	for {
		if sim.status == SimRunning {
			pp.timers.check(simClock)
		}
		if sim.picks&15 == 0 && netpollinited() && netpollAnyWaiters() {
			simNetpoll()
		}
		simGather(pp)
		if sim.runN == 0 && netpollinited() && netpollAnyWaiters() {
			simNetpoll()
			simGather(pp)
		}
		if sim.runN == 0 {
			if sim.status != SimRunning {
				throw("sim: nothing to run after the end")
			}
			sim.idles++
			next := pp.timers.wakeTime()
			if next == 0 {
				simEnd(SimDeadlock, false)
				continue
			}
			if next-1e9 > sim.cfg.Horizon {
				simEnd(SimHorizon, false)
				continue
			}
			if next > simClock {
				simClock = next
			}
			continue
		}
		if sim.runN > sim.maxRun {
			sim.maxRun = sim.runN
		}
		// Infrastructure (node 0) runs at once, in FIFO order.
		pos := -1
		for i := 0; i < sim.runN; i++ {
			if sim.run[i].ptr().simNode == 0 {
				pos = i
				break
			}
		}
		if pos < 0 {
			if sim.status != SimRunning {
				throw("sim: only user goroutines after the end")
			}
			if sim.picks+sim.yields > sim.cfg.MaxSteps {
				simEnd(SimSteps, false)
				continue
			}
			if simClock-1e9 > sim.cfg.Horizon {
				simEnd(SimHorizon, false)
				continue
			}
			pos = simChoose(pp)
			if pos < 0 {
				continue // all frozen: clock was advanced
			}
			gp := sim.run[pos].ptr()
			sim.picks++
			sim.hash = simMix(sim.hash ^ gp.goid<<8 ^ uint64(gp.simNode))
			if simInWindow() {
				if sim.cfg.TickMax > 0 {
					simClock += 1 + int64(simRand(2, sim.picks)%uint64(sim.cfg.TickMax))
				}
				if sim.cfg.StallProb != 0 {
					r := simRand(3, sim.picks)
					if uint32(r&0xffff) < sim.cfg.StallProb {
						simClock += int64((r >> 16) % uint64(sim.cfg.StallMax))
						sim.stalls++
					}
				}
			} else {
				simClock += 1000
			}
		}
		gp := sim.run[pos].ptr()
		copy(sim.run[pos:], sim.run[pos+1:sim.runN])
		sim.runN--
		sim.lastG.set(gp)
		simSwitchNode(gp.simNode)
		return gp
	}
}

func simChoose(pp *p) int {
	// eligible: not frozen
	n := 0
	var minFrozen int64
	for i := 0; i < sim.runN; i++ {
		f := sim.frozen[sim.run[i].ptr().simNode]
		if f > simClock {
			if minFrozen == 0 || f < minFrozen {
				minFrozen = f
			}
			continue
		}
		n++
	}
	if n == 0 {
		next := pp.timers.wakeTime()
		if next != 0 && next < minFrozen && next > simClock {
			simClock = next
		} else {
			simClock = minFrozen
		}
		sim.frozenPicks++
		return -1
	}
	nth := func(k int) int {
		for i := 0; i < sim.runN; i++ {
			if sim.frozen[sim.run[i].ptr().simNode] > simClock {
				continue
			}
			if k == 0 {
				return i
			}
			k--
		}
		throw("sim: nth")
		return 0
	}
	if n == 1 || !simInWindow() {
		return nth(0)
	}
	r := simRand(4, sim.picks)
	switch sim.cfg.Policy {
	case 0:
		return nth(0)
	case 1:
		for try := 0; try < 4; try++ {
			k := nth(int((r & 0xffff) % uint64(n)))
			w := sim.weight[sim.run[k].ptr().simNode]
			if uint8(r>>56) <= w || try == 3 {
				return k
			}
			r = simMix(r)
		}
	case 2: // stay on one node for a while
		if r&7 != 0 {
			for i := 0; i < sim.runN; i++ {
				if sim.run[i].ptr().simNode == sim.cur && sim.frozen[sim.cur] <= simClock {
					return i
				}
			}
		}
		return nth(int((r >> 8 & 0xffff) % uint64(n)))
	case 3:
		best := -1
		var bp uint32
		for i := 0; i < sim.runN; i++ {
			gp := sim.run[i].ptr()
			if sim.frozen[gp.simNode] > simClock {
				continue
			}
			if gp.simPrio == 0 {
				gp.simPrio = uint32(simRand(5, gp.goid))>>1 | 1
			}
			if best < 0 || gp.simPrio > bp {
				best, bp = i, gp.simPrio
			}
		}
		gp := sim.run[best].ptr()
		if r&31 == 0 {
			gp.simPrio = uint32(r>>8)&0xffff | 1
		} else if r&31 == 1 {
			gp.simPrio = uint32(r>>8)>>1 | 1
		}
		return best
	case 4:
		if r&3 != 0 {
			return nth(n - 1)
		}
		return nth(int((r >> 8 & 0xffff) % uint64(n)))
	}
	return nth(0)
}

func simNetpoll() {
	list, delta := netpoll(0)
	if !list.empty() {
		injectglist(&list)
	}
	netpollAdjustWaiters(delta)
}

func simGather(pp *p) {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			if sched.runqsize == 0 {
				return
			}
			lock(&sched.lock)
			gp = globrunqget(pp, 1)
			unlock(&sched.lock)
			if gp == nil {
				return
			}
		}
		if sim.dead[gp.simNode] {
			continue
		}
		if sim.status != SimRunning && gp.simNode != 0 {
			continue
		}
		if sim.runN >= simMaxRun {
			throw("sim: run queue overflow")
		}
		sim.run[sim.runN].set(gp)
		sim.runN++
	}
}

// simNodePanic ends a simulated process whose goroutine panicked.
func simNodePanic(msgs *_panic) {
	gp := getg()
	n := gp.simNode
	systemstack(func() {
		if msgs != nil {
			printpanics(msgs)
		}
		print("\ngoroutine ", gp.goid, " [running]:\nsim: process crashed\n")
	})
	// the panicking goroutine must not hold the P hostage
	SimKill(int(n), 2<<8)
	simPark()
}

//go:nosplit
func simFatal(s string) bool {
	gp := getg()
	if !sim.on || gp.simNode == 0 || gp == gp.m.g0 {
		return false
	}
	simFatalP, simFatalN = uintptr(unsafe.Pointer(unsafe.StringData(s))), len(s)
	mcall(simFatalM)
	return true
}

var (
	simFatalP uintptr
	simFatalN int
)

func simFatalM(gp *g) {
	print("fatal error: ", unsafe.String((*byte)(unsafe.Pointer(simFatalP)), simFatalN), "\n")
	n := gp.simNode
	if !sim.dead[n] {
		sim.dead[n] = true
		simPurge(n)
		sim.status_[n] = 2 << 8
		sim.deadQ[sim.deadN] = n
		sim.deadN++
		if rg := sim.reapG.ptr(); rg != nil {
			sim.reapG = 0
			ready(rg, 1, true)
		}
	}
	casgstatus(gp, _Grunning, _Gwaiting)
	dropg()
	schedule()
}

// SimFuncPC keeps abi imported.
func simFuncPC(f func()) uintptr { return abi.FuncPCABIInternal(f) }

// SimPoll reports whether a write of up to 4096 bytes to fd would not block.
func SimWritable(fd uintptr) bool {
	rfd := rtsys.SimFD(fd)
	if rfd == ^uintptr(0) {
		return true
	}
	var pfd struct {
		fd      int32
		events  int16
		revents int16
	}
	pfd.fd = int32(rfd)
	pfd.events = 4
	r, _, _ := rtsys.Syscall6(7 /* poll */, uintptr(unsafe.Pointer(&pfd)), 1, 0, 0, 0, 0)
	return int32(r) != 0
}

func SimSetStd(node, i int, fd int)  { rtsys.SimStd[node][i] = int32(fd) }
func SimGetStd(node, i int) int      { return int(rtsys.SimStd[node][i]) }
func SimCloseAll(node int) int       { return rtsys.SimCloseAll(node) }
func SimFDOwned(fd int, node int)    { rtsys.SimOwner[fd] = uint8(node) }
func SimSetFault(node int, trap uintptr, skip, count uint32, errno uintptr) {
	rtsys.SimFaultNode[node] = rtsys.SimFault{Trap: trap, Skip: skip, Count: count, Errno: errno}
}
func SimFaultHits() uint64 { return rtsys.SimFaultsHit }
