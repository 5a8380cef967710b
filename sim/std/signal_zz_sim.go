package signal

import (
	"os"
	"runtime"
)

const simNodes = 160

type simReg struct {
	c    chan<- os.Signal
	mask [numSig]bool
}

var (
	simRegs    [simNodes][]*simReg
	simIgnored [simNodes][numSig]bool
)

func simActive() bool { return os.SimStartProcess != nil && runtime.SimGetNode() != 0 }

func simNotify(c chan<- os.Signal, sigs []os.Signal) {
	n := runtime.SimGetNode()
	var r *simReg
	for _, x := range simRegs[n] {
		if x.c == c {
			r = x
		}
	}
	if r == nil {
		r = &simReg{c: c}
		simRegs[n] = append(simRegs[n], r)
	}
	if len(sigs) == 0 {
		for i := range r.mask {
			r.mask[i] = true
			simIgnored[n][i] = false
		}
	}
	for _, s := range sigs {
		if i := signum(s); i >= 0 {
			r.mask[i] = true
			simIgnored[n][i] = false
		}
	}
}

func simStop(c chan<- os.Signal) {
	n := runtime.SimGetNode()
	for i, x := range simRegs[n] {
		if x.c == c {
			simRegs[n] = append(append([]*simReg{}, simRegs[n][:i]...), simRegs[n][i+1:]...)
			return
		}
	}
}

func simReset(sigs []os.Signal, ignore bool) {
	n := runtime.SimGetNode()
	f := func(i int) {
		for _, x := range simRegs[n] {
			x.mask[i] = false
		}
		simIgnored[n][i] = ignore
	}
	if len(sigs) == 0 {
		for i := 0; i < numSig; i++ {
			f(i)
		}
	}
	for _, s := range sigs {
		if i := signum(s); i >= 0 {
			f(i)
		}
	}
}

// SimDeliver delivers a signal to a node.  handled is false if the default
// action applies.
func SimDeliver(node int, sig os.Signal) (handled bool) {
	i := signum(sig)
	if simIgnored[node][i] {
		return true
	}
	for _, x := range simRegs[node] {
		if x.mask[i] {
			handled = true
			select {
			case x.c <- sig:
			default:
			}
		}
	}
	return handled
}

// SimHandles tells whether a node handles a signal.
func SimHandles(node int, sig os.Signal) bool {
	i := signum(sig)
	for _, x := range simRegs[node] {
		if x.mask[i] {
			return true
		}
	}
	return simIgnored[node][i]
}
