package syscall

import "unsafe"

//go:nosplit
func simPtr(p *uintptr) unsafe.Pointer { return unsafe.Pointer(p) }

// Per-simulated-process file descriptor view.  Real descriptors 0..2 of the
// host process are replaced by the descriptors of the running node.

const (
	simNodes = 256 // a power of two
	simFDs   = 4096
)

var (
	SimOn    uint32
	SimCur   uint32
	SimStd   [simNodes][3]int32 // real fd, or -1
	SimOwner [simFDs]uint8

	// disk-fault injection: error for the n-th matching call of a node
	SimFaultNode  [simNodes]SimFault
	SimFaultsHit  uint64
	SimDisk       [simFDs]uint8 // 1: opened for writing, 2: for reading
)

type SimFault struct {
	Trap  uintptr // syscall number, 0 = none
	Skip  uint32
	Count uint32
	Errno uintptr
	Hits  uint32
	Torn  uint32
}

//go:nosplit
func SimFD(fd uintptr) uintptr {
	if SimOn == 0 || SimCur == 0 || fd > 2 {
		return fd
	}
	r := SimStd[SimCur&(simNodes-1)][fd]
	if r < 0 {
		return ^uintptr(0)
	}
	return uintptr(r)
}

const (
	nrRead, nrWrite, nrOpen, nrClose, nrFstat, nrLseek = 0, 1, 2, 3, 5, 8
	nrIoctl, nrPread, nrPwrite, nrReadv, nrWritev      = 16, 17, 18, 19, 20
	nrDup, nrDup2, nrFcntl, nrFsync, nrFtruncate       = 32, 33, 72, 74, 77
	nrDup3, nrPipe2, nrOpenat, nrMemfd, nrPipe         = 292, 293, 257, 319, 22
	nrMkdirat, nrMkdir, nrRename, nrRenameat           = 258, 83, 82, 264
)

//go:nosplit
func SimSyscall6(num, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr) {
	if SimOn == 0 || SimCur == 0 {
		return Syscall6(num, a1, a2, a3, a4, a5, a6)
	}
	me := SimCur & (simNodes - 1)
	if f := &SimFaultNode[me]; f.Trap != 0 && f.Trap == num {
		hit := true
		switch num {
		case nrOpenat: // only creation
			hit = a3&0100 != 0
		case nrWrite, nrClose: // only files that were opened for writing
			hit = a1 < simFDs && SimDisk[a1] == 1
		case nrRead:
			hit = a1 < simFDs && SimDisk[a1] == 2
		}
		if hit {
			if f.Skip > 0 {
				f.Skip--
			} else if f.Count > 0 {
				SimFaultsHit++
				f.Hits++
				if num == nrWrite && f.Errno == 28 && f.Torn == 0 && a3 > 1 {
					f.Torn = 1 // a full disk takes a part
					return Syscall6(num, a1, a2, a3/2, a4, a5, a6)
				}
				f.Count--
				if num != nrClose {
					return ^uintptr(0), 0, f.Errno
				}
				SimDisk[a1], SimOwner[a1] = 0, 0
				Syscall6(num, a1, a2, a3, a4, a5, a6)
				return ^uintptr(0), 0, f.Errno
			}
		}
	}
	switch num {
	case nrRead, nrWrite, nrFstat, nrLseek, nrIoctl, nrPread, nrPwrite, nrReadv, nrWritev, nrFsync, nrFtruncate:
		if a1 <= 2 {
			a1 = SimFD(a1)
			if a1 == ^uintptr(0) {
				return ^uintptr(0), 0, 9
			}
		}
		return Syscall6(num, a1, a2, a3, a4, a5, a6)
	case nrClose:
		if a1 <= 2 {
			r := SimFD(a1)
			SimStd[me][a1] = -1
			if r == ^uintptr(0) {
				return ^uintptr(0), 0, 9
			}
			a1 = r
		}
		if a1 < simFDs {
			SimOwner[a1], SimDisk[a1] = 0, 0
		}
		return Syscall6(num, a1, a2, a3, a4, a5, a6)
	case nrDup, nrFcntl:
		if a1 <= 2 {
			a1 = SimFD(a1)
			if a1 == ^uintptr(0) {
				return ^uintptr(0), 0, 9
			}
		}
		r1, r2, errno = Syscall6(num, a1, a2, a3, a4, a5, a6)
		if errno == 0 && (num == nrDup || a2 == 0 || a2 == 1030) && r1 < simFDs {
			SimOwner[r1] = uint8(me)
		}
		return
	case nrDup2, nrDup3:
		if a1 <= 2 {
			a1 = SimFD(a1)
			if a1 == ^uintptr(0) {
				return ^uintptr(0), 0, 9
			}
		}
		if a2 <= 2 {
			r1, r2, errno = Syscall6(nrFcntl, a1, 1030, 64, 0, 0, 0)
			if errno != 0 {
				return
			}
			if r1 < simFDs {
				SimOwner[r1] = uint8(me)
			}
			old := SimStd[me][a2]
			SimStd[me][a2] = int32(r1)
			if old >= 0 {
				if uintptr(old) < simFDs {
					SimOwner[old] = 0
				}
				Syscall6(nrClose, uintptr(old), 0, 0, 0, 0, 0)
			}
			return a2, 0, 0
		}
		return Syscall6(num, a1, a2, a3, a4, a5, a6)
	case nrOpen, nrOpenat, nrMemfd:
		r1, r2, errno = Syscall6(num, a1, a2, a3, a4, a5, a6)
		if errno == 0 && r1 < simFDs {
			SimOwner[r1] = uint8(me)
			if num == nrOpenat && a3&3 != 0 {
				SimDisk[r1] = 1
			} else if num == nrOpenat {
				SimDisk[r1] = 2
			}
		}
		return
	case nrPipe2, nrPipe:
		r1, r2, errno = Syscall6(num, a1, a2, a3, a4, a5, a6)
		if errno == 0 {
			p := simPipe(a1)
			if p[0] < simFDs {
				SimOwner[p[0]] = uint8(me)
			}
			if p[1] < simFDs {
				SimOwner[p[1]] = uint8(me)
			}
		}
		return
	}
	return Syscall6(num, a1, a2, a3, a4, a5, a6)
}

//go:nosplit
func simPipe(a uintptr) *[2]uint32 {
	return *(**[2]uint32)(simPtr(&a))
}

// SimCloseAll closes every descriptor a node owns.
func SimCloseAll(node int) int {
	n := 0
	for fd := 3; fd < simFDs; fd++ {
		if SimOwner[fd] == uint8(node) {
			Syscall6(nrClose, uintptr(fd), 0, 0, 0, 0, 0)
			SimOwner[fd], SimDisk[fd] = 0, 0
			n++
		}
	}
	for i := 0; i < 3; i++ {
		SimStd[node][i] = -1
	}
	return n
}
