package simos

import (
	"context"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"time"
)

// NetConfig is the behaviour of the simulated loopback network.
type NetConfig struct {
	LatMin, LatMax int64 // ns one-way delivery delay
	StallProb      int   // per mille of writes whose delivery is delayed by up to StallMax
	StallMax       int64
	SegMax         int // maximum bytes returned by one Read, 0 = unlimited
	DialMax        int64
}

type NetStats struct{ Conns, Segments, Bytes, Stalls, Resets, Refused, ShortReads uint64 }

var (
	netCfg    NetConfig
	netRng    uint64
	Net       NetStats
	listeners = map[int]*listener{}
	nextPort  = 40000
	conns     []*conn
)

func InitNet(cfg NetConfig, seed uint64) {
	netCfg, netRng = cfg, seed^0xabcdef
	net.SimListen = simListen
	net.SimDial = simDial
}

func rnd(n int64) int64 {
	if n <= 0 {
		return 0
	}
	netRng += 0x9e3779b97f4a7c15
	x := netRng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	x ^= x >> 31
	return int64(x>>1) % n
}

type waitq struct{ chs []chan struct{} }

func (w *waitq) wait() {
	ch := make(chan struct{})
	w.chs = append(w.chs, ch)
	<-ch
}
func (w *waitq) wake() {
	for _, ch := range w.chs {
		close(ch)
	}
	w.chs = nil
}

type listener struct {
	node   int
	port   int
	queue  []*conn
	closed bool
	q      waitq
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func simListen(network, address string) (net.Listener, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("listen", err)
	}
	port, _ := strconv.Atoi(ps)
	if port == 0 {
		nextPort++
		port = nextPort
	}
	if listeners[port] != nil {
		return nil, opErr("listen", os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &listener{node: runtime.SimGetNode(), port: port}
	listeners[port] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.q.wait()
	}
}

func (l *listener) Close() error {
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	delete(listeners, l.port)
	for _, c := range l.queue {
		c.die()
	}
	l.queue = nil
	l.q.wake()
	return nil
}

func (l *listener) Addr() net.Addr { return addr(l.port) }

func addr(port int) net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

type seg struct {
	b   []byte
	eof bool
	at  int64
}

type conn struct {
	node           int
	local, remote  int
	peer           *conn
	rbuf           []byte
	inflight       int // bytes written by this side, not yet delivered
	lastAt         int64
	out            []seg
	reof           bool
	rst            bool
	closed         bool
	wclosed        bool
	rdl, wdl       time.Time
	rq, wq         waitq
	rtimer, wtimer *time.Timer
}

func simDial(ctx context.Context, network, address string) (net.Conn, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opErr("dial", err)
	}
	port, _ := strconv.Atoi(ps)
	if d := rnd(netCfg.DialMax + 1); d > 0 {
		time.Sleep(time.Duration(d))
	}
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	l := listeners[port]
	if l == nil {
		Net.Refused++
		return nil, opErr("dial", os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	nextPort++
	a := &conn{node: runtime.SimGetNode(), local: nextPort, remote: port}
	b := &conn{node: l.node, local: port, remote: nextPort}
	a.peer, b.peer = b, a
	conns = append(conns, a, b)
	Net.Conns++
	l.queue = append(l.queue, b)
	l.q.wake()
	return a, nil
}

func (c *conn) Read(p []byte) (int, error) {
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.rbuf) > 0 {
			n := len(p)
			if netCfg.SegMax > 0 {
				if m := 1 + int(rnd(int64(netCfg.SegMax))); m < n {
					n = m
					Net.ShortReads++
				}
			}
			n = copy(p[:n], c.rbuf)
			c.rbuf = c.rbuf[n:]
			c.peer.wq.wake()
			return n, nil
		}
		if c.rst {
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.reof {
			return 0, io.EOF
		}
		c.rq.wait()
	}
}

const sockBuf = 128 << 10

func (c *conn) Write(p []byte) (n int, err error) {
	for {
		if c.closed || c.wclosed {
			return n, opErr("write", net.ErrClosed)
		}
		if c.rst || c.peer.closed {
			return n, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return n, nil
		}
		room := sockBuf - c.inflight - len(c.peer.rbuf)
		if room <= 0 {
			c.wq.wait()
			continue
		}
		m := len(p)
		if m > room {
			m = room
		}
		c.send(seg{b: append([]byte(nil), p[:m]...)})
		p = p[m:]
		n += m
	}
}

func (c *conn) send(s seg) {
	now := runtime.SimNow()
	at := now + netCfg.LatMin + rnd(netCfg.LatMax-netCfg.LatMin+1)
	if netCfg.StallProb > 0 && rnd(1000) < int64(netCfg.StallProb) {
		at += rnd(netCfg.StallMax)
		Net.Stalls++
	}
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	Net.Segments++
	Net.Bytes += uint64(len(s.b))
	c.inflight += len(s.b)
	s.at = at
	c.out = append(c.out, s)
	if at <= now {
		c.deliver()
		return
	}
	InNode0(func() { time.AfterFunc(time.Duration(at-now), c.deliver) })
}

// deliver moves what has arrived to the peer, in order.
func (c *conn) deliver() {
	for len(c.out) > 0 && c.out[0].at <= runtime.SimNow() {
		s := c.out[0]
		c.out = c.out[1:]
		c.inflight -= len(s.b)
		q := c.peer
		if !q.closed && !q.rst {
			q.rbuf = append(q.rbuf, s.b...)
			if s.eof {
				q.reof = true
			}
			q.rq.wake()
		}
	}
}

func (c *conn) Close() error {
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closeNow()
	return nil
}

func (c *conn) closeNow() {
	if !c.wclosed {
		c.send(seg{eof: true})
	}
	c.closed, c.wclosed = true, true
	c.rq.wake()
	c.wq.wake()
	c.peer.wq.wake()
	for _, t := range []*time.Timer{c.rtimer, c.wtimer} {
		if t != nil {
			t.Stop()
		}
	}
}

func (c *conn) CloseWrite() error {
	if !c.wclosed {
		c.send(seg{eof: true})
		c.wclosed = true
	}
	return nil
}

// die: the owning process is gone
func (c *conn) die() {
	if c.closed {
		return
	}
	if len(c.rbuf) > 0 {
		c.peer.rst = true
		Net.Resets++
		c.peer.rq.wake()
		c.peer.wq.wake()
	}
	c.closeNow()
}

func netDie(node int) {
	for _, c := range conns {
		if c.node == node {
			c.die()
		}
	}
	var ports []int
	for p, l := range listeners {
		if l.node == node {
			ports = append(ports, p)
		}
	}
	sort.Ints(ports)
	for _, p := range ports {
		listeners[p].Close()
	}
}

func (c *conn) LocalAddr() net.Addr  { return addr(c.local) }
func (c *conn) RemoteAddr() net.Addr { return addr(c.remote) }

func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = t
	if c.rtimer != nil {
		c.rtimer.Stop()
		c.rtimer = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.rtimer = time.AfterFunc(d, c.rq.wake)
		}
	}
	c.rq.wake()
	return nil
}

func (c *conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = t
	if c.wtimer != nil {
		c.wtimer.Stop()
		c.wtimer = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.wtimer = time.AfterFunc(d, c.wq.wake)
		}
	}
	c.wq.wake()
	return nil
}
