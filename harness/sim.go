package zzverif

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// ---- in-memory byte streams with fault injection

// simError is what the simulated network reports, in the shape of the errors of package net.
type simError struct {
	op  string
	err error
}

func (e *simError) Error() string   { return e.op + ": " + e.err.Error() }
func (e *simError) Unwrap() error   { return e.err }
func (e *simError) Timeout() bool   { return e.err == os.ErrDeadlineExceeded }
func (e *simError) Temporary() bool { return e.Timeout() }

var (
	errReset    error = errors.New("connection reset by peer")
	errInjected error = &simError{"io", errReset}
	errSimShut  error = &simError{"io", net.ErrClosed}
	errSimTime  error = &simError{"io", os.ErrDeadlineExceeded}
)

// half is one direction of a stream.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	eof    bool // writer closed
	broken bool // reader closed
	stall  bool // writes block
	window int  // if positive, writes block while so many octets have not been read
	after  int  // writes block from this one on (1-based); 0 never
	err    error
	dead   time.Time
	timed  bool
	wdead  time.Time
	wtimed bool
	log    [][]byte // write calls in order
	keep   bool
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// end is one end of a stream.
type end struct {
	name       string
	rd, wr     *half
	local, rem string
	mu         sync.Mutex
	closed     bool
	nread      int // successful reads so far
	nwrite     int
	failRead   int // fail at the n-th read (1-based); 0 never
	failWrite  int
	chunk      int                       // at most this many bytes per read when > 0
	split      func(avail, want int) int // how many bytes a read returns
	closes     int
	writeErr   error
	closeErr   error // what closing reports
	onWrite    func(b []byte)
}

type simAddr struct{ network, s string }

func (a simAddr) Network() string { return a.network }
func (a simAddr) String() string  { return a.s }

func newPipe() (*end, *end) {
	a, b := newHalf(), newHalf()
	return &end{name: "a", rd: a, wr: b, local: "a", rem: "b"}, &end{name: "b", rd: b, wr: a, local: "b", rem: "a"}
}

func (e *end) Read(p []byte) (int, error) {
	vYield()
	h := e.rd
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if e.isClosed() {
			return 0, errSimShut
		}
		if e.failRead > 0 && e.nread+1 >= e.failRead {
			return 0, errInjected
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			n := len(h.buf)
			if n > len(p) {
				n = len(p)
			}
			if e.chunk > 0 && n > e.chunk {
				n = e.chunk
			}
			if e.split != nil {
				n = e.split(n, len(p))
			}
			n = copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			e.nread++
			return n, nil
		}
		if h.err != nil {
			return 0, h.err
		}
		if h.eof {
			return 0, io.EOF
		}
		if h.timed && !time.Now().Before(h.dead) {
			return 0, errSimTime
		}
		h.cond.Wait()
	}
}

func (e *end) isClosed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.closed
}

func (e *end) Write(p []byte) (int, error) {
	vYield()
	h := e.wr
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if e.isClosed() {
			return 0, errSimShut
		}
		if e.failWrite > 0 && e.nwrite+1 >= e.failWrite {
			return 0, errInjected
		}
		if h.broken {
			return 0, errInjected
		}
		if h.wtimed && !time.Now().Before(h.wdead) {
			return 0, errSimTime
		}
		if h.stall || h.after > 0 && e.nwrite+1 >= h.after || h.window > 0 && len(h.buf) >= h.window {
			h.cond.Wait()
			continue
		}
		break
	}
	e.nwrite++
	h.buf = append(h.buf, p...)
	if h.keep {
		h.log = append(h.log, append([]byte(nil), p...))
	}
	h.cond.Broadcast()
	if e.onWrite != nil {
		e.onWrite(p)
	}
	return len(p), nil
}

func (e *end) Close() error {
	e.mu.Lock()
	if e.closed {
		e.closes++
		e.mu.Unlock()
		return errSimShut
	}
	e.closed = true
	e.closes++
	e.mu.Unlock()
	e.wr.mu.Lock()
	e.wr.eof = true
	e.wr.cond.Broadcast()
	e.wr.mu.Unlock()
	e.rd.mu.Lock()
	e.rd.broken = true
	e.rd.cond.Broadcast()
	e.rd.mu.Unlock()
	return e.closeErr
}

// stallWrites makes the other end's reader slow: writes by e block until released.
func (e *end) stallWrites(on bool) {
	e.wr.mu.Lock()
	e.wr.stall = on
	e.wr.after = 0
	e.wr.cond.Broadcast()
	e.wr.mu.Unlock()
}

// breakNow makes the stream fail for both ends.
func (e *end) breakNow() {
	for _, h := range []*half{e.rd, e.wr} {
		h.mu.Lock()
		h.err = errInjected
		h.broken = true
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

func (e *end) LocalAddr() net.Addr  { return simAddr{"sim", e.local} }
func (e *end) RemoteAddr() net.Addr { return simAddr{"sim", e.rem} }
func (e *end) SetDeadline(t time.Time) error {
	e.SetReadDeadline(t)
	return e.SetWriteDeadline(t)
}
func (e *end) SetReadDeadline(t time.Time) error {
	h := e.rd
	h.mu.Lock()
	h.dead = t
	h.timed = !t.IsZero()
	h.cond.Broadcast()
	h.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	return nil
}
func (e *end) SetWriteDeadline(t time.Time) error {
	h := e.wr
	h.mu.Lock()
	h.wdead = t
	h.wtimed = !t.IsZero()
	h.cond.Broadcast()
	h.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	return nil
}

// unread returns the bytes that have arrived at e and not been read.
func (e *end) unread() []byte {
	e.rd.mu.Lock()
	defer e.rd.mu.Unlock()
	return append([]byte(nil), e.rd.buf...)
}

// ---- in-memory network

type simListener struct {
	addr   string
	net    string
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*end
	closed bool
	accErr error
	clsErr error // what closing reports
}

func (l *simListener) Accept() (net.Conn, error) {
	vYield()
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, errSimShut
		}
		if l.accErr != nil {
			err := l.accErr
			l.accErr = nil
			return nil, err
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *simListener) Close() error {
	simMu.Lock()
	if simListeners[l.addr] == l {
		delete(simListeners, l.addr)
	}
	simMu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return errSimShut
	}
	l.closed = true
	l.cond.Broadcast()
	if l.net == "unix" || l.net == "ipc" {
		simRemoved = append(simRemoved, l.addr) // as package net does
	}
	return l.clsErr
}

func (l *simListener) Addr() net.Addr { return simAddr{l.net, l.addr} }

var (
	simMu        sync.Mutex
	simListeners = map[string]*simListener{}
	simDialed    []*end // client ends in order of dialling
	simAccepted  []*end // server ends in the same order
	simAttempts  int
	simDialHook  func(addr string) error // may fail an attempt
	simOnConn    func(cli, srv *end)
	simRemoved   []string // files that would have been removed
)

func simListen(network, addr string) (net.Listener, error) {
	simMu.Lock()
	defer simMu.Unlock()
	if simListeners[addr] != nil {
		return nil, errors.New("address in use")
	}
	l := &simListener{addr: addr, net: network}
	l.cond = sync.NewCond(&l.mu)
	simListeners[addr] = l
	return l, nil
}

var errRefused = errors.New("connection refused")

func simDial(network, addr string) (net.Conn, error) {
	vYield()
	simMu.Lock()
	simAttempts++
	hook := simDialHook
	l := simListeners[addr]
	simMu.Unlock()
	if hook != nil {
		if err := hook(addr); err != nil {
			return nil, err
		}
	}
	if l == nil {
		return nil, errRefused
	}
	c, s := newPipe()
	c.local, c.rem = "dial:"+addr, addr
	s.local, s.rem = addr, "dial:"+addr
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, errRefused
	}
	simMu.Lock()
	simDialed = append(simDialed, c)
	simAccepted = append(simAccepted, s)
	oc := simOnConn
	simMu.Unlock()
	if oc != nil {
		oc(c, s)
	}
	l.queue = append(l.queue, s)
	l.cond.Signal()
	return c, nil
}
