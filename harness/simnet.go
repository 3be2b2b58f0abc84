package harness

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A simulated network for bubbles: connections whose reads are cut and delayed by a schedule drawn from the case.
// Blocking is always on condition variables or channels, so that a quiescent case is recognised.

// netPlan is the part of a case that decides how a connection behaves.
type netPlan struct {
	Seed  uint64 `json:"s"`           // schedule of read sizes and yields
	Chunk int    `json:"c,omitempty"` // largest read; 0 any size
	Cap   int    `json:"b,omitempty"` // bytes in flight before writes block; 0 unlimited
	Delay int    `json:"d,omitempty"` // reads sleep up to this many virtual microseconds
	Yield bool   `json:"y,omitempty"` // yield the processor at random
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}

// half is one direction of a connection.
type half struct {
	mu    sync.Mutex
	cond  *sync.Cond
	buf   []byte
	cap   int
	eof   bool  // writer is done
	rerr  error // reader fails with this at once
	werr  error // writer fails with this
	gone  bool  // reader closed
	total int64 // bytes accepted

	failAfter int64 // writer fails once total reaches this; -1 never
	failErr   error
	stall     bool // writes block

	linger   chan struct{} // when set, writes return only after it is closed, though what they wrote has arrived
	once     error         // the next write fails with it, once
	onFail   func()
	writeSem chan struct{}
	log      []byte // everything accepted, when kept
	keep     bool
	writes   int
}

func newHalf(capacity int) *half {
	h := &half{cap: capacity, failAfter: -1, writeSem: make(chan struct{}, 1)}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) update(f func()) {
	h.mu.Lock()
	f()
	h.mu.Unlock()
	h.cond.Broadcast()
}

type simConn struct {
	r, w      *half
	local     net.Addr
	remote    net.Addr
	plan      netPlan
	rng       uint64
	rngmu     sync.Mutex
	closed    atomic.Bool
	closeCh   chan struct{}
	closeOnce sync.Once
	onClose   func()

	rdl, wdl   time.Time
	rdlT, wdlT *time.Timer
	closes     atomic.Int32

	user    atomic.Int32 // 1: the code under test reads or writes it, 2: the harness does
	libDone atomic.Bool  // the code under test closed it
}

// tracked are the connections made while on.
var tracked struct {
	mu  sync.Mutex
	on  bool
	all []*simConn
}

func trackConns(on bool) []*simConn {
	tracked.mu.Lock()
	defer tracked.mu.Unlock()
	all := tracked.all
	tracked.on, tracked.all = on, nil
	return all
}

// underTest tells whether the code under test called the harness.
func underTest() bool {
	var pcs [64]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "github.com/tg123/phabrik/") {
			return true
		}
		if !more {
			return false
		}
	}
}

func (c *simConn) used() {
	if tracked.on && c.user.Load() == 0 {
		if underTest() {
			c.user.Store(1)
		} else {
			c.user.Store(2)
		}
	}
}

func tcpAddr(i, port int) net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, byte(i>>8), byte(i)), Port: port}
}

// simPipe returns the two ends of a connection; a dials b.
func simPipe(pa, pb netPlan, la, lb net.Addr) (a, b *simConn) {
	ab, ba := newHalf(pb.Cap), newHalf(pa.Cap)
	a = &simConn{r: ba, w: ab, local: la, remote: lb, plan: pa, rng: splitmix(pa.Seed, 1), closeCh: make(chan struct{})}
	b = &simConn{r: ab, w: ba, local: lb, remote: la, plan: pb, rng: splitmix(pb.Seed, 2), closeCh: make(chan struct{})}
	tracked.mu.Lock()
	defer tracked.mu.Unlock()
	if tracked.on {
		tracked.all = append(tracked.all, a, b)
	}
	return
}

func (c *simConn) rand(n int) int {
	c.rngmu.Lock()
	c.rng = splitmix(c.rng, 3)
	v := c.rng
	c.rngmu.Unlock()
	return int(v>>11) % n
}

func (c *simConn) yield() {
	if c.plan.Yield {
		for i := c.rand(4); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

func (c *simConn) Read(b []byte) (int, error) {
	c.used()
	c.yield()
	if c.plan.Delay > 0 && c.rand(4) == 0 {
		time.Sleep(time.Duration(c.rand(c.plan.Delay+1)) * time.Microsecond)
	}
	h := c.r
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if c.closed.Load() {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if h.rerr != nil {
			return 0, h.rerr
		}
		if dl := c.deadline(false); !dl.IsZero() && !time.Now().Before(dl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			n := min(len(b), len(h.buf))
			if c.plan.Chunk > 0 && n > 1 {
				n = 1 + c.rand(min(n, c.plan.Chunk))
			}
			copy(b, h.buf[:n])
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		}
		if h.eof {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	c.used()
	c.yield()
	// one write at a time, as a socket
	select {
	case c.w.writeSem <- struct{}{}:
	case <-c.closeCh:
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	defer func() { <-c.w.writeSem }()

	h := c.w
	h.mu.Lock()
	defer h.mu.Unlock()
	h.writes++
	n := 0
	for {
		if c.closed.Load() {
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if h.werr != nil {
			return n, h.werr
		}
		if h.gone || h.eof {
			return n, errPipe
		}
		if err := h.once; err != nil {
			h.once = nil
			return n, err
		}
		if dl := c.deadline(true); !dl.IsZero() && !time.Now().Before(dl) {
			return n, os.ErrDeadlineExceeded
		}
		if n == len(b) {
			if g := h.linger; g != nil {
				h.mu.Unlock()
				select {
				case <-g:
				case <-c.closeCh:
				}
				h.mu.Lock()
			}
			return n, nil
		}
		room := len(b) - n
		if h.cap > 0 {
			room = min(room, h.cap-len(h.buf))
		}
		if h.stall {
			room = 0
		}
		if h.failAfter >= 0 {
			left := int(h.failAfter - h.total)
			if left <= 0 {
				h.werr = h.failErr
				if h.onFail != nil {
					h.mu.Unlock()
					h.onFail()
					h.mu.Lock()
				}
				continue
			}
			room = min(room, left)
		}
		if room > 0 {
			h.buf = append(h.buf, b[n:n+room]...)
			if h.keep {
				h.log = append(h.log, b[n:n+room]...)
			}
			h.total += int64(room)
			n += room
			h.cond.Broadcast()
			if c.plan.Yield && n < len(b) {
				h.mu.Unlock()
				c.yield()
				h.mu.Lock()
			}
			continue
		}
		h.cond.Wait()
	}
}

func (c *simConn) Close() error {
	if tracked.on && underTest() {
		c.libDone.Store(true)
	}
	c.closes.Add(1)
	first := false
	c.closeOnce.Do(func() {
		first = true
		c.closed.Store(true)
		close(c.closeCh)
		c.w.update(func() { c.w.eof = true })
		c.r.update(func() { c.r.gone = true; c.r.buf = nil })
	})
	if !first {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

// reset breaks the connection for both ends.
func (c *simConn) reset() {
	for _, h := range []*half{c.r, c.w} {
		h.update(func() { h.rerr, h.werr, h.buf = errReset, errPipe, nil })
	}
}

// closeBoth ends the connection for both ends, as a peer that goes away; what is under way is lost.
func (c *simConn) closeBoth(o *simConn) {
	for _, h := range []*half{c.r, c.w} {
		h.update(func() { h.eof, h.gone, h.buf = true, true, nil })
	}
}

// closeWrite ends this end's stream only.
func (c *simConn) closeWrite() { c.w.update(func() { c.w.eof = true }) }

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func (c *simConn) deadline(write bool) time.Time {
	c.rngmu.Lock()
	defer c.rngmu.Unlock()
	if write {
		return c.wdl
	}
	return c.rdl
}

func (c *simConn) setDeadline(write bool, t time.Time) {
	h := c.r
	if write {
		h = c.w
	}
	c.rngmu.Lock()
	old := &c.rdlT
	if write {
		c.wdl, old = t, &c.wdlT
	} else {
		c.rdl = t
	}
	if *old != nil {
		(*old).Stop()
		*old = nil
	}
	if !t.IsZero() {
		*old = time.AfterFunc(time.Until(t), func() { h.cond.Broadcast() })
	}
	c.rngmu.Unlock()
	h.cond.Broadcast()
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.setDeadline(false, t)
	c.setDeadline(true, t)
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { c.setDeadline(false, t); return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { c.setDeadline(true, t); return nil }

// pending is the number of bytes written to this end and not read yet.
func (c *simConn) pending() int {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	return len(c.r.buf)
}

// peerGone tells whether the other end has closed or broken the connection.
func (c *simConn) peerGone() bool {
	c.r.mu.Lock()
	g := c.r.eof || c.r.rerr != nil
	c.r.mu.Unlock()
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return g && c.w.gone || c.w.werr != nil
}

// ---------------------------------------------------------------- listener

type tempError struct{ n int }

func (e *tempError) Error() string   { return "accept: too many open files" }
func (e *tempError) Timeout() bool   { return e.n%2 == 1 } // EAGAIN is both
func (e *tempError) Temporary() bool { return true }

var _ net.Error = (*tempError)(nil)

type acceptItem struct {
	c   net.Conn
	err error
}

type simListener struct {
	addr   net.Addr
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []acceptItem
	closed bool
	taken  int
}

func newSimListener(addr net.Addr) *simListener {
	l := &simListener{addr: addr}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *simListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			it := l.queue[0]
			l.queue = l.queue[1:]
			l.taken++
			return it.c, it.err
		}
		l.cond.Wait()
	}
}

func (l *simListener) push(it acceptItem) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.queue = append(l.queue, it)
	l.cond.Broadcast()
	return true
}

func (l *simListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func (l *simListener) isClosed() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.closed }

// connect queues a connection and returns the dialing end.
func (l *simListener) connect(client, server netPlan, from net.Addr) (*simConn, error) {
	a, b := simPipe(client, server, from, l.addr)
	if !l.push(acceptItem{c: b}) {
		return nil, errors.New("connection refused")
	}
	return a, nil
}

// ---------------------------------------------------------------- dialing (federation, lease)

type simNet struct {
	mu        sync.Mutex
	listeners map[string]*simListener
	next      int
	plan      func(n int) (netPlan, netPlan)
	dials     map[string]int
}

func readFullN(c net.Conn, n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(c, b)
	return b, err
}
