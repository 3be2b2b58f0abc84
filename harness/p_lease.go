package harness

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"runtime"
	"runtime/metrics"
	"sync"
	"testing/synctest"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/lease"
	"pgregory.net/rapid"
)

// The lease properties. The wire format is written here from its description: 12 byte frame header
// (type, reserved, size with header, reserved), a 200 byte message header, nine lists, and the endpoint.

const (
	ltMessage = 1
	ltConnect = 2

	leasePingRequest  = 2
	leasePingResponse = 3

	leaseHeaderSize = 200
)

func ltFrame(kind byte, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	b[0] = kind
	binary.LittleEndian.PutUint32(b[4:], uint32(12+len(body)))
	return append(b, body...)
}

// leaseMsg is a message as a peer writes it.
type leaseMsg struct {
	Type     int32  `json:"t"`
	Ident    int64  `json:"i,omitempty"`
	Inst     int64  `json:"li,omitempty"`
	Remote   int64  `json:"r,omitempty"`
	Dur      int32  `json:"d,omitempty"`
	Exp      int64  `json:"e,omitempty"`
	Host     string `json:"h"`
	Port     uint16 `json:"p"`
	Where    int    `json:"w,omitempty"` // endpoint: 0 at the end, 1 before the lists, 2 at the end with more behind it
	Lists    int    `json:"l,omitempty"` // entries of the first list
	Gap      int    `json:"g,omitempty"` // header grown by this many bytes
	Two      bool   `json:"tw,omitempty"`
	BadStart uint32 `json:"-"`
}

func (m *leaseMsg) endpoint() []byte {
	var b []byte
	for _, u := range append(utf16.Encode([]rune(m.Host)), 0) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	b = binary.LittleEndian.AppendUint16(b, 2)
	return binary.LittleEndian.AppendUint16(b, m.Port)
}

func (m *leaseMsg) bytes() []byte {
	le := binary.LittleEndian
	hs := leaseHeaderSize + m.Gap
	h := make([]byte, hs)
	h[0], h[1] = 2, 1
	le.PutUint32(h[4:], uint32(hs))
	le.PutUint64(h[16:], uint64(m.Ident))
	le.PutUint32(h[24:], uint32(m.Type))
	le.PutUint64(h[32:], uint64(m.Inst))
	le.PutUint64(h[40:], uint64(m.Remote))
	le.PutUint32(h[48:], uint32(m.Dur))
	le.PutUint64(h[56:], uint64(m.Exp))
	if m.Two {
		h[72] = 1
	}
	ep := m.endpoint()
	desc := func(at, count, start, size int) {
		le.PutUint32(h[at:], uint32(count))
		le.PutUint32(h[at+4:], uint32(start))
		le.PutUint32(h[at+8:], uint32(size))
	}
	var body []byte
	putEP := func() {
		desc(184, 0, hs+len(body), len(ep))
		body = append(body, ep...)
	}
	if m.Where == 1 {
		putEP()
	}
	for i := 0; i < 9; i++ {
		n := 0
		if i == 0 {
			n = m.Lists
		}
		var l []byte
		l = le.AppendUint32(l, uint32(n))
		for j := 0; j < n; j++ {
			for _, s := range []string{"application", fmt.Sprint("peer", j)} {
				var e []byte
				for _, u := range utf16.Encode([]rune(s)) {
					e = le.AppendUint16(e, u)
				}
				l = le.AppendUint32(l, uint32(len(e)))
				l = append(l, e...)
			}
		}
		desc(76+12*i, n, hs+len(body), len(l)+4)
		body = le.AppendUint32(body, uint32(len(l)))
		body = append(body, l...)
	}
	if m.Where != 1 {
		putEP()
	}
	if m.Where == 2 {
		body = append(body, 1, 2, 3, 4, 5, 6, 7, 8)
	}
	le.PutUint32(h[8:], uint32(hs+len(body)))
	return append(h, body...)
}

func (m *leaseMsg) frame() []byte { return ltFrame(ltMessage, m.bytes()) }

// leasePing is a ping request read strictly.
type leasePing struct {
	inst, remote, exp int64
	host              string
	port              uint16
}

func parseLeasePing(b []byte) (p leasePing, err error) {
	le := binary.LittleEndian
	if len(b) < leaseHeaderSize {
		return p, fmt.Errorf("message of %d bytes", len(b))
	}
	zero := func(what string, from, to int) {
		for _, c := range b[from:to] {
			if c != 0 && err == nil {
				err = fmt.Errorf("%s is not zero: % x", what, b[from:to])
			}
		}
	}
	if b[0] != 2 || b[1] != 1 {
		return p, fmt.Errorf("version %d.%d", b[0], b[1])
	}
	zero("padding 2", 2, 4)
	zero("padding 12", 12, 16)
	zero("padding 28", 28, 32)
	zero("padding 52", 52, 56)
	zero("padding 73", 73, 76)
	zero("padding 196", 196, 200)
	if err != nil {
		return p, err
	}
	if v := le.Uint32(b[4:]); v != leaseHeaderSize {
		return p, fmt.Errorf("header size %d", v)
	}
	if v := le.Uint32(b[8:]); int(v) != len(b) {
		return p, fmt.Errorf("message size %d of %d bytes", v, len(b))
	}
	if v := int32(le.Uint32(b[24:])); v != leasePingRequest {
		return p, fmt.Errorf("message type %d", v)
	}
	if b[72] > 1 {
		return p, fmt.Errorf("flag %d", b[72])
	}
	p.inst, p.remote, p.exp = int64(le.Uint64(b[32:])), int64(le.Uint64(b[40:])), int64(le.Uint64(b[56:]))
	used := make([]bool, len(b))
	part := func(what string, at int) (uint32, []byte) {
		n, start, size := le.Uint32(b[at:]), uint64(le.Uint32(b[at+4:])), uint64(le.Uint32(b[at+8:]))
		if start < leaseHeaderSize || start+size > uint64(len(b)) {
			if err == nil {
				err = fmt.Errorf("%s lies at %d+%d of %d", what, start, size, len(b))
			}
			return 0, nil
		}
		for i := start; i < start+size; i++ {
			if used[i] && err == nil {
				err = fmt.Errorf("%s overlaps another part", what)
			}
			used[i] = true
		}
		return n, b[start : start+size]
	}
	for i := 0; i < 9; i++ {
		n, l := part(fmt.Sprint("list ", i), 76+12*i)
		if err == nil && (n != 0 || len(l) != 8 || le.Uint32(l) != 4 || le.Uint32(l[4:]) != 0) {
			err = fmt.Errorf("list %d has count %d and content % x", i, n, l)
		}
	}
	_, ep := part("endpoint", 184)
	if err != nil {
		return p, err
	}
	for i, u := range used[leaseHeaderSize:] {
		if !u {
			return p, fmt.Errorf("byte %d belongs to nothing", leaseHeaderSize+i)
		}
	}
	if len(ep) < 6 || len(ep)%2 != 0 {
		return p, fmt.Errorf("endpoint of %d bytes", len(ep))
	}
	var us []uint16
	for i := 0; i < len(ep)-4; i += 2 {
		us = append(us, le.Uint16(ep[i:]))
	}
	if us[len(us)-1] != 0 {
		return p, fmt.Errorf("endpoint address is not terminated: % x", ep)
	}
	p.host = string(utf16.Decode(us[:len(us)-1]))
	if f := le.Uint16(ep[len(ep)-4:]); f != 2 && net.ParseIP(p.host).To4() != nil {
		return p, fmt.Errorf("address family %d for %q", f, p.host)
	}
	p.port = le.Uint16(ep[len(ep)-2:])
	return p, nil
}

func readLtFrame(c net.Conn) (kind byte, body []byte, err error) {
	h, err := readFullN(c, 12)
	if err != nil {
		return 0, nil, err
	}
	n := binary.LittleEndian.Uint32(h[4:])
	if n < 12 || n > 1<<20 {
		return 0, nil, fmt.Errorf("agent wrote a frame of size %d: % x", n, h)
	}
	for _, i := range []int{1, 2, 3, 8, 9, 10, 11} {
		if h[i] != 0 {
			return 0, nil, fmt.Errorf("agent wrote a frame header with reserved bytes set: % x", h)
		}
	}
	body, err = readFullN(c, int(n)-12)
	return h[0], body, err
}

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

// ---------------------------------------------------------------- an agent and its peers

type leaseEP struct {
	Host string `json:"h"`
	Port uint16 `json:"p"`
}

func (e leaseEP) addr() string { return net.JoinHostPort(e.Host, fmt.Sprint(e.Port)) }

type leaseCfg struct {
	Self leaseEP
	App  string
	LD   time.Duration
	TLS  bool
	PL   netPlan
	PP   netPlan
}

// leasePeer is the far end of a session's connection; in is what it was sent.
type leasePeer struct {
	sim   *simConn // peer's end
	lib   *simConn // agent's end
	addr  string
	mu    sync.Mutex
	pings []leasePing
	end   error
	on    func(leasePing)
}

func (p *leasePeer) all() []leasePing {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]leasePing(nil), p.pings...)
}

func (p *leasePeer) ended() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.end
}

type leaseRig struct {
	x     *X
	c     leaseCfg
	a     *lease.Agent
	ln    *simListener
	wait  chan error
	mu    sync.Mutex
	peers []*leasePeer
	nconn int
	hold  chan struct{}     // dials wait for it, when set
	fail  bool              // dials fail
	eager func(addr string) // called inside the agent's write, after the data is taken
}

func (r *leaseRig) tls() *tls.Config {
	if !r.c.TLS {
		return nil
	}
	tlsMaterial()
	return &tls.Config{Certificates: []tls.Certificate{tlsServer}, InsecureSkipVerify: true, SessionTicketsDisabled: true}
}

// eagerConn lets the peer react before the write returns.
type eagerConn struct {
	*simConn
	r    *leaseRig
	addr string
}

func (c *eagerConn) Write(b []byte) (int, error) {
	n, err := c.simConn.Write(b)
	c.r.mu.Lock()
	f := c.r.eager
	c.r.mu.Unlock()
	if f != nil && err == nil {
		f(c.addr)
	}
	return n, err
}

func (r *leaseRig) dial(addr string) (net.Conn, error) {
	r.mu.Lock()
	hold, fail := r.hold, r.fail
	r.mu.Unlock()
	if hold != nil {
		<-hold
	}
	if fail {
		return nil, errors.New("connection refused")
	}
	lib, peer := simPipe(r.c.PL, r.c.PP, strAddr(r.c.Self.addr()), strAddr(addr))
	p := &leasePeer{sim: peer, lib: lib, addr: addr}
	r.mu.Lock()
	r.peers = append(r.peers, p)
	r.mu.Unlock()
	r.x.Cleanup(func() { peer.Close(); lib.Close() })
	go func() {
		var c net.Conn = peer
		if r.c.TLS {
			c = tls.Server(peer, r.tls())
		}
		for {
			kind, body, err := readLtFrame(c)
			if err == nil && kind != ltMessage {
				err = fmt.Errorf("agent wrote a frame of type %d on a session", kind)
				r.x.Report("%v", err)
			}
			var pg leasePing
			if err == nil {
				if pg, err = parseLeasePing(body); err != nil {
					r.x.Report("agent wrote a bad ping: %v (% x)", err, clipBytes(body, 400))
				}
			} else if p.ended() == nil && isOwnError(err) {
				r.x.Report("%v", err)
			}
			p.mu.Lock()
			if err != nil {
				p.end = err
				p.mu.Unlock()
				return
			}
			p.pings = append(p.pings, pg)
			on := p.on
			p.mu.Unlock()
			if on != nil {
				on(pg)
			}
		}
	}()
	return &eagerConn{lib, r, addr}, nil
}

func isOwnError(err error) bool { return len(err.Error()) > 11 && err.Error()[:11] == "agent wrote" }

func newLeaseRig(x *X, c leaseCfg) *leaseRig {
	if c.TLS {
		c.PL.Cap, c.PP.Cap, c.PL.Delay, c.PP.Delay = 0, 0, 0, 0
	}
	r := &leaseRig{x: x, c: c}
	r.ln = newSimListener(strAddr(c.Self.addr()))
	cfg := lease.AgentConfig{AppId: c.App, TLS: r.tls()}
	cfg.SetDefault()
	if c.LD != 0 {
		cfg.LeaseDuration = c.LD
	}
	a, err := lease.NewAgent(cfg, r.ln, r.dial)
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	r.a = a
	r.wait = make(chan error, 1)
	time.Sleep(time.Millisecond)
	go func() { r.wait <- a.Wait() }()
	x.Cleanup(func() { a.Close(); r.ln.Close() })
	return r
}

func (r *leaseRig) establish(addr string) (lease.Session, *leasePeer, error) {
	r.mu.Lock()
	n := len(r.peers)
	r.mu.Unlock()
	time.Sleep(time.Millisecond) // sessions are told apart by their time
	s, err := r.a.Establish(addr)
	if err != nil {
		return nil, nil, err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.peers) != n+1 {
		r.x.Failf("establishing to %s dialed %d times", addr, len(r.peers)-n)
	}
	return s, r.peers[n], nil
}

// leaseIn is a connection accepted by the agent.
type leaseIn struct {
	sim  *simConn
	lib  *simConn
	c    net.Conn
	mu   sync.Mutex
	end  error
	got  []byte
	gone bool // malformed: has to be dropped
	open bool // the property says nothing
	conn int  // connect frames from the agent
}

func (r *leaseRig) incoming() *leaseIn {
	r.nconn++
	peer, lib := simPipe(r.c.PP, r.c.PL, tcpAddr(r.nconn, 40000), r.ln.addr)
	in := &leaseIn{sim: peer, lib: lib, c: peer}
	if !r.ln.push(acceptItem{c: lib}) {
		r.x.Failf("the agent does not listen any more")
	}
	r.x.Cleanup(func() { peer.Close(); lib.Close() })
	if r.c.TLS {
		t := tls.Client(peer, r.tls())
		var err error
		r.x.Within("handshake", func() { err = t.Handshake() })
		if err != nil {
			r.x.Failf("handshake with the agent: %v", err)
		}
		in.c = t
	}
	go func() {
		buf := make([]byte, 100)
		for {
			n, err := in.c.Read(buf)
			in.mu.Lock()
			in.got = append(in.got, buf[:n]...)
			if err != nil {
				in.end = err
				in.mu.Unlock()
				return
			}
			in.mu.Unlock()
		}
	}()
	return in
}

func (in *leaseIn) ended() bool { in.mu.Lock(); defer in.mu.Unlock(); return in.end != nil }

// greeted verifies that the agent wrote a connect frame on the connection, and nothing else.
func (in *leaseIn) greeted(x *X, at string) {
	in.mu.Lock()
	g := append([]byte(nil), in.got...)
	in.mu.Unlock()
	if string(g) != string(ltFrame(ltConnect, nil)) {
		x.Failf("%s: the agent greeted an accepted connection with % x", at, g)
	}
}

func (r *leaseRig) write(in *leaseIn, b []byte) {
	r.x.Within("reading what a peer sends", func() { in.c.Write(b) })
}

// ---------------------------------------------------------------- generators

var leaseHosts = []string{"10.0.0.1", "10.0.0.11", "10.0.0.1 ", "node", "Node", "node.example.com", "::1", "fe80::1:2", "n", "höst", "主机", "𝔥ost", ""}

func genLeaseEP(t *rapid.T) leaseEP {
	return leaseEP{pick(t, "host", leaseHosts), uint16(pick(t, "port", []int{1025, 1, 102, 10251, 65535, 0, 256, 4097}))}
}

func genLeaseEPs(t *rapid.T, lo, hi int) []leaseEP {
	return rapid.SliceOfNDistinct(rapid.Custom(genLeaseEP), lo, hi, func(e leaseEP) leaseEP { return e }).Draw(t, "eps")
}

func genLeaseCfg(t *rapid.T) leaseCfg {
	c := leaseCfg{Self: genLeaseEP(t), App: pick(t, "app", []string{"", "app", "8f1b", "äpp"}), TLS: oneIn(t, "tls", 6), PL: genPlan(t, true), PP: genPlan(t, true)}
	c.PL.Delay, c.PP.Delay = 0, 0
	if coin(t, "ld") {
		c.LD = time.Duration(1+int64(genBits(t, 63, false)%(1<<32))) * time.Millisecond
	}
	return c
}

func genLeaseMsg(t *rapid.T) leaseMsg {
	m := leaseMsg{Type: leasePingResponse, Ident: genInt64(t), Inst: genInt64(t), Remote: genInt64(t), Where: intn(t, "where", 0, 2)}
	if oneIn(t, "large", 100) {
		m.Lists = intn(t, "manylists", 1000, 4000) // frames of more than 64 KiB
		if oneIn(t, "huge", 8) {
			m.Lists *= 20
		}
	} else if oneIn(t, "detail", 3) {
		m.Lists, m.Gap, m.Dur, m.Exp, m.Two = intn(t, "lists", 0, 3), pick(t, "gap", []int{0, 8, 24}), int32(genBits(t, 32, true)), genInt64(t), coin(t, "two")
	}
	return m
}

// ---------------------------------------------------------------- L01

type l01Step struct {
	Op string // ping, burst (on all sessions), pong, other, accept
	I  int
	N  int
	M  leaseMsg
}

type l01Case struct {
	C     leaseCfg
	Peers []leaseEP
	Dup   int // sessions to the first peer besides
	Steps []l01Step
}

func runL01(x *X, c l01Case) {
	r := newLeaseRig(x, c.C)
	ld := c.C.LD
	if ld == 0 {
		ld = 30 * time.Second
	}
	type sess struct {
		s      lease.Session
		p      *leasePeer
		ep     leaseEP
		inst   int64
		known  bool
		remote int64
		sent   int
	}
	var ss []*sess
	for i := 0; i < len(c.Peers)+c.Dup; i++ {
		ep := c.Peers[0]
		if i < len(c.Peers) {
			ep = c.Peers[i]
		}
		var s lease.Session
		var p *leasePeer
		var err error
		x.Within("Establish", func() { s, p, err = r.establish(ep.addr()) })
		if err != nil {
			x.Failf("Establish: %v", err)
		}
		ss = append(ss, &sess{s: s, p: p, ep: ep})
	}
	in := r.incoming()
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	most, learned := 0, false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		s := ss[st.I%len(ss)]
		switch st.Op {
		case "ping":
			for i := 0; i < st.N; i++ {
				go s.s.Ping(ctx)
			}
			s.sent += st.N
			most = max(most, st.N)
		case "burst":
			gate := make(chan struct{})
			for _, s := range ss {
				for g := 0; g < 2; g++ {
					go func() {
						<-gate
						for i := 0; i < st.N; i++ {
							// each ends at once, its request is written first
							pctx, pcancel := context.WithCancel(ctx)
							done := make(chan struct{})
							go func() { s.s.Ping(pctx); close(done) }()
							runtime.Gosched()
							select {
							case <-done:
							case <-time.After(time.Millisecond):
							}
							pcancel()
						}
					}()
				}
				s.sent += 2 * st.N
			}
			close(gate)
			time.Sleep(time.Second)
			most = max(most, len(ss)*st.N)
		case "pong", "other":
			m := st.M
			m.Host, m.Port = s.ep.Host, s.ep.Port
			if st.Op == "other" {
				m.Type = []int32{0, 1, 2, 4, 5, 6, 7, 8, -1}[st.N%9]
			} else {
				learned = true
				for _, o := range ss {
					if o.ep == s.ep {
						o.remote = m.Remote
					}
				}
			}
			r.write(in, m.frame())
		case "accept":
			o := r.incoming()
			synctest.Wait()
			o.greeted(x, at)
		}
		settleShort()
		x.Check()
		for i, s := range ss {
			ps := s.p.all()
			if len(ps) != s.sent {
				x.Failf("%s: session %d wrote %d pings for %d calls (%v)", at, i, len(ps), s.sent, s.p.ended())
			}
			if st.Op != "burst" && (st.Op != "ping" || s != ss[st.I%len(ss)]) {
				continue
			}
			n := st.N
			if st.Op == "burst" {
				n *= 2
			}
			for _, p := range ps[len(ps)-n:] {
				want := leasePing{p.inst, s.remote, ld.Milliseconds(), c.C.Self.Host, c.C.Self.Port}
				if p != want {
					x.Failf("%s: session %d wrote ping %+v, want %+v", at, i, p, want)
				}
				if !s.known {
					s.known, s.inst = true, p.inst
					for j, o := range ss {
						if o != s && o.known && o.inst == s.inst {
							x.Failf("%s: sessions %d and %d use the same lease instance %d", at, i, j, s.inst)
						}
					}
				}
				if p.inst != s.inst {
					x.Failf("%s: session %d changed its lease instance from %d to %d", at, i, s.inst, p.inst)
				}
				if p.inst == 0 {
					x.Failf("%s: session %d has lease instance 0", at, i)
				}
			}
		}
		in.greeted(x, at)
		if in.ended() {
			x.Failf("%s: the agent dropped a connection: %v", at, in.end)
		}
	}
	if most > 1 || learned {
		x.NonTrivial()
	}
}

// settleShort is settle for cases whose contexts must survive it.
func settleShort() {
	synctest.Wait()
	time.Sleep(time.Millisecond)
	synctest.Wait()
}

// ---------------------------------------------------------------- L02

type l02Step struct {
	Op   string // ping, pong, other, near, cancel, close, sleep, stall, unstall, cut, eager, closeagent
	I    int
	J    int
	N    int
	M    leaseMsg
	Fast bool
}

type l02Case struct {
	C     leaseCfg
	Peers []leaseEP
	Dup   int
	Ins   int
	Steps []l02Step
}

type leaseCall struct {
	sess   int
	cancel context.CancelFunc
	done   chan struct{}
	err    error
	out    bool // nothing ended it yet
	ok     bool // has to have succeeded
	bad    bool // has to have failed
	either bool
	lost   bool // its request may be lost: may fail at any time, must not succeed
}

func (p *leaseCall) finished() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func runL02(x *X, c l02Case) {
	r := newLeaseRig(x, c.C)
	type sess struct {
		s       lease.Session
		p       *leasePeer
		ep      leaseEP
		closed  bool
		stalled bool
		cut     bool
		last    time.Time
		remote  int64
		npings  int
	}
	var ss []*sess
	for i := 0; i < len(c.Peers)+c.Dup; i++ {
		ep := c.Peers[0]
		if i < len(c.Peers) {
			ep = c.Peers[i]
		}
		s, p, err := r.establish(ep.addr())
		if err != nil {
			x.Failf("Establish: %v", err)
		}
		ss = append(ss, &sess{s: s, p: p, ep: ep})
	}
	var ins []*leaseIn
	for i := 0; i < c.Ins; i++ {
		ins = append(ins, r.incoming())
	}
	var calls []*leaseCall
	closedAgent := false
	nok := 0

	pong := func(ep leaseEP, remote int64, eager bool) {
		for i, s := range ss {
			if s.ep != ep || s.closed {
				continue
			}
			s.last, s.remote = time.Now(), remote
			for _, p := range calls {
				if p.sess != i || !p.out {
					continue
				}
				switch {
				case p.lost:
					p.either = true
				case s.stalled:
					p.either = true
				default:
					p.ok = true
					nok++
				}
				p.out = false
			}
		}
	}
	check := func(at string) {
		settleShort()
		x.Check()
		for i, p := range calls {
			switch {
			case p.out && p.lost:
				if p.finished() && p.err == nil {
					x.Failf("%s: ping %d of session %d succeeded without a response", at, i, p.sess)
				}
			case p.out && p.finished():
				x.Failf("%s: ping %d of session %d finished early: %v", at, i, p.sess, p.err)
			case p.ok && !p.finished():
				x.Failf("%s: ping %d of session %d was answered and has not finished", at, i, p.sess)
			case p.ok && p.err != nil:
				x.Failf("%s: ping %d of session %d was answered and failed: %v", at, i, p.sess, p.err)
			case p.bad && !p.finished():
				x.Failf("%s: ping %d of session %d has not finished", at, i, p.sess)
			case p.bad && p.err == nil:
				x.Failf("%s: ping %d of session %d succeeded without a response", at, i, p.sess)
			}
		}
		for i, s := range ss {
			if !s.closed && !s.s.LastPongTime().Equal(s.last) {
				x.Failf("%s: session %d had its last pong at %v, reports %v", at, i, s.last, s.s.LastPongTime())
			}
		}
	}
	fails := func(i int) {
		for _, p := range calls {
			if p.sess == i && (p.out || p.either) {
				if p.out {
					p.bad = true
				}
				p.out = false
			}
		}
	}
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		s := ss[st.I%len(ss)]
		if closedAgent && (st.Op == "pong" || st.Op == "pair" || st.Op == "near" || st.Op == "other" || st.Op == "eager") {
			continue
		}
		if !st.Fast || st.Op != "pong" {
			synctest.Wait()
		}
		switch st.Op {
		case "ping":
			p := &leaseCall{sess: st.I % len(ss), done: make(chan struct{}), out: true}
			var ctx context.Context
			ctx, p.cancel = x.ctx(context.Background())
			if st.J%3 == 0 {
				ctx, p.cancel = context.WithTimeout(ctx, time.Duration(st.N+1)*1000*time.Hour)
			}
			x.Cleanup(p.cancel)
			if s.closed || s.cut {
				p.out, p.bad = false, true
			}
			calls = append(calls, p)
			go func() { p.err = s.s.Ping(ctx); close(p.done) }()
			synctest.Wait()
			if !s.closed && !s.cut && !s.stalled {
				s.npings++
				ps := s.p.all()
				if len(ps) != s.npings {
					x.Failf("%s: %d requests written for %d pings", at, len(ps), s.npings)
				}
				if g := ps[len(ps)-1].remote; g != s.remote {
					x.Failf("%s: the ping names peer instance %d, the last response %d", at, g, s.remote)
				}
			}
		case "eager":
			// the response comes before the write of the request has returned
			if s.closed || s.cut || s.stalled || c.C.TLS {
				continue
			}
			m := st.M
			m.Host, m.Port = s.ep.Host, s.ep.Port
			in := ins[st.J%len(ins)]
			p := &leaseCall{sess: st.I % len(ss), done: make(chan struct{}), out: true}
			var ctx context.Context
			ctx, p.cancel = x.ctx(context.Background())
			x.Cleanup(p.cancel)
			calls = append(calls, p)
			n := 0
			r.mu.Lock()
			r.eager = func(string) {
				if n++; n > 1 {
					return
				}
				in.c.Write(m.frame())
				time.Sleep(time.Millisecond)
			}
			r.mu.Unlock()
			start := time.Now()
			go func() { p.err = s.s.Ping(ctx); close(p.done) }()
			synctest.Wait()
			pong(s.ep, m.Remote, true)
			time.Sleep(2 * time.Millisecond)
			synctest.Wait()
			r.mu.Lock()
			r.eager = nil
			r.mu.Unlock()
			s.npings++
			_ = start
		case "pong":
			m := st.M
			m.Host, m.Port = s.ep.Host, s.ep.Port
			r.write(ins[st.J%len(ins)], m.frame())
			synctest.Wait()
			pong(s.ep, m.Remote, false)
		case "pair":
			// two responses in one piece: the later one counts
			m, m2 := st.M, st.M
			m.Host, m.Port = s.ep.Host, s.ep.Port
			m2.Host, m2.Port, m2.Remote = s.ep.Host, s.ep.Port, int64(st.N)
			r.write(ins[st.J%len(ins)], append(m.frame(), m2.frame()...))
			synctest.Wait()
			pong(s.ep, m2.Remote, false)
		case "hiccup":
			// one write fails, the connection is fine afterwards
			if s.closed || s.cut || s.stalled || c.C.TLS {
				continue
			}
			s.p.lib.w.update(func() { s.p.lib.w.once = &tempError{st.N} })
			ctx, cancel := x.ctx(context.Background())
			x.Cleanup(cancel)
			p := &leaseCall{sess: st.I % len(ss), done: make(chan struct{}), cancel: cancel, bad: true}
			calls = append(calls, p)
			go func() { p.err = s.s.Ping(ctx); close(p.done) }()
			synctest.Wait()
			s.p.lib.w.update(func() { s.p.lib.w.once = nil })
		case "near":
			// a response naming an endpoint that no session has
			m := st.M
			e := s.ep
			switch st.N % 5 {
			case 0:
				e.Port++
			case 1:
				e.Host += "0"
			case 2:
				if e.Host != "" {
					e.Host = string([]rune(e.Host)[1:])
				}
			case 3:
				e = c.C.Self
			case 4:
				e.Port = e.Port<<8 | e.Port>>8
			}
			m.Host, m.Port = e.Host, e.Port
			r.write(ins[st.J%len(ins)], m.frame())
			synctest.Wait()
			pong(e, m.Remote, false)
		case "other":
			m := st.M
			m.Host, m.Port = s.ep.Host, s.ep.Port
			m.Type = []int32{0, 1, 2, 4, 5, 6, 7, 8, -1, 0x103, 3 << 8}[st.N%11]
			r.write(ins[st.J%len(ins)], m.frame())
		case "cancel":
			if len(calls) == 0 {
				continue
			}
			p := calls[st.J%len(calls)]
			p.cancel()
			if p.out {
				p.out, p.bad = false, true
			}
		case "sleep":
			// deadlines are more than a month away
			time.Sleep(time.Duration(st.N) * time.Second)
		case "long":
			time.Sleep(time.Duration(st.N+1) * 11 * time.Minute)
		case "close":
			x.Within("closing a session", func() { s.s.Close() })
			s.closed = true
			fails(st.I % len(ss))
		case "closeagent":
			x.Within("closing the agent", func() { r.a.Close() })
			closedAgent = true
			for i, s := range ss {
				s.closed = true
				fails(i)
			}
		case "stall":
			if s.closed || s.cut || c.C.TLS {
				continue
			}
			s.stalled = true
			s.p.lib.w.update(func() { s.p.lib.w.stall = true })
		case "unstall":
			if !s.stalled || s.cut || s.closed {
				continue
			}
			s.stalled = false
			s.p.lib.w.update(func() { s.p.lib.w.stall = false })
			synctest.Wait()
			s.npings = len(s.p.all())
		case "cut":
			if s.closed || s.cut {
				continue
			}
			s.cut = true
			if st.N%2 == 0 {
				s.p.sim.reset()
			} else {
				s.p.lib.closeBoth(s.p.sim)
			}
			// what is already written has nobody to answer it
			for _, p := range calls {
				if p.sess == st.I%len(ss) && p.out {
					p.lost = true
				}
			}
		}
		if st.Fast && (st.Op == "ping" || st.Op == "pong") {
			continue
		}
		check(at)
	}
	check("end")
	for _, p := range calls {
		p.cancel()
		if p.out {
			p.out, p.bad = false, true
		}
	}
	check("after cancelling everything")
	for i, p := range calls {
		if !p.finished() {
			x.Failf("ping %d of session %d does not end with its context", i, p.sess)
		}
	}
	if nok > 0 {
		x.NonTrivial()
	}
}

type l02Loop struct {
	C        leaseCfg
	Peer     leaseEP
	Interval int // ms
	For      int // ms
	Pongs    []bool
	Cut      int // connection breaks before this ping
	Remote   int64
	Cancel   bool `json:",omitempty"` // the context is cancelled instead of running out
}

// loopContext makes a context that ends after d, and tells with which error.
func loopContext(x *X, d time.Duration, cancelled bool) (context.Context, error) {
	if !cancelled {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		x.Cleanup(cancel)
		return ctx, context.DeadlineExceeded
	}
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	time.AfterFunc(d, cancel)
	return ctx, context.Canceled
}

// runL02Loop checks the ping loop: it goes on until its context ends, whatever the pings give.
func runL02Loop(x *X, c l02Loop) {
	r := newLeaseRig(x, c.C)
	s, p, err := r.establish(c.Peer.addr())
	if err != nil {
		x.Failf("Establish: %v", err)
	}
	in := r.incoming()
	n := 0
	var times []time.Time
	p.mu.Lock()
	p.on = func(leasePing) {
		times = append(times, time.Now())
		if len(c.Pongs) > 0 && c.Pongs[n%len(c.Pongs)] {
			m := leaseMsg{Type: leasePingResponse, Host: c.Peer.Host, Port: c.Peer.Port, Remote: c.Remote}
			in.c.Write(m.frame())
		}
		n++
		if n == c.Cut {
			p.sim.Close()
		}
	}
	p.mu.Unlock()
	iv, dur := time.Duration(c.Interval)*time.Millisecond, time.Duration(c.For)*time.Millisecond
	ctx, want := loopContext(x, dur, c.Cancel)
	start := time.Now()
	done := make(chan error, 1)
	go func() { done <- lease.PingLoop(ctx, s, iv) }()
	x.Within("the ping loop", func() { err = <-done })
	if err != want {
		x.Failf("the ping loop returned %v", err)
	}
	if d := time.Since(start); d < dur {
		x.Failf("the ping loop ended after %v of %v", d, dur)
	} else if d > dur+iv {
		x.Failf("the ping loop went on for %v after its context had ended", d-dur)
	}
	synctest.Wait()
	x.Check()
	// a round takes at most an interval for the ping and one of waiting
	last := start
	if c.Cut == 0 || n < c.Cut {
		times = append(times, start.Add(dur))
	}
	for i, at := range times {
		if g := at.Sub(last); g > 2*iv+2*time.Millisecond {
			x.Failf("no ping for %v with an interval of %v (before ping %d)", g, iv, i)
		}
		last = at
	}
	if len(times) > 2 {
		x.NonTrivial()
	}
}

type l02Script struct {
	Cancel   bool `json:",omitempty"`
	Interval int  // ms
	For      int  // ms
	Pings    []l02Ping
}

type l02Ping struct {
	Kind string // ok, err, net, ctx, cancelled
	Ms   int    // it takes this long, or until its context ends
}

type scriptedSession struct {
	x     *X
	c     *l02Script
	mu    sync.Mutex
	times []time.Time
	now   int
}

func (s *scriptedSession) Meta() lease.SessionMetadata { return lease.SessionMetadata{} }
func (s *scriptedSession) LastPongTime() time.Time     { return time.Time{} }
func (s *scriptedSession) Close() error                { return nil }

func (s *scriptedSession) Ping(ctx context.Context) error {
	s.mu.Lock()
	i := len(s.times)
	s.times = append(s.times, time.Now())
	s.now++
	if s.now > 1 {
		s.x.Report("two pings at a time")
	}
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.now--
		s.mu.Unlock()
	}()
	p := s.c.Pings[i%len(s.c.Pings)]
	wait := time.Duration(p.Ms) * time.Millisecond
	if p.Kind == "ctx" {
		wait = 1000 * time.Hour
	}
	t := time.NewTimer(wait)
	defer t.Stop()
	if wait > 0 {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-t.C:
		}
	}
	switch p.Kind {
	case "err":
		return errors.New("something failed")
	case "net":
		return &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	case "cancelled":
		return context.Canceled
	}
	return nil
}

// runL02Script checks the ping loop over a session whose pings give anything.
func runL02Script(x *X, c l02Script) {
	s := &scriptedSession{x: x, c: &c}
	iv, dur := time.Duration(c.Interval)*time.Millisecond, time.Duration(c.For)*time.Millisecond
	ctx, want := loopContext(x, dur, c.Cancel)
	start := time.Now()
	done := make(chan error, 1)
	go func() { done <- lease.PingLoop(ctx, s, iv) }()
	var err error
	x.Within("the ping loop", func() { err = <-done })
	if err != want {
		x.Failf("the ping loop returned %v after %v of %v", err, time.Since(start), dur)
	}
	if d := time.Since(start); d < dur || d > dur+iv {
		x.Failf("the ping loop ran for %v of %v", d, dur)
	}
	last := start
	for i, at := range append(s.times, start.Add(dur)) {
		g := at.Sub(last)
		if g > 2*iv+2*time.Millisecond {
			x.Failf("no ping for %v with an interval of %v (before ping %d)", g, iv, i)
		}
		if i > 0 && i < len(s.times) && g < iv/2 {
			x.Failf("ping %d comes %v after the one before, the interval is %v", i, g, iv)
		}
		last = at
	}
	if len(s.times) > 2 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- L03

type l03Step struct {
	Conn int
	Kind string // good, connect, and malformations
	N    uint32
	Cut  int
	Peer int
	M    leaseMsg
	Raw  []byte
	Mut  []mutByte
}

type mutByte struct {
	At int  `json:"a"`
	V  byte `json:"v"`
}

type l03Case struct {
	C     leaseCfg
	Peers []leaseEP
	Steps []l03Step
}

// l03Bytes gives the bytes of a malformation and whether the agent has to drop the connection.
func l03Bytes(st l03Step, ep leaseEP) (b []byte, must bool) {
	le := binary.LittleEndian
	m := st.M
	m.Host, m.Port = ep.Host, ep.Port
	body := m.bytes()
	switch st.Kind {
	case "type":
		k := byte(st.N)
		if k == ltMessage || k == ltConnect {
			k = 0
		}
		return ltFrame(k, body), true
	case "size": // smaller than the frame header itself
		b = ltFrame(ltMessage, body)
		le.PutUint32(b[4:], st.N%12)
		return b, true
	case "short": // body smaller than a message header
		return ltFrame(ltMessage, body[:int(st.N)%leaseHeaderSize]), true
	case "start": // endpoint out of range
		le.PutUint32(body[188:], uint32(len(body))+st.N%1000)
		return ltFrame(ltMessage, body), true
	case "startfar":
		le.PutUint32(body[188:], ^(st.N % (1 << 20)))
		return ltFrame(ltMessage, body), true
	case "sizebig":
		le.PutUint32(body[192:], uint32(len(body))-le.Uint32(body[188:])+1+st.N%1000)
		return ltFrame(ltMessage, body), true
	case "sizewrap": // start+size wraps around 32 bits
		le.PutUint32(body[192:], -le.Uint32(body[188:])+6+st.N%64)
		return ltFrame(ltMessage, body), true
	case "sizesmall":
		le.PutUint32(body[192:], st.N%6)
		return ltFrame(ltMessage, body), true
	case "huge": // more announced than ever comes
		b = ltFrame(ltMessage, body)
		le.PutUint32(b[4:], ^(st.N % (1 << 24)))
		return b, false
	case "cut":
		b = m.frame()
		return b[:st.Cut%len(b)], true // with the end of the stream
	case "tail": // the stream ends before the last bytes of the frame, the message itself is complete
		b = m.frame()
		le.PutUint32(b[4:], uint32(len(b))+1+st.N%5000)
		return b, true
	case "raw":
		return st.Raw, false
	case "mutate":
		b = m.frame()
		for _, mu := range st.Mut {
			b[mu.At%len(b)] = mu.V
		}
		return b, false
	}
	panic(harnessError("kind " + st.Kind))
}

func runL03(x *X, c l03Case) {
	r := newLeaseRig(x, c.C)
	var ss []lease.Session
	for _, ep := range c.Peers {
		s, _, err := r.establish(ep.addr())
		if err != nil {
			x.Failf("Establish: %v", err)
		}
		ss = append(ss, s)
	}
	var ins [3]*leaseIn
	get := func(i int) *leaseIn {
		if ins[i] == nil || ins[i].gone || ins[i].open {
			ins[i] = r.incoming()
		}
		return ins[i]
	}
	good := func(at string, in *leaseIn, peer int, m leaseMsg) {
		ep := c.Peers[peer]
		m.Type, m.Host, m.Port = leasePingResponse, ep.Host, ep.Port
		time.Sleep(time.Millisecond)
		r.write(in, m.frame())
		synctest.Wait()
		x.Check()
		if in.ended() {
			x.Failf("%s: the connection was dropped after a well-formed message", at)
		}
		if !ss[peer].LastPongTime().Equal(time.Now()) {
			x.Failf("%s: a well-formed ping response was not taken", at)
		}
	}
	bad := false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s on connection %d", k, st.Kind, st.Conn%3)
		in := get(st.Conn % 3)
		synctest.Wait()
		in.greeted(x, at)
		switch st.Kind {
		case "good":
			good(at, in, st.Peer%len(ss), st.M)
		case "connect":
			for i := uint32(0); i < st.N%20; i++ {
				r.write(in, ltFrame(ltConnect, nil))
			}
			synctest.Wait()
			if in.ended() {
				x.Failf("%s: the connection was dropped after connect frames", at)
			}
		default:
			bad = true
			b, must := l03Bytes(st, c.Peers[st.Peer%len(c.Peers)])
			before := totalAlloc()
			peer := ss[st.Peer%len(ss)]
			pongs := peer.LastPongTime()
			time.Sleep(time.Millisecond)
			r.write(in, b)
			synctest.Wait()
			// half of the frames that are known to be bad have to go before the stream ends
			if st.Kind == "cut" || st.Kind == "tail" || !must && st.N%2 == 0 {
				in.sim.closeWrite()
				must = true
			}
			settleShort()
			if a := totalAlloc() - before; a > 8<<20+uint64(64*len(b)) {
				x.Failf("%s: %d bytes made the agent allocate %d", at, len(b), a)
			}
			x.Check()
			if st.Kind != "raw" && st.Kind != "mutate" && !peer.LastPongTime().Equal(pongs) {
				x.Failf("%s: taken as a ping response: % x", at, clipBytes(b, 300))
			}
			if must {
				in.gone = true
				if !in.ended() {
					x.Failf("%s: the connection is still open after % x", at, clipBytes(b, 300))
				}
			} else {
				in.open = true
			}
			// the others go on
			for _, o := range ins {
				if o != nil && !o.gone && !o.open {
					good(at+", other connection", o, st.Peer%len(ss), st.M)
				}
			}
		}
	}
	good("at the end", r.incoming(), 0, leaseMsg{})
	select {
	case err := <-r.wait:
		x.Failf("the agent stopped serving: %v", err)
	default:
	}
	if bad {
		x.NonTrivial()
	}
}

type l03Flood struct {
	N     int
	Chunk int
	Good  int
}

var stackSample = []metrics.Sample{{Name: "/memory/classes/heap/stacks:bytes"}}

func stackBytes() uint64 {
	metrics.Read(stackSample)
	return stackSample[0].Value.Uint64()
}

// runL03Flood sends connect frames in numbers that recursion would not survive unnoticed.
func runL03Flood(x *X, c l03Flood) {
	ep := leaseEP{"10.0.0.2", 1025}
	r := newLeaseRig(x, leaseCfg{Self: leaseEP{"10.0.0.1", 1025}})
	s, _, err := r.establish(ep.addr())
	if err != nil {
		x.Failf("Establish: %v", err)
	}
	in := r.incoming()
	var chunk []byte
	for i := 0; i < c.Chunk; i++ {
		chunk = append(chunk, ltFrame(ltConnect, nil)...)
	}
	before := stackBytes()
	for i := 0; i < c.N; i += c.Chunk {
		r.write(in, chunk)
		synctest.Wait()
		if i%(1+c.Good) == 0 && c.Good > 0 {
			m := leaseMsg{Type: 2, Host: ep.Host, Port: ep.Port}
			r.write(in, m.frame())
		}
	}
	if g := stackBytes(); g > before+16<<20 {
		x.Failf("%d connect frames in a row grew the stacks by %d bytes", c.N, g-before)
	}
	m := leaseMsg{Type: leasePingResponse, Host: ep.Host, Port: ep.Port}
	time.Sleep(time.Millisecond)
	r.write(in, m.frame())
	synctest.Wait()
	if in.ended() || !s.LastPongTime().Equal(time.Now()) {
		x.Failf("after %d connect frames a ping response is not taken (dropped: %v)", c.N, in.ended())
	}
	x.NonTrivial()
}

// ---------------------------------------------------------------- L04

type l04Step struct {
	Op string // est, estfail, estheld, close, find, ping, pong, temp, par, cut
	I  int
	J  int
	N  int
}

type l04Case struct {
	C     leaseCfg
	Peers []leaseEP
	Steps []l04Step
	Held  bool // a dial is under way when the agent is closed
	Again bool
	Dead  bool // the listener has failed for good before
}

func runL04(x *X, c l04Case) {
	r := newLeaseRig(x, c.C)
	type sess struct {
		s      lease.Session
		p      *leasePeer
		ep     int
		closed bool
		cut    bool
	}
	var ss []*sess
	in := r.incoming()
	openOf := func(ep int) (out []*sess) {
		for _, s := range ss {
			if s.ep == ep && !s.closed {
				out = append(out, s)
			}
		}
		return
	}
	find := func(at string) {
		for e, ep := range c.Peers {
			got, ok := r.a.Find(ep.addr())
			open := openOf(e)
			if ok != (len(open) > 0) {
				x.Failf("%s: Find(%s) gives %v with %d sessions open", at, ep.addr(), ok, len(open))
			}
			if !ok {
				continue
			}
			match := false
			for _, s := range open {
				match = match || s.s == got
			}
			if !match {
				x.Failf("%s: Find(%s) gives a session that is not open", at, ep.addr())
			}
		}
	}
	verify := func(at string) {
		settleShort()
		x.Check()
		find(at)
		for i, s := range ss {
			switch e := s.p.ended(); {
			case s.closed && e == nil && !s.cut:
				x.Failf("%s: session %d is closed, its connection is open", at, i)
			case !s.closed && e != nil && !s.cut:
				x.Failf("%s: the connection of session %d was closed: %v", at, i, e)
			}
		}
	}
	established := func(s lease.Session, p *leasePeer, ep int) { ss = append(ss, &sess{s: s, p: p, ep: ep}) }
	again := false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		e := st.I % len(c.Peers)
		addr := c.Peers[e].addr()
		switch st.Op {
		case "est":
			s, p, err := r.establish(addr)
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			again = again || len(openOf(e)) > 0
			established(s, p, e)
		case "estfail":
			r.mu.Lock()
			r.fail = true
			r.mu.Unlock()
			if _, err := r.a.Establish(addr); err == nil {
				x.Failf("%s: established a session although dialing failed", at)
			}
			r.mu.Lock()
			r.fail = false
			r.mu.Unlock()
		case "close":
			if len(ss) == 0 {
				continue
			}
			s := ss[st.J%len(ss)]
			x.Within("closing a session", func() { s.s.Close() })
			s.closed = true
		case "cut":
			if len(ss) == 0 {
				continue
			}
			s := ss[st.J%len(ss)]
			s.cut = true
			s.p.sim.reset()
		case "ping":
			// every open session to the address works
			var done []chan error
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			x.Cleanup(cancel)
			for _, s := range openOf(e) {
				if s.cut {
					continue
				}
				ch := make(chan error, 1)
				done = append(done, ch)
				go func() { ch <- s.s.Ping(ctx) }()
			}
			settleShort()
			m := leaseMsg{Type: leasePingResponse, Host: c.Peers[e].Host, Port: c.Peers[e].Port, Remote: int64(k)}
			r.write(in, m.frame())
			settleShort()
			for i, ch := range done {
				select {
				case err := <-ch:
					if err != nil {
						x.Failf("%s: ping on open session %d: %v", at, i, err)
					}
				default:
					x.Failf("%s: ping on open session %d was answered and has not finished", at, i)
				}
			}
			for i, s := range ss {
				if s.closed {
					if err := s.s.Ping(ctx); err == nil {
						x.Failf("%s: ping on closed session %d succeeded", at, i)
					}
				}
			}
		case "temp":
			n := 1 + st.N%3
			if st.N == 5 {
				n = []int{40, 150, 400, 1500}[st.J%4]
			}
			for i := 0; i < n; i++ {
				r.ln.push(acceptItem{err: &tempError{st.J + i/3}})
			}
			o := r.incoming()
			settle() // accepting may pause
			o.greeted(x, at)
		case "idle":
			time.Sleep(time.Duration(st.N*11+1) * time.Hour)
		case "par":
			// several callers at once: establish to addresses, close sessions
			type res struct {
				s lease.Session
				e int
			}
			var mu sync.Mutex
			var out []res
			var wg sync.WaitGroup
			r.mu.Lock()
			n0 := len(r.peers)
			r.mu.Unlock()
			for i := 0; i < 2+st.N%4; i++ {
				pe := (st.I + i*st.J) % len(c.Peers)
				wg.Add(1)
				go func() {
					defer wg.Done()
					s, err := r.a.Establish(c.Peers[pe].addr())
					if err != nil {
						x.Report("%s: establish: %v", at, err)
						return
					}
					mu.Lock()
					out = append(out, res{s, pe})
					mu.Unlock()
					r.a.Find(c.Peers[pe].addr())
				}()
			}
			if len(ss) > 0 {
				s := ss[st.J%len(ss)]
				wg.Add(2)
				for i := 0; i < 2; i++ {
					go func() { defer wg.Done(); s.s.Close() }()
				}
				s.closed = true
			}
			x.Within(at, wg.Wait)
			x.Check()
			r.mu.Lock()
			peers := append([]*leasePeer(nil), r.peers[n0:]...)
			r.mu.Unlock()
			// which connection belongs to which session is told by closing them, later: use one ping each
			for _, o := range out {
				ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
				before := map[*leasePeer]int{}
				for _, p := range peers {
					before[p] = len(p.all())
				}
				if err := o.s.Ping(ctx); err == nil {
					x.Failf("%s: a ping nobody answered succeeded", at)
				}
				cancel()
				synctest.Wait()
				var own *leasePeer
				for _, p := range peers {
					if len(p.all()) > before[p] && p.addr == c.Peers[o.e].addr() {
						own = p
					}
				}
				if own == nil {
					x.Failf("%s: a session's ping does not arrive at its address", at)
				}
				established(o.s, own, o.e)
			}
		}
		verify(at)
	}
	// closing the agent
	var held chan error
	var release chan struct{}
	if c.Held {
		release = make(chan struct{})
		r.mu.Lock()
		r.hold = release
		r.mu.Unlock()
		held = make(chan error, 1)
		go func() {
			_, err := r.a.Establish(c.Peers[0].addr())
			held <- err
		}()
		synctest.Wait()
		x.Cleanup(func() {
			select {
			case <-release:
			default:
				close(release)
			}
		})
	}
	pend := make(chan error, 1)
	var waiting *sess
	for _, s := range ss {
		if !s.closed && !s.cut {
			waiting = s
			go func() { pend <- s.s.Ping(context.Background()) }()
			break
		}
	}
	synctest.Wait()
	if c.Dead {
		r.ln.push(acceptItem{err: errors.New("accept: out of order")})
		settleShort()
		select {
		case err := <-r.wait:
			if err == nil {
				x.Failf("Wait ends without an error although the listener failed")
			}
			r.wait <- err
		default:
			x.Failf("the listener failed and Wait has not returned")
		}
		verify("after the listener failed")
	}
	x.Within("closing the agent", func() { r.a.Close() })
	for _, s := range ss {
		s.closed = true
	}
	settleShort()
	select {
	case <-r.wait:
	default:
		x.Failf("the agent is closed and Wait has not returned")
	}
	if !r.ln.isClosed() {
		x.Failf("the agent is closed and its listener is open")
	}
	verify("after closing the agent")
	if waiting != nil {
		select {
		case err := <-pend:
			if err == nil {
				x.Failf("a ping without a response succeeded when the agent was closed")
			}
		default:
			x.Failf("the agent is closed and a ping still waits")
		}
	}
	if c.Held {
		r.mu.Lock()
		n0 := len(r.peers)
		r.hold = nil
		r.mu.Unlock()
		close(release)
		var err error
		x.Within("establishing during the close", func() { err = <-held })
		if err == nil {
			x.Failf("a session was established although the agent was closed meanwhile")
		}
		settleShort()
		r.mu.Lock()
		late := append([]*leasePeer(nil), r.peers[n0:]...)
		r.mu.Unlock()
		for _, p := range late {
			if p.ended() == nil {
				x.Failf("the connection of a session that was not established is left open")
			}
		}
	}
	if c.Again {
		x.Within("closing the agent again", func() { r.a.Close() })
	}
	r.mu.Lock()
	n0 := len(r.peers)
	r.mu.Unlock()
	for _, ep := range c.Peers {
		var err error
		x.Within("Establish", func() { _, err = r.a.Establish(ep.addr()) })
		if err == nil {
			x.Failf("a session was established after the agent was closed")
		}
	}
	settleShort()
	r.mu.Lock()
	late := append([]*leasePeer(nil), r.peers[n0:]...)
	r.mu.Unlock()
	for _, p := range late {
		if p.ended() == nil {
			x.Failf("an establishment after the close left a connection open")
		}
	}
	find("at the end")
	for i, s := range ss {
		var err error
		x.Within("Ping", func() { err = s.s.Ping(context.Background()) })
		if err == nil {
			x.Failf("session %d of a closed agent pings with success", i)
		}
		x.Within("closing a session again", func() { s.s.Close() })
	}
	if again || c.Held {
		x.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "L01",
		Parts: []Part{bubble("pings", 16000, 320000, "pings ran concurrently, or after an instance was learned", func(t *rapid.T) l01Case {
			c := l01Case{C: genLeaseCfg(t), Peers: genLeaseEPs(t, 1, 3), Dup: pick(t, "dup", []int{0, 0, 1})}
			for i, n := 0, intn(t, "steps", 1, 8); i < n; i++ {
				c.Steps = append(c.Steps, l01Step{Op: pick(t, "op", []string{"ping", "burst", "pong", "ping", "other", "accept"}), I: intn(t, "i", 0, 3), N: pick(t, "n", []int{1, 2, 5, 12}), M: genLeaseMsg(t)})
			}
			return c
		}, runL01)},
		Assumptions: []string{"the address family of a host that is not an IPv4 address is not judged", "lease durations are whole milliseconds"},
	})
	register(&Prop{
		ID: "L02",
		Parts: []Part{
			bubble("history", 12500, 250000, "a ping was answered", func(t *rapid.T) l02Case {
				c := l02Case{C: genLeaseCfg(t), Peers: genLeaseEPs(t, 1, 3), Dup: pick(t, "dup", []int{0, 0, 1}), Ins: intn(t, "ins", 1, 2)}
				for i, n := 0, intn(t, "steps", 1, 16); i < n; i++ {
					c.Steps = append(c.Steps, l02Step{Op: pick(t, "op", []string{"ping", "pong", "ping", "pong", "near", "other", "cancel", "eager", "sleep", "ping", "stall", "unstall", "cut", "close", "closeagent", "pair", "hiccup", "long"}), I: intn(t, "i", 0, 3), J: intn(t, "j", 0, 5), N: intn(t, "n", 0, 20), M: genLeaseMsg(t), Fast: coin(t, "fast")})
				}
				return c
			}, runL02),
			bubble("loop", 2500, 50000, "at least three pings", func(t *rapid.T) l02Loop {
				return l02Loop{C: genLeaseCfg(t), Peer: genLeaseEP(t), Interval: intn(t, "iv", 10, 5000), For: intn(t, "for", 1, 60000), Pongs: rapid.SliceOfN(rapid.Bool(), 0, 6).Draw(t, "pongs"), Remote: genInt64(t), Cut: pick(t, "cut", []int{0, 0, 1, 2, 5}), Cancel: coin(t, "cancel")}
			}, runL02Loop),
			bubble("script", 2500, 50000, "at least three pings", func(t *rapid.T) l02Script {
				c := l02Script{Cancel: coin(t, "cancel"), Interval: intn(t, "iv", 10, 5000), For: intn(t, "for", 1, 60000)}
				for i, n := 0, intn(t, "pings", 1, 5); i < n; i++ {
					c.Pings = append(c.Pings, l02Ping{pick(t, "kind", []string{"ok", "err", "net", "ctx", "cancelled"}), pick(t, "ms", []int{0, 0, 1, 10, 1000, 10000})})
				}
				return c
			}, runL02Script),
		},
		Assumptions: []string{"a response that comes before the request could be written may or may not count", "requests lost with a connection that breaks after they were written may run until their context ends"},
	})
	register(&Prop{
		ID: "L03", MemBound: true,
		Parts: []Part{
			bubble("malformed", 15000, 300000, "malformed bytes arrived", func(t *rapid.T) l03Case {
				c := l03Case{C: genLeaseCfg(t), Peers: genLeaseEPs(t, 1, 2)}
				for i, n := 0, intn(t, "steps", 1, 8); i < n; i++ {
					st := l03Step{Conn: intn(t, "conn", 0, 2), Kind: pick(t, "kind", []string{"good", "good", "connect", "type", "size", "short", "start", "startfar", "sizebig", "sizewrap", "sizesmall", "huge", "cut", "tail", "raw", "mutate", "mutate"}), N: uint32(genBits(t, 32, false)), Cut: intn(t, "cut", 1, 400), Peer: intn(t, "peer", 0, 1), M: genLeaseMsg(t)}
					if st.Kind == "raw" {
						st.Raw = genBytes(t, "raw", 0, 600)
						if coin(t, "typed") && len(st.Raw) > 0 {
							st.Raw[0] = ltMessage
						}
					}
					if st.Kind == "mutate" {
						for j, k := 0, intn(t, "muts", 1, 4); j < k; j++ {
							st.Mut = append(st.Mut, mutByte{pick(t, "at", []int{0, 4, 5, 6, 7, 16, 20, 196, 197, 198, 199, 200, 201, 203, 204, 205, 207, intn(t, "any", 0, 400)}), byte(genBits(t, 8, false))})
						}
					}
					c.Steps = append(c.Steps, st)
				}
				return c
			}, runL03),
			bubble("flood", 16, 200, "always: many connect frames", func(t *rapid.T) l03Flood {
				return l03Flood{N: intn(t, "n", 100000, 300000), Chunk: pick(t, "chunk", []int{1000, 10000, 100000}), Good: pick(t, "good", []int{0, 0, 100})}
			}, runL03Flood),
		},
		Assumptions: []string{"malformed means: unknown frame type, sizes below the headers, an endpoint outside the message or below its smallest size; other mutations only have to be harmless"},
	})
	register(&Prop{
		ID: "L04",
		Parts: []Part{bubble("history", 24000, 480000, "an address was established again while open, or the agent closed during an establishment", func(t *rapid.T) l04Case {
			c := l04Case{C: genLeaseCfg(t), Peers: genLeaseEPs(t, 1, 3), Held: oneIn(t, "held", 3), Again: coin(t, "again"), Dead: oneIn(t, "dead", 4)}
			for i, n := 0, intn(t, "steps", 0, 12); i < n; i++ {
				c.Steps = append(c.Steps, l04Step{Op: pick(t, "op", []string{"est", "est", "est", "close", "close", "ping", "ping", "estfail", "temp", "par", "cut", "idle"}), I: intn(t, "i", 0, 2), J: intn(t, "j", 0, 5), N: intn(t, "n", 0, 5)})
			}
			return c
		}, runL04)},
		Assumptions: []string{"with several open sessions to an address, finding may give any of them"},
	})
}
