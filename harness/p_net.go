package harness

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// The properties of what the library opens itself, over the loopback network. Real time: what has to happen has netWait
// for it, and nothing is concluded from what has not happened yet.

const netWait = 20 * time.Second

var netCount atomic.Int64

// loopback is an address nobody else uses: each process and case has its own part of 127/8.
func loopback() string {
	n := netCount.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, 1+n/250%250, 1+n%250)
}

var has6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})

// soon waits for ch.
func soon[T any](x *X, what string, ch <-chan T) (v T) {
	select {
	case v = <-ch:
	case <-time.After(netWait):
		x.Failf("%s: nothing in %v", what, netWait)
	}
	return
}

func async[T any](f func() T) <-chan T {
	ch := make(chan T, 1)
	go func() { ch <- f() }()
	return ch
}

// drained tells how what comes over c ends.
func drained(c net.Conn) <-chan error {
	return async(func() error {
		_, err := io.Copy(io.Discard, c)
		if err == nil {
			err = io.EOF
		}
		return err
	})
}

// ---------------------------------------------------------------- T16

type t16Client struct {
	Reqs int
	Size int
	End  int // 0 stays, 1 closes itself, 2 is closed by the server
}

type t16Case struct {
	Cfg     crcCfg
	Secure  bool
	TLS     tlsSpec
	V6      bool // where there is IPv6
	Clients []t16Client
	Pushes  int
	Again   bool
	Idle    bool // nothing happens for a while
}

func t16Body(i, k, size int) []byte {
	b := make([]byte, 16+size)
	copy(b, fmt.Sprintf("%d/%d/", i, k))
	for j := 16; j < len(b); j++ {
		b[j] = byte(splitmix(uint64(i*1000+k), uint64(j/64)) >> (j % 57))
	}
	return b
}

type t16Dial struct {
	c   *transport.Client
	err error
}

func t16Connect(x *X, addr string, cfg transport.ClientConfig) <-chan t16Dial {
	return async(func() t16Dial {
		c, err := transport.DialTCP(addr, cfg)
		return t16Dial{c, err}
	})
}

func runT16(x *X, c t16Case) {
	cfg, ccfg := c.Cfg.lib(), peerCfg(c.Cfg).lib()
	if c.Secure {
		cfg.TLS, ccfg.TLS = c.TLS.server(), c.TLS.client()
	}
	host := loopback()
	if c.V6 && has6() { // has one loopback address only, so ports may get other users
		host, c.Again = "::1", false
	}
	var mu sync.Mutex
	conns := map[int]transport.Conn{}
	scfg := transport.ServerConfig{Config: cfg, MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		var i, k int
		if _, err := fmt.Sscanf(string(m.Body[:16]), "%d/%d/", &i, &k); err != nil {
			x.Report("the server got %d bytes starting with % x", len(m.Body), clipBytes(m.Body, 16))
			return
		}
		mu.Lock()
		conns[i] = conn
		mu.Unlock()
		r := &transport.Message{Body: append([]byte("re:"), m.Body...)}
		r.Headers.RelatesTo = m.Headers.Id
		r.Headers.Actor = 5
		conn.SendOneWay(r)
	}}
	if _, err := transport.ListenTCP("127.0.0.1:99999", scfg); err == nil {
		x.Failf("listening at a port that does not exist succeeded")
	}
	srv, err := transport.ListenTCP(net.JoinHostPort(host, "0"), scfg)
	if err != nil {
		x.Failf("ListenTCP: %v", err)
	}
	x.Cleanup(func() { srv.Close() })
	addr := srv.Addr().String()
	if h, p, err := net.SplitHostPort(addr); err != nil || h != host || p == "0" {
		x.Failf("listening at %s:0, the address is %s", host, addr)
	}
	serve := async(srv.Serve)
	if s, err := transport.ListenTCP(addr, scfg); err == nil {
		s.Close()
		x.Failf("two servers listen at %s", addr)
	}
	type client struct {
		c    *transport.Client
		end  <-chan error
		got  chan []byte
		want int
	}
	var cs []*client
	for i, cl := range c.Clients {
		n := &client{got: make(chan []byte, 100)}
		d := soon(x, "dialing", t16Connect(x, addr, transport.ClientConfig{Config: ccfg, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			n.got <- append([]byte(nil), m.Body...)
		}}))
		if d.err != nil {
			x.Failf("dialing %s: %v", addr, d.err)
		}
		n.c = d.c
		n.end = async(d.c.Wait)
		x.Cleanup(func() { d.c.Close() })
		cs = append(cs, n)
		var wg sync.WaitGroup
		for k := 0; k < cl.Reqs; k++ {
			body := t16Body(i, k, cl.Size*(1+k%3))
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), netWait)
				defer cancel()
				m := &transport.Message{Body: body}
				m.Headers.Actor = 5
				m.Headers.ExpectsReply = true
				dress(&m.Headers, uint64(k), uint64(i))
				r, err := n.c.RequestReply(ctx, m)
				if err != nil {
					x.Report("request %d of client %d: %v", k, i, err)
				} else if want := "re:" + string(body); string(r.Body) != want {
					x.Report("request %d of client %d with %d bytes got %d bytes starting with % x", k, i, len(body), len(r.Body), clipBytes(r.Body, 30))
				}
			}()
		}
		soon(x, "requests", async(func() int { wg.Wait(); return 0 }))
		x.Check()
	}
	if c.Idle {
		for i, n := range cs {
			select {
			case err := <-n.end:
				x.Failf("client %d ended by itself: %v", i, err)
			default:
			}
		}
		time.Sleep(idleTime())
	}
	// the server's side of the same connections
	for i, n := range cs {
		mu.Lock()
		conn := conns[i]
		mu.Unlock()
		if conn == nil {
			continue
		}
		for k := 0; k < c.Pushes; k++ {
			m := &transport.Message{Body: t16Body(i, 500+k, 40)}
			m.Headers.Actor = 7
			if err := conn.SendOneWay(m); err != nil {
				x.Failf("sending to client %d: %v", i, err)
			}
			if got := soon(x, "message to a client", n.got); string(got) != string(t16Body(i, 500+k, 40)) {
				x.Failf("message %d to client %d arrived as % x", k, i, clipBytes(got, 50))
			}
			x.NonTrivial()
		}
		ctx, cancel := context.WithTimeout(context.Background(), netWait)
		x.Cleanup(cancel)
		if _, err := n.c.Ping(ctx); err != nil {
			x.Failf("client %d pings: %v", i, err)
		}
		if _, err := conn.Ping(ctx); err != nil {
			x.Failf("the server pings client %d: %v", i, err)
		}
	}
	for i, n := range cs {
		mu.Lock()
		conn := conns[i]
		mu.Unlock()
		switch c.Clients[i].End {
		case 1:
			n.c.Close()
		case 2:
			if conn == nil {
				continue
			}
			conn.Close()
		default:
			continue
		}
		if err := soon(x, fmt.Sprintf("end of client %d", i), n.end); err == nil {
			x.Failf("client %d ended without an error", i)
		}
		ctx, cancel := context.WithTimeout(context.Background(), netWait)
		x.Cleanup(cancel)
		m := &transport.Message{Body: t16Body(i, 900, 0)}
		if _, err := n.c.RequestReply(ctx, m); err == nil || errors.Is(err, context.DeadlineExceeded) {
			x.Failf("a request on the ended connection of client %d: %v", i, err)
		}
		if conn != nil { // the server learns of it, too
			if _, err := conn.RequestReply(ctx, m); err == nil || errors.Is(err, context.DeadlineExceeded) {
				x.Failf("a request of the server on the ended connection of client %d: %v", i, err)
			}
		}
	}
	// others are not concerned
	for i, n := range cs {
		if c.Clients[i].End != 0 {
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), netWait)
		x.Cleanup(cancel)
		m := &transport.Message{Body: t16Body(i, 901, 3)}
		m.Headers.ExpectsReply = true
		if r, err := n.c.RequestReply(ctx, m); err != nil || string(r.Body) != "re:"+string(m.Body.([]byte)) {
			x.Failf("client %d, after others ended: %v", i, err)
		}
	}
	srv.Close()
	if err := soon(x, "end of serving", serve); err == nil {
		x.Failf("serving ended without an error")
	}
	if host == "::1" {
		return
	}
	if d := soon(x, "dialing", t16Connect(x, addr, transport.ClientConfig{Config: ccfg})); d.err == nil {
		x.Failf("nobody listens at %s, dialing succeeded", addr)
	}
	if c.Again {
		s, err := transport.ListenTCP(addr, scfg)
		if err != nil {
			x.Failf("listening at the address of a closed server: %v", err)
		}
		x.Cleanup(func() { s.Close() })
		go s.Serve()
		d := soon(x, "dialing", t16Connect(x, addr, transport.ClientConfig{Config: ccfg}))
		if d.err != nil {
			x.Failf("dialing the new server: %v", d.err)
		}
		x.Cleanup(func() { d.c.Close() })
		go d.c.Wait()
		ctx, cancel := context.WithTimeout(context.Background(), netWait)
		x.Cleanup(cancel)
		if r, err := d.c.RequestReply(ctx, &transport.Message{Body: t16Body(77, 1, 5)}); err != nil || string(r.Body) != "re:"+string(t16Body(77, 1, 5)) {
			x.Failf("a request to the new server: %v", err)
		}
	}
	x.Check()
}

type t16Fail struct {
	How  string // close, garbage, plain, untrusted, frame
	Raw  []byte
	Late bool
}

// A dialed server that can not be spoken to securely.
func runT16Fail(x *X, c t16Fail) {
	ln, err := net.Listen("tcp", net.JoinHostPort(loopback(), "0"))
	if err != nil {
		panic(harnessError(err.Error()))
	}
	x.Cleanup(func() { ln.Close() })
	ended := make(chan error, 1)
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			return
		}
		x.Cleanup(func() { conn.Close() })
		if c.Late && c.How != "untrusted" {
			if _, _, err := readRawFrame(conn); err != nil {
				x.Report("the client's first frame: %v", err)
			}
		}
		switch c.How {
		case "close":
			conn.Close()
			ended <- io.EOF
			return
		case "garbage":
			conn.Write(append([]byte{5, 0, 0, 0, 1}, c.Raw...))
		case "plain": // what a server without security says
			conn.Write((&msgSpec{Actor: actorTransport, Action: "x", Body: append([]byte{200}, c.Raw...)}).frame(0, true, false))
		case "frame":
			conn.Write((&msgSpec{Actor: actorSecurity, Body: append([]byte{22, 3, 3, 0, 4, 99, 0, 0, 0}, c.Raw...)}).frame(2, false, false))
		case "untrusted":
			tlsMaterial()
			refTLS(x, conn, &tls.Config{Certificates: []tls.Certificate{tlsForged}}, true)
		}
		ended <- <-drained(conn)
	}()
	cfg := transport.ClientConfig{}
	cfg.TLS = tlsSpec{}.client()
	d := soon(x, "dialing", t16Connect(x, ln.Addr().String(), cfg))
	if d.err == nil {
		x.Failf("dialing succeeded (%s)", c.How)
	}
	if d.c != nil {
		x.Failf("a client besides the error %v", d.err)
	}
	soon(x, fmt.Sprintf("dialing failed (%s: %v), the end of its connection", c.How, d.err), ended)
	if c.How != "close" {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- L05

type l05Sess struct {
	Peer  int
	Pings int
	Fail  int // afterwards: 0 nothing, 1 the peer ends the connection, 2 the session is closed
}

type l05Case struct {
	TLS   bool
	Peers int
	Sess  []l05Sess
	App   string
	Again bool
	V6    bool
	Idle  bool // nothing happens for a while
}

// l05Peer answers pings: it takes sessions at its own address and dials the agent to answer.
type l05Peer struct {
	ln    net.Listener
	mu    sync.Mutex
	conns []net.Conn
	in    net.Conn
	sess  int
}

func runL05(x *X, c l05Case) {
	tlsMaterial()
	cfg := lease.AgentConfig{AppId: c.App}
	cfg.SetDefault()
	if c.TLS {
		cfg.TLS = &tls.Config{Certificates: []tls.Certificate{tlsServer}, InsecureSkipVerify: true}
	}
	host := loopback()
	if c.V6 && has6() {
		host, c.Again = "::1", false
	}
	a, err := lease.NewTcpListeningAgent(cfg, net.JoinHostPort(host, "0"))
	if err != nil {
		x.Failf("NewTcpListeningAgent: %v", err)
	}
	x.Cleanup(func() { a.Close() })
	addr := a.Addr().String()
	_, port, err := net.SplitHostPort(addr)
	if h, _, _ := net.SplitHostPort(addr); err != nil || h != host || port == "0" {
		x.Failf("listening at %s:0, the address is %s", host, addr)
	}
	if o, err := lease.NewTcpListeningAgent(cfg, addr); err == nil {
		o.Close()
		x.Failf("two agents listen at %s", addr)
	}
	wait := async(a.Wait)
	if s, err := a.Establish(net.JoinHostPort(loopback(), "1")); err == nil {
		s.Close()
		x.Failf("a session was established with nobody")
	}
	var peers []*l05Peer
	for i := 0; i < c.Peers; i++ {
		p := &l05Peer{}
		if p.ln, err = net.Listen("tcp", net.JoinHostPort(loopback(), "0")); err != nil {
			panic(harnessError(err.Error()))
		}
		x.Cleanup(func() { p.ln.Close() })
		// the way back
		in, err := lease.TcpDialer(addr)
		if err != nil {
			x.Failf("dialing the agent at %s: %v", addr, err)
		}
		x.Cleanup(func() { in.Close() })
		if c.TLS {
			in = tls.Client(in, &tls.Config{InsecureSkipVerify: true})
		}
		type greeting struct {
			kind byte
			body []byte
			err  error
		}
		g := soon(x, "the agent's greeting", async(func() (g greeting) { g.kind, g.body, g.err = readLtFrame(in); return }))
		if g.err != nil || g.kind != ltConnect {
			x.Failf("the agent greets with a frame of type %d (% x): %v", g.kind, clipBytes(g.body, 50), g.err)
		}
		p.in = in
		phost, pport, _ := net.SplitHostPort(p.ln.Addr().String())
		var pp uint16
		fmt.Sscan(pport, &pp)
		go func() {
			for {
				conn, err := p.ln.Accept()
				if err != nil {
					return
				}
				p.mu.Lock()
				p.conns = append(p.conns, conn)
				p.mu.Unlock()
				go func() {
					rc := conn
					if c.TLS {
						rc = tls.Server(conn, cfg.TLS)
					}
					for {
						kind, body, err := readLtFrame(rc)
						if err != nil {
							if isOwnError(err) {
								x.Report("%v", err)
							}
							return
						}
						pg, err := parseLeasePing(body)
						if kind != ltMessage || err != nil {
							x.Report("the agent wrote a bad ping: type %d, %v (% x)", kind, err, clipBytes(body, 400))
							return
						}
						if got := net.JoinHostPort(pg.host, fmt.Sprint(pg.port)); got != addr {
							x.Report("the agent at %s wants its answers at %s", addr, got)
						}
						m := leaseMsg{Type: leasePingResponse, Host: phost, Port: pp, Remote: 7, Inst: pg.inst}
						in.Write(m.frame())
					}
				}()
			}
		}()
		peers = append(peers, p)
	}
	ping := func(s lease.Session) error {
		ctx, cancel := context.WithTimeout(context.Background(), netWait)
		x.Cleanup(cancel)
		return soon(x, "a ping", async(func() error { return s.Ping(ctx) }))
	}
	var open []lease.Session
	for i, sp := range c.Sess {
		p := peers[sp.Peer%len(peers)]
		paddr := p.ln.Addr().String()
		s, err := a.Establish(paddr)
		if err != nil {
			x.Failf("session %d to %s: %v", i, paddr, err)
		}
		n := p.sess
		p.sess++
		count := 0
		for end := time.Now().Add(netWait); count <= n && time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
			p.mu.Lock()
			count = len(p.conns)
			p.mu.Unlock()
		}
		if count != p.sess {
			x.Failf("%d sessions with %s made %d connections", p.sess, paddr, count)
		}
		for k := 0; k < sp.Pings; k++ {
			before := time.Now()
			if err := ping(s); err != nil {
				x.Failf("ping %d of session %d: %v", k, i, err)
			}
			if s.LastPongTime().Before(before) {
				x.Failf("ping %d of session %d has succeeded, the last answer was %v before", k, i, before.Sub(s.LastPongTime()))
			}
			x.NonTrivial()
		}
		x.Check()
		switch sp.Fail {
		case 1:
			if c.TLS && sp.Pings == 0 {
				// nothing was written yet
				open = append(open, s)
				continue
			}
			p.mu.Lock()
			p.conns[n].(*net.TCPConn).SetLinger(0)
			p.conns[n].Close()
			p.mu.Unlock()
			// the reset arrives some time: pings fail from then on, one way or the other
			failed := false
			for end := time.Now().Add(netWait); !failed && time.Now().Before(end); time.Sleep(time.Millisecond) {
				ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
				err := soon(x, "a ping", async(func() error { return s.Ping(ctx) }))
				cancel()
				failed = err != nil && !errors.Is(err, context.DeadlineExceeded)
			}
			if !failed {
				x.Failf("session %d: pings never fail although the peer is gone", i)
			}
			s.Close()
		case 2:
			s.Close()
			if err := ping(s); err == nil || errors.Is(err, context.DeadlineExceeded) {
				x.Failf("session %d is closed, its ping ends with %v", i, err)
			}
		default:
			open = append(open, s)
		}
	}
	if c.Idle {
		time.Sleep(idleTime())
	}
	for i, s := range open {
		if err := ping(s); err != nil {
			x.Failf("open session %d: %v", i, err)
		}
	}
	a.Close()
	if err := soon(x, "end of the agent", wait); err == nil {
		x.Failf("the agent ended without an error")
	}
	for i, s := range open {
		if err := ping(s); err == nil || errors.Is(err, context.DeadlineExceeded) {
			x.Failf("open session %d of the closed agent: %v", i, err)
		}
	}
	if conn, err := lease.TcpDialer(addr); err == nil && host != "::1" {
		conn.Close()
		x.Failf("the agent is closed, %s can be dialed", addr)
	}
	if c.Again {
		b, err := lease.NewTcpListeningAgent(cfg, addr)
		if err != nil {
			x.Failf("listening at the address of a closed agent: %v", err)
		}
		b.Close()
	}
	x.Check()
}

// ---------------------------------------------------------------- F13

type f13Step struct {
	I, J  int
	Route bool
	Idle  bool // nothing happens for a while before
	Body  []byte
}

type f13Case struct {
	Secure bool
	TLS    tlsSpec
	IDs    []id128
	Steps  []f13Step
	Odd    bool // one more node that trusts nobody
	Greet  bool // somebody dials the lease agents
	First  int  // what else is closed before a node is: 1 its server, 2 its lease agent, 3 itself already
}

type f13Node struct {
	n     *federation.SiteNode
	srv   *transport.Server
	la    *lease.Agent
	id    id128
	inst  uint64
	addr  string
	laddr string
	serve <-chan error
	knows map[int]bool
}

func runF13(x *X, c f13Case) {
	start := func(i int, seeds []federation.SeedNodeInfo, ctls *tls.Config) *f13Node {
		nd := &f13Node{id: c.IDs[i], inst: uint64(100 + i), knows: map[int]bool{}}
		scfg := transport.ServerConfig{}
		if c.Secure {
			scfg.TLS = c.TLS.server()
		}
		host := loopback()
		srv, err := transport.ListenTCP(net.JoinHostPort(host, "0"), scfg)
		if err != nil {
			x.Failf("ListenTCP: %v", err)
		}
		la, err := lease.NewTcpListeningAgent(lease.AgentConfig{}, net.JoinHostPort(host, "0"))
		if err != nil {
			x.Failf("NewTcpListeningAgent: %v", err)
		}
		nd.srv, nd.la = srv, la
		nd.addr, nd.laddr = srv.Addr().String(), la.Addr().String()
		if len(seeds) == 0 {
			seeds = []federation.SeedNodeInfo{{Id: nd.id.node(), Address: nd.addr}}
		}
		nd.n, err = federation.NewSiteNode(federation.SiteNodeConfig{TransportServer: srv, LeaseAgent: la, ClientTLS: ctls, SeedNodes: seeds,
			Instance: federation.NodeInstance{Id: nd.id.node(), InstanceId: nd.inst}})
		if err != nil {
			x.Failf("NewSiteNode: %v", err)
		}
		x.Cleanup(func() { nd.n.Close() })
		nd.serve = async(nd.n.Serve)
		return nd
	}
	ctls := func() *tls.Config {
		if c.Secure {
			return c.TLS.client()
		}
		return nil
	}
	var nodes []*f13Node
	var seeds []federation.SeedNodeInfo
	for i := range c.IDs {
		nodes = append(nodes, start(i, seeds, ctls()))
		if i == 0 {
			seeds = append(seeds, federation.SeedNodeInfo{Id: nodes[0].id.node(), Address: nodes[0].addr})
		}
	}
	find := func(nd *f13Node, id id128) *federation.PartnerNodeInfo {
		l := nd.n.KnownPartnerNodes(func(p federation.PartnerNodeInfo) bool { return p.Instance.Id == id.node() })
		if len(l) == 1 {
			return &l[0]
		}
		if len(l) > 1 {
			x.Failf("%d partners with the id %v", len(l), id.node())
		}
		return nil
	}
	var routes []func()
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d", k)
		i, j := st.I%len(nodes), st.J%len(nodes)
		if i == j {
			continue
		}
		if st.Idle {
			time.Sleep(idleTime())
		}
		from, to := nodes[i], nodes[j]
		can := j == 0 || from.knows[j]
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		m := &transport.Message{Body: append([]byte{}, st.Body...)}
		m.Headers.Actor, m.Headers.Action = 6, "x"
		if st.Route {
			if !can {
				continue // goes to another one
			}
			done := async(func() error { _, err := from.n.Route(ctx, to.id.node(), m); return err })
			routes = append(routes, func() {
				cancel()
				if err := soon(x, "route", done); !errors.Is(err, context.Canceled) {
					x.Failf("%s: a cancelled request ends with %v", at, err)
				}
			})
		} else {
			err := soon(x, at, async(func() error { return from.n.SendOneWay(to.id.node(), m) }))
			if can != (err == nil) {
				x.Failf("%s: node %d to node %d, known %v: %v", at, i, j, can, err)
			}
			if !can {
				continue
			}
		}
		// it arrives, and tells of who sent it and whom that one knows
		told := map[int]bool{i: true}
		for n := range from.knows {
			told[n] = true
		}
		for n := range told {
			if n == j {
				continue
			}
			var p *federation.PartnerNodeInfo
			for end := time.Now().Add(netWait); time.Now().Before(end); time.Sleep(50 * time.Microsecond) {
				if p = find(to, nodes[n].id); p != nil && p.Instance.InstanceId != 0 {
					break
				}
			}
			if p == nil || p.Instance.InstanceId != nodes[n].inst || p.Address != nodes[n].addr || p.LeaseAgentAddress != nodes[n].laddr {
				x.Failf("%s: node %d was told of node %d (%v instance %d at %s, %s) and knows %+v", at, j, n, nodes[n].id.node(), nodes[n].inst, nodes[n].addr, nodes[n].laddr, p)
			}
			to.knows[n] = true
			x.NonTrivial()
		}
	}
	for _, f := range routes {
		f()
	}
	if c.Odd && c.Secure && !c.TLS.Skip {
		c.IDs = append(c.IDs, id128{Hi: 1 << 63, Lo: uint64(len(c.IDs)) + 7777})
		tlsMaterial()
		odd := start(len(c.IDs)-1, seeds, &tls.Config{RootCAs: tlsOtherCA, ServerName: "server", Certificates: []tls.Certificate{tlsClient}})
		for k := 0; k < 2; k++ {
			if err := soon(x, "the odd node", async(func() error { return odd.n.SendOneWay(nodes[0].id.node(), &transport.Message{}) })); err == nil {
				x.Failf("a node that does not trust another one talks to it")
			}
		}
		if p := find(nodes[0], odd.id); p != nil {
			x.Failf("node 0 learned of a node that does not trust it: %+v", *p)
		}
	}
	for i, nd := range nodes {
		if !c.Greet {
			break
		}
		conn, err := net.Dial("tcp", nd.laddr)
		if err != nil {
			x.Failf("dialing the lease agent of node %d: %v", i, err)
		}
		conn.SetDeadline(time.Now().Add(netWait))
		kind, _, err := readLtFrame(conn)
		conn.Close()
		if err != nil || kind != ltConnect {
			x.Failf("the lease agent of serving node %d greets with frame %d, error %v", i, kind, err)
		}
	}
	for i, nd := range nodes {
		switch c.First {
		case 1:
			nd.srv.Close()
		case 2:
			nd.la.Close()
		case 3:
			nd.n.Close()
		}
		nd.n.Close()
		if err := soon(x, "end of a node", nd.serve); err == nil {
			x.Failf("node %d ended without an error", i)
		}
		for _, a := range []string{nd.addr, nd.laddr} {
			if conn, err := net.Dial("tcp", a); err == nil {
				conn.Close()
				x.Failf("node %d is closed, %s can be dialed", i, a)
			}
		}
	}
	x.Check()
}

func init() {
	genF13 := func(t *rapid.T) f13Case {
		c := f13Case{Secure: coin(t, "secure"), TLS: genTLS(t), IDs: genFedIDs(t, 2, 4), Odd: coin(t, "odd"), Greet: oneIn(t, "greet", 3), First: intn(t, "first", 0, 3)}
		for i, n := 0, intn(t, "steps", 1, 8); i < n; i++ {
			st := f13Step{I: intn(t, "i", 0, 3), J: intn(t, "j", 0, 3), Route: oneIn(t, "route", 4), Body: genBytes(t, "body", 0, 20)}
			if coin(t, "to seed") {
				st.J = 0
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}
	register(&Prop{
		ID: "F13",
		Parts: []Part{
			part("network", 2500, 40000, "a node learned of another one", genF13, runF13),
			part("idle", 8, 16, "a node learned of another one", func(t *rapid.T) f13Case {
				c := genF13(t)
				c.Steps = append([]f13Step{{I: 1, J: 0}, {I: 0, J: 1}}, c.Steps...)
				c.Steps = append(c.Steps, f13Step{I: 1, J: 0, Idle: true}, f13Step{I: 0, J: 1})
				return c
			}, runF13),
		},
		Assumptions: []string{"20 s of real time are enough for loopback traffic"},
	})
	genT16 := func(t *rapid.T) t16Case {
		a, _ := genCfgPair(t)
		c := t16Case{Cfg: a, Secure: coin(t, "secure"), TLS: genTLS(t), Pushes: intn(t, "pushes", 0, 3), Again: coin(t, "again"), V6: oneIn(t, "v6", 5)}
		for i, n := 0, intn(t, "clients", 1, 4); i < n; i++ {
			c.Clients = append(c.Clients, t16Client{Reqs: intn(t, "reqs", 0, 8), Size: pick(t, "size", []int{0, 10, 3000, 50000}), End: pick(t, "end", []int{0, 0, 1, 2})})
		}
		return c
	}
	register(&Prop{
		ID: "T16",
		Parts: []Part{
			part("network", 1200, 20000, "the server sent messages to a client", genT16, runT16),
			part("idle", 8, 16, "the server sent messages to a client", func(t *rapid.T) t16Case {
				c := genT16(t)
				c.Idle, c.Pushes = true, 1
				c.Clients = append(c.Clients, t16Client{Reqs: 1}, t16Client{})
				return c
			}, runT16),
			part("no network", 800, 15000, "the server spoke", func(t *rapid.T) t16Fail {
				return t16Fail{How: pick(t, "how", []string{"close", "garbage", "plain", "untrusted", "frame"}), Raw: genBytes(t, "raw", 30, 60), Late: coin(t, "late")}
			}, runT16Fail),
		},
		Assumptions: []string{"20 s of real time are enough for loopback traffic"},
	})
	genL05 := func(t *rapid.T) l05Case {
		c := l05Case{TLS: coin(t, "tls"), Peers: intn(t, "peers", 1, 3), App: genString(t, "app"), Again: coin(t, "again"), V6: oneIn(t, "v6", 5)}
		for i, n := 0, intn(t, "sessions", 0, 5); i < n; i++ {
			c.Sess = append(c.Sess, l05Sess{Peer: intn(t, "peer", 0, 2), Pings: intn(t, "pings", 0, 4), Fail: pick(t, "fail", []int{0, 0, 1, 2})})
		}
		return c
	}
	register(&Prop{
		ID: "L05",
		Parts: []Part{
			part("network", 1500, 25000, "a ping was answered", genL05, runL05),
			part("idle", 8, 16, "a ping was answered", func(t *rapid.T) l05Case {
				c := genL05(t)
				c.Idle = true
				c.Sess = append(c.Sess, l05Sess{Pings: 1}, l05Sess{Peer: 1})
				return c
			}, runL05),
		},
		Assumptions: []string{"20 s of real time are enough for loopback traffic"},
	})
}
