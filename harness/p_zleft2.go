package harness

import (
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T18: what has ended takes no memory

// growCase does the same thing over and over; each round leaves what the round before left.
type growCase struct {
	Kind  string
	K     int // operations in a round
	Burst int // of them at once
	Seed  uint64
}

// discard reads frames and calls on for each, keeping nothing.
func discard(c net.Conn, on func(m *msgSpec)) {
	for {
		f, _, err := readRawFrame(c)
		if err != nil {
			return
		}
		if on != nil {
			if m, err := specOfFrame(f); err == nil {
				on(m)
			}
		}
	}
}

func plainFrame(m *msgSpec) []byte { return m.frame(0, true, false) }

// growOp is one operation, run in a goroutine of its own; done ends it.
type growOp func(i int)

// growRigs make the operation of a kind. The rig itself must not grow.
var growRigs = map[string]func(x *X, c growCase) growOp{
	"request-cancelled": func(x *X, c growCase) growOp { return growRequests(x, "none", "request", "client") },
	"request-replied":   func(x *X, c growCase) growOp { return growRequests(x, "reply", "request", "client") },
	"request-late":      func(x *X, c growCase) growOp { return growRequests(x, "late", "request", "client") },
	"request-twice":     func(x *X, c growCase) growOp { return growRequests(x, "twice", "request", "client") },
	"ping-cancelled":    func(x *X, c growCase) growOp { return growRequests(x, "none", "ping", "client") },
	"ping-answered":     func(x *X, c growCase) growOp { return growRequests(x, "reply", "ping", "client") },
	"sent":              func(x *X, c growCase) growOp { return growRequests(x, "none", "oneway", "client") },
	"server-request":    func(x *X, c growCase) growOp { return growRequests(x, "none", "request", "server") },
	"server-sent":       func(x *X, c growCase) growOp { return growRequests(x, "none", "oneway", "server") },
	"received":          func(x *X, c growCase) growOp { return growReceived(x, "client", false) },
	"server-received":   func(x *X, c growCase) growOp { return growReceived(x, "server", false) },
	"heartbeats":        func(x *X, c growCase) growOp { return growReceived(x, "client", true) },
	"clients":           growClients,
	"proxied":           growProxied,
	"lease-pings":       growLeasePings,
	"lease-sessions":    growLeaseSessions,
	"lease-addresses":   growLeaseAddresses,
	"lease-dials":       growLeaseDials,
	"lease-incoming":    growLeaseIncoming,
	"node-incoming":     func(x *X, c growCase) growOp { return growNode(x, "incoming") },
	"node-routes":       func(x *X, c growCase) growOp { return growNode(x, "route") },
	"node-dials":        func(x *X, c growCase) growOp { return growNode(x, "dial") },
	"node-broken":       func(x *X, c growCase) growOp { return growNode(x, "broken") },
	"node-moving":       func(x *X, c growCase) growOp { return growNode(x, "moving") },
	"node-moving-dials": func(x *X, c growCase) growOp { return growNode(x, "moving-dial") },
	"node-news":         func(x *X, c growCase) growOp { return growNode(x, "news") },
	"naming-pings":      func(x *X, c growCase) growOp { return growNaming(x, "ping") },
	"naming-cancelled":  func(x *X, c growCase) growOp { return growNaming(x, "cancel") },
	"notifications":     func(x *X, c growCase) growOp { return growNaming(x, "notify") },
}

// growConn is a connection of the library and the peer's end of it.
func growConn(x *X, role string, cb transport.MessageCallback) (transport.Conn, *simConn) {
	a, b := simPipe(netPlan{}, netPlan{}, tcpAddr(1, 1), tcpAddr(2, 2))
	x.Cleanup(func() { a.Close(); b.Close() })
	if role == "client" {
		c, err := transport.Connect(a, transport.ClientConfig{MessageCallback: cb})
		if err != nil {
			x.Failf("Connect: %v", err)
		}
		go c.Wait()
		return c, b
	}
	ln := newSimListener(tcpAddr(9, 9))
	got := make(chan transport.Conn, 1)
	srv, err := transport.Listen(ln, transport.ServerConfig{MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		select {
		case got <- conn:
		default:
		}
		if cb != nil {
			cb(conn, m)
		}
	}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	go srv.Serve()
	x.Cleanup(func() { srv.Close(); ln.Close() })
	ln.push(acceptItem{c: a})
	var conn transport.Conn
	x.Within("the first message", func() {
		b.Write(plainFrame(&msgSpec{ID: msgID{X: helloX}, Actor: 5}))
		conn = <-got
		got <- conn
	})
	return conn, b
}

func growRequests(x *X, answer, what, role string) growOp {
	conn, peer := growConn(x, role, nil)
	out := make(chan []byte, 10000)
	go func() {
		for b := range out {
			if _, err := peer.Write(b); err != nil {
				for range out {
				}
				return
			}
		}
	}()
	x.Cleanup(func() { close(out) })
	var stop bool
	x.Cleanup(func() { stop = true })
	late := make(chan []byte, 10000)
	go discard(peer, func(m *msgSpec) {
		if stop {
			return
		}
		var r *msgSpec
		switch {
		case m.Actor == actorTransport && m.Action == "HeartbeatRequest":
			r = &msgSpec{ID: msgID{X: 1}, Actor: actorTransport, Action: "HeartbeatResponse", Body: m.Body}
		case m.Expect:
			r = &msgSpec{ID: msgID{X: 1, G: Val{U: 7}}, Rel: m.ID, Actor: 5, Body: m.Body}
		default:
			return
		}
		switch answer {
		case "late":
			late <- plainFrame(r)
		case "twice":
			out <- plainFrame(r)
			out <- plainFrame(r)
		case "reply":
			out <- plainFrame(r)
		}
	})
	return func(i int) {
		m := &transport.Message{Body: []byte{byte(i), byte(i >> 8)}}
		m.Headers.Actor = 5
		ctx, cancel := context.Background(), func() {}
		if answer == "none" || answer == "late" {
			// no deadline: the bubble keeps timers that are stopped
			ctx, cancel = context.WithCancel(ctx)
			if what != "oneway" {
				go func() { time.Sleep(time.Millisecond); cancel() }()
			}
		}
		var err error
		switch what {
		case "oneway":
			err = conn.SendOneWay(m)
		case "request":
			_, err = conn.RequestReply(ctx, m)
		case "ping":
			_, err = conn.Ping(ctx)
		}
		cancel()
		if answer != "late" && (answer != "none" || what == "oneway") != (err == nil) { // a late reply may come to another one in time
			x.Report("%s with answer %s: %v", what, answer, err)
		}
		if answer == "late" {
			out <- <-late
		}
	}
}

func growReceived(x *X, role string, hb bool) growOp {
	_, peer := growConn(x, role, func(transport.Conn, *transport.ByteArrayMessage) {})
	go discard(peer, nil)
	return func(i int) {
		m := &msgSpec{ID: msgID{X: uint32(i + 1)}, Actor: 5, Body: []byte{byte(i)}}
		if i%2 == 0 {
			m.Rel = msgID{X: uint32(i + 1), G: Val{U: 3}} // a reply to nothing
		}
		if hb {
			m.Actor, m.Action = actorTransport, []string{"HeartbeatRequest", "HeartbeatResponse"}[i&1]
		}
		peer.Write(plainFrame(m))
	}
}

func growClients(x *X, c growCase) growOp {
	ln := newSimListener(tcpAddr(9, 9))
	srv, err := transport.Listen(ln, transport.ServerConfig{MessageCallback: func(transport.Conn, *transport.ByteArrayMessage) {}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	go srv.Serve()
	x.Cleanup(func() { srv.Close(); ln.Close() })
	return func(i int) {
		a, err := ln.connect(netPlan{}, netPlan{}, tcpAddr(i&0xffff, 1+i>>16))
		if err != nil {
			return
		}
		if i%4 > 0 {
			a.Write(plainFrame(&msgSpec{ID: msgID{X: 1}, Actor: 5}))
		}
		switch i % 3 {
		case 0:
			a.reset()
		case 1:
			a.Write(make([]byte, 20))
		}
		a.Close()
	}
}

func growProxied(x *X, c growCase) growOp {
	ln := newSimListener(tcpAddr(9, 9))
	pc := transport.PiperConfig{FindUpstream: func(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
		if h.RetryCount%5 == 4 {
			return nil, transport.Config{}, errors.New("no upstream")
		}
		a, b := simPipe(netPlan{}, netPlan{}, tcpAddr(3, 3), tcpAddr(4, 4))
		go func() { discard(b, nil); b.Close() }()
		return a, transport.Config{}, nil
	}}
	p, err := transport.NewPiper(ln, pc)
	if err != nil {
		x.Failf("NewPiper: %v", err)
	}
	go p.Serve()
	x.Cleanup(func() { ln.Close() })
	return func(i int) {
		a, err := ln.connect(netPlan{}, netPlan{}, tcpAddr(i&0xffff, 1+i>>16))
		if err != nil {
			return
		}
		go func() { discard(a, nil); a.Close() }()
		a.Write(plainFrame(&msgSpec{ID: msgID{X: 1}, Actor: 5, Retry: int32(i + 1)}))
		time.Sleep(time.Millisecond)
		a.Close()
	}
}

// growAgent is a lease agent whose sessions lead to peers that answer nothing.
func growAgent(x *X) (*lease.Agent, *simListener) {
	ln := newSimListener(strAddr("10.0.0.1:1"))
	a, err := lease.NewAgent(lease.AgentConfig{}, ln, func(addr string) (net.Conn, error) {
		lib, peer := simPipe(netPlan{}, netPlan{}, strAddr("10.0.0.1:1"), strAddr(addr))
		go func() {
			defer peer.Close()
			for {
				if _, _, err := readLtFrame(peer); err != nil {
					return
				}
			}
		}()
		return lib, nil
	})
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	go a.Wait()
	x.Cleanup(func() { a.Close(); ln.Close() })
	return a, ln
}

func growLeasePings(x *X, c growCase) growOp {
	a, _ := growAgent(x)
	time.Sleep(time.Millisecond)
	s, err := a.Establish("10.0.0.2:2")
	if err != nil {
		x.Failf("Establish: %v", err)
	}
	return func(i int) {
		ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
		defer cancel()
		if err := s.Ping(ctx); err == nil {
			x.Report("an unanswered ping succeeded")
		}
	}
}

func growLeaseSessions(x *X, c growCase) growOp {
	a, _ := growAgent(x)
	return func(i int) {
		s, err := a.Establish(fmt.Sprintf("10.0.0.2:%d", 2+i%7))
		if err != nil {
			x.Report("Establish: %v", err)
			return
		}
		time.Sleep(time.Millisecond)
		s.Close()
	}
}

// growLeaseAddresses never goes to an address again.
func growLeaseAddresses(x *X, c growCase) growOp {
	a, _ := growAgent(x)
	return func(i int) {
		s, err := a.Establish(fmt.Sprintf("10.%d.%d.%d:2", i>>16, i>>8&255, i&255))
		if err != nil {
			x.Report("Establish: %v", err)
			return
		}
		time.Sleep(time.Millisecond)
		s.Close()
	}
}

func growLeaseDials(x *X, c growCase) growOp {
	ln := newSimListener(strAddr("10.0.0.1:1"))
	a, err := lease.NewAgent(lease.AgentConfig{}, ln, func(addr string) (net.Conn, error) { return nil, errors.New("refused") })
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	go a.Wait()
	x.Cleanup(func() { a.Close(); ln.Close() })
	return func(i int) {
		if _, err := a.Establish(fmt.Sprintf("10.%d.%d.%d:2", i>>16, i>>8&255, i&255)); err == nil {
			x.Report("a session was established with nobody")
		}
	}
}

func growLeaseIncoming(x *X, c growCase) growOp {
	_, ln := growAgent(x)
	return func(i int) {
		a, err := ln.connect(netPlan{}, netPlan{}, tcpAddr(i&0xffff, 1+i>>16))
		if err != nil {
			return
		}
		go func() {
			for {
				if _, _, err := readLtFrame(a); err != nil {
					return
				}
			}
		}()
		if i%2 == 0 {
			a.Write((&leaseMsg{Type: 1, Ident: int64(i), Inst: 1, Host: "10.0.0.3", Port: 3, Dur: 1000}).frame())
		}
		time.Sleep(time.Millisecond)
		a.Close()
	}
}

func growNode(x *X, what string) growOp {
	ln, lln := newSimListener(strAddr(fedSelfAddr)), newSimListener(strAddr(fedLeaseAddr))
	srv, err := transport.Listen(ln, transport.ServerConfig{})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	la, err := lease.NewAgent(lease.AgentConfig{}, lln, func(string) (net.Conn, error) { return nil, errors.New("no lease") })
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	seed := id128{Hi: 7, Lo: 7}
	self := id128{Hi: 1, Lo: 1}
	ends := make(chan *simConn, 10000)
	dial := func(addr string) (net.Conn, error) {
		if what == "dial" || what == "moving-dial" {
			return nil, errors.New("connection refused")
		}
		a, b := simPipe(netPlan{}, netPlan{}, strAddr(fedSelfAddr), strAddr(addr))
		go func() { discard(b, nil); b.Close() }()
		if what == "broken" {
			ends <- b
		}
		if what == "moving" {
			go func() { time.Sleep(2 * time.Millisecond); b.Close() }()
		}
		return a, nil
	}
	n, err := federation.NewSiteNode(federation.SiteNodeConfig{
		ClientDialer: func(addr string) (*transport.Client, error) {
			c, err := dial(addr)
			if err != nil {
				return nil, err
			}
			return transport.Connect(c, transport.ClientConfig{})
		},
		TransportServer: srv, LeaseAgent: la, Instance: federation.NodeInstance{Id: self.node(), InstanceId: 5},
		SeedNodes: []federation.SeedNodeInfo{{Id: seed.node(), Address: "10.0.0.7:7"}},
	})
	if err != nil {
		x.Failf("NewSiteNode: %v", err)
	}
	go n.Serve()
	x.Cleanup(func() { n.Close(); ln.Close(); lln.Close() })
	var news *simConn
	if what == "news" || what == "moving" || what == "moving-dial" {
		if news, err = ln.connect(netPlan{}, netPlan{}, tcpAddr(8, 8)); err != nil {
			x.Failf("connecting: %v", err)
		}
		x.Cleanup(func() { news.Close() })
		go discard(news, nil)
	}
	return func(i int) {
		switch what {
		case "incoming":
			a, err := ln.connect(netPlan{}, netPlan{}, tcpAddr(i&0xffff, 1+i>>16))
			if err != nil {
				return
			}
			go func() { discard(a, nil); a.Close() }()
			a.Write(plainFrame(&msgSpec{ID: msgID{X: 1}, Actor: 6, Action: "x"}))
			time.Sleep(time.Millisecond)
			a.Close()
		case "news":
			f := &fedInfo{ID: id128{Hi: uint64(i%5 + 20), Lo: 1}, Addr: fmt.Sprintf("10.0.1.%d:1", i%5), Inst: uint64(i), Phase: 5}
			m := announcement(f)
			m.ID = msgID{X: uint32(i + 1)}
			news.Write(plainFrame(m))
		case "moving", "moving-dial":
			id := id128{Hi: 30, Lo: 1}
			m := announcement(&fedInfo{ID: id, Addr: fmt.Sprintf("10.%d.%d.%d:1", i>>16, i>>8&255, i&255), Inst: uint64(i + 1), Phase: 2})
			m.ID = msgID{X: uint32(i + 1)}
			news.Write(plainFrame(m))
			time.Sleep(time.Millisecond)
			q := &transport.Message{}
			q.Headers.Actor = 6
			if err := n.SendOneWay(id.node(), q); (err == nil) != (what == "moving") {
				x.Report("%s: sending ended with %v", what, err)
			}
			time.Sleep(4 * time.Millisecond)
		default:
			ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
			defer cancel()
			m := &transport.Message{}
			m.Headers.Actor = 6
			if _, err := n.Route(ctx, seed.node(), m); err == nil {
				x.Report("an unanswered request succeeded")
			}
			if what == "broken" {
				select {
				case e := <-ends:
					e.Close()
				default:
				}
			}
		}
	}
}

func growNaming(x *X, what string) growOp {
	a, peer := simPipe(netPlan{}, netPlan{}, tcpAddr(1, 1), tcpAddr(2, 2))
	x.Cleanup(func() { a.Close(); peer.Close() })
	out := make(chan []byte, 10000)
	x.Cleanup(func() { close(out) })
	go func() {
		for b := range out {
			peer.Write(b)
		}
	}()
	done := false
	x.Cleanup(func() { done = true })
	go discard(peer, func(m *msgSpec) {
		if m.Expect && what == "ping" && !done {
			out <- plainFrame(&msgSpec{ID: msgID{X: 9, G: Val{U: 7}}, Rel: m.ID, Actor: 5})
		}
	})
	cl, err := transport.Connect(a, transport.ClientConfig{})
	if err != nil {
		x.Failf("Connect: %v", err)
	}
	n, err := naming.NewNamingClient(cl)
	if err != nil {
		x.Failf("NewNamingClient: %v", err)
	}
	go cl.Wait()
	return func(i int) {
		if what == "notify" {
			peer.Write(plainFrame(&msgSpec{ID: msgID{X: uint32(i + 1)}, Actor: 5, Action: "x", Expect: true}))
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
		defer cancel()
		n.Ping(ctx)
	}
}

func runGrow(x *X, c growCase) {
	op := growRigs[c.Kind](x, c)
	n := 0
	round := func() (objects, bytes uint64) {
		for i := 0; i < c.K; i += c.Burst {
			var left = make(chan struct{}, c.Burst)
			for j := 0; j < c.Burst; j++ {
				k := n
				n++
				go func() { op(k); left <- struct{}{} }()
			}
			x.Within(c.Kind, func() {
				for j := 0; j < c.Burst; j++ {
					<-left
				}
			})
			synctest.Wait()
			x.Check()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapObjects, ms.HeapAlloc
	}
	round()
	o0, b0 := round()
	o1, _ := round()
	o2, b2 := round()
	grown := func(a, b uint64) int { return int(b) - int(a) }
	k := c.K
	if a, b := grown(o0, o1), grown(o1, o2); min(a, b) >= k/2 {
		x.Failf("%d times %s leave %d objects behind, and %d the next %d times", k, c.Kind, a, b, k)
	}
	if g := grown(b0, b2); g >= 1<<16+2*k*20 {
		x.Failf("%d times %s leave %d bytes behind", 2*k, c.Kind, g)
	}
	x.Label(c.Kind)
	x.NonTrivial()
}

func init() {
	p := props["T18"]
	p.Parts = append(p.Parts, bubble("growth", 160, 5000, "always", func(t *rapid.T) growCase {
		return growCase{Kind: pick(t, "kind", sortedKeys(growRigs)), K: pick(t, "k", []int{2000, 3000, 5000}), Burst: pick(t, "burst", []int{1, 4, 50}), Seed: rapid.Uint64().Draw(t, "seed")}
	}, runGrow))
}
