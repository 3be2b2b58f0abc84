package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

const (
	hFabricActivity  = uint16(transport.MessageHeaderIdTypeFabricActivity)
	hProtocolVersion = uint16(transport.MessageHeaderIdTypeClientProtocolVersion)
	hTimeout         = uint16(transport.MessageHeaderIdTypeTimeout)
)

var (
	dActivity = dStruct(dStruct(dk("guid"), dk("u64")))
	dVersion  = dStruct(dk("i64"), dk("i64"))
	dTimeout  = dStruct(dk("i64"))
)

// ---------------------------------------------------------------- N05: how naming messages are marked

type n05Op struct {
	Op     string // new, ping, query, register, notify
	Client int
	N      int
	Action string
	Custom []customSpec
	Body   []byte
}

type n05Case struct {
	S   []sinkCfg
	Ops []n05Op
	Par bool
}

func runN05(x *X, c n05Case) {
	var gs []*gateway
	for _, s := range c.S {
		gs = append(gs, newGateway(x, s))
	}
	type made struct {
		action string
		op     n05Op
	}
	want := make([][]made, len(gs))
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	for _, g := range gs {
		peer := g.s.peer
		peer.mu.Lock()
		peer.on = func(f *peerFrame) {
			if f.m.Action != actAnnounce { // so that registrations go on
				return
			}
			r := &msgSpec{ID: msgID{X: 4}, Rel: f.m.ID, Actor: actorGateway, Action: "Reply"}
			go peer.c.Write(peer.frame(r))
		}
		peer.mu.Unlock()
	}
	own := map[string]bool{} // custom headers tell which were made by hand
	total := 0
	for i, op := range c.Ops {
		k := op.Client % len(gs)
		g := gs[k]
		for j := 0; j < op.N; j++ {
			total++
			switch op.Op {
			case "new":
				want[k] = append(want[k], made{op.Action, op})
				own[op.Action] = true
				go func() {
					m, err := naming.NewNamingMessage(op.Action)
					if err != nil {
						x.Report("NewNamingMessage: %v", err)
						return
					}
					for _, h := range op.Custom {
						m.Headers.AppendCustomHeader(transport.MessageHeaderIdType(h.ID), h.goVal())
					}
					m.Body = op.Body
					if err := g.s.ep.c.SendOneWay(m); err != nil {
						x.Report("sending: %v", err)
					}
				}()
			case "ping":
				want[k] = append(want[k], made{actPing, op})
				go g.n.Ping(ctx)
			case "query":
				want[k] = append(want[k], made{actQuery, op})
				go g.n.GetApplicationList(ctx, "x")
			case "register":
				want[k] = append(want[k], made{actAnnounce, op}, made{actRegister, op})
				go g.n.RegisterFilter(ctx, common.Uri{}, true, false)
			case "notify":
				want[k] = append(want[k], made{actNotified, op})
				body := refMarshal(dNotifyBody, &Val{L: []*Val{{L: []*Val{{L: []*Val{{L: []*Val{{L: []*Val{{}, {}}}, {}}}, {L: []*Val{{}, {}}}, {Nil: true}, {}}}}}}}, "")
				g.s.peer.send(&msgSpec{ID: msgID{X: uint32(i*100 + j + 1)}, Actor: actorGateway, Action: actNotify, Body: body})
			}
		}
		if !c.Par {
			synctest.Wait()
			x.Check()
		}
	}
	synctest.Wait()
	x.Check()
	activities := map[string]bool{}
	for k, g := range gs {
		left := want[k]
		for _, f := range g.s.peer.user() {
			found := -1
			for i, w := range left {
				if w.action == f.m.Action && (!own[w.action] || string(w.op.Body) == string(f.m.Body)) {
					found = i
					break
				}
			}
			if found < 0 {
				x.Failf("client %d wrote a message with action %q nobody asked for", k, f.m.Action)
			}
			w := left[found]
			left = append(left[:found:found], left[found+1:]...)
			if f.m.Actor != actorGateway || !f.m.Expect {
				x.Failf("a %q has actor %d and expects a reply: %v", w.action, f.m.Actor, f.m.Expect)
			}
			if f.m.ID.empty() {
				x.Failf("a %q has no id", w.action)
			}
			n := map[uint16]int{}
			var rest []customSpec
			for _, h := range f.m.Custom {
				n[h.ID]++
				switch h.ID {
				case hFabricActivity:
					v, err := refUnmarshal(dActivity, h.Raw, "")
					if err != nil {
						x.Failf("activity of a %q: %v (% x)", w.action, err, h.Raw)
					}
					id, idx := v.L[0].L[0], v.L[0].L[1].U
					if idx != 0 || id.U>>12&15 != 4 || id.H>>62 != 2 {
						x.Failf("activity of a %q: %016x %016x index %d is no random guid", w.action, id.U, id.H, idx)
					}
					key := fmt.Sprintf("%016x%016x", id.U, id.H)
					if activities[key] {
						x.Failf("two messages have the activity %s", key)
					}
					activities[key] = true
				case hProtocolVersion:
					v, err := refUnmarshal(dVersion, h.Raw, "")
					if err != nil || v.L[0].U != 1 || v.L[1].U != 2 {
						x.Failf("protocol version of a %q: % x (%v)", w.action, h.Raw, err)
					}
				case hTimeout:
					v, err := refUnmarshal(dTimeout, h.Raw, "")
					if err != nil || int64(v.L[0].U) <= 0 {
						x.Failf("timeout of a %q: % x (%v)", w.action, h.Raw, err)
					}
				case hClientIdentity:
					if w.action != actRegister {
						rest = append(rest, h)
					}
				default:
					rest = append(rest, h)
				}
			}
			for _, h := range []uint16{hFabricActivity, hProtocolVersion, hTimeout} {
				if n[h] != 1 {
					x.Failf("a %q has %d headers %d", w.action, n[h], h)
				}
			}
			if got, want := customKey(rest), customKey(w.op.Custom); got != want {
				x.Failf("a %q has the headers %s besides, want %s", w.action, clip(got, 400), clip(want, 400))
			}
		}
		if len(left) > 0 {
			x.Failf("client %d did not write a %q", k, left[0].action)
		}
	}
	if total > 1 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- N06: a gateway of the library and its clients

type n06Step struct {
	Op   string // connect, call, storm, same, push, drop
	I, N int
	V    *Val
	Seed uint64
}

type n06Case struct {
	Cfg    crcCfg
	Secure bool
	TLS    tlsSpec
	PC, PS netPlan
	Delay  int // of the gateway's replies, up to this many milliseconds
	Steps  []n06Step
}

type n06Client struct {
	e      *endpoint
	n      *naming.NamingClient
	alive  bool
	mu     sync.Mutex
	pushed []*naming.ServiceNotification
}

func runN06(x *X, c n06Case) {
	cfg, ccfg := c.Cfg.lib(), peerCfg(c.Cfg).lib()
	if c.Secure {
		cfg.TLS, ccfg.TLS = c.TLS.server(), c.TLS.client()
	}
	ln := newSimListener(tcpAddr(9, 9))
	var mu sync.Mutex
	tags := map[transport.Conn]string{}
	conns := map[string]transport.Conn{}
	acks := map[string]int{}
	filters := map[string][]string{} // by tag
	nreply := 0
	serial := func() int64 { // of answers: no two are the same
		mu.Lock()
		defer mu.Unlock()
		nreply++
		return int64(nreply)
	}
	got := map[int64]string{} // answers, and the calls that returned them
	returned := func(n int64, call string) {
		mu.Lock()
		defer mu.Unlock()
		if old, ok := got[n]; ok || n < 1 || n > int64(nreply) {
			x.Report("%s returns answer %d of %d, which %q returned", call, n, nreply, old)
		}
		got[n] = call
	}
	answer := func(conn transport.Conn, m *transport.ByteArrayMessage, action string, body any) {
		d := int(splitmix(uint64(c.Delay)*77+uint64(serial()), 5) % uint64(c.Delay+1))
		time.Sleep(time.Duration(d) * time.Millisecond)
		r, err := naming.NewNamingMessage(action)
		if err != nil {
			x.Report("NewNamingMessage: %v", err)
			return
		}
		r.Headers.RelatesTo = m.Headers.Id
		r.Body = body
		conn.SendOneWay(r)
	}
	srv, err := transport.Listen(ln, transport.ServerConfig{Config: cfg, MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		mu.Lock()
		tag := tags[conn]
		mu.Unlock()
		switch m.Headers.Action {
		case actPing:
			answer(conn, m, actPing, &struct{ D naming.GatewayDescription }{naming.GatewayDescription{Address: "gw of " + tag, NodeName: tag, NodeInstance: federation.NodeInstance{Id: federation.NodeIDFromMD5(tag), InstanceId: uint64(serial())}}})
		case actQuery:
			v, err := refUnmarshal(dQuery, m.Body, "")
			if err != nil {
				x.Report("bad query: %v", err)
				return
			}
			name := v.L[0].L[0].L[1].S
			if t, ok := strings.CutPrefix(name, "tag "); ok {
				mu.Lock()
				if old, ok := tags[conn]; ok && old != t {
					x.Report("client %s uses the connection of %s", t, old)
				}
				if old, ok := conns[t]; ok && old != conn {
					x.Report("client %s uses two connections", t)
				}
				tags[conn], conns[t] = t, conn
				tag = t
				mu.Unlock()
			}
			type list struct {
				L []naming.ApplicationQueryResult
			}
			apps := []naming.ApplicationQueryResult{{ApplicationTypeName: tag, ApplicationTypeVersion: name, HealthState: serial(), ApplicationParameters: map[string]string{name: tag}}}
			for i := 0; i < len(name)%4; i++ {
				apps = append(apps, naming.ApplicationQueryResult{ApplicationTypeName: fmt.Sprint(i), HealthState: int64(i)})
			}
			answer(conn, m, "QueryReply", &struct {
				Kind int32
				L    *list
				Code int32
			}{1, &list{apps}, 0})
		case actAnnounce:
			answer(conn, m, "x", &struct{ A int64 }{})
		case actRegister:
			v, err := refUnmarshal(dRegister, m.Body, "")
			if err != nil {
				x.Report("bad registration: %v", err)
				return
			}
			mu.Lock()
			filters[tag] = append(filters[tag], v.L[1].L[0].L[1].L[6].S)
			mu.Unlock()
			answer(conn, m, "x", &struct{ A int64 }{})
		case actNotified:
			mu.Lock()
			acks[fmt.Sprintf("%s/%d", tag, m.Headers.RelatesTo.Index)]++
			mu.Unlock()
		default:
			x.Report("the gateway got a %q", m.Headers.Action)
		}
	}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	go srv.Serve()
	x.Cleanup(func() { srv.Close() })
	var cs []*n06Client
	want := map[*n06Client][]string{}
	wantAck := map[string]int{}
	npush := uint32(0)
	nd := notifyDesc()
	call := func(i int, k int, kind uint64) func() {
		cl := cs[i]
		tag := fmt.Sprint("c", i)
		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
		x.Cleanup(cancel)
		return func() {
			switch kind % 3 {
			case 0:
				g, err := cl.n.Ping(ctx)
				if err != nil {
					x.Report("ping of client %s: %v", tag, err)
				} else if g.NodeName != tag || g.Address != "gw of "+tag || g.NodeInstance.Id != federation.NodeIDFromMD5(tag) {
					x.Report("ping of client %s: got %+v", tag, *g)
				} else {
					returned(int64(g.NodeInstance.InstanceId), fmt.Sprintf("ping %d of client %s", k, tag))
				}
			case 1:
				name := fmt.Sprintf("app %d of %s", k, tag)
				apps, err := cl.n.GetApplicationList(ctx, name)
				if err != nil {
					x.Report("query of client %s: %v", tag, err)
				} else if len(apps) != 1+len(name)%4 || apps[0].ApplicationTypeName != tag || apps[0].ApplicationTypeVersion != name || apps[0].ApplicationParameters[name] != tag {
					x.Report("query %q of client %s: got %+v", name, tag, apps)
				} else {
					returned(apps[0].HealthState, fmt.Sprintf("query %d of client %s", k, tag))
				}
			case 2:
				path := fmt.Sprintf("filter %d of %s", k, tag)
				if _, err := cl.n.RegisterFilter(ctx, common.Uri{Path: path}, true, false); err != nil {
					x.Report("registration of client %s: %v", tag, err)
					return
				}
				mu.Lock()
				defer mu.Unlock()
				n := 0
				for _, f := range filters[tag] {
					if f == path {
						n++
					}
				}
				if n != 1 {
					x.Report("registration %q of client %s arrived %d times", path, tag, n)
				}
			}
		}
	}
	live := func() (out []int) {
		for i, cl := range cs {
			if cl.alive {
				out = append(out, i)
			}
		}
		return
	}
	nk, big := 0, false
	for si, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", si, st.Op)
		on := live()
		op := st.Op
		if len(on) == 0 {
			op = "connect"
		}
		switch op {
		case "connect":
			pc, ps := c.PC, c.PS
			pc.Seed += uint64(si)
			ps.Seed += uint64(si)
			sim, err := ln.connect(pc, ps, tcpAddr(20+len(cs), 1))
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			tc, err := transport.Connect(sim, transport.ClientConfig{Config: ccfg})
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			cl := &n06Client{alive: true, e: &endpoint{c: tc}}
			x.Cleanup(func() { tc.Close() })
			if cl.n, err = naming.NewNamingClient(tc); err != nil {
				x.Failf("%s: %v", at, err)
			}
			cl.n.OnServiceNotification = func(n *naming.ServiceNotification) {
				cl.mu.Lock()
				cl.pushed = append(cl.pushed, n)
				cl.mu.Unlock()
			}
			go tc.Wait()
			cs = append(cs, cl)
			tag := fmt.Sprint("c", len(cs)-1)
			apps, err := cl.n.GetApplicationList(context.Background(), "tag "+tag)
			if err != nil || len(apps) == 0 || apps[0].ApplicationTypeName != tag {
				x.Failf("%s: first query of client %s: %v %+v", at, tag, err, apps)
			}
		case "call":
			nk++
			f := call(on[st.I%len(on)], nk, st.Seed)
			x.Within(at, f)
		case "storm":
			var wg sync.WaitGroup
			for k := 0; k < st.N; k++ {
				for _, i := range on {
					nk++
					f := call(i, nk, splitmix(st.Seed, uint64(nk)))
					wg.Add(1)
					go func() { defer wg.Done(); f() }()
				}
			}
			big = big || len(on) > 1
			x.Within(at, wg.Wait)
		case "same": // calls that look the same, some of which are given up
			i := on[st.I%len(on)]
			cl, tag := cs[i], fmt.Sprint("c", i)
			var wg sync.WaitGroup
			for k := 0; k < st.N+2; k++ {
				rnd := splitmix(st.Seed, uint64(k))
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				x.Cleanup(cancel)
				given := rnd%4 == 0
				if given {
					go func() {
						time.Sleep(time.Duration(rnd>>8%uint64(c.Delay*2+1)) * time.Millisecond)
						cancel()
					}()
				}
				what := fmt.Sprintf("%s: call %d of client %s", at, k, tag)
				wg.Add(1)
				go func() {
					defer wg.Done()
					var err error
					var n int64
					if st.Seed%3 == 0 {
						var g *naming.GatewayDescription
						if g, err = cl.n.Ping(ctx); err == nil {
							n = int64(g.NodeInstance.InstanceId)
						}
					} else {
						var apps []naming.ApplicationQueryResult
						if apps, err = cl.n.GetApplicationList(ctx, "same"); err == nil && len(apps) == 1 {
							n = apps[0].HealthState
						}
					}
					if err == nil {
						returned(n, what)
					} else if !given {
						x.Report("%s: %v", what, err)
					}
				}()
				if rnd>>40%3 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			x.Within(at, wg.Wait)
			big = true
		case "idle":
			time.Sleep(time.Duration(st.N*9+1) * time.Hour)
		case "push":
			i := on[st.I%len(on)]
			tag := fmt.Sprint("c", i)
			var n naming.ServiceNotification
			nd.toGo(st.V, "", reflect.ValueOf(&n).Elem())
			for k := 0; k < st.N; k++ {
				npush++
				m, err := naming.NewNamingMessage(actNotify)
				if err != nil {
					x.Failf("NewNamingMessage: %v", err)
				}
				m.Headers.Id = transport.MessageId{Index: npush}
				m.Body = &struct{ N *naming.ServiceNotification }{&n}
				mu.Lock()
				conn := conns[tag]
				mu.Unlock()
				go func() {
					if err := conn.SendOneWay(m); err != nil {
						x.Report("%s: %v", at, err)
					}
				}()
				want[cs[i]] = append(want[cs[i]], nd.key(nd.expect(st.V)))
				wantAck[fmt.Sprintf("%s/%d", tag, npush)]++
			}
			settle()
		case "drop":
			i := on[st.I%len(on)]
			cs[i].alive = false
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			x.Cleanup(cancel)
			var wg sync.WaitGroup
			errs := make([]error, st.N)
			for k := range errs { // in the middle of calls
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, errs[k] = cs[i].n.Ping(ctx)
				}()
			}
			cs[i].e.c.Close()
			x.Within(at, wg.Wait)
			for _, err := range errs {
				if errors.Is(err, context.DeadlineExceeded) {
					x.Failf("%s: a call outlives the connection", at)
				}
			}
		}
		x.Check()
	}
	settle()
	x.Check()
	mu.Lock()
	defer mu.Unlock()
	for k, w := range wantAck {
		if acks[k] != w {
			x.Failf("notification %s was acknowledged %d times", k, acks[k])
		}
	}
	if len(acks) != len(wantAck) {
		x.Failf("%d acknowledgements for %d notifications", len(acks), len(wantAck))
	}
	for i, cl := range cs {
		cl.mu.Lock()
		left := append([]string(nil), want[cl]...)
		for _, n := range cl.pushed {
			if n == nil {
				x.Failf("client %d was notified of nothing", i)
			}
			k := nd.key(nd.fromGo("", reflect.ValueOf(n).Elem()))
			found := false
			for j := range left {
				if left[j] == k {
					left = append(left[:j], left[j+1:]...)
					found = true
					break
				}
			}
			if !found {
				x.Failf("client %d was notified of something not sent to it, or twice: %s", i, clip(k, 500))
			}
		}
		if len(left) > 0 {
			x.Failf("client %d was not notified of %s", i, clip(left[0], 500))
		}
		cl.mu.Unlock()
	}
	if big || npush > 0 && len(cs) > 1 {
		x.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "N05",
		Parts: []Part{bubble("messages", 12000, 240000, "several messages", func(t *rapid.T) n05Case {
			c := n05Case{Par: coin(t, "par")}
			for i, n := 0, intn(t, "clients", 1, 3); i < n; i++ {
				c.S = append(c.S, genNamingSink(t))
			}
			for i, n := 0, intn(t, "ops", 1, 8); i < n; i++ {
				op := n05Op{Op: pick(t, "op", []string{"new", "new", "ping", "query", "register", "notify"}), Client: intn(t, "client", 0, 2), N: 1}
				if oneIn(t, "many", 5) {
					op.N = intn(t, "n", 2, 40)
				}
				if op.Op == "new" {
					op.Action = "own " + pick(t, "action", []string{"", "PingRequest", "x", "ServiceNotificationReply", "Ω"})
					for _, h := range genCustom(t, 3) {
						if h.ID != hFabricActivity && h.ID != hProtocolVersion && h.ID != hTimeout && h.ID != hClientIdentity {
							op.Custom = append(op.Custom, h)
						}
					}
					op.Body = append([]byte(fmt.Sprint(i, "/")), genBytes(t, "body", 0, 20)...)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runN05)},
	})
	register(&Prop{
		ID: "N06",
		Parts: []Part{bubble("gateway", 9000, 180000, "several clients called at once, or one of them was notified", func(t *rapid.T) n06Case {
			a, _ := genCfgPair(t)
			c := n06Case{Cfg: a, Secure: oneIn(t, "secure", 4), TLS: genTLS(t), PC: genPlan(t, false), PS: genPlan(t, false), Delay: pick(t, "delay", []int{0, 0, 5, 1000})}
			c.PC.Delay, c.PS.Delay, c.PC.Cap, c.PS.Cap = 0, 0, 0, 0
			for i, n := 0, intn(t, "first", 0, 3); i < n; i++ {
				c.Steps = append(c.Steps, n06Step{Op: "connect"})
			}
			for i, n := 0, intn(t, "steps", 1, 10); i < n; i++ {
				st := n06Step{Op: pick(t, "op", []string{"connect", "connect", "call", "call", "storm", "same", "push", "drop", "idle"}), I: intn(t, "i", 0, 5), N: intn(t, "n", 0, 6), Seed: rapid.Uint64().Draw(t, "seed")}
				if st.Op == "push" {
					st.V = genNotification(t)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runN06)},
		Assumptions: []string{"virtual time", "sampled schedules"},
	})
}
