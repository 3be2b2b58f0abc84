package harness

import (
	"context"
	"encoding/binary"
	"fmt"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// Crowds: the histories of the other parts, with many more messages, requests, clients or nodes at
// once than anybody would write down. No property here has a capacity; code with one (a table of
// fixed size, a queue, a pool of workers) keeps working below it.

func addPart(id string, p Part) { props[id].Parts = append(props[id].Parts, p) }

// crowd draws how many, up to about most.
func crowd(t *rapid.T, most int) int {
	return 1 + pick(t, "crowd", []int{most / 30, most / 8, most / 3, most}) - intn(t, "less", 0, most/40)
}

// ---------------------------------------------------------------- T01: long streams

type t01Long struct {
	PA, PB netPlan
	CA, CB crcCfg
	N, M   int
	Body   int
}

func runT01Long(x *X, c t01Long) {
	la, lb := simPipe(c.PA, c.PB, tcpAddr(1, 1), tcpAddr(2, 2))
	type end struct {
		c    *transport.Client
		next int
		done bool
	}
	mk := func(i, size int) []byte {
		b := make([]byte, 8+size)
		binary.LittleEndian.PutUint64(b, uint64(i))
		for j := 8; j < len(b); j++ {
			b[j] = byte(i + j)
		}
		return b
	}
	size := func(i int) int { return int(splitmix(uint64(i), 3) % uint64(c.Body+1)) }
	dial := func(sim *simConn, cfg crcCfg, what string) *end {
		e := &end{}
		var err error
		e.c, err = transport.Connect(sim, transport.ClientConfig{Config: cfg.lib(), MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			if want := mk(e.next, size(e.next)); string(m.Body) != string(want) || m.Headers.RetryCount != int32(e.next) || m.Headers.Actor != 5 {
				x.Report("%s: message %d came as % x (number %d)", what, e.next, clipBytes(m.Body, 30), m.Headers.RetryCount)
			}
			e.next++
		}})
		if err != nil {
			x.Report("Connect: %v", err)
			return e
		}
		x.Cleanup(func() { sim.Close() })
		go func() { e.c.Wait(); e.done = true }()
		return e
	}
	var a, b *end
	ready := make(chan struct{})
	go func() { a = dial(la, c.CA, "b to a"); close(ready) }()
	b = dial(lb, c.CB, "a to b")
	x.Within("Connect", func() { <-ready })
	x.Check()
	send := func(e *end, what string, n int) {
		for i := 0; i < n; i++ {
			m := &transport.Message{Body: mk(i, size(i))}
			m.Headers.Actor, m.Headers.RetryCount = 5, int32(i)
			if err := e.c.SendOneWay(m); err != nil {
				x.Report("%s: sending message %d: %v", what, i, err)
				return
			}
		}
	}
	x.Within("sending", func() {
		done := make(chan struct{})
		go func() { defer close(done); send(a, "a", c.N) }()
		send(b, "b", c.M)
		<-done
	})
	settle()
	x.Check()
	if b.next != c.N || a.next != c.M {
		x.Failf("%d of %d messages came, and %d of %d the other way", b.next, c.N, a.next, c.M)
	}
	if a.done || b.done {
		x.Failf("a healthy connection ended")
	}
	x.NonTrivial()
}

// ---------------------------------------------------------------- T06, T08: many requests and pings at once

type t06Many struct {
	S      sinkCfg
	N      int
	Seed   uint64
	Own    bool
	Cancel int // of 100
	Rounds int
}

func runT06Many(x *X, c t06Many) {
	s := newLive(x, c.S)
	cancelled := map[int]bool{}
	for round := 0; round < c.Rounds; round++ {
		from := len(s.peer.user())
		reqs := make([]*pendingReq, c.N)
		for i := range reqs {
			m := &msgSpec{Actor: 5, Body: []byte(fmt.Sprint(i))}
			if c.Own {
				m.ID = ownID(i+1, 0) // the same in every round
			}
			reqs[i] = startRequest(s.conn, m, context.Background())
			x.Cleanup(reqs[i].cancel)
		}
		settleShort()
		x.Check()
		frames := s.peer.user()[from:]
		if len(frames) != c.N {
			x.Failf("round %d: %d of %d requests were sent", round, len(frames), c.N)
		}
		ids := map[string]bool{}
		for _, f := range frames {
			var i int
			fmt.Sscan(string(f.m.Body), &i)
			if ids[f.m.ID.key()] || f.m.ID.empty() || !f.m.Expect {
				x.Failf("round %d: request %d: identity %s, used before: %v, reply expected: %v", round, i, f.m.ID.key(), ids[f.m.ID.key()], f.m.Expect)
			}
			ids[f.m.ID.key()] = true
			reqs[i].id = f.m.ID
		}
		order := make([]int, c.N)
		for i := range order {
			order[i] = i
		}
		shuffle(c.Seed+uint64(round), order)
		clear(cancelled)
		for k, i := range order {
			if int(splitmix(c.Seed, uint64(k), uint64(round))%100) < c.Cancel {
				cancelled[i] = true
				reqs[i].cancel()
				continue
			}
			s.peer.send(&msgSpec{ID: msgID{G: Val{U: 5}, X: uint32(k)}, Rel: reqs[i].id, Actor: 5, Body: []byte(fmt.Sprint("re ", i))})
		}
		settleShort()
		x.Check()
		for i, r := range reqs {
			switch {
			case !r.finished():
				x.Failf("round %d: request %d of %d has not ended, cancelled: %v", round, i, c.N, cancelled[i])
			case cancelled[i] && r.err == nil:
				x.Failf("round %d: request %d was cancelled and got %q", round, i, r.reply.Body)
			case !cancelled[i] && (r.err != nil || string(r.reply.Body) != fmt.Sprint("re ", i)):
				x.Failf("round %d: request %d of %d: %v %v", round, i, c.N, r.reply, r.err)
			}
		}
		if n := len(s.delivered()); n > 0 {
			x.Failf("round %d: %d replies reached the callback", round, n)
		}
	}
	if !s.alive() {
		x.Failf("the connection ended")
	}
	x.NonTrivial()
}

type t08Many struct {
	S      sinkCfg
	N      int
	Seed   uint64
	Cancel int
	HB     int
}

func runT08Many(x *X, c t08Many) {
	s := newLive(x, c.S)
	pings := make([]*pendingPing, c.N)
	bodies := map[string]int{}
	at := 0
	for i := range pings {
		p := &pendingPing{done: make(chan struct{}), begin: time.Now()}
		ctx, cancel := x.ctx(context.Background())
		p.cancel = cancel
		x.Cleanup(cancel)
		pings[i] = p
		go func() { p.d, p.err = s.conn.Ping(ctx); close(p.done) }()
		synctest.Wait()
		time.Sleep(time.Millisecond)
		fs := s.peer.all()
		for ; at < len(fs); at++ {
			if f := fs[at]; f.m.Actor == actorTransport && f.m.Action == "HeartbeatRequest" {
				p.body = string(f.m.Body)
			}
		}
		if j, ok := bodies[p.body]; ok || p.body == "" {
			x.Failf("the heartbeat of ping %d cannot be told from that of ping %d", i, j)
		}
		bodies[p.body] = i
	}
	order := make([]int, c.N)
	for i := range order {
		order[i] = i
	}
	shuffle(c.Seed, order)
	cancelled := map[int]bool{}
	for k, i := range order {
		if int(splitmix(c.Seed, uint64(k))%100) < c.Cancel {
			cancelled[i] = true
			pings[i].cancel()
			continue
		}
		s.peer.send(&msgSpec{ID: msgID{X: 3}, Actor: actorTransport, Action: "HeartbeatResponse", High: true, Body: []byte(pings[i].body)})
	}
	for i := 0; i < c.HB; i++ {
		s.peer.send(&msgSpec{ID: msgID{X: uint32(i + 10)}, Actor: actorTransport, Action: "HeartbeatRequest", High: true, Body: []byte(fmt.Sprint("hb ", i))})
	}
	settleShort()
	x.Check()
	for i, p := range pings {
		switch {
		case !p.finished():
			x.Failf("ping %d of %d has not ended, cancelled: %v", i, c.N, cancelled[i])
		case cancelled[i] != (p.err != nil):
			x.Failf("ping %d of %d, cancelled: %v: %v", i, c.N, cancelled[i], p.err)
		case p.err == nil && (p.d < 0 || p.d > time.Since(p.begin)):
			x.Failf("ping %d of %d took %v", i, c.N, p.d)
		}
	}
	hb := map[string]int{}
	for _, f := range s.peer.all() {
		if f.m.Actor == actorTransport && f.m.Action == "HeartbeatResponse" {
			hb[string(f.m.Body)]++
		}
	}
	for i := 0; i < c.HB; i++ {
		if k := fmt.Sprint("hb ", i); hb[k] != 1 {
			x.Failf("heartbeat request %d of %d was answered %d times", i, c.HB, hb[k])
		}
	}
	if len(hb) != c.HB || len(s.delivered()) > 0 || !s.alive() {
		x.Failf("%d heartbeat responses for %d requests, %d messages in the callback, alive: %v", len(hb), c.HB, len(s.delivered()), s.alive())
	}
	x.NonTrivial()
}

// ---------------------------------------------------------------- generators

func crowdPlan(t *rapid.T) netPlan {
	return netPlan{Seed: rapid.Uint64().Draw(t, "sched"), Chunk: pick(t, "chunk", []int{0, 0, 64, 1500}), Yield: coin(t, "yield")}
}

func crowdSink(t *rapid.T, roles []string) sinkCfg {
	s := genSink(t, roles, true)
	s.PL, s.PP = crowdPlan(t), crowdPlan(t)
	return s
}

// crowdInfos is news of many nodes, short enough for one header section.
func crowdInfos(t *rapid.T, ids []id128) (out []*fedInfo) {
	for i, id := range ids {
		out = append(out, &fedInfo{ID: id, Inst: uint64(intn(t, "inst", 1, 3)), Phase: int64(pick(t, "phase", []int{2, 2, 2, 1, 0, 4})), Addr: fmt.Sprintf("10.0.5.%d:1", i)})
	}
	return
}

// crowdIDs draws many distinct ids.
func crowdIDs(t *rapid.T, n int, not ...id128) (out []id128) {
	ids := genFedIDs(t, 1, min(n, 8), not...)
	seed := rapid.Uint64().Draw(t, "ids")
	seen := map[id128]bool{}
	for _, id := range not {
		seen[id] = true
	}
	for _, id := range ids {
		seen[id] = true
	}
	for k := uint64(0); len(ids) < n; k++ {
		id := id128{Hi: splitmix(seed, k, 1), Lo: splitmix(seed, k, 2)}
		if k%3 == 0 { // close to another one
			o := ids[int(splitmix(seed, k, 3)%uint64(len(ids)))]
			id = id128{Hi: o.Hi, Lo: o.Lo + 1 + splitmix(seed, k, 4)%3}
		}
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

func init() {
	addPart("T01", bubble("long", 24, 800, "always: many messages", func(t *rapid.T) t01Long {
		c := t01Long{PA: crowdPlan(t), PB: crowdPlan(t), N: crowd(t, 70000), Body: pick(t, "body", []int{0, 30, 300})}
		c.CA, c.CB = genCfgPair(t)
		c.M = intn(t, "m", 0, c.N/10)
		return c
	}, runT01Long))
	addPart("T05", bubble("crowd", 240, 12000, "always: many goroutines", func(t *rapid.T) t05Case {
		c := t05Case{S: crowdSink(t, []string{"client", "server"}), HB: intn(t, "hb", 0, 100), Dress: genDress(t)}
		for i, n := 0, crowd(t, 90); i < n; i++ {
			c.Groups = append(c.Groups, t05Group{Kind: pick(t, "kind", []string{"oneway", "oneway", "request", "ping"}), N: intn(t, "n", 1, 6), Body: pick(t, "body", []int{0, 1, 30, 500, 5000})})
		}
		return c
	}, runT05))
	addPart("T06", bubble("crowd", 240, 12000, "always: many outstanding requests", func(t *rapid.T) t06Many {
		return t06Many{S: crowdSink(t, []string{"client", "server"}), N: crowd(t, 1200), Seed: rapid.Uint64().Draw(t, "seed"), Own: coin(t, "own"), Cancel: pick(t, "cancel", []int{0, 0, 10, 60}), Rounds: intn(t, "rounds", 1, 3)}
	}, runT06Many))
	addPart("T08", bubble("crowd", 200, 10000, "always: many outstanding pings", func(t *rapid.T) t08Many {
		return t08Many{S: crowdSink(t, []string{"client", "server"}), N: crowd(t, 600), Seed: rapid.Uint64().Draw(t, "seed"), Cancel: pick(t, "cancel", []int{0, 0, 10, 60}), HB: pick(t, "hb", []int{0, 5, 400})}
	}, runT08Many))
	addPart("T11", bubble("crowd", 160, 8000, "always: many clients", func(t *rapid.T) t11Case {
		c := t11Case{PC: crowdPlan(t), PS: crowdPlan(t), Dress: genDress(t)}
		if c.Secure = oneIn(t, "secure", 6); c.Secure {
			c.TLS = genTLS(t)
		}
		n := crowd(t, 300)
		if c.Secure {
			n = n/4 + 1
		}
		op := func(op string) {
			c.Steps = append(c.Steps, t11Step{Op: op, I: intn(t, "i", 0, n), N: intn(t, "n", 1, 3)})
		}
		for i := 0; i < n; i++ {
			op("connect")
		}
		for i, n := 0, intn(t, "steps", 1, 12); i < n; i++ {
			op(pick(t, "op", []string{"storm", "storm", "srvreq", "push", "bad", "temp", "block", "block", "close", "reset", "connect", "idle"}))
		}
		op("storm")
		op("connect")
		return c
	}, runT11))
	addPart("T12", bubble("crowd", 200, 10000, "always: many proxied connections", func(t *rapid.T) t12Case {
		c := t12Case{PL: crowdPlan(t), PP: crowdPlan(t), Filter: coin(t, "filter"), FilterSeed: rapid.Uint64().Draw(t, "fseed")}
		for i, n := 0, crowd(t, 80); i < n; i++ {
			cl := t12Client{End: pick(t, "end", []string{"", "", "", "client-close", "up-close", "client-reset", "up-reset"})}
			for j, k := 0, intn(t, "up", 1, 3); j < k; j++ {
				cl.Up = append(cl.Up, &msgSpec{Actor: 5, Body: []byte(fmt.Sprint("up ", i, j))})
			}
			for j, k := 0, intn(t, "down", 0, 3); j < k; j++ {
				cl.Down = append(cl.Down, &msgSpec{Actor: 5, Body: []byte(fmt.Sprint("down ", i, j))})
			}
			if oneIn(t, "nofind", 8) {
				cl.Find = pick(t, "find", []string{"error", "dead"})
			}
			c.Clients = append(c.Clients, cl)
		}
		return c
	}, runT12))
	addPart("T17", bubble("crowd", 240, 12000, "always: many handlers", func(t *rapid.T) t17Case {
		a, _ := genCfgPair(t)
		c := t17Case{Cfg: a, Secure: oneIn(t, "secure", 6), TLS: genTLS(t), PC: crowdPlan(t), PS: crowdPlan(t), Clients: intn(t, "clients", 1, 4), Dress: genDress(t)}
		only := pick(t, "only", []string{"block", "block", "sleep", "ask", ""})
		for i, n := 0, crowd(t, 1200); i < n; i++ {
			m := t17Msg{Client: intn(t, "client", 0, 3), At: pick(t, "at", []int{0, 0, 0, 0, 1}), OneWay: oneIn(t, "oneway", 4)}
			op := only
			if op == "" {
				op = pick(t, "op", []string{"sleep", "ask", "ping", "tell", "block"})
			}
			m.Work = []t17Work{{Op: op, Ms: 60000}}
			c.Msgs = append(c.Msgs, m)
		}
		return c
	}, runT17))
	addPart("L02", bubble("crowd", 240, 12000, "always: many sessions", func(t *rapid.T) l02Case {
		c := l02Case{C: genLeaseCfg(t), Ins: intn(t, "ins", 1, 2)}
		n := crowd(t, 100)
		for i := 0; i < n; i++ {
			c.Peers = append(c.Peers, leaseEP{fmt.Sprintf("10.9.%d.1", i/7), uint16(1000 + i%7)})
		}
		for i := 0; i < 2*n; i++ {
			c.Steps = append(c.Steps, l02Step{Op: pick(t, "op", []string{"ping", "ping", "ping", "pong", "pong", "near", "cancel"}), I: intn(t, "i", 0, n-1), J: intn(t, "j", 0, n), N: intn(t, "n", 0, 20), M: genLeaseMsg(t), Fast: !oneIn(t, "slow", 10)})
		}
		return c
	}, runL02))
	addPart("L04", bubble("crowd", 240, 12000, "always: many sessions", func(t *rapid.T) l04Case {
		c := l04Case{C: genLeaseCfg(t), Held: oneIn(t, "held", 3), Again: coin(t, "again")}
		n := crowd(t, 100)
		for i := 0; i < n; i++ {
			c.Peers = append(c.Peers, leaseEP{fmt.Sprintf("10.9.%d.1", i/7), uint16(1000 + i%7)})
		}
		for i := 0; i < n+n/2; i++ {
			st := l04Step{Op: "est", I: i, J: intn(t, "j", 0, n), N: intn(t, "n", 0, 5)}
			if i >= n || oneIn(t, "else", 6) {
				st.Op, st.I = pick(t, "op", []string{"est", "close", "close", "ping", "par", "cut"}), intn(t, "i", 0, n-1)
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}, runL04))
	addPart("N03", bubble("crowd", 60, 3000, "always: many notifications", func(t *rapid.T) n03Case {
		c := n03Case{S: genNamingSink(t), Slow: coin(t, "slow"), Pending: coin(t, "pending")}
		for i, n := 0, intn(t, "steps", 1, 3); i < n; i++ {
			m := genMsg(t, false)
			m.Custom = nil
			c.Steps = append(c.Steps, n03Step{Notify: true, M: m, V: genNotification(t), Wait: coin(t, "wait"), Times: crowd(t, 500)})
		}
		return c
	}, runN03))
	addPart("N06", bubble("crowd", 120, 6000, "always: many clients", func(t *rapid.T) n06Case {
		a, _ := genCfgPair(t)
		c := n06Case{Cfg: a, PC: crowdPlan(t), PS: crowdPlan(t), Delay: pick(t, "delay", []int{0, 5, 1000})}
		n := crowd(t, 120)
		for i := 0; i < n; i++ {
			c.Steps = append(c.Steps, n06Step{Op: "connect"})
		}
		for i, k := 0, intn(t, "steps", 1, 6); i < k; i++ {
			st := n06Step{Op: pick(t, "op", []string{"storm", "storm", "same", "push", "drop", "connect"}), I: intn(t, "i", 0, n), N: intn(t, "n", 1, 5), Seed: rapid.Uint64().Draw(t, "seed")}
			switch st.Op {
			case "push":
				st.V = genNotification(t)
			case "same":
				st.N = pick(t, "same", []int{2, 40, 300})
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}, runN06))
	addPart("F04", bubble("crowd", 500, 20000, "always: many nodes", func(t *rapid.T) f04Case {
		c := f04Case{C: genFedCfg(t, 2)}
		ids := crowdIDs(t, crowd(t, 300), append(seedIDs(c.C), c.C.Self)...)
		tell := crowdInfos(t, ids)
		for len(tell) > 0 {
			n := min(len(tell), 80) // of one announcement
			c.Steps = append(c.Steps, f04Step{Tell: tell[:n], Target: genID(t, ids[:min(len(ids), 20)]...)})
			tell = tell[n:]
		}
		for i, n := 0, intn(t, "steps", 1, 12); i < n; i++ {
			st := f04Step{Direct: oneIn(t, "direct", 3), Target: genID(t, append([]id128{c.C.Self}, ids[:min(len(ids), 20)]...)...)}
			if st.Direct || oneIn(t, "exact", 4) {
				st.Target = ids[intn(t, "which", 0, len(ids)-1)]
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}, runF04))
	addPart("F07", bubble("crowd", 240, 12000, "always: many partners", func(t *rapid.T) f07Case {
		c := f07Case{C: genFedCfg(t, 2)}
		ids := crowdIDs(t, crowd(t, 90), append(seedIDs(c.C), c.C.Self)...)
		c.Steps = append(c.Steps, f07Step{M: &msgSpec{Actor: 6}, Tell: crowdInfos(t, ids)})
		for i, n := 0, intn(t, "steps", 1, 4); i < n; i++ {
			c.Steps = append(c.Steps, f07Step{M: &msgSpec{Actor: 6, Body: []byte("x")}, NoID: coin(t, "noid"), Target: intn(t, "target", 0, 99), Direct: coin(t, "direct")})
		}
		return c
	}, runF07))
	addPart("F08", bubble("long", 100, 4000, "messages were sent concurrently, a connection was replaced, or the node closed during a dial", func(t *rapid.T) f08Case {
		c := f08Case{C: genFedCfg(t, 2), Held: oneIn(t, "held", 3)}
		ids := crowdIDs(t, crowd(t, 60), append(seedIDs(c.C), c.C.Self)...)
		for i, f := range crowdInfos(t, ids) {
			f.Addr = fmt.Sprintf("10.0.3.%d:1", i*2/3)
			c.Nodes = append(c.Nodes, f)
		}
		for i, n := 0, intn(t, "steps", 20, 200); i < n; i++ {
			c.Steps = append(c.Steps, f08Step{Op: pick(t, "op", []string{"send", "send", "send", "kill", "race", "fail", "ok", "hold", "release", "idle"}), I: intn(t, "i", 0, 70), N: pick(t, "n", []int{1, 1, 2, 5, 60}), Reset: coin(t, "reset"), Route: oneIn(t, "route", 4)})
		}
		return c
	}, runF08))
	addPart("F09", bubble("crowd", 150, 8000, "always: many requests at once", func(t *rapid.T) f09Conc {
		return f09Conc{C: genFedCfg(t, 1), N: crowd(t, 900), Seed: rapid.Uint64().Draw(t, "seed"), Conns: intn(t, "conns", 0, 3), Errs: []int64{0, 0, pick(t, "err", []int64{0, 5})}}
	}, runF09Conc))
	addPart("F10", bubble("crowd", 80, 4000, "always: many nodes", func(t *rapid.T) f10Case {
		c := f10Case{C: genFedCfg(t, 2)}
		ids := append(seedIDs(c.C), crowdIDs(t, crowd(t, 80), append(seedIDs(c.C), c.C.Self)...)...)
		var all []*fedInfo
		for i, id := range ids {
			nd := f10Node{Info: &fedInfo{ID: id, Addr: fmt.Sprintf("10.0.4.%d:1", i)}, Fail: oneIn(t, "fail", 12)}
			for _, s := range c.C.Seeds {
				if s.ID == id {
					nd.Info.Addr = s.Addr
				}
			}
			all = append(all, &fedInfo{ID: id, Inst: uint64(intn(t, "inst", 1, 3)), Phase: 2, Addr: nd.Info.Addr})
			c.Nodes = append(c.Nodes, nd)
		}
		for i := range c.Nodes {
			for j, n := 0, intn(t, "tells", 0, 2); j < n; j++ {
				from := intn(t, "from", 0, len(all)-1)
				c.Nodes[i].Tells = append(c.Nodes[i].Tells, f10Tell{Info: all[from:min(len(all), from+intn(t, "len", 1, 40))], Ms: pick(t, "ms", []int{0, 0, 1, 200}), In: coin(t, "in")})
			}
		}
		return c
	}, runF10))
}

// ---------------------------------------------------------------- T09: more identities than a narrow counter has

type t09Long struct {
	N, Threads int
}

func runT09Long(x *X, c t09Long) {
	gen, err := transport.NewMessageIdGenerator()
	if err != nil {
		x.Failf("NewMessageIdGenerator: %v", err)
	}
	ids := make([][]transport.MessageId, c.Threads)
	done := make(chan struct{})
	for th := range ids {
		go func() {
			for i := 0; i < c.N/c.Threads; i++ {
				ids[th] = append(ids[th], gen.Next())
			}
			done <- struct{}{}
		}()
	}
	for range ids {
		<-done
	}
	type page struct {
		id transport.MessageId
	}
	seen := map[page]*[1024]uint64{}
	for _, l := range ids {
		for i, id := range l {
			at := id.Index
			k := page{id}
			k.id.Index = at >> 16
			p := seen[k]
			if p == nil {
				p = new([1024]uint64)
				seen[k] = p
			}
			bit := uint64(1) << (at & 63)
			if p[at>>6&1023]&bit != 0 {
				x.Failf("identity %s given again as number %d of %d", id.String(), i, len(l))
			}
			p[at>>6&1023] |= bit
			if id.IsEmpty() {
				x.Failf("empty identity")
			}
		}
	}
	x.NonTrivial()
}

type t09Stream struct {
	S       sinkCfg
	N, Ping int
}

func runT09Stream(x *X, c t09Stream) {
	s := newLive(x, c.S)
	from := len(s.peer.all())
	x.Within("sending", func() {
		for i := 0; i < c.N; i++ {
			m := &transport.Message{}
			m.Headers.Actor = 5
			if err := s.conn.SendOneWay(m); err != nil {
				x.Report("sending message %d: %v", i, err)
				return
			}
			if c.Ping > 0 && i%c.Ping == 0 {
				ctx, cancel := context.WithTimeout(context.Background(), 0)
				s.conn.Ping(ctx)
				s.conn.RequestReply(ctx, &transport.Message{})
				cancel()
			}
		}
	})
	settleShort()
	x.Check()
	seen := map[string]int{}
	for i, f := range s.peer.all()[from:] {
		k := f.m.ID.key()
		if f.m.ID.empty() {
			x.Failf("message %d has no identity", i)
		}
		if o, ok := seen[k]; ok {
			x.Failf("messages %d and %d have the same identity %s", o, i, k)
		}
		seen[k] = i
	}
	if len(seen) < c.N {
		x.Failf("%d of %d messages came", len(seen), c.N)
	}
	x.NonTrivial()
}

func init() {
	addPart("T09", part("long", 24, 400, "always: many identities", func(t *rapid.T) t09Long {
		return t09Long{N: pick(t, "n", []int{70000, 140000, 600000, 1 << 17, 2 << 20, 17 << 20}) + intn(t, "more", 0, 1000), Threads: intn(t, "threads", 1, 4)}
	}, runT09Long))
	addPart("T09", bubble("stream", 24, 500, "always: many messages", func(t *rapid.T) t09Stream {
		return t09Stream{S: crowdSink(t, []string{"client", "server"}), N: pick(t, "n", []int{300, 5000, 33000, 66000, 70000}), Ping: pick(t, "ping", []int{0, 1000, 7000})}
	}, runT09Stream))
}
