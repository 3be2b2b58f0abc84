package harness

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- F11: joining

var (
	dTicketGap   = dStruct(dk("range"), dStruct(dk("i64"), dk("i64")))
	dVoteTicket  = dStruct(dk("nodeid"), dk("i64"), dSlice(dTicketGap))
	dGlobalLease = dStruct(dSlice(dVoteTicket), dk("i64"), dk("i64"))
	dStopwatch   = dStruct(dk("i64"))
)

type f11Join struct {
	Action string // of the reply, "" for the usual
	Late   int    // seconds until the reply
	Kind   string // lease, code, trunc, raw, cancel, deadline, fail, hold-cancel, none
	V      *Val
	Err    int64
	Raw    []byte
	Cut    int
	Ms     int
	Via    int
	More   int // unrelated messages before
}

type f11Case struct {
	C     fedCfg
	Nodes []*fedInfo
	Joins []f11Join
}

func runF11(x *X, c f11Case) {
	r := newFedRig(x, c.C)
	ins := []*rawPeer{r.in(), r.inbound()}
	r.tell(ins[0], c.Nodes...)
	to := r.w.up(c.C.Self, c.C.Self)
	seen := 0
	queries := func() (out []fedGot) {
		for _, p := range r.allPeers() {
			for i, f := range p.user() {
				if f.m.Actor == actorFederation && f.m.Action == "NeighborhoodQueryRequest" {
					out = append(out, fedGot{p, f, i})
				}
			}
		}
		return
	}
	for k, j := range c.Joins {
		at := fmt.Sprintf("join %d (%s)", k, j.Kind)
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		if j.Kind == "deadline" {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(j.Ms)*time.Millisecond)
			x.Cleanup(cancel)
		}
		open := false
		for _, p := range r.allPeers() {
			open = open || to != nil && p.addr == to.Addr && p.ended() == nil
		}
		fail := j.Kind == "fail" && to != nil && !open
		hold := j.Kind == "hold-cancel" && to != nil && !open
		if fail {
			r.mu.Lock()
			r.fail[to.Addr] = true
			r.mu.Unlock()
		}
		var gate chan struct{}
		if hold {
			gate = make(chan struct{})
			r.mu.Lock()
			r.hold[to.Addr] = gate
			r.mu.Unlock()
		}
		done := make(chan error, 1)
		go func() { done <- r.n.Join(ctx) }()
		synctest.Wait()
		x.Check()
		r.mu.Lock()
		r.fail = map[string]bool{}
		r.mu.Unlock()
		var err error
		ended := func() bool {
			select {
			case err = <-done:
				done <- err
				return true
			default:
				return false
			}
		}
		if to == nil || fail {
			if !ended() || err == nil {
				x.Failf("%s: nobody can be asked: ended %v with %v", at, ended(), err)
			}
			continue
		}
		if hold {
			if ended() {
				x.Failf("%s: ended while connecting: %v", at, err)
			}
			cancel()
			synctest.Wait()
			if !ended() || !errors.Is(err, context.Canceled) {
				x.Failf("%s: cancelled while connecting: ended %v with %v", at, ended(), err)
			}
			r.mu.Lock()
			close(gate)
			delete(r.hold, to.Addr)
			r.mu.Unlock()
			synctest.Wait()
			x.Check()
			seen = len(queries()) // it may have been written, late
			continue
		}
		if ended() {
			x.Failf("%s: ended without a reply: %v", at, err)
		}
		qs := queries()
		if len(qs) != seen+1 {
			x.Failf("%s: %d queries written", at, len(qs)-seen)
		}
		var q fedGot
		newest := map[string]bool{}
		for _, g := range qs {
			if newest[g.f.m.ID.key()] {
				x.Failf("%s: two queries with the id %s", at, g.f.m.ID.key())
			}
			newest[g.f.m.ID.key()] = true
		}
		for _, g := range qs { // the last one of its connection
			if g.p.addr == to.Addr && g.p.ended() == nil && (q.p == nil || g.i > q.i) {
				q = g
			}
		}
		if q.p == nil {
			x.Failf("%s: the node next on the ring, %v at %s, was not asked", at, to.ID.node(), to.Addr)
		}
		seen++
		h, e := readFedHeaders(q.f.m)
		if e != nil {
			x.Failf("%s: %v", at, e)
		}
		if id, _ := instOf(h.ptop.L[1]); id != to.ID || h.routing == nil || !q.f.m.Expect {
			x.Failf("%s: the query goes to %v (routed %v, expects a reply %v), the node next on the ring is %v", at, id.node(), h.routing != nil, q.f.m.Expect, to.ID.node())
		}
		if v, e := refUnmarshal(dStopwatch, q.f.m.Body, ""); e != nil {
			x.Failf("%s: the query holds %v (% x)", at, v, q.f.m.Body)
		}
		via := append(ins, q.p.rawPeer)[j.Via%3]
		for i := 0; i < j.More; i++ {
			m := &msgSpec{ID: msgID{X: 3}, Rel: msgID{X: uint32(i)}, Actor: actorFederation, Action: "NeighborhoodQueryReply", Body: refMarshal(dGlobalLease, j.V, "")}
			if i == 0 {
				m.ID, m.Rel = q.f.m.ID, msgID{}
			}
			via.send(m)
		}
		synctest.Wait()
		if ended() && (j.Kind != "deadline") {
			x.Failf("%s: ended with a message that does not relate to the query: %v", at, err)
		}
		m := &msgSpec{ID: msgID{X: 4}, Rel: q.f.m.ID, Actor: actorFederation, Action: "NeighborhoodQueryReply", Body: refMarshal(dGlobalLease, j.V, "")}
		if j.Action != "" {
			m.Action = j.Action
		}
		if j.Late > 0 && j.Kind != "deadline" {
			time.Sleep(time.Duration(j.Late) * time.Second)
			synctest.Wait()
			if ended() {
				x.Failf("%s: ended without a reply within %d seconds: %v", at, j.Late, err)
			}
			x.Label("late")
		}
		switch j.Kind {
		case "cancel", "hold-cancel":
			cancel()
		case "deadline":
			time.Sleep(time.Duration(j.Ms) * time.Millisecond)
		default:
			switch j.Kind {
			case "code":
				m.Err = j.Err
			case "trunc":
				m.Body = m.Body[:j.Cut%len(m.Body)]
			case "raw":
				m.Body = j.Raw
			}
			via.send(m)
		}
		synctest.Wait()
		x.Check()
		if !ended() {
			x.Failf("%s: goes on", at)
		}
		switch j.Kind {
		case "lease", "fail":
			if err != nil {
				x.Failf("%s: the query was answered with a lease: %v", at, err)
			}
		case "code", "trunc":
			if err == nil {
				x.Failf("%s: no error (code %d, % x)", at, m.Err, clipBytes(m.Body, 100))
			}
		case "cancel", "deadline", "hold-cancel":
			if !errors.Is(err, ctx.Err()) {
				x.Failf("%s: ended with %v, its context with %v", at, err, ctx.Err())
			}
		}
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- F12: nodes among themselves

type f12Step struct {
	Op   string // send, route, tell, restart, burst
	I, J int
	To   id128
	Info []*fedInfo
	Move bool // restarts at another address
	Pair [][2]int
	Body []byte
}

type f12Case struct {
	IDs   []id128
	Seeds [][]int // by node, the nodes it has as seeds
	PL    netPlan
	Ext   []id128 // nodes announced that are not there
	Steps []f12Step
}

type f12Node struct {
	id    id128
	inst  uint64
	addr  string
	phase int64
	n     *federation.SiteNode
	ln    *simListener
	w     world
	conns []*simConn // of its own side, made by it or to it
}

type f12Net struct {
	x     *X
	c     f12Case
	mu    sync.Mutex
	lns   map[string]*f12Node
	nodes []*f12Node
	nconn int
}

func (g *f12Net) start(i int, inst uint64, addr string) *f12Node {
	x := g.x
	nd := &f12Node{id: g.c.IDs[i], inst: inst, addr: addr, ln: newSimListener(strAddr(addr)), w: world{}}
	srv, err := transport.Listen(nd.ln, transport.ServerConfig{})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	lln := newSimListener(strAddr(nd.lease()))
	la, err := lease.NewAgent(lease.AgentConfig{}, lln, func(string) (net.Conn, error) { return nil, errors.New("no lease") })
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	cfg := federation.SiteNodeConfig{TransportServer: srv, LeaseAgent: la, Instance: federation.NodeInstance{Id: nd.id.node(), InstanceId: inst}}
	for _, s := range g.c.Seeds[i] {
		s %= len(g.c.IDs)
		f := &fedInfo{ID: g.c.IDs[s], Addr: f12Addr(s, 0), Seed: true}
		cfg.SeedNodes = append(cfg.SeedNodes, federation.SeedNodeInfo{Id: f.ID.node(), Address: f.Addr})
		nd.w.hear(f)
	}
	cfg.ClientDialer = func(a string) (*transport.Client, error) {
		g.mu.Lock()
		defer g.mu.Unlock()
		to := g.lns[a]
		if to == nil {
			return nil, errors.New("connection refused: " + a)
		}
		g.nconn++
		pl, pp := g.c.PL, g.c.PL
		pl.Seed += uint64(g.nconn)
		ca, cb := simPipe(pl, pp, tcpAddr(300+i, g.nconn), to.ln.addr)
		if !to.ln.push(acceptItem{c: cb}) {
			return nil, errors.New("connection refused: " + a)
		}
		nd.conns, to.conns = append(nd.conns, ca), append(to.conns, cb)
		return transport.Connect(ca, transport.ClientConfig{})
	}
	if nd.n, err = federation.NewSiteNode(cfg); err != nil {
		x.Failf("NewSiteNode: %v", err)
	}
	serve := make(chan error, 1)
	go func() { serve <- nd.n.Serve() }()
	x.Cleanup(func() { nd.n.Close(); nd.ln.Close(); lln.Close(); nd.drop() })
	g.mu.Lock()
	g.lns[addr] = nd
	g.mu.Unlock()
	return nd
}

// drop ends all connections, as the end of the process does.
func (nd *f12Node) drop() {
	for _, c := range nd.conns {
		c.Close()
	}
}

func f12Addr(i, gen int) string { return fmt.Sprintf("10.1.%d.%d:1025", gen, i+1) }

func (nd *f12Node) lease() string { return nd.addr + "7" }

func (nd *f12Node) self() *fedInfo {
	return &fedInfo{ID: nd.id, Inst: nd.inst, Phase: nd.phase, Addr: nd.addr, LAddr: nd.lease(), Seed: true}
}

// tells is what a message of the node says.
func (nd *f12Node) tells() (out []*fedInfo) {
	out = append(out, nd.self())
	for _, id := range nd.w.ids() {
		if f := nd.w[id]; f.Inst > 0 && id != nd.id {
			out = append(out, f)
		}
	}
	return
}

func (nd *f12Node) hear(fs []*fedInfo) {
	for _, f := range fs {
		if nd.w.hear(f) && f.Phase == phaseRouting && f.ID != nd.id {
			nd.phase = phaseJoining
		}
	}
}

func runF12(x *X, c f12Case) {
	g := &f12Net{x: x, c: c, lns: map[string]*f12Node{}}
	for i := range c.IDs {
		g.nodes = append(g.nodes, g.start(i, uint64(10+i), f12Addr(i, 0)))
	}
	synctest.Wait()
	table := func(nd *f12Node) map[id128]federation.PartnerNodeInfo {
		got := map[id128]federation.PartnerNodeInfo{}
		for _, p := range nd.n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
			id := id128{Hi: p.Instance.Id.Hi, Lo: p.Instance.Id.Lo}
			if id != nd.id { // what it makes of news about itself is not judged
				got[id] = p
			}
		}
		return got
	}
	check := func(at string) {
		synctest.Wait()
		x.Check()
		for i, nd := range g.nodes {
			got := table(nd)
			want := 0
			for _, id := range nd.w.ids() {
				if id == nd.id {
					continue
				}
				want++
				p, ok := got[id]
				if !ok {
					x.Failf("%s: node %d does not know %v", at, i, id.node())
				}
				if w := nd.w[id].lib(); !sameInfo(p, w) {
					x.Failf("%s: node %d knows %v as %+v, it was told %+v", at, i, id.node(), p, w)
				}
			}
			if len(got) != want {
				x.Failf("%s: node %d knows %d nodes instead of %d", at, i, len(got), want)
			}
		}
	}
	reach := func(to *fedInfo) *f12Node {
		g.mu.Lock()
		defer g.mu.Unlock()
		return g.lns[to.Addr]
	}
	gen, learnt, unsure := 0, 0, false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		nd := g.nodes[st.I%len(g.nodes)]
		switch st.Op {
		case "send", "route":
			target := g.c.IDs[st.J%len(g.c.IDs)]
			if st.Op == "route" {
				target = st.To
			}
			want := nd.w.up(target, nd.id)
			if st.Op == "send" && want != nil && want.ID != target {
				want = nil
			}
			m := (&msgSpec{Actor: 6, Action: "x", Body: st.Body}).lib()
			ctx, cancel := x.ctx(context.Background())
			x.Cleanup(cancel)
			done := make(chan error, 1)
			go func() {
				if st.Op == "send" {
					done <- nd.n.SendOneWay(target.node(), m)
				} else {
					_, err := nd.n.Route(ctx, target.node(), m)
					done <- err
				}
			}()
			synctest.Wait()
			x.Check()
			var at2 *f12Node
			if want != nil {
				at2 = reach(want)
			}
			var err error
			ended := false
			select {
			case err = <-done:
				ended = true
			default:
			}
			if at2 == nil {
				if !ended || err == nil {
					x.Failf("%s: to %v, which cannot be reached: ended %v with %v", at, target.node(), ended, err)
				}
			} else {
				if ended != (st.Op == "send") || err != nil {
					x.Failf("%s: to %v at %s: ended %v with %v", at, want.ID.node(), want.Addr, ended, err)
				}
				n := len(at2.w)
				at2.hear(nd.tells())
				if len(at2.w) > n && len(nd.w) > 1 {
					learnt++
				}
			}
			cancel()
		case "tell":
			g.nconn++
			a, err := nd.ln.connect(g.c.PL, g.c.PL, tcpAddr(200, g.nconn))
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			p := newRawPeer(x, a, a, crcCfg{})
			p.pump()
			p.send(announcement(st.Info...))
			nd.hear(st.Info)
		case "restart":
			i := st.I % len(g.nodes)
			addr := nd.addr
			if st.Move {
				gen++
				addr = f12Addr(i, gen)
			}
			g.mu.Lock()
			delete(g.lns, nd.addr)
			g.mu.Unlock()
			nd.n.Close()
			nd.ln.Close()
			nd.drop()
			synctest.Wait()
			x.Check()
			g.nodes[i] = g.start(i, nd.inst+100, addr)
		case "burst":
			// everybody talks at once: at least what each knew before arrives, at most what anybody knew
			before := map[*f12Node][]*fedInfo{}
			joining := false // somebody speaks of a routing node, be it old news
			for _, n := range g.nodes {
				before[n] = n.tells()
				for _, f := range before[n] {
					joining = joining || f.Phase == phaseRouting
				}
			}
			var wg sync.WaitGroup
			gate := make(chan struct{})
			atLeast := map[*f12Node]world{}
			for _, pr := range st.Pair {
				from, to := g.nodes[pr[0]%len(g.nodes)], g.nodes[pr[1]%len(g.nodes)]
				f := from.w[to.id]
				if from == to || f == nil {
					continue
				}
				if d := reach(f); d != nil {
					if atLeast[d] == nil {
						atLeast[d] = world{}
					}
					for _, b := range before[from] {
						atLeast[d].hear(b)
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					from.n.SendOneWay(to.id.node(), (&msgSpec{Actor: 6, Action: "x"}).lib())
				}()
			}
			close(gate)
			synctest.Wait()
			x.Check()
			x.Within("the messages", wg.Wait)
			for i, n := range g.nodes {
				got := table(n)
				for id, f := range atLeast[n] {
					if id == n.id {
						continue
					}
					p, ok := got[id]
					if !ok || p.Instance.InstanceId < f.Inst || p.Instance.InstanceId == f.Inst && int64(p.Phase) < f.Phase {
						x.Failf("%s: node %d was told that %v is of instance %d and phase %d, and knows %+v", at, i, id.node(), f.Inst, f.Phase, p)
					}
				}
				for id, p := range got {
					if o := n.w[id]; o != nil && sameInfo(p, o.lib()) {
						continue
					}
					// somebody's information, or a node that went on while talking
					ok := false
					for _, o := range g.nodes {
						if id == o.id {
							s := o.self()
							ok = ok || sameInfo(p, s.lib())
							s.Phase = phaseJoining
							ok = ok || joining && sameInfo(p, s.lib())
						}
						for _, f := range before[o] {
							ok = ok || f.ID == id && sameInfo(p, f.lib())
						}
					}
					if !ok {
						x.Failf("%s: node %d knows %v as %+v, nobody said that", at, i, id.node(), p)
					}
				}
			}
			// what they made of it is where to go on
			for _, n := range g.nodes {
				w := world{}
				was := n.phase
				for id, p := range table(n) {
					f := &fedInfo{ID: id, Inst: p.Instance.InstanceId, Phase: int64(p.Phase), Addr: p.Address, LAddr: p.LeaseAgentAddress, LInst: p.LeaseAgentInstanceId, Ver: p.Token.Version, E2E: p.EndToEnd, Ring: p.RingName, Seed: p.NodeFaultDomainId.Scheme == "", Path: p.NodeFaultDomainId.PathSegments}
					f.R = [2]id128{{Hi: p.Token.Range.Begin.Hi, Lo: p.Token.Range.Begin.Lo}, {Hi: p.Token.Range.End.Hi, Lo: p.Token.Range.End.Lo}}
					w[id] = f
					if f.Phase == phaseRouting {
						n.phase = phaseJoining
					}
				}
				n.w = w
				// it may have heard of a routing node and then newer news of that one
				unsure = unsure || joining && was != phaseJoining && n.phase != phaseJoining
			}
			learnt++
		}
		check(at)
		if unsure {
			break
		}
	}
	if learnt > 0 {
		x.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "F11",
		Parts: []Part{bubble("joins", 15000, 300000, "a node was asked", func(t *rapid.T) f11Case {
			c := f11Case{C: genFedCfg(t, 2)}
			if oneIn(t, "alone", 8) {
				c.C.Seeds = []fedSeed{{c.C.Self, fedSelfAddr}}
			}
			var ids []id128
			for _, s := range c.C.Seeds {
				if s.ID != c.C.Self {
					ids = append(ids, s.ID)
				}
			}
			if len(ids) > 0 {
				ids = append(ids, genFedIDs(t, 0, 3, append(ids, c.C.Self)...)...)
				for i, n := 0, intn(t, "nodes", 0, 4); i < n; i++ {
					c.Nodes = append(c.Nodes, genFedInfo(t, pick(t, "who", ids)))
				}
			}
			for i, n := 0, intn(t, "joins", 1, 4); i < n; i++ {
				j := f11Join{Kind: pick(t, "kind", []string{"lease", "lease", "code", "trunc", "raw", "cancel", "deadline", "fail", "hold-cancel"}), Err: int64(pick(t, "err", []uint64{1, 0x80071BBC, 1 << 63, ^uint64(0)})), Cut: intn(t, "cut", 0, 2000), Ms: intn(t, "ms", 1, 100000), Via: intn(t, "via", 0, 2), More: pick(t, "more", []int{0, 0, 1, 3})}
				if oneIn(t, "action", 5) {
					j.Action = pick(t, "what", []string{"NeighborhoodQueryRequest", "x", "VotePingReply"})
				}
				if oneIn(t, "late", 6) {
					j.Late = pick(t, "seconds", []int{1, 40, 70, 200, 700, 4000, 100000})
				}
				size := 12
				j.V = genVal(t, dGlobalLease, genOpts{}, &size, false)
				if j.Kind == "raw" {
					j.Raw = genBytes(t, "raw", 0, 40)
				}
				c.Joins = append(c.Joins, j)
			}
			return c
		}, runF11)},
		Assumptions: []string{"replies of random bytes only have to be survived", "the time a query holds is not judged"},
	})
	register(&Prop{
		ID: "F12",
		Parts: []Part{bubble("gossip", 37500, 750000, "a node learned of others through another one", func(t *rapid.T) f12Case {
			h := fedHist{}
			c := f12Case{PL: genPlan(t, false)}
			c.PL.Delay, c.PL.Cap = 0, 0
			c.IDs = genFedIDs(t, 2, 5)
			c.Ext = genFedIDs(t, 1, 3, c.IDs...)
			for range c.IDs {
				s := []int{intn(t, "seed", 0, len(c.IDs)-1)}
				for oneIn(t, "more", 3) {
					s = append(s, intn(t, "seed", 0, len(c.IDs)-1))
				}
				c.Seeds = append(c.Seeds, s)
			}
			for i, n := 0, intn(t, "steps", 1, 14); i < n; i++ {
				st := f12Step{Op: pick(t, "op", []string{"send", "send", "send", "send", "route", "route", "tell", "restart", "burst"}), I: intn(t, "i", 0, 4), J: intn(t, "j", 0, 4)}
				switch st.Op {
				case "route":
					st.To = genID(t, append(c.Ext, c.IDs...)...)
					st.Body = genBytes(t, "body", 0, 20)
				case "tell":
					for j, m := 0, intn(t, "infos", 1, 3); j < m; j++ {
						f := h.next(t, pick(t, "ext", c.Ext))
						f.Inst = max(f.Inst, 1)
						st.Info = append(st.Info, f)
					}
				case "restart":
					st.Move = coin(t, "move")
				case "burst":
					for j, m := 0, intn(t, "pairs", 2, 12); j < m; j++ {
						st.Pair = append(st.Pair, [2]int{intn(t, "from", 0, 4), intn(t, "to", 0, 4)})
					}
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runF12)},
		Assumptions: []string{"what a node makes of news about itself is not judged", "a node that ends takes its connections with it"},
	})
}
