package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// The federation properties: a site node whose partners are raw peers.

const (
	hPartner, hRouting, hPToP = 0x800c, 0x8010, 0x8013
	actorFederation           = int64(transport.MessageActorTypeFederation)

	phaseBooting, phaseJoining, phaseRouting, phaseShutdown = 0, 1, 3, 4
)

func dStruct(fs ...*Desc) *Desc { return &Desc{K: "struct", Fields: fs} }
func dk(k string) *Desc         { return &Desc{K: k} }

var (
	dInstance = dStruct(dk("nodeid"), dk("u64"))
	dUri      = dStruct(dk("i64"), dk("str"), dk("str"), dk("i64"), dk("str"), dk("i32"), dk("str"), dk("str"), dk("str"), &Desc{K: "slice", Elem: dk("str")})
	dPartner  = dStruct(dInstance, dk("i64"), dk("str"), dStruct(dk("range"), dk("u64")), dk("str"), dk("i64"), dk("bool"), dUri, dk("str"), dk("i32"))
	dPToP     = dStruct(dInstance, dInstance, dk("i64"), dk("str"), dk("str"), dk("bool"))
	dRouting  = dStruct(dInstance, dInstance, dk("guid"), dk("u32"), dk("bool"), dk("bool"), dk("i64"), dk("i64"), dk("str"), dk("str"))
)

// fedInfo is what is announced about a node.
type fedInfo struct {
	ID    id128    `json:"id"`
	Inst  uint64   `json:"n,omitempty"`
	Phase int64    `json:"p,omitempty"`
	Addr  string   `json:"a"`
	LAddr string   `json:"la,omitempty"`
	LInst int64    `json:"li,omitempty"`
	R     [2]id128 `json:"r"`
	Ver   uint64   `json:"v,omitempty"`
	E2E   bool     `json:"e,omitempty"`
	Path  []string `json:"path,omitempty"`
	Ring  string   `json:"ring,omitempty"`
	Flags int32    `json:"f,omitempty"`
	Seed  bool     `json:"-"` // configured, not announced
}

func idVal(i id128) *Val { return &Val{U: i.Hi, H: i.Lo} }

func (f *fedInfo) val() *Val {
	b := &Val{}
	if f.E2E {
		b.U = 1
	}
	path := &Val{}
	for _, s := range f.Path {
		path.L = append(path.L, &Val{S: s})
	}
	z := func() *Val { return &Val{} }
	uri := &Val{L: []*Val{{U: 1}, {S: "fabric"}, z(), z(), z(), {U: 19000}, z(), z(), z(), path}}
	return &Val{L: []*Val{{L: []*Val{idVal(f.ID), {U: f.Inst}}}, {U: uint64(f.Phase)}, {S: f.Addr}, {L: []*Val{{L: []*Val{idVal(f.R[0]), idVal(f.R[1])}}, {U: f.Ver}}}, {S: f.LAddr}, {U: uint64(f.LInst)}, b, uri, {S: f.Ring}, {U: uint64(int64(f.Flags))}}}
}

func (f *fedInfo) header() customSpec {
	return customSpec{ID: hPartner, Raw: refMarshal(dPartner, f.val(), "")}
}

// lib is the information as the library keeps it.
func (f *fedInfo) lib() federation.PartnerNodeInfo {
	p := federation.PartnerNodeInfo{
		Instance: federation.NodeInstance{Id: f.ID.node(), InstanceId: f.Inst}, Phase: federation.NodePhase(f.Phase), Address: f.Addr,
		LeaseAgentAddress: f.LAddr, LeaseAgentInstanceId: f.LInst, EndToEnd: f.E2E, RingName: f.Ring,
	}
	p.Token.Range = federation.NodeIdRange{Begin: f.R[0].node(), End: f.R[1].node()}
	p.Token.Version = f.Ver
	if !f.Seed {
		p.NodeFaultDomainId = common.Uri{Type: 1, Scheme: "fabric", Port: 19000, PathSegments: f.Path}
	}
	return p
}

func sameInfo(a, b federation.PartnerNodeInfo) bool {
	if len(a.NodeFaultDomainId.PathSegments) == 0 {
		a.NodeFaultDomainId.PathSegments = nil
	}
	if len(b.NodeFaultDomainId.PathSegments) == 0 {
		b.NodeFaultDomainId.PathSegments = nil
	}
	return reflect.DeepEqual(a, b)
}

// newer is the order of knowledge about one node.
func (f *fedInfo) newer(o *fedInfo) bool {
	if f.Inst != o.Inst {
		return f.Inst > o.Inst
	}
	return f.Phase > o.Phase
}

// world is the model of what a node knows.
type world map[id128]*fedInfo

func (w world) hear(f *fedInfo) bool {
	if o := w[f.ID]; o == nil || f.newer(o) {
		w[f.ID] = f
		return true
	}
	return false
}

func (w world) ids() []id128 {
	var out []id128
	for id := range w {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Hi < out[j].Hi || out[i].Hi == out[j].Hi && out[i].Lo < out[j].Lo
	})
	return out
}

// up is the first node met walking up the ring from target, without self.
func (w world) up(target, self id128) *fedInfo {
	var best *fedInfo
	var dist *big.Int
	for _, id := range w.ids() {
		if id == self {
			continue
		}
		d := ringUp(target.node(), id.node())
		if best == nil || d.Cmp(dist) < 0 {
			best, dist = w[id], d
		}
	}
	return best
}

// ---------------------------------------------------------------- rig

type fedPeer struct {
	*rawPeer
	addr string
	lib  *simConn
}

type fedCfg struct {
	Self  id128
	Inst  uint64
	Seeds []fedSeed
	PL    netPlan
	PP    netPlan
}

type fedSeed struct {
	ID   id128
	Addr string
}

type fedRig struct {
	x     *X
	c     fedCfg
	n     *federation.SiteNode
	ln    *simListener
	lln   *simListener
	serve chan error
	w     world

	mu     sync.Mutex
	peers  []*fedPeer
	dials  map[string][]time.Time
	fail   map[string]bool
	hold   map[string]chan struct{}
	on     func(*fedPeer, *peerFrame)
	nin    int
	inPeer *rawPeer

	routing bool // a routing node was announced
}

const fedSelfAddr, fedLeaseAddr = "10.0.0.1:1025", "10.0.0.1:1027"

func (r *fedRig) dial(addr string) (*transport.Client, error) {
	r.mu.Lock()
	r.dials[addr] = append(r.dials[addr], time.Now())
	hold := r.hold[addr]
	r.mu.Unlock()
	if hold != nil {
		<-hold
	}
	r.mu.Lock()
	fail := r.fail[addr]
	r.mu.Unlock()
	if fail {
		return nil, errors.New("connection refused: " + addr)
	}
	lib, peer := simPipe(r.c.PL, r.c.PP, tcpAddr(1, 4000), strAddr(addr))
	p := &fedPeer{rawPeer: newRawPeer(r.x, peer, peer, crcCfg{}), addr: addr, lib: lib}
	p.on = func(f *peerFrame) {
		r.mu.Lock()
		on := r.on
		r.mu.Unlock()
		if on != nil {
			on(p, f)
		}
	}
	p.pump()
	r.mu.Lock()
	r.peers = append(r.peers, p)
	r.mu.Unlock()
	r.x.Cleanup(func() { lib.Close() })
	return transport.Connect(lib, transport.ClientConfig{})
}

func newFedRig(x *X, c fedCfg) *fedRig {
	r := &fedRig{x: x, c: c, dials: map[string][]time.Time{}, fail: map[string]bool{}, hold: map[string]chan struct{}{}, w: world{}}
	r.ln, r.lln = newSimListener(strAddr(fedSelfAddr)), newSimListener(strAddr(fedLeaseAddr))
	srv, err := transport.Listen(r.ln, transport.ServerConfig{})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	la, err := lease.NewAgent(lease.AgentConfig{}, r.lln, func(string) (net.Conn, error) { return nil, errors.New("no lease") })
	if err != nil {
		x.Failf("NewAgent: %v", err)
	}
	cfg := federation.SiteNodeConfig{ClientDialer: r.dial, TransportServer: srv, LeaseAgent: la, Instance: federation.NodeInstance{Id: c.Self.node(), InstanceId: c.Inst}}
	for _, s := range c.Seeds {
		cfg.SeedNodes = append(cfg.SeedNodes, federation.SeedNodeInfo{Id: s.ID.node(), Address: s.Addr})
		r.w.hear(&fedInfo{ID: s.ID, Addr: s.Addr, Seed: true})
	}
	n, err := federation.NewSiteNode(cfg)
	if err != nil {
		x.Failf("NewSiteNode: %v", err)
	}
	r.n = n
	r.serve = make(chan error, 1)
	go func() { r.serve <- n.Serve() }()
	x.Cleanup(func() {
		n.Close()
		r.mu.Lock()
		for _, h := range r.hold {
			close(h)
		}
		r.hold = map[string]chan struct{}{}
		r.fail = map[string]bool{}
		r.mu.Unlock()
		r.ln.Close()
		r.lln.Close()
	})
	return r
}

// inbound is a connection made by a partner.
func (r *fedRig) inbound() *rawPeer {
	r.nin++
	a, err := r.ln.connect(r.c.PP, r.c.PL, tcpAddr(100+r.nin, 4000))
	if err != nil {
		r.x.Failf("the node does not listen any more")
	}
	p := newRawPeer(r.x, a, a, crcCfg{})
	p.pump()
	return p
}

// in is one such connection, kept.
func (r *fedRig) in() *rawPeer {
	if r.inPeer == nil || r.inPeer.ended() != nil {
		r.inPeer = r.inbound()
	}
	return r.inPeer
}

func announcement(fs ...*fedInfo) *msgSpec {
	m := &msgSpec{ID: msgID{X: 12345}, Actor: actorFederation, Action: "VotePingReply"}
	for _, f := range fs {
		m.Custom = append(m.Custom, f.header())
	}
	return m
}

// newsKinds are messages that carry news: partner headers count whatever the message is.
var newsKinds = []string{"", "", "", "reply", "late", "actor", "error", "request", "body", "mixed"}

// genNewsKind draws one of them, and the actor that has the news.
func genNewsKind(t *rapid.T) string {
	k := pick(t, "kind", newsKinds)
	if k == "actor" {
		k = fmt.Sprint(k, " ", pick(t, "actor", []int{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 30, 40, 65534}))
	}
	return k
}

// newsOf is a message of the kind. A reply relates to the outstanding request rel.
func newsOf(kind string, rel msgID, fs ...*fedInfo) *msgSpec {
	m := announcement(fs...)
	switch kind {
	case "reply":
		m.Rel = rel
	case "late":
		m.Rel = msgID{G: Val{U: 77}, X: 3}
	default:
		if n := 0; kind != "" {
			if _, err := fmt.Sscanf(kind, "actor %d", &n); err != nil {
				panic(harnessError("news kind " + kind))
			}
			m.Actor, m.Action = int64(n), ""
		}
	case "error":
		m.Err, m.Fault = -2147017408, true
	case "request":
		m.Expect, m.Action = true, "NeighborhoodQueryRequest"
	case "body":
		m.Body = []byte("no object")
	case "mixed":
		m.ID = msgID{}
		m.Custom = append([]customSpec{{ID: 0x1234, Raw: []byte{1, 2, 3}}}, m.Custom...)
		m.Custom = append(m.Custom, customSpec{ID: 0x1235})
	}
	return m
}

// route starts a routed request of its own, for news to be its reply.
func (r *fedRig) route(target id128, n int) msgID {
	id := msgID{G: Val{U: 9}, X: uint32(n + 1)}
	ctx, cancel := r.x.ctx(context.Background())
	r.x.Cleanup(cancel)
	m := (&msgSpec{ID: id, Actor: 6, Action: "q"}).lib()
	go r.n.Route(ctx, target.node(), m)
	return id
}

// tell announces nodes and waits until that is taken.
func (r *fedRig) tell(p *rawPeer, fs ...*fedInfo) { r.tellAs(p, announcement(fs...), fs...) }

func (r *fedRig) tellAs(p *rawPeer, m *msgSpec, fs ...*fedInfo) {
	p.send(m)
	synctest.Wait()
	r.x.Check()
	for _, f := range fs {
		if r.w.hear(f) && f.Phase == phaseRouting {
			r.routing = true
		}
	}
}

func (r *fedRig) allPeers() []*fedPeer {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*fedPeer(nil), r.peers...)
}

func (r *fedRig) nDials(addr string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.dials[addr])
}

// fedGot is a message a peer got.
type fedGot struct {
	p *fedPeer
	f *peerFrame
	i int // index among the user messages of the peer
}

// got lists the messages with the id that peers received.
func (r *fedRig) got(id string) (out []fedGot) {
	for _, p := range r.allPeers() {
		for i, f := range p.user() {
			if f.m.ID.key() == id {
				out = append(out, fedGot{p, f, i})
			}
		}
	}
	return
}

// fedHeaders are a message's federation headers.
type fedHeaders struct {
	ptop    *Val
	routing *Val
	partner []*Val
	rest    []customSpec
}

func readFedHeaders(m *msgSpec) (h fedHeaders, err error) {
	for _, c := range m.Custom {
		one := func(d *Desc, at **Val) {
			v, e := refUnmarshal(d, c.Raw, "")
			if e != nil {
				err = fmt.Errorf("header %#x: %v (% x)", c.ID, e, c.Raw)
			} else if *at != nil {
				err = fmt.Errorf("header %#x twice", c.ID)
			}
			*at = v
		}
		switch c.ID {
		case hPToP:
			one(dPToP, &h.ptop)
		case hRouting:
			one(dRouting, &h.routing)
		case hPartner:
			var v *Val
			one(dPartner, &v)
			h.partner = append(h.partner, v)
		default:
			h.rest = append(h.rest, c)
		}
	}
	if err == nil && h.ptop == nil {
		err = errors.New("no point-to-point header")
	}
	return
}

func instOf(v *Val) (id128, uint64) { return id128{Hi: v.L[0].U, Lo: v.L[0].H}, v.L[1].U }

func genFedAddr(t *rapid.T, l string) string {
	if oneIn(t, l+" odd", 25) { // an address is what others say it is, even the node's own
		return pick(t, l, []string{fedSelfAddr, fedLeaseAddr, "site-1.example:19000", "[::1]:19000", "", "x"})
	}
	return fmt.Sprintf("10.0.1.%d:%d", intn(t, l, 1, 40), 19000)
}

func genFedInfo(t *rapid.T, id id128) *fedInfo {
	f := &fedInfo{ID: id, Inst: pick(t, "inst", []uint64{1, 2, 3, 4, 1 << 40, 1<<64 - 1, 0, 5}), Phase: int64(pick(t, "phase", []int{0, 1, 2, 4, 3})), Addr: genFedAddr(t, "addr")}
	if oneIn(t, "odd phase", 25) {
		f.Phase = pick(t, "phase?", []int64{5, 6, 100, 1 << 30})
	}
	if oneIn(t, "detail", 3) {
		f.LAddr, f.LInst, f.Ver, f.E2E, f.Flags = short(genString(t, "laddr")), genInt64(t), rapid.Uint64().Draw(t, "ver"), coin(t, "e2e"), int32(genBits(t, 32, true))
		f.R = [2]id128{genID(t), genID(t)}
		f.Ring = short(genString(t, "ring"))
		f.Path = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return pick(t, "seg", []string{"dc0", "rack", "r", "Ω"}) }), 0, 3).Draw(t, "path")
	}
	return f
}

// short keeps header sections with many nodes below 64 KiB.
func short(s string) string {
	if r := []rune(s); len(r) > 300 {
		return string(r[:300])
	}
	return s
}

// fedHist is what was last said of each node.
type fedHist map[id128]*fedInfo

// next draws news of a node, often a small step from what was said last.
func (h fedHist) next(t *rapid.T, id id128) *fedInfo {
	f := genFedInfo(t, id)
	if o := h[id]; o != nil && coin(t, "step") {
		n := *o
		switch pick(t, "change", []string{"phase", "phase", "inst", "addr", "detail", "none"}) {
		case "phase":
			n.Phase = f.Phase
			if n.Phase == o.Phase {
				n.Phase = (n.Phase + 1) % 5
			}
		case "inst":
			n.Inst++
		case "addr":
			n.Addr = f.Addr
		case "detail":
			n.LAddr, n.LInst, n.Ver, n.E2E, n.Flags, n.R, n.Ring, n.Path = f.LAddr, f.LInst, f.Ver, f.E2E, f.Flags, f.R, f.Ring, f.Path
		}
		f = &n
	}
	h[id] = f
	return f
}

// genFedIDs draws distinct ids, often close to each other.
func genFedIDs(t *rapid.T, lo, hi int, not ...id128) []id128 {
	n := intn(t, "ids", lo, hi)
	seen := map[id128]bool{}
	for _, i := range not {
		seen[i] = true
	}
	var out []id128
	near := append([]id128{}, not...)
	for len(out) < n {
		id := genID(t, near...)
		for seen[id] {
			id.Lo++
			if id.Lo == 0 {
				id.Hi++
			}
		}
		seen[id] = true
		out, near = append(out, id), append(near, id)
	}
	return out
}

func genFedCfg(t *rapid.T, maxSeeds int) fedCfg {
	c := fedCfg{Self: genID(t), Inst: pick(t, "selfinst", []uint64{1, 7, 1 << 63}), PL: genPlan(t, false), PP: genPlan(t, false)}
	c.PL.Delay, c.PP.Delay = 0, 0
	for i, id := range genFedIDs(t, 1, maxSeeds, c.Self) {
		c.Seeds = append(c.Seeds, fedSeed{id, fmt.Sprintf("10.0.2.%d:19000", i+1)})
	}
	if oneIn(t, "selfseed", 4) {
		c.Seeds = append(c.Seeds, fedSeed{c.Self, fedSelfAddr})
	}
	return c
}

// ---------------------------------------------------------------- F04

type f04Step struct {
	Tell   []*fedInfo
	Target id128
	Direct bool
	Expect bool
}

type f04Case struct {
	C     fedCfg
	Steps []f04Step
}

func runF04(x *X, c f04Case) {
	r := newFedRig(x, c.C)
	nt := false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d", k)
		if len(st.Tell) > 0 {
			r.tell(r.in(), st.Tell...)
		}
		if len(r.w) > 2 {
			nt = true
		}
		id := msgID{X: uint32(k + 1)}
		m := (&msgSpec{ID: id, Actor: 6, Action: "x"}).lib()
		want := r.w.up(st.Target, c.C.Self)
		if st.Direct && want != nil && want.ID != st.Target {
			want = nil
		}
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		done := make(chan error, 1)
		go func() {
			if st.Direct {
				done <- r.n.SendOneWay(st.Target.node(), m)
			} else {
				_, err := r.n.Route(ctx, st.Target.node(), m)
				done <- err
			}
		}()
		synctest.Wait()
		x.Check()
		got := r.got(id.key())
		if want == nil {
			if len(got) > 0 {
				x.Failf("%s: a message to %v went to %s, no node should get it", at, st.Target.node(), got[0].p.addr)
			}
			select {
			case err := <-done:
				if err == nil {
					x.Failf("%s: sending to %v, which nobody is, succeeded", at, st.Target.node())
				}
			default:
				x.Failf("%s: sending to %v, which nobody is, does not fail", at, st.Target.node())
			}
			continue
		}
		var err error = errors.New("still running")
		select {
		case err = <-done:
			done <- err
		default:
		}
		if len(got) != 1 {
			x.Failf("%s: %d nodes got the message to %v (direct %v), it should go to %v at %s (%v)", at, len(got), st.Target.node(), st.Direct, want.ID.node(), want.Addr, err)
		}
		h, e := readFedHeaders(got[0].f.m)
		if e != nil {
			x.Failf("%s: %v", at, e)
		}
		to, _ := instOf(h.ptop.L[1])
		if to != want.ID || got[0].p.addr != want.Addr {
			x.Failf("%s: the message to %v (direct %v) went to %v at %s instead of %v at %s", at, st.Target.node(), st.Direct, to.node(), got[0].p.addr, want.ID.node(), want.Addr)
		}
		cancel()
		x.Within("the call", func() { err = <-done })
		if st.Direct && err != nil {
			x.Failf("%s: direct message: %v", at, err)
		}
	}
	if nt {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- F05

type f05Msg struct {
	Via  int // 0 the dialed connection, else an inbound one
	Info []*fedInfo
	Kind string `json:",omitempty"` // of newsKinds
	Self int    `json:",omitempty"` // the news has the node itself before this many of the others
}

type f05Case struct {
	C     fedCfg
	Msgs  []f05Msg
	Conc  bool
	Phase int64
}

func runF05(x *X, c f05Case) {
	r := newFedRig(x, c.C)
	// a dialed connection
	synctest.Wait()
	if err := r.n.SendOneWay(c.C.Seeds[0].ID.node(), (&msgSpec{ID: msgID{X: 1}, Actor: 6}).lib()); err != nil {
		x.Failf("SendOneWay: %v", err)
	}
	synctest.Wait()
	conns := []*rawPeer{r.allPeers()[0].rawPeer}
	for i := 0; i < 3; i++ {
		conns = append(conns, r.inbound())
	}
	synctest.Wait()
	heard := map[id128][]*fedInfo{}
	for id, f := range r.w {
		heard[id] = []*fedInfo{f}
	}
	about := false // the node itself: what it makes of that is not judged
	for _, m := range c.Msgs {
		about = about || m.Self > 0
	}
	if about {
		delete(r.w, c.C.Self)
	}
	news := func(m f05Msg, rel msgID) *msgSpec {
		fs := append([]*fedInfo(nil), m.Info...)
		if m.Self > 0 {
			i := max(0, len(fs)-m.Self)
			fs = append(fs[:i:i], append([]*fedInfo{{ID: c.C.Self, Inst: c.C.Inst, Phase: phaseJoining, Addr: fedSelfAddr}}, fs[i:]...)...)
		}
		return newsOf(m.Kind, rel, fs...)
	}
	compare := func(at string, strict bool) {
		got := map[id128]federation.PartnerNodeInfo{}
		for _, p := range r.n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
			id := id128{Hi: p.Instance.Id.Hi, Lo: p.Instance.Id.Lo}
			if _, dup := got[id]; dup {
				x.Failf("%s: node %v is listed twice", at, p.Instance.Id)
			}
			got[id] = p
		}
		ngot := len(got)
		if _, ok := got[c.C.Self]; ok && about {
			ngot--
		}
		if ngot != len(r.w) {
			x.Failf("%s: %d nodes known, %d heard of", at, ngot, len(r.w))
		}
		for id, w := range r.w {
			g, ok := got[id]
			if !ok {
				x.Failf("%s: node %v was heard of and is not known", at, id.node())
			}
			if sameInfo(g, w.lib()) {
				continue
			}
			match := false
			if !strict {
				// announced at the same time: any of the newest
				for _, f := range heard[id] {
					match = match || !w.newer(f) && sameInfo(g, f.lib())
				}
			}
			if !match {
				x.Failf("%s: node %v is known as %+v, the newest heard is %+v", at, id.node(), g, w.lib())
			}
		}
		want := 0
		phase := federation.NodePhase(c.Phase)
		for _, g := range got {
			if g.Phase == phase {
				want++
			}
		}
		f := r.n.KnownPartnerNodes(func(p federation.PartnerNodeInfo) bool { return p.Phase == phase })
		for _, p := range f {
			if p.Phase != phase {
				x.Failf("%s: filtering for phase %v lists a node of phase %v", at, phase, p.Phase)
			}
		}
		if len(f) != want {
			x.Failf("%s: filtering for phase %v lists %d of %d nodes", at, phase, len(f), want)
		}
	}
	stale := false
	if !c.Conc {
		for k, m := range c.Msgs {
			for _, f := range m.Info {
				stale = stale || r.w[f.ID] != nil && !f.newer(r.w[f.ID])
			}
			var rel msgID
			if m.Kind == "reply" {
				rel = r.route(c.C.Seeds[0].ID, k)
				synctest.Wait()
			}
			r.tellAs(conns[m.Via%len(conns)], news(m, rel), m.Info...)
			compare(fmt.Sprintf("after message %d", k), true)
		}
		if stale {
			x.NonTrivial()
		}
		return
	}
	// all connections at once, with a reader that must never see a node going back
	stop := make(chan struct{})
	var rd, wr sync.WaitGroup
	rd.Add(1)
	go func() {
		defer rd.Done()
		last := map[federation.NodeID]federation.PartnerNodeInfo{}
		for i := 0; i < 2000; i++ {
			select {
			case <-stop:
				return
			default:
			}
			for _, p := range r.n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
				if o, ok := last[p.Instance.Id]; ok && (o.Instance.InstanceId > p.Instance.InstanceId || o.Instance.InstanceId == p.Instance.InstanceId && o.Phase > p.Phase) {
					x.Report("node %v went back from instance %d phase %v to instance %d phase %v", p.Instance.Id, o.Instance.InstanceId, o.Phase, p.Instance.InstanceId, p.Phase)
				}
				last[p.Instance.Id] = p
			}
		}
	}()
	rels := make([]msgID, len(c.Msgs))
	for k, m := range c.Msgs {
		if m.Kind == "reply" {
			rels[k] = r.route(c.C.Seeds[0].ID, k)
		}
	}
	synctest.Wait()
	for i := range conns {
		wr.Add(1)
		go func() {
			defer wr.Done()
			for k, m := range c.Msgs {
				if m.Via%len(conns) == i {
					conns[i].c.Write(conns[i].frame(news(m, rels[k])))
				}
			}
		}()
	}
	wr.Wait()
	for _, m := range c.Msgs {
		for _, f := range m.Info {
			if o := r.w[f.ID]; o != nil {
				stale = true
			}
			r.w.hear(f)
			heard[f.ID] = append(heard[f.ID], f)
		}
	}
	synctest.Wait()
	close(stop)
	rd.Wait()
	x.Check()
	compare("after all messages", false)
	if stale {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- F06

type f06Step struct {
	Op   string // tell, wait, fail, ok, hold, start, cancel, kill
	I    int
	Ms   int
	Info []*fedInfo
	Via  int
	Kind string `json:",omitempty"`
}

type f06Case struct {
	C     fedCfg
	Steps []f06Step
	Limit int // seconds the context has

	Answers []f06Answer // of seeds to their pings
	More    int         `json:",omitempty"` // others bootstrap at the same time
}

type f06Answer struct {
	Seed int
	Nth  int // ping it answers
	Info []*fedInfo
	Kind string `json:",omitempty"`
}

func runF06(x *X, c f06Case) {
	r := newFedRig(x, c.C)
	synctest.Wait()
	type ping struct {
		id id128
		at time.Time
	}
	var mu sync.Mutex
	var pings []ping
	running, routing, cancelled := false, false, false
	finished := false
	nRouting, late := 0, false
	learn := func(fs []*fedInfo) {
		mu.Lock()
		defer mu.Unlock()
		for _, f := range fs {
			if r.w.hear(f) && f.Phase == phaseRouting {
				routing = true
				nRouting++
				late = late || running
			}
		}
	}
	r.mu.Lock()
	r.on = func(p *fedPeer, f *peerFrame) {
		if f.m.Actor != actorFederation || f.m.Action != "VotePing" {
			return
		}
		h, err := readFedHeaders(f.m)
		if err != nil {
			x.Report("%v", err)
			return
		}
		to, _ := instOf(h.ptop.L[1])
		mu.Lock()
		pings = append(pings, ping{to, time.Now()})
		n := 0
		for _, p := range pings {
			if p.id == to {
				n++
			}
		}
		mu.Unlock()
		for _, a := range c.Answers {
			if c.C.Seeds[a.Seed%len(c.C.Seeds)].ID == to && a.Nth == n {
				learn(a.Info)
				p.c.Write(p.frame(newsOf(a.Kind, f.m.ID, a.Info...)))
			}
		}
	}
	r.mu.Unlock()
	var ctx context.Context
	var cancel context.CancelFunc
	var done chan error
	var started, deadline time.Time
	wasHeld := map[string]bool{}
	// tried tells when a seed was last tried: pinged, or dialed
	tried := func(s fedSeed) (last time.Time) {
		mu.Lock()
		for _, p := range pings {
			if p.id == s.ID && p.at.After(last) {
				last = p.at
			}
		}
		mu.Unlock()
		r.mu.Lock()
		for _, d := range r.dials[r.w[s.ID].Addr] {
			if d.After(last) {
				last = d
			}
		}
		r.mu.Unlock()
		return
	}
	more := make(chan error, c.More)
	nmore := 0
	others := func(at string) {
		for {
			select {
			case err := <-more:
				nmore++
				if err != nil || !routing {
					x.Failf("%s: one of several bootstraps ended with %v, routing partner known: %v", at, err, routing)
				}
			default:
				if done != nil && routing && nmore != c.More {
					x.Failf("%s: a partner is known to be routing, %d of %d other bootstraps go on", at, c.More-nmore, c.More)
				}
				return
			}
		}
	}
	check := func(at string) {
		synctest.Wait()
		x.Check()
		others(at)
		if done == nil || finished {
			return
		}
		var err error
		ended := true
		select {
		case err = <-done:
			finished = true
		default:
			ended = false
		}
		over := cancelled || !time.Now().Before(deadline)
		switch {
		case ended && err == nil && !routing:
			x.Failf("%s: bootstrap succeeded and no partner is known to be routing", at)
		case ended && err != nil && !over:
			x.Failf("%s: bootstrap failed although its context has not ended: %v", at, err)
		case ended && err != nil && err != ctx.Err():
			x.Failf("%s: bootstrap failed with %v, its context with %v", at, err, ctx.Err())
		case !ended && routing:
			x.Failf("%s: a partner is known to be routing and bootstrap goes on", at)
		case !ended && over:
			x.Failf("%s: the context has ended and bootstrap goes on", at)
		}
		if ended {
			running = false
			return
		}
		// every seed is tried, and again
		for _, s := range c.C.Seeds {
			if s.ID == c.C.Self {
				continue
			}
			addr := r.w[s.ID].Addr
			if wasHeld[addr] {
				continue
			}
			last := tried(s)
			if last.Before(started) {
				x.Failf("%s: seed %v was not pinged for %v", at, s.ID.node(), time.Since(started))
			}
			if time.Since(last) > time.Minute {
				x.Failf("%s: seed %v was not pinged again for %v", at, s.ID.node(), time.Since(last))
			}
		}
	}
	begin := func() {
		if done != nil {
			return
		}
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(c.Limit)*time.Second)
		x.Cleanup(cancel)
		done = make(chan error, 1)
		started, deadline = time.Now(), time.Now().Add(time.Duration(c.Limit)*time.Second)
		running = true
		go func() { done <- r.n.Bootstrap(ctx) }()
		for i := 0; i < c.More; i++ {
			ctx, cancel := x.ctx(context.Background())
			x.Cleanup(cancel)
			go func() { more <- r.n.Bootstrap(ctx) }()
		}
	}
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		seed := c.C.Seeds[st.I%len(c.C.Seeds)]
		addr := r.w[seed.ID].Addr
		switch st.Op {
		case "start":
			begin()
		case "cancel":
			if cancel != nil {
				cancelled = true
				cancel()
			}
		case "wait":
			// not exactly when something is due
			time.Sleep(time.Duration(st.Ms)*time.Millisecond + 137*time.Microsecond)
		case "fail", "ok", "hold":
			if st.Op == "hold" && c.C.Self == seed.ID {
				continue
			}
			r.mu.Lock()
			r.fail[addr] = st.Op == "fail"
			if h := r.hold[addr]; h != nil && st.Op != "hold" {
				close(h)
				delete(r.hold, addr)
			} else if h == nil && st.Op == "hold" {
				r.hold[addr] = make(chan struct{})
				wasHeld[addr] = true
			}
			r.mu.Unlock()
		case "kill":
			for _, p := range r.allPeers() {
				if p.addr == addr {
					p.sim.Close()
				}
			}
		case "tell":
			p := r.in()
			if ps := r.allPeers(); st.Via > 0 && len(ps) > 0 && ps[len(ps)-1].ended() == nil {
				p = ps[len(ps)-1].rawPeer
			}
			learn(st.Info)
			p.send(newsOf(st.Kind, msgID{X: 5}, st.Info...))
		}
		check(at)
	}
	begin()
	check("end")
	if running {
		if time.Now().Before(deadline) {
			time.Sleep(time.Until(deadline) + time.Microsecond)
		}
		check("after the context's end")
	}
	if late || len(c.Steps) > 3 && nRouting > 0 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- F07

type f07Step struct {
	Tell   []*fedInfo
	M      *msgSpec
	NoID   bool
	Again  int // this step sends the message object of an earlier one
	Target int
	Direct bool
}

type f07Case struct {
	C     fedCfg
	Steps []f07Step
}

func partnerVals(vs []*Val) (out []string) {
	for _, v := range vs {
		out = append(out, string(refMarshal(dPartner, v, "")))
	}
	sort.Strings(out)
	return
}

func runF07(x *X, c f07Case) {
	r := newFedRig(x, c.C)
	ids := map[string]bool{}
	type built struct {
		m    *transport.Message
		spec *msgSpec
		noid bool
	}
	var msgs []built
	nt := false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d", k)
		if len(st.Tell) > 0 {
			r.tell(r.in(), st.Tell...)
			nt = true
		}
		var b built
		if st.Again > 0 && len(msgs) > 0 {
			b = msgs[st.Again%len(msgs)]
		} else {
			spec := *st.M
			if st.NoID {
				spec.ID = msgID{}
			} else {
				spec.ID.X = spec.ID.X<<8 | uint32(k)
				if spec.ID.empty() {
					spec.ID.X = 1 << 30
				}
			}
			b = built{spec.lib(), &spec, st.NoID}
			msgs = append(msgs, b)
		}
		known := r.w.ids()
		target := known[st.Target%len(known)]
		var want *fedInfo
		if target == c.C.Self {
			st.Direct = false
		}
		want = r.w.up(target, c.C.Self)
		if want == nil {
			continue
		}
		before := map[*fedPeer]int{}
		for _, p := range r.allPeers() {
			before[p] = len(p.user())
		}
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		done := make(chan error, 1)
		go func() {
			if st.Direct {
				done <- r.n.SendOneWay(target.node(), b.m)
			} else {
				_, err := r.n.Route(ctx, target.node(), b.m)
				done <- err
			}
		}()
		synctest.Wait()
		x.Check()
		var got []*peerFrame
		for _, p := range r.allPeers() {
			got = append(got, p.user()[before[p]:]...)
		}
		if len(got) != 1 {
			var err error
			select {
			case err = <-done:
			default:
			}
			x.Failf("%s: %d messages written for one (%v)", at, len(got), err)
		}
		cancel()
		x.Within("the call", func() { <-done })
		g := got[0].m
		// the caller's headers and body
		spec := *b.spec
		if b.noid {
			if g.ID.empty() {
				x.Failf("%s: the message has no id", at)
			}
			if ids[g.ID.key()] {
				x.Failf("%s: message id %s was used before", at, g.ID.key())
			}
			spec.ID = g.ID
		}
		ids[g.ID.key()] = true
		if !st.Direct {
			spec.Expect = true
		}
		h, err := readFedHeaders(g)
		if err != nil {
			x.Failf("%s: %v", at, err)
		}
		plain := *g
		plain.Custom = h.rest
		if d := plain.seen().diff(spec.seen()); d != "" {
			x.Failf("%s: the caller's message changed on the way: %s", at, d)
		}
		// the stamps
		from, fi := instOf(h.ptop.L[0])
		to, ti := instOf(h.ptop.L[1])
		if from != c.C.Self || fi != c.C.Inst {
			x.Failf("%s: the message is from %v instance %d, the node is %v instance %d", at, from.node(), fi, c.C.Self.node(), c.C.Inst)
		}
		if to != want.ID || ti != want.Inst {
			x.Failf("%s: the message is to %v instance %d, the partner is %v instance %d", at, to.node(), ti, want.ID.node(), want.Inst)
		}
		actor := uint64(federation.PToPActorRouting)
		if st.Direct {
			actor = uint64(federation.PToPActorDirect)
		}
		if h.ptop.L[2].U != actor {
			x.Failf("%s: point-to-point actor %d, want %d (direct %v)", at, h.ptop.L[2].U, actor, st.Direct)
		}
		if exact := h.ptop.L[5].U == 1; exact != st.Direct {
			x.Failf("%s: direct %v, point-to-point header for exactly that instance %v", at, st.Direct, exact)
		}
		if st.Direct != (h.routing == nil) {
			x.Failf("%s: direct %v, routing header %v", at, st.Direct, h.routing != nil)
		}
		if h.routing != nil {
			rf, rfi := instOf(h.routing.L[0])
			rid := msgID{G: *h.routing.L[2], X: uint32(h.routing.L[3].U)}
			if rf != c.C.Self || rfi != c.C.Inst || rid.key() != g.ID.key() || h.routing.L[5].U != 1 {
				x.Failf("%s: routing header from %v/%d for message %s (expects reply %d), message is %s", at, rf.node(), rfi, rid.key(), h.routing.L[5].U, g.ID.key())
			}
			if rt, rti := instOf(h.routing.L[1]); rt != want.ID || rti != want.Inst {
				x.Failf("%s: routing header to %v/%d, the partner is %v/%d", at, rt.node(), rti, want.ID.node(), want.Inst)
			}
			if e, r := int64(h.routing.L[6].U), int64(h.routing.L[7].U); e != math.MaxInt64 || r != math.MaxInt64 {
				x.Failf("%s: a routed message that expires after %d, retried for %d", at, e, r)
			}
		}
		if len(h.partner) == 0 {
			x.Failf("%s: no partner headers", at)
		}
		self := h.partner[0]
		sid, si := instOf(self.L[0])
		phase := int64(phaseBooting)
		if r.routing {
			phase = phaseJoining
		}
		if sid != c.C.Self || si != c.C.Inst || self.L[2].S != fedSelfAddr || self.L[4].S != fedLeaseAddr || int64(self.L[1].U) != phase {
			x.Failf("%s: the first partner header is %v/%d phase %d at %q, %q; the node is %v/%d phase %d at %q, %q", at, sid.node(), si, self.L[1].U, self.L[2].S, self.L[4].S, c.C.Self.node(), c.C.Inst, phase, fedSelfAddr, fedLeaseAddr)
		}
		var others []string
		for _, id := range known {
			f := *r.w[id]
			if f.Inst > 0 {
				f.Flags = 0
				others = append(others, string(f.header().Raw))
			}
		}
		sort.Strings(others)
		var gotOthers []*Val
		for _, v := range h.partner[1:] {
			v.L[9] = &Val{}
			gotOthers = append(gotOthers, v)
		}
		if g := partnerVals(gotOthers); !reflect.DeepEqual(g, others) && len(g)+len(others) > 0 {
			x.Failf("%s: %d partners described, %d known with an instance, or described otherwise than announced", at, len(g), len(others))
		}
		// the caller's own message
		for i, o := range msgs {
			if d := libDiff(o.m, o.spec.lib()); d != "" {
				x.Failf("%s: the caller's message %d was changed: %s", at, i, d)
			}
		}
	}
	if nt {
		x.NonTrivial()
	}
}

// libDiff compares messages by what can be read from them.
func libDiff(a, b *transport.Message) string {
	ids := append([]uint16{hPToP, hRouting, hPartner}, allCustomIDs...)
	read := func(m *transport.Message) seen {
		s, err := seenLib(&transport.ByteArrayMessage{Headers: m.Headers}, ids)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		return s
	}
	if d := read(a).diff(read(b)); d != "" {
		return d
	}
	ab, _ := serialization.Marshal(a.Body)
	bb, _ := serialization.Marshal(b.Body)
	if fmt.Sprintf("%T %x", a.Body, ab) != fmt.Sprintf("%T %x", b.Body, bb) {
		return "body"
	}
	return ""
}

// ---------------------------------------------------------------- F08

type f08Step struct {
	Op    string // send, fail, ok, hold, release, kill, race, wait
	I     int
	N     int
	Reset bool
	Route bool
}

type f08Case struct {
	C     fedCfg
	Nodes []*fedInfo
	Steps []f08Step
	Held  bool
	Dead  int // a listener has failed before the node is closed: 1 the transport's, 2 the lease agent's; or is closed already: 3, 4
	Busy  int // messages sent while the node is closed
	After int // messages sent afterwards
}

func runF08(x *X, c f08Case) {
	r := newFedRig(x, c.C)
	r.tell(r.in(), c.Nodes...)
	var nodes []*fedInfo
	for _, id := range r.w.ids() {
		if id != c.C.Self {
			nodes = append(nodes, r.w[id])
		}
	}
	if len(nodes) == 0 {
		return
	}
	seq := uint32(0)
	live := map[string]*fedPeer{} // connection in use by address
	type sent struct {
		id   msgID
		addr string
		done chan struct{}
		err  error
		pend bool
	}
	var held []*sent
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	send := func(f *fedInfo, route bool) *sent {
		seq++
		s := &sent{id: msgID{X: seq}, addr: f.Addr, done: make(chan struct{})}
		m := (&msgSpec{ID: s.id, Actor: 6}).lib()
		go func() {
			defer close(s.done)
			if route {
				_, s.err = r.n.Route(ctx, f.ID.node(), m)
			} else {
				s.err = r.n.SendOneWay(f.ID.node(), m)
			}
		}()
		return s
	}
	ended := func(s *sent) bool {
		select {
		case <-s.done:
			return true
		default:
			return false
		}
	}
	newest := func(addr string) *fedPeer {
		var out *fedPeer
		for _, p := range r.allPeers() {
			if p.addr == addr {
				out = p
			}
		}
		return out
	}
	arrived := func(at string, ss []*sent, route bool, p *fedPeer) {
		for i, s := range ss {
			if !route && (!ended(s) || s.err != nil) {
				x.Failf("%s: message %d of %d to %s: finished %v, %v", at, i, len(ss), s.addr, ended(s), s.err)
			}
			if route && ended(s) {
				x.Failf("%s: routed message %d of %d to %s ended without a reply: %v", at, i, len(ss), s.addr, s.err)
			}
			g := r.got(s.id.key())
			if len(g) != 1 || g[0].p != p {
				x.Failf("%s: message %d of %d to %s arrived %d times, or on another connection", at, i, len(ss), s.addr, len(g))
			}
		}
	}
	conc, redial := false, false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		f := nodes[st.I%len(nodes)]
		addr := f.Addr
		isHeld := func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.hold[addr] != nil }
		isFail := func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.fail[addr] }
		waiting := false
		for _, s := range held {
			waiting = waiting || s.addr == addr
		}
		switch st.Op {
		case "send":
			d0 := r.nDials(addr)
			var ss []*sent
			for i := 0; i < st.N; i++ {
				ss = append(ss, send(f, st.Route))
			}
			conc = conc || st.N > 1
			synctest.Wait()
			x.Check()
			d := r.nDials(addr) - d0
			switch {
			case live[addr] != nil:
				if d != 0 {
					x.Failf("%s: %d dials to %s, which has a live connection", at, d, addr)
				}
				arrived(at, ss, st.Route, live[addr])
			case isHeld() || waiting:
				want := 1
				if waiting {
					want = 0
				}
				if d != want {
					x.Failf("%s: %d dials to %s for %d messages while connecting takes long", at, d, addr, st.N)
				}
				for _, s := range ss {
					if ended(s) {
						x.Failf("%s: a message to %s ended before the connection was made: %v", at, addr, s.err)
					}
				}
				held = append(held, ss...)
			case isFail():
				if d < 1 || d > st.N {
					x.Failf("%s: %d dials to %s for %d messages", at, d, addr, st.N)
				}
				for _, s := range ss {
					if !ended(s) || s.err == nil {
						x.Failf("%s: dialing %s failed, a message ended %v with %v", at, addr, ended(s), s.err)
					}
				}
			default:
				if d != 1 {
					x.Failf("%s: %d dials to %s for %d messages without a connection", at, d, addr, st.N)
				}
				redial = redial || d0 > 0
				live[addr] = newest(addr)
				arrived(at, ss, st.Route, live[addr])
			}
		case "fail", "ok":
			r.mu.Lock()
			r.fail[addr] = st.Op == "fail"
			r.mu.Unlock()
		case "hold":
			r.mu.Lock()
			if r.hold[addr] == nil {
				r.hold[addr] = make(chan struct{})
			}
			r.mu.Unlock()
		case "release":
			r.mu.Lock()
			h := r.hold[addr]
			delete(r.hold, addr)
			r.mu.Unlock()
			if h == nil {
				continue
			}
			close(h)
			synctest.Wait()
			x.Check()
			var rest, ss []*sent
			for _, s := range held {
				if s.addr == addr {
					ss = append(ss, s)
				} else {
					rest = append(rest, s)
				}
			}
			held = rest
			if len(ss) == 0 {
				continue
			}
			if isFail() {
				for _, s := range ss {
					if !ended(s) || s.err == nil {
						x.Failf("%s: dialing %s failed, a message ended %v with %v", at, addr, ended(s), s.err)
					}
				}
				continue
			}
			live[addr] = newest(addr)
			for i, s := range ss {
				if ended(s) && s.err != nil {
					x.Failf("%s: message %d to %s: %v", at, i, addr, s.err)
				}
				if g := r.got(s.id.key()); len(g) != 1 || g[0].p != live[addr] {
					x.Failf("%s: message %d to %s arrived %d times, or on another connection", at, i, addr, len(g))
				}
			}
		case "idle":
			if len(held) == 0 {
				time.Sleep(time.Duration(st.N*5) * time.Hour)
				synctest.Wait()
				x.Check()
			}
		case "kill", "race":
			p := live[addr]
			if p == nil {
				continue
			}
			var ss []*sent
			if st.Op == "race" {
				for i := 0; i < st.N; i++ {
					ss = append(ss, send(f, false))
				}
			}
			if st.Reset {
				p.sim.reset()
			} else {
				p.lib.closeBoth(p.sim)
			}
			if st.Op == "race" {
				for i := 0; i < st.N; i++ {
					ss = append(ss, send(f, false))
				}
			}
			synctest.Wait()
			x.Check()
			delete(live, addr)
			if st.Op == "race" {
				for _, s := range ss {
					if !ended(s) && !isHeld() {
						x.Failf("%s: a message to %s sent while its connection ends never finishes", at, addr)
					}
					if !ended(s) {
						held = append(held, s)
					}
				}
				// some may have gone over a new connection
				if q := newest(addr); q != p && q.ended() == nil {
					live[addr] = q
				}
			}
		}
		// what is not in use is closed, what is in use is open
		for _, p := range r.allPeers() {
			inUse := live[p.addr] == p
			if inUse && p.ended() != nil {
				x.Failf("%s: the connection to %s was closed: %v", at, p.addr, p.ended())
			}
			if !inUse && p.ended() == nil {
				x.Failf("%s: a connection to %s that is not in use is open", at, p.addr)
			}
		}
	}
	// a dial under way while the node is closed
	var late *sent
	if c.Held {
		f := nodes[0]
		r.mu.Lock()
		if live[f.Addr] == nil && r.hold[f.Addr] == nil {
			r.hold[f.Addr] = make(chan struct{})
			r.mu.Unlock()
			late = send(f, false)
			synctest.Wait()
		} else {
			r.mu.Unlock()
		}
	}
	switch {
	case c.Dead > 2:
		// closed by its owner, who may
		[]*simListener{r.ln, r.lln}[c.Dead-3].Close()
		synctest.Wait()
	case c.Dead > 0:
		[]*simListener{r.ln, r.lln}[c.Dead-1].push(acceptItem{err: errors.New("accept: out of order")})
		synctest.Wait()
	}
	var busy []*sent
	for i := 0; i < c.Busy; i++ {
		busy = append(busy, send(nodes[i%len(nodes)], false))
	}
	x.Within("closing the node", func() { r.n.Close() })
	for i := 0; i < c.Busy; i++ {
		busy = append(busy, send(nodes[i%len(nodes)], false))
	}
	synctest.Wait()
	x.Check()
	for i := 0; i < c.After; i++ {
		f := nodes[(i+1)%len(nodes)]
		s := send(f, i%3 == 2)
		synctest.Wait()
		r.mu.Lock()
		isHeld := r.hold[f.Addr] != nil
		r.mu.Unlock()
		if ended(s) && s.err == nil || !ended(s) && !isHeld {
			x.Failf("a message sent after the node was closed ended %v with %v", ended(s), s.err)
		}
	}
	r.mu.Lock()
	for _, h := range r.hold {
		close(h)
	}
	r.hold = map[string]chan struct{}{}
	r.mu.Unlock()
	synctest.Wait()
	x.Check()
	for _, p := range r.allPeers() {
		if p.ended() == nil {
			x.Failf("the node is closed and its connection to %s is open", p.addr)
		}
	}
	for i, s := range busy {
		if !ended(s) {
			x.Failf("message %d, sent while the node was closed, never finishes", i)
		}
	}
	if late != nil && !ended(late) {
		x.Failf("a message waiting for a connection when the node was closed never finishes")
	}
	select {
	case <-r.serve:
	default:
		x.Failf("the node is closed and Serve has not returned")
	}
	if conc || redial || late != nil {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- F09

type f09Step struct {
	Op   string // route, reply, unrelated, cancel, sleep, fail, hold, release
	I    int
	Via  int
	M    *msgSpec
	Err  int64
	Fast bool
	Dead int // deadline of the route in ms, 0 none
	News int // nodes a reply carries news of, all known before
}

type f09Case struct {
	C     fedCfg
	Nodes []*fedInfo
	Steps []f09Step
}

func runF09(x *X, c f09Case) {
	r := newFedRig(x, c.C)
	ins := []*rawPeer{r.in(), r.inbound()}
	r.tell(ins[0], c.Nodes...)
	type call struct {
		id     msgID
		ctx    context.Context
		cancel context.CancelFunc
		done   chan struct{}
		reply  *transport.ByteArrayMessage
		err    error
		out    bool
		want   *msgSpec
		ctxEnd bool
		dead   time.Time
		fails  bool
		held   bool // waits for its node to be connected to
	}
	var calls []*call
	isOpen := func(addr string) bool {
		for _, q := range r.allPeers() {
			if q.addr == addr {
				return true
			}
		}
		return false
	}
	ended := func(p *call) bool {
		select {
		case <-p.done:
			return true
		default:
			return false
		}
	}
	known := r.w.ids()
	nreply := 0
	check := func(at string) {
		synctest.Wait()
		x.Check()
		for i, p := range calls {
			if p.out && !p.dead.IsZero() && !time.Now().Before(p.dead) {
				p.out, p.ctxEnd = false, true
			}
			switch {
			case p.out && ended(p):
				x.Failf("%s: request %d ended without its reply: %v", at, i, p.err)
			case !p.out && !ended(p):
				x.Failf("%s: request %d has not ended", at, i)
			case p.ctxEnd && (p.err == nil || !errors.Is(p.err, p.ctx.Err()) || p.reply != nil):
				x.Failf("%s: request %d ended with %v, its context with %v", at, i, p.err, p.ctx.Err())
			case p.fails && p.err == nil:
				x.Failf("%s: request %d could not be sent and succeeded", at, i)
			case p.want != nil:
				if p.reply == nil {
					x.Failf("%s: request %d was answered and has no reply: %v", at, i, p.err)
				}
				s, err := seenLib(p.reply, allCustomIDs)
				if err != nil {
					x.Failf("%s: reply of request %d: %v", at, i, err)
				}
				if d := s.diff(p.want.seen()); d != "" {
					x.Failf("%s: request %d got the wrong reply: %s", at, i, d)
				}
				if (p.err != nil) != (p.want.Err != 0) {
					x.Failf("%s: reply with code %d gives error %v", at, p.want.Err, p.err)
				}
			}
		}
	}
	via := func(n int) *rawPeer {
		var open []*rawPeer
		for _, p := range append(ins, func() (o []*rawPeer) {
			for _, p := range r.allPeers() {
				o = append(o, p.rawPeer)
			}
			return
		}()...) {
			if p.ended() == nil {
				open = append(open, p)
			}
		}
		return open[n%len(open)]
	}
	answer := func(st f09Step, m msgSpec) {
		m.Custom = append([]customSpec(nil), m.Custom...)
		for i := 0; i < st.News && len(c.Nodes) > 0; i++ {
			if h := c.Nodes[i%len(c.Nodes)].header(); 4*len(h.Raw)*st.News < 48<<10 {
				m.Custom = append(m.Custom, h)
			}
		}
		via(st.Via).send(&m)
	}
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		switch st.Op {
		case "route", "fail", "prompt":
			p := &call{id: msgID{X: uint32(k + 1), G: Val{U: 5}}, done: make(chan struct{}), out: true}
			p.ctx, p.cancel = x.ctx(context.Background())
			if st.Dead > 0 {
				p.dead = time.Now().Add(time.Duration(st.Dead) * time.Millisecond)
				p.ctx, p.cancel = context.WithDeadline(p.ctx, p.dead)
			}
			x.Cleanup(p.cancel)
			target := known[st.I%len(known)]
			to := r.w.up(target, c.C.Self)
			if to == nil {
				p.out, p.fails = false, true
			} else if !isOpen(to.Addr) && r.held(to.Addr) {
				p.held = true
			} else if st.Op == "fail" {
				if isOpen(to.Addr) {
					continue
				}
				p.out, p.fails = false, true
				r.mu.Lock()
				r.fail[to.Addr] = true
				r.mu.Unlock()
			}
			calls = append(calls, p)
			var lib *simConn
			var gate chan struct{}
			if st.Op == "prompt" && to != nil {
				// the reply is there before the write has returned
				for _, q := range r.allPeers() {
					if q.addr == to.Addr && q.ended() == nil {
						lib = q.lib
					}
				}
				if lib != nil {
					gate = make(chan struct{})
					lib.w.update(func() { lib.w.linger = gate })
				}
			}
			m := (&msgSpec{ID: p.id, Actor: 6, Action: "q"}).lib()
			go func() { p.reply, p.err = r.n.Route(p.ctx, target.node(), m); close(p.done) }()
			synctest.Wait()
			x.Check()
			for i := 0; lib != nil && i < 100 && len(r.got(p.id.key())) == 0 && !ended(p); i++ {
				old := gate
				gate = make(chan struct{})
				lib.w.update(func() { lib.w.linger = gate })
				close(old)
				synctest.Wait()
			}
			if lib != nil {
				m := *st.M
				m.Rel, m.Err = p.id, st.Err
				if m.Err == 0 {
					m.Fault = false
				}
				answer(st, m)
				synctest.Wait()
				if p.dead.IsZero() || time.Now().Before(p.dead) {
					p.out, p.want = false, &m
					nreply++
				}
				lib.w.update(func() { lib.w.linger = nil })
				close(gate)
				synctest.Wait()
			}
			if st.Op == "fail" {
				r.mu.Lock()
				r.fail = map[string]bool{}
				r.mu.Unlock()
			} else if to != nil && !p.held {
				if g := r.got(p.id.key()); len(g) != 1 || !g[0].f.m.Expect {
					x.Failf("%s: the request was written %d times, or does not expect a reply", at, len(g))
				}
			}
		case "hold":
			to := r.w.up(known[st.I%len(known)], c.C.Self)
			if to == nil || isOpen(to.Addr) {
				continue
			}
			r.mu.Lock()
			if r.hold[to.Addr] == nil {
				r.hold[to.Addr] = make(chan struct{})
			}
			r.mu.Unlock()
		case "release":
			synctest.Wait()
			x.Check()
			r.mu.Lock()
			for _, h := range r.hold {
				close(h)
			}
			r.hold = map[string]chan struct{}{}
			r.mu.Unlock()
			synctest.Wait()
			x.Check()
			for i, p := range calls {
				if !p.held {
					continue
				}
				p.held = false
				if g := r.got(p.id.key()); p.out && (p.dead.IsZero() || time.Now().Before(p.dead)) && len(g) != 1 {
					x.Failf("%s: request %d was written %d times once its node was connected", at, i, len(g))
				}
			}
		case "reply":
			if len(calls) == 0 {
				continue
			}
			p := calls[st.I%len(calls)]
			if p.held {
				continue
			}
			m := *st.M
			m.Rel, m.Err = p.id, st.Err
			if m.Err == 0 {
				m.Fault = false
			}
			synctest.Wait()
			answer(st, m)
			synctest.Wait()
			if p.out && (p.dead.IsZero() || time.Now().Before(p.dead)) {
				p.out, p.want = false, &m
				nreply++
			}
		case "unrelated":
			m := *st.M
			switch {
			case st.I%3 == 0:
				m.Rel = msgID{}
				if len(calls) > 0 { // carries the id of a request, but does not relate to it
					m.ID = calls[st.Via%len(calls)].id
				}
			case st.I%3 == 1 && len(calls) > 0:
				m.Rel = calls[st.Via%len(calls)].id
				m.Rel.G.U++
			default:
				m.Rel = msgID{X: uint32(st.I + 1)}
				if len(calls) > 0 {
					m.Rel.X = calls[0].id.X + 1000
					m.Rel.G.U = 5
				}
			}
			m.Err = st.Err
			via(st.Via).send(&m)
		case "cancel":
			if len(calls) == 0 {
				continue
			}
			p := calls[st.I%len(calls)]
			synctest.Wait()
			if p.out && !p.dead.IsZero() && !time.Now().Before(p.dead) {
				p.out, p.ctxEnd = false, true
			}
			p.cancel()
			if p.out {
				p.out, p.ctxEnd = false, true
			}
		case "sleep":
			time.Sleep(time.Duration(st.I)*100*time.Millisecond + 37*time.Microsecond)
		case "long":
			time.Sleep(time.Duration(st.I+1)*17*time.Minute + 37*time.Microsecond)
		}
		if !st.Fast {
			check(at)
		}
	}
	check("end")
	for _, p := range calls {
		p.cancel()
		if p.out {
			p.out, p.ctxEnd = false, true
		}
	}
	check("after cancelling")
	if nreply > 0 {
		x.NonTrivial()
	}
}

type f09Conc struct {
	C     fedCfg
	N     int
	Seed  uint64
	Errs  []int64
	Conns int
}

// runF09Conc answers many concurrent requests in another order, over several connections at once.
func runF09Conc(x *X, c f09Conc) {
	r := newFedRig(x, c.C)
	var ins []*rawPeer
	for i := 0; i < c.Conns; i++ {
		ins = append(ins, r.inbound())
	}
	var mu sync.Mutex
	byReq := map[string]msgID{} // request number (its body) to id
	r.mu.Lock()
	r.on = func(p *fedPeer, f *peerFrame) {
		if f.m.Actor == 6 {
			mu.Lock()
			byReq[string(f.m.Body)] = f.m.ID
			mu.Unlock()
		}
	}
	r.mu.Unlock()
	type res struct {
		m   *transport.ByteArrayMessage
		err error
	}
	out := make([]chan res, c.N)
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	target := c.C.Seeds[0].ID
	if target == c.C.Self {
		return
	}
	gate := make(chan struct{})
	for i := range out {
		out[i] = make(chan res, 1)
		m := (&msgSpec{Actor: 6, Body: []byte(fmt.Sprint("request ", i))}).lib()
		go func() {
			<-gate
			rm, err := r.n.Route(ctx, target.node(), m)
			out[i] <- res{rm, err}
		}()
	}
	close(gate)
	synctest.Wait()
	x.Check()
	if len(byReq) != c.N {
		x.Failf("%d of %d requests arrived", len(byReq), c.N)
	}
	ids := map[string]bool{}
	var order []int
	for i := range out {
		id, ok := byReq[fmt.Sprint("request ", i)]
		if !ok || ids[id.key()] {
			x.Failf("request %d was not sent, or its id was used twice", i)
		}
		ids[id.key()] = true
		order = append(order, i)
	}
	shuffle(c.Seed, order)
	peers := append([]*rawPeer{r.allPeers()[0].rawPeer}, ins...)
	var wg sync.WaitGroup
	for k := range peers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, i := range order {
				if j%len(peers) != k {
					continue
				}
				m := &msgSpec{ID: msgID{X: 9}, Rel: byReq[fmt.Sprint("request ", i)], Actor: 6, Body: []byte(fmt.Sprint("reply ", i)), Err: c.err(i)}
				peers[k].c.Write(peers[k].frame(m))
			}
		}()
	}
	wg.Wait()
	synctest.Wait()
	x.Check()
	for i := range out {
		select {
		case g := <-out[i]:
			if g.m == nil || string(g.m.Body) != fmt.Sprint("reply ", i) || (g.err != nil) != (c.err(i) != 0) || int64(g.m.Headers.ErrorCode) != c.err(i) {
				x.Failf("request %d of %d got %v with %v", i, c.N, g.m, g.err)
			}
		default:
			x.Failf("request %d of %d was answered and has not ended", i, c.N)
		}
	}
	x.NonTrivial()
}

func (c f09Conc) err(i int) int64 {
	if len(c.Errs) == 0 {
		return 0
	}
	return c.Errs[i%len(c.Errs)]
}

// ---------------------------------------------------------------- F10

type f10Node struct {
	Info  *fedInfo
	Tells []f10Tell // its answers to the first, second... ping
	Fail  bool      // cannot be dialed
}

type f10Tell struct {
	Info  []*fedInfo
	Ms    int
	In    bool // over a connection it makes
	Twice bool
}

type f10Case struct {
	C      fedCfg
	Before []*fedInfo
	Nodes  []f10Node
}

func runF10(x *X, c f10Case) {
	r := newFedRig(x, c.C)
	in := r.in()
	synctest.Wait()
	if len(c.Before) > 0 {
		r.tell(in, c.Before...)
	}
	var mu sync.Mutex
	pinged := map[id128]int{}
	heard := map[id128][]*fedInfo{}
	for id, f := range r.w {
		heard[id] = append(heard[id], f)
	}
	byID := map[id128]*f10Node{}
	r.mu.Lock()
	for i := range c.Nodes {
		byID[c.Nodes[i].Info.ID] = &c.Nodes[i]
		if c.Nodes[i].Fail {
			r.fail[c.Nodes[i].Info.Addr] = true
		}
	}
	told := 0
	r.on = func(p *fedPeer, f *peerFrame) {
		if f.m.Actor != actorFederation || f.m.Action != "VotePing" {
			return
		}
		h, err := readFedHeaders(f.m)
		if err != nil {
			x.Report("%v", err)
			return
		}
		to, _ := instOf(h.ptop.L[1])
		mu.Lock()
		defer mu.Unlock()
		if w := r.w[to]; w == nil || p.addr != w.Addr && !addrOf(heard[to], p.addr) {
			x.Report("node %v was pinged at %s, where nobody said it is", to.node(), p.addr)
		}
		n := pinged[to]
		pinged[to]++
		nd := byID[to]
		if nd == nil || n >= len(nd.Tells) {
			return
		}
		tl := nd.Tells[n]
		for _, f := range tl.Info {
			r.w.hear(f)
			heard[f.ID] = append(heard[f.ID], f)
			told++
		}
		via := p.rawPeer
		if tl.In {
			via = in
		}
		b := via.frame(announcement(tl.Info...))
		if tl.Twice {
			b = append(append([]byte{}, b...), b...)
		}
		go func() {
			time.Sleep(time.Duration(tl.Ms) * time.Millisecond)
			via.c.Write(b)
		}()
	}
	r.mu.Unlock()
	var got []federation.PartnerNodeInfo
	var err error
	x.Within("Discover", func() { got, err = r.n.Discover(context.Background()) })
	synctest.Wait()
	x.Check()
	if err != nil {
		x.Failf("Discover: %v", err)
	}
	mu.Lock()
	defer mu.Unlock()
	seen := map[id128]bool{}
	for _, g := range got {
		id := id128{Hi: g.Instance.Id.Hi, Lo: g.Instance.Id.Lo}
		if id == c.C.Self {
			x.Failf("the node reports itself")
		}
		if seen[id] {
			x.Failf("node %v is reported twice", id.node())
		}
		seen[id] = true
		w := r.w[id]
		if w == nil {
			x.Failf("node %v is reported, nobody announced it", id.node())
		}
		match := sameInfo(g, w.lib())
		for _, f := range heard[id] {
			match = match || !w.newer(f) && sameInfo(g, f.lib())
		}
		if !match {
			x.Failf("node %v is reported as %+v, the newest heard is %+v", id.node(), g, w.lib())
		}
	}
	for _, id := range r.w.ids() {
		if id == c.C.Self {
			continue
		}
		if !seen[id] {
			x.Failf("node %v was heard of and is not reported", id.node())
		}
		if pinged[id] == 0 && r.nDials(r.w[id].Addr) == 0 {
			dialed := false
			for _, f := range heard[id] {
				dialed = dialed || r.nDials(f.Addr) > 0
			}
			if !dialed {
				x.Failf("node %v was heard of and not pinged", id.node())
			}
		}
		r.mu.Lock()
		failed := r.fail[r.w[id].Addr]
		for _, f := range heard[id] {
			failed = failed || r.fail[f.Addr]
		}
		r.mu.Unlock()
		if !failed && pinged[id] == 0 {
			x.Failf("node %v can be reached and was not pinged", id.node())
		}
	}
	if told > 0 {
		x.NonTrivial()
	}
}

func addrOf(fs []*fedInfo, addr string) bool {
	for _, f := range fs {
		if f.Addr == addr {
			return true
		}
	}
	return false
}

func isSeed(c fedCfg, id id128) bool {
	for _, s := range c.Seeds {
		if s.ID == id {
			return true
		}
	}
	return false
}

func seedIDs(c fedCfg) (out []id128) {
	for _, s := range c.Seeds {
		if s.ID != c.Self {
			out = append(out, s.ID)
		}
	}
	return
}

func init() {
	infos := func(t *rapid.T, l string, ids []id128, lo, hi int, h ...fedHist) (out []*fedInfo) {
		if h == nil {
			h = append(h, fedHist{})
		}
		for i, n := 0, intn(t, l, lo, hi); i < n; i++ {
			out = append(out, h[0].next(t, pick(t, "who", ids)))
		}
		return
	}
	genSelf := func(t *rapid.T) int {
		if oneIn(t, "self", 4) {
			return intn(t, "selfat", 1, 3)
		}
		return 0
	}
	register(&Prop{
		ID: "F04",
		Parts: []Part{bubble("sends", 12000, 240000, "at least three nodes are known", func(t *rapid.T) f04Case {
			c := f04Case{C: genFedCfg(t, 3)}
			h := fedHist{}
			ids := append(seedIDs(c.C), genFedIDs(t, 1, 8, append(seedIDs(c.C), c.C.Self)...)...)
			if coin(t, "knowself") {
				ids = append(ids, c.C.Self)
			}
			for i, n := 0, intn(t, "steps", 1, 6); i < n; i++ {
				st := f04Step{Direct: oneIn(t, "direct", 3)}
				if i == 0 || oneIn(t, "tell", 3) {
					st.Tell = infos(t, "infos", ids, 0, 6, h)
				}
				switch intn(t, "target", 0, 3) {
				case 0:
					st.Target = pick(t, "tid", append(ids, c.C.Self))
				default:
					st.Target = genID(t, append(ids, c.C.Self)...)
				}
				if st.Direct && coin(t, "exact") {
					st.Target = pick(t, "tid2", append(ids, c.C.Self))
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runF04)},
	})
	register(&Prop{
		ID: "F05",
		Parts: []Part{
			bubble("announcements", 6000, 120000, "stale or repeated news of a node arrived", func(t *rapid.T) f05Case {
				c := f05Case{C: genFedCfg(t, 3), Phase: int64(intn(t, "fphase", 0, 4))}
				h := fedHist{}
				c.C.Seeds = append([]fedSeed{{genFedIDs(t, 1, 1, append(seedIDs(c.C), c.C.Self)...)[0], "10.0.2.200:1"}}, c.C.Seeds...)
				ids := append(seedIDs(c.C), genFedIDs(t, 0, 3, append(seedIDs(c.C), c.C.Self)...)...)
				for i, n := 0, intn(t, "msgs", 1, 8); i < n; i++ {
					c.Msgs = append(c.Msgs, f05Msg{intn(t, "via", 0, 3), infos(t, "infos", ids, 0, 4, h), genNewsKind(t), genSelf(t)})
				}
				return c
			}, runF05),
			bubble("concurrent", 4000, 80000, "news of a known node arrived", func(t *rapid.T) f05Case {
				c := f05Case{C: genFedCfg(t, 2), Conc: true, Phase: int64(intn(t, "fphase", 0, 4))}
				h := fedHist{}
				c.C.PL.Yield, c.C.PP.Yield = true, true
				c.C.Seeds = append([]fedSeed{{genFedIDs(t, 1, 1, append(seedIDs(c.C), c.C.Self)...)[0], "10.0.2.200:1"}}, c.C.Seeds...)
				ids := append(seedIDs(c.C), genFedIDs(t, 0, 2, append(seedIDs(c.C), c.C.Self)...)...)
				for i, n := 0, intn(t, "msgs", 2, 30); i < n; i++ {
					c.Msgs = append(c.Msgs, f05Msg{intn(t, "via", 0, 3), infos(t, "infos", ids, 1, 3, h), genNewsKind(t), genSelf(t)})
				}
				return c
			}, runF05),
			bubble("storm", 400, 8000, "always: long lists about the same nodes over several connections", func(t *rapid.T) f05Case {
				c := f05Case{C: genFedCfg(t, 1), Conc: true}
				c.C.PL.Yield, c.C.PP.Yield = false, false
				c.C.PL.Chunk, c.C.PP.Chunk = 0, 0
				c.C.Seeds = append([]fedSeed{{genFedIDs(t, 1, 1, append(seedIDs(c.C), c.C.Self)...)[0], "10.0.2.200:1"}}, c.C.Seeds...)
				ids := genFedIDs(t, 1, 2, append(seedIDs(c.C), c.C.Self)...)
				n, per, step := intn(t, "msgs", 4, 12), intn(t, "per", 50, 120), uint64(intn(t, "step", 1, 2))
				for i := 0; i < n; i++ {
					m := f05Msg{Via: i}
					// versions go up, every message has others
					for j := 0; j < per; j++ {
						m.Info = append(m.Info, &fedInfo{ID: ids[j%len(ids)], Inst: 1 + uint64(j*n+i)/step, Phase: int64(uint64(j*n+i) % step), Addr: fmt.Sprintf("10.0.5.%d:%d", i, j)})
					}
					c.Msgs = append(c.Msgs, m)
				}
				return c
			}, runF05),
		},
		Assumptions: []string{"of announcements of the same instance and phase that arrive at the same time any may be kept"},
	})
	register(&Prop{
		ID: "F06",
		Parts: []Part{bubble("bootstrap", 8000, 160000, "the news of a routing partner arrived while bootstrapping, or before it", func(t *rapid.T) f06Case {
			c := f06Case{C: genFedCfg(t, 3), Limit: pick(t, "limit", []int{600, 1, 10, 100, 3600})}
			ids := append(seedIDs(c.C), genFedIDs(t, 1, 2, append(seedIDs(c.C), c.C.Self)...)...)
			news := func(ids []id128, routing bool) (out []*fedInfo) {
				out = infos(t, "infos", ids, 1, 3)
				for _, f := range out {
					if f.Phase == phaseRouting && !routing {
						f.Phase = pick(t, "phase2", []int64{0, 1, 2, 4})
					}
					for _, s := range c.C.Seeds { // seeds stay where they are
						if s.ID == f.ID {
							f.Addr = s.Addr
						}
					}
				}
				if routing {
					out[len(out)-1].Phase = phaseRouting
				}
				for _, f := range out { // others may say nothing about that
					if oneIn(t, "noaddr", 8) && !isSeed(c.C, f.ID) {
						f.Addr = ""
					}
				}
				return
			}
			if oneIn(t, "more", 3) {
				c.More = intn(t, "nmore", 1, 4)
			}
			var taken []id128
			for i, n := 0, intn(t, "answers", 0, 2); i < n; i++ {
				// about nodes of its own: the order of simultaneous news is not determined
				own := genFedIDs(t, 1, 2, append(append(taken, ids...), c.C.Self)...)
				c.Answers = append(c.Answers, f06Answer{intn(t, "seed", 0, 2), intn(t, "nth", 1, 3), news(own, coin(t, "routing")), genNewsKind(t)})
				taken = append(taken, own...)
			}
			for i, n := 0, intn(t, "steps", 0, 10); i < n; i++ {
				st := f06Step{Op: pick(t, "op", []string{"start", "wait", "tell", "wait", "tell", "fail", "ok", "hold", "kill", "cancel"}), I: intn(t, "i", 0, 3), Via: intn(t, "via", 0, 1)}
				if i == 0 && coin(t, "first") {
					st.Op = "start"
				}
				st.Ms = intn(t, "ms", 0, 100000)
				if st.Op == "tell" {
					st.Info, st.Kind = news(ids, oneIn(t, "routing", 3)), genNewsKind(t)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runF06)},
		Assumptions: []string{"news a node hears about itself is not judged", "a minute without a retry is too long", "seeds that once hung while connecting need not be retried"},
	})
	register(&Prop{
		ID: "F07",
		Parts: []Part{bubble("stamps", 12000, 240000, "partners were announced", func(t *rapid.T) f07Case {
			c := f07Case{C: genFedCfg(t, 3)}
			h := fedHist{}
			ids := append(seedIDs(c.C), genFedIDs(t, 0, 6, append(seedIDs(c.C), c.C.Self)...)...)
			for i, n := 0, intn(t, "steps", 1, 5); i < n; i++ {
				st := f07Step{M: genMsg(t, coin(t, "rel")), NoID: coin(t, "noid"), Target: intn(t, "target", 0, 9), Direct: coin(t, "direct")}
				if st.M.Actor == actorTransport {
					st.M.Actor = 6
				}
				if i > 0 && oneIn(t, "again", 3) {
					st.Again = intn(t, "which", 1, 5)
				}
				if coin(t, "tell") {
					st.Tell = infos(t, "infos", ids, 1, 4, h)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runF07)},
		Assumptions: []string{"fewer than 100 partners: header sections hold 64 KiB", "the order of the partners after the node itself is not judged", "callers do not set federation headers themselves"},
	})
	register(&Prop{
		ID: "F08",
		Parts: []Part{bubble("history", 8000, 160000, "messages were sent concurrently, a connection was replaced, or the node closed during a dial", func(t *rapid.T) f08Case {
			c := f08Case{C: genFedCfg(t, 2), Held: oneIn(t, "held", 3), Dead: pick(t, "dead", []int{0, 0, 0, 1, 2, 3, 4}), Busy: pick(t, "busy", []int{0, 0, 1, 2, 6}), After: pick(t, "after", []int{0, 1, 3})}
			ids := append(seedIDs(c.C), genFedIDs(t, 0, 3, append(seedIDs(c.C), c.C.Self)...)...)
			for _, id := range ids {
				f := genFedInfo(t, id)
				f.Inst |= 1
				f.Addr = fmt.Sprintf("10.0.3.%d:1", intn(t, "shared", 0, 2))
				c.Nodes = append(c.Nodes, f)
			}
			for i, n := 0, intn(t, "steps", 1, 12); i < n; i++ {
				c.Steps = append(c.Steps, f08Step{Op: pick(t, "op", []string{"send", "send", "send", "kill", "race", "fail", "ok", "hold", "release", "idle"}), I: intn(t, "i", 0, 4), N: pick(t, "n", []int{1, 1, 2, 5, 12}), Reset: coin(t, "reset"), Route: oneIn(t, "route", 4)})
			}
			return c
		}, runF08)},
	})
	register(&Prop{
		ID: "F09",
		Parts: []Part{
			bubble("history", 12000, 240000, "a request was answered", func(t *rapid.T) f09Case {
				c := f09Case{C: genFedCfg(t, 2)}
				ids := append(seedIDs(c.C), genFedIDs(t, 0, 3, append(seedIDs(c.C), c.C.Self)...)...)
				c.Nodes = infos(t, "nodes", ids, 0, 4)
				for i, n := 0, intn(t, "steps", 1, 14); i < n; i++ {
					st := f09Step{Op: pick(t, "op", []string{"route", "route", "reply", "reply", "unrelated", "cancel", "sleep", "fail", "hold", "release", "prompt", "long"}), I: intn(t, "i", 0, 6), Via: intn(t, "via", 0, 5), M: genMsg(t, true), Err: int64(pick(t, "err", []uint64{0, 0, 0, 1, 0x80071BBC, 1 << 63, ^uint64(0)})), Fast: oneIn(t, "fast", 3)}
					if oneIn(t, "news", 6) {
						st.News = intn(t, "newsn", 1, 150)
					}
					if st.Op == "route" && oneIn(t, "dead", 3) {
						st.Dead = intn(t, "deadms", 1, 500)
					}
					c.Steps = append(c.Steps, st)
				}
				return c
			}, runF09),
			bubble("concurrent", 3000, 60000, "always: many requests at once", func(t *rapid.T) f09Conc {
				c := f09Conc{C: genFedCfg(t, 1), N: intn(t, "n", 2, 40), Seed: rapid.Uint64().Draw(t, "seed"), Conns: intn(t, "conns", 0, 3)}
				for i, n := 0, intn(t, "errs", 0, 4); i < n; i++ {
					c.Errs = append(c.Errs, pick(t, "err", []int64{0, 0, 5, -2147017408}))
				}
				return c
			}, runF09Conc),
		},
		Assumptions: []string{"replies with a fault body carry an error code"},
	})
	register(&Prop{
		ID: "F10",
		Parts: []Part{bubble("discovery", 2500, 80000, "nodes announced others", func(t *rapid.T) f10Case {
			c := f10Case{C: genFedCfg(t, 3)}
			ids := append(seedIDs(c.C), genFedIDs(t, 1, 6, append(seedIDs(c.C), c.C.Self)...)...)
			who := append([]id128{}, ids...)
			if oneIn(t, "self", 3) {
				who = append(who, c.C.Self)
			}
			c.Before = infos(t, "before", who, 0, 2)
			for i, id := range ids {
				nd := f10Node{Info: &fedInfo{ID: id, Addr: fmt.Sprintf("10.0.4.%d:1", i)}, Fail: oneIn(t, "fail", 6)}
				for _, s := range c.C.Seeds {
					if s.ID == id {
						nd.Info.Addr = s.Addr
					}
				}
				for j, n := 0, intn(t, "tells", 0, 3); j < n; j++ {
					nd.Tells = append(nd.Tells, f10Tell{Info: infos(t, "infos", who, 1, 3), Ms: pick(t, "ms", []int{0, 0, 1, 200, 700}), In: coin(t, "in"), Twice: oneIn(t, "twice", 4)})
				}
				c.Nodes = append(c.Nodes, nd)
			}
			if sd := c.C.Seeds[intn(t, "slow", 0, len(c.C.Seeds)-1)]; coin(t, "slowly") {
				for i := range c.Nodes {
					if nd := &c.Nodes[i]; nd.Info.ID == sd.ID && len(nd.Tells) > 0 {
						nd.Tells[0].Ms = pick(t, "slowms", []int{1100, 2500, 4500})
						break
					}
				}
			}
			return c
		}, runF10)},
		Assumptions: []string{"the first answer of one seed takes up to 4.5 seconds, all others less than a second", "dials finish"},
	})
}

func (r *fedRig) held(addr string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.hold[addr] != nil
}
