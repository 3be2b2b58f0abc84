package harness

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T10

type t10Step struct {
	Op   string // set, append, get
	ID   uint16
	Vals []customSpec
}

type t10Case struct {
	S     sinkCfg
	Steps []t10Step
	After []t10Step   // applied to the received message, which is sent on
	Forks [][]t10Step // applied to copies of the headers, in turns
}

func (c customSpec) goVal() any {
	if c.D != nil {
		return goPtr(c.D, c.V)
	}
	return append([]byte{}, c.Raw...)
}

// t10Apply runs steps on h and on the model.
func t10Apply(x *X, what string, h *transport.MessageHeaders, model map[uint16][]customSpec, steps []t10Step) {
	enc := func(v any) string {
		if b, ok := v.([]byte); ok {
			return fmt.Sprintf("%x", b)
		}
		b, err := serialization.Marshal(v)
		if err != nil {
			x.Failf("%s: value %T cannot be encoded: %v", what, v, err)
		}
		return fmt.Sprintf("%x", b)
	}
	check := func(id uint16) {
		vs := h.GetCustomHeaders(transport.MessageHeaderIdType(id))
		want := model[id]
		if len(vs) != len(want) {
			x.Failf("%s: header %#x has %d values, want %d", what, id, len(vs), len(want))
		}
		for i := range vs {
			if w := fmt.Sprintf("%x", want[i].bytes()); enc(vs[i]) != w {
				x.Failf("%s: header %#x value %d is %s, want %s", what, id, i, clip(enc(vs[i]), 100), clip(w, 100))
			}
		}
		v, ok := h.GetFirstCustomHeader(transport.MessageHeaderIdType(id))
		if ok != (len(want) > 0) || ok && enc(v) != enc(vs[0]) || !ok && v != nil {
			x.Failf("%s: first value of header %#x: %v %v with %d values", what, id, v, ok, len(want))
		}
	}
	for _, st := range steps {
		switch st.Op {
		case "set":
			_, had := model[st.ID]
			if got := h.SetCustomHeader(transport.MessageHeaderIdType(st.ID), st.Vals[0].goVal()); got == had {
				x.Failf("%s: setting header %#x says %v with %d values present", what, st.ID, got, len(model[st.ID]))
			}
			if !had {
				model[st.ID] = []customSpec{st.Vals[0]}
			}
		case "append":
			var vs []any
			for _, v := range st.Vals {
				vs = append(vs, v.goVal())
			}
			h.AppendCustomHeader(transport.MessageHeaderIdType(st.ID), vs...)
			if len(vs) > 0 {
				model[st.ID] = append(append([]customSpec{}, model[st.ID]...), st.Vals...)
			}
		}
		for _, id := range allCustomIDs {
			check(id)
		}
	}
}

func t10Typed(x *X, what string, h *transport.MessageHeaders, model map[uint16][]customSpec) {
	for _, id := range allCustomIDs {
		for i, v := range h.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			want := reflect.TypeOf([]byte{})
			if d := dAct[id]; d != nil {
				want = reflect.PointerTo(d.goType(""))
			}
			if reflect.TypeOf(v) != want {
				x.Failf("%s: header %#x value %d is a %T, want %v", what, id, i, v, want)
			}
		}
	}
}

// t10Forks copies the headers several times and applies each copy's steps in turns.
func t10Forks(x *X, what string, h *transport.MessageHeaders, model map[uint16][]customSpec, forks [][]t10Step) {
	cl, ok := any(h).(interface {
		Clone() transport.MessageHeaders
	})
	if !ok {
		return
	}
	copyModel := func(m map[uint16][]customSpec) map[uint16][]customSpec {
		r := map[uint16][]customSpec{}
		for k, v := range m {
			r[k] = append([]customSpec{}, v...)
		}
		return r
	}
	hs := make([]transport.MessageHeaders, len(forks))
	ms := make([]map[uint16][]customSpec, len(forks))
	for i := range forks {
		hs[i], ms[i] = cl.Clone(), copyModel(model)
	}
	for k, more := 0, true; more; k++ {
		more = false
		for i, steps := range forks {
			if k < len(steps) {
				more = true
				t10Apply(x, fmt.Sprintf("%s: copy %d step %d", what, i, k), &hs[i], ms[i], steps[k:k+1])
			}
		}
	}
	look := []t10Step{{Op: "get"}}
	for i := range hs {
		t10Apply(x, fmt.Sprintf("%s: copy %d in the end", what, i), &hs[i], ms[i], look)
	}
	t10Apply(x, what+": the original of the copies", h, model, look)
}

func runT10(x *X, c t10Case) {
	s := newSink(x, c.S)
	model := map[uint16][]customSpec{}
	var m transport.Message
	m.Headers.Id = msgID{X: 6}.lib()
	m.Headers.Actor = 5
	t10Apply(x, "headers", &m.Headers, model, c.Steps)
	t10Forks(x, "headers", &m.Headers, model, c.Forks)
	// to the wire and back
	var specs []customSpec
	for _, id := range allCustomIDs {
		specs = append(specs, model[id]...)
	}
	spec := &msgSpec{ID: msgID{X: 6}, Actor: 5, Custom: specs}
	a, b := simPipe(c.S.PL, c.S.PP, tcpAddr(1, 1), tcpAddr(2, 2))
	p := newRawPeer(x, b, b, crcCfg{})
	p.pump()
	snd := connect(x, a, transport.Config{})
	x.Within("sending", func() {
		if err := snd.c.SendOneWay(&m); err != nil {
			x.Report("SendOneWay: %v", err)
		}
	})
	settle()
	x.Check()
	fs := p.user()
	if len(fs) != 1 {
		x.Failf("%d frames written", len(fs))
	}
	if d := wireDiff(fs[0], spec); d != "" {
		x.Failf("%s", d)
	}
	s.peer.write(rawFrame(s.peer.prov, headerBytes(fs[0].f.Headers), nil, s.peer.prov == 0 && !s.peer.cfg.NoGenHdr, s.peer.prov == 0 && s.peer.cfg.GenBody))
	settle()
	x.Check()
	ms := s.rec.all()
	if len(ms) != 1 {
		x.Failf("%d messages delivered of 1", len(ms))
	}
	got := ms[0].m
	t10Typed(x, "received", &got.Headers, model)
	t10Apply(x, "received", &got.Headers, model, append([]t10Step{{Op: "get"}}, c.After...))
	t10Forks(x, "received", &got.Headers, model, c.Forks)
	n := 0
	for _, v := range model {
		if len(v) > 1 {
			n++
		}
	}
	if n > 0 {
		x.NonTrivial()
	}
}

func genT10Steps(t *rapid.T, l string, max int) []t10Step {
	var out []t10Step
	many := max > 5 && oneIn(t, "hugely", 60)
	for i, n := 0, intn(t, l, 0, max); i < n; i++ {
		st := t10Step{Op: pick(t, "op", []string{"set", "append", "append", "get"}), ID: pick(t, "id", append([]uint16{actID1, actID2, 0x8020, 0x8020}, allCustomIDs...))}
		k := 0
		switch st.Op {
		case "set":
			k = 1
		case "append":
			k = intn(t, "vals", 0, 3)
			if dAct[st.ID] == nil && many && oneIn(t, "many", 8) {
				many = false
				for j, n := 0, intn(t, "count", 250, 3000); j < n; j++ {
					st.Vals = append(st.Vals, customSpec{ID: st.ID, Raw: []byte{byte(j), byte(j >> 8)}})
				}
			}
		}
		for j := 0; j < k; j++ {
			v := customSpec{ID: st.ID}
			size := 6
			if d := dAct[st.ID]; d != nil {
				v.D, v.V = d, genVal(t, d, genOpts{}, &size, false)
			} else if coin(t, "struct") {
				budget := 4
				v.D = genStruct(t, genOpts{}, 1, &budget, true)
				v.V = genVal(t, v.D, genOpts{}, &size, false)
			} else {
				v.Raw = append([]byte{}, genBytes(t, "raw", 0, 12)...)
			}
			st.Vals = append(st.Vals, v)
		}
		out = append(out, st)
	}
	return out
}

// ---------------------------------------------------------------- T11

type t11Step struct {
	Op string // connect, bad, temp, req, storm, push, srvreq, block, close, reset, half
	I  int
	N  int
}

type t11Case struct {
	Cfg    crcCfg
	Secure bool
	TLS    tlsSpec
	PC, PS netPlan
	Steps  []t11Step
	Dress  uint64 `json:",omitempty"`
}

type t11Client struct {
	e     *endpoint
	sim   *simConn
	conn  transport.Conn // server's end
	n     int
	push  int
	alive bool
}

func runT11(x *X, c t11Case) {
	cfg, ccfg := c.Cfg.lib(), peerCfg(c.Cfg).lib()
	if c.Secure {
		cfg.TLS, ccfg.TLS = c.TLS.server(), c.TLS.client()
	}
	ln := newSimListener(tcpAddr(9, 9))
	var mu sync.Mutex
	conns := map[string]transport.Conn{} // by client tag
	release := make(chan struct{})
	x.Cleanup(func() { close(release) })
	srv, err := transport.Listen(ln, transport.ServerConfig{Config: cfg, MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		tag, _, _ := strings.Cut(string(m.Body), "/")
		mu.Lock()
		if o, ok := conns[tag]; ok && o != conn {
			x.Report("messages of client %s come with different connections", tag)
		}
		conns[tag] = conn
		mu.Unlock()
		if m.Headers.Action == "block" {
			<-release
			return
		}
		if m.Headers.ExpectsReply {
			r := &transport.Message{Body: []byte("re:" + string(m.Body))}
			r.Headers.RelatesTo = m.Headers.Id
			r.Headers.Actor = 5
			dress(&r.Headers, c.Dress, uint64(len(m.Body)))
			conn.SendOneWay(r)
		}
	}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	serve := make(chan error, 1)
	go func() { serve <- srv.Serve() }()
	x.Cleanup(func() { srv.Close() })
	if srv.Addr() != ln.Addr() {
		x.Failf("Addr is %v", srv.Addr())
	}

	var cs []*t11Client
	alive := func() (out []*t11Client) {
		for _, cl := range cs {
			if cl.alive {
				out = append(out, cl)
			}
		}
		return
	}
	tag := func(cl *t11Client) string {
		for i := range cs {
			if cs[i] == cl {
				return fmt.Sprint("c", i)
			}
		}
		panic(harnessError("tag"))
	}
	request := func(cl *t11Client, k int, report bool) *pendingReq {
		// clients use the same identities
		body := fmt.Sprintf("%s/%d", tag(cl), k)
		r := startRequest(cl.e.c, (&msgSpec{ID: msgID{G: Val{U: 1}, X: uint32(k + 1)}, Actor: 5, Body: []byte(body)}).dress(c.Dress, uint64(k)), context.Background())
		x.Cleanup(r.cancel)
		return r
	}
	judge := func(at string, cl *t11Client, k int, r *pendingReq) {
		if !r.finished() {
			x.Failf("%s: request %d of client %s has no reply", at, k, tag(cl))
		}
		if r.err != nil {
			x.Failf("%s: request %d of client %s: %v", at, k, tag(cl), r.err)
		}
		if want := fmt.Sprintf("re:%s/%d", tag(cl), k); string(r.reply.Body) != want {
			x.Failf("%s: request %d of client %s got %q", at, k, tag(cl), r.reply.Body)
		}
	}
	bad, interesting := 0, false
	for si, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", si, st.Op)
		live := alive()
		var cl *t11Client
		if len(live) > 0 {
			cl = live[st.I%len(live)]
		}
		switch st.Op {
		case "connect":
			pc, ps := c.PC, c.PS
			pc.Seed += uint64(si)
			ps.Seed += uint64(si)
			sim, err := ln.connect(pc, ps, tcpAddr(20+len(cs), 1))
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			n := &t11Client{sim: sim, alive: true}
			n.e = connect(x, sim, ccfg)
			n.e.also = func(conn transport.Conn, m *transport.ByteArrayMessage) {
				if m.Headers.ExpectsReply {
					r := &transport.Message{Body: []byte("cl:" + string(m.Body))}
					r.Headers.RelatesTo = m.Headers.Id
					r.Headers.Actor = 5
					go conn.SendOneWay(r)
				}
			}
			cs = append(cs, n)
			// the server learns about it
			r := request(n, 1000, true)
			synctest.Wait()
			judge(at, n, 1000, r)
		case "bad":
			bad++
			sim, err := ln.connect(netPlan{}, netPlan{Cap: 1}, tcpAddr(200, bad))
			if err != nil {
				x.Failf("%s: %v", at, err)
			}
			x.Cleanup(func() { sim.Close() })
			switch st.I % 5 {
			case 0: // never says or reads anything
			case 1:
				sim.Close()
			case 2:
				sim.reset()
			case 3:
				go sim.Write(make([]byte, 40))
			case 4:
				go sim.Write([]byte{200, 0, 0, 0, 1, 0, 50, 0})
			}
			interesting = interesting || len(live) > 0
		case "temp":
			n := st.N
			if n == 4 {
				n = []int{40, 150, 400, 1500}[st.I%4]
			}
			for i := 0; i <= n; i++ {
				ln.push(acceptItem{err: &tempError{st.I + i/3}})
			}
			settle() // accepting may pause
			interesting = true
		case "req":
			if cl == nil {
				continue
			}
			cl.n++
			r := request(cl, cl.n, true)
			synctest.Wait()
			judge(at, cl, cl.n, r)
		case "storm":
			var rs []*pendingReq
			var ks []int
			var own []*t11Client
			for k := 0; k < st.N; k++ {
				for _, l := range live {
					l.n++
					own, ks, rs = append(own, l), append(ks, l.n), append(rs, request(l, l.n, true))
				}
			}
			synctest.Wait()
			x.Check()
			for i := range rs {
				judge(at, own[i], ks[i], rs[i])
			}
			interesting = interesting || len(live) > 1
		case "push":
			if cl == nil {
				continue
			}
			mu.Lock()
			conn := conns[tag(cl)]
			mu.Unlock()
			m := &transport.Message{Body: []byte(tag(cl))}
			m.Headers.Actor = 5
			dress(&m.Headers, c.Dress, uint64(si))
			if err := conn.SendOneWay(m); err != nil {
				x.Failf("%s: %v", at, err)
			}
			cl.push++
		case "srvreq":
			var rs []*pendingReq
			for _, l := range live {
				mu.Lock()
				conn := conns[tag(l)]
				mu.Unlock()
				r := startRequest(conn, &msgSpec{ID: msgID{G: Val{U: 2}, X: uint32(si)}, Actor: 5, Body: []byte(tag(l))}, context.Background())
				x.Cleanup(r.cancel)
				rs = append(rs, r)
				l.push++
			}
			synctest.Wait()
			for i, l := range live {
				if r := rs[i]; !r.finished() || r.err != nil || string(r.reply.Body) != "cl:"+tag(l) {
					x.Failf("%s: the server's request to client %s: finished=%v err=%v", at, tag(l), r.finished(), r.err)
				}
			}
		case "idle":
			time.Sleep(time.Duration(st.N*13+1) * time.Hour)
		case "block":
			if cl == nil {
				continue
			}
			m := &transport.Message{Body: []byte(tag(cl) + "/block")}
			m.Headers.Actor, m.Headers.Action = 5, "block"
			if err := cl.e.c.SendOneWay(m); err != nil {
				x.Failf("%s: %v", at, err)
			}
			cl.alive = false // whether this client is still served is not promised
			interesting = interesting || len(live) > 1
		case "close", "reset", "half":
			if cl == nil {
				continue
			}
			cl.alive = false
			// some of its requests are under way
			for k := 0; k < st.N; k++ {
				cl.n++
				request(cl, cl.n, false)
			}
			switch st.Op {
			case "close":
				cl.e.c.Close()
			case "reset":
				cl.sim.reset()
			case "half":
				cl.sim.closeWrite()
			}
			interesting = interesting || len(live) > 1
		}
		synctest.Wait()
		x.Check()
		for _, l := range alive() {
			if l.e.ended() {
				x.Failf("%s: client %s lost its connection: %v", at, tag(l), l.e.err)
			}
			got := l.e.all()
			if len(got) != l.push {
				x.Failf("%s: client %s got %d messages, want %d", at, tag(l), len(got), l.push)
			}
			for _, g := range got {
				if string(g.m.Body) != tag(l) {
					x.Failf("%s: client %s got a message for %s", at, tag(l), g.m.Body)
				}
			}
		}
		select {
		case err := <-serve:
			x.Failf("%s: Serve returned: %v", at, err)
		default:
		}
	}
	// every client left is still served
	for _, l := range alive() {
		l.n++
		r := request(l, l.n, true)
		synctest.Wait()
		x.Check()
		judge("end", l, l.n, r)
	}
	if err := srv.Close(); err != nil {
		x.Failf("Close: %v", err)
	}
	synctest.Wait()
	select {
	case <-serve:
	default:
		x.Failf("Serve has not returned after Close")
	}
	if interesting {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- T12

type t12Client struct {
	Up, Down []*msgSpec
	Find     string // "", error, dead, refuse
	End      string // "", client-close, client-reset, client-garbage, up-close, up-reset, up-garbage
	Trans    []int  // indexes of messages sent as transport messages
	Seed     uint64
}

type t12Case struct {
	Cfg, UpCfg       crcCfg
	Secure, UpSecure bool
	TLS, UpTLS       tlsSpec
	PL, PP           netPlan
	Filter           bool
	FilterSeed       uint64
	Clients          []t12Client
	Temp             int
	Idle             int // hours without a message, before the ends
}

const (
	tagUp   = 0xA001
	tagDown = 0xA002
)

// t12Filter is what the filter does with a message.
func t12Filter(c t12Case, m *msgSpec) (out *msgSpec) {
	if !c.Filter {
		return m
	}
	o := *m
	switch splitmix(c.FilterSeed, m.ID.G.U, uint64(m.ID.X)) % 6 {
	case 0, 1:
		return &o
	case 2:
		return nil
	case 3:
		o.Body, o.BodyN, o.BD = []byte("rewritten"), 0, nil
		return &o
	case 4:
		o.BD, o.BV, o.BodyN = dAct[actID1], &Val{L: []*Val{{U: 7}, {S: "re"}, {}}}, 0
		o.Retry, o.High = 9, true
		return &o
	}
	o.Action = "seen"
	o.Custom = append(append([]customSpec{}, o.Custom...), customSpec{ID: 0x9000, Raw: []byte("added")})
	return &o
}

type t12Conn struct {
	client *rawPeer
	up     *rawPeer
	rawu   *simConn
}

func runT12(x *X, c t12Case) {
	cfg := c.Cfg.lib()
	if c.Secure {
		cfg.TLS = c.TLS.server()
	}
	ln := newSimListener(tcpAddr(9, 9))
	conns := make([]*t12Conn, len(c.Clients))
	var mu sync.Mutex
	filtered := map[string]int{}
	byAddr := map[string]int{}
	pc := transport.PiperConfig{Config: cfg}
	pc.FindUpstream = func(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
		mu.Lock()
		i, ok := byAddr[conn.RemoteAddr().String()]
		mu.Unlock()
		if !ok || h == nil {
			x.Report("FindUpstream is asked for an unknown connection %v", conn.RemoteAddr())
			return nil, transport.Config{}, errors.New("unknown")
		}
		if c.Clients[i].Find == "error" {
			return nil, transport.Config{}, errors.New("no upstream")
		}
		uc := c.UpCfg.lib()
		if c.UpSecure {
			uc.TLS = c.UpTLS.client()
		}
		return conns[i].rawu, uc, nil
	}
	if c.Filter {
		pc.Filter = func(src, dst net.Conn, msg *transport.ByteArrayMessage) *transport.Message {
			h := msg.Headers
			out := &transport.Message{Headers: h, Body: msg.Body}
			if h.Id.Id.Data1 == 0 && idOf(h.Id).G.H != 4711 {
				return out // not one of the generated messages
			}
			id := idOf(h.Id)
			i := int(id.G.U >> 32)
			up := uint32(id.G.U) == tagUp
			list := c.Clients[i].Down
			from, to := conns[i].rawu.RemoteAddr(), tcpAddr(30+i, 1)
			if up {
				list = c.Clients[i].Up
				from, to = to, from
			}
			if src.RemoteAddr().String() != from.String() || dst.RemoteAddr().String() != to.String() {
				x.Report("filter is told %v to %v, the message goes from %v to %v", src.RemoteAddr(), dst.RemoteAddr(), from, to)
			}
			mu.Lock()
			filtered[id.key()]++
			mu.Unlock()
			s, err := seenLib(msg, allCustomIDs)
			if err != nil {
				x.Report("filter: %v", err)
			}
			m := list[id.X-1]
			if d := s.diff(m.seen()); d != "" {
				x.Report("filter is given %s", d)
			}
			o := t12Filter(c, m)
			if o == nil {
				return nil
			}
			switch splitmix(c.FilterSeed, m.ID.G.U, uint64(m.ID.X)) % 6 {
			case 3:
				out.Body = []byte("rewritten")
			case 5:
				out.Headers.Action = "seen"
				out.Headers.AppendCustomHeader(0x9000, []byte("added"))
			case 4:
				out = o.lib()
			}
			return out
		}
	}
	pr, err := transport.NewPiper(ln, pc)
	if err != nil {
		x.Failf("NewPiper: %v", err)
	}
	serve := make(chan error, 1)
	go func() { serve <- pr.Serve() }()
	x.Cleanup(func() { ln.Close() })
	for i := 0; i < c.Temp; i++ {
		ln.push(acceptItem{err: &tempError{i}})
	}
	if c.Temp > 0 {
		settle() // accepting may pause
	}
	var hs sync.WaitGroup
	for i := range c.Clients {
		cl := &c.Clients[i]
		for j, m := range cl.Up {
			m.ID = msgID{G: Val{U: uint64(i)<<32 | tagUp, H: 4711}, X: uint32(j + 1)}
		}
		for j, m := range cl.Down {
			m.ID = msgID{G: Val{U: uint64(i)<<32 | tagDown, H: 4711}, X: uint32(j + 1)}
		}
		for _, k := range cl.Trans {
			if m := cl.Up[k%len(cl.Up)]; true {
				m.Actor, m.Action, m.High = actorTransport, []string{"", "HeartbeatRequest", "HeartbeatResponse"}[k%3], true
			}
		}
		pl, pp := c.PL, c.PP
		pl.Seed, pp.Seed = pl.Seed+uint64(i), pp.Seed+uint64(i)
		ca, cb := simPipe(pp, pl, tcpAddr(30+i, 1), ln.addr)
		pl.Seed++
		pp.Seed++
		ua, ub := simPipe(pl, pp, tcpAddr(60+i, 1), tcpAddr(90+i, 1))
		k := &t12Conn{client: newRawPeer(x, ca, ca, peerCfg(c.Cfg)), up: newRawPeer(x, ub, ub, peerCfg(c.UpCfg)), rawu: ua}
		conns[i] = k
		mu.Lock()
		byAddr[ca.local.String()] = i
		mu.Unlock()
		x.Cleanup(func() { cb.Close(); ua.Close() })
		switch cl.Find {
		case "dead":
			ub.Close()
		case "refuse":
			// hears the proxy out and hangs up
			go func() { readRawFrame(ub); ub.Close() }()
		}
		ln.push(acceptItem{c: cb})
		hs.Add(2)
		go func() {
			defer hs.Done()
			if c.Secure {
				t, _, err := refTLS(x, ca, c.TLS.client(), false)
				if err != nil {
					x.Report("client %d: handshake with the proxy: %v", i, err)
					return
				}
				k.client.c, k.client.prov = t, 1
			}
			k.client.pump()
			for _, m := range cl.Up {
				if _, err := k.client.c.Write(k.client.frame(m)); err != nil {
					if cl.Find == "" {
						x.Report("client %d: writing to the proxy: %v", i, err)
					}
					return
				}
			}
		}()
		go func() {
			defer hs.Done()
			if cl.Find != "" {
				return
			}
			if c.UpSecure {
				srv := c.UpTLS.server()
				if c.UpTLS.GetCfg {
					srv, _ = srv.GetConfigForClient(nil)
				}
				srv.SessionTicketsDisabled = true
				t, _, err := refTLS(x, ub, srv, true)
				if err != nil {
					x.Report("upstream %d: handshake with the proxy: %v", i, err)
					return
				}
				k.up.c, k.up.prov = t, 1
			}
			k.up.pump()
			for _, m := range cl.Down {
				if _, err := k.up.c.Write(k.up.frame(m)); err != nil {
					x.Report("upstream %d: writing to the proxy: %v", i, err)
					return
				}
			}
		}()
	}
	x.Within("exchanging messages through the proxy", hs.Wait)
	settle()
	x.Check()
	mine := func(p *rawPeer) (out []seen) {
		for _, f := range p.all() {
			if f.m.ID.G.H == 4711 {
				out = append(out, f.m.seen())
			}
		}
		return
	}
	expect := func(ms []*msgSpec) (out []seen) {
		for _, m := range ms {
			if o := t12Filter(c, m); o != nil {
				out = append(out, o.seen())
			}
		}
		return
	}
	foreign := func(what string, p *rawPeer) {
		n := 0
		for _, f := range p.all() {
			if f.m.ID.G.H == 4711 {
				continue
			}
			if n++; f.m.Actor != actorTransport || f.m.Action != "" || n > 1 {
				x.Failf("%s: the proxy made up a message: %s", what, f.m.seen().diff(seen{}))
			}
		}
	}
	total := 0
	for i := range c.Clients {
		cl, k := &c.Clients[i], conns[i]
		what := fmt.Sprintf("client %d", i)
		if cl.Find != "" {
			if k.client.ended() == nil {
				x.Failf("%s: there is no upstream (%s) and its connection is still open", what, cl.Find)
			}
			if len(mine(k.client)) > 0 {
				x.Failf("%s: gets messages without an upstream", what)
			}
			if cl.Find != "error" && !k.rawu.closed.Load() {
				x.Failf("%s: its upstream connection is left open", what)
			}
			continue
		}
		if d := matchSeq(what+" to upstream", mine(k.up), expect(cl.Up)); d != "" {
			x.Failf("%s", d)
		}
		if d := matchSeq("upstream to "+what, mine(k.client), expect(cl.Down)); d != "" {
			x.Failf("%s", d)
		}
		foreign(what, k.client)
		foreign(what+" upstream", k.up)
		if k.client.ended() != nil || k.up.ended() != nil {
			x.Failf("%s: the proxy ended a healthy connection: %v %v", what, k.client.ended(), k.up.ended())
		}
		total += len(cl.Up) + len(cl.Down)
		if c.Filter {
			for _, m := range append(append([]*msgSpec{}, cl.Up...), cl.Down...) {
				if n := filtered[m.ID.key()]; n != 1 {
					x.Failf("%s: filter was given message %s %d times", what, m.ID.key(), n)
				}
			}
		}
	}
	// ends travel
	if c.Idle > 0 {
		time.Sleep(time.Duration(c.Idle) * time.Hour)
		settle()
		for i, k := range conns {
			if c.Clients[i].Find == "" && (k.client.ended() != nil || k.up.ended() != nil) {
				x.Failf("client %d: the proxy ended a connection after %d idle hours: %v %v", i, c.Idle, k.client.ended(), k.up.ended())
			}
		}
	}
	ended := map[int]bool{}
	for i := range c.Clients {
		cl, k := &c.Clients[i], conns[i]
		if cl.Find != "" || cl.End == "" {
			continue
		}
		side, how, _ := strings.Cut(cl.End, "-")
		p, o := k.client, k.up
		if side == "up" {
			p, o = k.up, k.client
		}
		switch how {
		case "close":
			p.sim.Close()
		case "reset":
			p.sim.reset()
		case "garbage":
			x.Within("reading", func() { p.c.Write(make([]byte, 64)) })
		case "half":
			p.sim.closeWrite()
		}
		settle()
		x.Check()
		if o.ended() == nil {
			x.Failf("client %d: %s, and the other side is still open", i, cl.End)
		}
		ended[i] = true
	}
	for i := range c.Clients {
		cl, k := &c.Clients[i], conns[i]
		if cl.Find != "" || ended[i] || len(cl.Up) == 0 {
			continue
		}
		n := len(mine(k.up))
		m := cl.Up[len(cl.Up)-1]
		x.Within("forwarding", func() { k.client.c.Write(k.client.frame(m)) })
		settle()
		x.Check()
		w := expect([]*msgSpec{m})
		if d := matchSeq(fmt.Sprintf("client %d after others have ended", i), mine(k.up)[n:], w); d != "" {
			x.Failf("%s", d)
		}
	}
	select {
	case err := <-serve:
		x.Failf("Serve returned: %v", err)
	default:
	}
	if total >= 2 {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("secure=%v/%v filter=%v", c.Secure, c.UpSecure, c.Filter))
}

// ---------------------------------------------------------------- T13

type t13Case struct {
	Pair   string // lib-lib, lib-ref, ref-lib (client-server)
	TLS    tlsSpec
	PC, PS netPlan
	Up     []*msgSpec
	Down   []*msgSpec
	Cfg    crcCfg
	Again  int `json:",omitempty"` // further connections, which may resume the session
}

func checkHello(x *X, what string, s *refSecure) {
	if len(s.hello) == 0 {
		x.Failf("%s: no handshake frames", what)
	}
	for i, f := range s.hello {
		if f.f.Provider != 1 {
			x.Failf("%s: handshake frame %d has security provider %d", what, i, f.f.Provider)
		}
		if f.m.Actor != actorSecurity {
			x.Failf("%s: handshake frame %d has actor %d", what, i, f.m.Actor)
		}
		if len(f.m.Body) == 0 {
			x.Failf("%s: handshake frame %d is empty", what, i)
		}
		n := 0
		for _, h := range f.m.Custom {
			if h.ID == hNegotiation {
				n++
				v, err := refUnmarshal(dNegotiation, h.Raw, "")
				if err != nil {
					x.Failf("%s: negotiation header: %v", what, err)
				}
				if v.L[0].U != 1 || v.L[1].U != 1 {
					x.Failf("%s: negotiation header announces framing %d, protection %d", what, v.L[0].U, v.L[1].U)
				}
			}
		}
		if i == 0 && n != 1 || i > 0 && n != 0 {
			x.Failf("%s: handshake frame %d announces the negotiation %d times", what, i, n)
		}
	}
}

func runT13(x *X, c t13Case) {
	client, server := c.TLS.client(), c.TLS.server()
	for i := 0; i <= c.Again; i++ {
		runT13Conn(x, c, client, server)
	}
}

func runT13Conn(x *X, c t13Case, client, server *tls.Config) {
	la, lb := simPipe(c.PC, c.PS, tcpAddr(1, 1), tcpAddr(9, 9))
	cc, sc := c.Cfg.lib(), peerCfg(c.Cfg).lib()
	cc.TLS, sc.TLS = client, server
	rec := &recorder{x: x}
	var ep *endpoint
	var peer *rawPeer
	var srvConn transport.Conn
	reply := func(conn transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action == "echo" {
			r := &transport.Message{Body: append([]byte("re:"), m.Body...)}
			r.Headers.RelatesTo, r.Headers.Actor = m.Headers.Id, 5
			conn.SendOneWay(r)
		}
	}
	var wg sync.WaitGroup
	// server side
	if c.Pair == "lib-ref" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			srv := sc.TLS
			if c.TLS.GetCfg {
				srv, _ = srv.GetConfigForClient(nil)
			}
			srv.SessionTicketsDisabled = srv.SessionTicketsDisabled || c.TLS.Auth != 0
			t, s, err := refTLS(x, lb, srv, true)
			if err != nil {
				x.Report("reference server: %v", err)
				lb.Close()
				return
			}
			checkHelloBG(x, "client", s)
			peer = newRawPeer(x, t, lb, crcCfg{})
			peer.prov = 1
			peer.pump()
		}()
	} else {
		ln := newSimListener(tcpAddr(9, 9))
		rec.also = func(conn transport.Conn, m *transport.ByteArrayMessage) {
			if m.Headers.Action == "hello" {
				sendAll(x, "server", conn, c.Down, true)
			}
			reply(conn, m)
		}
		srv, _ := transport.Listen(ln, transport.ServerConfig{Config: sc, MessageCallback: rec.onMessage})
		go srv.Serve()
		x.Cleanup(func() { srv.Close(); lb.Close() })
		ln.push(acceptItem{c: lb})
	}
	// client side
	wg.Add(1)
	go func() {
		defer wg.Done()
		if c.Pair == "ref-lib" {
			t, s, err := refTLS(x, la, cc.TLS, false)
			if err != nil {
				x.Report("reference client: %v", err)
				la.Close()
				return
			}
			checkHelloBG(x, "server", s)
			peer = newRawPeer(x, t, la, crcCfg{})
			peer.prov = 1
			peer.pump()
		} else {
			ep = bgConnect(x, la, cc)
		}
	}()
	x.Within("handshake", wg.Wait)
	x.Check()
	hello := &msgSpec{ID: msgID{X: 0xF00}, Actor: 5, Action: "hello"}
	var up, down []seen // as received
	switch c.Pair {
	case "lib-lib":
		x.Within("sending", func() { sendAll(x, "client", ep.c, append(c.Up, hello), true) })
		settle()
		up, down = rec.seen(), ep.seen()
		srvConn = nil
		if d := matchSet("client to server", up, seenOf(append(c.Up, hello))); d != "" {
			x.Failf("%s", d)
		}
	case "ref-lib":
		for _, m := range append(c.Up, hello) {
			peer.send(m)
		}
		settle()
		down = peer.userSeen()
		if d := matchSet("client to server", rec.seen(), seenOf(append(c.Up, hello))); d != "" {
			x.Failf("%s", d)
		}
		if f := peer.all(); len(f) == 0 || f[0].m.Actor != actorTransport {
			x.Failf("the secured connection does not start with a transport init message")
		}
	case "lib-ref":
		for _, m := range c.Down {
			peer.send(m)
		}
		x.Within("sending", func() { sendAll(x, "client", ep.c, c.Up, true) })
		settle()
		down = ep.seen()
		if d := matchSeq("client to server", peer.userSeen(), seenOf(c.Up)); d != "" {
			x.Failf("%s", d)
		}
		if f := peer.all(); len(f) == 0 || f[0].m.Actor != actorTransport {
			x.Failf("the secured connection does not start with a transport init message")
		}
	}
	_ = srvConn
	x.Check()
	if d := matchSeq("server to client", down, seenOf(c.Down)); d != "" {
		x.Failf("%s", d)
	}
	if c.Pair == "lib-lib" {
		r := startRequest(ep.c, &msgSpec{ID: msgID{X: 0xF01}, Actor: 5, Action: "echo", Body: []byte("abc")}, context.Background())
		x.Cleanup(r.cancel)
		p := make(chan error, 1)
		go func() { _, err := ep.c.Ping(context.Background()); p <- err }()
		settle()
		x.Check()
		if !r.finished() || r.err != nil || string(r.reply.Body) != "re:abc" {
			x.Failf("request over the secured connection: finished=%v err=%v", r.finished(), r.err)
		}
		select {
		case err := <-p:
			if err != nil {
				x.Failf("ping over the secured connection: %v", err)
			}
		default:
			x.Failf("ping over the secured connection is not answered")
		}
	}
	if ep != nil && ep.ended() {
		x.Failf("the connection ended: %v", ep.err)
	}
	x.NonTrivial()
	x.Label(fmt.Sprintf("%s tls=%#x auth=%d", c.Pair, c.TLS.Max, c.TLS.Auth))
}

// checkHelloBG is checkHello for other goroutines.
func checkHelloBG(x *X, what string, s *refSecure) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortCase); !ok {
				panic(r)
			}
		}
	}()
	checkHello(x, what, s)
}

type t13Fail struct {
	Kind   string // refuse-server, refuse-client, no-cert, version, cut-client, cut-server, wfail-client, wfail-server, skip
	Max    uint16
	Auth   int
	N      int
	PC, PS netPlan
	Close  bool // cut by close rather than reset
}

// runT13Fail makes handshakes fail. Both ends are the library's.
func runT13Fail(x *X, c t13Fail) {
	spec := tlsSpec{Max: c.Max, Auth: c.Auth, Cert: true}
	cc, sc := spec.client(), spec.server()
	switch c.Kind {
	case "refuse-server": // the server's certificate is not one the client trusts
		sc.Certificates = []tls.Certificate{tlsForged}
	case "refuse-client": // the client's is not one the server trusts
		sc.ClientAuth = tls.RequireAndVerifyClientCert
		cc.Certificates = []tls.Certificate{tlsForged}
	case "no-cert":
		sc.ClientAuth = tls.RequireAnyClientCert
		cc.Certificates = nil
	case "version":
		sc.MinVersion, sc.MaxVersion = tls.VersionTLS13, 0
		cc.MaxVersion = tls.VersionTLS12
	}
	la, lb := simPipe(c.PC, c.PS, tcpAddr(1, 1), tcpAddr(9, 9))
	ln := newSimListener(tcpAddr(9, 9))
	rec := &recorder{x: x}
	srv, _ := transport.Listen(ln, transport.ServerConfig{Config: transport.Config{TLS: sc}, MessageCallback: rec.onMessage})
	go srv.Serve()
	x.Cleanup(func() { srv.Close(); la.Close(); lb.Close() })
	cut := func(h *half, other *simConn) {
		// after N bytes this direction ends, for good
		h.update(func() {
			h.failAfter = int64(c.N)
			h.failErr = errPipe
		})
	}
	switch c.Kind {
	case "wfail-client":
		cut(la.w, lb)
	case "wfail-server":
		cut(lb.w, la)
	}
	if strings.HasPrefix(c.Kind, "cut") {
		dir := la.w // bytes to the server
		if c.Kind == "cut-client" {
			dir = lb.w
		}
		// what is written beyond N bytes is lost with the connection
		dir.update(func() { dir.failAfter = int64(c.N); dir.failErr = errPipe })
		dir.onFail = func() {
			if c.Close {
				la.closeBoth(lb)
			} else {
				la.reset()
			}
		}
	}
	ln.push(acceptItem{c: lb})
	var ep *endpoint
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		ep, err = newEndpoint(x, la, transport.Config{TLS: cc})
		if err != nil {
			// the caller gives the connection up
			la.Close()
		}
	}()
	settle()
	select {
	case <-done:
	default:
		if c.Kind != "wfail-server" {
			x.Failf("Connect hangs")
		}
		// only the server sees its failure, it has to hang up
	}
	early := c.N < 200
	switch c.Kind {
	case "refuse-server", "version":
		if err == nil {
			x.Failf("%s: Connect succeeds", c.Kind)
		}
	case "wfail-client", "cut-client", "cut-server", "wfail-server":
		if early && err == nil {
			x.Failf("%s after %d bytes: Connect succeeds", c.Kind, c.N)
		}
	case "refuse-client", "no-cert":
		if c.Max != 0 && c.Max < tls.VersionTLS13 && err == nil {
			x.Failf("%s: Connect succeeds", c.Kind)
		}
	}
	if err == nil && ep != nil {
		// the client may be done before the server refuses; it has to learn
		ep.start()
		sendErr := make(chan error, 1)
		go func() { sendErr <- ep.c.SendOneWay((&msgSpec{ID: msgID{X: 1}, Actor: 5, Body: []byte("x")}).lib()) }()
		settle()
		if c.Kind == "refuse-client" || c.Kind == "no-cert" {
			if !ep.ended() || ep.err == nil {
				x.Failf("%s: the client was refused and is not told: ended=%v err=%v", c.Kind, ep.ended(), ep.err)
			}
		}
		select {
		case <-sendErr:
		default:
			x.Failf("%s: sending hangs", c.Kind)
		}
	}
	if c.Kind == "refuse-client" || c.Kind == "no-cert" || early {
		if len(rec.all()) > 0 {
			x.Failf("%s: the server delivered a message", c.Kind)
		}
		if !lb.closed.Load() {
			x.Failf("%s: the server keeps the connection", c.Kind)
		}
	}
	// the server still serves
	sn := &sink{role: "server", x: x, rec: &recorder{x: x}, ln: ln}
	if c.Kind == "wfail-client" || c.Kind == "cut-client" || c.Kind == "wfail-server" || c.Kind == "cut-server" {
		n := len(rec.all())
		sim, e2 := ln.connect(c.PC, c.PS, tcpAddr(5, 5))
		if e2 != nil {
			x.Failf("the server no longer accepts: %v", e2)
		}
		e := connect(x, sim, transport.Config{TLS: spec.client()})
		sendAll(x, "probe", e.c, []*msgSpec{{ID: msgID{X: 2}, Actor: 5}}, false)
		settle()
		if len(rec.all()) != n+1 {
			x.Failf("%s: another client's message does not arrive", c.Kind)
		}
	}
	_ = sn
	x.Check()
	x.NonTrivial()
	x.Label(fmt.Sprintf("%s connect-error=%v", c.Kind, err != nil))
}

// ---------------------------------------------------------------- T14

type t14Case struct {
	S       sinkCfg
	Pre     []*msgSpec // ordinary traffic
	Near    []int      // near misses before the refusal
	Reqs    int
	Err     int64
	Text    string
	BadBody []byte
	NoFault bool `json:",omitempty"` // the failure does not claim a fault body
	Rel     bool `json:",omitempty"` // the failure relates to an outstanding request
	After   int
}

const actorSendTarget = 29

func runT14(x *X, c t14Case) {
	s := newLive(x, c.S)
	var want []seen
	loose := 0
	for _, m := range c.Pre {
		s.peer.send(m)
		want = append(want, m.seen())
	}
	var reqs []*pendingReq
	again := make([]error, c.Reqs)
	for i := 0; i < c.Reqs; i++ {
		r := &pendingReq{done: make(chan struct{})}
		lm := (&msgSpec{ID: msgID{G: Val{U: 8}, X: uint32(i + 1)}, Actor: 5}).lib()
		go func() {
			defer close(r.done)
			if r.reply, r.err = s.conn.RequestReply(context.Background(), lm); r.err != nil {
				// as a caller that tries again at once
				again[i] = s.conn.SendOneWay((&msgSpec{ID: msgID{X: uint32(300 + i)}, Actor: 5}).lib())
			}
		}()
		reqs = append(reqs, r)
	}
	body := func(text string) []byte { return refMarshal(dStr, &Val{L: []*Val{{S: text}}}, "") }
	for _, n := range c.Near {
		m := &msgSpec{ID: msgID{X: 100}, Actor: actorSendTarget, Action: "ConnectionAuth", Body: body("fine")}
		switch n % 4 {
		case 0: // success
			loose++
			s.peer.send(m)
			continue
		case 1:
			m.Actor, m.Err = 5, c.Err
		case 2:
			m.Action, m.Err = "ConnectionAuthenticated", c.Err
		case 3:
			m.Fault = true // a fault body without an error code
			loose++
			s.peer.send(m)
			continue
		}
		s.peer.send(m)
		want = append(want, m.seen())
	}
	settle()
	x.Check()
	var got []seen
	for _, g := range s.delivered() {
		if g.Actor == actorSendTarget && g.Action == "ConnectionAuth" {
			loose--
			continue // what is done with a success is free
		}
		got = append(got, g)
	}
	if loose < 0 {
		x.Failf("authentication messages are delivered more than once")
	}
	if d := matchSet("before the refusal", got, want); d != "" {
		x.Failf("%s", d)
	}
	if !s.alive() {
		x.Failf("the connection ended without an authentication failure")
	}
	for i, r := range reqs {
		if r.finished() {
			x.Failf("request %d ended without an authentication failure: %v", i, r.err)
		}
	}
	if err := s.conn.SendOneWay((&msgSpec{ID: msgID{X: 1}, Actor: 5}).lib()); err != nil {
		x.Failf("sending on a good connection: %v", err)
	}
	b := body(c.Text)
	if c.BadBody != nil {
		b = append([]byte{}, c.BadBody...)
	}
	refusal := &msgSpec{ID: msgID{X: 101}, Actor: actorSendTarget, Action: "ConnectionAuth", Err: c.Err, Fault: !c.NoFault, Body: b}
	if c.Rel && c.Reqs > 0 {
		refusal.Rel = msgID{G: Val{U: 8}, X: uint32(c.Reqs)}
	}
	s.peer.send(refusal)
	settle()
	x.Check()
	if s.peer.ended() == nil {
		x.Failf("authentication failed and the connection is open")
	}
	if s.ep != nil && !s.ep.ended() {
		x.Failf("authentication failed and Wait has not returned")
	}
	for i, r := range reqs {
		if !r.finished() || r.err == nil {
			x.Failf("authentication failed and request %d: finished=%v err=%v", i, r.finished(), r.err)
		}
	}
	shows := func(what string, err error) {
		if err == nil {
			x.Failf("%s on a refused connection succeeds", what)
		}
		t := err.Error()
		codes := []string{fmt.Sprint(c.Err), fmt.Sprint(uint64(c.Err)), fmt.Sprint(uint32(c.Err)), fmt.Sprint(int32(c.Err)), fmt.Sprintf("%x", uint64(c.Err)), fmt.Sprintf("%X", uint64(c.Err)), fmt.Sprintf("%x", c.Err)}
		ok := false
		for _, k := range codes {
			ok = ok || strings.Contains(t, k)
		}
		if !ok {
			x.Failf("%s: the error %q does not show code %d", what, t, c.Err)
		}
		if c.BadBody == nil && !strings.Contains(t, c.Text) {
			x.Failf("%s: the error %q does not show %q", what, t, c.Text)
		}
	}
	for i, err := range again {
		shows(fmt.Sprintf("sending as soon as request %d has failed", i), err)
	}
	for i := 0; i < 1+c.After; i++ {
		var err error
		m := (&msgSpec{ID: msgID{X: uint32(200 + i)}, Actor: 5}).lib()
		what := []string{"SendOneWay", "RequestReply", "RequestReply with a context", "Ping"}[i%4]
		x.Within(what, func() {
			switch i % 4 {
			case 0:
				err = s.conn.SendOneWay(m)
			case 1:
				_, err = s.conn.RequestReply(context.Background(), m)
			case 2:
				ctx, cancel := x.ctx(context.Background())
				_, err = s.conn.RequestReply(ctx, m)
				cancel()
			case 3:
				_, err = s.conn.Ping(context.Background())
			}
		})
		shows(what, err)
	}
	if len(s.delivered()) > len(want)+len(c.Near)+1 {
		x.Failf("messages appear from nowhere")
	}
	if c.Reqs > 0 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- T15

type t15Step struct {
	Kind string // ok, body, header, marshal, toolong, manyheaders, action, big
	K    string // unsupported kind
	N    int
	Via  int // 0 SendOneWay, 1 RequestReply, 2 with cancellable context
	M    *msgSpec
}

type t15Case struct {
	S     sinkCfg
	Steps []t15Step
}

// failMarshal writes something and fails.
type failMarshal struct{ N int }

func (f *failMarshal) Marshal(s serialization.Encoder) error {
	for i := 0; i < f.N; i++ {
		if err := s.WriteBinary(uint32(i)); err != nil {
			return err
		}
	}
	return errors.New("cannot be marshalled")
}
func (f *failMarshal) Unmarshal(serialization.FabricSerializationType, serialization.Decoder) error {
	return errors.New("never")
}

func wrapUnsupported(k string) any {
	v := unsupportedValue(k, false)
	p := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint32(0))}, {Name: "F", Type: v.Type()}}))
	p.Elem().Field(0).SetUint(77)
	p.Elem().Field(1).Set(v)
	return p.Interface()
}

// t15Fill gives the message headers so that the section has exactly n bytes.
func t15Fill(m *msgSpec, n, parts int) {
	m.Custom = nil
	left := n - len(headerBytes(m.headers()))
	for i := 0; i < parts; i++ {
		l := left/parts - 4
		if i == parts-1 {
			l = left - (parts-1)*(left/parts) - 4
		}
		raw := make([]byte, l)
		for j := range raw {
			raw[j] = byte(j + i)
		}
		m.Custom = append(m.Custom, customSpec{ID: uint16(0x9000 + i%3*0), Raw: raw})
	}
}

func runT15(x *X, c t15Case) {
	s := newLive(x, c.S)
	settle()
	base := len(s.peer.all())
	var want []*msgSpec
	refused := 0
	for i := range c.Steps {
		st := &c.Steps[i]
		st.M.ID = msgID{G: Val{U: 66}, X: uint32(i + 1)}
		bad := true
		var lm *transport.Message
		if st.Via != 0 {
			st.M.Expect = true
		}
		switch st.Kind {
		case "ok":
			bad = false
		case "big":
			st.M.BodyN, st.M.BD, st.M.Body = st.N, nil, nil
			bad = false
		case "body":
			lm = st.M.lib()
			lm.Body = wrapUnsupported(st.K)
		case "marshal":
			lm = st.M.lib()
			if st.N%2 == 0 {
				lm.Body = &failMarshal{st.N % 5}
			} else {
				lm.Headers.AppendCustomHeader(0x9000, &failMarshal{st.N % 5})
			}
		case "header":
			lm = st.M.lib()
			lm.Headers.AppendCustomHeader(0x9000, []byte("before"), wrapUnsupported(st.K), []byte("after"))
		case "toolong", "manyheaders":
			parts := 1
			if st.Kind == "manyheaders" {
				parts = 2 + st.N%40
			}
			n := 65535 + []int{-2, -1, 0, 1, 2, 3, 4, 5, 20, 65535, 70000, 200000}[st.N%12]
			st.M.Action = ""
			if parts == 1 && n < 65535-100 {
				n = 65535
			}
			t15Fill(st.M, n, parts)
			bad = n > 65535
		case "action":
			// text takes two bytes a character on the wire
			st.M.Custom = nil
			st.M.Action = strings.Repeat("a", 32600+st.N%400)
			bad = len(headerBytesLen(st.M)) > 0
		}
		if lm == nil {
			lm = st.M.lib()
		}
		var err error
		var r *pendingReq
		switch st.Via {
		case 0:
			x.Within("SendOneWay", func() { err = s.conn.SendOneWay(lm) })
		default:
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			if st.Via == 2 {
				ctx, cancel = context.WithCancel(ctx)
			}
			r = &pendingReq{done: make(chan struct{})}
			go func() { r.reply, r.err = s.conn.RequestReply(ctx, lm); close(r.done) }()
			settle()
			if bad {
				if !r.finished() {
					x.Failf("step %d %s: a request that cannot be represented hangs", i, st.Kind)
				}
				err = r.err
			} else {
				s.peer.send(&msgSpec{ID: msgID{X: 4}, Rel: st.M.ID, Actor: 5})
				settle()
				if !r.finished() {
					x.Failf("step %d %s: request not written or its reply lost", i, st.Kind)
				}
				err = r.err
			}
			cancel()
		}
		settle()
		x.Check()
		if bad {
			refused++
			if err == nil {
				x.Failf("step %d: a message that cannot be represented (%s %s %d) was sent", i, st.Kind, st.K, st.N)
			}
		} else {
			if err != nil {
				x.Failf("step %d: a message that fits (%s %d) was refused: %v", i, st.Kind, st.N, err)
			}
			want = append(want, st.M)
		}
		got := s.peer.all()[base:]
		if len(got) != len(want) {
			x.Failf("step %d %s: %d frames on the wire, want %d", i, st.Kind, len(got), len(want))
		}
		if !bad {
			if d := wireDiff(got[len(got)-1], st.M); d != "" {
				x.Failf("step %d %s: %s", i, st.Kind, d)
			}
		}
		if !s.alive() {
			x.Failf("step %d %s: the connection ended", i, st.Kind)
		}
	}
	// nothing is left over from the refused requests
	m := &msgSpec{ID: msgID{X: 7777}, Actor: 5, Rel: msgID{G: Val{U: 66}, X: 1}}
	n := len(s.delivered())
	s.peer.send(m)
	settle()
	if d := matchSeq("callback", s.delivered()[n:], []seen{m.seen()}); d != "" {
		x.Failf("%s", d)
	}
	if refused > 0 && len(want) > 0 {
		x.NonTrivial()
	}
}

// headerBytesLen is non-empty when the message's headers exceed the format's lengths.
func headerBytesLen(m *msgSpec) []byte {
	n := 0
	for _, h := range m.headers() {
		if len(h.Data) > 65535 {
			return []byte{1}
		}
		n += 4 + len(h.Data)
	}
	if n > 65535 {
		return []byte{1}
	}
	return nil
}

func init() {
	live := []string{"client", "server"}
	register(&Prop{
		ID: "T10",
		Parts: []Part{bubble("history", 18000, 360000, "a header type ends up with several values", func(t *rapid.T) t10Case {
			c := t10Case{S: genSink(t, live, true), Steps: genT10Steps(t, "steps", 10), After: genT10Steps(t, "after", 5)}
			if coin(t, "forked") {
				for i, n := 0, intn(t, "forks", 1, 3); i < n; i++ {
					c.Forks = append(c.Forks, genT10Steps(t, "fork", 4))
				}
			}
			return c
		}, runT10)},
	})
	register(&Prop{
		ID: "T11",
		Parts: []Part{bubble("history", 12000, 240000, "a client fails or several are active while another is connected", func(t *rapid.T) t11Case {
			c := t11Case{PC: genPlan(t, true), PS: genPlan(t, true), Secure: oneIn(t, "secure", 4), Dress: genDress(t)}
			c.PC.Delay, c.PS.Delay = 0, 0
			if c.Secure {
				c.TLS = genTLS(t)
				c.PC.Cap, c.PS.Cap = 0, 0
			} else if coin(t, "cfg") {
				c.Cfg = crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
			}
			for i, n := 0, intn(t, "steps", 1, 14); i < n; i++ {
				c.Steps = append(c.Steps, t11Step{Op: pick(t, "op", []string{"connect", "connect", "connect", "connect", "req", "req", "storm", "storm", "push", "srvreq", "bad", "bad", "temp", "block", "close", "reset", "half", "idle"}), I: intn(t, "i", 0, 9), N: intn(t, "n", 0, 4)})
			}
			return c
		}, runT11)},
		Assumptions: []string{"whether a client is served while a callback for one of its own messages blocks is not judged"},
	})
	register(&Prop{
		ID: "T12",
		Parts: []Part{bubble("history", 5000, 120000, "at least two messages pass", func(t *rapid.T) t12Case {
			c := t12Case{Secure: oneIn(t, "secure", 4), UpSecure: oneIn(t, "upsecure", 4), PL: genPlan(t, true), PP: genPlan(t, true), Filter: coin(t, "filter"), FilterSeed: rapid.Uint64().Draw(t, "fseed"), Temp: pick(t, "temp", []int{0, 0, 0, 1, 2, 40, 300}), Idle: pick(t, "idle", []int{0, 0, 0, 1, 30, 1000})}
			if c.Secure {
				c.TLS = genTLS(t)
			} else {
				c.Cfg = crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
			}
			if c.UpSecure {
				c.UpTLS = genTLS(t)
			} else {
				c.UpCfg = crcCfg{coin(t, "unch"), coin(t, "ungh"), coin(t, "ucb"), coin(t, "ugb")}
			}
			if c.Secure || c.UpSecure {
				c.PL.Cap, c.PP.Cap, c.PL.Delay, c.PP.Delay = 0, 0, 0, 0
			}
			for i, n := 0, intn(t, "clients", 1, 3); i < n; i++ {
				cl := t12Client{Up: genMsgs(t, "up", 1, 5), Down: genMsgs(t, "down", 0, 5)}
				if oneIn(t, "nofind", 5) {
					cl.Find = pick(t, "find", []string{"error", "dead", "refuse"})
					if !c.UpSecure && cl.Find == "refuse" {
						cl.Find = "dead"
					}
				}
				cl.End = pick(t, "end", []string{"", "", "client-close", "client-reset", "client-garbage", "client-half", "up-close", "up-reset", "up-garbage", "up-half"})
				for j, k := 0, intn(t, "trans", 0, 2); j < k; j++ {
					cl.Trans = append(cl.Trans, intn(t, "tr", 0, 9))
				}
				c.Clients = append(c.Clients, cl)
			}
			return c
		}, runT12)},
		Assumptions: []string{"the proxy's own transport init message, at most one to each side, is not traffic"},
	})
	register(&Prop{
		ID: "T13",
		Parts: []Part{
			bubble("interop", 5000, 100000, "always: a handshake and traffic over it", func(t *rapid.T) t13Case {
				c := t13Case{Pair: pick(t, "pair", []string{"lib-lib", "lib-ref", "ref-lib"}), TLS: genTLS(t), PC: genPlan(t, false), PS: genPlan(t, false)}
				c.PC.Delay, c.PS.Delay = 0, 0
				c.Again = pick(t, "again", []int{0, 0, 1, 2})
				c.Up, c.Down = genMsgs(t, "up", 0, 4), genMsgs(t, "down", 0, 4)
				for _, m := range append(append([]*msgSpec{}, c.Up...), c.Down...) {
					if m.Action == "hello" || m.Action == "echo" {
						m.Action = "x"
					}
				}
				if oneIn(t, "cfg", 3) {
					c.Cfg = crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
				}
				return c
			}, runT13),
			bubble("failure", 5000, 100000, "always: a handshake that has to fail", func(t *rapid.T) t13Fail {
				c := t13Fail{Kind: pick(t, "kind", []string{"refuse-server", "refuse-client", "no-cert", "version", "cut-client", "cut-server", "wfail-client", "wfail-server"}), Max: pick(t, "max", tlsVersions), Auth: pick(t, "auth", []int{0, 2, 4}), Close: coin(t, "close"), PC: genPlan(t, false), PS: genPlan(t, false)}
				c.N = intn(t, "n", 0, 300)
				if oneIn(t, "far", 3) {
					c.N = intn(t, "nfar", 200, 3000)
				}
				c.PC.Delay, c.PS.Delay = 0, 0
				return c
			}, runT13Fail),
		},
		Assumptions: []string{"with TLS 1.3 a client may be connected before the server refuses its certificate: then the connection has to end with an error"},
	})
	register(&Prop{
		ID: "T14",
		Parts: []Part{bubble("refusal", 20000, 400000, "requests are outstanding when the refusal comes", func(t *rapid.T) t14Case {
			c := t14Case{S: genSink(t, live, true), Reqs: intn(t, "reqs", 0, 4), Text: genString(t, "text"), After: intn(t, "after", 0, 5)}
			c.Pre = genMsgs(t, "pre", 0, 2)
			for i, n := 0, intn(t, "near", 0, 3); i < n; i++ {
				c.Near = append(c.Near, intn(t, "nearkind", 0, 3))
			}
			c.Err = int64(genBits(t, 64, true))
			if c.Err == 0 {
				c.Err = -2147017408
			}
			c.NoFault = oneIn(t, "nofault", 3)
			c.Rel = oneIn(t, "rel", 3)
			if oneIn(t, "badbody", 5) {
				c.BadBody = genBytes(t, "bad", 0, 20)
			}
			return c
		}, runT14)},
		Assumptions: []string{"the code may be shown in decimal or hexadecimal"},
	})
	register(&Prop{
		ID: "T15",
		Parts: []Part{bubble("history", 4000, 100000, "a message was refused and another one sent", func(t *rapid.T) t15Case {
			c := t15Case{S: genSink(t, live, true)}
			for i, n := 0, intn(t, "steps", 1, 6); i < n; i++ {
				st := t15Step{Kind: pick(t, "kind", []string{"ok", "ok", "body", "header", "marshal", "toolong", "toolong", "manyheaders", "action", "big"}), Via: intn(t, "via", 0, 2), M: genMsg(t, false), N: intn(t, "n", 0, 1000)}
				if st.Kind == "body" || st.Kind == "header" {
					st.K = pick(t, "k", unsupportedKinds)
				}
				if st.Kind == "big" {
					st.N = pick(t, "size", []int{65535, 65536, 70000, 1 << 17, 1 << 18, 1 << 20, 3 << 20})
					if !c.S.Secure && oneIn(t, "vast", 100) {
						st.N = 17 << 20
						c.S.PL, c.S.PP = netPlan{}, netPlan{}
					} else if c.S.PL.Chunk != 0 || c.S.PP.Chunk != 0 {
						st.N = min(st.N, 1<<17)
					}
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runT15)},
		Assumptions: []string{"header sections are at most 65535 bytes, which also bounds single headers"},
	})
}
