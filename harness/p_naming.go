package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// The naming properties: a naming client whose gateway is a raw peer.

const (
	actorGateway    = int64(transport.MessageActorTypeNamingGateway)
	hClientIdentity = uint16(transport.MessageHeaderIdTypeClientIdentity)

	actPing     = "PingRequest"
	actQuery    = "QueryRequest"
	actFailure  = "ClientOperationFailure"
	actAnnounce = "NotificationClientConnectionRequest"
	actRegister = "RegisterServiceNotificationFilterRequest"
	actNotify   = "ServiceNotificationRequest"
	actNotified = "ServiceNotificationReply"
)

func dPtr(d *Desc) *Desc   { return &Desc{K: "ptr", Elem: d} }
func dSlice(d *Desc) *Desc { return &Desc{K: "slice", Elem: d} }

var (
	dGateway     = dStruct(dk("str"), dInstance, dk("str"))
	dGatewayBody = dStruct(dGateway)
	dFailureBody = dStruct(dk("i64"))
	dApp         = dStruct(dUri, dk("str"), dk("str"), dk("i64"), dk("i64"), &Desc{K: "map", Key: dk("str"), Elem: dk("str")})
	dAppReply    = dStruct(dk("i32"), dPtr(dStruct(dSlice(dApp))), dk("i32"))
	dQuery       = dStruct(dStruct(&Desc{K: "map", Key: dStruct(dk("str")), Elem: dk("str")}), dk("str"))

	dGeneration  = dStruct(dk("i64"), dk("nodeid"))
	dVersions    = dPtr(dStruct(dSlice(dStruct(dk("i64"), dk("i64")))))
	dFilter      = dPtr(dStruct(dk("u64"), dUri, dStruct(dk("u32"))))
	dAnnounce    = dStruct(dk("str"), dGeneration, dVersions, dSlice(dFilter))
	dRegister    = dStruct(dk("str"), dFilter)
	dIdentity    = dStruct(dk("str"), dk("str"))
	dReplicaSet  = dStruct(dk("bool"), dk("bool"), dk("str"), dSlice(dk("str")), dk("i64"), dk("bool"), dSlice(dk("str")))
	dTable       = dPtr(dStruct(dStruct(dk("guid")), dk("str"), dReplicaSet, dk("bool")))
	dNotify      = dStruct(dStruct(dStruct(dk("guid"), dk("u32")), dk("u64")), dGeneration, dVersions, dSlice(dPtr(dStruct(dTable, dk("bool")))))
	dNotifyBody  = dStruct(dPtr(dNotify))
	dNotifyReply = dStruct(dk("i64"))
)

func init() {
	addNamed("naming.ServiceNotification", naming.ServiceNotification{})
	addNamed("naming.ApplicationQueryResult", naming.ApplicationQueryResult{})
	addNamed("naming.GatewayDescription", naming.GatewayDescription{})
	addNamed("common.Uri", common.Uri{})
}

// named gives d the Go type of a repository type.
func named(d *Desc, n string) *Desc { c := *d; c.Named = n; return &c }

// gateway is the scripted gateway of a naming client.
type gateway struct {
	s *sink
	n *naming.NamingClient

	mu   sync.Mutex
	reqs []*peerFrame
}

func newGateway(x *X, c sinkCfg) *gateway {
	g := &gateway{s: newSink(x, c)}
	n, err := naming.NewNamingClient(g.s.ep.c)
	if err != nil {
		x.Failf("NewNamingClient: %v", err)
	}
	g.n = n
	(&liveSink{sink: g.s}).idle(c)
	return g
}

// requests are the client's messages of an action, in the order written.
func (g *gateway) requests(x *X, action string) (out []*peerFrame) {
	for _, f := range g.s.peer.user() {
		if f.m.Action == action {
			if f.m.Actor != actorGateway || f.m.Expect != true || f.m.ID.empty() || !f.m.Rel.empty() {
				x.Failf("odd %s: %s", action, f.m.seen().diff(seen{}))
			}
			out = append(out, f)
		}
	}
	return
}

func genNamingSink(t *rapid.T) sinkCfg {
	c := genSink(t, []string{"client"}, true)
	c.PL.Delay, c.PP.Delay = 0, 0
	return c
}

// ---------------------------------------------------------------- N01

type n01Call struct {
	Query  bool
	Name   string
	Kind   string // good, code, failure, action, nolist, result, trunc, raw, empty
	V      *Val
	Code   int64
	Cut    int
	Raw    []byte
	Action string
	Fault  bool
	Late   int // seconds until the answer
}

type n01Case struct {
	S     sinkCfg
	Calls []n01Call
	Conc  bool
	Seed  uint64
}

func (c *n01Call) reply(req *msgSpec) *msgSpec {
	m := &msgSpec{ID: msgID{X: 4}, Rel: req.ID, Actor: actorGateway, Action: actPing}
	d := dGatewayBody
	if c.Query {
		d, m.Action = dAppReply, "QueryReply"
	}
	m.Body = refMarshal(d, c.V, "")
	switch c.Kind {
	case "code":
		m.Err, m.Fault = c.Code, c.Fault
	case "failure":
		m.Action, m.Body = actFailure, refMarshal(dFailureBody, &Val{L: []*Val{{U: uint64(c.Code)}}}, "")
	case "failraw":
		m.Action, m.Body = actFailure, c.Raw
	case "failgood":
		m.Action = actFailure
	case "action":
		m.Action = c.Action
	case "trunc":
		m.Body = m.Body[:c.Cut%len(m.Body)]
	case "raw":
		m.Body = c.Raw
	}
	return m
}

func runN01(x *X, c n01Case) {
	g := newGateway(x, c.S)
	type call struct {
		gw   *naming.GatewayDescription
		apps []naming.ApplicationQueryResult
		err  error
		done chan struct{}
		req  *peerFrame
	}
	var calls []*call
	start := func(nc *n01Call) *call {
		p := &call{done: make(chan struct{})}
		calls = append(calls, p)
		go func() {
			defer close(p.done)
			if nc.Query {
				p.apps, p.err = g.n.GetApplicationList(context.Background(), nc.Name)
			} else {
				p.gw, p.err = g.n.Ping(context.Background())
			}
		}()
		return p
	}
	used := map[*peerFrame]bool{}
	find := func(i int, nc *n01Call) *peerFrame {
		act := actPing
		if nc.Query {
			act = actQuery
		}
		for _, f := range g.requests(x, act) {
			if used[f] {
				continue
			}
			if nc.Query {
				v, err := refUnmarshal(dQuery, f.m.Body, "")
				if err != nil {
					x.Failf("bad query request: %v (% x)", err, clipBytes(f.m.Body, 200))
				}
				m := v.L[0].L[0].L
				if v.L[1].S != "GetApplicationList" || len(m) != 2 || m[0].L[0].S != "ApplicationName" {
					x.Failf("bad query request: % x", clipBytes(f.m.Body, 300))
				}
				if m[1].S != nc.Name {
					if c.Conc {
						continue
					}
					x.Failf("call %d asks for %q instead of %q", i, m[1].S, nc.Name)
				}
			}
			used[f] = true
			return f
		}
		x.Failf("call %d wrote no request (%s, name %q)", i, act, nc.Name)
		return nil
	}
	verify := func(i int, nc *n01Call, p *call) {
		select {
		case <-p.done:
		default:
			x.Failf("call %d (%s) was answered and has not ended", i, nc.Kind)
		}
		good := nc.Kind == "good"
		if nc.Query && good {
			good = nc.V.L[2].U == 0 && !nc.V.L[1].Nil
		}
		if nc.Kind == "raw" && p.err == nil {
			return // anything may be a body
		}
		if !good {
			if p.err == nil {
				x.Failf("call %d (query %v, %s, code %d, action %q): no error, but %+v %+v", i, nc.Query, nc.Kind, nc.Code, nc.Action, p.gw, p.apps)
			}
			return
		}
		if p.err != nil {
			x.Failf("call %d (query %v) failed: %v", i, nc.Query, p.err)
		}
		if !nc.Query {
			d := named(dGateway, "naming.GatewayDescription")
			if p.gw == nil {
				x.Failf("call %d: no description", i)
			}
			if df := d.diff("", d.fromGo("", reflect.ValueOf(p.gw).Elem()), d.expect(nc.V.L[0])); df != "" {
				x.Failf("call %d: the gateway description differs: %s", i, df)
			}
			return
		}
		l := nc.V.L[1].L[0].L[0].L
		if len(p.apps) != len(l) {
			x.Failf("call %d: %d applications of %d", i, len(p.apps), len(l))
		}
		for j := range l {
			d := appDesc()
			if df := d.diff("", d.fromGo("", reflect.ValueOf(p.apps[j])), d.expect(l[j])); df != "" {
				x.Failf("call %d: application %d of %d differs: %s", i, j, len(l), df)
			}
		}
	}
	if !c.Conc {
		for i := range c.Calls {
			nc := &c.Calls[i]
			p := start(nc)
			synctest.Wait()
			x.Check()
			req := find(i, nc)
			if nc.Late > 0 {
				time.Sleep(time.Duration(nc.Late) * time.Second)
				synctest.Wait()
				x.Label("late")
			}
			g.s.peer.send(nc.reply(req.m))
			synctest.Wait()
			x.Check()
			verify(i, nc, p)
			if i > 0 { // what came before stays as it was
				j := int(splitmix(c.Seed, uint64(i)) % uint64(i))
				verify(j, &c.Calls[j], calls[j])
			}
		}
	} else {
		// names tell queries apart, and pings are alike: they get the same answer
		var pingCall *n01Call
		for i := range c.Calls {
			if c.Calls[i].Query {
				c.Calls[i].Name = fmt.Sprint(i, c.Calls[i].Name)
			} else if pingCall == nil {
				pingCall = &c.Calls[i]
			} else {
				c.Calls[i] = *pingCall
			}
			start(&c.Calls[i])
		}
		synctest.Wait()
		x.Check()
		var order []int
		reqs := map[int]*peerFrame{}
		for i := range c.Calls {
			reqs[i] = find(i, &c.Calls[i])
			order = append(order, i)
		}
		shuffle(c.Seed, order)
		for _, i := range order {
			if c.Calls[i].Late > 0 {
				time.Sleep(time.Duration(c.Calls[i].Late) * time.Second)
			}
			g.s.peer.send(c.Calls[i].reply(reqs[i].m))
		}
		synctest.Wait()
		x.Check()
		for i := range c.Calls {
			verify(i, &c.Calls[i], calls[i])
		}
	}
	if n := len(g.s.peer.user()); n != len(c.Calls) {
		x.Failf("%d messages written for %d calls", n, len(c.Calls))
	}
	if !g.s.alive() {
		x.Failf("the connection ended")
	}
	for _, nc := range c.Calls {
		if nc.Kind != "good" || nc.Query {
			x.NonTrivial()
		}
	}
}

func (s *sink) alive() bool { return !s.ep.ended() && s.peer.ended() == nil }

func appDesc() *Desc {
	d := named(dApp, "naming.ApplicationQueryResult")
	d.Fields = append([]*Desc{named(dUri, "common.Uri")}, d.Fields[1:]...)
	return d
}

func genUri(t *rapid.T) *Val {
	u := &Val{L: []*Val{{U: uint64(intn(t, "utype", 0, 3))}, {S: pick(t, "scheme", []string{"fabric", "", "http"})}, {S: genString(t, "auth")}, {U: uint64(intn(t, "htype", 0, 3))}, {S: genString(t, "uhost")}, {U: uint64(int64(int32(genBits(t, 32, true))))}, {S: genString(t, "upath")}, {}, {}, {}}}
	for i, n := 0, intn(t, "segs", 0, 3); i < n; i++ {
		u.L[9].L = append(u.L[9].L, &Val{S: genString(t, "seg")})
	}
	return u
}

func genN01Call(t *rapid.T) n01Call {
	c := n01Call{Query: coin(t, "query"), Kind: pick(t, "kind", []string{"good", "good", "good", "code", "failure", "failraw", "failgood", "action", "trunc", "raw"}), Fault: coin(t, "fault")}
	c.Name = genString(t, "name")
	if oneIn(t, "late", 6) {
		c.Late = pick(t, "seconds", []int{1, 40, 70, 200, 700, 4000, 100000})
	}
	c.Cut = intn(t, "cut", 0, 2000)
	c.Code = genInt64(t)
	if c.Kind == "code" && c.Code == 0 {
		c.Code = -1
	}
	if c.Kind == "raw" || c.Kind == "failraw" {
		c.Raw = genBytes(t, "raw", 0, 40)
	}
	c.Action = pick(t, "action", []string{"", "PingReply", "pingrequest", "PingRequest ", "QueryRequest", actAnnounce})
	if c.Query {
		if c.Kind == "action" {
			c.Kind = "good"
		}
		l := &Val{}
		for i, n := 0, pick(t, "apps", []int{0, 1, 2, 3, 20}); i < n; i++ {
			a := &Val{L: []*Val{genUri(t), {S: genString(t, "type")}, {S: genString(t, "version")}, {U: uint64(genInt64(t))}, {U: uint64(intn(t, "health", 0, 5))}, {}}}
			seen := map[string]bool{}
			for j, k := 0, intn(t, "params", 0, 3); j < k; j++ {
				key := genString(t, "param")
				if !seen[key] {
					seen[key] = true
					a.L[5].L = append(a.L[5].L, &Val{S: key}, &Val{S: genString(t, "value")})
				}
			}
			if j := len(l.L) - 1; j >= 0 {
				switch intn(t, "again", 0, 9) {
				case 0: // the same application again
					*a = *l.L[j]
				case 1:
					a.L[0] = l.L[intn(t, "of", 0, j)].L[0]
				}
			}
			l.L = append(l.L, a)
		}
		list := &Val{L: []*Val{{L: []*Val{l}}}}
		code := &Val{}
		switch {
		case oneIn(t, "nolist", 6):
			list = &Val{Nil: true}
		case oneIn(t, "result", 6):
			code.U = uint64(int64(int32(genBits(t, 32, true))))
		}
		c.V = &Val{L: []*Val{{U: uint64(intn(t, "rkind", 0, 3))}, list, code}}
	} else {
		hi, lo := gen128(t)
		c.V = &Val{L: []*Val{{L: []*Val{{S: genString(t, "gaddr")}, {L: []*Val{{U: hi, H: lo}, {U: rapid.Uint64().Draw(t, "ginst")}}}, {S: genString(t, "gname")}}}}}
	}
	return c
}

// ---------------------------------------------------------------- N02

type n02Case struct {
	S     sinkCfg
	Call  string // ping, query, register
	Cause string // cancel, deadline, eof, reset, close, pre-cancel, pre-eof, pre-close
	Step  int    // answered requests before the cause
	Stall bool   // the request cannot be written
	More  int    // other calls under way
	Kinds int    `json:",omitempty"` // what they are
	First bool   `json:",omitempty"` // they are certainly under way before
}

func runN02(x *X, c n02Case) {
	g := newGateway(x, c.S)
	ctx, cancel := x.ctx(context.Background())
	x.Cleanup(cancel)
	if c.Cause == "deadline" {
		ctx, cancel = context.WithTimeout(ctx, time.Minute)
		x.Cleanup(cancel)
	}
	end := func() {
		switch c.Cause {
		case "cancel", "pre-cancel":
			cancel()
		case "deadline":
			time.Sleep(time.Minute)
		case "eof", "pre-eof":
			g.s.peer.sim.Close()
		case "reset":
			g.s.peer.sim.reset()
		case "close", "pre-close":
			g.s.ep.c.Close()
		}
	}
	pre := len(c.Cause) > 4 && c.Cause[:4] == "pre-"
	if pre {
		end()
		synctest.Wait()
	}
	type call struct {
		err  error
		done chan struct{}
		res  bool
	}
	call1 := func(kind string, ctx context.Context) *call {
		p := &call{done: make(chan struct{})}
		go func() {
			defer close(p.done)
			switch kind {
			case "ping":
				var r *naming.GatewayDescription
				r, p.err = g.n.Ping(ctx)
				p.res = r != nil
			case "query":
				_, p.err = g.n.GetApplicationList(ctx, "x")
			case "register":
				_, p.err = g.n.RegisterFilter(ctx, common.Uri{}, false, false)
			}
		}()
		return p
	}
	ended := func(p *call) bool {
		select {
		case <-p.done:
			return true
		default:
			return false
		}
	}
	stalled := c.Stall && !c.S.Secure
	if stalled && c.Step == 0 {
		g.s.libConn.w.update(func() { g.s.libConn.w.stall = true })
	}
	var others []*call
	octx, ocancel := x.ctx(context.Background())
	x.Cleanup(ocancel)
	for i := 0; i < c.More; i++ {
		others = append(others, call1([]string{"ping", "query", "register"}[(i+c.Kinds)%3], octx))
	}
	if c.First {
		synctest.Wait()
	}
	p := call1(c.Call, ctx)
	synctest.Wait()
	x.Check()
	if pre {
		if !ended(p) || p.err == nil {
			x.Failf("%s after %s: ended %v with %v", c.Call, c.Cause, ended(p), p.err)
		}
		x.NonTrivial()
		return
	}
	if c.Call == "register" && c.Step == 1 {
		if stalled {
			g.s.libConn.w.update(func() { g.s.libConn.w.stall = true })
		}
		rs := g.requests(x, actAnnounce)
		if len(rs) == 0 {
			x.Failf("no announcement")
		}
		for _, f := range rs {
			g.s.peer.send(&msgSpec{ID: msgID{X: 4}, Rel: f.m.ID, Actor: actorGateway, Action: "NotificationClientConnectionReply"})
		}
		synctest.Wait()
	}
	if ended(p) {
		x.Failf("%s ended before anything happened: %v", c.Call, p.err)
	}
	end()
	synctest.Wait()
	x.Check()
	if !ended(p) {
		x.Failf("%s goes on after %s (step %d, stalled %v)", c.Call, c.Cause, c.Step, stalled)
	}
	if p.err == nil {
		x.Failf("%s succeeded after %s (step %d)", c.Call, c.Cause, c.Step)
	}
	if (c.Cause == "cancel" || c.Cause == "deadline") && !errors.Is(p.err, ctx.Err()) {
		x.Failf("%s failed with %v, its context with %v", c.Call, p.err, ctx.Err())
	}
	for i, o := range others {
		if c.Cause == "cancel" || c.Cause == "deadline" {
			if ended(o) {
				x.Failf("call %d ended with the context of another one: %v", i, o.err)
			}
			continue
		}
		if !ended(o) || o.err == nil {
			x.Failf("call %d after %s: ended %v with %v", i, c.Cause, ended(o), o.err)
		}
	}
	x.Label(c.Call + " " + c.Cause)
	x.NonTrivial()
}

// ---------------------------------------------------------------- N03

type n03Step struct {
	Notify bool
	M      *msgSpec
	V      *Val
	Action string
	Wait   bool
	Times  int `json:",omitempty"` // it comes more often, with other ids
	Cut    int `json:",omitempty"` // the body is cut here
}

type n03Case struct {
	S       sinkCfg
	Steps   []n03Step
	NoFunc  bool
	Slow    bool
	Pending bool
}

func notifyDesc() *Desc { return named(dNotify, "naming.ServiceNotification") }

func runN03(x *X, c n03Case) {
	g := newGateway(x, c.S)
	var mu sync.Mutex
	var got []*naming.ServiceNotification
	if !c.NoFunc {
		g.n.OnServiceNotification = func(n *naming.ServiceNotification) {
			mu.Lock()
			got = append(got, n)
			mu.Unlock()
			if c.Slow {
				time.Sleep(time.Hour)
			}
		}
	}
	var pend chan error
	if c.Pending {
		pend = make(chan error, 1)
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		go func() { _, err := g.n.Ping(ctx); pend <- err }()
		synctest.Wait()
	}
	var want []string
	acks := map[string]int{}
	n, other := 0, 0
	check := func(at string) {
		synctest.Wait()
		x.Check()
		got1 := map[string]int{}
		for _, f := range g.s.peer.user() {
			if f.m.Action == actPing && c.Pending {
				continue
			}
			if f.m.Action != actNotified || f.m.Actor != actorGateway || f.m.Err != 0 {
				x.Failf("%s: the client wrote %s", at, f.m.seen().diff(seen{}))
			}
			v, err := refUnmarshal(dNotifyReply, f.m.Body, "")
			if err != nil || v.L[0].U != 0 {
				x.Failf("%s: the acknowledgement holds % x (%v)", at, f.m.Body, err)
			}
			got1[f.m.Rel.key()]++
		}
		for k, w := range acks {
			if got1[k] != w {
				x.Failf("%s: notification %s came %d times and was acknowledged %d times", at, k, w, got1[k])
			}
			delete(got1, k)
		}
		for k := range got1 {
			x.Failf("%s: %s was acknowledged and is no notification", at, k)
		}
		mu.Lock()
		defer mu.Unlock()
		if c.NoFunc {
			return
		}
		if len(got) != len(want) {
			x.Failf("%s: the callback ran %d times for %d notifications", at, len(got), len(want))
		}
		d := notifyDesc()
		left := append([]string(nil), want...)
		for _, g := range got {
			if g == nil {
				x.Failf("%s: the callback got nothing", at)
			}
			k := d.key(d.fromGo("", reflect.ValueOf(g).Elem()))
			found := -1
			for i, w := range left {
				if w == k {
					found = i
					break
				}
			}
			if found < 0 {
				x.Failf("%s: the callback got a notification nobody sent, or got it twice: %+v", at, *g)
			}
			left = append(left[:found], left[found+1:]...)
		}
	}
	for k, st := range c.Steps {
		m := *st.M
		m.BD, m.BV, m.BodyN = nil, nil, 0
		if st.Notify {
			m.Action, m.Err, m.Fault = actNotify, 0, false
			m.Body = refMarshal(dNotifyBody, &Val{L: []*Val{{L: []*Val{st.V}}}}, "")
			if st.Cut > 0 { // cannot be decoded, so it is not acknowledged
				m.Body = m.Body[:st.Cut%len(m.Body)]
				other++
				g.s.peer.send(&m)
				if st.Wait {
					check(fmt.Sprintf("step %d", k))
				}
				continue
			}
			for i := 0; i < st.Times; i++ {
				f := m
				f.ID.X += uint32(i + 1)
				want = append(want, notifyDesc().key(notifyDesc().expect(st.V)))
				acks[f.ID.key()]++
				g.s.peer.send(&f)
			}
			want = append(want, notifyDesc().key(notifyDesc().expect(st.V)))
			acks[m.ID.key()]++
			n++
		} else {
			m.Action = st.Action
			m.Body = refMarshal(dNotifyBody, &Val{L: []*Val{{L: []*Val{st.V}}}}, "")
			other++
		}
		g.s.peer.send(&m)
		if st.Wait {
			check(fmt.Sprintf("step %d", k))
		}
	}
	check("end")
	if pend != nil {
		select {
		case err := <-pend:
			x.Failf("a ping ended by notifications: %v", err)
		default:
		}
	}
	if !g.s.alive() {
		x.Failf("the connection ended")
	}
	if c.Slow {
		settle()
	}
	if n > 1 || n > 0 && other > 0 {
		x.NonTrivial()
	}
}

// key is a text that is equal for equal values.
func (d *Desc) key(v *Val) string { return string(refMarshal(plainDesc(d), v, "")) }

func plainDesc(d *Desc) *Desc {
	c := *d
	c.Named = ""
	return &c
}

func genNotification(t *rapid.T) *Val {
	size := 14
	return genVal(t, dNotify, genOpts{}, &size, false)
}

// ---------------------------------------------------------------- N04

type n04Call struct {
	Name   *Val
	Prefix bool
	Prim   bool
	At     int    // starts after this many milliseconds
	Fail   string // "", announce-code, announce-failure, announce-failraw, register-code, register-failure, register-failraw, cancel-announce, cancel-register
	Code   int64
	Client int
	D1, D2 int // delays of the replies
}

// raw is the body of a failure reply that is cut off.
func (c n04Call) raw() []byte {
	b := refMarshal(dFailureBody, &Val{L: []*Val{{U: uint64(c.Code)}}}, "")
	return b[:uint64(c.Code)%uint64(len(b))]
}

type n04Case struct {
	S     sinkCfg
	S2    sinkCfg
	Two   bool
	Calls []n04Call
}

func runN04(x *X, c n04Case) {
	gs := []*gateway{newGateway(x, c.S)}
	if c.Two {
		gs = append(gs, newGateway(x, c.S2))
	}
	// calls are told apart by the path in their filter's name
	uriDesc := named(dUri, "common.Uri")
	byPath := map[string]int{}
	type call struct {
		uri    common.Uri
		id     uint64
		err    error
		done   chan struct{}
		cancel context.CancelFunc
		wire   uint64
		nreg   int
	}
	var mu sync.Mutex
	calls := make([]*call, len(c.Calls))
	clientIDs := map[int]string{}
	wireIDs := map[int]map[uint64]bool{0: {}, 1: {}}
	type count struct{ announced, answered, registered int }
	counts := map[int]*count{0: {}, 1: {}}
	failAnnounce := map[int][]int{} // calls whose announcement is to fail, by client; announcements are alike, so these calls run alone
	for k := range gs {
		g := gs[k]
		g.s.peer.mu.Lock()
		g.s.peer.on = func(f *peerFrame) {
			if f.m.Actor == actorTransport {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if f.m.Actor != actorGateway || !f.m.Expect {
				x.Report("odd request %s", f.m.seen().diff(seen{}))
			}
			client := func(id string) {
				if id == "" {
					x.Report("the client identifies itself with nothing")
				}
				if o, ok := clientIDs[k]; ok && o != id {
					x.Report("the client is %q and %q", o, id)
				}
				clientIDs[k] = id
			}
			r := &msgSpec{ID: msgID{X: 4}, Rel: f.m.ID, Actor: actorGateway, Action: "Reply"}
			delay := 0
			switch f.m.Action {
			case actAnnounce:
				v, err := refUnmarshal(dAnnounce, f.m.Body, "")
				if err != nil {
					x.Report("bad announcement: %v (% x)", err, clipBytes(f.m.Body, 200))
					return
				}
				client(v.L[0].S)
				counts[k].announced++
				if l := failAnnounce[k]; len(l) > 0 {
					cl := c.Calls[l[0]]
					delay = cl.D1
					switch cl.Fail {
					case "announce-code":
						r.Err = cl.Code
					case "announce-failure":
						r.Action, r.Body = actFailure, refMarshal(dFailureBody, &Val{L: []*Val{{U: uint64(cl.Code)}}}, "")
					case "announce-failraw":
						r.Action, r.Body = actFailure, cl.raw()
					case "cancel-announce":
						calls[l[0]].cancel()
						return
					}
				} else {
					delay = c.Calls[counts[k].announced%len(c.Calls)].D1
					counts[k].answered++
				}
			case actRegister:
				v, err := refUnmarshal(dRegister, f.m.Body, "")
				if err != nil || v.L[1].Nil {
					x.Report("bad registration: %v (% x)", err, clipBytes(f.m.Body, 200))
					return
				}
				client(v.L[0].S)
				ids := 0
				for _, h := range f.m.Custom {
					if h.ID != hClientIdentity {
						continue
					}
					ids++
					i, err := refUnmarshal(dIdentity, h.Raw, "")
					if err != nil || i.L[0].S != "" || i.L[1].S != v.L[0].S {
						x.Report("client identity % x (%v) of client %q", h.Raw, err, v.L[0].S)
					}
				}
				if ids != 1 {
					x.Report("%d client identity headers in a registration", ids)
				}
				fl := v.L[1].L[0]
				i, ok := byPath[fl.L[1].L[6].S]
				if !ok || c.Calls[i].Client%len(gs) != k {
					x.Report("a filter was registered that nobody asked for: %q", fl.L[1].L[6].S)
					return
				}
				cl := c.Calls[i]
				if df := uriDesc.diff("", fl.L[1], cl.Name); df != "" {
					x.Report("the name of filter %d differs: %s", i, df)
				}
				flags := uint64(0)
				if cl.Prefix {
					flags |= 1
				}
				if cl.Prim {
					flags |= 2
				}
				if fl.L[2].L[0].U != flags {
					x.Report("filter %d has flags %d, want %d", i, fl.L[2].L[0].U, flags)
				}
				id := fl.L[0].U
				if wireIDs[k][id] {
					x.Report("filter id %d is used twice", id)
				}
				wireIDs[k][id] = true
				calls[i].wire = id
				calls[i].nreg++
				counts[k].registered++
				if counts[k].registered > counts[k].answered {
					x.Report("%d filters were registered after %d announcements", counts[k].registered, counts[k].answered)
				}
				delay = cl.D2
				switch cl.Fail {
				case "register-code":
					r.Err = cl.Code
				case "register-failure":
					r.Action, r.Body = actFailure, refMarshal(dFailureBody, &Val{L: []*Val{{U: uint64(cl.Code)}}}, "")
				case "register-failraw":
					r.Action, r.Body = actFailure, cl.raw()
				case "cancel-register":
					calls[i].cancel()
					return
				}
			default:
				x.Report("unexpected request %q", f.m.Action)
				return
			}
			go func() {
				time.Sleep(time.Duration(delay) * time.Millisecond)
				g.s.peer.c.Write(g.s.peer.frame(r))
			}()
		}
		g.s.peer.mu.Unlock()
	}
	run := func(i int) {
		cl, p := c.Calls[i], calls[i]
		ctx, cancel := x.ctx(context.Background())
		p.cancel = cancel
		x.Cleanup(cancel)
		go func() {
			defer close(p.done)
			p.id, p.err = gs[cl.Client%len(gs)].n.RegisterFilter(ctx, p.uri, cl.Prefix, cl.Prim)
		}()
	}
	for i := range c.Calls {
		c.Calls[i].Name.L[6].S = fmt.Sprint(i, "/", c.Calls[i].Name.L[6].S)
		p := &call{done: make(chan struct{})}
		uriDesc.toGo(c.Calls[i].Name, "", reflect.ValueOf(&p.uri).Elem())
		byPath[c.Calls[i].Name.L[6].S] = i
		calls[i] = p
	}
	announceFails := func(f string) bool {
		return f == "announce-code" || f == "announce-failure" || f == "announce-failraw" || f == "cancel-announce"
	}
	conc := 0
	for i := 0; i < len(c.Calls); {
		if announceFails(c.Calls[i].Fail) {
			k := c.Calls[i].Client % len(gs)
			mu.Lock()
			failAnnounce[k] = []int{i}
			mu.Unlock()
			run(i)
			settle()
			x.Check()
			mu.Lock()
			failAnnounce[k] = nil
			mu.Unlock()
			i++
			continue
		}
		n := 0
		for ; i < len(c.Calls) && !announceFails(c.Calls[i].Fail); i++ {
			if c.Calls[i].At > 0 {
				time.Sleep(time.Duration(c.Calls[i].At) * time.Millisecond)
			}
			run(i)
			n++
		}
		conc = max(conc, n)
		settle()
		x.Check()
	}
	mu.Lock()
	defer mu.Unlock()
	failed := 0
	for i, p := range calls {
		select {
		case <-p.done:
		default:
			x.Failf("registration %d never ends", i)
		}
		f := c.Calls[i].Fail
		if f != "" {
			failed++
			if p.err == nil {
				x.Failf("registration %d succeeded although %s", i, f)
			}
			if announceFails(f) && p.nreg > 0 {
				x.Failf("registration %d was written although %s", i, f)
			}
			continue
		}
		if p.err != nil {
			x.Failf("registration %d: %v", i, p.err)
		}
		if p.nreg != 1 || p.id != p.wire {
			x.Failf("registration %d returned id %d, %d registrations were written, the last with id %d", i, p.id, p.nreg, p.wire)
		}
	}
	if len(clientIDs) == 2 && clientIDs[0] == clientIDs[1] {
		x.Failf("two clients identify themselves as %q", clientIDs[0])
	}
	if conc > 1 || failed > 0 {
		x.NonTrivial()
	}
}

type n04Many struct{ N int }

// runN04Many looks at the identities of many clients.
func runN04Many(x *X, c n04Many) {
	seen := map[string]int{}
	for i := 0; i < c.N; i++ {
		g := newGateway(x, sinkCfg{Role: "client"})
		ctx, cancel := x.ctx(context.Background())
		x.Cleanup(cancel)
		done := make(chan error, 1)
		go func() {
			_, err := g.n.RegisterFilter(ctx, common.Uri{}, false, false)
			done <- err
		}()
		synctest.Wait()
		x.Check()
		rs := g.requests(x, actAnnounce)
		if len(rs) != 1 {
			x.Failf("client %d announced itself %d times", i, len(rs))
		}
		v, err := refUnmarshal(dAnnounce, rs[0].m.Body, "")
		if err != nil {
			x.Failf("bad announcement: %v", err)
		}
		if o, ok := seen[v.L[0].S]; ok || v.L[0].S == "" {
			x.Failf("clients %d and %d of %d identify themselves as %q", o, i, c.N, v.L[0].S)
		}
		seen[v.L[0].S] = i
		cancel()
		x.Within("a cancelled registration", func() { <-done })
		g.s.peer.sim.Close()
	}
	x.NonTrivial()
}

type n04Long struct {
	N    int
	Conc int // registrations at a time
}

// runN04Long registers many filters with one client.
func runN04Long(x *X, c n04Long) {
	g := newGateway(x, sinkCfg{Role: "client"})
	var mu sync.Mutex
	wire := map[uint64]string{}
	g.s.peer.mu.Lock()
	g.s.peer.on = func(f *peerFrame) {
		if f.m.Actor == actorTransport {
			return
		}
		if f.m.Action == actRegister {
			v, err := refUnmarshal(dRegister, f.m.Body, "")
			if err != nil || v.L[1].Nil {
				x.Report("bad registration: %v (% x)", err, clipBytes(f.m.Body, 200))
				return
			}
			id, name := v.L[1].L[0].L[0].U, v.L[1].L[0].L[1].L[6].S
			mu.Lock()
			if o, ok := wire[id]; ok {
				x.Report("after %d filters: the filters for %q and %q are both registered as %d", len(wire), o, name, id)
			}
			wire[id] = name
			mu.Unlock()
		}
		go g.s.peer.c.Write(g.s.peer.frame(&msgSpec{ID: msgID{X: 4}, Rel: f.m.ID, Actor: actorGateway, Action: "Reply"}))
	}
	g.s.peer.mu.Unlock()
	var wg sync.WaitGroup
	each := (c.N + c.Conc - 1) / c.Conc
	for k := 0; k < c.Conc; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				path := fmt.Sprintf("%d-%d", k, i)
				id, err := g.n.RegisterFilter(context.Background(), common.Uri{Path: path}, false, false)
				mu.Lock()
				was, ok := wire[id]
				mu.Unlock()
				if err != nil || !ok || was != path {
					x.Report("registration %s gives id %d and error %v; id %d was registered for %q", path, id, err, id, was)
					return
				}
			}
		}()
	}
	x.Within("registering the filters", func() { wg.Wait() })
	x.Check()
	if c.N > 256 {
		x.NonTrivial()
	}
}

var _ = serialization.GUID{}

func init() {
	register(&Prop{
		ID: "N01",
		Parts: []Part{bubble("replies", 12000, 240000, "a query, or a reply that is not good", func(t *rapid.T) n01Case {
			c := n01Case{S: genNamingSink(t), Conc: oneIn(t, "conc", 4), Seed: rapid.Uint64().Draw(t, "seed")}
			for i, n := 0, intn(t, "calls", 1, 5); i < n; i++ {
				c.Calls = append(c.Calls, genN01Call(t))
			}
			return c
		}, runN01)},
		Assumptions: []string{"the action of the reply to an application query is not judged", "bodies of random bytes only have to be survived"},
	})
	register(&Prop{
		ID: "N02",
		Parts: []Part{bubble("ends", 24000, 480000, "always: a call is ended from outside", func(t *rapid.T) n02Case {
			return n02Case{S: genNamingSink(t), Call: pick(t, "call", []string{"ping", "query", "register", "register"}), Cause: pick(t, "cause", []string{"cancel", "deadline", "eof", "reset", "close", "pre-cancel", "pre-eof", "pre-close"}), Step: intn(t, "step", 0, 1), Stall: oneIn(t, "stall", 3), More: intn(t, "more", 0, 3), Kinds: intn(t, "kinds", 0, 2), First: coin(t, "first")}
		}, runN02)},
	})
	register(&Prop{
		ID: "N03",
		Parts: []Part{bubble("notifications", 4000, 100000, "several notifications, or one among other messages", func(t *rapid.T) n03Case {
			c := n03Case{S: genNamingSink(t), NoFunc: oneIn(t, "nofunc", 8), Slow: oneIn(t, "slow", 4), Pending: oneIn(t, "pending", 3)}
			for i, n := 0, intn(t, "steps", 1, 8); i < n; i++ {
				st := n03Step{Notify: !oneIn(t, "other", 3), M: genMsg(t, oneIn(t, "rel", 3)), V: genNotification(t), Wait: coin(t, "wait")}
				st.Action = pick(t, "action", []string{"", "ServiceNotification", "ServiceNotificationReply", "servicenotificationrequest", "ServiceNotificationRequest2", actPing, "x"})
				if oneIn(t, "often", 12) {
					st.Times = intn(t, "times", 1, 120)
				}
				if oneIn(t, "bad", 6) {
					st.Cut = intn(t, "cut", 1, 3000)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runN03)},
		Assumptions: []string{"notifications that cannot be decoded are cut off ones"},
	})
	register(&Prop{
		ID: "N04",
		Parts: []Part{
			bubble("registrations", 9000, 180000, "registrations ran at the same time, or one failed", func(t *rapid.T) n04Case {
				c := n04Case{S: genNamingSink(t), Two: oneIn(t, "two", 3)}
				if c.Two {
					c.S2 = genNamingSink(t)
				}
				for i, n := 0, intn(t, "calls", 1, 8); i < n; i++ {
					cl := n04Call{Name: genUri(t), Prefix: coin(t, "prefix"), Prim: coin(t, "prim"), At: pick(t, "at", []int{0, 0, 0, 5}), Client: intn(t, "client", 0, 1), D1: pick(t, "d1", []int{0, 0, 3, 50}), D2: pick(t, "d2", []int{0, 0, 3, 50})}
					if oneIn(t, "fail", 4) {
						cl.Fail = pick(t, "how", []string{"announce-code", "announce-failure", "announce-failraw", "register-code", "register-failure", "register-failraw", "cancel-announce", "cancel-register"})
						cl.Code = genInt64(t)
						if cl.Code == 0 {
							cl.Code = 5
						}
					}
					c.Calls = append(c.Calls, cl)
				}
				return c
			}, runN04),
			bubble("clients", 8, 200, "always: many clients", func(t *rapid.T) n04Many {
				return n04Many{N: intn(t, "n", 300, 400)}
			}, runN04Many),
			bubble("long", 8, 160, "more than 256 registrations", func(t *rapid.T) n04Long {
				c := n04Long{N: pick(t, "n", []int{300, 700, 1500, 5000}), Conc: pick(t, "conc", []int{1, 1, 4, 40})}
				if oneIn(t, "huge", 8) {
					c.N = 70000
				}
				return c
			}, runN04Long),
		},
	})
}
