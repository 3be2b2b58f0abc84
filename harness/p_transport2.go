package harness

import (
	"context"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// liveSink is a sink whose library end can send: a client, or a server's side of a connection.
type liveSink struct {
	*sink
	conn transport.Conn
}

const helloX = 0xFFFF0001

func newLive(x *X, c sinkCfg) *liveSink {
	s := &liveSink{sink: newSink(x, c)}
	if s.ep != nil {
		s.conn = s.ep.c
		s.idle(c)
		return s
	}
	// the server's connection is known by its first message
	s.peer.send(&msgSpec{ID: msgID{X: helloX}, Actor: 5})
	settle()
	x.Check()
	ms := s.rec.all()
	if len(ms) != 1 {
		x.Failf("server: %d messages delivered of 1", len(ms))
	}
	s.conn = ms[0].conn
	s.rec.mu.Lock()
	s.rec.msgs = nil
	s.rec.mu.Unlock()
	s.idle(c)
	return s
}

// idle lets time pass without traffic, which is not the end of a connection.
func (s *liveSink) idle(c sinkCfg) {
	if c.Idle == 0 {
		return
	}
	time.Sleep(time.Duration(c.Idle) * time.Hour)
	synctest.Wait()
	s.x.Check()
	if !s.alive() {
		s.x.Failf("the connection ended after %d idle hours", c.Idle)
	}
}

func (s *liveSink) alive() bool {
	if s.ep != nil && s.ep.ended() {
		return false
	}
	return s.peer.ended() == nil
}

// post sends without waiting for the library to take it; messages posted keep their order.
type poster struct {
	p    *rawPeer
	mu   sync.Mutex
	cond *sync.Cond
	q    [][]byte
	stop bool
}

func newPoster(x *X, p *rawPeer) *poster {
	o := &poster{p: p}
	o.cond = sync.NewCond(&o.mu)
	x.Cleanup(func() { o.mu.Lock(); o.stop = true; o.mu.Unlock(); o.cond.Broadcast() })
	go func() {
		for {
			o.mu.Lock()
			for len(o.q) == 0 && !o.stop {
				o.cond.Wait()
			}
			if o.stop {
				o.mu.Unlock()
				return
			}
			b := o.q[0]
			o.q = o.q[1:]
			o.mu.Unlock()
			if _, err := p.c.Write(b); err != nil {
				return
			}
		}
	}()
	return o
}

func (o *poster) post(m *msgSpec) {
	b := o.p.frame(m)
	o.mu.Lock()
	o.q = append(o.q, b)
	o.mu.Unlock()
	o.cond.Broadcast()
}

// ---------------------------------------------------------------- T05

type t05Group struct {
	Kind string // oneway, request, ping
	N    int
	Body int
}

type t05Case struct {
	S      sinkCfg
	Groups []t05Group
	HB     int    // heartbeat requests from the peer
	Dress  uint64 `json:",omitempty"`
}

func runT05(x *X, c t05Case) {
	c.S.PL.Yield = true
	s := newLive(x, c.S)
	out := newPoster(x, s.peer)
	replyBody := func(m *msgSpec) []byte { return append([]byte("re:"), m.body()...) }
	s.peer.on = func(f *peerFrame) {
		m := f.m
		switch {
		case m.Actor == actorTransport && m.Action == "HeartbeatRequest":
			out.post(&msgSpec{ID: msgID{X: 1}, Actor: actorTransport, Action: "HeartbeatResponse", High: true, Body: m.Body})
		case m.Actor != actorTransport && m.Expect:
			out.post((&msgSpec{ID: msgID{G: Val{U: 3}, X: m.ID.X}, Rel: m.ID, Actor: 5, Body: replyBody(m)}).dress(c.Dress, uint64(m.ID.X)))
		}
	}
	mk := func(g, i int) *msgSpec {
		m := &msgSpec{Actor: 5, Action: fmt.Sprintf("g%d", g), BodyN: c.Groups[g].Body, Retry: int32(i + 1)}
		m.ID = msgID{G: Val{U: uint64(g + 1), H: 9}, X: uint32(i + 1)}
		m.Custom = []customSpec{{ID: 0x8020, Raw: []byte(fmt.Sprint(g, "/", i))}}
		return m.dress(c.Dress, uint64(g), uint64(i))
	}
	var wg sync.WaitGroup
	for g, gr := range c.Groups {
		wg.Add(1)
		go func(g int, gr t05Group) {
			defer wg.Done()
			for i := 0; i < gr.N; i++ {
				m := mk(g, i)
				switch gr.Kind {
				case "oneway":
					if err := s.conn.SendOneWay(m.lib()); err != nil {
						x.Report("SendOneWay: %v", err)
						return
					}
				case "request":
					ctx, cancel := x.ctx(context.Background())
					if i%2 == 1 {
						ctx = context.Background()
					}
					r, err := s.conn.RequestReply(ctx, m.lib())
					cancel()
					if err != nil {
						x.Report("RequestReply: %v", err)
						return
					}
					if string(r.Body) != string(replyBody(m)) || idOf(r.Headers.RelatesTo).key() != m.ID.key() {
						x.Report("request %s got reply to %s", m.ID.key(), idOf(r.Headers.RelatesTo).key())
						return
					}
				case "ping":
					if _, err := s.conn.Ping(context.Background()); err != nil {
						x.Report("Ping: %v", err)
						return
					}
				}
			}
		}(g, gr)
	}
	for i := 0; i < c.HB; i++ {
		out.post(&msgSpec{ID: msgID{X: uint32(i)}, Actor: actorTransport, Action: "HeartbeatRequest", High: true, Body: []byte(fmt.Sprint("hb", i))})
	}
	x.Within("concurrent sending", wg.Wait)
	settle()
	x.Check()
	perGroup := map[string][]seen{}
	hb := map[string]int{}
	pings := 0
	for _, f := range s.peer.all() {
		if f.m.Actor == actorTransport {
			switch f.m.Action {
			case "HeartbeatResponse":
				hb[string(f.m.Body)]++
			case "HeartbeatRequest":
				pings++
			}
			continue
		}
		perGroup[f.m.Action] = append(perGroup[f.m.Action], f.m.seen())
	}
	for g, gr := range c.Groups {
		var want []seen
		if gr.Kind == "ping" {
			pings -= gr.N
			continue
		}
		for i := 0; i < gr.N; i++ {
			m := mk(g, i)
			m.Expect = gr.Kind == "request"
			want = append(want, m.seen())
		}
		k := fmt.Sprintf("g%d", g)
		if d := matchSeq("goroutine "+k, perGroup[k], want); d != "" {
			x.Failf("%s", d)
		}
		delete(perGroup, k)
	}
	if len(perGroup) > 0 || pings != 0 {
		x.Failf("messages nobody sent: %v, %d pings", perGroup, pings)
	}
	for i := 0; i < c.HB; i++ {
		if k := fmt.Sprint("hb", i); hb[k] != 1 {
			x.Failf("heartbeat %q answered %d times", k, hb[k])
		}
	}
	if len(s.delivered()) != 0 {
		x.Failf("%d replies reached the callback", len(s.delivered()))
	}
	if !s.alive() {
		x.Failf("the connection ended")
	}
	if len(c.Groups) > 1 {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("%s secure=%v", c.S.Role, c.S.Secure))
}

// ---------------------------------------------------------------- T06

type t06Step struct {
	Op   string // req, prompt (answered before its write returns), dead (its context has ended), stuck (its context ends while its write is stuck), reply, other, cancel
	I    int
	M    *msgSpec
	Own  bool // the caller sets the id
	BG   bool `json:",omitempty"` // a context that never ends
	Odd  int  `json:",omitempty"` // own ids: 1 has no index, 2 no guid
	Fast bool // do not wait for quiescence afterwards
}

type t06Case struct {
	S     sinkCfg
	Steps []t06Step
}

type pendingReq struct {
	m      *msgSpec
	id     msgID
	cancel context.CancelFunc
	done   chan struct{}
	reply  *transport.ByteArrayMessage
	err    error
	// model
	out  bool
	want *seen
}

func (p *pendingReq) finished() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func startRequest(conn transport.Conn, m *msgSpec, ctx context.Context) *pendingReq {
	ctx, cancel := someCtx(ctx, splitmix(uint64(m.ID.X), uint64(len(m.Body)), uint64(len(m.Action))))
	p := startRequestWith(conn, m, ctx)
	p.cancel = cancel
	return p
}

// startRequestWith uses ctx as it is.
func startRequestWith(conn transport.Conn, m *msgSpec, ctx context.Context) *pendingReq {
	p := &pendingReq{m: m, done: make(chan struct{}), out: true}
	lm := m.lib()
	go func() {
		p.reply, p.err = conn.RequestReply(ctx, lm)
		close(p.done)
	}()
	return p
}

// ownID is the n-th identity a caller sets, of the given shape.
func ownID(n, odd int) msgID {
	switch odd {
	case 1:
		return msgID{G: Val{U: 1000, H: uint64(n) + 100}}
	case 2:
		return msgID{X: uint32(n)}
	}
	return msgID{G: Val{U: 1000, H: 7}, X: uint32(n)}
}

func runT06(x *X, c t06Case) {
	s := newLive(x, c.S)
	var reqs []*pendingReq
	var want []seen // callback
	sent := 0
	fast := false
	check := func(at string) {
		synctest.Wait()
		x.Check()
		for i, r := range reqs {
			switch {
			case r.out:
				if r.finished() {
					x.Failf("%s: request %d finished without a reply or cancellation: %v %v", at, i, r.reply, r.err)
				}
			case r.want != nil:
				if !r.finished() {
					x.Failf("%s: request %d got its reply and has not finished", at, i)
				}
				if r.err != nil {
					x.Failf("%s: request %d got its reply and failed: %v", at, i, r.err)
				}
				got, err := seenLib(r.reply, allCustomIDs)
				if err != nil {
					x.Failf("%s: request %d: reply unreadable: %v", at, i, err)
				}
				if d := got.diff(*r.want); d != "" {
					x.Failf("%s: request %d got reply %s", at, i, d)
				}
			default:
				if !r.finished() || r.err == nil {
					x.Failf("%s: request %d was cancelled and has not failed", at, i)
				}
			}
		}
		if d := s.match(want); d != "" {
			x.Failf("%s: callback: %s", at, d)
		}
		if !s.alive() {
			x.Failf("%s: the connection ended", at)
		}
	}
	outstanding, crossed := 0, false
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		op := st.Op
		if op == "stuck" && c.S.Secure {
			op = "dead" // writers of a TLS connection wait for a lock, which a bubble does not see
		}
		if fast && op != "reply" && op != "other" {
			synctest.Wait()
		}
		switch op {
		case "dead", "stuck":
			// fails; a reply that comes all the same is a message like any other
			st.M.ID = ownID(len(reqs)+1, st.Odd)
			ctx, cancel := x.ctx(context.Background())
			if op == "dead" {
				cancel()
			} else {
				s.libConn.w.update(func() { s.libConn.w.stall = true })
			}
			r := startRequestWith(s.conn, st.M, ctx)
			r.cancel, r.id, r.out = cancel, st.M.ID, false
			x.Cleanup(cancel)
			reqs = append(reqs, r)
			synctest.Wait()
			if op == "stuck" && r.finished() {
				x.Failf("%s: the request finished while its write is stuck: %v", at, r.err)
			}
			cancel()
			synctest.Wait()
			if !r.finished() || r.err == nil {
				x.Failf("%s: finished=%v err=%v", at, r.finished(), r.err)
			}
			s.libConn.w.update(func() { s.libConn.w.stall = false })
			synctest.Wait()
			x.Check()
			sent = len(s.peer.user()) // it may have been sent and may not
		case "req", "prompt":
			if st.Own {
				st.M.ID = ownID(len(reqs)+1, st.Odd)
			} else {
				st.M.ID = msgID{}
			}
			var gate chan struct{}
			if op == "prompt" {
				gate = make(chan struct{})
				s.libConn.w.update(func() { s.libConn.w.linger = gate })
			}
			var r *pendingReq
			if st.BG {
				r = startRequestWith(s.conn, st.M, context.Background())
			} else {
				r = startRequest(s.conn, st.M, context.Background())
				x.Cleanup(r.cancel)
			}
			reqs = append(reqs, r)
			synctest.Wait()
			for i := 0; op == "prompt" && i < 100 && len(s.peer.user()) == sent && !r.finished(); i++ {
				// the frame takes several writes
				old := gate
				gate = make(chan struct{})
				s.libConn.w.update(func() { s.libConn.w.linger = gate })
				close(old)
				synctest.Wait()
			}
			frames := s.peer.user()
			if len(frames) != sent+1 {
				x.Check()
				x.Failf("%s: %d frames written", at, len(frames)-sent)
			}
			f := frames[sent]
			sent++
			if !f.m.Expect {
				x.Failf("%s: the request does not say that it expects a reply", at)
			}
			if f.m.ID.empty() || st.Own && f.m.ID.key() != st.M.ID.key() {
				x.Failf("%s: identity %s", at, f.m.ID.key())
			}
			for i, o := range reqs[:len(reqs)-1] {
				if o.out && o.id.key() == f.m.ID.key() {
					x.Failf("%s: identity %s of outstanding request %d again", at, o.id.key(), i)
				}
			}
			r.id = f.m.ID
			exp := *st.M
			exp.ID, exp.Expect = r.id, true
			if d := wireDiff(f, &exp); d != "" {
				x.Failf("%s: %s", at, d)
			}
			outstanding++
			if op == "prompt" {
				a := &msgSpec{ID: msgID{G: Val{U: 5}, X: uint32(k)}, Rel: r.id, Actor: 5, Body: []byte{byte(k), 1, 2}}
				s.peer.send(a)
				sn := a.seen()
				r.out, r.want = false, &sn
				crossed = crossed || outstanding > 1
				outstanding--
				synctest.Wait()
				s.libConn.w.update(func() { s.libConn.w.linger = nil })
				close(gate)
			}
		case "reply":
			if len(reqs) == 0 {
				continue
			}
			i := st.I % len(reqs)
			r := reqs[i]
			st.M.Rel = r.id
			s.peer.send(st.M)
			sn := st.M.seen()
			if r.out {
				r.out, r.want = false, &sn
				crossed = crossed || outstanding > 1
				outstanding--
			} else {
				want = append(want, sn)
			}
		case "other":
			switch {
			case len(reqs) > 0 && st.I%3 == 0:
				// carries a request's identity, relates to nothing
				st.M.ID, st.M.Rel = reqs[st.I%len(reqs)].id, msgID{}
			case len(reqs) > 0 && st.I%3 == 1:
				r := reqs[st.I%len(reqs)].id
				if st.I/3%2 == 0 {
					r.X += 1 << 20
				} else {
					r.G.H ^= 1 << 40 // the same index of another generator
				}
				st.M.Rel = r
			default:
				st.M.Rel = msgID{}
			}
			s.peer.send(st.M)
			want = append(want, st.M.seen())
		case "long":
			// no request has a deadline
			time.Sleep(time.Duration(st.I+1) * 17 * time.Minute)
		case "cancel":
			if len(reqs) == 0 {
				continue
			}
			r := reqs[st.I%len(reqs)]
			if r.cancel == nil {
				continue
			}
			r.cancel()
			if r.out {
				r.out = false
				outstanding--
			}
		}
		fast = st.Fast && (op == "reply" || op == "other")
		if !fast {
			check(at)
		}
	}
	check("end")
	if crossed {
		x.NonTrivial()
	}
	x.Label(c.S.Role)
}

// ---------------------------------------------------------------- T07

type t07Req struct {
	M        *msgSpec
	Answered bool `json:",omitempty"`
	Ctx      int  `json:",omitempty"` // 0 background, 1 cancellable, 2 with a deadline
	Timeout  int  `json:",omitempty"` // ms
	Late     bool `json:",omitempty"` // started while the end is under way (no quiescence in between)
}

type t07Case struct {
	S     sinkCfg
	Reqs  []t07Req
	Stall bool   // writes block from here on
	Cause string // ctx, close, eof, half, reset, garbage, dead
	After []*msgSpec
}

func runT07(x *X, c t07Case) {
	stall := c.Stall && !c.S.Secure
	s := newLive(x, c.S)
	s.peer.on = nil
	var lib *simConn
	lib = s.libConn
	var reqs []*pendingReq
	start := time.Now()
	deadlines := map[int]time.Time{}
	launch := func(i int) {
		q := c.Reqs[i]
		q.M.ID = msgID{G: Val{U: 50}, X: uint32(i + 1)}
		ctx := context.Background()
		if q.Ctx == 2 {
			d := time.Duration(q.Timeout) * time.Millisecond
			cx, cancel := context.WithTimeout(ctx, d)
			x.Cleanup(cancel)
			deadlines[i] = time.Now().Add(d)
			ctx = cx
		}
		var r *pendingReq
		if q.Ctx == 0 && c.Cause != "ctx" {
			// a context that can never end
			r = &pendingReq{m: q.M, done: make(chan struct{}), out: true, cancel: func() {}}
			lm := q.M.lib()
			go func() { r.reply, r.err = s.conn.RequestReply(ctx, lm); close(r.done) }()
		} else {
			r = startRequest(s.conn, q.M, ctx)
		}
		x.Cleanup(r.cancel)
		reqs = append(reqs, r)
	}
	// phase 1: requests, some of them answered
	for i := range c.Reqs {
		q := c.Reqs[i]
		if stall && i == len(c.Reqs)/2 {
			synctest.Wait()
			lib.w.update(func() { lib.w.stall = true })
		}
		if q.Late {
			continue
		}
		launch(i)
		synctest.Wait()
		if q.Answered && !(stall && i >= len(c.Reqs)/2) && c.Cause != "dead" {
			s.peer.send(&msgSpec{ID: msgID{X: 5}, Rel: q.M.ID, Actor: 5, Body: []byte{byte(i)}})
			synctest.Wait()
			x.Check()
			r := reqs[len(reqs)-1]
			if !r.finished() || r.err != nil || len(r.reply.Body) != 1 || r.reply.Body[0] != byte(i) {
				x.Failf("request %d was answered: finished=%v err=%v", i, r.finished(), r.err)
			}
			r.out = false
		}
	}
	synctest.Wait()
	for i, r := range reqs {
		if r.out && r.finished() {
			x.Failf("request %d ended before anything happened: %v %v", i, r.reply, r.err)
		}
	}
	// phase 2: the end
	late := func() {
		for i := range c.Reqs {
			if c.Reqs[i].Late {
				launch(i)
			}
		}
	}
	outstanding := 0
	for _, r := range reqs {
		if r.out {
			outstanding++
		}
	}
	switch c.Cause {
	case "ctx":
		late()
		// the contexts with a deadline end by themselves, exactly then
		for len(deadlines) > 0 {
			next := -1
			for i, d := range deadlines {
				if next < 0 || d.Before(deadlines[next]) {
					next = i
				}
			}
			time.Sleep(time.Until(deadlines[next]))
			synctest.Wait()
			for _, r := range reqs {
				if r.m == c.Reqs[next].M && !r.finished() {
					x.Failf("request %d still runs after its deadline", next)
				}
			}
			delete(deadlines, next)
		}
		for i, r := range reqs {
			r.cancel()
			synctest.Wait()
			if !r.finished() {
				x.Failf("request %d still runs after its context ended", i)
			}
			if r.out && r.err == nil {
				x.Failf("request %d succeeded without a reply", i)
			}
		}
	case "close":
		late()
		go s.conn.Close()
	case "eof":
		s.peer.sim.Close()
		late()
	case "half":
		late()
		s.peer.sim.closeWrite()
	case "reset":
		late()
		s.peer.sim.reset()
	case "garbage":
		late()
		s.peer.write(make([]byte, 64))
	case "dead":
		// the write side is broken: requests sent from now on fail by themselves
		lib.w.update(func() { lib.w.werr, lib.w.stall = errPipe, false })
		synctest.Wait()
		n := len(reqs)
		late()
		synctest.Wait()
		for i, r := range reqs[n:] {
			if !r.finished() || r.err == nil {
				x.Failf("late request %d cannot be written and does not fail", i)
			}
		}
		x.Label("dead")
		if n > 0 {
			x.NonTrivial()
		}
		return
	}
	synctest.Wait()
	x.Check()
	for i, r := range reqs {
		if !r.finished() {
			x.Failf("%s: request %d hangs", c.Cause, i)
		}
		if r.out && r.err == nil {
			x.Failf("%s: request %d succeeded without a reply", c.Cause, i)
		}
	}
	if c.Cause != "ctx" {
		// nothing works and nothing hangs
		for i, m := range c.After {
			var err error
			done := make(chan struct{})
			go func() {
				defer close(done)
				switch i % 3 {
				case 0:
					_, err = s.conn.RequestReply(context.Background(), m.lib())
				case 1:
					err = s.conn.SendOneWay(m.lib())
				case 2:
					_, err = s.conn.Ping(context.Background())
				}
			}()
			synctest.Wait()
			select {
			case <-done:
			default:
				x.Failf("%s: operation %d after the end hangs", c.Cause, i%3)
			}
			if err == nil {
				x.Failf("%s: operation %d after the end reports success", c.Cause, i%3)
			}
		}
		if e := s.ep; e != nil {
			if !e.ended() {
				x.Failf("%s: Wait has not returned", c.Cause)
			}
		}
	} else {
		// a context that has ended before the request is made
		pre, cancelPre := x.ctx(context.Background())
		cancelPre()
		dead := startRequest(s.conn, &msgSpec{ID: msgID{G: Val{U: 52}, X: 1}, Actor: 5}, pre)
		synctest.Wait()
		if !dead.finished() || dead.err == nil {
			x.Failf("a request whose context had ended: finished=%v err=%v", dead.finished(), dead.err)
		}
		lib.w.update(func() { lib.w.stall = false })
		synctest.Wait()
		// the replies come after all; the connection works on
		var want []seen
		base := len(s.delivered())
		for i, r := range reqs {
			if r.out {
				m := &msgSpec{ID: msgID{X: uint32(900 + i)}, Rel: r.m.ID, Actor: 5, Body: []byte("late")}
				s.peer.send(m)
				want = append(want, m.seen())
			}
		}
		for i, m := range c.After {
			m.ID = msgID{G: Val{U: 51}, X: uint32(i + 1)}
			r := startRequest(s.conn, m, context.Background())
			x.Cleanup(r.cancel)
			synctest.Wait()
			one := &msgSpec{ID: msgID{X: uint32(700 + i)}, Actor: 5, Body: []byte("oneway")}
			s.peer.send(one)
			want = append(want, one.seen())
			s.peer.send(&msgSpec{ID: msgID{X: 5}, Rel: m.ID, Actor: 5, Body: []byte{byte(i)}})
			synctest.Wait()
			if !r.finished() || r.err != nil || len(r.reply.Body) != 1 {
				x.Failf("after abandoned requests, a new request does not work: finished=%v err=%v", r.finished(), r.err)
			}
		}
		synctest.Wait()
		if d := matchSet("callback", s.delivered()[base:], want); d != "" {
			x.Failf("after abandoned requests: %s", d)
		}
	}
	_ = start
	if outstanding > 0 || stall {
		x.NonTrivial()
	}
	x.Label(c.Cause)
}

// t07Race: replies come at the very moment the requests they answer are given up.
type t07Round struct {
	Order string // cancel-reply, reply-cancel, both, deadline
	N     int
	Twice bool // every reply comes twice
	Seed  uint64
}

type t07Race struct {
	S      sinkCfg
	Rounds []t07Round
}

func runT07Race(x *X, c t07Race) {
	s := newLive(x, c.S)
	s.peer.on = nil
	id := uint32(0)
	base := 0
	raced := 0
	for k, rd := range c.Rounds {
		at := fmt.Sprintf("round %d (%s)", k, rd.Order)
		var reqs []*pendingReq
		order := []int{}
		end := time.Now().Add(50 * time.Millisecond)
		for i := 0; i < rd.N; i++ {
			id++
			ctx := context.Background()
			if rd.Order == "deadline" {
				cx, cancel := context.WithDeadline(ctx, end)
				x.Cleanup(cancel)
				ctx = cx
			}
			r := startRequest(s.conn, &msgSpec{ID: msgID{G: Val{U: 60}, X: id}, Actor: 5, Action: "race"}, ctx)
			x.Cleanup(r.cancel)
			reqs = append(reqs, r)
			order = append(order, i)
		}
		synctest.Wait()
		shuffle(rd.Seed, order)
		reply := func(i int) *msgSpec {
			return &msgSpec{ID: msgID{X: 1 + reqs[i].m.ID.X}, Rel: reqs[i].m.ID, Actor: 5, Body: []byte(fmt.Sprint("reply ", reqs[i].m.ID.X))}
		}
		write := func(i int) {
			b := s.peer.frame(reply(i))
			if rd.Twice {
				b = append(b, b...)
			}
			s.peer.c.Write(b)
		}
		switch rd.Order {
		case "cancel-reply":
			for _, i := range order {
				reqs[i].cancel()
				write(i)
			}
		case "reply-cancel":
			for _, i := range order {
				write(i)
				reqs[i].cancel()
			}
		case "both":
			var wg sync.WaitGroup
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := range reqs {
					reqs[i].cancel()
				}
			}()
			go func() {
				defer wg.Done()
				for _, i := range order {
					write(i)
				}
			}()
			wg.Wait()
		case "deadline":
			time.Sleep(time.Until(end))
			for _, i := range order {
				write(i)
			}
		}
		synctest.Wait()
		x.Check()
		got := map[string]int{}
		for _, m := range s.delivered()[base:] {
			got[m.Rel]++
		}
		for i, r := range reqs {
			if !r.finished() {
				x.Failf("%s: request %d was given up and answered and still runs", at, i)
			}
			most := 1
			if rd.Twice {
				most = 2
			}
			if r.err == nil {
				sn, err := seenLib(r.reply, allCustomIDs)
				if err != nil {
					x.Failf("%s: request %d: %v", at, i, err)
				}
				if d := sn.diff(reply(i).seen()); d != "" {
					x.Failf("%s: request %d got reply %s", at, i, d)
				}
				most--
			}
			if n := got[r.m.ID.key()]; n > most || rd.Twice && n == 0 {
				x.Failf("%s: the callback got the reply of request %d (err %v, sent twice %v) %d times", at, i, r.err, rd.Twice, n)
			}
			delete(got, r.m.ID.key())
			raced++
		}
		if len(got) > 0 {
			x.Failf("%s: the callback got %v", at, got)
		}
		base = len(s.delivered())
		// the connection works on
		id++
		m := &msgSpec{ID: msgID{G: Val{U: 60}, X: id}, Actor: 5}
		r := startRequest(s.conn, m, context.Background())
		x.Cleanup(r.cancel)
		synctest.Wait()
		one := &msgSpec{ID: msgID{X: 7}, Actor: 5, Body: []byte("oneway")}
		s.peer.send(one)
		s.peer.send(&msgSpec{ID: msgID{X: 5}, Rel: m.ID, Actor: 5, Body: []byte{byte(id)}})
		synctest.Wait()
		x.Check()
		if !r.finished() || r.err != nil || len(r.reply.Body) != 1 || r.reply.Body[0] != byte(id) {
			x.Failf("%s: afterwards a new request does not work: finished=%v err=%v", at, r.finished(), r.err)
		}
		if d := matchSet("callback", s.delivered()[base:], []seen{one.seen()}); d != "" {
			x.Failf("%s: afterwards: %s", at, d)
		}
		base = len(s.delivered())
		if !s.alive() {
			x.Failf("%s: the connection ended", at)
		}
	}
	if raced > 0 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- T08

type t08Step struct {
	Op   string // hb, ping, resp, bad, alien, cancel, sleep, msg, action
	I    int
	Body []byte
	M    *msgSpec
	Fast bool
	Tick uint64
}

type t08Case struct {
	S     sinkCfg
	Steps []t08Step
	End   string
}

type pendingPing struct {
	body   string
	cancel context.CancelFunc
	done   chan struct{}
	d      time.Duration
	err    error
	begin  time.Time
	out    bool
	ok     bool
	okAt   time.Time
}

func (p *pendingPing) finished() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func runT08(x *X, c t08Case) {
	s := newLive(x, c.S)
	var pings []*pendingPing
	var wantHB, want []seen
	seenPings := 0
	answered := false
	check := func(at string) {
		synctest.Wait()
		x.Check()
		for i, p := range pings {
			switch {
			case p.out && p.finished():
				x.Failf("%s: ping %d finished without its response: %v", at, i, p.err)
			case !p.out && !p.finished():
				x.Failf("%s: ping %d has not finished", at, i)
			case !p.out && p.ok && p.err != nil:
				x.Failf("%s: ping %d was answered and failed: %v", at, i, p.err)
			case !p.out && !p.ok && p.err == nil:
				x.Failf("%s: ping %d succeeded without an answer", at, i)
			case !p.out && p.ok && (p.d < 0 || p.d > p.okAt.Sub(p.begin)):
				x.Failf("%s: ping %d took %v, measured %v", at, i, p.okAt.Sub(p.begin), p.d)
			}
		}
		if !s.alive() {
			x.Failf("%s: the connection ended", at)
		}
		if d := s.match(want); d != "" {
			x.Failf("%s: callback: %s", at, d)
		}
		var got []seen
		for _, f := range s.peer.all() {
			if f.m.Actor == actorTransport && f.m.Action == "HeartbeatResponse" {
				got = append(got, seen{Body: string(f.m.Body)})
				if f.m.Expect || f.m.Fault || f.m.Err != 0 {
					x.Failf("%s: odd heartbeat response %s", at, f.m.seen().diff(seen{}))
				}
			}
		}
		if d := matchSet("heartbeat responses", got, wantHB); d != "" {
			x.Failf("%s: %s", at, d)
		}
	}
	response := func(body []byte, m *msgSpec) *msgSpec {
		r := &msgSpec{ID: msgID{X: 3}, Actor: actorTransport, Action: "HeartbeatResponse", High: true, Body: append([]byte{}, body...)}
		if m != nil {
			r.ID, r.Rel, r.High = m.ID, m.Rel, m.High
		}
		return r
	}
	for k, st := range c.Steps {
		at := fmt.Sprintf("step %d %s", k, st.Op)
		switch st.Op {
		case "hb":
			m := &msgSpec{ID: msgID{X: 2}, Actor: actorTransport, Action: "HeartbeatRequest", High: true, Body: append([]byte{}, st.Body...)}
			if st.M != nil {
				m.ID, m.Rel, m.High, m.Custom = st.M.ID, st.M.Rel, st.M.High, st.M.Custom
			}
			if st.I%4 == 0 {
				m.ID = msgID{}
			}
			s.peer.send(m)
			wantHB = append(wantHB, seen{Body: string(m.Body)})
		case "ping":
			synctest.Wait()
			p := &pendingPing{done: make(chan struct{}), begin: time.Now(), out: true}
			ctx := context.Background()
			p.cancel = func() {}
			if st.I%2 == 0 {
				ctx, p.cancel = x.ctx(ctx)
				x.Cleanup(p.cancel)
			}
			go func() { p.d, p.err = s.conn.Ping(ctx); close(p.done) }()
			synctest.Wait()
			x.Check()
			n := 0
			for _, f := range s.peer.all() {
				if f.m.Actor == actorTransport && f.m.Action == "HeartbeatRequest" {
					if n++; n > seenPings {
						p.body = string(f.m.Body)
					}
				}
			}
			if n != seenPings+1 {
				x.Failf("%s: %d heartbeat requests written", at, n-seenPings)
			}
			seenPings = n
			for i, o := range pings {
				if o.body == p.body {
					x.Failf("%s: its heartbeat cannot be told from that of ping %d: % x", at, i, p.body)
				}
			}
			pings = append(pings, p)
		case "resp":
			if len(pings) == 0 {
				continue
			}
			p := pings[st.I%len(pings)]
			s.peer.send(response([]byte(p.body), st.M))
			if p.out {
				p.out, p.ok, p.okAt = false, true, time.Now()
				answered = true
			}
		case "bad":
			b := st.Body
			if len(pings) > 0 && st.I%2 == 0 {
				p := []byte(pings[st.I%len(pings)].body)
				b = p[:st.I/2%len(p)]
			}
			for _, p := range pings {
				if p.body == string(b) {
					b = nil
				}
			}
			s.peer.send(response(b, st.M))
		case "alien": // a well-formed response to nobody's ping
			v := &Val{L: []*Val{{U: st.Tick}}}
			if len(pings) > 0 && st.I%2 == 0 { // close to one that was sent
				if q, err := refUnmarshal(dI64, []byte(pings[st.I/2%len(pings)].body), ""); err == nil && len(q.L) == 1 {
					v.L[0].U = q.L[0].U + uint64(int64(int32(st.Tick)))
				}
			}
			b := refMarshal(dI64, v, "")
			for i := 0; i < len(pings); i++ {
				if pings[i].body == string(b) {
					v.L[0].U++
					b, i = refMarshal(dI64, v, ""), -1
				}
			}
			s.peer.send(response(b, st.M))
		case "action":
			s.peer.send(&msgSpec{ID: msgID{X: 8}, Actor: actorTransport, Action: []string{"", "Heartbeat", "heartbeatresponse", "x"}[st.I%4], Body: append([]byte{}, st.Body...)})
		case "cancel":
			if len(pings) == 0 || pings[st.I%len(pings)].cancel == nil {
				continue
			}
			i := st.I % len(pings)
			synctest.Wait()
			pings[i].cancel()
			synctest.Wait()
			if pings[i].out && pings[i].finished() {
				// background contexts never end
				pings[i].out = false
			}
		case "sleep":
			time.Sleep(time.Duration(st.I) * time.Millisecond)
		case "long":
			// no ping has a deadline of its own
			time.Sleep(time.Duration(st.I+1) * 17 * time.Minute)
		case "msg":
			st.M.Rel = msgID{}
			s.peer.send(st.M)
			want = append(want, st.M.seen())
		case "deaf": // a peer that does not read its answers for a while still gets through
			if c.S.Secure {
				continue
			}
			synctest.Wait()
			s.libConn.w.update(func() { s.libConn.w.stall = true })
			for i := 0; i <= st.I%4; i++ {
				m := &msgSpec{ID: msgID{X: 2}, Actor: actorTransport, Action: "HeartbeatRequest", High: true, Body: append([]byte{byte(i)}, st.Body...)}
				s.peer.send(m)
				wantHB = append(wantHB, seen{Body: string(m.Body)})
			}
			var p *pendingPing
			if len(pings) > 0 {
				p = pings[st.I%len(pings)]
				s.peer.send(response([]byte(p.body), nil))
				if p.out {
					p.out, p.ok, p.okAt = false, true, time.Now()
					answered = true
				}
			}
			st.M.Rel = msgID{}
			s.peer.send(st.M)
			want = append(want, st.M.seen())
			synctest.Wait()
			x.Check()
			if p != nil && !p.finished() {
				x.Failf("%s: a ping is not answered while the peer does not read the responses to its own", at)
			}
			if d := s.match(want); d != "" {
				x.Failf("%s: while the peer does not read the responses to its pings: %s", at, d)
			}
			s.libConn.w.update(func() { s.libConn.w.stall = false })
		}
		if !st.Fast {
			check(at)
		}
	}
	check("end")
	// the end of the connection ends the pings
	if c.End == "stuck" && !c.S.Secure {
		// the peer does not read: the ping cannot even be written
		s.libConn.w.update(func() { s.libConn.w.stall = true })
		p := &pendingPing{done: make(chan struct{})}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		x.Cleanup(cancel)
		go func() { p.d, p.err = s.conn.Ping(ctx); close(p.done) }()
		time.Sleep(time.Minute)
		synctest.Wait()
		if !p.finished() || p.err == nil {
			x.Failf("a ping that cannot be written runs past its deadline: finished=%v err=%v", p.finished(), p.err)
		}
		s.libConn.w.update(func() { s.libConn.w.stall = false })
	}
	switch c.End {
	case "close":
		s.conn.Close()
	case "eof":
		s.peer.sim.Close()
	case "reset":
		s.peer.sim.reset()
	default:
		if answered || len(wantHB) > 0 {
			x.NonTrivial()
		}
		return
	}
	synctest.Wait()
	for i, p := range pings {
		if !p.finished() || p.out && p.err == nil {
			x.Failf("the connection ended (%s) and ping %d finished=%v err=%v", c.End, i, p.finished(), p.err)
		}
	}
	if answered || len(wantHB) > 0 {
		x.NonTrivial()
	}
}

// ---------------------------------------------------------------- T09

type t09Gen struct {
	Gens, Threads, N int
}

func runT09Gen(x *X, c t09Gen) {
	var mu sync.Mutex
	all := map[transport.MessageId]int{}
	var wg sync.WaitGroup
	for g := 0; g < c.Gens; g++ {
		gen, err := transport.NewMessageIdGenerator()
		if err != nil {
			x.Failf("NewMessageIdGenerator: %v", err)
		}
		gate := make(chan struct{})
		for th := 0; th < c.Threads; th++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				ids := make([]transport.MessageId, c.N)
				for i := range ids {
					ids[i] = gen.Next()
				}
				mu.Lock()
				for _, id := range ids {
					all[id]++
				}
				mu.Unlock()
			}()
		}
		close(gate)
	}
	wg.Wait()
	if all[transport.MessageId{}] != 0 {
		x.Failf("empty identity")
	}
	for id, n := range all {
		if n > 1 {
			x.Failf("identity %s given %d times", id.String(), n)
		}
	}
	if c.Threads > 1 && c.N > 10 {
		x.NonTrivial()
	}
}

type t09Fresh struct {
	N int
	K int // identities taken from each
}

// runT09Fresh makes many generators one after the other, as a host that opens many connections does.
func runT09Fresh(x *X, c t09Fresh) {
	type prefix = serialization.GUID
	owner := make(map[prefix]int, c.N)
	for i := 0; i < c.N; i++ {
		gen, err := transport.NewMessageIdGenerator()
		if err != nil {
			x.Failf("NewMessageIdGenerator: %v", err)
		}
		var last transport.MessageId
		for k := 0; k < c.K; k++ {
			id := gen.Next()
			if id == last || id.IsEmpty() {
				x.Failf("generator %d: identity %d is %s after %s", i, k, id.String(), last.String())
			}
			last = id
			if o, ok := owner[id.Id]; ok && o != i {
				x.Failf("generators %d and %d both give identities of %s", o, i, id.Id.String())
			}
			owner[id.Id] = i
		}
	}
	if c.N > 1000 {
		x.NonTrivial()
	}
}

type t09Conn struct {
	Secure []bool
	Conns  int
	Groups int
	N      int
	Own    []msgID
	Roles  []string
}

func runT09Conn(x *X, c t09Conn) {
	all := map[string]string{}
	own := map[string]int{}
	for _, id := range c.Own {
		own[id.key()] = 0
	}
	var wg sync.WaitGroup
	var sinks []*liveSink
	for i := 0; i < c.Conns; i++ {
		s := newLive(x, sinkCfg{Role: c.Roles[i%len(c.Roles)], PL: netPlan{Seed: uint64(i), Yield: true}})
		sinks = append(sinks, s)
		s.peer.send(&msgSpec{ID: msgID{X: 1}, Actor: actorTransport, Action: "HeartbeatRequest", Body: []byte("x")})
		for g := 0; g < c.Groups; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < c.N; k++ {
					m := &transport.Message{}
					m.Headers.Actor = 5
					if g == 0 && i == 0 && k < len(c.Own) {
						m.Headers.Id = c.Own[k].lib()
					}
					var err error
					if (g+k)%3 == 0 {
						ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
						s.conn.RequestReply(ctx, m)
						cancel()
					} else if (g+k)%7 == 1 {
						ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
						s.conn.Ping(ctx)
						cancel()
						if !m.Headers.Id.IsEmpty() {
							s.conn.SendOneWay(m)
						}
					} else {
						err = s.conn.SendOneWay(m)
					}
					if err != nil {
						x.Report("SendOneWay: %v", err)
						return
					}
				}
			}()
		}
	}
	x.Within("sending", wg.Wait)
	settle()
	x.Check()
	n := 0
	for i, s := range sinks {
		for _, f := range s.peer.all() {
			n++
			k := f.m.ID.key()
			what := fmt.Sprintf("connection %d %q", i, f.m.Action)
			if f.m.ID.empty() {
				x.Failf("%s: message without identity", what)
			}
			if _, ok := own[k]; ok {
				own[k]++
				continue
			}
			if o, ok := all[k]; ok {
				x.Failf("identity %s on %s and %s", k, o, what)
			}
			all[k] = what
		}
	}
	for k, n := range own {
		if n == 0 && len(c.Own) <= c.N {
			x.Failf("identity %s set by the caller was not kept", k)
		}
	}
	if n > 6 && c.Groups > 1 {
		x.NonTrivial()
	}
}

func dedupIDs(ids []msgID) []msgID {
	var out []msgID
	have := map[string]bool{}
	for _, id := range ids {
		if !have[id.key()] {
			have[id.key()] = true
			out = append(out, id)
		}
	}
	return out
}

func init() {
	live := []string{"client", "server"}
	register(&Prop{
		ID: "T05",
		Parts: []Part{bubble("concurrent", 6000, 150000, "at least two goroutines send", func(t *rapid.T) t05Case {
			c := t05Case{S: genSink(t, live, true), HB: intn(t, "hb", 0, 5), Dress: genDress(t)}
			for i, n := 0, intn(t, "groups", 1, 7); i < n; i++ {
				c.Groups = append(c.Groups, t05Group{Kind: pick(t, "kind", []string{"oneway", "oneway", "request", "ping"}), N: intn(t, "n", 1, 6), Body: pick(t, "body", []int{0, 1, 30, 500, 5000, 5000, 40000, 70000})})
				if k := &c.Groups[i]; k.Body == 70000 {
					k.N = min(k.N, 2)
					if cut := c.S.PL.Chunk != 0 || c.S.PP.Chunk != 0; cut && !oneIn(t, "cut", 6) {
						k.Body = 500
					} else if !cut && oneIn(t, "huge", 4) {
						k.Body = 300000
					}
				}
			}
			return c
		}, runT05)},
		Assumptions: []string{"schedules come from random yields at every read and write and from 1 to 8 processors; they are not enumerated"},
	})
	register(&Prop{
		ID: "T06",
		Parts: []Part{bubble("history", 12000, 240000, "a reply completes a request while another one is outstanding", func(t *rapid.T) t06Case {
			c := t06Case{S: genSink(t, live, true)}
			c.S.PL.Delay, c.S.PP.Delay = 0, 0
			for i, n := 0, intn(t, "steps", 1, 16); i < n; i++ {
				st := t06Step{Op: pick(t, "op", []string{"req", "req", "req", "req", "reply", "reply", "reply", "reply", "reply", "other", "cancel", "prompt", "dead", "stuck", "long"}), I: intn(t, "i", 0, 30), Fast: coin(t, "fast")}
				if st.Op != "cancel" {
					st.M = genMsg(t, false)
					st.Own = coin(t, "own")
					st.Odd = intn(t, "odd", 0, 2)
					st.BG = oneIn(t, "bg", 4)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runT06)},
		Assumptions: []string{"callers do not give two outstanding requests the same identity"},
	})
	register(&Prop{
		ID: "T07",
		Parts: []Part{bubble("end", 20000, 400000, "a request is outstanding or its write blocked when the end comes", func(t *rapid.T) t07Case {
			c := t07Case{S: genSink(t, live, true), Stall: oneIn(t, "stall", 3), Cause: pick(t, "cause", []string{"ctx", "ctx", "close", "eof", "half", "reset", "garbage", "dead"})}
			c.S.PL.Delay, c.S.PP.Delay = 0, 0
			for i, n := 0, intn(t, "reqs", 1, 5); i < n; i++ {
				q := t07Req{M: genMsg(t, false), Answered: oneIn(t, "answered", 4), Ctx: intn(t, "ctx", 0, 2), Late: oneIn(t, "late", 4)}
				if q.Ctx == 2 {
					q.Timeout = intn(t, "ms", 1, 60000)
					if c.Cause != "ctx" {
						q.Timeout = 3600000
					}
					if c.Cause == "ctx" {
						q.Answered = false
					}
				}
				c.Reqs = append(c.Reqs, q)
			}
			for i, n := 0, intn(t, "after", 0, 4); i < n; i++ {
				c.After = append(c.After, genMsg(t, false))
			}
			return c
		}, runT07), bubble("race", 6000, 120000, "always: replies race with cancellations", func(t *rapid.T) t07Race {
			c := t07Race{S: genSink(t, live, true)}
			c.S.PL.Delay, c.S.PP.Delay = 0, 0
			for i, n := 0, intn(t, "rounds", 1, 6); i < n; i++ {
				c.Rounds = append(c.Rounds, t07Round{Order: pick(t, "order", []string{"cancel-reply", "reply-cancel", "both", "deadline"}), N: intn(t, "n", 1, 5), Twice: oneIn(t, "twice", 4), Seed: rapid.Uint64().Draw(t, "seed")})
			}
			return c
		}, runT07Race)},
		Assumptions: []string{"a connection is broken when both its directions fail; when only writing fails, the requests being written have to fail"},
	})
	register(&Prop{
		ID: "T08",
		Parts: []Part{bubble("history", 30000, 600000, "a ping was answered or a heartbeat request sent", func(t *rapid.T) t08Case {
			c := t08Case{S: genSink(t, live, true), End: pick(t, "end", []string{"", "close", "eof", "reset", "stuck"})}
			c.S.PL.Delay, c.S.PP.Delay = 0, 0
			for i, n := 0, intn(t, "steps", 1, 14); i < n; i++ {
				st := t08Step{Op: pick(t, "op", []string{"hb", "hb", "ping", "ping", "ping", "resp", "resp", "resp", "bad", "bad", "alien", "action", "cancel", "sleep", "msg", "deaf", "long"}), I: intn(t, "i", 0, 40), Fast: coin(t, "fast")}
				switch st.Op {
				case "hb", "bad", "action", "deaf":
					st.Body = genBytes(t, "body", 0, 30)
					if oneIn(t, "tick", 3) {
						st.Body = refMarshal(dI64, &Val{L: []*Val{{U: genBits(t, 64, true)}}}, "")
						if st.Op == "bad" {
							st.Body = st.Body[:len(st.Body)-1]
						}
					}
				}
				if st.Op == "alien" {
					st.Tick = genBits(t, 64, true)
					if coin(t, "neartick") {
						st.Tick = uint64(int64(intn(t, "off", -3, 3)) * int64(pick(t, "unit", []int{1, 1, 1000, 1000000})))
					}
				}
				if st.Op == "msg" || st.Op == "deaf" || (st.Op == "hb" || st.Op == "resp" || st.Op == "alien") && coin(t, "hdrs") {
					st.M = genMsg(t, coin(t, "rel"))
				}
				if st.Op == "ping" || st.Op == "cancel" {
					st.Fast = false
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, runT08)},
		Assumptions: []string{"heartbeat responses are told apart by their body"},
	})
	register(&Prop{
		ID: "T09",
		Parts: []Part{
			part("generators", 400, 8000, "more than one goroutine per generator", func(t *rapid.T) t09Gen {
				return t09Gen{intn(t, "gens", 1, 6), intn(t, "threads", 1, 8), pick(t, "n", []int{1, 50, 1000, 5000})}
			}, runT09Gen),
			part("fresh", 16, 200, "more than 1000 generators", func(t *rapid.T) t09Fresh {
				return t09Fresh{intn(t, "gens", 1, 40000), intn(t, "k", 1, 3)}
			}, runT09Fresh),
			bubble("connections", 1500, 40000, "more than one goroutine sends", func(t *rapid.T) t09Conn {
				c := t09Conn{Conns: intn(t, "conns", 1, 3), Groups: intn(t, "groups", 1, 6), N: intn(t, "n", 1, 15), Roles: pick(t, "roles", [][]string{{"client"}, {"server"}, {"client", "server"}})}
				for i, n := 0, intn(t, "own", 0, 3); i < n; i++ {
					c.Own = append(c.Own, genMsgID(t))
				}
				c.Own = dedupIDs(c.Own)
				return c
			}, runT09Conn),
		},
		Assumptions: []string{"identities are compared over the generators and connections of one case; a generator's 2^32 indexes are not exhausted"},
	})
	_ = serialization.GUID{}
}
