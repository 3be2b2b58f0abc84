package harness

import (
	"context"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T17: what handlers of a server may do

type t17Work struct {
	Op string // sleep, ask, ping, tell, block
	Ms int
}

type t17Msg struct {
	Client int
	At     int // milliseconds after the one before
	Work   []t17Work
	Body   int
	OneWay bool
}

type t17Case struct {
	Cfg     crcCfg
	Secure  bool
	TLS     tlsSpec
	PC, PS  netPlan
	Clients int
	Msgs    []t17Msg
	Dress   uint64 `json:",omitempty"`
}

func runT17(x *X, c t17Case) {
	cfg, ccfg := c.Cfg.lib(), peerCfg(c.Cfg).lib()
	if c.Secure {
		cfg.TLS, ccfg.TLS = c.TLS.server(), c.TLS.client()
	}
	ln := newSimListener(tcpAddr(9, 9))
	body := func(i int) []byte { return t16Body(0, i, c.Msgs[i].Body) }
	type done struct {
		begun, finished time.Time
		n               int
		m               *transport.ByteArrayMessage
	}
	var mu sync.Mutex
	handled := make([]done, len(c.Msgs))
	release := make(chan struct{})
	told := map[int]int{}
	srv, err := transport.Listen(ln, transport.ServerConfig{Config: cfg, MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		var z, i int
		if _, err := fmt.Sscanf(string(m.Body[:min(16, len(m.Body))]), "%d/%d/", &z, &i); err != nil || i >= len(c.Msgs) {
			x.Report("a handler got % x", clipBytes(m.Body, 40))
			return
		}
		mu.Lock()
		handled[i].n++
		handled[i].begun, handled[i].m = time.Now(), m
		mu.Unlock()
		for k, w := range c.Msgs[i].Work {
			switch w.Op {
			case "sleep":
				time.Sleep(time.Duration(w.Ms) * time.Millisecond)
			case "block":
				<-release
			case "ask":
				q := &transport.Message{Body: []byte(fmt.Sprintf("%d %d", i, k))}
				q.Headers.Actor = 5
				dress(&q.Headers, c.Dress, 1, uint64(i), uint64(k))
				r, err := conn.RequestReply(context.Background(), q)
				if err != nil {
					x.Report("request %d of the handler of message %d: %v", k, i, err)
				} else if want := fmt.Sprintf("client %d: %d %d", c.Msgs[i].Client%c.Clients, i, k); string(r.Body) != want {
					x.Report("request %d of the handler of message %d: got %q, want %q", k, i, r.Body, want)
				}
			case "ping":
				if _, err := conn.Ping(context.Background()); err != nil {
					x.Report("ping %d of the handler of message %d: %v", k, i, err)
				}
			case "tell":
				q := &transport.Message{Body: []byte(fmt.Sprint(i))}
				q.Headers.Actor, q.Headers.Action = 5, "tell"
				if err := conn.SendOneWay(q); err != nil {
					x.Report("message %d of the handler of message %d: %v", k, i, err)
				}
			}
		}
		if m.Headers.ExpectsReply {
			r := &transport.Message{Body: append([]byte("re:"), m.Body...)}
			r.Headers.RelatesTo, r.Headers.Actor = m.Headers.Id, 5
			dress(&r.Headers, c.Dress, 2, uint64(i))
			if err := conn.SendOneWay(r); err != nil {
				x.Report("reply to message %d: %v", i, err)
			}
		}
		mu.Lock()
		handled[i].finished = time.Now()
		mu.Unlock()
	}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	go srv.Serve()
	var once sync.Once
	free := func() { once.Do(func() { close(release) }) }
	x.Cleanup(func() { free(); srv.Close() })
	var es []*endpoint
	for i := 0; i < c.Clients; i++ {
		pc, ps := c.PC, c.PS
		pc.Seed += uint64(i)
		ps.Seed += uint64(i)
		sim, err := ln.connect(pc, ps, tcpAddr(20+i, 1))
		if err != nil {
			x.Failf("connecting: %v", err)
		}
		e := connect(x, sim, ccfg)
		e.also = func(conn transport.Conn, m *transport.ByteArrayMessage) {
			if m.Headers.ExpectsReply {
				r := &transport.Message{Body: []byte(fmt.Sprintf("client %d: %s", i, m.Body))}
				r.Headers.RelatesTo, r.Headers.Actor = m.Headers.Id, 5
				go conn.SendOneWay(r)
				return
			}
			mu.Lock()
			told[i]++
			mu.Unlock()
		}
		es = append(es, e)
	}
	synctest.Wait()
	type call struct {
		sent, end time.Time
		err       error
		ok        bool
		done      chan struct{}
	}
	calls := make([]*call, len(c.Msgs))
	busy := 0
	for i, m := range c.Msgs {
		time.Sleep(time.Duration(m.At) * time.Millisecond)
		p := &call{sent: time.Now(), done: make(chan struct{})}
		calls[i] = p
		e := es[m.Client%c.Clients]
		go func() {
			defer close(p.done)
			lm := &transport.Message{Body: body(i)}
			lm.Headers.Actor = 5
			dress(&lm.Headers, c.Dress, 3, uint64(i))
			if m.OneWay {
				p.err = e.c.SendOneWay(lm)
				return
			}
			r, err := e.c.RequestReply(context.Background(), lm)
			p.err, p.end = err, time.Now()
			p.ok = err == nil && string(r.Body) == "re:"+string(body(i))
		}()
		if m.At == 0 && i%2 == 0 {
			synctest.Wait()
		}
		if len(m.Work) > 0 {
			busy++
		}
	}
	settle()
	x.Check()
	judge := func(at string, i int, blocked bool) {
		m, p := c.Msgs[i], calls[i]
		work, ends := time.Duration(0), true
		for _, w := range m.Work {
			if w.Op == "block" && blocked {
				ends = false
				break
			}
			if w.Op == "sleep" {
				work += time.Duration(w.Ms) * time.Millisecond
			}
		}
		mu.Lock()
		h := handled[i]
		mu.Unlock()
		if h.n != 1 {
			x.Failf("%s: message %d was handled %d times", at, i, h.n)
		}
		if !h.begun.Equal(p.sent) {
			x.Failf("%s: message %d waited %v for its handler", at, i, h.begun.Sub(p.sent))
		}
		over := false
		select {
		case <-p.done:
			over = true
		default:
		}
		if ends == h.finished.IsZero() {
			x.Failf("%s: the handler of message %d has finished: %v", at, i, !ends)
		}
		if ends && !h.finished.Equal(p.sent.Add(work)) && blocked {
			x.Failf("%s: the handler of message %d took %v for %v of work", at, i, h.finished.Sub(p.sent), work)
		}
		if over != (ends || m.OneWay) {
			x.Failf("%s: message %d: the call has ended: %v", at, i, over)
		}
		if over && p.err != nil {
			x.Failf("%s: message %d: %v", at, i, p.err)
		}
		if over && !m.OneWay && !p.ok {
			x.Failf("%s: message %d has a wrong reply", at, i)
		}
		if string(h.m.Body) != string(body(i)) {
			x.Failf("%s: message %d changed", at, i)
		}
	}
	for i := range c.Msgs {
		judge("handlers blocked", i, true)
	}
	free()
	settle()
	x.Check()
	tells := map[int]int{}
	for i, m := range c.Msgs {
		if calls[i].end.IsZero() && !m.OneWay {
			x.Failf("message %d has no reply", i)
		}
		judge("end", i, false)
		for _, w := range m.Work {
			if w.Op == "tell" {
				tells[m.Client%c.Clients]++
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for i := range es {
		if told[i] != tells[i] {
			x.Failf("client %d was told %d times instead of %d", i, told[i], tells[i])
		}
	}
	if busy > 1 {
		x.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "T17",
		Parts: []Part{bubble("handlers", 12000, 240000, "several handlers had work to do", func(t *rapid.T) t17Case {
			a, _ := genCfgPair(t)
			c := t17Case{Cfg: a, Secure: oneIn(t, "secure", 4), TLS: genTLS(t), PC: genPlan(t, false), PS: genPlan(t, false), Clients: intn(t, "clients", 1, 4), Dress: genDress(t)}
			c.PC.Delay, c.PS.Delay = 0, 0
			for i, n := 0, intn(t, "msgs", 1, 14); i < n; i++ {
				m := t17Msg{Client: intn(t, "client", 0, 3), At: pick(t, "at", []int{0, 0, 0, 1, 50}), Body: pick(t, "size", []int{0, 0, 1, 100, 5000}), OneWay: oneIn(t, "oneway", 4)}
				for j, k := 0, intn(t, "work", 0, 3); j < k; j++ {
					m.Work = append(m.Work, t17Work{Op: pick(t, "op", []string{"sleep", "sleep", "ask", "ask", "ping", "tell", "block"}), Ms: pick(t, "ms", []int{1, 10, 1000, 60000})})
				}
				c.Msgs = append(c.Msgs, m)
			}
			return c
		}, runT17)},
		Assumptions: []string{"virtual time"},
	})
}
