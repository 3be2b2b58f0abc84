package harness

import (
	"context"
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"net"

	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T09, N05: identities by themselves

type idTexts struct {
	A, B guidCase
	I, J uint64
}

func genIDTexts(t *rapid.T, bits int) idTexts {
	index := func(l string) uint64 {
		v := pick(t, l, []uint64{0, 1, 2, 1 << 31, 1<<32 - 1, 1 << 32, 1<<64 - 1, rapid.Uint64().Draw(t, l+"r")})
		if bits < 64 {
			v &= 1<<bits - 1
		}
		return v
	}
	return idTexts{A: genGuidCase(t), B: genGuidCase(t), I: index("i"), J: index("j")}
}

func runIDTexts(x *X, c idTexts, empty func(v *Val, i uint64) (bool, string)) {
	texts := map[string]string{}
	for _, v := range []*Val{c.A.V, c.B.V, {}} {
		for _, i := range []uint64{c.I, c.J, 0} {
			e, s := empty(v, i)
			zero := v.U == 0 && v.H == 0
			if want := zero && i == 0; e != want {
				x.Failf("identity %s index %d counts as unset: %v", guidText(v), i, e)
			}
			if want := fmt.Sprintf("%s:%d", guidText(v), i); s != want {
				x.Failf("identity %s index %d has text %q, want %q", guidText(v), i, s, want)
			}
			k := fmt.Sprintf("%d/%d/%d", v.U, v.H, i)
			if o, ok := texts[s]; ok && o != k {
				x.Failf("two identities have text %q", s)
			}
			texts[s] = k
			if zero != (i == 0) {
				x.NonTrivial()
			}
		}
	}
}

// ---------------------------------------------------------------- T01: big messages

type t01Big struct {
	Via   string // where the frames end: client, server, piper
	C     crcCfg
	Sizes []int
	Reply bool
	Seed  uint64
}

func bigBody(seed uint64, n int) []byte {
	b := make([]byte, n+8)
	for i := 0; i < n; i += 8 {
		seed = seed*6364136223846793005 + 1442695040888963407
		binary.LittleEndian.PutUint64(b[i:], seed)
	}
	return b[:n]
}

func runT01Big(x *X, c t01Big) {
	cl := c.C.lib()
	conf, upConf := cl, cl
	ln := newSimListener(tcpAddr(9, 9))
	x.Cleanup(func() { ln.Close() })
	sum := func(b []byte) string { return fmt.Sprintf("%d bytes, md5 %x", len(b), md5.Sum(b)) }
	got := make(chan string, 100)
	srv, err := transport.Listen(ln, transport.ServerConfig{Config: conf, MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) {
		got <- sum(m.Body)
		if m.Headers.ExpectsReply {
			r := &transport.Message{Body: m.Body}
			r.Headers.Actor, r.Headers.RelatesTo = 5, m.Headers.Id
			if err := conn.SendOneWay(r); err != nil {
				x.Report("replying with %d bytes: %v", len(m.Body), err)
			}
		}
	}})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	go srv.Serve()
	x.Cleanup(func() { srv.Close() })
	to := ln
	if c.Via == "piper" {
		to = newSimListener(tcpAddr(8, 8))
		x.Cleanup(func() { to.Close() })
		p, err := transport.NewPiper(to, transport.PiperConfig{Config: conf, FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
			u, err := ln.connect(netPlan{}, netPlan{}, tcpAddr(7, 7))
			return u, upConf, err
		}})
		if err != nil {
			x.Failf("NewPiper: %v", err)
		}
		go p.Serve()
	}
	raw, err := to.connect(netPlan{}, netPlan{}, tcpAddr(1, 1))
	if err != nil {
		x.Failf("connecting: %v", err)
	}
	x.Cleanup(func() { raw.Close() })
	conn, err := transport.Connect(raw, transport.ClientConfig{Config: cl})
	if err != nil {
		x.Failf("Connect: %v", err)
	}
	ended := false
	go func() { conn.Wait(); ended = true }()
	for i, n := range c.Sizes {
		body := bigBody(c.Seed+uint64(i), n)
		want := sum(body)
		m := &transport.Message{Body: body}
		m.Headers.Actor, m.Headers.Action = 5, "big"
		x.Within(fmt.Sprintf("message %d of %d bytes", i, n), func() {
			if !c.Reply {
				if err := conn.SendOneWay(m); err != nil {
					x.Report("sending %d bytes: %v", n, err)
				}
				return
			}
			r, err := conn.RequestReply(context.Background(), m)
			if err != nil {
				x.Report("request of %d bytes: %v", n, err)
			} else if s := sum(r.Body); s != want {
				x.Report("the reply is %s, want %s", s, want)
			}
		})
		settle()
		x.Check()
		select {
		case s := <-got:
			if s != want {
				x.Failf("message %d came as %s, sent as %s", i, s, want)
			}
		default:
			x.Failf("message %d of %d bytes did not come", i, n)
		}
		if ended {
			x.Failf("the connection ended after message %d of %d bytes", i, n)
		}
		if n > 1<<20 {
			x.NonTrivial()
		}
	}
	x.Label(c.Via)
}

// ---------------------------------------------------------------- T12: messages without an identity of their own

type t12Unnamed struct {
	PA, PB   netPlan
	Up, Down []*msgSpec
	Same     bool // one identity for all
	Filter   bool
}

func runT12Unnamed(x *X, c t12Unnamed) {
	to := newSimListener(tcpAddr(8, 8))
	x.Cleanup(func() { to.Close() })
	ua, ub := simPipe(c.PA, c.PB, tcpAddr(6, 6), tcpAddr(7, 7))
	x.Cleanup(func() { ua.Close() })
	cfg := transport.PiperConfig{FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
		return ua, transport.Config{}, nil
	}}
	if c.Filter {
		cfg.Filter = func(_, _ net.Conn, m *transport.ByteArrayMessage) *transport.Message {
			return &transport.Message{Headers: m.Headers, Body: m.Body}
		}
	}
	p, err := transport.NewPiper(to, cfg)
	if err != nil {
		x.Failf("NewPiper: %v", err)
	}
	go p.Serve()
	ca, err := to.connect(c.PA, c.PB, tcpAddr(1, 1))
	if err != nil {
		x.Failf("connecting: %v", err)
	}
	client, up := newRawPeer(x, ca, ca, crcCfg{}), newRawPeer(x, ub, ub, crcCfg{})
	for _, ms := range [][]*msgSpec{c.Up, c.Down} {
		for _, m := range ms {
			m.ID = msgID{}
			if c.Same {
				m.ID = msgID{X: 1}
			}
		}
	}
	go client.pump()
	go up.pump()
	for i := 0; i < max(len(c.Up), len(c.Down)); i++ {
		if i < len(c.Up) {
			client.send(c.Up[i])
		}
		if i < len(c.Down) {
			up.send(c.Down[i])
		}
	}
	settle()
	x.Check()
	for _, d := range []struct {
		what string
		p    *rawPeer
		ms   []*msgSpec
	}{{"client to upstream", up, c.Up}, {"upstream to client", client, c.Down}} {
		var want, got []seen
		for _, m := range d.ms {
			want = append(want, m.seen())
		}
		for i, f := range d.p.all() {
			if i == 0 && f.m.Actor == actorTransport { // the proxy's own first message
				continue
			}
			got = append(got, f.m.seen())
		}
		if s := matchSeq(d.what, got, want); s != "" {
			x.Failf("%s", s)
		}
	}
	if len(c.Up)+len(c.Down) > 1 {
		x.NonTrivial()
	}
}

func init() {
	addPart("T12", bubble("unnamed", 3000, 60000, "several messages", func(t *rapid.T) t12Unnamed {
		c := t12Unnamed{PA: genPlan(t, true), PB: genPlan(t, true), Up: genMsgs(t, "up", 1, 8), Down: genMsgs(t, "down", 0, 8), Same: coin(t, "same"), Filter: coin(t, "filter")}
		return c
	}, runT12Unnamed))
	addPart("T01", bubble("big", 60, 1200, "a message of more than 1 MiB", func(t *rapid.T) t01Big {
		c := t01Big{Via: pick(t, "via", []string{"direct", "direct", "piper"}), Reply: coin(t, "reply"), Seed: rapid.Uint64().Draw(t, "seed")}
		if coin(t, "crc") {
			c.C = crcCfg{false, false, true, true}
		}
		top := pick(t, "top", []int{16, 20, 22, 23, 24, 25, 26, 27})
		for i, n := 0, intn(t, "n", 1, 3); i < n; i++ {
			s := 1<<pick(t, "log", []int{16, top, max(16, top-1)}) + pick(t, "d", []int{-1, 0, 1, -12, 12, intn(t, "rest", 0, 1<<16)})
			c.Sizes = append(c.Sizes, s)
			if s > 1<<25 {
				break
			}
		}
		return c
	}, runT01Big))
	addPart("T09", part("texts", 100000, 2000000, "only one of GUID and index is zero", func(t *rapid.T) idTexts { return genIDTexts(t, 32) }, func(x *X, c idTexts) {
		runIDTexts(x, c, func(v *Val, i uint64) (bool, string) {
			m := transport.MessageId{Id: guidOf(v), Index: uint32(i)}
			return m.IsEmpty(), m.String()
		})
	}))
	addPart("N05", part("texts", 100000, 2000000, "only one of GUID and index is zero", func(t *rapid.T) idTexts { return genIDTexts(t, 64) }, func(x *X, c idTexts) {
		runIDTexts(x, c, func(v *Val, i uint64) (bool, string) {
			m := naming.ActivityId{Id: guidOf(v), Index: i}
			return m.IsEmpty(), m.String()
		})
	}))
}
