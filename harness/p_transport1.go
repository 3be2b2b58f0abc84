package harness

import (
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T01

type t01Case struct {
	PA, PB netPlan
	CA, CB crcCfg
	AB, BA []*msgSpec
	Reuse  bool `json:",omitempty"` // senders overwrite a body once it is sent
}

func genMsgs(t *rapid.T, l string, lo, hi int) []*msgSpec {
	var ms []*msgSpec
	for i, n := 0, intn(t, l, lo, hi); i < n; i++ {
		ms = append(ms, genMsg(t, oneIn(t, "rel", 4)))
	}
	return ms
}

func sendAll(x *X, what string, c transport.Conn, ms []*msgSpec, reuse bool) {
	for i, m := range ms {
		lm := m.lib()
		if err := c.SendOneWay(lm); err != nil {
			x.Report("%s: sending message %d: %v", what, i, err)
			return
		}
		if b, ok := lm.Body.([]byte); ok && reuse {
			for j := range b {
				b[j] = 0xEE
			}
		}
	}
}

func nontrivialMsgs(x *X, ms ...[]*msgSpec) {
	n := 0
	for _, l := range ms {
		for _, m := range l {
			if m.BD != nil || len(m.body()) > 0 || len(m.Custom) > 0 {
				n++
			}
		}
	}
	if n >= 2 {
		x.NonTrivial()
	}
}

func runT01(x *X, c t01Case) {
	la, lb := simPipe(c.PA, c.PB, tcpAddr(1, 1), tcpAddr(2, 2))
	var a, b *endpoint
	done := make(chan struct{})
	go func() { defer close(done); a = bgConnect(x, la, c.CA.lib()) }()
	b = connect(x, lb, c.CB.lib())
	x.Within("Connect", func() { <-done })
	x.Check()
	x.Within("sending", func() {
		go func() { sendAll(x, "a", a.c, c.AB, c.Reuse) }()
		sendAll(x, "b", b.c, c.BA, c.Reuse)
	})
	settle()
	x.Check()
	if d := matchSeq("a to b", b.seen(), seenOf(c.AB)); d != "" {
		x.Failf("%s", d)
	}
	if d := matchSeq("b to a", a.seen(), seenOf(c.BA)); d != "" {
		x.Failf("%s", d)
	}
	if a.ended() || b.ended() {
		x.Failf("a healthy connection ended: %v %v", a.err, b.err)
	}
	a.recheck()
	b.recheck()
	nontrivialMsgs(x, c.AB, c.BA)
}

type t01Srv struct {
	PC, PS  netPlan
	Cfg     crcCfg
	Clients [][]*msgSpec
	Reuse   bool `json:",omitempty"`
	Hold    bool `json:",omitempty"` // no callback returns before all messages have come
}

func runT01Server(x *X, c t01Srv) {
	ln := newSimListener(tcpAddr(9, 9))
	rec := &recorder{x: x}
	var left atomic.Int32
	cc := peerCfg(c.Cfg)
	srv, err := transport.Listen(ln, transport.ServerConfig{Config: c.Cfg.lib(), MessageCallback: rec.onMessage})
	if err != nil {
		x.Failf("Listen: %v", err)
	}
	x.Cleanup(func() { srv.Close() })
	go srv.Serve()
	if c.Hold {
		// every message has a callback of its own
		n := 0
		for _, ms := range c.Clients {
			n += len(ms)
		}
		var wg sync.WaitGroup
		wg.Add(n)
		rec.also = func(transport.Conn, *transport.ByteArrayMessage) {
			if left.Add(1) <= int32(n) {
				wg.Done()
			}
			wg.Wait()
		}
	}
	var want []seen
	owner := map[uint32]int{}
	k := uint32(0)
	for i, ms := range c.Clients {
		for _, m := range ms {
			k++
			m.ID = msgID{G: Val{U: 5, H: 6}, X: k}
			owner[k] = i
			want = append(want, m.seen())
		}
	}
	for i, ms := range c.Clients {
		pc, ps := c.PC, c.PS
		pc.Seed, ps.Seed = pc.Seed+uint64(i), ps.Seed+uint64(i)
		conn, err := ln.connect(pc, ps, tcpAddr(10+i, 1))
		if err != nil {
			x.Failf("%v", err)
		}
		go func(i int, ms []*msgSpec) {
			if e := bgConnect(x, conn, cc.lib()); e != nil {
				sendAll(x, fmt.Sprint("client ", i), e.c, ms, c.Reuse)
			}
		}(i, ms)
	}
	settle()
	x.Check()
	if d := matchSet("server", rec.seen(), want); d != "" {
		x.Failf("%s", d)
	}
	conns := map[transport.Conn]int{}
	for _, m := range rec.all() {
		o := owner[m.m.Headers.Id.Index]
		if p, ok := conns[m.conn]; ok && p != o {
			x.Failf("messages of clients %d and %d come with the same connection", p, o)
		}
		conns[m.conn] = o
	}
	if used := map[int]bool{}; true {
		for _, o := range conns {
			if used[o] {
				x.Failf("messages of client %d come with different connections", o)
			}
			used[o] = true
		}
	}
	rec.recheck()
	nontrivialMsgs(x, c.Clients...)
}

// ---------------------------------------------------------------- T02

type t02Case struct {
	S     sinkCfg
	Msgs  []*msgSpec
	Order uint64
	Bare  []bool // read: frames of a body alone, or of nothing
	Junk  []customSpec
	Prov  byte
}

func genSink(t *rapid.T, roles []string, secure bool) sinkCfg {
	s := sinkCfg{Role: pick(t, "role", roles), PL: genPlan(t, true), PP: genPlan(t, true)}
	if secure && oneIn(t, "secure", 4) {
		s.Secure = true
		s.TLS = genTLS(t)
		s.PL.Cap, s.PP.Cap, s.PL.Delay, s.PP.Delay = 0, 0, 0, 0
	} else if oneIn(t, "cfg", 2) {
		s.Cfg = crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
	}
	if oneIn(t, "idle", 8) {
		s.Idle = pick(t, "hours", []int{1, 26, 2000})
	}
	return s
}

func checkInit(x *X, s *sink, f *peerFrame) {
	if f.m.Actor != actorTransport {
		x.Failf("the first frame is not a transport init message: %s", f.m.seen().diff(seen{}))
	}
	v, err := refUnmarshal(dInit, f.m.Body, "")
	if err != nil {
		x.Failf("transport init body: %v (% x)", err, f.m.Body)
	}
	addr := ""
	if s.role != "client" {
		addr = s.peer.sim.remote.String()
	}
	if v.L[0].S != addr {
		x.Failf("transport init announces address %q, listening on %q", v.L[0].S, addr)
	}
	if v.L[2].U == 0 && v.L[2].H == 0 {
		x.Failf("transport init without a nonce")
	}
	if v.L[3].U != 1 {
		x.Failf("transport init says heartbeats are not supported")
	}
	if f.m.Action != "" || f.m.Expect || !f.m.Rel.empty() || f.m.ID.empty() {
		x.Failf("transport init has headers %s", f.m.seen().diff(seen{}))
	}
}

// wireDiff compares a captured frame with what the message should look like on the wire.
func wireDiff(f *peerFrame, m *msgSpec) string {
	want := m.headers()
	got := f.f.Headers
	group := func(hs []refHeader) map[uint16]string {
		g := map[uint16]string{}
		for _, h := range hs {
			g[h.ID] += fmt.Sprintf("[%x]", h.Data)
		}
		return g
	}
	gw, gg := group(want), group(got)
	for id, w := range gw {
		if gg[id] != w {
			return fmt.Sprintf("header %#x is %s, want %s", id, clip(gg[id], 200), clip(w, 200))
		}
	}
	for id, g := range gg {
		if gw[id] != g {
			return fmt.Sprintf("unexpected header %#x %s", id, clip(g, 200))
		}
	}
	if string(f.f.Body) != string(m.body()) {
		return fmt.Sprintf("body %x (%d bytes), want %x (%d bytes)", clipBytes(f.f.Body, 40), len(f.f.Body), clipBytes(m.body(), 40), len(m.body()))
	}
	return ""
}

func runT02Write(x *X, c t02Case) {
	s := newSink(x, c.S)
	want := c.Msgs
	if c.S.Role == "client" {
		x.Within("sending", func() { sendAll(x, "client", s.ep.c, c.Msgs, true) })
	} else {
		s.rec.also = func(conn transport.Conn, _ *transport.ByteArrayMessage) { sendAll(x, "server", conn, c.Msgs, true) }
		s.peer.send(&msgSpec{ID: msgID{X: 1}, Actor: 5})
	}
	settle()
	x.Check()
	all := s.peer.all()
	if len(all) == 0 {
		x.Failf("nothing was written")
	}
	checkInit(x, s, all[0])
	got := all[1:]
	for i := range want {
		if i >= len(got) {
			x.Failf("message %d of %d was not written", i, len(want))
		}
		if d := wireDiff(got[i], want[i]); d != "" {
			x.Failf("message %d on the wire: %s", i, d)
		}
	}
	if len(got) > len(want) {
		x.Failf("frame too many: % x", clipBytes(got[len(want)].raw, 100))
	}
	nontrivialMsgs(x, c.Msgs)
}

var typeInfoObjects = []string{hexID(hMessageId), hexID(hActor)}

func hexID(i int) string { return fmt.Sprintf("%#x", i) }

// runT02Read feeds frames built by the reference code, headers in any order.
func runT02Read(x *X, c t02Case) {
	s := newSink(x, c.S)
	var want []seen
	for i, m := range c.Msgs {
		hs := m.headers()
		for j, junk := range c.Junk {
			if (i+j)%2 == 0 {
				hs = append(hs, refHeader{junk.ID, junk.Raw})
			}
		}
		// headers move, but those of one id keep their order
		slots := make([]uint16, len(hs))
		byID := map[uint16][]refHeader{}
		for j, h := range hs {
			slots[j] = h.ID
			byID[h.ID] = append(byID[h.ID], h)
		}
		shuffle(c.Order+uint64(i), slots)
		for j, id := range slots {
			hs[j] = byID[id][0]
			byID[id] = byID[id][1:]
		}
		if i < len(c.Bare) && c.Bare[i] {
			// every header left out, all values are defaults
			m, hs = &msgSpec{Body: m.Body}, nil
		}
		prov := s.peer.prov
		if c.Prov != 0 {
			prov = c.Prov
		}
		s.peer.write(rawFrame(prov, headerBytes(hs), m.body(), s.peer.prov == 0 && !s.peer.cfg.NoGenHdr, s.peer.prov == 0 && s.peer.cfg.GenBody))
		want = append(want, m.seen())
	}
	settle()
	x.Check()
	if d := s.match(want); d != "" {
		x.Failf("%s", d)
	}
	if e, _ := s.ended(); e {
		x.Failf("the connection ended")
	}
	nontrivialMsgs(x, c.Msgs)
}

// ---------------------------------------------------------------- T03

type t03Case struct {
	S      sinkCfg
	Before []*msgSpec
	Bad    *msgSpec
	Kind   string // hdr, crc8, zero8, body, crc32, zero32, wrong8, wrong32
	At     int    // bit
	Mask   uint32 // burst, lowest bit set
	After  []*msgSpec
}

func runT03(x *X, c t03Case) {
	check := c.Kind != "wrong8" && c.Kind != "wrong32"
	switch c.Kind {
	case "hdr", "crc8", "zero8":
		c.S.Cfg.NoCheckHdr = false
	case "body", "crc32", "zero32":
		c.S.Cfg.CheckBody = true
	case "wrong8":
		c.S.Cfg.NoCheckHdr = true
	case "wrong32":
		c.S.Cfg.CheckBody = false
	}
	s := newSink(x, c.S)
	pc := peerCfg(c.S.Cfg)
	want := c.Before
	for _, m := range c.Before {
		s.peer.send(m)
	}
	f := s.peer.frame(c.Bad)
	switch c.Kind {
	case "hdr":
		// covered header bytes in transmission order of the polynomial: most significant bit first
		lo, n := 0, 5*8
		if c.At%7 >= 5 {
			lo, n = 6, 2*8
		}
		mask := c.Mask&0xFF | 1
		for i, at := 0, c.At%n; i < 8 && at < n; i, at = i+1, at+1 {
			if mask>>i&1 != 0 {
				f[lo+at/8] ^= 0x80 >> (at % 8)
			}
		}
	case "crc8", "zero8":
		m := byte(c.Mask)
		if c.Kind == "zero8" {
			m = f[5] // the field is cleared
		}
		if m == 0 {
			m = 1
		}
		f[5] ^= m
	case "body":
		n := 8 * (len(f) - 12)
		mask := c.Mask | 1
		for i, at := 0, c.At%n; i < 32 && at < n; i, at = i+1, at+1 {
			if mask>>i&1 != 0 {
				f[12+at/8] ^= 1 << (at % 8)
			}
		}
	case "crc32", "zero32":
		m := c.Mask
		if c.Kind == "zero32" {
			m = binary.LittleEndian.Uint32(f[8:])
		}
		if m == 0 {
			m = 1
		}
		binary.LittleEndian.PutUint32(f[8:], binary.LittleEndian.Uint32(f[8:])^m)
	case "wrong8":
		f[5] = byte(c.Mask)
		want = append(want, c.Bad)
	case "wrong32":
		binary.LittleEndian.PutUint32(f[8:], c.Mask)
		want = append(want, c.Bad)
	}
	_ = pc
	s.peer.write(f)
	for _, m := range c.After {
		s.peer.send(m)
		if !check {
			want = append(want, m)
		}
	}
	if check {
		// whatever the corrupted length claims, the stream does not end
		s.peer.write(make([]byte, 64))
	}
	settle()
	x.Check()
	if d := s.match(seenOf(want)); d != "" {
		x.Failf("%s corrupted at bit %d with %#x: %s", c.Kind, c.At, c.Mask, d)
	}
	e, why := s.ended()
	if check && (!e || why != "") {
		x.Failf("%s corrupted at bit %d with %#x: %s", c.Kind, c.At, c.Mask, why)
	}
	if !check && e {
		x.Failf("the connection ended although the checksum is not checked")
	}
	x.NonTrivial()
	x.Label(c.S.Role + " " + c.Kind)
}

// ---------------------------------------------------------------- T04

type t04Case struct {
	S      sinkCfg
	Before []*msgSpec
	Base   *msgSpec
	Kind   string
	N      uint32
	Bytes  []byte
	EOF    bool
}

var t04Kinds = []string{"short", "headers", "trunc-header", "undecodable", "activator", "truncated", "claim", "garbage", "noise"}

// t04Frame builds the malformed bytes; sure tells whether they are certainly malformed.
func t04Frame(c t04Case, peer *rawPeer) (b []byte, sure bool) {
	crc := peer.prov == 0 && !peer.cfg.NoGenHdr
	crcb := peer.prov == 0 && peer.cfg.GenBody
	base := peer.frame(c.Base)
	hdrLen := int(binary.LittleEndian.Uint16(base[6:]))
	fix := func(b []byte) []byte {
		b[5] = 0
		copy(b[8:12], []byte{0, 0, 0, 0})
		if crc {
			b[5] = refCRC8(b[:12])
		}
		if crcb {
			binary.LittleEndian.PutUint32(b[8:], refCRC32(b[12:]))
		}
		return b
	}
	switch c.Kind {
	case "short": // total length smaller than the frame header
		binary.LittleEndian.PutUint32(base, c.N%12)
		return fix(base), true
	case "headers": // header section longer than the frame
		n := len(base) - 12
		over := n + 1 + int(c.N)%(65536-min(n, 65535))
		if n >= 65535 || over > 65535 {
			base = peer.frame(&msgSpec{ID: msgID{X: 1}, Actor: 2})
			n = len(base) - 12
			over = n + 1 + int(c.N)%(65535-n)
		}
		binary.LittleEndian.PutUint16(base[6:], uint16(over))
		return fix(base), true
	case "trunc-header": // the section ends inside a header
		hs := c.Base.headers()
		hdr := headerBytes(hs)
		ends := map[int]bool{0: true}
		at := 0
		for _, h := range hs {
			at += 4 + len(h.Data)
			ends[at] = true
		}
		cut := 1 + int(c.N)%(len(hdr)-1)
		for ends[cut] {
			cut--
		}
		if cut == 0 {
			cut = 1
		}
		return rawFrame(peer.prov, hdr[:cut], c.Base.body(), crc, crcb), true
	case "undecodable", "activator": // a header payload cut short
		hs := c.Base.headers()
		k := int(c.N>>8) % len(hs)
		if c.Kind == "activator" {
			hs = append(hs, refHeader{actID1, refMarshal(dAct[actID1], dAct[actID1].zero(), "")})
			k = len(hs) - 1
		} else {
			for hs[k].ID < 0x8001 || hs[k].ID > 0x8009 {
				k--
			}
		}
		h := &hs[k]
		h.Data = h.Data[:int(c.N&0xFF)%len(h.Data)]
		return rawFrame(peer.prov, headerBytes(hs), c.Base.body(), crc, crcb), true
	case "truncated": // the stream ends inside the frame
		return base[:1+int(c.N)%(len(base)-1)], true
	case "claim": // a length far beyond what follows
		binary.LittleEndian.PutUint32(base, 1<<20+c.N>>(c.N%12))
		return fix(base), true
	case "garbage":
		return c.Bytes, false
	}
	// noise: a valid frame with damaged bytes and repaired checksums
	for i, v := range c.Bytes {
		at := int(splitmix(uint64(c.N), uint64(i)) % uint64(len(base)))
		base[at] = v
	}
	_ = hdrLen
	return fix(base), false
}

func runT04(x *X, c t04Case) {
	s := newSink(x, c.S)
	for _, m := range c.Before {
		s.peer.send(m)
	}
	settle()
	start := totalAlloc()
	b, sure := t04Frame(c, s.peer)
	s.peer.write(b)
	eof := c.EOF || c.Kind == "truncated" || c.Kind == "claim"
	if c.Kind == "claim" {
		time.Sleep(time.Minute)
		synctest.Wait()
	} else if !eof && sure {
		// the stream goes on
		switch {
		case c.Kind == "short" || c.Kind == "headers":
			s.peer.write(make([]byte, 64))
		case c.N&(1<<20) == 0: // not at once after a frame that is complete
		default:
			s.peer.send(&msgSpec{ID: msgID{G: Val{U: 77}, X: 77}, Actor: 5, Body: []byte("afterwards")})
		}
	}
	if eof {
		s.peer.sim.closeWrite()
	}
	settle()
	x.Check()
	if used := totalAlloc() - start; used > 16<<20+200*uint64(len(b)) {
		x.Failf("%d bytes of input made it allocate %d", len(b), used)
	}
	if sure {
		if d := s.match(seenOf(c.Before)); d != "" {
			x.Failf("%s frame: %s", c.Kind, d)
		}
		if e, why := s.ended(); !e || why != "" {
			x.Failf("%s frame: %s", c.Kind, why)
		}
	} else {
		got := s.delivered()
		if !s.ordered && len(got) < len(c.Before) || s.ordered && len(got) < len(c.Before) {
			x.Failf("%d of %d messages before the malformed one were delivered", len(got), len(c.Before))
		}
		if s.ordered {
			if d := matchSeq("before", got[:len(c.Before)], seenOf(c.Before)); d != "" {
				x.Failf("%s", d)
			}
		}
		if e, _ := s.ended(); eof && !e {
			x.Failf("the stream has ended and the connection has not")
		}
	}
	// others are still served
	if s.ln != nil {
		pl, pp := c.S.PL, c.S.PP
		probe(x, s, c.S, pl, pp)
	}
	x.NonTrivial()
	x.Label(c.S.Role + " " + c.Kind)
}

// probe connects another client to the sink's server or proxy and sends a message.
func probe(x *X, s *sink, c sinkCfg, pl, pp netPlan) {
	if s.up != nil {
		return // its upstream is used up; the proxy's own other connections are T12's
	}
	a, err := s.ln.connect(pp, pl, tcpAddr(77, 7))
	if err != nil {
		x.Failf("the server no longer accepts: %v", err)
	}
	cfg := peerCfg(c.Cfg).lib()
	if c.Secure {
		cfg.TLS = c.TLS.client()
	}
	e := connect(x, a, cfg)
	m := &msgSpec{ID: msgID{G: Val{U: 4242}, X: 4242}, Actor: 5, Body: []byte("probe")}
	n := len(s.delivered())
	sendAll(x, "probe", e.c, []*msgSpec{m}, false)
	settle()
	x.Check()
	got := s.delivered()
	if len(got) != n+1 || got[n] != m.seen() {
		x.Failf("after the malformed data another client's message does not arrive (%d messages)", len(got)-n)
	}
}

// t04Hand is a handshake attacked with malformed data.
type t04Hand struct {
	Role  string
	PL    netPlan
	Bytes []byte
	Frame bool
	Mut   []byte
	Wrap  bool
	EOF   bool
}

func runT04Hand(x *X, c t04Hand) {
	tlsMaterial()
	start := totalAlloc()
	lib, peer := simPipe(c.PL, netPlan{}, tcpAddr(1, 1), tcpAddr(2, 2))
	x.Cleanup(func() { lib.Close(); peer.Close() })
	b := c.Bytes
	if c.Wrap {
		m := &msgSpec{ID: msgID{X: 9}, Actor: actorSecurity, Body: c.Bytes}
		b = m.frame(1, c.Frame, false)
		for i, v := range c.Mut {
			b[int(splitmix(uint64(i), uint64(v))%uint64(len(b)))] = v
		}
	}
	res := make(chan error, 1)
	var ln *simListener
	var rec *recorder
	if c.Role == "client" {
		go func() {
			_, err := transport.Connect(lib, transport.ClientConfig{Config: transport.Config{TLS: tlsSpec{}.client()}})
			res <- err
		}()
	} else {
		ln = newSimListener(tcpAddr(3, 3))
		rec = &recorder{x: x}
		srv, _ := transport.Listen(ln, transport.ServerConfig{Config: transport.Config{TLS: tlsSpec{}.server()}, MessageCallback: rec.onMessage})
		x.Cleanup(func() { srv.Close() })
		go srv.Serve()
		ln.push(acceptItem{c: lib})
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			if _, err := peer.Read(buf); err != nil {
				return
			}
		}
	}()
	peer.Write(b)
	if c.EOF {
		peer.closeWrite()
	}
	settle()
	if used := totalAlloc() - start; used > 16<<20+200*uint64(len(b)) {
		x.Failf("%d bytes of input made it allocate %d", len(b), used)
	}
	if c.Role == "client" {
		select {
		case err := <-res:
			if err == nil {
				x.Failf("handshake with a peer that sends garbage succeeded")
			}
		default:
			if c.EOF {
				x.Failf("Connect hangs on a dead connection")
			}
		}
	} else {
		if c.EOF && !lib.closed.Load() {
			x.Failf("server keeps a dead connection")
		}
		s := &sink{role: "server", x: x, rec: rec, ln: ln}
		probe(x, s, sinkCfg{Secure: true}, netPlan{}, netPlan{})
	}
	x.Check()
	x.NonTrivial()
}

func init() {
	register(&Prop{
		ID: "T01",
		Parts: []Part{
			bubble("pair", 5000, 120000, "at least two messages with a body or custom headers", func(t *rapid.T) t01Case {
				c := t01Case{PA: genPlan(t, true), PB: genPlan(t, true), Reuse: coin(t, "reuse")}
				c.CA, c.CB = genCfgPair(t)
				c.AB, c.BA = genMsgs(t, "ab", 1, 8), genMsgs(t, "ba", 0, 8)
				return c
			}, runT01),
			bubble("server", 2500, 60000, "at least two messages with a body or custom headers", func(t *rapid.T) t01Srv {
				c := t01Srv{PC: genPlan(t, true), PS: genPlan(t, true), Reuse: coin(t, "reuse"), Hold: oneIn(t, "hold", 3)}
				if oneIn(t, "cfg", 2) {
					c.Cfg = crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
				}
				for i, n := 0, intn(t, "clients", 1, 4); i < n; i++ {
					c.Clients = append(c.Clients, genMsgs(t, "msgs", 1, 5))
				}
				return c
			}, runT01Server),
		},
		Assumptions: []string{"a server hands each message to its own goroutine: exactly once and unchanged is checked there, not the order", "custom header ids are not those of the message's own headers, 0x8000 or 0x8048", "the actor is not the transport's own, retry counts are not negative"},
	})
	register(&Prop{
		ID: "T02",
		Parts: []Part{
			bubble("write", 12000, 240000, "at least two messages with a body or custom headers", func(t *rapid.T) t02Case {
				return t02Case{S: genSink(t, []string{"client", "server"}, true), Msgs: genMsgs(t, "msgs", 1, 6)}
			}, runT02Write),
			bubble("read", 12000, 240000, "at least two messages with a body or custom headers", func(t *rapid.T) t02Case {
				c := t02Case{S: genSink(t, sinkRoles, true), Msgs: genMsgs(t, "msgs", 1, 6), Order: rapid.Uint64().Draw(t, "order")}
				if oneIn(t, "bare", 8) {
					for range c.Msgs {
						c.Bare = append(c.Bare, coin(t, "bare"))
					}
				}
				for i, n := 0, intn(t, "junk", 0, 3); i < n; i++ {
					c.Junk = append(c.Junk, customSpec{ID: pick(t, "junkid", []uint16{hInvalid, hNegotiation}), Raw: genBytes(t, "junkraw", 0, 30)})
				}
				return c
			}, runT02Read),
		},
		Assumptions: []string{"the order of a message's headers is free, except among those of one id"},
	})
	register(&Prop{
		ID: "T03",
		Parts: []Part{
			bubble("corrupt", 36000, 720000, "always: every case has a frame with a wrong checksum or changed bits", func(t *rapid.T) t03Case {
				c := t03Case{S: genSink(t, sinkRoles, false), Kind: pick(t, "kind", []string{"hdr", "hdr", "crc8", "zero8", "body", "body", "crc32", "zero32", "wrong8", "wrong32"})}
				c.Before, c.After = genMsgs(t, "before", 0, 2), genMsgs(t, "after", 0, 1)
				c.Bad = genMsg(t, false)
				c.At = int(genBits(t, 20, false))
				c.Mask = uint32(genBits(t, 32, false))
				return c
			}, runT03),
			bubble("clean", 7500, 150000, "at least two messages with a body or custom headers", func(t *rapid.T) t01Case {
				c := t01Case{PA: genPlan(t, true), PB: genPlan(t, true)}
				c.CA, c.CB = genCfgPair(t)
				if !oneIn(t, "any", 4) {
					// both checksums, computed and checked on both sides
					c.CA, c.CB = crcCfg{CheckBody: true, GenBody: true}, crcCfg{CheckBody: true, GenBody: true}
				}
				c.AB, c.BA = genMsgs(t, "ab", 1, 4), genMsgs(t, "ba", 0, 4)
				for _, m := range append(c.AB, c.BA...) {
					if oneIn(t, "bodyless", 3) {
						m.Body, m.BodyN, m.BD, m.BV = nil, 0, nil, nil
					}
				}
				return c
			}, runT01),
		},
		Assumptions: []string{"the covered header bits are those of the length, provider and header-length fields; bursts run in the order the checksum's polynomial defines"},
	})
	register(&Prop{
		ID: "T04",
		Parts: []Part{
			bubble("frames", 24000, 480000, "always: every case feeds malformed or damaged bytes", func(t *rapid.T) t04Case {
				c := t04Case{S: genSink(t, sinkRoles, true), Kind: pick(t, "kind", t04Kinds), EOF: coin(t, "eof")}
				c.S.PL.Delay, c.S.PP.Delay = 0, 0
				c.Before = genMsgs(t, "before", 0, 2)
				c.Base = genMsg(t, false)
				c.N = uint32(genBits(t, 32, false))
				if c.Kind == "garbage" {
					c.Bytes = genBytes(t, "bytes", 0, 80)
				} else if c.Kind == "noise" {
					c.Bytes = genBytes(t, "bytes", 1, 6)
				}
				return c
			}, runT04),
			bubble("handshake", 3000, 60000, "always", func(t *rapid.T) t04Hand {
				c := t04Hand{Role: pick(t, "role", []string{"client", "server"}), PL: genPlan(t, false), EOF: coin(t, "eof"), Wrap: coin(t, "wrap"), Frame: coin(t, "crc")}
				c.PL.Delay = 0
				c.Bytes = genBytes(t, "bytes", 0, 100)
				if coin(t, "record") {
					// something like a TLS record
					c.Bytes = append([]byte{22, 3, byte(intn(t, "minor", 0, 4)), byte(intn(t, "hi", 0, 1)), byte(intn(t, "lo", 0, 255)), byte(intn(t, "type", 0, 20))}, c.Bytes...)
				}
				if c.Wrap && coin(t, "mutate") {
					c.Mut = genBytes(t, "mut", 1, 4)
				}
				return c
			}, runT04Hand),
		},
		Assumptions: []string{"memory is judged by what is allocated while the bytes are processed: 16 MiB plus 200 times the input are allowed"},
	})
}
