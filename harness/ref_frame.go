package harness

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand/v2"
	"net"
	"sort"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- frames

func refCRC8(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x07
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func refCRC32(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

type refHeader struct {
	ID   uint16
	Data []byte
}

type refFrame struct {
	Provider byte
	Headers  []refHeader
	Body     []byte
	HdrLen   int // length of the header section
	CRC8     byte
	CRC32    uint32
}

func headerBytes(hs []refHeader) []byte {
	var e refEncoder
	for _, h := range hs {
		e.u16(h.ID)
		e.u16(uint16(len(h.Data)))
		e.u8(h.Data...)
	}
	return e.b
}

// rawFrame builds a frame around a header section and a body.
func rawFrame(provider byte, hdr, body []byte, crc8, crc32 bool) []byte {
	var e refEncoder
	e.u32(uint32(12 + len(hdr) + len(body)))
	e.u8(provider, 0)
	e.u16(uint16(len(hdr)))
	e.u32(0)
	if crc8 {
		e.b[5] = refCRC8(e.b)
	}
	e.u8(hdr...)
	e.u8(body...)
	if crc32 {
		binary.LittleEndian.PutUint32(e.b[8:], refCRC32(e.b[12:]))
	}
	return e.b
}

// parseFrame takes a frame off b strictly; n is its length, 0 when more bytes are needed.
func parseFrame(b []byte) (f *refFrame, n int, err error) {
	if len(b) < 12 {
		return nil, 0, nil
	}
	n = int(binary.LittleEndian.Uint32(b))
	if n < 12 || n > 64<<20 {
		return nil, 0, fmt.Errorf("frame length %d", n)
	}
	if len(b) < n {
		return nil, 0, nil
	}
	f = &refFrame{Provider: b[4], CRC8: b[5], HdrLen: int(binary.LittleEndian.Uint16(b[6:])), CRC32: binary.LittleEndian.Uint32(b[8:])}
	if 12+f.HdrLen > n {
		return nil, 0, fmt.Errorf("header section of %d bytes in a frame of %d", f.HdrLen, n)
	}
	h := b[12 : 12+f.HdrLen]
	for len(h) > 0 {
		if len(h) < 4 {
			return nil, 0, fmt.Errorf("%d bytes left in the header section", len(h))
		}
		l := int(binary.LittleEndian.Uint16(h[2:]))
		if len(h) < 4+l {
			return nil, 0, fmt.Errorf("header of %d bytes, %d left", l, len(h)-4)
		}
		f.Headers = append(f.Headers, refHeader{binary.LittleEndian.Uint16(h), append([]byte(nil), h[4:4+l]...)})
		h = h[4+l:]
	}
	f.Body = append([]byte(nil), b[12+f.HdrLen:n]...)
	return f, n, nil
}

// checkCRC verifies the checksums of the frame in b against what the configuration asks for.
func checkCRC(b []byte, crc8, crc32 bool) error {
	z := append([]byte(nil), b[:12]...)
	z[5] = 0
	copy(z[8:], []byte{0, 0, 0, 0})
	want8, want32 := byte(0), uint32(0)
	if crc8 {
		want8 = refCRC8(z)
	}
	if crc32 {
		want32 = refCRC32(b[12:])
	}
	if b[5] != want8 {
		return fmt.Errorf("header checksum %#x, want %#x", b[5], want8)
	}
	if got := binary.LittleEndian.Uint32(b[8:]); got != want32 {
		return fmt.Errorf("body checksum %#x, want %#x", got, want32)
	}
	return nil
}

// ---------------------------------------------------------------- messages

const (
	hActor, hAction, hMessageId, hRelatesTo, hExpectsReply, hRetry, hFault, hIdempotent, hHighPriority = 0x8001, 0x8002, 0x8003, 0x8004, 0x8005, 0x8006, 0x8007, 0x8008, 0x8009
	hInvalid, hNegotiation                                                                             = 0x8000, 0x8048
	actorTransport                                                                                     = 1
)

type msgID struct {
	G Val    `json:"g"`
	X uint32 `json:"x"`
}

func (m msgID) empty() bool { return m.G.U == 0 && m.G.H == 0 && m.X == 0 }
func (m msgID) lib() transport.MessageId {
	return transport.MessageId{Id: guidOf(&m.G), Index: m.X}
}
func idOf(m transport.MessageId) msgID { return msgID{G: *valOfGUID(m.Id), X: m.Index} }
func (m msgID) key() string            { return fmt.Sprintf("%016x%016x:%d", m.G.U, m.G.H, m.X) }

var (
	dMessageID = &Desc{K: "struct", Fields: []*Desc{{K: "guid"}, {K: "u32"}}}
	dI64       = &Desc{K: "struct", Fields: []*Desc{{K: "i64"}}}
	dI32       = &Desc{K: "struct", Fields: []*Desc{{K: "i32"}}}
	dStr       = &Desc{K: "struct", Fields: []*Desc{{K: "str"}}}
	dBool      = &Desc{K: "struct", Fields: []*Desc{{K: "bool"}}}
	dFault     = &Desc{K: "struct", Fields: []*Desc{{K: "i64"}, {K: "bool"}}}
)

func (m msgID) val() *Val {
	g := m.G
	return &Val{L: []*Val{&g, {U: uint64(m.X)}}}
}

type customSpec struct {
	ID  uint16 `json:"i"`
	Raw []byte `json:"r,omitempty"`
	D   *Desc  `json:"d,omitempty"`
	V   *Val   `json:"v,omitempty"`
}

func (c customSpec) bytes() []byte {
	if c.D != nil {
		return refMarshal(c.D, c.V, "")
	}
	return c.Raw
}

// msgSpec is the logical content of a message.
type msgSpec struct {
	ID     msgID        `json:"id"`
	Rel    msgID        `json:"rel"`
	Actor  int64        `json:"a"`
	Action string       `json:"act,omitempty"`
	Expect bool         `json:"e,omitempty"`
	High   bool         `json:"h,omitempty"`
	Idem   bool         `json:"dm,omitempty"`
	Err    int64        `json:"err,omitempty"`
	Fault  bool         `json:"f,omitempty"`
	Retry  int32        `json:"rt,omitempty"`
	Custom []customSpec `json:"c,omitempty"`
	Body   []byte       `json:"b,omitempty"`
	BodyN  int          `json:"bn,omitempty"` // body of this length, generated from the length
	BD     *Desc        `json:"bd,omitempty"`
	BV     *Val         `json:"bv,omitempty"`
}

func (m *msgSpec) body() []byte {
	switch {
	case m.BD != nil:
		return refMarshal(m.BD, m.BV, "")
	case m.BodyN > 0:
		b := make([]byte, m.BodyN)
		for i := range b {
			b[i] = byte(i*131>>3) ^ byte(i) ^ byte(i>>8)
		}
		return b
	}
	return m.Body
}

// lib builds the message with the library's types.
func (m *msgSpec) lib() *transport.Message {
	r := &transport.Message{}
	h := &r.Headers
	h.Id, h.RelatesTo = m.ID.lib(), m.Rel.lib()
	h.Actor, h.Action = transport.MessageActorType(m.Actor), m.Action
	h.ExpectsReply, h.HighPriority, h.Idempotent = m.Expect, m.High, m.Idem
	h.ErrorCode, h.HasFaultBody, h.RetryCount = transport.FabricErrorCode(m.Err), m.Fault, m.Retry
	for _, c := range m.Custom {
		if c.D != nil {
			h.AppendCustomHeader(transport.MessageHeaderIdType(c.ID), goPtr(c.D, c.V))
		} else {
			h.AppendCustomHeader(transport.MessageHeaderIdType(c.ID), append([]byte{}, c.Raw...))
		}
	}
	switch {
	case m.BD != nil:
		r.Body = goPtr(m.BD, m.BV)
	case m.BodyN > 0 || m.Body != nil:
		r.Body = append([]byte{}, m.body()...)
	}
	return r
}

func goPtr(d *Desc, v *Val) any {
	rv := newOf(d)
	d.toGo(v, "", rv.Elem())
	return rv.Interface()
}

// headers are the wire headers of the message in the library's order.
func (m *msgSpec) headers() []refHeader {
	add := func(hs []refHeader, id uint16, d *Desc, v ...*Val) []refHeader {
		return append(hs, refHeader{id, refMarshal(d, &Val{L: v}, "")})
	}
	b := func(x bool) *Val {
		if x {
			return &Val{U: 1}
		}
		return &Val{}
	}
	hs := []refHeader{{hMessageId, refMarshal(dMessageID, m.ID.val(), "")}}
	if !m.Rel.empty() {
		hs = append(hs, refHeader{hRelatesTo, refMarshal(dMessageID, m.Rel.val(), "")})
	}
	hs = add(hs, hActor, dI64, &Val{U: uint64(m.Actor)})
	if m.Action != "" {
		hs = add(hs, hAction, dStr, &Val{S: m.Action})
	}
	if m.Expect {
		hs = add(hs, hExpectsReply, dBool, b(true))
	}
	if m.High {
		hs = add(hs, hHighPriority, dBool, b(true))
	}
	if m.Idem {
		hs = add(hs, hIdempotent, dBool, b(true))
	}
	if m.Err != 0 || m.Fault {
		hs = add(hs, hFault, dFault, &Val{U: uint64(m.Err)}, b(m.Fault))
	}
	if m.Retry > 0 {
		hs = add(hs, hRetry, dI32, &Val{U: uint64(int64(m.Retry))})
	}
	for _, c := range m.Custom {
		hs = append(hs, refHeader{c.ID, c.bytes()})
	}
	return hs
}

func (m *msgSpec) frame(provider byte, crc8, crc32 bool) []byte {
	return rawFrame(provider, headerBytes(m.headers()), m.body(), crc8, crc32)
}

// seen is a message as received, in comparable form.
type seen struct {
	ID, Rel          string
	Actor            int64
	Action           string
	Expect, High, Id bool
	Err              int64
	Fault            bool
	Retry            int32
	Custom           string
	Body             string
}

func (m *msgSpec) seen() seen {
	return seen{m.ID.key(), m.Rel.key(), m.Actor, m.Action, m.Expect, m.High, m.Idem, m.Err, m.Fault, m.Retry, customKey(m.Custom), string(m.body())}
}

// customKey groups custom headers by id, keeping the order of each id's values.
func customKey(cs []customSpec) string {
	ids := map[uint16][]string{}
	for _, c := range cs {
		ids[c.ID] = append(ids[c.ID], fmt.Sprintf("%x", c.bytes()))
	}
	var ks []int
	for k := range ids {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%x%v;", k, ids[uint16(k)])
	}
	return s
}

// seenLib reads a delivered message; ids are the custom header ids to look for.
func seenLib(b *transport.ByteArrayMessage, ids []uint16) (s seen, err error) {
	h := &b.Headers
	s = seen{ID: idOf(h.Id).key(), Rel: idOf(h.RelatesTo).key(), Actor: int64(h.Actor), Action: h.Action, Expect: h.ExpectsReply, High: h.HighPriority, Id: h.Idempotent,
		Err: int64(h.ErrorCode), Fault: h.HasFaultBody, Retry: h.RetryCount, Body: string(b.Body)}
	var cs []customSpec
	for _, id := range ids {
		for _, v := range h.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			raw, ok := v.([]byte)
			if !ok {
				if raw, err = serialization.Marshal(v); err != nil {
					return
				}
			}
			cs = append(cs, customSpec{ID: id, Raw: raw})
		}
	}
	s.Custom = customKey(cs)
	return
}

func (s seen) diff(o seen) string {
	if s == o {
		return ""
	}
	f := func(s seen) string {
		c, b := s.Custom, s.Body
		return fmt.Sprintf("{id %s rel %s actor %d action %q flags %v %v %v err %d fault %v retry %d custom %s(%d) body %x(%d)}", s.ID, s.Rel, s.Actor, clip(s.Action, 40), s.Expect, s.High, s.Id, s.Err, s.Fault, s.Retry, clip(c, 60), len(c), clipBytes([]byte(b), 24), len(b))
	}
	return f(s) + " != " + f(o)
}

// specOfFrame decodes a captured frame's headers with the reference parser. Custom headers stay raw.
func specOfFrame(f *refFrame) (*msgSpec, error) {
	m := &msgSpec{Body: f.Body}
	got := map[uint16]int{}
	for _, h := range f.Headers {
		got[h.ID]++
		var d *Desc
		switch h.ID {
		case hMessageId, hRelatesTo:
			d = dMessageID
		case hActor:
			d = dI64
		case hAction:
			d = dStr
		case hExpectsReply, hHighPriority, hIdempotent:
			d = dBool
		case hFault:
			d = dFault
		case hRetry:
			d = dI32
		default:
			m.Custom = append(m.Custom, customSpec{ID: h.ID, Raw: h.Data})
			continue
		}
		if got[h.ID] > 1 {
			return nil, fmt.Errorf("header %#x twice", h.ID)
		}
		v, err := refUnmarshal(d, h.Data, "")
		if err != nil {
			return nil, fmt.Errorf("header %#x: %v (% x)", h.ID, err, h.Data)
		}
		zero := fmt.Errorf("header %#x holds the default value", h.ID)
		switch h.ID {
		case hMessageId:
			m.ID = msgID{*v.L[0], uint32(v.L[1].U)}
		case hRelatesTo:
			m.Rel = msgID{*v.L[0], uint32(v.L[1].U)}
			if m.Rel.empty() {
				return nil, zero
			}
		case hActor:
			m.Actor = int64(v.L[0].U)
		case hAction:
			if m.Action = v.L[0].S; m.Action == "" {
				return nil, zero
			}
		case hExpectsReply:
			m.Expect = v.L[0].U != 0
		case hHighPriority:
			m.High = v.L[0].U != 0
		case hIdempotent:
			m.Idem = v.L[0].U != 0
		case hFault:
			m.Err, m.Fault = int64(v.L[0].U), v.L[1].U != 0
			if m.Err == 0 && !m.Fault {
				return nil, zero
			}
		case hRetry:
			m.Retry = int32(v.L[0].U)
			if m.Retry == 0 {
				return nil, zero
			}
		}
		if (h.ID == hExpectsReply || h.ID == hHighPriority || h.ID == hIdempotent) && v.L[0].U == 0 {
			return nil, zero
		}
	}
	if got[hMessageId] == 0 || got[hActor] == 0 {
		return nil, fmt.Errorf("no message id or actor header")
	}
	return m, nil
}

// ---------------------------------------------------------------- generators

// ids used for custom headers: known ones without special meaning, unknown ones, small ones
var customIDs = []uint16{0x8020, 0x8022, 0x8023, 0x8025, 0x8040, 0x8019, 0x804c, 0x8056, 0x8057, 0x9000, 0xFFFF, 0x0000, 0x0001, 0x7FFF}

// activatorIDs have an activator registered by this harness.
const (
	actID1 = 0x9101
	actID2 = 0x9102
)

type ActHeader1 struct {
	A uint32
	B string
	C []int16
}
type ActHeader2 struct {
	X serialization.GUID
	Y *ActHeader1
}

var dAct = map[uint16]*Desc{}

func init() {
	addNamed("ActHeader1", ActHeader1{})
	addNamed("ActHeader2", ActHeader2{})
	dAct[actID1] = namedDesc("ActHeader1")
	dAct[actID2] = namedDesc("ActHeader2")
	transport.RegisterHeaderActivator(actID1, func() interface{} { return &ActHeader1{} })
	transport.RegisterHeaderActivator(actID2, func() interface{} { return &ActHeader2{} })
}

var allCustomIDs = append(append([]uint16{}, customIDs...), actID1, actID2)

func genMsgID(t *rapid.T) msgID {
	m := msgID{}
	m.G.U, m.G.H = gen128(t)
	m.X = uint32(genBits(t, 32, false))
	if m.empty() {
		m.X = 1
	}
	return m
}

var actors = []int64{0, 2, 3, 4, 5, 6, 10, 16, 19, 21, 28, 33, -1, 64, 65, 1 << 31, -1 << 63}

func genCustom(t *rapid.T, max int) []customSpec {
	var cs []customSpec
	if oneIn(t, "manycustoms", 40) {
		seed := rapid.Uint64().Draw(t, "manyseed")
		for i, n := 0, pick(t, "many", []int{33, 70, 140, 300, 1100})-intn(t, "less", 0, 9); i < n; i++ {
			r := splitmix(seed, uint64(i))
			raw := make([]byte, r>>32%13)
			for j := range raw {
				raw[j] = byte(r >> (j * 4))
			}
			cs = append(cs, customSpec{ID: customIDs[r%uint64(len(customIDs))], Raw: raw})
		}
		return cs
	}
	for i, n := 0, intn(t, "customs", 0, 4); i < n; i++ {
		c := customSpec{ID: pick(t, "cid", allCustomIDs)}
		if d := dAct[c.ID]; d != nil {
			size := 6
			c.D, c.V = d, genVal(t, d, genOpts{}, &size, false)
		} else if coin(t, "cstruct") {
			budget, size := 4, 8
			c.D = genStruct(t, genOpts{}, 1, &budget, true)
			c.V = genVal(t, c.D, genOpts{}, &size, false)
		} else {
			c.Raw = genBytes(t, "raw", 0, 20)
			if oneIn(t, "longraw", 10) {
				c.Raw = make([]byte, pick(t, "rawlen", []int{255, 256, 4096, 9000}))
				for j := range c.Raw {
					c.Raw[j] = byte(j * 7)
				}
			}
		}
		if c.Raw == nil && c.D == nil {
			c.Raw = []byte{}
		}
		cs = append(cs, c)
	}
	return cs
}

// genMsg draws a message that is not the transport's own and, unless rel, relates to nothing.
func genMsg(t *rapid.T, rel bool) *msgSpec {
	m := &msgSpec{ID: genMsgID(t), Actor: pick(t, "actor", actors)}
	if rel {
		m.Rel = genMsgID(t)
	}
	if oneIn(t, "hdrs", 3) {
		m.Action = genString(t, "action")
		m.Expect, m.High, m.Idem = coin(t, "expect"), coin(t, "high"), coin(t, "idem")
		m.Err = int64(pick(t, "err", []uint64{0, 0, 1, 0x80071BBC, ^uint64(0), 1 << 63}))
		m.Fault = coin(t, "fault")
		m.Retry = pick(t, "retry", []int32{0, 0, 1, 2, 63, 64, 1 << 30})
	} else if coin(t, "action") {
		m.Action = pick(t, "act", []string{"Ping", "HeartbeatRequest", "ConnectionAuth", "x"})
	}
	m.Custom = genCustom(t, 4)
	switch intn(t, "body", 0, 5) {
	case 0:
	case 1, 2:
		m.Body = genBytes(t, "bytes", 0, 40)
	case 3:
		m.BodyN = pick(t, "bodyn", []int{1, 12, 255, 256, 1460, 4095, 4096, 65535, 65536, 70000})
	default:
		budget, size := 6, 10
		m.BD = genStruct(t, genOpts{maps: false}, 0, &budget, true)
		m.BV = genVal(t, m.BD, genOpts{}, &size, false)
	}
	return m
}

// dress sets headers that say nothing about how the message is treated; seed 0 leaves them alone.
func (m *msgSpec) dress(seed uint64, k ...uint64) *msgSpec {
	if seed == 0 {
		return m
	}
	r := splitmix(append([]uint64{seed, 41}, k...)...)
	if m.Actor == 0 || m.Actor == 5 {
		m.Actor = []int64{5, 5, 0, 2, 3, 10, 16, 64, -1}[r>>8%9]
	}
	if m.Actor == actorTransport {
		m.Actor = 5
	}
	if m.Action == "" {
		m.Action = []string{"", "", "x", "Ping", "HeartbeatRequest", "ConnectionAuth"}[r>>16%6]
	}
	m.High, m.Idem = m.High || r>>24&1 == 1, m.Idem || r>>25&1 == 1
	if m.Retry == 0 && r>>26&3 == 3 {
		m.Retry = int32(r >> 40)
	}
	if len(m.Custom) == 0 && r>>28&3 == 3 {
		m.Custom = []customSpec{{ID: 0x9000, Raw: []byte{byte(r)}}, {ID: 0x8025, Raw: []byte{}}}
	}
	return m
}

func dress(h *transport.MessageHeaders, seed uint64, k ...uint64) {
	if seed == 0 {
		return
	}
	m := (&msgSpec{Actor: int64(h.Actor), Action: h.Action}).dress(seed, k...).lib()
	id, rel, expect := h.Id, h.RelatesTo, h.ExpectsReply
	*h = m.Headers
	h.Id, h.RelatesTo, h.ExpectsReply = id, rel, expect
}

func genDress(t *rapid.T) uint64 {
	if coin(t, "plain") {
		return 0
	}
	return rapid.Uint64().Draw(t, "dress")
}

func genPlan(t *rapid.T, bounded bool) netPlan {
	p := netPlan{Seed: rapid.Uint64().Draw(t, "sched")}
	p.Chunk = pick(t, "chunk", []int{0, 1, 2, 5, 13, 64, 1500})
	p.Yield = coin(t, "yield")
	if oneIn(t, "delay", 3) {
		p.Delay = pick(t, "delayus", []int{1, 50, 3000})
	}
	if bounded && oneIn(t, "bound", 3) {
		p.Cap = pick(t, "cap", []int{600, 1024, 4096}) // room for a transport init: both ends write one before they read
	}
	return p
}

type crcCfg struct {
	NoCheckHdr bool `json:"nch,omitempty"`
	NoGenHdr   bool `json:"ngh,omitempty"`
	CheckBody  bool `json:"cb,omitempty"`
	GenBody    bool `json:"gb,omitempty"`
}

func (c crcCfg) lib() transport.Config {
	return transport.Config{DisableCheckFrameHeaderCRC: c.NoCheckHdr, DisableGenerateFrameHeaderCRC: c.NoGenHdr, CheckFrameBodyCRC: c.CheckBody, GenerateFrameBodyCRC: c.GenBody}
}

// genCfgPair draws configurations of two ends that understand each other.
func genCfgPair(t *rapid.T) (a, b crcCfg) {
	draw := func() crcCfg {
		return crcCfg{coin(t, "nch"), coin(t, "ngh"), coin(t, "cb"), coin(t, "gb")}
	}
	if oneIn(t, "cfg", 3) {
		a, b = draw(), draw()
		if a.NoGenHdr {
			b.NoCheckHdr = true
		}
		if b.NoGenHdr {
			a.NoCheckHdr = true
		}
		if a.CheckBody {
			b.GenBody = true
		}
		if b.CheckBody {
			a.GenBody = true
		}
	}
	return
}

func shuffle[T any](seed uint64, s []T) {
	r := rand.New(rand.NewPCG(seed, 7))
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
}

var _ net.Conn = (*simConn)(nil)
