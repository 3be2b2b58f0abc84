package harness

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"math/big"
	"net"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// Fixtures of the transport properties: library ends, scripted raw ends, TLS material.

// settle lets everything that can happen without new input happen, timers included.
func settle() {
	time.Sleep(time.Hour)
	synctest.Wait()
}

// ---------------------------------------------------------------- recording

type recMsg struct {
	m    *transport.ByteArrayMessage
	s    seen
	conn transport.Conn
}

// recorder is a message callback that keeps what it is given.
type recorder struct {
	x    *X
	mu   sync.Mutex
	msgs []recMsg
	also func(transport.Conn, *transport.ByteArrayMessage)
}

func (r *recorder) onMessage(c transport.Conn, m *transport.ByteArrayMessage) {
	s, err := seenLib(m, allCustomIDs)
	if err != nil {
		r.x.Report("delivered message cannot be read: %v", err)
	}
	r.mu.Lock()
	r.msgs = append(r.msgs, recMsg{m, s, c})
	r.mu.Unlock()
	if r.also != nil {
		r.also(c, m)
	}
}

func (r *recorder) all() []recMsg {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]recMsg(nil), r.msgs...)
}

func (r *recorder) seen() []seen {
	var out []seen
	for _, m := range r.all() {
		out = append(out, m.s)
	}
	return out
}

// recheck verifies that delivered messages are still what they were when delivered.
func (r *recorder) recheck() {
	for i, m := range r.all() {
		s, err := seenLib(m.m, allCustomIDs)
		if err != nil {
			r.x.Failf("delivered message %d can no longer be read: %v", i, err)
		}
		if d := m.s.diff(s); d != "" {
			r.x.Failf("delivered message %d changed after it was delivered: %s", i, d)
		}
	}
}

// endpoint is a client connection of the library and its receive loop.
type endpoint struct {
	recorder
	c    *transport.Client
	done chan struct{}
	err  error // of Wait
}

func newEndpoint(x *X, conn net.Conn, cfg transport.Config) (*endpoint, error) {
	e := &endpoint{done: make(chan struct{})}
	e.x = x
	c, err := transport.Connect(conn, transport.ClientConfig{Config: cfg, MessageCallback: e.onMessage})
	if err != nil {
		return nil, err
	}
	e.c = c
	return e, nil
}

func (e *endpoint) start() {
	go func() {
		e.err = e.c.Wait()
		close(e.done)
	}()
}

func (e *endpoint) ended() bool {
	select {
	case <-e.done:
		return true
	default:
		return false
	}
}

// connect makes a client and starts its receive loop.
func connect(x *X, conn net.Conn, cfg transport.Config) *endpoint {
	var e *endpoint
	var err error
	x.Within("Connect", func() { e, err = newEndpoint(x, conn, cfg) })
	if err != nil {
		x.Failf("Connect: %v", err)
	}
	x.Cleanup(func() { conn.Close() })
	e.start()
	return e
}

// bgConnect is connect for other goroutines than the case's; nil when it fails.
func bgConnect(x *X, conn net.Conn, cfg transport.Config) *endpoint {
	e, err := newEndpoint(x, conn, cfg)
	if err != nil {
		x.Report("Connect: %v", err)
		return nil
	}
	x.Cleanup(func() { conn.Close() })
	e.start()
	return e
}

func matchSeq(what string, got, want []seen) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%s: message %d of %d is missing: %s", what, i, len(want), want[i].diff(seen{}))
		}
		if d := got[i].diff(want[i]); d != "" {
			return fmt.Sprintf("%s: message %d of %d: got %s", what, i, len(want), d)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%s: %d messages too many, first %s", what, len(got)-len(want), got[len(want)].diff(seen{}))
	}
	return ""
}

func sortSeen(s []seen) []seen {
	s = append([]seen(nil), s...)
	sort.Slice(s, func(i, j int) bool { return fmt.Sprint(s[i]) < fmt.Sprint(s[j]) })
	return s
}

func matchSet(what string, got, want []seen) string {
	return matchSeq(what+" (as a set)", sortSeen(got), sortSeen(want))
}

func seenOf(ms []*msgSpec) []seen {
	var out []seen
	for _, m := range ms {
		out = append(out, m.seen())
	}
	return out
}

// ---------------------------------------------------------------- raw peer

// rawPeer is a scripted end of a connection that speaks frames through the reference code.
type rawPeer struct {
	x    *X
	c    net.Conn
	sim  *simConn
	cfg  crcCfg // what the peer generates, and what it checks
	prov byte

	mu  sync.Mutex
	in  []*peerFrame
	end error
	on  func(*peerFrame)
}

type peerFrame struct {
	f   *refFrame
	raw []byte
	m   *msgSpec
}

func newRawPeer(x *X, c net.Conn, sim *simConn, cfg crcCfg) *rawPeer {
	x.Cleanup(func() { c.Close() })
	return &rawPeer{x: x, c: c, sim: sim, cfg: cfg}
}

func (p *rawPeer) frame(m *msgSpec) []byte {
	return m.frame(p.prov, p.prov == 0 && !p.cfg.NoGenHdr, p.prov == 0 && p.cfg.GenBody)
}

func (p *rawPeer) send(m *msgSpec) { p.write(p.frame(m)) }

// write gives bytes to the library, which has to take them.
func (p *rawPeer) write(b []byte) {
	p.x.Within("reading what the peer sends", func() { p.c.Write(b) })
}

func readRawFrame(c net.Conn) (f *refFrame, raw []byte, err error) {
	h, err := readFullN(c, 12)
	if err != nil {
		return nil, nil, err
	}
	n := int(binary.LittleEndian.Uint32(h))
	if n < 12 || n > 64<<20 {
		return nil, nil, fmt.Errorf("library wrote a frame of length %d: % x", n, h)
	}
	b, err := readFullN(c, n-12)
	if err != nil {
		return nil, nil, err
	}
	raw = append(h, b...)
	f, _, err = parseFrame(raw)
	return f, raw, err
}

// pump reads and strictly decodes everything the library sends.
func (p *rawPeer) pump() {
	go func() {
		for {
			f, raw, err := readRawFrame(p.c)
			if err == nil {
				pf := &peerFrame{f: f, raw: raw}
				pf.m, err = specOfFrame(f)
				if err != nil {
					err = fmt.Errorf("%w (frame % x)", err, clipBytes(raw, 200))
					p.x.Report("library wrote a bad frame: %v", err)
				} else if f.Provider != p.prov {
					p.x.Report("security provider %d in a frame", f.Provider)
				} else {
					c := p.cfg
					if p.prov != 0 {
						c = crcCfg{NoCheckHdr: true}
					}
					if e := checkCRC(raw, !c.NoCheckHdr, c.CheckBody); e != nil && (!c.NoCheckHdr || c.CheckBody) {
						p.x.Report("library wrote a bad frame: %v", e)
					}
				}
				if err == nil {
					p.mu.Lock()
					p.in = append(p.in, pf)
					on := p.on
					p.mu.Unlock()
					if on != nil {
						on(pf)
					}
				}
			}
			if err != nil {
				p.mu.Lock()
				p.end = err
				p.mu.Unlock()
				return
			}
		}
	}()
}

func (p *rawPeer) all() []*peerFrame {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*peerFrame(nil), p.in...)
}

// ended tells whether the library closed or broke the connection.
func (p *rawPeer) ended() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.end
}

// user drops the connection's own messages (transport init, heartbeats).
func (p *rawPeer) user() []*peerFrame {
	var out []*peerFrame
	for _, f := range p.all() {
		if f.m.Actor != actorTransport {
			out = append(out, f)
		}
	}
	return out
}

func (p *rawPeer) userSeen() []seen {
	var out []seen
	for _, f := range p.user() {
		out = append(out, f.m.seen())
	}
	return out
}

// ---------------------------------------------------------------- reference secure end

// refSecure frames TLS handshake records in security messages, written from the format's description.
type refSecure struct {
	net.Conn
	mu    sync.Mutex
	rbuf  []byte
	done  bool
	sent  bool
	n     uint32
	hello []*peerFrame // frames of the library's handshake
	x     *X
	actor int64
}

const actorSecurity = 35 // SecurityContext

var dNegotiation = &Desc{K: "struct", Fields: []*Desc{{K: "bool"}, {K: "bool"}, dInit, {K: "u64"}}}
var dInit = &Desc{K: "struct", Fields: []*Desc{{K: "str"}, {K: "u64"}, {K: "guid"}, {K: "bool"}, {K: "u32"}}}

func (s *refSecure) Read(b []byte) (int, error) {
	if len(s.rbuf) == 0 {
		if s.done {
			return s.Conn.Read(b)
		}
		f, raw, err := readRawFrame(s.Conn)
		if err != nil {
			return 0, err
		}
		m, err := specOfFrame(f)
		if err != nil {
			s.x.Report("bad handshake frame: %v", err)
			return 0, err
		}
		s.hello = append(s.hello, &peerFrame{f: f, raw: raw, m: m})
		s.rbuf = f.Body
	}
	n := copy(b, s.rbuf)
	s.rbuf = s.rbuf[n:]
	return n, nil
}

func (s *refSecure) Write(b []byte) (int, error) {
	if s.done {
		return s.Conn.Write(b)
	}
	s.n++
	m := &msgSpec{ID: msgID{G: Val{U: 77, H: 88}, X: s.n}, Actor: s.actor, Body: append([]byte{}, b...)}
	if !s.sent {
		s.sent = true
		v := &Val{L: []*Val{{U: 1}, {U: 1}, {L: []*Val{{}, {}, {}, {}, {}}}, {}}}
		m.Custom = []customSpec{{ID: hNegotiation, Raw: refMarshal(dNegotiation, v, "")}}
	}
	if _, err := s.Conn.Write(m.frame(1, false, false)); err != nil {
		return 0, err
	}
	return len(b), nil
}

// secureClient and secureServer run the handshake of the reference side.
func refTLS(x *X, c net.Conn, cfg *tls.Config, server bool) (*tls.Conn, *refSecure, error) {
	s := &refSecure{Conn: c, x: x, actor: actorSecurity}
	var t *tls.Conn
	if server {
		t = tls.Server(s, cfg)
	} else {
		t = tls.Client(s, cfg)
	}
	err := t.Handshake()
	s.done = true
	return t, s, err
}

var (
	tlsOnce                         sync.Once
	tlsCA, tlsOtherCA               *x509.CertPool
	tlsServer, tlsClient, tlsForged tls.Certificate
	tlsManyCAs                      *x509.CertPool
	tlsIssuer                       func(inter bool) (*x509.Certificate, crypto.Signer, [][]byte)
	tlsMade                         = map[certSpec]tls.Certificate{}
	tlsMadeLock                     sync.Mutex
)

// certSpec is an unusual certificate.
type certSpec struct {
	Name  string
	Key   int  // ECDSA, RSA, Ed25519
	Chain bool // below an intermediate authority
	Fat   bool // has so many names that it takes several records
}

// certificate makes what is not made yet.
func (s certSpec) certificate() tls.Certificate {
	tlsMaterial()
	tlsMadeLock.Lock()
	defer tlsMadeLock.Unlock()
	if c, ok := tlsMade[s]; ok {
		return c
	}
	var k crypto.Signer
	switch s.Key {
	case 1:
		k, _ = rsa.GenerateKey(rand.Reader, 2048)
	case 2:
		_, k, _ = ed25519.GenerateKey(rand.Reader)
	default:
		k, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	parent, pk, rest := tlsIssuer(s.Chain)
	t := &x509.Certificate{SerialNumber: big.NewInt(3), Subject: pkix.Name{CommonName: s.Name}, DNSNames: []string{s.Name}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if s.Fat {
		for i := 0; i < 1500; i++ {
			t.DNSNames = append(t.DNSNames, fmt.Sprintf("node-%d.cluster.example.org", i))
		}
	}
	b, err := x509.CreateCertificate(rand.Reader, t, parent, k.Public(), pk)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	c := tls.Certificate{Certificate: append([][]byte{b}, rest...), PrivateKey: k}
	tlsMade[s] = c
	return c
}

// manyCAs is tlsCA among authorities nobody uses.
func manyCAs() *x509.CertPool {
	tlsMaterial()
	tlsMadeLock.Lock()
	defer tlsMadeLock.Unlock()
	if tlsManyCAs != nil {
		return tlsManyCAs
	}
	tlsManyCAs = tlsCA.Clone()
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	for i := 0; i < 300; i++ {
		t := &x509.Certificate{SerialNumber: big.NewInt(9), Subject: pkix.Name{CommonName: fmt.Sprintf("authority %d of a cluster with many tenants and much to say about each", i)}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		b, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		c, _ := x509.ParseCertificate(b)
		tlsManyCAs.AddCert(c)
	}
	return tlsManyCAs
}

func tlsMaterial() {
	tlsOnce.Do(func() {
		ca := func(name string) (*x509.Certificate, *ecdsa.PrivateKey) {
			k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
				IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
			b, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
			if err != nil {
				panic(harnessError(err.Error()))
			}
			c, _ := x509.ParseCertificate(b)
			return c, k
		}
		leaf := func(name string, c *x509.Certificate, ck *ecdsa.PrivateKey) tls.Certificate {
			k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
			b, err := x509.CreateCertificate(rand.Reader, t, c, &k.PublicKey, ck)
			if err != nil {
				panic(harnessError(err.Error()))
			}
			return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: k}
		}
		c1, k1 := ca("good")
		c2, k2 := ca("other")
		tlsCA, tlsOtherCA = x509.NewCertPool(), x509.NewCertPool()
		tlsCA.AddCert(c1)
		tlsOtherCA.AddCert(c2)
		ik, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		it := &x509.Certificate{SerialNumber: big.NewInt(4), Subject: pkix.Name{CommonName: "between"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		ib, err := x509.CreateCertificate(rand.Reader, it, c1, &ik.PublicKey, k1)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		ic, _ := x509.ParseCertificate(ib)
		tlsIssuer = func(inter bool) (*x509.Certificate, crypto.Signer, [][]byte) {
			if inter {
				return ic, ik, [][]byte{ib}
			}
			return c1, k1, nil
		}
		tlsServer, tlsClient, tlsForged = leaf("server", c1, k1), leaf("client", c1, k1), leaf("server", c2, k2)
	})
}

// tlsSpec is the part of a case that decides the TLS configuration of two ends.
type tlsSpec struct {
	Min     uint16 `json:"min,omitempty"`
	Max     uint16 `json:"max,omitempty"`
	Auth    int    `json:"auth,omitempty"` // tls.ClientAuthType of the server
	Cert    bool   `json:"cert,omitempty"` // client has a certificate
	Skip    bool   `json:"skip,omitempty"` // client does not verify
	Tickets bool   `json:"nt,omitempty"`   // tickets disabled
	GetCfg  bool   `json:"gc,omitempty"`   // server selects its configuration per client
	Suite   uint16 `json:"cs,omitempty"`
	Cache   bool   `json:"sc,omitempty"` // client resumes sessions, so servers give it tickets

	SKey   int    `json:"sk,omitempty"`   // kind of key of the server
	CKey   int    `json:"ck,omitempty"`   // of the client
	Chain  bool   `json:"ch,omitempty"`   // certificates come below an intermediate authority
	Fat    int    `json:"fat,omitempty"`  // 1 server, 2 client, 3 both have very long certificates
	CAs    bool   `json:"cas,omitempty"`  // the server names many authorities to its clients
	Curve  uint16 `json:"crv,omitempty"`  // the only one the server accepts, clients may have to say hello again
	Protos int    `json:"alpn,omitempty"` // protocols offered by both
}

func (s tlsSpec) plain() bool { return s.SKey == 0 && s.CKey == 0 && !s.Chain && s.Fat == 0 }

func (s tlsSpec) client() *tls.Config {
	tlsMaterial()
	c := &tls.Config{MinVersion: tls.VersionTLS10, RootCAs: tlsCA, ServerName: "server", InsecureSkipVerify: s.Skip}
	if s.Cert {
		c.Certificates = []tls.Certificate{tlsClient}
		if !s.plain() {
			c.Certificates[0] = certSpec{"client", s.CKey, s.Chain, s.Fat&2 != 0}.certificate()
		}
	}
	for i := 0; i < s.Protos; i++ {
		c.NextProtos = append(c.NextProtos, fmt.Sprintf("fabric/%d", s.Protos-i))
	}
	if s.Suite != 0 {
		c.CipherSuites = []uint16{s.Suite}
	}
	if s.Cache {
		c.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	}
	return c
}

func (s tlsSpec) server() *tls.Config {
	tlsMaterial()
	c := &tls.Config{MinVersion: s.Min, MaxVersion: s.Max, ClientAuth: tls.ClientAuthType(s.Auth), ClientCAs: tlsCA, Certificates: []tls.Certificate{tlsServer}, SessionTicketsDisabled: s.Tickets}
	if s.Min == 0 {
		c.MinVersion = tls.VersionTLS10
	}
	if !s.plain() {
		c.Certificates[0] = certSpec{"server", s.SKey, s.Chain, s.Fat&1 != 0}.certificate()
	}
	if s.CAs {
		c.ClientCAs = manyCAs()
	}
	if s.Curve != 0 {
		c.CurvePreferences = []tls.CurveID{tls.CurveID(s.Curve)}
	}
	for i := 0; i < s.Protos; i++ {
		c.NextProtos = append(c.NextProtos, fmt.Sprintf("fabric/%d", i+1))
	}
	if s.GetCfg {
		in := c.Clone()
		out := &tls.Config{MinVersion: c.MinVersion, MaxVersion: c.MaxVersion}
		out.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { return in, nil }
		return out
	}
	return c
}

var tlsVersions = []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13, 0}

// genTLS draws a configuration under which the handshake succeeds.
func genTLS(t *rapid.T) tlsSpec {
	s := tlsSpec{Max: pick(t, "tlsmax", tlsVersions), Auth: pick(t, "auth", []int{0, 0, 1, 2, 3, 4}), Cert: coin(t, "cert"), Skip: coin(t, "skip"), Tickets: oneIn(t, "notickets", 4), GetCfg: oneIn(t, "getcfg", 4)}
	if s.Auth == 2 || s.Auth == 4 {
		s.Cert = true
	}
	if s.Max != 0 && coin(t, "exact") {
		s.Min = s.Max
	}
	if oneIn(t, "suite", 3) {
		s.Suite = pick(t, "suiteid", []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA, tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA})
	}
	s.Cache = coin(t, "cache")
	if oneIn(t, "unusual", 3) {
		s.SKey, s.CKey, s.Chain = intn(t, "skey", 0, 2), intn(t, "ckey", 0, 2), coin(t, "chain")
		if s.Max != 0 && s.Max < tls.VersionTLS12 { // has no Ed25519
			s.SKey, s.CKey = s.SKey&1, s.CKey&1
		}
		if s.SKey == 1 && s.Suite != 0 {
			s.Suite = pick(t, "suitersa", []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA})
		}
		if oneIn(t, "fat", 4) {
			s.Fat = intn(t, "whofat", 1, 3)
		}
		s.CAs = oneIn(t, "cas", 6)
		s.Curve = pick(t, "curve", []uint16{0, 0, uint16(tls.CurveP384), uint16(tls.CurveP521), uint16(tls.X25519)})
		s.Protos = pick(t, "alpn", []int{0, 0, 1, 5})
	}
	return s
}

// ---------------------------------------------------------------- sinks: a library end fed by a raw peer

// sink is the library in one of its receiving roles, with a raw peer on the other side of the wire.
type sink struct {
	role    string
	x       *X
	peer    *rawPeer
	ep      *endpoint    // client
	rec     *recorder    // server
	up      *rawPeer     // proxy: the raw upstream
	ln      *simListener // server, proxy
	srv     *transport.Server
	serve   chan error
	ordered bool
	libConn *simConn
}

var sinkRoles = []string{"client", "server", "proxy"}

type sinkCfg struct {
	Role   string  `json:"role"`
	PL     netPlan `json:"pl"` // library's end
	PP     netPlan `json:"pp"` // peer's end
	Cfg    crcCfg  `json:"cfg"`
	Secure bool    `json:"sec,omitempty"`
	TLS    tlsSpec `json:"tls,omitempty"`
	Idle   int     `json:"idle,omitempty"` // hours the connection is idle first
}

// peerCfg is the configuration of a peer that is understood by and understands the library with configuration c.
func peerCfg(c crcCfg) crcCfg {
	return crcCfg{NoCheckHdr: c.NoGenHdr, NoGenHdr: c.NoCheckHdr, CheckBody: c.GenBody, GenBody: c.CheckBody}
}

func newSink(x *X, c sinkCfg) *sink {
	s := &sink{role: c.Role, x: x, ordered: true}
	lib, peer := simPipe(c.PL, c.PP, tcpAddr(1, 1000), tcpAddr(2, 19000))
	s.libConn = lib
	cfg := c.Cfg.lib()
	pc := peerCfg(c.Cfg)
	if c.Role != "client" {
		lib.local, lib.remote, peer.local, peer.remote = peer.local, peer.remote, lib.local, lib.remote
	}
	if c.Secure && c.Role == "client" {
		cfg.TLS = c.TLS.client()
	} else if c.Secure {
		cfg.TLS = c.TLS.server()
	}
	secure := func(server bool, conf *tls.Config) {
		s.peer = newRawPeer(x, peer, peer, pc)
		if c.Secure {
			var t *tls.Conn
			var err error
			x.Within("handshake", func() { t, _, err = refTLS(x, peer, conf, server) })
			if err != nil {
				x.Failf("handshake with the reference peer: %v", err)
			}
			s.peer.c, s.peer.prov = t, 1
		}
		s.peer.pump()
	}
	switch c.Role {
	case "client":
		var err error
		done := make(chan struct{})
		go func() { defer close(done); s.ep, err = newEndpoint(x, lib, cfg) }()
		srv := c.TLS.server()
		if srv.ClientAuth != tls.NoClientCert {
			srv.SessionTicketsDisabled = true // the reference server must not send tickets late either
		}
		if c.TLS.GetCfg {
			srv, _ = srv.GetConfigForClient(nil)
			srv.SessionTicketsDisabled = true
		}
		secure(true, srv)
		x.Within("Connect", func() { <-done })
		if err != nil {
			x.Failf("Connect: %v", err)
		}
		x.Cleanup(func() { lib.Close() })
		s.ep.start()
		s.rec = &s.ep.recorder
	case "server":
		s.ordered = false
		s.rec = &recorder{x: x}
		s.ln = newSimListener(tcpAddr(2, 19000))
		s.srv, _ = transport.Listen(s.ln, transport.ServerConfig{Config: cfg, MessageCallback: s.rec.onMessage})
		s.serve = make(chan error, 1)
		go func() { s.serve <- s.srv.Serve() }()
		s.ln.push(acceptItem{c: lib})
		x.Cleanup(func() { s.srv.Close(); lib.Close() })
		secure(false, c.TLS.client())
	case "proxy":
		s.ln = newSimListener(tcpAddr(2, 19000))
		ua, ub := simPipe(c.PL, c.PP, tcpAddr(3, 999), tcpAddr(4, 998))
		s.up = newRawPeer(x, ub, ub, crcCfg{})
		s.up.pump()
		pr, err := transport.NewPiper(s.ln, transport.PiperConfig{Config: cfg, FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
			return ua, transport.Config{}, nil
		}})
		if err != nil {
			x.Failf("NewPiper: %v", err)
		}
		s.serve = make(chan error, 1)
		go func() { s.serve <- pr.Serve() }()
		s.ln.push(acceptItem{c: lib})
		x.Cleanup(func() { s.ln.Close(); lib.Close() })
		secure(false, c.TLS.client())
	}
	return s
}

// delivered is what the library handed on: to the callback, or to the proxy's upstream.
func (s *sink) delivered() []seen {
	if s.up != nil {
		return s.up.userSeen()
	}
	return s.rec.seen()
}

func (s *sink) match(want []seen) string {
	if s.ordered {
		return matchSeq(s.role, s.delivered(), want)
	}
	return matchSet(s.role, s.delivered(), want)
}

// ended tells whether the library ended the connection; for a client also whether it reported an error.
func (s *sink) ended() (bool, string) {
	if s.ep != nil {
		if !s.ep.ended() {
			return false, "Wait has not returned"
		}
		if s.ep.err == nil {
			return true, "Wait returned no error"
		}
	}
	if s.peer.ended() == nil {
		return false, "the connection is still open"
	}
	return true, ""
}
