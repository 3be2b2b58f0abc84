From 89c028d9b57de18c4b45d2098d864b2dbb433f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 01/45] fix: reject char wire values in uint8 fields (and uchar
 in int8) instead of panicking

---
 serialization/unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..42d6cd4 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -167,6 +167,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 
 	switch rv.Kind() {
 	case reflect.Uint8, reflect.Int8:
+		if meta != kindToFabricSerializationType(rv.Kind()) {
+			return fmt.Errorf("expect char/uchar got %v", meta)
+		}
+
 		v, err := s.inner.ReadByte()
 
 		if err != nil {
-- 
2.43.0


From d907ab6ebfb573d820fdc81c462d3c1ebf2531c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 02/45] fix: do not allocate strings and slices from counts
 larger than the data

---
 serialization/unmarshal.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 42d6cd4..878d0a5 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -236,6 +236,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -309,9 +313,17 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
+		// the count is not trusted, every element takes at least its type meta
+		if len > s.inner.Len() {
+			return io.ErrUnexpectedEOF
+		}
+
+		// grown while elements are read, a forged count must not allocate upfront
+		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), 0, 0)
+		zero := reflect.Zero(rv.Type().Elem())
 
 		for i := 0; i < len; i++ {
+			objs = reflect.Append(objs, zero)
 
 			meta, err := s.readTypeMeta()
 			if err != nil {
-- 
2.43.0


From c6d41d0948217e2f917e15e38a3dce460d9856da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 03/45] fix: reject objects whose size ends before their
 content

---
 serialization/unmarshal.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 878d0a5..3dc2af3 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -97,7 +97,10 @@ func (s *decodeState) readObjectBegin(meta FabricSerializationType) (int64, erro
 		return -1, err
 	}
 
-	binary.Read(s.inner, binary.LittleEndian, &objectheader)
+	if err := binary.Read(s.inner, binary.LittleEndian, &objectheader); err != nil {
+		return -1, err
+	}
+
 	if objectheader.Flag&headerFlagsContainsTypeInformation == headerFlagsContainsTypeInformation {
 
 		// TODO no obj activator in go, discard type info at the moment
@@ -123,12 +126,26 @@ func (s *decodeState) readObjectBegin(meta FabricSerializationType) (int64, erro
 	return headerPosition + int64(objectheader.Size) - 2, nil
 }
 
-func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int64) error {
+func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int64, scopeEnded bool) error {
 	if meta != FabricSerializationTypeObject {
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	if scopeEnded {
+		pos-- // read by the caller already
+	}
+
+	// only unknown trailing fields can be skipped, never move backwards
+	if endpos < pos {
+		return fmt.Errorf("object size mismatch, content ends at %v, expect %v", pos, endpos)
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
@@ -273,6 +290,8 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		scopeEnded := false
+
 		for _, field := range allFields(rv) {
 			meta, err := s.readTypeMeta()
 			if err != nil {
@@ -280,6 +299,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				scopeEnded = true
 				break
 			}
 
@@ -289,7 +309,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 		}
 
-		err = s.consumeObjectEnd(meta, endPos)
+		err = s.consumeObjectEnd(meta, endPos, scopeEnded)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c628c875f682b8a0532ecba3aab211d8ce87c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 04/45] fix: write a byte for zero in
 Encoder.WriteCompressedUInt32 so it can be read back

---
 serialization/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialization/marshal.go b/serialization/marshal.go
index 7c52f6d..9c26d58 100644
--- a/serialization/marshal.go
+++ b/serialization/marshal.go
@@ -22,6 +22,11 @@ func (s *encodeState) WriteBinary(v interface{}) error {
 }
 
 func (s *encodeState) WriteCompressedUInt32(v uint32) error {
+	if v == 0 {
+		// ReadCompressedUInt32 always takes at least one byte
+		return s.buf.WriteByte(0)
+	}
+
 	return s.writeCompressedUint32(v)
 }
 
-- 
2.43.0


From 3c06f44e596693fbbd3fbe2a1c9e4c79be6e6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 05/45] fix: reject an array of guids where a guid is expected

---
 serialization/guid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/guid.go b/serialization/guid.go
index d7ffa34..7e9b06b 100644
--- a/serialization/guid.go
+++ b/serialization/guid.go
@@ -120,7 +120,7 @@ func (g *GUID) Marshal(s Encoder) error {
 
 func (g *GUID) Unmarshal(meta FabricSerializationType, s Decoder) error {
 
-	if !IsBaseMeta(meta, FabricSerializationTypeGuid) {
+	if !IsBaseMeta(meta, FabricSerializationTypeGuid) || IsArrayMeta(meta) {
 		return fmt.Errorf("expect guid get %v", meta)
 	}
 
-- 
2.43.0


From df470cd31d7c0a738966aaf844cea1e807e688a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 06/45] fix: saturate TimeSpan.ToDuration instead of
 overflowing

---
 common/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..54a200b 100644
--- a/common/time.go
+++ b/common/time.go
@@ -20,5 +20,13 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 }
 
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From c21a0403b21db525e5f23b52544b05a8ff4e2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 07/45] fix: include ids between the start and the top of the
 ring in wrapped node id ranges

---
 federation/nodeid_range.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..fed6071 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -15,16 +15,8 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 	i := uint128(id)
 
 	if s.cmp(e) > 0 {
-
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
-			return true
-		}
-
-		if u128zero.cmp(i) <= 0 && i.cmp(e) <= 0 {
-			return true
-		}
-
-		return false
+		// wraps past the top of the ring
+		return s.cmp(i) <= 0 || i.cmp(e) <= 0
 	}
 
 	return s.cmp(i) <= 0 && i.cmp(e) <= 0
-- 
2.43.0


From 8e5a78e7d4cf444f27be3846246a825a485cfeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 08/45] fix: reject signed and longer than 128 bit text in
 NodeIDFromHex

---
 federation/nodeid_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..7ca9cfc 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -17,7 +17,7 @@ func NodeIDFromHex(v string) (NodeID, error) {
 
 	i, ok := new(big.Int).SetString(v, 16)
 
-	if !ok {
+	if !ok || strings.ContainsAny(v, "+-") || i.BitLen() > 128 {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
-- 
2.43.0


From 5d401b6a2306ab270afd0fff091179bad571040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 09/45] fix: do not panic in NodeIDFromV4Generator for names
 without a separator

---
 federation/nodeid_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index 7ca9cfc..7d472ea 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -91,6 +91,10 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
 
+	if idx < 0 {
+		return
+	}
+
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
 
-- 
2.43.0


From d8a2fce5aeca9acb2cd382ef5e4aafbea2374ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 10/45] fix: validate frame lengths before reading a frame body

---
 transport/frame.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..5f6c1c1 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,13 +61,30 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
-	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
+	if header.FrameLength < uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("frame length %v shorter than frame header", header.FrameLength)
+	}
+
+	bodyLen := header.FrameLength - uint32(sizeOfFrameheader)
+
+	if uint32(header.HeaderLength) > bodyLen {
+		return nil, nil, fmt.Errorf("message headers length %v exceeds frame", header.HeaderLength)
+	}
+
+	// grown while data arrives, the length is not trusted
+	var bodybuf bytes.Buffer
+
+	_, err = io.CopyN(&bodybuf, r, int64(bodyLen))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 
-	_, err = io.ReadFull(r, body)
 	if err != nil {
 		return nil, nil, err
 	}
 
+	body := bodybuf.Bytes()
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From 6013693756f42eef216fe4ffb9be18917985c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 11/45] fix: reject messages whose last header is cut off

---
 transport/messageheaders.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..1991598 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -239,6 +239,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF // EOF is the end of headers only before an id
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
@@ -246,6 +249,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
-- 
2.43.0


From 9722fb3c4a830b5b0169b4ca66998fb5fe39fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 12/45] fix: write a frame at once so concurrent senders do not
 interleave

---
 transport/frame.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 5f6c1c1..dab88de 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -126,11 +126,15 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	var frame bytes.Buffer
+	err = binary.Write(&frame, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	frame.Write(msg)
+
+	// a single write, senders on the same connection must not interleave
+	_, err = w.Write(frame.Bytes())
 	return err
 }
-- 
2.43.0


From 65e9e7948ae31e6f400055156ef100eab5799360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 13/45] fix: refuse to send message headers exceeding their 16
 bit lengths

---
 transport/message.go        | 5 +++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/transport/message.go b/transport/message.go
index 054c3df..4d50ebc 100644
--- a/transport/message.go
+++ b/transport/message.go
@@ -2,7 +2,9 @@ package transport
 
 import (
 	"bytes"
+	"fmt"
 	"io"
+	"math"
 	"sync/atomic"
 
 	"github.com/tg123/phabrik/serialization"
@@ -27,6 +29,9 @@ func (m *Message) marshal() (int, []byte, error) {
 	}
 
 	headerLen := buf.Len()
+	if headerLen > math.MaxUint16 {
+		return 0, nil, fmt.Errorf("message headers too long: %v bytes", headerLen)
+	}
 
 	if m.Body != nil {
 		b, ok := m.Body.([]byte)
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 1991598..5c4c7d8 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v too long: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From 856643c6c9cf00b19bf499c091899db4205e20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 14/45] fix: append to custom headers already present

---
 transport/messageheaders.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 5c4c7d8..41340a6 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -107,12 +107,11 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
+	if len(header) > 0 {
 		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
 	}
 
-	return false
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 84e59990cd196c01ab10ed0ee44a67a61425d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 15/45] fix: do not block the read loop on replies to abandoned
 requests

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..06899c3 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // never blocks Feed, Wait may have given up
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From 3bbf60722b1c7a9240ee03a191d200b39ecdfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 16/45] fix: report write errors during the tls handshake

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 026a51fdd6ceb8136fe4e4929820c0a978dd9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 17/45] fix: match heartbeat responses to the ping they answer,
 ignore all others

---
 transport/conn.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..ecde44e 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -36,7 +36,9 @@ type connection struct {
 	conn            net.Conn
 	requestTable    RequestTable
 	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           map[int64]chan struct{} // outstanding pings by time tick
+	lastPingTick    int64
+	closed          chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -54,7 +56,8 @@ func newConnection(config Config) (*connection, error) {
 
 	c := &connection{
 		msgfac: mf,
-		pingCh: make(chan int64),
+		pings:  make(map[int64]chan struct{}),
+		closed: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +135,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closed)
 		c.requestTable.Close()
 	})
 
@@ -144,11 +147,25 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	start := time.Now()
 
 	var b heartbeat
-	b.HeartbeatTimeTick = time.Now().UnixNano()
+	b.HeartbeatTimeTick = start.UnixNano()
+	done := make(chan struct{})
+
+	c.pinglock.Lock()
+	if b.HeartbeatTimeTick <= c.lastPingTick {
+		b.HeartbeatTimeTick = c.lastPingTick + 1 // a response must not match another ping
+	}
+	c.lastPingTick = b.HeartbeatTimeTick
+	c.pings[b.HeartbeatTimeTick] = done
+	c.pinglock.Unlock()
+
+	defer func() {
+		c.pinglock.Lock()
+		delete(c.pings, b.HeartbeatTimeTick)
+		c.pinglock.Unlock()
+	}()
 
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
@@ -164,11 +181,10 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
-		}
-		return time.Since(time.Unix(0, t)), nil
+	case <-c.closed:
+		return -1, fmt.Errorf("connection closed")
+	case <-done:
+		return time.Since(start), nil
 	}
 }
 
@@ -193,7 +209,14 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		c.pinglock.Lock()
+		done, ok := c.pings[b.HeartbeatTimeTick]
+		delete(c.pings, b.HeartbeatTimeTick)
+		c.pinglock.Unlock()
+
+		if ok {
+			close(done)
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From 0536b26c64426348c963f60b4a6b32f10e4a9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 18/45] fix: synchronize the connection auth error and message
 callback with their readers

---
 transport/conn.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index ecde44e..427ba4a 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -45,9 +45,22 @@ type connection struct {
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
+	statelock sync.Mutex // guards fatalerr and messageCallback
 	fatalerr  error
 }
 
+func (c *connection) setFatalError(err error) {
+	c.statelock.Lock()
+	defer c.statelock.Unlock()
+	c.fatalerr = err
+}
+
+func (c *connection) fatalError() error {
+	c.statelock.Lock()
+	defer c.statelock.Unlock()
+	return c.fatalerr
+}
+
 func newConnection(config Config) (*connection, error) {
 	mf, err := newMessageFactory()
 	if err != nil {
@@ -128,6 +141,8 @@ func (c *connection) setTls() {
 }
 
 func (c *connection) SetMessageCallback(cb MessageCallback) {
+	c.statelock.Lock()
+	defer c.statelock.Unlock()
 	c.messageCallback = cb
 }
 
@@ -293,24 +308,29 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.setFatalError(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message))
 
 				return c.Close()
 			}
 		}
 
 		if !c.requestTable.Feed(msg) {
-			if c.messageCallback != nil {
-				c.messageCallback(c, msg)
+			c.statelock.Lock()
+			cb := c.messageCallback
+			c.statelock.Unlock()
+
+			if cb != nil {
+				cb(c, msg)
 			}
 		}
 	}
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	if err := c.fatalError(); err != nil {
+		return err
 	}
+
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
 }
-- 
2.43.0


From 2301c6b351bfb58c7ea7f8a6df094cfc1a226888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 19/45] fix: end requests and pings with their context while
 the write is blocked

---
 transport/conn.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 427ba4a..c440c31 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -1,6 +1,7 @@
 package transport
 
 import (
+	"bytes"
 	"context"
 	"crypto/tls"
 	"fmt"
@@ -188,7 +189,7 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	msg.Headers.Action = "HeartbeatRequest"
 	msg.Body = &b
 
-	err := c.SendOneWay(msg)
+	err := c.sendOneWayContext(ctx, msg)
 	if err != nil {
 		return -1, err
 	}
@@ -335,13 +336,50 @@ func (c *connection) SendOneWay(message *Message) error {
 	return c.writeMessageWithFrame(message)
 }
 
+// sendOneWayContext gives up when ctx ends, even if the peer does not read and the write is stuck
+func (c *connection) sendOneWayContext(ctx context.Context, message *Message) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
+	if ctx.Done() == nil {
+		return c.SendOneWay(message)
+	}
+
+	if err := c.fatalError(); err != nil {
+		return err
+	}
+
+	c.msgfac.fillMessageId(message)
+
+	// the message belongs to the caller, it is not touched after return
+	var frame bytes.Buffer
+	if err := writeMessageWithFrame(&frame, message, c.frameWCfg); err != nil {
+		return err
+	}
+
+	sent := make(chan error, 1)
+
+	go func() {
+		_, err := c.conn.Write(frame.Bytes())
+		sent <- err
+	}()
+
+	select {
+	case err := <-sent:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (c *connection) RequestReply(ctx context.Context, message *Message) (*ByteArrayMessage, error) {
 	c.msgfac.fillMessageId(message)
 	message.Headers.ExpectsReply = true
 	pr := c.requestTable.Put(message)
 	defer pr.Close()
 
-	if err := c.SendOneWay(message); err != nil {
+	if err := c.sendOneWayContext(ctx, message); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 359769932e15cc302681f4a931abe47e84177fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 20/45] fix: do not send session tickets in frames the client
 no longer expects

---
 transport/tls.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..2d63ee4 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -42,7 +42,47 @@ func createTlsClientConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config)
 }
 
 func createTlsServerConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, initbuf []byte) (*tls.Conn, error) {
-	return createTlsConn(conn, mf, tlsconf, tls.Server, initbuf)
+	return createTlsConn(conn, mf, withoutLateTickets(tlsconf), tls.Server, initbuf)
+}
+
+// withoutLateTickets disables TLS 1.3 session tickets, when client certificates are requested they are sent after the
+// client has finished its handshake and stopped expecting framed records
+func withoutLateTickets(tlsconf *tls.Config) *tls.Config {
+	if tlsconf.ClientAuth == tls.NoClientCert && tlsconf.GetConfigForClient == nil {
+		return tlsconf
+	}
+
+	conf := tlsconf.Clone()
+	conf.GetConfigForClient = func(hello *tls.ClientHelloInfo) (*tls.Config, error) {
+		selected := tlsconf
+
+		if tlsconf.GetConfigForClient != nil {
+			c, err := tlsconf.GetConfigForClient(hello)
+			if err != nil {
+				return nil, err
+			}
+
+			if c != nil {
+				selected = c
+			}
+		}
+
+		if selected.ClientAuth == tls.NoClientCert || selected.MaxVersion != 0 && selected.MaxVersion < tls.VersionTLS13 {
+			return selected, nil
+		}
+
+		for _, version := range hello.SupportedVersions {
+			if version == tls.VersionTLS13 {
+				selected = selected.Clone()
+				selected.SessionTicketsDisabled = true
+				break
+			}
+		}
+
+		return selected, nil
+	}
+
+	return conf
 }
 
 func (c *fabricSecureConn) handshakeComplete() bool {
-- 
2.43.0


From 46b10009e96ed054d94de90edb4afe10bade1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 21/45] fix: check the first proxied frame as configured,
 handshake frames carry no checksum

---
 transport/piper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..4414b58 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -36,8 +36,8 @@ func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		CheckFrameHeaderCRC: p.config.TLS == nil && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   p.config.TLS == nil && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From 3dfdd8bf2401677c33b36b2723bb940d280e7839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 22/45] fix: run the first proxied message through the filter

---
 transport/piper.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 4414b58..bd0b470 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -61,11 +61,11 @@ func (p *Piper) handle(conn net.Conn) error {
 
 	if p.config.TLS == nil {
 		// pass first message is unused if not secure conn
-		if err := u.writeMessageWithFrame(&Message{
+		if err := p.forward(d, u, &ByteArrayMessage{
 			Headers: *headers,
 			Body:    body,
 		}); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -122,31 +122,29 @@ func (p *Piper) copy(src, dst *connection) error {
 
 		body := framebody[frameheader.HeaderLength:]
 
-		msg := &ByteArrayMessage{
+		if err := p.forward(src, dst, &ByteArrayMessage{
 			Headers: *headers,
 			Body:    body,
+		}); err != nil {
+			return err
 		}
+	}
+}
 
-		var newmsg *Message
+func (p *Piper) forward(src, dst *connection, msg *ByteArrayMessage) error {
+	newmsg := &Message{
+		Headers: msg.Headers,
+		Body:    msg.Body,
+	}
 
-		if p.config.Filter != nil {
-			newmsg = p.config.Filter(src.conn, dst.conn, msg)
-
-			if newmsg == nil {
-				// drop message
-				continue
-			}
-		}
+	if p.config.Filter != nil {
+		newmsg = p.config.Filter(src.conn, dst.conn, msg)
 
 		if newmsg == nil {
-			newmsg = &Message{
-				Headers: msg.Headers,
-				Body:    msg.Body,
-			}
-		}
-
-		if err := writeMessageWithFrame(dst.conn, newmsg, dst.frameWCfg); err != nil {
-			return err
+			// drop message
+			return nil
 		}
 	}
+
+	return writeMessageWithFrame(dst.conn, newmsg, dst.frameWCfg)
 }
-- 
2.43.0


From 801ee451e4bb7dead605604ca7038baf588d0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 23/45] fix: close the proxied upstream when it cannot be set
 up

---
 transport/piper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/piper.go b/transport/piper.go
index bd0b470..201528a 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -54,6 +54,8 @@ func (p *Piper) handle(conn net.Conn) error {
 		return err
 	}
 
+	defer rawu.Close()
+
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
 		return err
-- 
2.43.0


From 51e32dde0d68df8d9709239870e6d227d34facc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 24/45] fix: validate lease frame sizes and skip connect frames
 without recursion

---
 lease/frame.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..77fbc14 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -24,27 +25,34 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			continue
+		case ltFrametypeMessage:
+			if header.FrameSize < uint32(sizeOfLtFrameheader) {
+				return nil, fmt.Errorf("frame size %v shorter than frame header", header.FrameSize)
+			}
+
+			// grown while data arrives, the size is not trusted
+			var body bytes.Buffer
+
+			_, err = io.CopyN(&body, r, int64(header.FrameSize-uint32(sizeOfLtFrameheader)))
+			if err != nil {
+				return nil, err
+			}
+
+			return body.Bytes(), nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From 5201d92cf26ff7117cd02d45e96ecd345564adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 25/45] fix: check the listen endpoint bounds of lease messages

---
 lease/serialize.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..2d7ef70 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,14 +124,10 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
-	}
-
-	if ed >= uint32(len(data)) {
+	if ed > uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
@@ -170,6 +166,11 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		// at least the terminator of the address
+		if len(d) < sizeofUint16+sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
-- 
2.43.0


From e129f0e91d69541b61572f95fd5f1efcdb83aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 26/45] fix: write a lease frame at once so concurrent pings do
 not interleave

---
 lease/frame.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index 77fbc14..1ea98e4 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -70,15 +70,16 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
-	if err != nil {
-		return err
-	}
+	var frame bytes.Buffer
 
-	err = binary.Write(w, binary.LittleEndian, message)
+	err := binary.Write(&frame, binary.LittleEndian, &h)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	frame.Write(message)
+
+	// a single write, concurrent pings must not interleave
+	_, err = w.Write(frame.Bytes())
+	return err
 }
-- 
2.43.0


From 50a542a024df2399d4e2baf2766a7e5bf543d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 27/45] fix: track every lease session of an agent, close them
 and stop serving with it

---
 lease/agent.go | 99 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 24 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..8de8a83 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -46,17 +46,16 @@ type Agent struct {
 	LocalInstance int64
 	config        AgentConfig
 	marshaller    marshalContext
-	sessions      sync.Map
 	listener      net.Listener
 	dial          Dialer
+
+	lock     sync.Mutex // guards closed and sessions
+	closed   bool
+	sessions map[string][]*leaseSession // by address, latest last
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -75,6 +74,7 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
+		sessions:      make(map[string][]*leaseSession),
 	}
 	a.config = config
 
@@ -102,6 +102,14 @@ func (a *Agent) Addr() net.Addr {
 }
 
 func (a *Agent) Establish(addr string) (Session, error) {
+	a.lock.Lock()
+	closed := a.closed
+	a.lock.Unlock()
+
+	if closed {
+		return nil, errAgentClosed
+	}
+
 	s := leaseSession{
 		addr:          addr,
 		parent:        a,
@@ -114,13 +122,54 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
-	a.sessions.Store(addr, &s)
+	a.lock.Lock()
+	closed = a.closed // while dialing
+	if !closed {
+		a.sessions[addr] = append(a.sessions[addr], &s)
+	}
+	a.lock.Unlock()
+
+	if closed {
+		s.Close()
+		return nil, errAgentClosed
+	}
 
 	return &s, nil
 }
 
 func (a *Agent) Find(addr string) (Session, bool) {
-	return nil, false
+	sessions := a.sessionsOf(addr)
+	if len(sessions) == 0 {
+		return nil, false
+	}
+
+	return sessions[len(sessions)-1], true
+}
+
+func (a *Agent) sessionsOf(addr string) []*leaseSession {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	return append([]*leaseSession(nil), a.sessions[addr]...)
+}
+
+func (a *Agent) removeSession(s *leaseSession) {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	var others []*leaseSession
+
+	for _, o := range a.sessions[s.addr] {
+		if o != s {
+			others = append(others, o)
+		}
+	}
+
+	if len(others) == 0 {
+		delete(a.sessions, s.addr)
+	} else {
+		a.sessions[s.addr] = others
+	}
 }
 
 func (a *Agent) Wait() error {
@@ -130,7 +179,11 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
@@ -138,15 +191,19 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
-	a.dial = closedDialer
+	a.lock.Lock()
+	a.closed = true
+	var all []*leaseSession
+	for _, sessions := range a.sessions {
+		all = append(all, sessions...)
+	}
+	a.lock.Unlock()
+
 	a.listener.Close()
-	a.sessions.Range(func(key, value interface{}) bool {
-		if s, ok := value.(Session); ok {
-			s.Close()
-		}
 
-		return true
-	})
+	for _, s := range all {
+		s.Close()
+	}
 
 	return nil
 }
@@ -173,14 +230,8 @@ func (a *Agent) handleIncoming(conn net.Conn) error {
 			return err
 		}
 
-		s, ok := a.sessions.Load(m.MessageListenEndpoint)
-		if !ok {
-			continue
-		}
-
-		ls, ok := s.(*leaseSession)
-		if ok {
-			ls.onMessage(m)
+		for _, s := range a.sessionsOf(m.MessageListenEndpoint) {
+			s.onMessage(m)
 		}
 	}
 }
@@ -241,7 +292,7 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.removeSession(s)
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From a318acd9c5f67bdddda86f42db23435d861255d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 28/45] fix: complete lease pings only by responses that arrive
 after they start

---
 lease/agent.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 8de8a83..a540398 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -114,6 +114,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		closedCh:      make(chan int),
 		localInstance: uniqId(),
 	}
 
@@ -278,8 +279,9 @@ type leaseSession struct {
 	connected bool
 	objLock   sync.Mutex
 
+	closedCh chan int
 	pingCh   chan int
-	pingLock sync.RWMutex
+	pingLock sync.RWMutex // guards pingCh, lastpong and remoteInstance
 	lastpong time.Time
 }
 
@@ -302,7 +304,7 @@ func (s *leaseSession) Close() error {
 
 	s.closed = true
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
+	close(s.closedCh) // unlock waiting pings
 
 	return nil
 }
@@ -341,7 +343,25 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	if err := writeDataWithFrame(s.conn, data); err != nil {
+	// before the request is sent, the response may come at once
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
+	sent := make(chan error, 1)
+
+	go func() {
+		sent <- writeDataWithFrame(s.conn, data)
+	}()
+
+	// the write is stuck if the peer does not read
+	select {
+	case err = <-sent:
+	case <-ctx.Done():
+		err = ctx.Err()
+	}
+
+	if err != nil {
 		if neterr, ok := err.(net.Error); ok {
 			if !neterr.Temporary() {
 				s.objLock.Lock()
@@ -358,19 +378,20 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-s.closedCh:
+		return fmt.Errorf("session closed")
 	case <-ch:
 		return nil
 	}
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
+
 	return s.lastpong
 }
 
@@ -380,15 +401,15 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
-		s.lastpong = time.Now()
-		s.remoteInstance = m.RemoteLeaseAgentInstance
-		s.boardcastPong()
+		s.boardcastPong(m.RemoteLeaseAgentInstance)
 	default:
 	}
 }
 
-func (s *leaseSession) boardcastPong() {
+func (s *leaseSession) boardcastPong(remoteInstance int64) {
 	s.pingLock.Lock()
+	s.lastpong = time.Now()
+	s.remoteInstance = remoteInstance
 	ch := s.pingCh
 	s.pingCh = make(chan int)
 	close(ch)
@@ -400,6 +421,8 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
 	return &message
 }
-- 
2.43.0


From f736918167bff1ca5fef4f9f27253a828bbfbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 29/45] fix: return the closest partner instead of the last one
 iterated

---
 federation/sitenode_parteners.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..5307074 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -48,12 +48,14 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 	max := u128max
 
 	for _, p := range s.KnownPartnerNodes(filter) {
+		p := p
+
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
 			return &p
 		}
 
-		if diff.cmp(max) < 0 {
+		if cur == nil || diff.cmp(max) < 0 {
 			max = diff
 			cur = &p
 		}
-- 
2.43.0


From ed8423a9d342529395d5d246a259f6a4adbc835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 30/45] fix: compare and store partner information atomically

---
 federation/sitenode_parteners.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 5307074..83ba1e0 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,17 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
+	p := h.PartnerNodeInfo
 
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[h.Instance.Id]
+	newer := !found || old.Instance.InstanceId < h.Instance.InstanceId
+	if newer {
 		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	}
+	s.partenersRWLock.Unlock()
+
+	if newer {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 7be57eeb2d93f60fc486302c998286836bf8e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 31/45] fix: do not miss phase changes while bootstrapping

---
 federation/sitenode.go        | 20 ++++++++++++++------
 federation/sitenode_boot.go   | 25 ++++++++++++++-----------
 federation/sitenode_sender.go |  3 ++-
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..0fac0d4 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -95,14 +95,22 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 	return &s, nil
 }
 
-func (s *SiteNode) changePhase(newPhase NodePhase) {
-	if s.phase == newPhase {
-		return
-	}
+// currentPhase returns the phase and a channel closed when it changes
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
 
+func (s *SiteNode) changePhase(oldPhase, newPhase NodePhase) {
 	s.phaseLock.Lock()
 	defer s.phaseLock.Unlock()
 
+	if s.phase != oldPhase || s.phase == newPhase {
+		return
+	}
+
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
@@ -110,8 +118,8 @@ func (s *SiteNode) changePhase(newPhase NodePhase) {
 
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
-		s.changePhase(NodePhaseJoining)
+	if p.Phase == NodePhaseRouting {
+		s.changePhase(NodePhaseBooting, NodePhaseJoining)
 	}
 }
 
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..8961612 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,22 +10,25 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		// before pinging, the change must not be missed
+		phase, changed := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
-			if err := s.votePing(seed.Id); err != nil {
-				log.Printf("send vote ping to %v failed %v", seed.Address, err)
-			}
+			// connecting may take long, other seeds and ctx do not wait for it
+			go func(seed SeedNodeInfo) {
+				if err := s.votePing(seed.Id); err != nil {
+					log.Printf("send vote ping to %v failed %v", seed.Address, err)
+				}
+			}(seed)
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-changed:
+			// check phase
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..c1105f5 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -92,6 +92,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 }
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
+	phase, _ := s.currentPhase()
 
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
@@ -99,7 +100,7 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From d5a14a5ef909d681b420d7efbac4a0b653054c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 32/45] fix: ping every discovered node, not only the last one

---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 8961612..96bcb36 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -57,12 +57,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 5b17b93b127495d5d8804522126cb5a949ac4a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 33/45] fix: stamp federation headers on a copy so a message
 can be sent again

---
 federation/sitenode_sender.go | 14 ++++++++++++--
 transport/messageheaders.go   | 12 ++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index c1105f5..e09e749 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -113,18 +113,27 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 	}
 }
 
+// cloneMessage makes a copy to stamp, the original may be sent again, to another node or when more partners are known
+func cloneMessage(origin *transport.Message) *transport.Message {
+	return &transport.Message{
+		Headers: origin.Headers.Clone(),
+		Body:    origin.Body,
+	}
+}
+
 func (s *SiteNode) fillMessageId(message *transport.Message) {
 	if message.Headers.Id.IsEmpty() {
 		message.Headers.Id = s.messageIdGenerator.Next()
 	}
 }
 
-func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
+func (s *SiteNode) SendOneWay(id NodeID, origin *transport.Message) error {
 	c, t, err := s.connectToNode(id, true)
 	if err != nil {
 		return err
 	}
 
+	msg := cloneMessage(origin)
 	s.fillMessageId(msg)
 	s.appendPartnerInfo(msg)
 
@@ -138,12 +147,13 @@ func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
 	return c.SendOneWay(msg)
 }
 
-func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message) (*transport.ByteArrayMessage, error) {
+func (s *SiteNode) Route(ctx context.Context, id NodeID, origin *transport.Message) (*transport.ByteArrayMessage, error) {
 	c, t, err := s.connectToNode(id, false)
 	if err != nil {
 		return nil, err
 	}
 
+	msg := cloneMessage(origin)
 	s.fillMessageId(msg)
 	s.appendPartnerInfo(msg)
 
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 41340a6..96aa1b7 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -75,6 +75,18 @@ func RegisterHeaderActivator(typ MessageHeaderIdType, activator HeaderTypeActiva
 	headerTypeActivators[typ] = activator
 }
 
+// Clone returns a copy of the headers, setting or appending custom headers to the copy leaves the original unchanged
+func (h *MessageHeaders) Clone() MessageHeaders {
+	c := *h
+	c.customHeaders = make(map[MessageHeaderIdType][]interface{}, len(h.customHeaders))
+
+	for typ, headers := range h.customHeaders {
+		c.customHeaders[typ] = append([]interface{}(nil), headers...)
+	}
+
+	return c
+}
+
 func (h *MessageHeaders) GetCustomHeaders(typ MessageHeaderIdType) []interface{} {
 	return h.customHeaders[typ]
 }
-- 
2.43.0


From b8862d28ae1fbd3e9b5f4b881c3403127005861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 34/45] fix: never return or close another generation of a
 pooled federation connection

---
 federation/sitenode_sender.go | 76 +++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index e09e749..6ed53ee 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -14,63 +14,77 @@ type Dialer func(addr string) (*transport.Client, error)
 type cachedConn struct {
 	parent  *SiteNode
 	partner *PartnerNodeInfo
+	ready   chan struct{} // closed when conn or lasterr is set
 	conn    *transport.Client
-	init    sync.Once
-	close   sync.Once
 	lasterr error
+
+	lock   sync.Mutex // guards closed, and conn until ready
+	closed bool
 }
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
+func (c *cachedConn) dial() {
+	defer close(c.ready)
+
+	conn, err := c.parent.clientDialer(c.partner.Address)
+	if err != nil {
+		c.lasterr = err
+		c.Close()
+		return
 	}
 
-	c.init.Do(func() {
-		conn, err := c.parent.clientDialer(c.partner.Address)
+	conn.SetMessageCallback(c.parent.onMessage)
 
-		if err != nil {
-			c.lasterr = err
-			c.Close()
-			return
-		}
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
-		conn.SetMessageCallback(c.parent.onMessage)
-
-		go func() {
-			defer c.Close()
-			conn.Wait()
-		}()
+	if c.closed { // while dialing
+		conn.Close()
+		c.lasterr = fmt.Errorf("connection to %v closed", c.partner.Address)
+		return
+	}
 
-		c.conn = conn
-	})
+	c.conn = conn
 
-	return c.conn // maybe nil and will recreate if err
+	go func() {
+		defer c.Close()
+		conn.Wait()
+	}()
 }
 
 func (c *cachedConn) Close() error {
-	cc, ok := c.parent.connPool.LoadAndDelete(c.partner.Address)
-	if !ok {
+	c.lock.Lock()
+	closed, conn := c.closed, c.conn
+	c.closed = true
+	c.lock.Unlock()
+
+	if closed {
 		return nil
 	}
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
-		if tc != nil {
-			tc.Close()
-		}
-	})
+	// only here, the pool never holds another one for the address before
+	c.parent.connPool.Delete(c.partner.Address)
+
+	if conn != nil {
+		conn.Close()
+	}
 
 	return nil
 }
 
 func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
-	c, _ := s.connPool.LoadOrStore(p.Address, &cachedConn{
+	c, found := s.connPool.LoadOrStore(p.Address, &cachedConn{
 		parent:  s,
 		partner: p,
+		ready:   make(chan struct{}),
 	})
 
 	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+	if !found {
+		cc.dial()
+	}
+
+	<-cc.ready
+	return cc.conn, cc.lasterr // err removes it from pool and will recreate
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 5396e4c8c39878174dc0df04a2dac79b2cebe2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 35/45] fix: end Route with its context while still connecting

---
 federation/sitenode_sender.go | 37 +++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 6ed53ee..bedf682 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -87,7 +87,7 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 	return cc.conn, cc.lasterr // err removes it from pool and will recreate
 }
 
-func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
+func (s *SiteNode) findNode(id NodeID, match bool) (*PartnerNodeInfo, error) {
 
 	t := s.closestPartnerNode(id, func(p PartnerNodeInfo) bool {
 		if p.Instance.Id == s.instance.Id {
@@ -98,11 +98,10 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 	})
 
 	if (t == nil) || (match && t.Instance.Id != id) {
-		return nil, nil, fmt.Errorf("%v not found", id)
+		return nil, fmt.Errorf("%v not found", id)
 	}
 
-	c, err := s.getConn(t)
-	return c, t, err
+	return t, nil
 }
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
@@ -142,7 +141,12 @@ func (s *SiteNode) fillMessageId(message *transport.Message) {
 }
 
 func (s *SiteNode) SendOneWay(id NodeID, origin *transport.Message) error {
-	c, t, err := s.connectToNode(id, true)
+	t, err := s.findNode(id, true)
+	if err != nil {
+		return err
+	}
+
+	c, err := s.getConn(t)
 	if err != nil {
 		return err
 	}
@@ -162,7 +166,7 @@ func (s *SiteNode) SendOneWay(id NodeID, origin *transport.Message) error {
 }
 
 func (s *SiteNode) Route(ctx context.Context, id NodeID, origin *transport.Message) (*transport.ByteArrayMessage, error) {
-	c, t, err := s.connectToNode(id, false)
+	t, err := s.findNode(id, false)
 	if err != nil {
 		return nil, err
 	}
@@ -193,8 +197,25 @@ func (s *SiteNode) Route(ctx context.Context, id NodeID, origin *transport.Messa
 	pr := s.requestTable.Put(msg)
 	defer pr.Close()
 
-	if err := c.SendOneWay(msg); err != nil {
-		return nil, err
+	sent := make(chan error, 1)
+
+	go func() {
+		c, err := s.getConn(t)
+		if err == nil {
+			err = c.SendOneWay(msg)
+		}
+
+		sent <- err
+	}()
+
+	// connecting may take longer than ctx
+	select {
+	case err := <-sent:
+		if err != nil {
+			return nil, err
+		}
+	case <-ctx.Done():
+		return nil, ctx.Err()
 	}
 
 	reply, err := pr.Wait(ctx)
-- 
2.43.0


From 81f078042e59271501801afa52b9fdc96fac85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 36/45] fix: end naming requests with their context

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c5fcc2b7b7d956dbfba719c5c21f35fe08034791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 37/45] fix: return failure replies and missing results of
 application queries as errors

---
 naming/naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..c7f0834 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -363,7 +363,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -384,5 +384,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no result")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From f17f3fe40bb4bf9700d375489595d937e86dd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 38/45] fix: return gateway replies carrying an error code as
 errors

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index c7f0834..1f72c14 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -181,6 +181,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, err
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("%v replied with error code: %v", reply.Headers.Action, reply.Headers.ErrorCode)
+	}
+
 	body := reply.Body
 	if reply.Headers.Action == "ClientOperationFailure" {
 		var b struct {
-- 
2.43.0


From 6308dbf16196dbbbf7eb5a50bc8a6415de6fc2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 39/45] fix: discover nodes of any instance number, but not the
 node itself

---
 federation/sitenode_boot.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 96bcb36..6c8ce0c 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -42,6 +42,10 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	discovered := make(map[NodeID]PartnerNodeInfo)
 
 	for _, seed := range s.seedNodes {
+		if seed.Id == s.instance.Id {
+			continue
+		}
+
 		discovered[seed.Id] = PartnerNodeInfo{
 			Instance: NodeInstance{
 				Id: seed.Id,
@@ -76,9 +80,9 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 				continue
 			}
 
-			p := discovered[partner.Instance.Id]
+			p, known := discovered[partner.Instance.Id]
 
-			if partner.Instance.InstanceId > p.Instance.InstanceId {
+			if !known || partner.Instance.InstanceId > p.Instance.InstanceId {
 				found = true
 				discovered[partner.Instance.Id] = partner
 			}
-- 
2.43.0


From 239ecbac1a9bace818c51858b3c29445ae2f089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 40/45] fix: take later phases of a known partner instance as
 news

---
 federation/sitenode_boot.go      |  2 +-
 federation/sitenode_parteners.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 6c8ce0c..81363fa 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -82,7 +82,7 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 			p, known := discovered[partner.Instance.Id]
 
-			if !known || partner.Instance.InstanceId > p.Instance.InstanceId {
+			if !known || partner.newerThan(&p) {
 				found = true
 				discovered[partner.Instance.Id] = partner
 			}
diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 83ba1e0..52072c8 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -14,12 +14,21 @@ type PartnerNodeInfo struct {
 	RingName             string
 }
 
+// newerThan tells whether p is of a later instance of the node, or of a later phase of the same instance
+func (p *PartnerNodeInfo) newerThan(old *PartnerNodeInfo) bool {
+	if p.Instance.InstanceId != old.Instance.InstanceId {
+		return p.Instance.InstanceId > old.Instance.InstanceId
+	}
+
+	return p.Phase > old.Phase
+}
+
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
 	p := h.PartnerNodeInfo
 
 	s.partenersRWLock.Lock()
 	old, found := s.parteners[h.Instance.Id]
-	newer := !found || old.Instance.InstanceId < h.Instance.InstanceId
+	newer := !found || p.newerThan(old)
 	if newer {
 		s.parteners[h.Instance.Id] = &p
 	}
-- 
2.43.0


From 6e6942929cbf1dd137c5640e4385ce6b893c00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 41/45] fix: do not acknowledge or hand on service
 notifications that cannot be decoded

---
 naming/naming.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 1f72c14..46e348f 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,13 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From 7d21024debf075a6ab46454fc65df1f2e66b7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 42/45] fix: report a failed neighborhood query when joining

---
 federation/sitenode_join.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/federation/sitenode_join.go b/federation/sitenode_join.go
index 84855f9..52697b3 100644
--- a/federation/sitenode_join.go
+++ b/federation/sitenode_join.go
@@ -30,7 +30,9 @@ func (s *SiteNode) neighborhoodQuery(ctx context.Context) error {
 
 	var global GlobalLease
 
-	serialization.Unmarshal(reply.Body, &global)
+	if err := serialization.Unmarshal(reply.Body, &global); err != nil {
+		return err
+	}
 
 	fmt.Println("reply", global)
 
@@ -38,7 +40,5 @@ func (s *SiteNode) neighborhoodQuery(ctx context.Context) error {
 }
 
 func (s *SiteNode) Join(ctx context.Context) error {
-	s.neighborhoodQuery(ctx)
-
-	return nil
+	return s.neighborhoodQuery(ctx)
 }
-- 
2.43.0


From 9208b86170a54300e9e012f53ccec1bbd1c31891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 43/45] fix: close the TCP connection when setting up a dialed
 connection fails

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..8726eba 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close() // the caller can not
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From 7f80c85f8a310af5341e20adf71ccb597d6e605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 44/45] fix: refuse data nested so deep that decoding exhausts
 the stack

---
 serialization/unmarshal.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 3dc2af3..7052048 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -161,7 +161,15 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 	return nil
 }
 
-func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) error {
+// maxNesting bounds how deep values may be nested, a recursive type must not
+// let the data exhaust the stack
+const maxNesting = 200000
+
+func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value, nesting int) error {
+	if nesting > maxNesting {
+		return fmt.Errorf("values nested too deep")
+	}
+
 	if IsEmptyMeta(meta) {
 
 		// bool is alway empty
@@ -274,7 +282,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		if err := s.value(objmeta, reflect.Indirect(ptr)); err != nil {
+		if err := s.value(objmeta, reflect.Indirect(ptr), nesting+1); err != nil {
 			return err
 		}
 
@@ -303,7 +311,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				break
 			}
 
-			err = s.value(meta, field)
+			err = s.value(meta, field, nesting+1)
 			if err != nil {
 				return err
 			}
@@ -350,7 +358,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
-			err = s.value(meta, objs.Index(i))
+			err = s.value(meta, objs.Index(i), nesting+1)
 
 			if err != nil {
 				return err
@@ -374,7 +382,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		})
 
 		entries := reflect.Indirect(reflect.New(reflect.SliceOf(sliceTyp)))
-		err := s.value(meta, entries)
+		err := s.value(meta, entries, nesting+1)
 		if err != nil {
 			return err
 		}
@@ -412,5 +420,5 @@ func Unmarshal(data []byte, v interface{}) error {
 		return err
 	}
 
-	return d.value(meta, rv)
+	return d.value(meta, rv, 0)
 }
-- 
2.43.0


From a265fbe8575f26ac9a9ec2a38522dea165cd34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 45/45] fix: make no connection to a partner once the node is
 closed

---
 federation/sitenode.go        | 5 +++++
 federation/sitenode_sender.go | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 0fac0d4..00572e2 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -4,6 +4,7 @@ import (
 	"crypto/tls"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/lease"
 	"github.com/tg123/phabrik/transport"
@@ -24,6 +25,7 @@ type SiteNode struct {
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
 	connPool           sync.Map
+	closed             int32 // atomic
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -163,6 +165,9 @@ func (s *SiteNode) Close() error {
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
+	// before closing the connections, none is added afterwards
+	atomic.StoreInt32(&s.closed, 1)
+
 	s.connPool.Range(func(key, value interface{}) bool {
 		if c, ok := value.(*cachedConn); ok {
 			c.Close()
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index bedf682..4861707 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/common"
 	"github.com/tg123/phabrik/transport"
@@ -25,6 +26,13 @@ type cachedConn struct {
 func (c *cachedConn) dial() {
 	defer close(c.ready)
 
+	// in the pool already, Close of the node finds it there if it is not seen here
+	if atomic.LoadInt32(&c.parent.closed) != 0 {
+		c.lasterr = fmt.Errorf("node closed")
+		c.Close()
+		return
+	}
+
 	conn, err := c.parent.clientDialer(c.partner.Address)
 	if err != nil {
 		c.lasterr = err
-- 
2.43.0

