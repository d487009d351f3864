From 59845e762c0b10b1b298db33ffba3787fb60d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 01/43] fix: saturate TimeSpan.ToDuration instead of wrapping
 around

---
 common/time.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..8490b60 100644
--- a/common/time.go
+++ b/common/time.go
@@ -19,6 +19,16 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 	return TimeSpan(d.Nanoseconds() / 100)
 }
 
+// ToDuration converts to time.Duration, a TimeSpan too large for it, like
+// TimeSpanMax, becomes the largest Duration of the same sign
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From 12d1cc89bf37442f5d576b69f2c9b0b073fd1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 02/43] fix: NodeIdRange.Contains misses the arc before zero of
 a wrapping range

---
 federation/nodeid_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..1c98748 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -16,7 +16,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 
 	if s.cmp(e) > 0 {
 
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
+		if s.cmp(i) <= 0 && i.cmp(u128max) <= 0 {
 			return true
 		}
 
-- 
2.43.0


From dd1ad66a24dde8a378c3bff350f74aa4d37cf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 03/43] fix: decoding a char into uint8 or an uchar into int8
 panics

---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..ffef650 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -173,10 +173,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From 8206b25ba0079a8c9f068a235a8b4956b0f0e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 04/43] fix: do not allocate for string and slice counts beyond
 the data present

---
 serialization/unmarshal.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index ffef650..19f9c2a 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -232,6 +232,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -305,7 +309,8 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
+		// len is not trusted, let objs grow with the elements really present
+		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), 0, 0)
 
 		for i := 0; i < len; i++ {
 
@@ -314,11 +319,14 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
-			err = s.value(meta, objs.Index(i))
+			obj := reflect.New(rv.Type().Elem()).Elem()
+			err = s.value(meta, obj)
 
 			if err != nil {
 				return err
 			}
+
+			objs = reflect.Append(objs, obj)
 		}
 
 		rv.Set(objs)
-- 
2.43.0


From 38c91a370292ebd0c36675e2f43ce3f6daac3d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 05/43] fix: reject objects whose size ends before their fields
 instead of seeking back

---
 serialization/unmarshal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 19f9c2a..a85d801 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -128,7 +128,17 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	// going back would decode the same bytes again
+	if endpos < pos {
+		return fmt.Errorf("object size is smaller than its fields")
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
@@ -276,6 +286,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				if err := s.inner.UnreadByte(); err != nil {
+					return err
+				}
+
 				break
 			}
 
-- 
2.43.0


From 63138755866e95444ce1be97ed47439db9cb0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 06/43] fix: NodeIDFromHex accepts signs and silently drops
 bits above 128

---
 federation/nodeid_generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..1fe0df5 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -17,7 +17,8 @@ func NodeIDFromHex(v string) (NodeID, error) {
 
 	i, ok := new(big.Int).SetString(v, 16)
 
-	if !ok {
+	// big.Int takes a sign and any number of digits
+	if !ok || strings.ContainsAny(v, "+-") || i.BitLen() > 128 {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
-- 
2.43.0


From a11755be26e8cfeb19c9dc25332a71949e992790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 07/43] fix: NodeIDFromV4Generator panics on names without a
 separator

---
 federation/nodeid_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index 1fe0df5..78bebc7 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -91,6 +91,9 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
+	if idx < 0 {
+		return
+	}
 
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
-- 
2.43.0


From 44c19f9e82ca05063b8360987fd7e21c09f2fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 08/43] fix: frame lengths below the frame header size wrap to
 a 4 GB allocation

---
 transport/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..d8d9115 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,6 +61,10 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
+	if header.FrameLength < uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("frame length %v is smaller than the frame header", header.FrameLength)
+	}
+
 	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
 
 	_, err = io.ReadFull(r, body)
-- 
2.43.0


From d7578960c34dbac15981f119636bf3ca59a26327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 09/43] fix: a header length beyond the frame panics the
 receive loop

---
 transport/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index d8d9115..e26546a 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -65,6 +65,10 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		return nil, nil, fmt.Errorf("frame length %v is smaller than the frame header", header.FrameLength)
 	}
 
+	if uint32(header.HeaderLength) > header.FrameLength-uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("header length %v exceeds the frame", header.HeaderLength)
+	}
+
 	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
 
 	_, err = io.ReadFull(r, body)
-- 
2.43.0


From 8cadf58136265a4f7155ec9eb23fe20fc75110ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 10/43] fix: message headers cut off before their size or body
 are taken for complete

---
 transport/messageheaders.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..5be3086 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -239,6 +239,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF // cut off after the id
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
@@ -246,6 +249,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF // cut off after the size
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
-- 
2.43.0


From 8bde33763acd26488132f95089d03a44f3758b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 11/43] fix: lengths beyond the 16 bit header length fields are
 truncated on the wire

---
 transport/frame.go          | 8 ++++++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index e26546a..6e5a283 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"hash/crc32"
 	"io"
+	"math"
 
 	"github.com/sigurn/crc8"
 )
@@ -94,6 +95,13 @@ type frameWriteConfig struct {
 }
 
 func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig) error {
+	if headerLen > math.MaxUint16 {
+		return fmt.Errorf("message headers are too long: %v bytes", headerLen)
+	}
+
+	if uint64(len(msg)) > uint64(math.MaxUint32-sizeOfFrameheader) {
+		return fmt.Errorf("message is too long: %v bytes", len(msg))
+	}
 
 	tcpheader := &frameheader{
 		FrameLength:          uint32(sizeOfFrameheader + len(msg)),
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 5be3086..2fbe812 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v is too long: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From ac86cfc160929fba5b561a37e15b006e34c5d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 12/43] fix: frames of concurrent senders interleave

---
 transport/frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 6e5a283..28d4673 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -125,11 +125,14 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	b.Reset()
+	err = binary.Write(&b, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	// a single write, frames of concurrent senders must not interleave
+	b.Write(msg)
+	_, err = w.Write(b.Bytes())
 	return err
 }
-- 
2.43.0


From 623a600955f4a2083937e2cdf814907907db1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 13/43] fix: a reply racing with the cancellation of its
 request blocks the receive loop forever

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..3b333d5 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block if the request is gone
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From be797b7de181f6fe93711afd2f042b903277ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 14/43] fix: AppendCustomHeader drops the headers if the type
 is present already

---
 transport/messageheaders.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 2fbe812..b7e77b9 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -107,12 +107,12 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
+	if len(header) == 0 {
+		return false
 	}
 
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 0babaa82c3243403361fc1d6080449d88d13e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 15/43] fix: failed handshake writes are reported as successful

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 6600df9e022b9d094cc1f7e2e2939762ea01da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 16/43] fix: late or unsolicited heartbeat responses fail later
 pings and panic on close

---
 transport/conn.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..0ffe09a 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -36,7 +36,8 @@ type connection struct {
 	conn            net.Conn
 	requestTable    RequestTable
 	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           map[int64]chan struct{} // by tick, pings waiting for their response
+	closed          chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -54,7 +55,8 @@ func newConnection(config Config) (*connection, error) {
 
 	c := &connection{
 		msgfac: mf,
-		pingCh: make(chan int64),
+		pings:  make(map[int64]chan struct{}),
+		closed: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +134,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closed)
 		c.requestTable.Close()
 	})
 
@@ -144,11 +146,26 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	now := time.Now()
+	ch := make(chan struct{})
 
 	var b heartbeat
-	b.HeartbeatTimeTick = time.Now().UnixNano()
+	b.HeartbeatTimeTick = now.UnixNano()
+
+	c.pinglock.Lock()
+	for c.pings[b.HeartbeatTimeTick] != nil {
+		b.HeartbeatTimeTick++
+	}
+	c.pings[b.HeartbeatTimeTick] = ch
+	c.pinglock.Unlock()
+
+	defer func() {
+		c.pinglock.Lock()
+		if c.pings[b.HeartbeatTimeTick] == ch {
+			delete(c.pings, b.HeartbeatTimeTick)
+		}
+		c.pinglock.Unlock()
+	}()
 
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
@@ -164,11 +181,10 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
-		}
-		return time.Since(time.Unix(0, t)), nil
+	case <-c.closed:
+		return -1, fmt.Errorf("connection closed")
+	case <-ch:
+		return time.Since(now), nil
 	}
 }
 
@@ -193,7 +209,14 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		c.pinglock.Lock()
+		defer c.pinglock.Unlock()
+
+		// late, duplicate or unsolicited responses have nobody waiting
+		if ch := c.pings[b.HeartbeatTimeTick]; ch != nil {
+			delete(c.pings, b.HeartbeatTimeTick)
+			close(ch)
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From ecf9c624b7995e26f88c9fe10c7c55372ddd100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 17/43] fix: the piper's first frame ignores the configured
 checksum checks

---
 transport/piper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..d2dc75b 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -35,9 +35,11 @@ func NewPiper(l net.Listener, config PiperConfig) (*Piper, error) {
 func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
+	// frames of a tls handshake carry no checksums
+	plain := p.config.TLS == nil
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		CheckFrameHeaderCRC: plain && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   plain && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From d8cda8bd32dbbe0604cb99cd62d1daf4ec700f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 18/43] fix: the piper leaks the upstream connection if setting
 it up fails

---
 transport/piper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transport/piper.go b/transport/piper.go
index d2dc75b..169a0e3 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -55,6 +55,7 @@ func (p *Piper) handle(conn net.Conn) error {
 	if err != nil {
 		return err
 	}
+	defer rawu.Close()
 
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
-- 
2.43.0


From a919185a214bcc151445ab6e5d55437fef315e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 19/43] fix: session tickets of a server asking for client
 certificates break the client at the handshake switch

---
 transport/tls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..720089b 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -42,6 +42,13 @@ func createTlsClientConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config)
 }
 
 func createTlsServerConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, initbuf []byte) (*tls.Conn, error) {
+	if tlsconf.ClientAuth != tls.NoClientCert && !tlsconf.SessionTicketsDisabled {
+		// tls 1.3 sends them after the client's last flight, when the client
+		// has left the handshake and reads unframed bytes already
+		tlsconf = tlsconf.Clone()
+		tlsconf.SessionTicketsDisabled = true
+	}
+
 	return createTlsConn(conn, mf, tlsconf, tls.Server, initbuf)
 }
 
-- 
2.43.0


From 8a5bba1baa21157def05fe79113f1ade2c83e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 20/43] fix: the failure of a connection's authentication is
 shared between goroutines without synchronisation

---
 transport/conn.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 0ffe09a..21feb19 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/tg123/phabrik/serialization"
@@ -44,7 +45,7 @@ type connection struct {
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
-	fatalerr  error
+	fatalerr  atomic.Value // error, set by Wait and read by the senders
 }
 
 func newConnection(config Config) (*connection, error) {
@@ -293,7 +294,7 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.fatalerr.Store(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message))
 
 				return c.Close()
 			}
@@ -308,8 +309,8 @@ func (c *connection) Wait() error {
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	if err, ok := c.fatalerr.Load().(error); ok {
+		return err
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
-- 
2.43.0


From 2664c2f95c4837e615b774662d1d10755b5a0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 21/43] fix: the closest partner is lost to the loop variable,
 and one right before the target is never found

---
 federation/sitenode_parteners.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..fac3eb3 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -45,17 +45,16 @@ func (s *SiteNode) KnownPartnerNodes(filter func(PartnerNodeInfo) bool) []Partne
 func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bool) *PartnerNodeInfo {
 	// TODO optimize
 	var cur *PartnerNodeInfo
-	max := u128max
+	var min uint128
 
-	for _, p := range s.KnownPartnerNodes(filter) {
+	partners := s.KnownPartnerNodes(filter)
+	for i := range partners {
+		p := &partners[i]
 		diff := uint128(p.Instance.Id).sub(uint128(id))
-		if diff == u128zero {
-			return &p
-		}
 
-		if diff.cmp(max) < 0 {
-			max = diff
-			cur = &p
+		if cur == nil || diff.cmp(min) < 0 {
+			min = diff
+			cur = p
 		}
 	}
 
-- 
2.43.0


From 1bae2dd219d5630f9b884aae03318d1eee768563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 22/43] fix: concurrent partner updates can put an older
 instance back

---
 federation/sitenode_parteners.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index fac3eb3..15c6f71 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,17 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
-
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
-		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	p := h.PartnerNodeInfo
+
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[p.Instance.Id]
+	newer := !found || old.Instance.InstanceId < p.Instance.InstanceId
+	if newer {
+		s.parteners[p.Instance.Id] = &p
+	}
+	s.partenersRWLock.Unlock()
+
+	if newer {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 96c78370044ec035790bb27139f51b598db8c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 23/43] fix: Bootstrap misses a phase change that comes before
 it waits

---
 federation/sitenode.go        | 18 +++++++++++++-----
 federation/sitenode_boot.go   | 15 +++++++--------
 federation/sitenode_sender.go |  4 +++-
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..3e3c134 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -96,21 +96,29 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 }
 
 func (s *SiteNode) changePhase(newPhase NodePhase) {
-	if s.phase == newPhase {
-		return
-	}
-
 	s.phaseLock.Lock()
 	defer s.phaseLock.Unlock()
 
+	if newPhase <= s.phase {
+		return
+	}
+
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
 }
 
+// currentPhase returns the phase and a channel that is closed when it changes.
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
+
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
+	if p.Phase == NodePhaseRouting {
 		s.changePhase(NodePhaseJoining)
 	}
 }
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..cb5c7dd 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,12 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		phase, changed := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +23,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-changed:
+			// check the phase
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..811feb8 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -93,13 +93,15 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 
+	phase, _ := s.currentPhase()
+
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
 		PartnerNodeInfo: PartnerNodeInfo{
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From e71b7ab364220d044c5c1c237aee5e9e78e920b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 24/43] fix: a partner's move to a later phase is ignored, so a
 node stays booting

---
 federation/sitenode_parteners.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 15c6f71..7a915f5 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -19,7 +19,8 @@ func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
 
 	s.partenersRWLock.Lock()
 	old, found := s.parteners[p.Instance.Id]
-	newer := !found || old.Instance.InstanceId < p.Instance.InstanceId
+	newer := !found || old.Instance.InstanceId < p.Instance.InstanceId ||
+		old.Instance.InstanceId == p.Instance.InstanceId && old.Phase < p.Phase
 	if newer {
 		s.parteners[p.Instance.Id] = &p
 	}
-- 
2.43.0


From 41af649d88aaaa1b0bb5fda66b86bbe37f427c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 25/43] fix: discovery pings whatever node the loop variable
 holds

---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index cb5c7dd..e6136dc 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -53,12 +53,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 4a3e0b5c3aa2f75971d4d018bf0bdac71c07a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 26/43] fix: a cached connection is read while another
 goroutine sets it up

---
 federation/sitenode_sender.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 811feb8..3e68dab 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -21,10 +21,6 @@ type cachedConn struct {
 }
 
 func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
-
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
 
@@ -35,13 +31,12 @@ func (c *cachedConn) Conn() *transport.Client {
 		}
 
 		conn.SetMessageCallback(c.parent.onMessage)
+		c.conn = conn
 
 		go func() {
 			defer c.Close()
 			conn.Wait()
 		}()
-
-		c.conn = conn
 	})
 
 	return c.conn // maybe nil and will recreate if err
-- 
2.43.0


From d682ef078b21c42143bf0ef93cc47a5bfd75392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 27/43] fix: a lease message that ends with its listen endpoint
 does not decode, and list offsets wrap around

---
 lease/serialize.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..026d26b 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,14 +124,10 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
-	}
-
-	if ed >= uint32(len(data)) {
+	if ed > uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
-- 
2.43.0


From 16736e07c92931076ff9fdaeb3b54f82c1f899c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 28/43] fix: listen endpoints of less than 6 bytes panic or
 allocate 8 GB

---
 lease/serialize.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 026d26b..d8c0d94 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -166,14 +166,18 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
-		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
+		s := make([]uint16, (len(d)-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
 			return nil, err
 		}
 
-		if s[len(s)-1] == 0 {
-			s = s[:len(s)-1]
+		if n := len(s); n > 0 && s[n-1] == 0 {
+			s = s[:n-1]
 		}
 
 		// skip address family
-- 
2.43.0


From 0920949f24d5cd177e4f6aca4d58e714f4aaf3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 29/43] fix: lease frame sizes below the header size wrap to a
 4 GB allocation, and connect frames pile up on the stack

---
 lease/frame.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..850500f 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -24,27 +24,32 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+		case ltFrametypeMessage:
+			if header.FrameSize < uint32(sizeOfLtFrameheader) {
+				return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+			}
+
+			body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
+
+			_, err = io.ReadFull(r, body)
+			if err != nil {
+				return nil, err
+			}
+
+			return body, nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From 8b763e460ed6c5fa21e113660c781d040fbee427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 30/43] fix: frames of concurrent lease pings interleave

---
 lease/frame.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index 850500f..424422f 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -67,15 +68,14 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
-	if err != nil {
+	var buf bytes.Buffer
+	if err := binary.Write(&buf, binary.LittleEndian, &h); err != nil {
 		return err
 	}
 
-	err = binary.Write(w, binary.LittleEndian, message)
-	if err != nil {
-		return err
-	}
+	buf.Write(message)
 
-	return nil
+	// a single write, concurrent frames must not interleave
+	_, err := w.Write(buf.Bytes())
+	return err
 }
-- 
2.43.0


From b4c1419c2144bbd18dcd34b1c72df697bae3fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 31/43] fix: the accept loop of a closed lease agent never ends

---
 lease/agent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..337a85d 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -130,7 +130,11 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
-- 
2.43.0


From 84da6b6e69d17a6378df8973645384ab17e1d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 32/43] fix: a lease ping misses a pong that comes before it
 waits, and succeeds when its session is closed

---
 lease/agent.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 337a85d..6c26f1c 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -106,6 +106,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		closeCh:       make(chan int),
 		localInstance: uniqId(),
 	}
 
@@ -227,6 +228,7 @@ type leaseSession struct {
 	remoteInstance int64
 
 	closed    bool
+	closeCh   chan int // closed by Close
 	conn      net.Conn
 	connected bool
 	objLock   sync.Mutex
@@ -255,7 +257,7 @@ func (s *leaseSession) Close() error {
 
 	s.closed = true
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
+	close(s.closeCh) // unlock waiting pings
 
 	return nil
 }
@@ -294,6 +296,11 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
+	// a pong may arrive as soon as the ping is out
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	if err := writeDataWithFrame(s.conn, data); err != nil {
 		if neterr, ok := err.(net.Error); ok {
 			if !neterr.Temporary() {
@@ -311,13 +318,11 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-s.closeCh:
+		return fmt.Errorf("session closed")
 	case <-ch:
 		return nil
 	}
-- 
2.43.0


From 403e901a7f527b031a9b407be8fbe780ba0496ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 33/43] fix: pings read a session's peer while arriving pongs
 change it

---
 lease/agent.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 6c26f1c..edd935a 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -329,6 +329,9 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
+
 	return s.lastpong
 }
 
@@ -338,15 +341,15 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
-		s.lastpong = time.Now()
-		s.remoteInstance = m.RemoteLeaseAgentInstance
-		s.boardcastPong()
+		s.boardcastPong(m)
 	default:
 	}
 }
 
-func (s *leaseSession) boardcastPong() {
+func (s *leaseSession) boardcastPong(m *Message) {
 	s.pingLock.Lock()
+	s.lastpong = time.Now()
+	s.remoteInstance = m.RemoteLeaseAgentInstance
 	ch := s.pingCh
 	s.pingCh = make(chan int)
 	close(ch)
@@ -354,6 +357,9 @@ func (s *leaseSession) boardcastPong() {
 }
 
 func (s *leaseSession) createPingMessage() *Message {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
+
 	message := Message{}
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
-- 
2.43.0


From 964c8ca417048111695cb41873f2299e526b3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 34/43] fix: a session established while its agent closes stays
 open, and one that was replaced unregisters its successor

---
 lease/agent.go | 96 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 24 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index edd935a..b9d8c97 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -46,17 +46,16 @@ type Agent struct {
 	LocalInstance int64
 	config        AgentConfig
 	marshaller    marshalContext
-	sessions      sync.Map
 	listener      net.Listener
 	dial          Dialer
+
+	sessionLock sync.Mutex
+	sessions    map[string]*leaseSession // by address
+	closed      bool
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -75,6 +74,7 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
+		sessions:      make(map[string]*leaseSession),
 	}
 	a.config = config
 
@@ -102,7 +102,11 @@ func (a *Agent) Addr() net.Addr {
 }
 
 func (a *Agent) Establish(addr string) (Session, error) {
-	s := leaseSession{
+	if a.isClosed() {
+		return nil, errAgentClosed
+	}
+
+	s := &leaseSession{
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
@@ -115,9 +119,55 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
-	a.sessions.Store(addr, &s)
+	if err := a.register(s); err != nil {
+		s.Close()
+		return nil, err
+	}
+
+	return s, nil
+}
+
+func (a *Agent) isClosed() bool {
+	a.sessionLock.Lock()
+	defer a.sessionLock.Unlock()
+
+	return a.closed
+}
+
+// register makes s the session of its address, the one it replaces is closed.
+func (a *Agent) register(s *leaseSession) error {
+	a.sessionLock.Lock()
+
+	if a.closed {
+		a.sessionLock.Unlock()
+		return errAgentClosed
+	}
+
+	old := a.sessions[s.addr]
+	a.sessions[s.addr] = s
+	a.sessionLock.Unlock()
 
-	return &s, nil
+	if old != nil {
+		old.Close()
+	}
+
+	return nil
+}
+
+func (a *Agent) unregister(s *leaseSession) {
+	a.sessionLock.Lock()
+	defer a.sessionLock.Unlock()
+
+	if a.sessions[s.addr] == s {
+		delete(a.sessions, s.addr)
+	}
+}
+
+func (a *Agent) session(addr string) *leaseSession {
+	a.sessionLock.Lock()
+	defer a.sessionLock.Unlock()
+
+	return a.sessions[addr]
 }
 
 func (a *Agent) Find(addr string) (Session, bool) {
@@ -143,15 +193,19 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
-	a.dial = closedDialer
 	a.listener.Close()
-	a.sessions.Range(func(key, value interface{}) bool {
-		if s, ok := value.(Session); ok {
-			s.Close()
-		}
 
-		return true
-	})
+	a.sessionLock.Lock()
+	a.closed = true
+	var sessions []*leaseSession
+	for _, s := range a.sessions {
+		sessions = append(sessions, s)
+	}
+	a.sessionLock.Unlock()
+
+	for _, s := range sessions {
+		s.Close()
+	}
 
 	return nil
 }
@@ -178,14 +232,8 @@ func (a *Agent) handleIncoming(conn net.Conn) error {
 			return err
 		}
 
-		s, ok := a.sessions.Load(m.MessageListenEndpoint)
-		if !ok {
-			continue
-		}
-
-		ls, ok := s.(*leaseSession)
-		if ok {
-			ls.onMessage(m)
+		if s := a.session(m.MessageListenEndpoint); s != nil {
+			s.onMessage(m)
 		}
 	}
 }
@@ -247,7 +295,7 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.unregister(s)
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From 04bd3f115bcf52b5d9c45e6794d8abd1d570c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 35/43] fix: naming calls go on after their context ends

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 55b221629a2c9dfe1b8739cdd4dc8661488abadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 36/43] fix: a failed or incomplete reply to GetApplicationList
 panics

---
 naming/naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..4fb288a 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -363,7 +363,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -384,5 +384,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no result list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From 0bc3097c4e4b8fa42ab15ef4bf07144dfa0342d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 37/43] fix: naming calls take replies with an error code for
 success

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 4fb288a..1123573 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -181,6 +181,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, err
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("request failed: %v", reply.Headers.ErrorCode)
+	}
+
 	body := reply.Body
 	if reply.Headers.Action == "ClientOperationFailure" {
 		var b struct {
-- 
2.43.0


From 2227c2c8de776c29936d1d142e65afa42a88a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 38/43] fix: service notifications that do not decode are
 acknowledged and delivered

---
 naming/naming.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 1123573..33b9f27 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,18 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
+		}
+
+		if b.Notification == nil {
+			log.Printf("ServiceNotificationRequest without notification")
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From 80080d64c2d9bc2ca9e5f4d6457b513547f25c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 39/43] fix: discovery goes on after its context ends

---
 federation/sitenode_boot.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index e6136dc..7a0a545 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -63,7 +63,13 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 		wg.Wait()
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		// wait for voteping reply
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(1 * time.Second):
+			// continue
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
-- 
2.43.0


From 44f27676032b59a457e7657a007b794078b070c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 40/43] fix: closing a site node leaves routes waiting and a
 connection being dialed open

---
 federation/sitenode.go        |  9 +++++++++
 federation/sitenode_sender.go | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 3e3c134..5af18f4 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -24,6 +24,8 @@ type SiteNode struct {
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
 	connPool           sync.Map
+	closed             bool
+	closeLock          sync.RWMutex
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -163,6 +165,10 @@ func (s *SiteNode) Close() error {
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
+	s.closeLock.Lock()
+	s.closed = true
+	s.closeLock.Unlock()
+
 	s.connPool.Range(func(key, value interface{}) bool {
 		if c, ok := value.(*cachedConn); ok {
 			c.Close()
@@ -171,5 +177,8 @@ func (s *SiteNode) Close() error {
 		return true
 	})
 
+	// routes in flight
+	s.requestTable.Close()
+
 	return nil
 }
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 3e68dab..edb2073 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -18,8 +18,13 @@ type cachedConn struct {
 	init    sync.Once
 	close   sync.Once
 	lasterr error
+
+	lock   sync.Mutex
+	closed bool // do not keep a connection that is still being dialed
 }
 
+var errSiteNodeClosed = fmt.Errorf("site node closed")
+
 func (c *cachedConn) Conn() *transport.Client {
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
@@ -31,7 +36,19 @@ func (c *cachedConn) Conn() *transport.Client {
 		}
 
 		conn.SetMessageCallback(c.parent.onMessage)
-		c.conn = conn
+
+		c.lock.Lock()
+		closed := c.closed
+		if !closed {
+			c.conn = conn
+		}
+		c.lock.Unlock()
+
+		if closed {
+			conn.Close()
+			c.lasterr = errSiteNodeClosed
+			return
+		}
 
 		go func() {
 			defer c.Close()
@@ -49,7 +66,12 @@ func (c *cachedConn) Close() error {
 	}
 
 	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
+		c := cc.(*cachedConn)
+		c.lock.Lock()
+		c.closed = true
+		tc := c.conn
+		c.lock.Unlock()
+
 		if tc != nil {
 			tc.Close()
 		}
@@ -59,10 +81,17 @@ func (c *cachedConn) Close() error {
 }
 
 func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
+	s.closeLock.RLock()
+	if s.closed {
+		s.closeLock.RUnlock()
+		return nil, errSiteNodeClosed
+	}
+
 	c, _ := s.connPool.LoadOrStore(p.Address, &cachedConn{
 		parent:  s,
 		partner: p,
 	})
+	s.closeLock.RUnlock()
 
 	cc := c.(*cachedConn)
 	return cc.Conn(), cc.lasterr
-- 
2.43.0


From 094368d8976135c9e03b427cf3ab170f4cddec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 41/43] fix: a seed that takes long to dial does not hold up
 Bootstrap, Discover or their context

---
 federation/sitenode_boot.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 7a0a545..bd3404c 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -3,7 +3,6 @@ package federation
 import (
 	"context"
 	"log"
-	"sync"
 	"time"
 
 	"github.com/tg123/phabrik/transport"
@@ -17,9 +16,12 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		for _, seed := range s.seedNodes {
-			if err := s.votePing(seed.Id); err != nil {
-				log.Printf("send vote ping to %v failed %v", seed.Address, err)
-			}
+			// a seed that takes long to reach must not hold up the others or ctx
+			go func(seed SeedNodeInfo) {
+				if err := s.votePing(seed.Id); err != nil {
+					log.Printf("send vote ping to %v failed %v", seed.Address, err)
+				}
+			}(seed)
 		}
 
 		select {
@@ -49,20 +51,15 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	round := 5
 
 	for {
-		var wg sync.WaitGroup
-		wg.Add(len(discovered))
-
 		for _, partner := range discovered {
+			// not waited for, a node that takes long to reach must not hold up ctx
 			go func(p PartnerNodeInfo) {
-				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
 			}(partner)
 		}
 
-		wg.Wait()
-
 		// wait for voteping reply
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 94afdfabace49b4ca9e04ac23e9252b64450cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 42/43] fix: DialTCP leaves its connection open when setting it
 up fails

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..3c22e6c 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From 03d0b978d869e6b9c04fb9ea243fd1daeb3eff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 43/43] fix: requests that share an identifier end each other
 or never return

---
 transport/requesttable.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index 3b333d5..6b78ee9 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -8,6 +8,7 @@ import (
 
 type RequestTable struct {
 	table sync.Map
+	lock  sync.Mutex // held to put requests in and close them
 }
 
 type PendingRequest struct {
@@ -18,17 +19,28 @@ type PendingRequest struct {
 }
 
 func (r *PendingRequest) Close() error {
+	r.parent.lock.Lock()
+	defer r.parent.lock.Unlock()
+
+	r.closeLocked()
+	return nil
+}
+
+func (r *PendingRequest) closeLocked() {
+	// a later request may have taken the id over
+	if pr, ok := r.parent.table.Load(r.id); !ok || pr != r {
+		return
+	}
+
 	pr, ok := r.parent.table.LoadAndDelete(r.id)
 	if !ok {
-		return nil
+		return
 	}
 
 	pr.(*PendingRequest).close.Do(func() {
 		ch := pr.(*PendingRequest).ch
 		close(ch)
 	})
-
-	return nil
 }
 
 func (r *PendingRequest) Wait(ctx context.Context) (*ByteArrayMessage, error) {
@@ -61,6 +73,15 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 		id:     id,
 		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block if the request is gone
 	}
+
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	// a request with the same id cannot receive its reply any more
+	if old, ok := r.table.Load(id); ok {
+		old.(*PendingRequest).closeLocked()
+	}
+
 	r.table.Store(id, p)
 	return p
 }
-- 
2.43.0

