From 11c0e978e3c3e26b056988d00968fbc7d96e7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 01/31] fix: report truncated SPOE payloads as errors instead
 of panicking

KVScanner.Next and MessageScanner.Next sliced the input by lengths taken from
the input. A truncated or hostile payload made them panic, or expose bytes
behind the payload when the slice had spare capacity.
---
 pkg/encoding/kvscanner.go      | 21 +++++++++++++++++++++
 pkg/encoding/messagescanner.go |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..20e0162 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -201,6 +201,11 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
+	if nameLen >= uint64(len(k.buf)) {
+		// the name is always followed by at least the type byte
+		k.lastErr = ErrUnterminatedSequence
+		return false
+	}
 	e.name = k.buf[:nameLen]
 	k.buf = k.buf[nameLen:]
 
@@ -225,10 +230,18 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
+		if len(k.buf) < net.IPv4len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:net.IPv4len]
 		k.buf = k.buf[net.IPv4len:]
 
 	case DataTypeIPV6:
+		if len(k.buf) < net.IPv6len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:net.IPv6len]
 		k.buf = k.buf[net.IPv6len:]
 
@@ -240,6 +253,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if nameLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:nameLen]
 		k.buf = k.buf[nameLen:]
 
@@ -251,6 +268,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if valLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:valLen]
 		k.buf = k.buf[valLen:]
 
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..d029eff 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -85,6 +85,11 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	if nameLen >= uint64(len(s.buf)) {
+		// the name is always followed by the number of arguments
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From cc70bc8d407ea9a3ae8a9605c42053224561b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 02/31] fix: deliver every message of a NOTIFY frame with its
 own arguments

The argument count of a message was not respected: the first message took
the following messages as its arguments, so that multi-message frames were
misparsed or rejected. Stop after the announced number of arguments, report
missing ones, and keep reporting an error once scanning failed.
---
 pkg/encoding/kvscanner.go      | 12 ++++++++----
 pkg/encoding/messagescanner.go |  7 ++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 20e0162..81123fc 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -184,7 +184,15 @@ func (k *KVEntry) Reset() {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
+	if k.lastErr != nil || k.left == 0 {
+		return false
+	}
+
 	if len(k.buf) == 0 {
+		// A negative count means that the entries fill the whole buffer.
+		if k.left > 0 {
+			k.lastErr = ErrUnterminatedSequence
+		}
 		return false
 	}
 
@@ -284,10 +292,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index d029eff..10134d5 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -67,6 +67,11 @@ func (s *MessageScanner) Error() error {
 
 func (s *MessageScanner) Next(m *Message) bool {
 	if m.KV != nil {
+		// skip the arguments of the previous message that were not read
+		if err := m.KV.Discard(); err != nil {
+			s.lastErr = err
+		}
+
 		// if the scanner is still existing from a previous read
 		// forward the current slice to the correct position
 		s.buf = s.buf[len(s.buf)-m.KV.RemainingBuf():]
@@ -74,7 +79,7 @@ func (s *MessageScanner) Next(m *Message) bool {
 		m.KV = nil
 	}
 
-	if len(s.buf) == 0 {
+	if s.lastErr != nil || len(s.buf) == 0 {
 		return false
 	}
 
-- 
2.43.0


From 2b86af07dd34030f8c121bdc61b346295ec3dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 03/31] fix: leave no partial action behind when SetAddr
 refuses an address

The action header was already part of the output when the address turned out
to be invalid, which corrupted the whole action list.
---
 pkg/encoding/actionwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..d8a9753 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,11 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	if !v.IsValid() {
+		// refuse before the action header is written
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From 48763c927761eccd5434bb1c768abfde02c2cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 04/31] fix: make KVWriter writes all-or-nothing when the
 buffer is full

The type byte was written without checking for space, which panicked on an
exactly full buffer, and a value that did not fit left its key behind.
---
 pkg/encoding/kvwriter.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..742277e 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -51,11 +51,17 @@ func (aw *KVWriter) writeKey(name []byte) error {
 		return err
 	}
 
+	// the key is always followed by at least the type byte
+	if aw.off+n >= len(aw.data) {
+		return ErrInsufficientSpace
+	}
+
 	aw.off += n
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -65,6 +71,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -73,6 +80,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -82,6 +90,7 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -122,6 +131,7 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -131,6 +141,7 @@ func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
 
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -146,6 +157,11 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -162,6 +178,7 @@ func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From 73cc40af107a8965302df36c506107927215f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 05/31] fix: report unexported optional fields instead of
 panicking in Unmarshal

---
 pkg/encoding/kvunmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/encoding/kvunmarshal.go b/pkg/encoding/kvunmarshal.go
index 3b289bc..febe1cd 100644
--- a/pkg/encoding/kvunmarshal.go
+++ b/pkg/encoding/kvunmarshal.go
@@ -126,6 +126,9 @@ func (k *KVScanner) Unmarshal(v any) error {
 	// Only iterate through known pointer fields instead of all fields
 	for _, idx := range pointerFieldIndices {
 		if !setPointerFields[idx] {
+			if !rv.Field(idx).CanSet() {
+				return fmt.Errorf("field %s is not settable", rt.Field(idx).Name)
+			}
 			rv.Field(idx).Set(reflect.Zero(rt.Field(idx).Type))
 		}
 	}
-- 
2.43.0


From 1294b98e6c59ab8abc163b6141db2cd3864805a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/31] fix: reject frames that are too short to hold a header

decodeHeader read the type and flags of such a frame from whatever the pooled
buffer contained before, or panicked in the buffer.
---
 spop/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..6ec5dc2 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -124,6 +124,11 @@ func (f *frame) encodeHeader() error {
 }
 
 func (f *frame) decodeHeader() error {
+	// The buffer is pooled, so there is always stale data behind a short frame.
+	if f.buf.Len() < 1+uint32Len {
+		return fmt.Errorf("frame length %d is too short for a header", f.buf.Len())
+	}
+
 	// We don't need to validate here,
 	// there is validation further down the chain
 	f.frameType = frameType(f.buf.ReadNBytes(1)[0])
-- 
2.43.0


From e763152b2fabe22981949cb163bb40069697e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 07/31] fix: check the offered max-frame-size before truncating
 it to 32 bit

An offer such as 2^32+300 was accepted as 300.
---
 spop/protocol.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..ad4fff9 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -128,13 +128,15 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			// check the offer before it is truncated to 32 bit
+			offer := k.ValueInt()
+			if offer < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", offer)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if offer > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", offer)
 			}
+			c.maxFrameSize = uint32(offer)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From 5b112f4dd6a76716fc04e05953ef2d4fa8cd6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 08/31] fix: do not interleave the frames written to one
 connection

A frame is written in up to three pieces, and several workers can reply on the
same connection at the same time. Serialize them per connection, and write
nothing behind AGENT-DISCONNECT.
---
 spop/frame.go    | 18 ++++++++++++++++++
 spop/protocol.go |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/spop/frame.go b/spop/frame.go
index 6ec5dc2..f56498c 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -76,6 +76,14 @@ func (f *frame) readFrom(r io.Reader, limit uint32) (int64, error) {
 	return int64(n + len(f.length)), f.decodeHeader()
 }
 
+// frameConn keeps the frames that are written by several workers apart.
+// AGENT-DISCONNECT is the last frame that can be written.
+type frameConn struct {
+	io.ReadWriter
+	wmu          sync.Mutex
+	disconnected bool
+}
+
 func (f *frame) WriteTo(w io.Writer) (int64, error) {
 	return f.writeTo(w, nil)
 }
@@ -87,6 +95,16 @@ func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
+	if fc, ok := w.(*frameConn); ok {
+		fc.wmu.Lock()
+		defer fc.wmu.Unlock()
+
+		if fc.disconnected {
+			return 0, fmt.Errorf("frame after AGENT-DISCONNECT")
+		}
+		fc.disconnected = f.frameType == frameTypeIDAgentDisconnect
+	}
+
 	n, err := w.Write(f.length)
 	written := int64(n)
 	if err != nil {
diff --git a/spop/protocol.go b/spop/protocol.go
index ad4fff9..f624b0a 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -12,7 +12,7 @@ import (
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
-	c.rw = rw
+	c.rw = &frameConn{ReadWriter: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
-- 
2.43.0


From df5d7f0ee6a11db9d8b0d176e38fb47ed8cd73ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 09/31] fix: handle HAPROXY-DISCONNECT without waiting for a
 free worker

With all workers occupied by handlers waiting for their context the disconnect
frame was never processed, and the context never cancelled.
---
 spop/protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index f624b0a..9cca1f9 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -100,6 +100,15 @@ func (c *protocolClient) Serve() error {
 			continue
 		}
 
+		// Every worker may be busy with handlers that wait for this very
+		// disconnect, so it must not wait for a free one.
+		if f.frameType == frameTypeIDHaproxyDisconnect {
+			if err := c.frameHandler(f); err != nil {
+				return err
+			}
+			return context.Cause(c.ctx)
+		}
+
 		c.as.schedule(f, c)
 	}
 }
-- 
2.43.0


From fb1ca2402f96e25790adb238eaa6d1a93a12aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 10/31] fix: return no key for unknown key types instead of
 panicking

The key type of a table definition comes from the remote peer. The caller
already turns a missing key into an error.
---
 peers/sticktable/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..71f2da9 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
-- 
2.43.0


From b148cfe2b7c724cb7b3016aef2353c9c68c01aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 11/31] fix: treat the glitch rate like every other rate in
 table definitions

Its period parameters were neither written nor read, so a definition with
glitch_rate lost its period and shifted whatever followed.
---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 71f2da9..cc5ff3b 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,7 +110,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From 7c014716e7d8d4f1193e14a2fb2f1efa19fb4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 12/31] fix: encode and decode dictionary entries like HAProxy
 does

The leading length covers the entry ID and the value with its length, not just
the value. Single byte values, IDs without a value and IDs that take several
bytes were misparsed on both sides and shifted the data behind them.
---
 peers/sticktable/values.go | 40 ++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..cd00a15 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -204,14 +204,23 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	// the length covers the ID and, if there is any, the value with its length
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
 		return offset, err
 	}
+	if id == 0 {
+		return offset, fmt.Errorf("invalid dictionary entry id: %d", id)
+	}
 	f.ID = id
 
-	if length == 1 {
+	if offset == len(b) {
 		return offset, nil
 	}
 
@@ -221,8 +230,8 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
-	if valueLength == 0 {
-		return offset, nil
+	if valueLength != uint64(len(b)-offset) {
+		return offset, fmt.Errorf("invalid dictionary value length: %d", valueLength)
 	}
 
 	value := make([]byte, valueLength)
@@ -307,7 +316,30 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 func (f *DictData) Marshal(b []byte) (int, error) {
 	var offset int
 
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
+	if f.ID == 0 {
+		if len(f.Value) > 0 {
+			return 0, fmt.Errorf("dictionary value without an id")
+		}
+
+		// No entries
+		return encoding.PutVarint(b, 0)
+	}
+
+	// the length covers the ID and, if there is any, the value with its length
+	var scratch [10]byte
+	length, err := encoding.PutVarint(scratch[:], f.ID)
+	if err != nil {
+		return offset, err
+	}
+	if len(f.Value) > 0 {
+		n, err := encoding.PutVarint(scratch[:], uint64(len(f.Value)))
+		if err != nil {
+			return offset, err
+		}
+		length += n + len(f.Value)
+	}
+
+	n, err := encoding.PutVarint(b[offset:], uint64(length))
 	offset += n
 	if err != nil {
 		return offset, err
-- 
2.43.0


From 51dc421dc27e6f64c8e0815c976d334d6acf20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 13/31] fix: report truncated stick-table messages as errors
 instead of panicking

Lengths announced by the remote peer were used to slice and allocate without
looking at what was actually received.
---
 peers/sticktable/sticktables.go | 10 ++++++++++
 peers/sticktable/values.go      | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..1c1f00e 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,6 +38,10 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +228,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index cd00a15..6079770 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +36,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +55,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +78,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +92,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
-- 
2.43.0


From 4d2b43476c0d073206d0b4a91d311a3083e3dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 14/31] fix: report insufficient space when encoding
 stick-table messages

Short buffers made the encoders panic, or truncate names, keys and values
without an error. Keys that can not be encoded are refused as well: a binary
key of the wrong size shifted the data behind it.
---
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 34 +++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 1c1f00e..51e8af8 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -123,6 +123,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(s.Name) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -197,11 +200,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 6079770..83be70a 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -261,6 +261,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -269,6 +273,13 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if addr := (*netip.Addr)(v); !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	a := (*netip.Addr)(v).As4()
 	copy(b, a[:])
 	return 4, nil
@@ -278,6 +289,13 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if addr := (*netip.Addr)(v); !addr.IsValid() {
+		return 0, fmt.Errorf("invalid ipv6 key: %s", addr)
+	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
@@ -289,10 +307,23 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, encoding.ErrInsufficientSpace
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
+	// A binary key has no length on the wire, any other size would shift
+	// the data behind it.
+	if uint64(len(*v)) != keySize {
+		return 0, fmt.Errorf("invalid binary key size: %d", len(*v))
+	}
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	return copy(b[:keySize], *v), nil
 }
 
@@ -377,6 +408,9 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 			return offset, err
 		}
 
+		if len(f.Value) > len(b)-offset {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		copy(b[offset:], f.Value)
 		offset += len(f.Value)
 	}
-- 
2.43.0


From 44156fa7b09066c38174381034b8a447798d3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 15/31] fix: leave nothing behind when a push fails

A batch with an entry that can not be encoded left the entries before it in
the output buffer, failed pushes consumed update IDs, and a panicking encoder
left the connection locked forever.
---
 peers/writer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..0331f3e 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,8 +170,9 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
-	w.nextUpdateID++
 
 	msgType := StickTableUpdateMessageTypeEntryUpdate
 	if entry.WithExpiry {
@@ -180,22 +181,19 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
+	w.nextUpdateID++
 
 	if err = w.writeMessageLocked(
 		MessageClassStickTableUpdates,
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
@@ -206,6 +204,14 @@ func (w *Writer) SendEntries(entries []*sticktable.EntryUpdate) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// Buffered messages can not be taken back, so a batch with an entry that
+	// can not be encoded is refused before anything is written.
+	for _, entry := range entries {
+		if _, err := marshalEntry(w.buf, entry, w.nextUpdateID); err != nil {
+			return fmt.Errorf("marshaling entry update: %w", err)
+		}
+	}
+
 	for _, entry := range entries {
 		updateID := w.nextUpdateID
 		w.nextUpdateID++
-- 
2.43.0


From d29027b72398df836c602c7d0d62eb12810831e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/31] fix: do not allocate message data that was only
 announced

A remote peer could terminate the whole process with a message header that
announces an impossible (panic) or huge (out of memory) amount of data.
---
 peers/protocol.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..7be1291 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -2,11 +2,13 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -187,7 +189,7 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 	m.MessageClass = MessageClass(header[0])
 	m.MessageType = header[1]
 
-	var readData int
+	var readData int64
 	// All messages with type >= 128 have a payload
 	if m.MessageType >= 128 {
 		dataLength, err := encoding.ReadVarint(r)
@@ -195,17 +197,21 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
-		if err != nil {
-			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
+		if dataLength > math.MaxInt64 {
+			return int64(n), fmt.Errorf("invalid data length: %d", dataLength)
 		}
-		if uint64(readData) != dataLength {
-			return int64(n + readData), fmt.Errorf("invalid amount read: %d != %d", dataLength, readData)
+
+		// The length is only announced by the remote peer, so the buffer grows
+		// with the data that is actually received.
+		var data bytes.Buffer
+		readData, err = io.CopyN(&data, r, int64(dataLength))
+		if err != nil {
+			return int64(n) + readData, fmt.Errorf("failed reading message data: %v", err)
 		}
+		m.Data = data.Bytes()
 	}
 
-	return int64(n + readData), nil
+	return int64(n) + readData, nil
 }
 
 func (t ErrorMessageType) OnMessage(m *rawMessage, c *protocolClient) error {
-- 
2.43.0


From 464794473489f94dc18c348a5d75a3a9c8f527d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 17/31] fix: do not lose messages sent directly behind the peer
 handshake

The scanner that reads the handshake consumed whatever else had already
arrived. Read exactly the three lines, and require all of them.
---
 peers/messages.go | 62 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..3949b27 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -2,6 +2,7 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -42,25 +43,64 @@ func NewHandshake(remotePeer string) *Handshake {
 }
 
 func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+	// Messages may follow directly behind the handshake, so nothing may be
+	// consumed behind its last line.
+	br, ok := r.(io.ByteReader)
+	if !ok {
+		br = singleByteReader{r}
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
+	line, err := readLine(br, &n)
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %s", &h.ProtocolIdentifier, &h.Version)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	h.RemotePeer, err = readLine(br, &n)
+	if err != nil {
+		return n, err
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	line, err = readLine(br, &n)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
+	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	return n, err
+}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+type singleByteReader struct {
+	io.Reader
+}
+
+func (r singleByteReader) ReadByte() (byte, error) {
+	var b [1]byte
+	_, err := io.ReadFull(r.Reader, b[:])
+	return b[0], err
+}
+
+// readLine reads a line without its line ending and adds the number of bytes
+// read to n.
+func readLine(r io.ByteReader, n *int64) (string, error) {
+	var line []byte
+	for {
+		b, err := r.ReadByte()
+		if err != nil {
+			return "", err
+		}
+		*n++
+
+		if b == '\n' {
+			return string(bytes.TrimSuffix(line, []byte{'\r'})), nil
+		}
+		if len(line) >= bufio.MaxScanTokenSize {
+			return "", bufio.ErrTooLong
+		}
+		line = append(line, b)
+	}
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From 88be3fb9c7892efa02833db1f9734acc47ee695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 18/31] fix: answer the peer handshake before the handler can
 push data

Updates pushed from within HandleHandshake were sent before the status line,
which makes HAProxy drop the session.
---
 peers/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 7be1291..fb10181 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -69,12 +69,14 @@ func (c *protocolClient) peerHandshake() error {
 		return err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
+	// The status line has to be the first thing on the wire, and the handler
+	// may already push updates.
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	c.handler.HandleHandshake(c.ctx, &h)
+
 	return nil
 }
 
-- 
2.43.0


From 41352152986a30af520f89b4add36b3d13cce358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 19/31] fix: follow stick-table switch messages

Ignoring them attributed the following updates to the previous table, with the
key and data types of that table.
---
 peers/protocol.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index fb10181..14cd904 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -28,6 +28,7 @@ type protocolClient struct {
 	nextHeartbeat       *time.Ticker
 	lastMessageTimer    *time.Timer
 	lastTableDefinition *sticktable.Definition
+	tableDefinitions    map[uint64]*sticktable.Definition
 	lastEntryUpdate     *sticktable.EntryUpdate
 
 	handler Handler
@@ -40,6 +41,7 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	c.bw = bw
 	c.handler = handler
 	c.wmu = wmu
+	c.tableDefinitions = make(map[uint64]*sticktable.Definition)
 	c.ctx, c.ctxCancel = context.WithCancel(ctx)
 	return &c
 }
@@ -253,10 +255,17 @@ func (t StickTableUpdateMessageType) OnMessage(m *rawMessage, c *protocolClient)
 			return err
 		}
 		c.lastTableDefinition = &std
+		c.tableDefinitions[std.StickTableID] = &std
 
 		return nil
 	case StickTableUpdateMessageTypeStickTableSwitch:
-		log.Printf("not implemented: %s", t)
+		stickTableID, _, err := encoding.Varint(m.Data)
+		if err != nil {
+			return err
+		}
+		// Updates for a table that was never defined are an error.
+		c.lastTableDefinition = c.tableDefinitions[stickTableID]
+
 		return nil
 	case StickTableUpdateMessageTypeUpdateAcknowledge:
 		// HAProxy sends ack messages after receiving our pushed updates.
-- 
2.43.0


From 9b146b15b74d35841c828c57a44102fdca4d8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 20/31] fix: close the handler of a peer connection exactly
 once, and last

The handler was closed twice when a timer raced with the end of the session,
not at all when the base context was cancelled before, and could get updates
after being closed: the inactivity timeout left the connection open. Timers now
only cancel the context, which closes the connection and ends Serve.
---
 peers/protocol.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 14cd904..3eb39e7 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -46,11 +46,10 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
+// Close tells the handler that the connection is over. It is called once Serve
+// has returned, so that it is the last call to the handler.
 func (c *protocolClient) Close() error {
 	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
 
 	return c.handler.Close()
 }
@@ -110,22 +109,43 @@ func (c *protocolClient) resetLastMessage() {
 }
 
 func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+	defer c.nextHeartbeat.Stop()
+	for {
+		select {
+		case <-c.nextHeartbeat.C:
+		case <-c.ctx.Done():
+			return
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.ctxCancel()
 			return
 		}
 	}
 }
 
 func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
+	select {
+	case <-c.lastMessageTimer.C:
+	case <-c.ctx.Done():
+		return
+	}
+
 	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	c.ctxCancel()
 }
 
 func (c *protocolClient) Serve() error {
+	// The connection does not outlive its context. Closing it is what ends a
+	// pending read.
+	if closer, ok := c.rw.(io.Closer); ok {
+		stop := context.AfterFunc(c.ctx, func() {
+			_ = closer.Close()
+		})
+		defer stop()
+	}
+
 	if err := c.peerHandshake(); err != nil {
 		return fmt.Errorf("handshake: %v", err)
 	}
@@ -150,6 +170,10 @@ func (c *protocolClient) Serve() error {
 			return fmt.Errorf("reading message: %v", err)
 		}
 
+		if c.ctx.Err() != nil {
+			return c.ctx.Err()
+		}
+
 		c.resetLastMessage()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
-- 
2.43.0


From c948278c5f9f8a806db798bbe54b2f3d3ac1b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 21/31] fix: do not drop peers for inactivity while their
 update is handled

The inactivity timer kept running while the handler was busy, although the
messages of the peer were just waiting to be read.
---
 peers/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 3eb39e7..e25ff47 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -174,10 +174,12 @@ func (c *protocolClient) Serve() error {
 			return c.ctx.Err()
 		}
 
-		c.resetLastMessage()
+		// The peer is not silent while the handler is busy with its message.
+		c.lastMessageTimer.Stop()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
 		}
+		c.resetLastMessage()
 	}
 }
 
-- 
2.43.0


From e1ca9169764a88dee8ee4fd4883a3a6b13a12fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 22/31] fix: cancel the handlers of an ended connection before
 saying goodbye

AGENT-DISCONNECT is sent on best effort, but the context was only cancelled
after it had been written, which never happens when the peer does not read.
---
 spop/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 9cca1f9..a2c20ee 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -38,14 +38,16 @@ func (c *protocolClient) Close() error {
 		return c.ctx.Err()
 	}
 
+	// Writing to a peer that does not read can block, the handlers must not
+	// wait for that.
+	c.ctxCancel(fmt.Errorf("closing client"))
+
 	// We ignore any error since the disconnect frame is delivered on
 	// best effort anyway.
 	_, _ = (&AgentDisconnectFrame{
 		ErrCode: ErrorUnknown,
 	}).WriteTo(c.rw)
 
-	c.ctxCancel(fmt.Errorf("closing client"))
-
 	return nil
 }
 
-- 
2.43.0


From 9a0422e3f845a5b510b203346e18c04804388033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 23/31] fix: do not allocate frames that were only announced

After negotiating a large frame size a peer could make the agent allocate up
to 2 GB per connection without sending a frame.
---
 spop/frame.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index f56498c..5d797d2 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -64,16 +64,26 @@ func (f *frame) readFrom(r io.Reader, limit uint32) (int64, error) {
 	}
 
 	f.buf.Reset()
-	f.buf.Grow(int(frameLen))
-	dataBuf := f.buf.WriteNBytes(int(frameLen))
 
-	// read full frame into buffer
-	n, err := io.ReadFull(r, dataBuf)
-	if err != nil {
-		return int64(n + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+	// Read the full frame into the buffer. The length is only announced by the
+	// remote side, so the buffer at most doubles with what was received.
+	read := 0
+	for {
+		chunk := min(int(frameLen)-read, max(read, maxFrameSize))
+		f.buf.Grow(chunk)
+		dataBuf := f.buf.WriteNBytes(chunk)
+
+		n, err := io.ReadFull(r, dataBuf)
+		read += n
+		if err != nil {
+			return int64(read + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+		}
+		if read == int(frameLen) {
+			break
+		}
 	}
 
-	return int64(n + len(f.length)), f.decodeHeader()
+	return int64(read + len(f.length)), f.decodeHeader()
 }
 
 // frameConn keeps the frames that are written by several workers apart.
-- 
2.43.0


From 99c4d2ca8c3fc051b9eee9107544312d3d694f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 24/31] fix: ignore a healthcheck item that is false

---
 spop/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a2c20ee..d1c22bf 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -158,7 +158,10 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			// A value of false can be ignored.
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0


From aaaad354de626c60f04fb2bd98e4baa119ca90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 25/31] fix: peers: send heartbeats while the handshake
 callback runs

---
 peers/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index e25ff47..7449b0e 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -76,6 +76,10 @@ func (c *protocolClient) peerHandshake() error {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	// The session has begun, however long the handler takes.
+	c.resetHeartbeat()
+	go c.heartbeat()
+
 	c.handler.HandleHandshake(c.ctx, &h)
 
 	return nil
@@ -150,9 +154,7 @@ func (c *protocolClient) Serve() error {
 		return fmt.Errorf("handshake: %v", err)
 	}
 
-	c.resetHeartbeat()
 	c.resetLastMessage()
-	go c.heartbeat()
 	go c.lastMessage()
 
 	for {
-- 
2.43.0


From 74defeb5c87dd6dcb3ce2ab58226eb88e414c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 26/31] fix: keep accepting connections after a temporary
 accept error

---
 peers/peers.go | 14 ++++++++++++++
 spop/agent.go  | 13 +++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..fa8b211 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -2,12 +2,17 @@ package peers
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"log"
 	"net"
 	"sync"
+	"time"
 )
 
+// acceptRetryDelay is the pause after a temporary error of a listener.
+const acceptRetryDelay = 10 * time.Millisecond
+
 type Peer struct {
 	Handler       Handler
 	HandlerSource func() Handler
@@ -54,6 +59,15 @@ func (a *Peer) Serve(l net.Listener) error {
 	for {
 		nc, err := l.Accept()
 		if err != nil {
+			// Running out of file descriptors, for example, passes once
+			// other connections are closed.
+			var ne net.Error
+			if errors.As(err, &ne) && ne.Temporary() && a.BaseContext.Err() == nil {
+				log.Println("accepting conn:", err)
+				time.Sleep(acceptRetryDelay)
+				continue
+			}
+
 			return fmt.Errorf("accepting conn: %w", err)
 		}
 
diff --git a/spop/agent.go b/spop/agent.go
index 545944b..9c4356f 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -8,8 +8,12 @@ import (
 	"math"
 	"net"
 	"runtime"
+	"time"
 )
 
+// acceptRetryDelay is the pause after a temporary error of a listener.
+const acceptRetryDelay = 10 * time.Millisecond
+
 type Agent struct {
 	Handler     Handler
 	BaseContext context.Context
@@ -46,6 +50,15 @@ func (a *Agent) Serve(l net.Listener) error {
 	for {
 		nc, err := l.Accept()
 		if err != nil {
+			// Running out of file descriptors, for example, passes once
+			// other connections are closed.
+			var ne net.Error
+			if errors.As(err, &ne) && ne.Temporary() && a.BaseContext.Err() == nil {
+				log.Println("accepting conn:", err)
+				time.Sleep(acceptRetryDelay)
+				continue
+			}
+
 			return fmt.Errorf("accepting conn: %w", err)
 		}
 
-- 
2.43.0


From dd8d9b1660a47e81462a03a985295650934df819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 27/31] fix: testutil: stop waiting for a HAProxy that did not
 start in time

The goroutine that polls for the sockets spun for the rest of the test process,
and would have panicked sending on the closed channel had they appeared.
---
 pkg/testutil/haproxy.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/testutil/haproxy.go b/pkg/testutil/haproxy.go
index 5020bac..e0f8399 100644
--- a/pkg/testutil/haproxy.go
+++ b/pkg/testutil/haproxy.go
@@ -144,11 +144,19 @@ http-request return status 200 content-type "text/plain" string "Hello World!\n"
 
 	RunProcess(tb, "haproxy", []string{"-f", haproxyConfigFile, "-L", tcfg.InstanceID})
 
-	c := make(chan bool)
-	defer close(c)
+	ready := make(chan struct{})
+	stop := make(chan struct{})
+	defer close(stop)
 
 	go func() {
 		for {
+			select {
+			case <-stop:
+				// the test did not wait any longer
+				return
+			default:
+			}
+
 			l, err := net.Dial("unix", tcfg.StatsSocket)
 			if err != nil {
 				continue
@@ -164,13 +172,13 @@ http-request return status 200 content-type "text/plain" string "Hello World!\n"
 			// if we were able to connect, exit and let the test run
 			break
 		}
-		c <- true
+		close(ready)
 	}()
 
 	select {
 	case <-time.After(3 * time.Second):
 		tb.Fatal("timeout while waiting for haproxy")
-	case <-c:
+	case <-ready:
 	}
 
 	return tcfg.FrontendSocket
-- 
2.43.0


From 135b6c9436e835ac644fa37bfa4a66156a2b7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:57 +0000
Subject: [PATCH 28/31] fix: peers: drop a silent peer that does not read its
 answers

A synchronisation request is answered by the goroutine that reads, and the
inactivity timer was stopped meanwhile. A peer that neither read nor sent
anything any more was kept for ever. Only the handler stops the timer now.
---
 peers/protocol.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 7449b0e..d7431f9 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -176,12 +176,10 @@ func (c *protocolClient) Serve() error {
 			return c.ctx.Err()
 		}
 
-		// The peer is not silent while the handler is busy with its message.
-		c.lastMessageTimer.Stop()
+		c.resetLastMessage()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
 		}
-		c.resetLastMessage()
 	}
 }
 
@@ -340,7 +338,10 @@ func (t StickTableUpdateMessageType) OnMessage(m *rawMessage, c *protocolClient)
 
 	c.lastEntryUpdate = &e
 
+	// The peer is not silent while the handler is busy with its message.
+	c.lastMessageTimer.Stop()
 	c.handler.HandleUpdate(c.ctx, &e)
+	c.resetLastMessage()
 
 	return nil
 }
-- 
2.43.0


From bfe06604b0e34d8a0114e77ebbc74be4fb8292b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:47 +0000
Subject: [PATCH 29/31] fix: let a peer server with a Handler be served again

Serve stored its own HandlerSource in the Peer, so that every later Serve or
ListenAndServe refused to start because both were set.
---
 peers/peers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peers/peers.go b/peers/peers.go
index fa8b211..9775b79 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -41,6 +41,10 @@ func (a *Peer) Serve(l net.Listener) error {
 		a.BaseContext = context.Background()
 	}
 
+	// The caller's fields stay as they are, so that it can call Serve again.
+	p := *a
+	a = &p
+
 	go func() {
 		<-a.BaseContext.Done()
 		l.Close()
-- 
2.43.0


From b36aacd6e1cb6e0f5d1eba07f201d81fead76b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:26 +0000
Subject: [PATCH 30/31] fix: keep serving when a connection is broken before it
 is set up

Setting the socket buffers of a connection that is already closed fails, which
made Serve return and ended the agent.
---
 spop/agent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spop/agent.go b/spop/agent.go
index 9c4356f..78dd106 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -63,13 +63,14 @@ func (a *Agent) Serve(l net.Listener) error {
 		}
 
 		if tcp, ok := nc.(*net.TCPConn); ok {
+			// A connection that is already broken must not end the listener.
 			err = tcp.SetWriteBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println("setting write buffer:", err)
 			}
 			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println("setting read buffer:", err)
 			}
 		}
 
-- 
2.43.0


From 89a735e9cf6b1d560c63c8f14e767f48fb01749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:25 +0000
Subject: [PATCH 31/31] fix: decoding into a used receiver keeps nothing of its
 former value

---
 peers/sticktable/sticktables.go | 3 +++
 peers/sticktable/values.go      | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 51e8af8..5895433 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -73,6 +73,8 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 	}
 	s.Expiry = expiry
 
+	s.DataTypes = nil
+
 	// The data types are values from 0 to 64. Currently only 24 are implemented,
 	// but we iterate over all possible values to capture potentially missing ones.
 	for i := 0; i < 64; i++ {
@@ -263,6 +265,7 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	}
 	offset += n
 
+	e.Data = nil
 	for _, dataType := range e.StickTable.DataTypes {
 		data := dataType.DataType.New()
 		if data == nil {
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 83be70a..468a80e 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -75,9 +75,6 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	if valueLength == 0 {
-		return n, nil
-	}
 	if valueLength > uint64(len(b)-n) {
 		return n, encoding.ErrUnterminatedSequence
 	}
@@ -211,6 +208,9 @@ func (f *DictData) String() string {
 }
 
 func (f *DictData) Unmarshal(b []byte) (int, error) {
+	// Nothing of an earlier entry may stay.
+	*f = DictData{}
+
 	var offset int
 	length, n, err := encoding.Varint(b[offset:])
 	offset += n
-- 
2.43.0

