From af5e5162605a38f2742ab9401476e95db4bb4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 01/39] fix: clear the optional parts of a reused transport
 packet

---
 ts/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..f9b2cbc 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -112,6 +112,9 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		return
 	}
 
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	var payloadSize uint32 = MaxPayloadSize
 
 	if packet.AdaptationFieldControl == FieldOnly || packet.AdaptationFieldControl == FieldThenPayload {
-- 
2.43.0


From df80467834f5ae9df7f83c9243a402003328f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 02/39] fix: reject adaptation field lengths that do not fit
 into the packet

---
 ts/adaptation_field.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..b8d6677 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,11 +1,16 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
 )
 
+// ErrInvalidLength is the error returned if a length inside of an adaptation
+// field does not fit into the structure that encloses it.
+var ErrInvalidLength = errors.New("invalid adaptation field length")
+
 // AdaptationFieldControl is the two bit code that appears in a transport
 // stream packet header that determines whether an Adapation Field appears
 // in the bit stream.
@@ -24,12 +29,16 @@ type TransportPrivateData struct {
 	data   []byte
 }
 
-func newTransportPrivateData(br bitreader.BitReader) (*TransportPrivateData, uint32, error) {
+// maxLength is the number of bytes available after the length byte.
+func newTransportPrivateData(br bitreader.BitReader, maxLength uint32) (*TransportPrivateData, uint32, error) {
 	tpd := TransportPrivateData{}
 	var err error
 	if tpd.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if tpd.length > maxLength {
+		return nil, 0, ErrInvalidLength
+	}
 	if tpd.length > 0 {
 		tpd.data = make([]byte, tpd.length)
 		_, err = io.ReadFull(br, tpd.data)
@@ -58,12 +67,16 @@ type AdaptationExt struct {
 	length uint32
 }
 
-func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
+// maxLength is the number of bytes available after the length byte.
+func newAdaptationExt(br bitreader.BitReader, maxLength uint32) (*AdaptationExt, uint32, error) {
 	ae := AdaptationExt{}
 	var err error
 	if ae.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if ae.length > maxLength {
+		return nil, 0, ErrInvalidLength
+	}
 	remainLength := ae.length
 
 	if remainLength >= 1 {
@@ -152,6 +165,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 	if err != nil {
 		return nil, 0, err
 	}
+	if remainLength > MaxPayloadSize-1 {
+		return nil, 0, ErrInvalidLength
+	}
 
 	// parse the adaptation field flags
 	if remainLength >= 1 {
@@ -220,7 +236,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 1 && af.TransportPrivateDataFlag {
 		var length uint32
-		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
+		if af.TransportPrivateData, length, err = newTransportPrivateData(br, remainLength-1); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
@@ -228,7 +244,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 2 && af.AdaptationFieldExtensionFlag {
 		var length uint32
-		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
+		if af.AdapatationExtension, length, err = newAdaptationExt(br, remainLength-1); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
-- 
2.43.0


From 4ef1d9c57063a289ffdd6b7e48b394d681c826b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 03/39] fix: consume the whole adaptation field extension

---
 ts/adaptation_field.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index b8d6677..c5e4b3e 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -130,6 +130,17 @@ func newAdaptationExt(br bitreader.BitReader, maxLength uint32) (*AdaptationExt,
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes
+	if remainLength > 0 {
+		if err = br.Skip(uint(remainLength) * 8); err != nil {
+			return nil, 0, err
+		}
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From 9ae8518781e22212647501395d4038be24815ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 04/39] fix: report read errors while skipping reserved
 adaptation field bits

---
 ts/adaptation_field.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index c5e4b3e..409e428 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -89,7 +89,9 @@ func newAdaptationExt(br bitreader.BitReader, maxLength uint32) (*AdaptationExt,
 		if ae.SeamlessSpliceFlag, err = br.Read1(); err != nil {
 			return nil, 0, err
 		}
-		br.Skip(5)
+		if err = br.Skip(5); err != nil {
+			return nil, 0, err
+		}
 		remainLength--
 	}
 
@@ -104,7 +106,9 @@ func newAdaptationExt(br bitreader.BitReader, maxLength uint32) (*AdaptationExt,
 	}
 
 	if remainLength >= 3 && ae.PiecewiseRateFlag {
-		br.Skip(2)
+		if err = br.Skip(2); err != nil {
+			return nil, 0, err
+		}
 		if ae.PiecewiseRate, err = br.Read32(22); err != nil {
 			return nil, 0, err
 		}
@@ -120,12 +124,16 @@ func newAdaptationExt(br bitreader.BitReader, maxLength uint32) (*AdaptationExt,
 			return nil, 0, err
 		}
 		ae.DTSNextAU = v << 30
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v << 15
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From 4aeb77a559ec68fbfc8b2860831209b740517f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 05/39] fix: consume all 188 bytes of a transport packet
 without payload

---
 ts/packet.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ts/packet.go b/ts/packet.go
index f9b2cbc..998e857 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -127,15 +127,17 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		payloadSize -= length + 1
 	}
 
-	if packet.AdaptationFieldControl == PayloadOnly || packet.AdaptationFieldControl == FieldThenPayload {
-		packet.Payload = packet.payloadBuffer[0:payloadSize]
+	// without a payload, the rest of the packet is still consumed
+	payload := packet.payloadBuffer[0:payloadSize]
+	_, err = io.ReadFull(br, payload)
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	} else if err != nil {
+		return
+	}
 
-		_, err = io.ReadFull(br, packet.Payload)
-		if err == io.EOF {
-			return io.ErrUnexpectedEOF
-		} else if err != nil {
-			return
-		}
+	if packet.AdaptationFieldControl == PayloadOnly || packet.AdaptationFieldControl == FieldThenPayload {
+		packet.Payload = payload
 	}
 
 	return nil
-- 
2.43.0


From 33a1fbcbd420faa691075845dfad4596fb71cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 06/39] fix: clear the header and payload of a reused PES
 packet

---
 pes/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..700e01d 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -66,6 +66,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	packet.Header = nil
+	packet.Payload = nil
+
 	packet.StreamID, err = reader.Read32(8)
 	if err != nil {
 		return err
-- 
2.43.0


From 9570aab7849d7d3885848d722842adba48977ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 07/39] fix: reject PES lengths that are shorter than what they
 enclose

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..0e321a8 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if header.HeaderDataLength < bytesRead-minimumHeaderSize {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 700e01d..7efcd22 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -88,6 +89,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if packet.PacketLength < headerLen {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 6af37bf73d3267e8bdde3528d7183a5b5896ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 08/39] fix: read the payload of PES packets without a header

---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 7efcd22..ff93241 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -113,6 +113,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		payloadLen := int(packet.PacketLength)
+		packet.Payload = make([]byte, payloadLen)
+		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3f764a1cec250d2f31d11b1dd2871029115ebc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 09/39] fix: report a truncated PES packet as
 io.ErrUnexpectedEOF

---
 pes/extension.go |  4 +++-
 pes/packet.go    | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..a5e25d5 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -52,7 +52,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 		extension.PrivateData = make([]byte, 16)
 		_, err := io.ReadAtLeast(r, extension.PrivateData, 16)
 		bytesRead += 16
-		if err != nil {
+		if err == io.EOF {
+			return nil, 0, io.ErrUnexpectedEOF
+		} else if err != nil {
 			return nil, 0, err
 		}
 	}
diff --git a/pes/packet.go b/pes/packet.go
index ff93241..9fede79 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -95,7 +95,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-			if err != nil {
+			if err == io.EOF {
+				return io.ErrUnexpectedEOF
+			} else if err != nil {
 				return err
 			}
 		} else {
@@ -110,14 +112,18 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		payloadLen := int(packet.PacketLength)
 		junk := make([]byte, payloadLen)
 		_, err = io.ReadAtLeast(reader, junk, payloadLen)
-		if err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if err != nil {
 			return err
 		}
 	default:
 		payloadLen := int(packet.PacketLength)
 		packet.Payload = make([]byte, payloadLen)
 		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-		if err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From b22503e6b6365d96bfc8236e4ee0165b6b9ed155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 10/39] fix: report read errors instead of a missing marker in
 PES headers

---
 pes/extension.go |  4 +++-
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index a5e25d5..8e67104 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -68,7 +68,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
diff --git a/pes/header.go b/pes/header.go
index 0e321a8..269ccb1 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,10 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	}
+	if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -202,7 +205,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -214,7 +220,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -226,7 +235,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -238,7 +250,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
-- 
2.43.0


From 019a82fd2274bff6fc30897c3a692bfffc2409b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 11/39] fix: skip unsupported PES header fields instead of
 panicking

---
 pes/extension.go | 26 +++++++++++++++++++++++---
 pes/header.go    | 30 +++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 8e67104..51adea9 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -60,11 +60,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(16); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -87,7 +97,17 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if err = r.Skip(1); err != nil {
+			return nil, 0, err
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index 269ccb1..41a6357 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -139,23 +139,43 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		if err = reader.Skip(48); err != nil {
+			return nil, 0, err
+		}
+
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		if err = reader.Skip(24); err != nil {
+			return nil, 0, err
+		}
+
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		if err = reader.Skip(8); err != nil {
+			return nil, 0, err
+		}
+
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		if err = reader.Skip(8); err != nil {
+			return nil, 0, err
+		}
+
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		if err = reader.Skip(16); err != nil {
+			return nil, 0, err
+		}
+
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From 670b235d9f6ca023c969b1b2eb4b2cdbfc7f041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 12/39] fix: store the video bound of a system header in
 VideoBound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From b6460cd111df6022f0bb3115b7ed278732b2677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 13/39] fix: report read errors while skipping pack stuffing

---
 ps/pack_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..424e2b6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,9 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			if err := r.Skip(8); err != nil { // stuffing_byte
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From 705d5f0a658bbaed6698de38e7acce60d1f12c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 14/39] fix: report the read error of colour_description

---
 video/sequence_display_extension.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/sequence_display_extension.go b/video/sequence_display_extension.go
index 83f2ae7..3f0d7c9 100644
--- a/video/sequence_display_extension.go
+++ b/video/sequence_display_extension.go
@@ -26,6 +26,9 @@ func sequence_display_extension(br bitreader.BitReader) (*SequenceDisplayExtensi
 	}
 
 	sde.colour_description, err = br.Read1()
+	if err != nil {
+		return nil, err
+	}
 	if sde.colour_description {
 		sde.colour_primaries, err = br.Read32(8)
 		if err != nil {
-- 
2.43.0


From 04d885f21155de9d422aae22eb48fc2e8b4d6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 15/39] fix: report a failed extension id assertion of a quant
 matrix extension

---
 video/quant_matrix_extension.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..b60e38c 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -19,7 +19,9 @@ package video
 //
 func (vs *VideoSequence) quant_matrix_extension() error {
 
-	QuantMatrixExtensionID.Assert(vs)
+	if err := QuantMatrixExtensionID.Assert(vs); err != nil {
+		return err
+	}
 
 	if load, err := vs.Read1(); err != nil {
 		return err
-- 
2.43.0


From b9684885001767ca4cd6b7fbc45c686abedcf1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 16/39] fix: reject extension data behind a group of pictures
 header instead of looping forever

---
 video/extension_and_user_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..35c4d1d 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -14,6 +14,9 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			if _, err := br.user_data(); err != nil {
 				return err
 			}
+		} else {
+			// extensions never follow a group of pictures header
+			return ErrUnexpectedStartCode
 		}
 	}
 
-- 
2.43.0


From 573d37686eddeec3ea810e431527755630ddb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 17/39] fix: report unsupported video extensions with an error
 instead of panicking

---
 video/extension_and_user_data.go     | 20 +++++++++++---------
 video/sequence_scalable_extension.go |  6 ++----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 35c4d1d..186a7ba 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -1,5 +1,7 @@
 package video
 
+import "errors"
+
 func (br *VideoSequence) extension_and_user_data(i int) error {
 	for {
 		if nextbits, err := br.Peek32(32); err != nil {
@@ -66,11 +68,11 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			case CopyrightExtensionID:
-				copyright_extension()
+				return copyright_extension()
 			case PictureDisplayExtensionID:
-				picture_display_extension()
+				return picture_display_extension()
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				return picture_spatial_scalable_extension()
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -82,14 +84,14 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
+func copyright_extension() error {
+	return errors.New("unsupported: copyright_extension")
 }
 
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
+func picture_display_extension() error {
+	return errors.New("unsupported: picture_display_extension")
 }
 
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
+func picture_spatial_scalable_extension() error {
+	return errors.New("unsupported: picture_spatial_scalable_extension")
 }
diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..a46b226 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -1,5 +1,6 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
 type ScalableMode uint32
@@ -49,8 +50,6 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
-
 	/*
 		scalable_mode 2 uimsbf
 		layer_id 4 uimsbf
@@ -71,6 +70,5 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
+	return nil, errors.New("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From 1e4209e026cf8861d00e262ea299b9836e5590c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 18/39] fix: stop searching for the first payload packet when
 the source fails

---
 ts/payload_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..99e8dac 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -45,6 +45,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil
 				return
 			}
 
@@ -96,7 +97,7 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b2311324d6d67e9cd11bbb7ba2be4ba17b2fe290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 19/39] fix: keep packets outside of the filter and the range
 out of the payload

---
 ts/payload_reader.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 99e8dac..be68a87 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -73,18 +73,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
@@ -103,7 +103,9 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From da0f8c071fc6b5e07bb8530f59fa6065ef75e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 20/39] fix: deliver the last payload unit before the error of
 the source

---
 ts/payload_unit_reader.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..8258c51 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,6 +36,7 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
@@ -65,6 +66,10 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 
 func (stream *payloadUnitBuffer) fill() (n int, err error) {
 
+	if stream.err != nil {
+		return 0, stream.err
+	}
+
 	// initialize
 	if stream.currentPacket == nil {
 		stream.currentPacket = new(Packet)
@@ -75,9 +80,9 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			if isStart {
 				break
 			}
-			err = stream.next()
-			if err != nil {
-				return
+			stream.err = stream.next()
+			if stream.err != nil {
+				return 0, stream.err
 			}
 		}
 	}
@@ -92,8 +97,9 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
+		// the open unit is delivered before the error is
+		stream.err = stream.next()
+		if stream.err != nil {
 			break
 		}
 
-- 
2.43.0


From 7892db5c5a0f1d42d53a5bad9a6c2f70b24799cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 21/39] fix: deliver every demultiplexed packet in its own
 storage

---
 ts/demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..31a4ec0 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,7 +68,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
-			err := p.Next(tsd.reader)
+			// receivers keep the packet, so each one gets its own storage
+			p, err := NewPacket(tsd.reader)
 
 			if err != nil {
 				tsd.lastErr = err
-- 
2.43.0


From cf0ae4b5b587ebeb55bed51a111189d6e3bd5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 22/39] fix: emit the payload units of a packet channel

---
 ts/packet_channel.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..68fe79f 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,8 +1,5 @@
 package ts
 
-import "bytes"
-import "io/ioutil"
-
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
 
@@ -19,25 +16,29 @@ func (input PacketChannel) PayloadOnly() <-chan []byte {
 }
 
 func (input PacketChannel) PayloadUnit() <-chan []byte {
-	var buf bytes.Buffer
+	var unit []byte
 	output := make(chan []byte)
 	started := false
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
-				} else {
-					started = true
+					output <- unit
 				}
+				started = true
+				unit = nil
+			}
+
+			if started {
+				unit = append(unit, packet.Payload...)
 			}
 		}
+
+		// the last unit ends with the input
+		if started {
+			output <- unit
+		}
 	}()
 	return output
 }
-- 
2.43.0


From 785e33bc7a0a77c3b14f2ee9958ed4e021e82834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 23/39] fix: report the errors and the byte count of a program
 stream pack reader

---
 ps/pack_reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..866b194 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -41,7 +41,7 @@ func (pr packreader) Read(d []byte) (int, error) {
 
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		return n, err
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -52,13 +52,13 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		return n, err
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return n, err
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
-- 
2.43.0


From 7d2584f2ce938ddfb06ffc8d7f68c66bd288811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 24/39] fix: report the errors that end the packets of a pack

---
 ps/decoder.go |  5 ++++-
 ps/pack.go    | 16 ++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..396c952 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -31,7 +31,10 @@ func (d *decoder) Go() <-chan bool {
 
 			d.packs <- pack
 
-			<-packComplete
+			if err := <-packComplete; err != nil {
+				d.err = err
+				return
+			}
 
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..2e160a5 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -13,10 +13,10 @@ func (p *Pack) Packets() pes.PacketChannel {
 }
 
 // TODO better errors?
-func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
+func readPack(r bitreader.BitReader) (*Pack, <-chan error, error) {
 	var err error
 
-	packComplete := make(chan bool)
+	packComplete := make(chan error)
 
 	pack := Pack{
 		packs: make(chan *pes.Packet),
@@ -28,25 +28,29 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 	}
 
 	go func() {
+		var err error
+		var nextbits uint32
+		var packet *pes.Packet
+
 		defer close(packComplete)
-		defer func() { packComplete <- true }()
+		defer func() { packComplete <- err }()
 		defer close(pack.packs)
 
 		for true {
 
-			if nextbits, err := r.Peek32(24); err != nil {
+			if nextbits, err = r.Peek32(24); err != nil {
 				return
 			} else if nextbits != StartCodePrefix {
 				break
 			}
 
-			if nextbits, err := r.Peek32(32); err != nil {
+			if nextbits, err = r.Peek32(32); err != nil {
 				return
 			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {
 				return
 			}
 
-			if packet, err := pes.NewPacket(r); err != nil {
+			if packet, err = pes.NewPacket(r); err != nil {
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From 28977eb3ebb451e82ae391c575e9ef3931f65520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 25/39] fix: report the error of a coded block pattern

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..75050ae 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From 7bd7e6e90c4c607c1e660ef93674a0c7788114c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 26/39] fix: do not resume a sequence whose extension was never
 read

---
 video/frame_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..996c499 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -12,7 +12,7 @@ var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video st
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil {
 		goto RESUME
 	}
 
-- 
2.43.0


From ed134be135b75637d5e34eb12d2c5fdf5e7d5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 27/39] fix: use downloaded quantisation matrices in zigzag
 order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 12 ++++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index b60e38c..f4a1e2c 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -36,8 +36,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -53,8 +53,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -70,7 +70,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -86,7 +86,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverseScan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..6ae66c9 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,18 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan returns the matrix whose entries were transmitted in zigzag
+// scanning order (7.3.1) and are stored in m in the order they were received.
+func (m quantisationMatrix) inverseScan() (w quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			w[v][u] = m[n>>3][n&7]
+		}
+	}
+	return w
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From ab7dd1d5e082a72e35d349eff56086b2aead77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 28/39] fix: reject coefficient runs that leave the block

---
 video/block.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..be96b46 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+// ErrTooManyCoefficients is returned when the coefficients of a block run past its end.
+var ErrTooManyCoefficients = errors.New("too many coefficients in block")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -93,6 +97,8 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				QFS[n] = 0
 				n = n + 1
 			}
+		} else if n+run >= blockSize {
+			return ErrTooManyCoefficients
 		} else {
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
-- 
2.43.0


From fa59a64ff03151c47544c8fbd7e22d2201f79ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 29/39] fix: infer the motion type of concealment vectors

---
 video/motion_vector_info.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..f4fa567 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,15 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	if mb.macroblock_type.macroblock_intra {
+		// concealment vectors have no motion type: they are inferred to be
+		// frame-based in frame pictures, and field-based in field pictures
+		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
-- 
2.43.0


From b7b8db928669defb2dff0e15d6644bd77360dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 30/39] fix: a single motion vector updates both predictors

---
 video/motion_vectors.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..4cc7d18 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -167,7 +167,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.vertical_field_select[0][s] = val
 			}
 		}
-		return motion_vector(0, s)
+		if err := motion_vector(0, s); err != nil {
+			return err
+		}
+		// a single vector updates both predictors (table 7-9)
+		mvd.predictions[1][s] = mvd.predictions[0][s]
 	} else {
 		if val, err := fp.Read32(1); err != nil {
 			return err
-- 
2.43.0


From 993c2802cda8b07ff4e12626c1da4ecbc72ab9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 31/39] fix: apply the slice vertical position extension

---
 video/slice.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..aa4ffee 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -39,6 +39,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	if br.SequenceHeader.vertical_size_value > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+		mb_row += int(s.slice_vertical_position_extension) << 7
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
@@ -48,13 +56,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 2e10e1c2c69528dea291ed08120ba31374800de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 32/39] fix: read the slice position extension by the full
 vertical size

---
 video/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/slice.go b/video/slice.go
index aa4ffee..bbb5a7c 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -39,7 +39,7 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
 		s.slice_vertical_position_extension, err = br.Read32(3)
 		if err != nil {
 			return err
-- 
2.43.0


From f24a2ec0e9a22c2a9c80ac60fc7543ef8701d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 33/39] fix: do not predict from the reference pictures of an
 earlier picture

---
 video/copy_macroblocks.go | 5 +++++
 video/frame_store.go      | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..8fb497e 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -3,6 +3,11 @@ package video
 import "image"
 
 func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+	if src == nil {
+		// no reference picture was decoded
+		return
+	}
+
 	// Copy Y
 	{
 		y := row * 16
diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..52a28f7 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -20,6 +20,8 @@ func (fs *frameStore) gop() {
 }
 
 func (fs *frameStore) set(current_temporal_reference uint32) {
+	// without a matching reference, nothing may be left of the last picture
+	fs.past, fs.future = nil, nil
 	for _, ref := range fs.frames {
 		if ref.frame != nil {
 			if ref.previous_gop == true ||
-- 
2.43.0


From 8526306c922af08575e62012aa3966d3d45af48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 34/39] fix: temporal references count modulo 1024

---
 video/frame_store.go    | 11 ++++++++++-
 video/video_sequence.go |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/video/frame_store.go b/video/frame_store.go
index 52a28f7..d74cd4b 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -2,6 +2,15 @@ package video
 
 import "image"
 
+// temporal references count modulo 1024
+const temporalReferenceMask = 1<<10 - 1
+
+// precedes says whether temporal reference a comes before b in display order.
+func precedes(a, b uint32) bool {
+	d := (b - a) & temporalReferenceMask
+	return d != 0 && d <= temporalReferenceMask/2
+}
+
 type referenceFrame struct {
 	frame              *image.YCbCr
 	temporal_reference uint32
@@ -25,7 +34,7 @@ func (fs *frameStore) set(current_temporal_reference uint32) {
 	for _, ref := range fs.frames {
 		if ref.frame != nil {
 			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
+				precedes(ref.temporal_reference, current_temporal_reference) {
 				fs.past = ref.frame
 			} else {
 				fs.future = ref.frame
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..1a19176 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -83,7 +83,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.frameCounter = (vs.frameCounter + 1) & temporalReferenceMask
 		return img, nil
 	}
 
@@ -92,7 +92,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.frameCounter = (vs.frameCounter + 1) & temporalReferenceMask
 			return img, nil
 		}
 	}
-- 
2.43.0


From e8de9d91ea32b6899168baa86dc8acfdc5a7f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 35/39] fix: interlaced frames are whole macroblocks high in
 each field

---
 video/picture_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..170e50f 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -25,6 +25,10 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
+	if self.SequenceExtension.progressive_sequence == 0 {
+		// each field has whole macroblocks
+		h = (h + 31) &^ 31
+	}
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
 	for {
-- 
2.43.0


From 16bc8210150121d21d40fe7c02fe2215058dc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 36/39] fix: chroma vectors are divided with truncation toward
 zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..20a1bb7 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From 71a97d7b970ce955577d76a8f7acaeb926d1c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 37/39] fix: round half-sample and bidirectional predictions to
 the nearest

---
 video/motion_compensation.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 20a1bb7..667573c 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -106,7 +106,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 	for v := 0; v < 8; v++ {
 		for u := 0; u < 8; u++ {
 			var pel int32 = 0
-			var samples uint = 0
+			samples := 0
 			if fState.active {
 				i := fState.i + (v * fState.stride) + u
 				samples++
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,20 +136,23 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) / 2
+			}
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From 4756cf1b50a6629254a8a1d8c2202cefaf91d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 38/39] fix: predict blocks with field DCT coding at the lines
 of their field

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 29 +++++++++++++++++++++++------
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 8fb497e..9b27e41 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -43,7 +43,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
diff --git a/video/macroblock.go b/video/macroblock.go
index 75050ae..7150334 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -160,7 +160,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 667573c..ed00980 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -4,12 +4,13 @@ type motionCompensationState struct {
 	active  bool
 	i       int
 	channel []uint8
-	stride  int
+	stride  int // from a line to the next one
+	step    int // from a line of the block to the next one
 	h_half  bool
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -52,9 +53,17 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
-			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			if interlaced {
+				// the lines of the block alternate with those of the other field
+				bState.step = bState.stride * 2
+				bState.i = (((mb_row * 16) + (i&2)>>1) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			} else {
+				bState.step = bState.stride
+				bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			bState.stride = image.CStride
+			bState.step = bState.stride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
@@ -93,9 +102,17 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
-			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			if interlaced {
+				// the lines of the block alternate with those of the other field
+				fState.step = fState.stride * 2
+				fState.i = (((mb_row * 16) + (i&2)>>1) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			} else {
+				fState.step = fState.stride
+				fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			fState.stride = image.CStride
+			fState.step = fState.stride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
@@ -108,7 +125,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			samples := 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.step) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -128,7 +145,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.step) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 13d187e4f13dbd5376df5b738345a375b8966fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 39/39] fix: malformed slices end the decoding of a picture
 with an error

---
 video/picture_data.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index 170e50f..e1d2d85 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -1,7 +1,13 @@
 package video
 
+import "errors"
+import "fmt"
 import "image"
 
+// ErrInvalidPictureData is the error returned if the slices of a picture cannot be decoded,
+// for example because they refer to rows or samples outside of the picture.
+var ErrInvalidPictureData = errors.New("invalid picture data")
+
 func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
@@ -24,6 +30,13 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	// whatever malformed slices refer to, decoding them ends with an error
+	defer func() {
+		if r := recover(); r != nil {
+			frame, err = nil, fmt.Errorf("%w: %v", ErrInvalidPictureData, r)
+		}
+	}()
+
 	w, h := self.Size()
 	if self.SequenceExtension.progressive_sequence == 0 {
 		// each field has whole macroblocks
-- 
2.43.0

