From 4ce6bf27069b179cf642b481ba44bcdc80dbf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 01/33] fix: bits: do not panic when reading or writing zero
 bits at the end of a buffer

---
 pkg/bits/read.go  | 4 ++++
 pkg/bits/write.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..c55df16 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
diff --git a/pkg/bits/write.go b/pkg/bits/write.go
index a9d870b..c8f3836 100644
--- a/pkg/bits/write.go
+++ b/pkg/bits/write.go
@@ -2,6 +2,10 @@ package bits //nolint:revive
 
 // WriteBitsUnsafe writes N bits.
 func WriteBitsUnsafe(buf []byte, pos *int, v uint64, n int) {
+	if n == 0 {
+		return
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		buf[*pos>>0x03] |= byte(v << (res - n))
-- 
2.43.0


From 4772d89e10be750ca6b8f7bdd096302361c9e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 02/33] fix: bits: reject unsigned golomb codes that do not fit
 in 32 bits

---
 pkg/bits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index c55df16..e823557 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -71,7 +71,7 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		}
 
 		leadingZeros++
-		if leadingZeros > 32 {
+		if leadingZeros > 31 {
 			return 0, fmt.Errorf("invalid value")
 		}
 	}
-- 
2.43.0


From c822ba01367f4cbe13245f17e2eba4d9fafe7b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 03/33] fix: bits: compute large signed golomb values without
 overflow

---
 pkg/bits/read.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e823557..02a4789 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -100,11 +100,10 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
-	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+	if (v & 0x01) != 0 {
+		return int32(v/2) + 1, nil
 	}
-	return -vi / 2, nil
+	return -int32(v / 2), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From fd7f7f3febbd3da7ef060875a931e40948978244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 04/33] fix: h264: compute the width of cropped monochrome
 streams

---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From 3d2d4a2e7f2e73c023e15d63b92dad4be88d45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 05/33] fix: h264, h265, av1: do not panic on empty units when
 inspecting access units

---
 pkg/codecs/av1/is_random_access.go  | 4 ++++
 pkg/codecs/h264/dts_extractor.go    | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 pkg/codecs/h265/dts_extractor.go    | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..0f76298 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -112,6 +112,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..d5fdc36 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -158,6 +158,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0


From d06894548aa682a907edcda0ca9aa78ecb22335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 06/33] fix: av1: reject LEB128 values that do not fit in 32
 bits or 8 bytes

---
 pkg/codecs/av1/leb128.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/codecs/av1/leb128.go b/pkg/codecs/av1/leb128.go
index fbb2783..da629db 100644
--- a/pkg/codecs/av1/leb128.go
+++ b/pkg/codecs/av1/leb128.go
@@ -2,6 +2,7 @@ package av1
 
 import (
 	"fmt"
+	"math"
 )
 
 // LEB128 is a unsigned integer that can be decoded/encoded from/to the LEB128 format.
@@ -11,8 +12,7 @@ type LEB128 uint32
 // Unmarshal decodes an unsigned integer from the LEB128 format.
 // It returns the number of consumed bytes.
 func (l *LEB128) Unmarshal(buf []byte) (int, error) {
-	*l = 0
-	n := 0
+	var v uint64
 
 	for i := range 8 {
 		if len(buf) == 0 {
@@ -22,15 +22,19 @@ func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 		var b byte
 		b, buf = buf[0], buf[1:]
 
-		*l |= (LEB128(b&0b01111111) << (i * 7))
-		n++
+		v |= (uint64(b&0b01111111) << (i * 7))
 
 		if (b & 0b10000000) == 0 {
-			break
+			if v > math.MaxUint32 {
+				return 0, fmt.Errorf("value exceeds 32 bits")
+			}
+
+			*l = LEB128(v)
+			return i + 1, nil
 		}
 	}
 
-	return n, nil
+	return 0, fmt.Errorf("value exceeds 8 bytes")
 }
 
 // MarshalSize returns the marshal size in bytes of the unsigned integer in LEB128 format.
-- 
2.43.0


From 029bc981421a8830091d637955e7e05a18457a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 07/33] fix: mpeg4video: do not panic when a configuration ends
 with a truncated start code

---
 pkg/codecs/mpeg4video/is_valid_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..4348d57 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -19,7 +19,7 @@ func IsValidConfig(config []byte) error {
 
 	for pos < len(config)-3 {
 		i := bytes.Index(config[pos:], startCodePrefix)
-		if i == -1 {
+		if i == -1 || (pos+i+3) >= len(config) {
 			break
 		}
 
-- 
2.43.0


From 2b8c4d055910deeb29060c18ee71cc5e48d905d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 08/33] fix: vp9: do not report a repeated frame as random
 access

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From 2fa8c8a45229640ea25c9d6a3b78c5191ef26a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 09/33] fix: mpeg1audio: compute the length of MPEG-2 layer III
 frames

---
 pkg/codecs/mpeg1audio/frame_header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..dc8134a 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,11 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	n := (h.SampleCount() / 8) * h.Bitrate / h.SampleRate
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		n++
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return n
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From 033ffe3438a4c3c2466e689483dac924069f4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 10/33] fix: mpeg4audio: reject access units and elements that
 do not fit in ADTS and LOAS length fields

---
 pkg/codecs/mpeg4audio/adts.go              | 4 ++++
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..3d34b3c 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -159,6 +159,10 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			}
 		}
 
+		if len(pkt.AU) > MaxAccessUnitSize {
+			return nil, fmt.Errorf("access unit size (%d) is too big, maximum is %d", len(pkt.AU), MaxAccessUnitSize)
+		}
+
 		frameLen := len(pkt.AU) + 7
 
 		const fullness = 0x07FF // like ffmpeg does
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..58ba0ef 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -53,6 +53,10 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+		if le > 0x1FFF {
+			return nil, fmt.Errorf("audio mux element size (%d) is too big, maximum is %d", le, 0x1FFF)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From db21f1d40040fc64cea5d6affa344a465cc20f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 11/33] fix: mpeg4audio: return errors of audio mux elements
 that cannot be encoded, check payload sizes before allocating

---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 23 +++++++++++++++-------
 pkg/codecs/mpeg4audio/payload_mux.go       |  5 +++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 09ab571..68401d5 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -84,7 +84,7 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	return nil
 }
 
-func (e AudioMuxElement) marshalSize() int {
+func (e AudioMuxElement) marshalSize() (int, error) {
 	n := 0
 
 	if e.MuxConfigPresent {
@@ -106,7 +106,7 @@ func (e AudioMuxElement) marshalSize() int {
 			for lay := range p.Layers {
 				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
-					return 0
+					return 0, err
 				}
 			}
 		}
@@ -122,19 +122,28 @@ func (e AudioMuxElement) marshalSize() int {
 		n2++
 	}
 
-	return n2
+	return n2, nil
 }
 
 // Marshal encodes an AudioMuxElement.
 func (e AudioMuxElement) Marshal() ([]byte, error) {
-	buf := make([]byte, e.marshalSize())
+	if e.StreamMuxConfig.OtherDataPresent {
+		return nil, fmt.Errorf("OtherDataPresent is not supported (yet)")
+	}
+
+	size, err := e.marshalSize()
+	if err != nil {
+		return nil, err
+	}
+
+	buf := make([]byte, size)
 	pos := 0
 
 	if e.MuxConfigPresent {
 		bits.WriteFlagUnsafe(buf, &pos, e.UseSameStreamMux)
 
 		if !e.UseSameStreamMux {
-			err := e.StreamMuxConfig.marshalToBits(buf, &pos)
+			err = e.StreamMuxConfig.marshalToBits(buf, &pos)
 			if err != nil {
 				return nil, err
 			}
@@ -151,14 +160,14 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 			li.Programs[prog].Layers = make([]payloadLengthInfoLayer, len(p.Layers))
 
 			for lay := range p.Layers {
-				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
+				err = li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
 					return nil, err
 				}
 			}
 		}
 
-		err := li.marshalToBits(buf, &pos)
+		err = li.marshalToBits(buf, &pos)
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/codecs/mpeg4audio/payload_mux.go b/pkg/codecs/mpeg4audio/payload_mux.go
index 99414e8..23a909b 100644
--- a/pkg/codecs/mpeg4audio/payload_mux.go
+++ b/pkg/codecs/mpeg4audio/payload_mux.go
@@ -26,6 +26,11 @@ func (m *payloadMux) unmarshalBits(buf []byte, pos *int, li *payloadLengthInfo)
 				return err
 			}
 
+			err = bits.HasSpace(buf, *pos, int(payloadLength)*8)
+			if err != nil {
+				return err
+			}
+
 			payload := make([]byte, payloadLength)
 
 			for i := range payloadLength {
-- 
2.43.0


From be2b3acac2fa9fca310458c9830a78027d8949c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 12/33] fix: mpeg4audio: reject LATM other data lengths that do
 not fit in 32 bits

---
 pkg/codecs/mpeg4audio/stream_mux_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index 6362170..a42fcb9 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -2,6 +2,7 @@ package mpeg4audio
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/bluenviron/mediacommon/v2/pkg/bits"
 )
@@ -158,6 +159,9 @@ func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
 
 	if c.OtherDataPresent {
 		for {
+			if c.OtherDataLenBits > (math.MaxUint32 >> 8) {
+				return fmt.Errorf("OtherDataLenBits is too big")
+			}
 			c.OtherDataLenBits *= 256
 
 			err = bits.HasSpace(buf, *pos, 9)
-- 
2.43.0


From a56b2358dc7fb463821673145eeeb2ca389c10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 13/33] fix: rewindablereader: do not lose bytes when the
 recorded size is exceeded

---
 pkg/rewindablereader/reader.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/rewindablereader/reader.go b/pkg/rewindablereader/reader.go
index c3563e9..b2565fd 100644
--- a/pkg/rewindablereader/reader.go
+++ b/pkg/rewindablereader/reader.go
@@ -22,12 +22,17 @@ type Reader struct {
 // Read implements io.Reader.
 func (r *Reader) Read(p []byte) (int, error) {
 	if !r.rewinded {
-		n, err := r.R.Read(p)
+		// do not read bytes that cannot be recorded, otherwise they would be lost.
+		if len(p) > (maxRecordedSize - r.size) {
+			p = p[:maxRecordedSize-r.size]
 
-		if (r.size + n) > maxRecordedSize {
-			return 0, errors.New("max recorded size exceeded")
+			if len(p) == 0 {
+				return 0, errors.New("max recorded size exceeded")
+			}
 		}
 
+		n, err := r.R.Read(p)
+
 		entry := make([]byte, n)
 		copy(entry, p[:n])
 		r.entries = append(r.entries, entry)
-- 
2.43.0


From a614a09a217e202bd4309f98335edbc2b72ce0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 14/33] fix: mpegts: do not discard bytes that BufferedReader
 receives together with an error

---
 pkg/formats/mpegts/buffered_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..06ab245 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -33,7 +33,7 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 	}
 
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
-	if err != nil {
+	if mn == 0 && err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From f5e871d11198b9039cc0e4e887f6a1dcb8349d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 15/33] fix: mpegts: encode Opus descriptors with a single
 explicit channel, reject invalid channel mappings

---
 .../substructs/opus_audio_descriptor.go       | 57 ++++++++++++++++---
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 94b0222..5dc1661 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -115,6 +115,9 @@ func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
 			if err != nil {
 				return err
 			}
+			if v > 0xFF {
+				return fmt.Errorf("invalid channel mapping: %d", v)
+			}
 			d.ChannelMapping[i] = byte(v)
 		}
 		return nil
@@ -135,10 +138,6 @@ func (d OpusAudioDescriptor) marshalSize() int {
 			return 3
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			return 4
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
 		bitsForCoupled := ceilLog2(d.StreamCount + 1)
 		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
@@ -151,8 +150,53 @@ func (d OpusAudioDescriptor) marshalSize() int {
 	}
 }
 
+func (d OpusAudioDescriptor) checkExplicit() error {
+	if d.ExplicitChannelCount < 1 || d.ExplicitChannelCount > 255 {
+		return fmt.Errorf("invalid channel_count: %d", d.ExplicitChannelCount)
+	}
+
+	if d.MappingFamily < 0 || d.MappingFamily > 255 {
+		return fmt.Errorf("invalid mapping_family: %d", d.MappingFamily)
+	}
+
+	if d.MappingFamily == 0 {
+		if d.ExplicitChannelCount > 2 {
+			return fmt.Errorf("unsupported channel_count for mapping_family 0: %d", d.ExplicitChannelCount)
+		}
+		return nil
+	}
+
+	if d.StreamCount < 1 || d.StreamCount > (1<<ceilLog2(d.ExplicitChannelCount)) {
+		return fmt.Errorf("invalid stream count: %d", d.StreamCount)
+	}
+
+	if d.CoupledStreamCount < 0 || d.CoupledStreamCount >= (1<<ceilLog2(d.StreamCount+1)) {
+		return fmt.Errorf("invalid coupled stream count: %d", d.CoupledStreamCount)
+	}
+
+	if len(d.ChannelMapping) != d.ExplicitChannelCount {
+		return fmt.Errorf("invalid channel mapping")
+	}
+
+	bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
+	for _, v := range d.ChannelMapping {
+		if int(v) >= (1 << bitsPerMapping) {
+			return fmt.Errorf("invalid channel mapping: %d", v)
+		}
+	}
+
+	return nil
+}
+
 // Marshal encodes an AudioDescriptor.
 func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
+	if d.ChannelConfigCode == 0x81 {
+		err := d.checkExplicit()
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	out := make([]byte, d.marshalSize())
 
 	switch d.ChannelConfigCode {
@@ -165,11 +209,6 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 			return out, nil
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			out[3] = 0
-			return out, nil
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
 		bitsForCoupled := ceilLog2(d.StreamCount + 1)
 		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
-- 
2.43.0


From 034ac520892f975dd5bfe4e18721ac497c3ea8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 16/33] fix: mpegts: reject substructures that do not fit in
 their fields instead of encoding corrupted ones

---
 pkg/formats/mpegts/substructs/metadata_au_cell.go      |  8 ++++++++
 pkg/formats/mpegts/substructs/metadata_descriptor.go   | 10 ++++++++++
 .../mpegts/substructs/metadata_std_descriptor.go       |  4 ++++
 pkg/formats/mpegts/substructs/opus_control_header.go   |  4 ++++
 4 files changed, 26 insertions(+)

diff --git a/pkg/formats/mpegts/substructs/metadata_au_cell.go b/pkg/formats/mpegts/substructs/metadata_au_cell.go
index 6334fa4..857224f 100644
--- a/pkg/formats/mpegts/substructs/metadata_au_cell.go
+++ b/pkg/formats/mpegts/substructs/metadata_au_cell.go
@@ -56,6 +56,14 @@ func (c MetadataAUCell) marshal() ([]byte, error) {
 
 // MarshalTo marshals a MetadataAUCell to a buffer.
 func (c MetadataAUCell) MarshalTo(buf []byte) (int, error) {
+	if c.CellFragmentIndication > 0b11 {
+		return 0, fmt.Errorf("invalid cell fragment indication: %d", c.CellFragmentIndication)
+	}
+
+	if len(c.AUCellData) > 0xFFFF {
+		return 0, fmt.Errorf("cell data is too big")
+	}
+
 	n := 0
 
 	buf[n] = c.MetadataServiceID
diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index 3deee9f..dd074ca 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -194,6 +194,16 @@ func (d MetadataDescriptor) marshalSize() int {
 
 // Marshal marshals a MetadataDescriptor to a byte slice.
 func (d MetadataDescriptor) Marshal() ([]byte, error) {
+	if d.DecoderConfigFlags > 0b111 || d.DecoderConfigFlags == 0b101 || d.DecoderConfigFlags == 0b110 {
+		return nil, fmt.Errorf("DecoderConfigFlags %v is unsupported", d.DecoderConfigFlags)
+	}
+
+	if (d.DSMCCFlag && len(d.ServiceIdentification) > 255) ||
+		(d.DecoderConfigFlags == 0b001 && len(d.DecoderConfig) > 255) ||
+		(d.DecoderConfigFlags == 0b011 && len(d.DecConfigIdentification) > 255) {
+		return nil, fmt.Errorf("data is too big")
+	}
+
 	buf := make([]byte, d.marshalSize())
 	n := 0
 
diff --git a/pkg/formats/mpegts/substructs/metadata_std_descriptor.go b/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
index b164f4e..6b18ac5 100644
--- a/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
@@ -45,6 +45,10 @@ func (d MetadataSTDDescriptor) marshalSize() int {
 
 // Marshal encodes a MetadataSTDDescriptor.
 func (d MetadataSTDDescriptor) Marshal() ([]byte, error) {
+	if d.MetadataInputLeakRate >= (1<<22) || d.MetadataBufferSize >= (1<<22) || d.MetadataOutputLeakRate >= (1<<22) {
+		return nil, fmt.Errorf("values do not fit in 22 bits")
+	}
+
 	buf := make([]byte, d.marshalSize())
 	n := 0
 
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 76d40ba..590efa7 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -128,6 +128,10 @@ func (h *OpusControlHeader) marshalSize() int {
 }
 
 func (h *OpusControlHeader) marshalTo(buf []byte) (int, error) {
+	if (h.StartTrimFlag && h.StartTrim >= (1<<13)) || (h.EndTrimFlag && h.EndTrim >= (1<<13)) {
+		return 0, fmt.Errorf("trims do not fit in 13 bits")
+	}
+
 	buf[0] = 0b01111111
 
 	buf[1] = 0b111 << 5
-- 
2.43.0


From d0a2070b6be443edb569ea03302d2c682797dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 17/33] fix: reset structures before decoding, so that values
 of a previous decoding are not kept

---
 pkg/codecs/av1/bitstream.go                            | 2 ++
 pkg/codecs/av1/sequence_header.go                      | 2 ++
 pkg/codecs/eac3/sync_info.go                           | 2 ++
 pkg/codecs/h264/sps.go                                 | 2 ++
 pkg/codecs/h265/pps.go                                 | 2 ++
 pkg/codecs/h265/sps.go                                 | 2 ++
 pkg/codecs/jpeg/define_quantization_table.go           | 2 ++
 pkg/codecs/mpeg4audio/adts.go                          | 2 ++
 pkg/codecs/mpeg4audio/audio_specific_config.go         | 2 ++
 pkg/codecs/mpeg4audio/audio_sync_stream.go             | 2 ++
 pkg/codecs/mpeg4audio/stream_mux_config.go             | 2 ++
 pkg/codecs/vp9/header.go                               | 2 ++
 pkg/formats/mpegts/substructs/metadata_descriptor.go   | 2 ++
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 2 ++
 pkg/formats/mpegts/substructs/opus_control_header.go   | 2 ++
 15 files changed, 30 insertions(+)

diff --git a/pkg/codecs/av1/bitstream.go b/pkg/codecs/av1/bitstream.go
index dab3800..652ae83 100644
--- a/pkg/codecs/av1/bitstream.go
+++ b/pkg/codecs/av1/bitstream.go
@@ -10,6 +10,8 @@ type Bitstream [][]byte
 
 // Unmarshal decodes a Bitstream.
 func (bs *Bitstream) Unmarshal(buf []byte) error {
+	*bs = nil
+
 	for {
 		var h OBUHeader
 		err := h.Unmarshal(buf)
diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..9ca384d 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -262,6 +262,8 @@ type SequenceHeader struct {
 
 // Unmarshal decodes a SequenceHeader.
 func (h *SequenceHeader) Unmarshal(buf []byte) error {
+	*h = SequenceHeader{}
+
 	var oh OBUHeader
 	err := oh.Unmarshal(buf)
 	if err != nil {
diff --git a/pkg/codecs/eac3/sync_info.go b/pkg/codecs/eac3/sync_info.go
index 2a0cd5e..435d554 100644
--- a/pkg/codecs/eac3/sync_info.go
+++ b/pkg/codecs/eac3/sync_info.go
@@ -51,6 +51,8 @@ type SyncInfo struct {
 
 // Unmarshal decodes an E-AC-3 SyncInfo from a frame.
 func (s *SyncInfo) Unmarshal(frame []byte) error {
+	*s = SyncInfo{}
+
 	if len(frame) < 8 {
 		return fmt.Errorf("not enough bytes")
 	}
diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 4384947..abfdcf2 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -453,6 +453,8 @@ type SPS struct {
 
 // Unmarshal decodes a SPS from bytes.
 func (s *SPS) Unmarshal(buf []byte) error {
+	*s = SPS{}
+
 	if len(buf) < 1 {
 		return fmt.Errorf("not enough bits")
 	}
diff --git a/pkg/codecs/h265/pps.go b/pkg/codecs/h265/pps.go
index 1fe3609..e9828f7 100644
--- a/pkg/codecs/h265/pps.go
+++ b/pkg/codecs/h265/pps.go
@@ -19,6 +19,8 @@ type PPS struct {
 
 // Unmarshal decodes a PPS.
 func (p *PPS) Unmarshal(buf []byte) error {
+	*p = PPS{}
+
 	if len(buf) < 2 {
 		return fmt.Errorf("not enough bits")
 	}
diff --git a/pkg/codecs/h265/sps.go b/pkg/codecs/h265/sps.go
index 44fda20..7e3cf94 100644
--- a/pkg/codecs/h265/sps.go
+++ b/pkg/codecs/h265/sps.go
@@ -667,6 +667,8 @@ type SPS struct {
 
 // Unmarshal decodes a SPS from bytes.
 func (s *SPS) Unmarshal(buf []byte) error {
+	*s = SPS{}
+
 	if len(buf) < 2 {
 		return fmt.Errorf("not enough bits")
 	}
diff --git a/pkg/codecs/jpeg/define_quantization_table.go b/pkg/codecs/jpeg/define_quantization_table.go
index 6234c8c..ea32423 100644
--- a/pkg/codecs/jpeg/define_quantization_table.go
+++ b/pkg/codecs/jpeg/define_quantization_table.go
@@ -18,6 +18,8 @@ type DefineQuantizationTable struct {
 
 // Unmarshal decodes the marker.
 func (m *DefineQuantizationTable) Unmarshal(buf []byte) error {
+	m.Tables = nil
+
 	for len(buf) != 0 {
 		id := buf[0] & 0x0F
 		precision := buf[0] >> 4
diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 3d34b3c..910d05f 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -27,6 +27,8 @@ type ADTSPackets []*ADTSPacket
 
 // Unmarshal decodes an ADTS stream into ADTS packets.
 func (ps *ADTSPackets) Unmarshal(buf []byte) error {
+	*ps = nil
+
 	bl := len(buf)
 	pos := 0
 
diff --git a/pkg/codecs/mpeg4audio/audio_specific_config.go b/pkg/codecs/mpeg4audio/audio_specific_config.go
index adb3528..11d6912 100644
--- a/pkg/codecs/mpeg4audio/audio_specific_config.go
+++ b/pkg/codecs/mpeg4audio/audio_specific_config.go
@@ -56,6 +56,8 @@ func (c *AudioSpecificConfig) UnmarshalFromPos(buf []byte, pos *int) error {
 
 // unmarshalBits decodes a AudioSpecificConfig.
 func (c *AudioSpecificConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = AudioSpecificConfig{}
+
 	tmp, err := bits.ReadBits(buf, pos, 5)
 	if err != nil {
 		return err
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 58ba0ef..f6b7a29 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -10,6 +10,8 @@ type AudioSyncStream struct {
 
 // Unmarshal decodes an AudioSyncStream.
 func (s *AudioSyncStream) Unmarshal(buf []byte) error {
+	s.AudioMuxElements = nil
+
 	for {
 		if len(buf) < 3 {
 			return fmt.Errorf("buffer is too short")
diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index a42fcb9..1af3d36 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -55,6 +55,8 @@ func (c *StreamMuxConfig) Unmarshal(buf []byte) error {
 
 // unmarshalBits decodes a StreamMuxConfig.
 func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = StreamMuxConfig{}
+
 	err := bits.HasSpace(buf, *pos, 12)
 	if err != nil {
 		return err
diff --git a/pkg/codecs/vp9/header.go b/pkg/codecs/vp9/header.go
index c483792..6bea90d 100644
--- a/pkg/codecs/vp9/header.go
+++ b/pkg/codecs/vp9/header.go
@@ -108,6 +108,8 @@ type Header struct {
 
 // Unmarshal decodes a Header.
 func (h *Header) Unmarshal(buf []byte) error {
+	*h = Header{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 4)
diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index dd074ca..2fdf2c3 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -48,6 +48,8 @@ type MetadataDescriptor struct {
 
 // Unmarshal decodes a MetadataDescriptor.
 func (d *MetadataDescriptor) Unmarshal(buf []byte) error {
+	*d = MetadataDescriptor{}
+
 	n := 0
 
 	if len(buf[n:]) < 2 {
diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 5dc1661..5c09f02 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -61,6 +61,8 @@ type OpusAudioDescriptor struct {
 
 // Unmarshal decodes an AudioDescriptor.
 func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
+	*d = OpusAudioDescriptor{}
+
 	if len(buf) < 1 {
 		return fmt.Errorf("buffer is too short")
 	}
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 590efa7..291623f 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -49,6 +49,8 @@ type OpusControlHeader struct {
 }
 
 func (h *OpusControlHeader) unmarshal(buf []byte) (int, error) {
+	*h = OpusControlHeader{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 16)
-- 
2.43.0


From f140d25f90beaf67b6fd7e59286e8177c51d48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 18/33] fix: mpegts: MPEG-1 audio is not a video codec

---
 pkg/formats/mpegts/codecs/mpeg1_audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/codecs/mpeg1_audio.go b/pkg/formats/mpegts/codecs/mpeg1_audio.go
index 149aa6b..f74c409 100644
--- a/pkg/formats/mpegts/codecs/mpeg1_audio.go
+++ b/pkg/formats/mpegts/codecs/mpeg1_audio.go
@@ -11,7 +11,7 @@ type MPEG1Audio struct {
 
 // IsVideo implements Codec.
 func (*MPEG1Audio) IsVideo() bool {
-	return true
+	return false
 }
 
 func (*MPEG1Audio) isCodec() {}
-- 
2.43.0


From 1197151ebd36aae7e14a51916debd63e48bc85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 19/33] fix: mpegts: allow the sequence number of metadata
 cells to roll over

---
 pkg/formats/mpegts/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index ee8b6fd..88dd267 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -67,7 +67,7 @@ func findPMT(dem *robustDemuxer) (*astits.PMTData, error) {
 }
 
 func readMetadataAUWrapper(in []byte) ([]byte, error) {
-	expectedSeqNum := 0
+	expectedSeqNum := uint8(0)
 
 	var au substructs.MetadataAUCell
 	n, err := au.Unmarshal(in)
@@ -75,7 +75,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if int(au.SequenceNumber) != expectedSeqNum {
+	if au.SequenceNumber != expectedSeqNum {
 		return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 	}
 	expectedSeqNum++
@@ -103,7 +103,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		}
 		n += n2
 
-		if int(au.SequenceNumber) != expectedSeqNum {
+		if au.SequenceNumber != expectedSeqNum {
 			return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 		}
 		expectedSeqNum++
-- 
2.43.0


From 88f50f7a1f52c5b1a6f3939de3eb4a61d3318c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 20/33] fix: mpegts: return an error when a track cannot be
 described, reject unsupported Opus channel configurations

---
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 2 ++
 pkg/formats/mpegts/track.go                            | 5 ++++-
 pkg/formats/mpegts/writer.go                           | 8 ++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 5c09f02..217456c 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -197,6 +197,8 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if _, ok := channelConfigTable[d.ChannelConfigCode]; !ok {
+		return nil, fmt.Errorf("unsupported channel_config_code: 0x%02X", d.ChannelConfigCode)
 	}
 
 	out := make([]byte, d.marshalSize())
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..08c3470 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -397,7 +397,10 @@ func (t Track) marshal() (*astits.PMTElementaryStream, error) {
 			}
 		}
 
-		enc, _ := desc.Marshal()
+		enc, err := desc.Marshal()
+		if err != nil {
+			return nil, err
+		}
 
 		es = &astits.PMTElementaryStream{
 			ElementaryPID: t.PID,
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..7d3dcd4 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -74,9 +74,13 @@ func (w *Writer) Initialize() error {
 			track.PID = w.nextPID
 			w.nextPID++
 		}
-		es, _ := track.marshal()
 
-		err := w.mux.AddElementaryStream(*es)
+		es, err := track.marshal()
+		if err != nil {
+			return err
+		}
+
+		err = w.mux.AddElementaryStream(*es)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a3a39339c1cd908fef9362db21537a9b2cf0ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 21/33] fix: fmp4: limit the sample count of runs that have a
 64-bit box size too

---
 pkg/formats/fmp4/parts.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..bb899ca 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -111,9 +111,11 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				// the box header may have a 32-bit or a 64-bit size.
+				rawPayload := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawPayload) >= 8 {
+					sampleCount := uint32(rawPayload[4])<<24 | uint32(rawPayload[5])<<16 |
+						uint32(rawPayload[6])<<8 | uint32(rawPayload[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
-- 
2.43.0


From a4d18c8f7a51949cc65433ff662c140c10fefad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 22/33] fix: fmp4: read the flags of the first sample of a run
 when they are provided separately

---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..8372c23 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -10,6 +10,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index bb899ca..13e58ac 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -161,9 +161,12 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						}
 
 						var sampleFlags uint32
-						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
+						switch {
+						case (trunFlags & trunFlagSampleFlagsPresent) != 0:
 							sampleFlags = e.SampleFlags
-						} else {
+						case i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0:
+							sampleFlags = trun.FirstSampleFlags
+						default:
 							sampleFlags = tfhd.DefaultSampleFlags
 						}
 						s.IsNonSyncSample = ((sampleFlags & sampleFlagIsNonSyncSample) != 0)
-- 
2.43.0


From fe4588b9f7784d42dcd551249a0b32e2c7b9760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 23/33] fix: flac: reject stream information that does not fit
 in its fields

---
 pkg/codecs/flac/stream_info.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/codecs/flac/stream_info.go b/pkg/codecs/flac/stream_info.go
index b56c066..45278fb 100644
--- a/pkg/codecs/flac/stream_info.go
+++ b/pkg/codecs/flac/stream_info.go
@@ -44,6 +44,22 @@ func (s StreamInfo) marshalSize() int {
 }
 
 func (s StreamInfo) marshalTo(buf []byte) (int, error) {
+	if s.MinFrameSize > 0xFFFFFF || s.MaxFrameSize > 0xFFFFFF {
+		return 0, fmt.Errorf("invalid frame size")
+	}
+	if s.SampleRate > 0xFFFFF {
+		return 0, fmt.Errorf("invalid sample rate")
+	}
+	if s.ChannelCount < 1 || s.ChannelCount > 8 {
+		return 0, fmt.Errorf("invalid channel count")
+	}
+	if s.BitDepth < 1 || s.BitDepth > 32 {
+		return 0, fmt.Errorf("invalid bit depth")
+	}
+	if s.TotalSamples > 0xFFFFFFFFF {
+		return 0, fmt.Errorf("invalid number of samples")
+	}
+
 	buf[0] = byte(s.MinBlockSize >> 8)
 	buf[1] = byte(s.MinBlockSize)
 	buf[2] = byte(s.MaxBlockSize >> 8)
-- 
2.43.0


From dda974e93ce4bd6813e674ba1dcea63add65a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 24/33] fix: mp4: reject codec parameters that cannot be
 represented instead of writing corrupted ones

---
 internal/mp4/codec_boxes.go | 80 +++++++++++++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 3 deletions(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..421d1c4 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	amp4 "github.com/abema/go-mp4"
 
@@ -625,6 +626,72 @@ func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 	return nil, nil
 }
 
+func checkAudioParams(sampleRate int, channelCount int) error {
+	// the sample rate is a 16.16 fixed-point number
+	if sampleRate < 0 || sampleRate > math.MaxUint16 {
+		return fmt.Errorf("unsupported sample rate: %v", sampleRate)
+	}
+	if channelCount < 0 || channelCount > math.MaxUint16 {
+		return fmt.Errorf("unsupported channel count: %v", channelCount)
+	}
+	return nil
+}
+
+// checkCodecParams checks that codec parameters can be represented in codec boxes.
+func checkCodecParams(codec codecs.Codec) error {
+	switch codec := codec.(type) {
+	case *codecs.VP9:
+		if codec.Width <= 0 || codec.Width > math.MaxUint16 || codec.Height <= 0 || codec.Height > math.MaxUint16 ||
+			codec.BitDepth > 0b1111 || codec.ChromaSubsampling > 0b111 {
+			return fmt.Errorf("invalid VP9 parameters")
+		}
+
+	case *codecs.H265:
+		if len(codec.VPS) > math.MaxUint16 || len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H265 parameters are too big")
+		}
+
+	case *codecs.H264:
+		if len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H264 parameters are too big")
+		}
+
+	case *codecs.MJPEG:
+		if codec.Width <= 0 || codec.Width > math.MaxUint16 || codec.Height <= 0 || codec.Height > math.MaxUint16 {
+			return fmt.Errorf("invalid M-JPEG parameters")
+		}
+
+	case *codecs.Opus:
+		if codec.ChannelCount < 0 || codec.ChannelCount > math.MaxUint8 {
+			return fmt.Errorf("unsupported channel count: %v", codec.ChannelCount)
+		}
+
+	case *codecs.MPEG1Audio:
+		return checkAudioParams(codec.SampleRate, codec.ChannelCount)
+
+	case *codecs.AC3:
+		if codec.Bsid > 0b11111 || codec.Bsmod > 0b111 || codec.Acmod > 0b111 || codec.BitRateCode > 0b11111 {
+			return fmt.Errorf("invalid AC-3 parameters")
+		}
+		return checkAudioParams(codec.SampleRate, codec.ChannelCount)
+
+	case *codecs.EAC3:
+		if codec.DataRate > 0x1fff || codec.Bsmod > 0b111 || codec.Acmod > 0b111 ||
+			codec.NumDepSub > 0b1111 || codec.ChanLoc > 0x1ff {
+			return fmt.Errorf("invalid E-AC-3 parameters")
+		}
+		return checkAudioParams(codec.SampleRate, codec.ChannelCount)
+
+	case *codecs.LPCM:
+		if codec.BitDepth < 0 || codec.BitDepth > math.MaxUint8 {
+			return fmt.Errorf("unsupported bit depth: %v", codec.BitDepth)
+		}
+		return checkAudioParams(codec.SampleRate, codec.ChannelCount)
+	}
+
+	return nil
+}
+
 // WriteCodecBoxes writes codec-related boxes.
 func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo, avgBitrate, maxBitrate uint32) error {
 	/*
@@ -652,6 +719,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 		|    |pcmC|
 	*/
 
+	if checkErr := checkCodecParams(codec); checkErr != nil {
+		return checkErr
+	}
+
 	switch codec := codec.(type) {
 	case *codecs.AV1:
 		_, err := w.WriteBoxStart(&amp4.VisualSampleEntry{ // <av01>
@@ -1100,7 +1171,12 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			}
 		}
 
-		_, err := w.WriteBoxStart(&amp4.AudioSampleEntry{ // <mp4a>
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
+
+		_, err = w.WriteBoxStart(&amp4.AudioSampleEntry{ // <mp4a>
 			SampleEntry: amp4.SampleEntry{
 				AnyTypeBox: amp4.AnyTypeBox{
 					Type: amp4.BoxTypeMp4a(),
@@ -1115,8 +1191,6 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
-
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
 				{
-- 
2.43.0


From 741a97e2cd69e120f8853bb897d842c2bd4f6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 25/33] fix: pmp4: do not panic when chunks without samples or
 several chunk tables are present

---
 pkg/formats/pmp4/presentation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..0b9707c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -266,7 +266,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 		case "stsc":
-			if state != waitingSampleProps {
+			if state != waitingSampleProps || curChunks != nil {
 				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
 			}
 
@@ -280,6 +280,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -295,10 +299,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From fe5b113a976ffe28d4340bf4eebaead79aa79fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 26/33] fix: pmp4: return an error when the position of samples
 is missing

---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0b9707c..781eba1 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -391,6 +391,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("sample position not provided")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 91d0e9ad17e9cd1e64ead89fa3c2766a9d59c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 27/33] fix: pmp4: report seek errors and do not allocate
 samples that exceed the file

---
 pkg/formats/pmp4/presentation.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 781eba1..ad2f86b 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -361,8 +361,18 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						end, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+
+						// prevent RAM exhaustion due to samples that exceed the file
+						if int64(sampleOffset)+int64(sampleSize) > end {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From 12b944fab7c667b8d58a3fd666828fde6e0c539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 28/33] fix: pmp4: return an error when sample data exceeds the
 maximum size, instead of writing corrupted offsets

---
 pkg/formats/pmp4/presentation.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index ad2f86b..d88ebc7 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -426,7 +427,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 
 	dataSize, sortedSamples := p.sortSamples()
 
-	err := p.marshalFtypAndMoov(w)
+	err := p.marshalFtypAndMoov(w, dataSize)
 	if err != nil {
 		return err
 	}
@@ -434,7 +435,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint64, []*Sample) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -442,7 +443,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 
 	processedSamples := make([]int, len(p.Tracks))
 	elapsed := make([]int64, len(p.Tracks))
-	offset := uint32(0)
+	offset := uint64(0)
 	sortedSamples := make([]*Sample, sampleCount)
 	pos := 0
 
@@ -470,11 +471,11 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		}
 
 		sample := p.Tracks[bestTrack].Samples[processedSamples[bestTrack]]
-		sample.offset = offset
+		sample.offset = uint32(offset)
 
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
-		offset += sample.PayloadSize
+		offset += uint64(sample.PayloadSize)
 		sortedSamples[pos] = sample
 		pos++
 	}
@@ -482,7 +483,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 	return offset, sortedSamples
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint64) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -553,6 +554,11 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	dataOffset := moovEndOffset + 8
 
+	// offsets and sizes are 32-bit
+	if uint64(dataOffset)+dataSize > math.MaxUint32 {
+		return fmt.Errorf("presentation is too big")
+	}
+
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
@@ -568,8 +574,8 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 	return err
 }
 
-func (p *Presentation) marshalMdat(w io.Writer, dataSize uint32, sortedSamples []*Sample) error {
-	mdatSize := uint32(8) + dataSize
+func (p *Presentation) marshalMdat(w io.Writer, dataSize uint64, sortedSamples []*Sample) error {
+	mdatSize := uint32(8 + dataSize)
 
 	_, err := w.Write([]byte{byte(mdatSize >> 24), byte(mdatSize >> 16), byte(mdatSize >> 8), byte(mdatSize)})
 	if err != nil {
-- 
2.43.0


From 26bf8078c417d9c2a47edeb993c3ed0f8c1233c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 29/33] fix: fmp4, pmp4: reset structures before decoding, so
 that tracks of a previous decoding are not kept

---
 pkg/formats/fmp4/init.go         | 2 ++
 pkg/formats/fmp4/parts.go        | 2 ++
 pkg/formats/pmp4/presentation.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..1a0ac3a 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -18,6 +18,8 @@ type Init struct {
 
 // Unmarshal decodes a fMP4 initialization block.
 func (i *Init) Unmarshal(r io.ReadSeeker) error {
+	*i = Init{}
+
 	type readState int
 
 	const (
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 13e58ac..b73b360 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -17,6 +17,8 @@ type Parts []*Part
 
 // Unmarshal decodes one or more fMP4 parts.
 func (ps *Parts) Unmarshal(byts []byte) error {
+	*ps = nil
+
 	type readState int
 
 	const (
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index d88ebc7..22580c5 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -34,6 +34,8 @@ type Presentation struct {
 
 // Unmarshal decodes a Presentation.
 func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
+	*p = Presentation{}
+
 	type readState int
 
 	const (
-- 
2.43.0


From 5e11a80e7185a25389f0b991504378b08003ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 30/33] fix: seekablebuffer: make WriteString, WriteByte,
 WriteRune and ReadFrom respect the position

---
 .../fmp4/seekablebuffer/seekablebuffer.go     | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
index e38cc90..41a3878 100644
--- a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
+++ b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"unicode/utf8"
 )
 
 // Buffer is a bytes.Buffer with an additional Seek() method.
@@ -32,6 +33,28 @@ func (b *Buffer) Write(p []byte) (int, error) {
 	return n, nil
 }
 
+// WriteString implements io.StringWriter.
+func (b *Buffer) WriteString(s string) (int, error) {
+	return b.Write([]byte(s))
+}
+
+// WriteByte implements io.ByteWriter.
+func (b *Buffer) WriteByte(c byte) error {
+	_, err := b.Write([]byte{c})
+	return err
+}
+
+// WriteRune writes a UTF-8 encoded rune.
+func (b *Buffer) WriteRune(r rune) (int, error) {
+	return b.Write(utf8.AppendRune(nil, r))
+}
+
+// ReadFrom implements io.ReaderFrom.
+func (b *Buffer) ReadFrom(r io.Reader) (int64, error) {
+	// hide ReadFrom() to prevent io.Copy() from calling it.
+	return io.Copy(struct{ io.Writer }{b}, r)
+}
+
 // Read implements io.Reader.
 func (b *Buffer) Read(_ []byte) (int, error) {
 	return 0, fmt.Errorf("unimplemented")
-- 
2.43.0


From 7a9ed98e3d5acbd8241e96e38dd782bfff28ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 31/33] fix: mpegts: writer: do not store in tracks whether
 they are leading, so that they can be used with another writer

---
 pkg/formats/mpegts/track.go  |  1 -
 pkg/formats/mpegts/writer.go | 31 ++++++++++++++-----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 08c3470..71adba4 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -331,7 +331,6 @@ type Track struct {
 	// Codec.
 	Codec codecs.Codec
 
-	isLeading  bool // Writer-only
 	mp3Checked bool // Writer-only
 }
 
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 7d3dcd4..4746dc5 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -55,10 +55,10 @@ type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
-	nextPID            uint16
-	mux                *astits.Muxer
-	pcrCounter         int
-	leadingTrackChosen bool
+	nextPID      uint16
+	mux          *astits.Muxer
+	pcrCounter   int
+	leadingTrack *Track
 }
 
 // Initialize initializes a Writer.
@@ -103,7 +103,7 @@ func (w *Writer) Initialize() error {
 func (w *Writer) WriteTables() (int, error) {
 	// Ensure PCR PID is set before writing tables (required by astits)
 	// If no leading track has been chosen yet, use the first track's PID
-	if !w.leadingTrackChosen && len(w.Tracks) > 0 {
+	if w.leadingTrack == nil && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
 	return w.mux.WriteTables()
@@ -349,9 +349,8 @@ func (w *Writer) writeVideo(
 	randomAccess bool,
 	data []byte,
 ) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -362,7 +361,7 @@ func (w *Writer) writeVideo(
 		af.RandomAccessIndicator = true
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if randomAccess || w.pcrCounter == 0 {
 			if af == nil {
 				af = &astits.PacketAdaptationField{}
@@ -402,9 +401,8 @@ func (w *Writer) writeVideo(
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -412,7 +410,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
@@ -440,9 +438,8 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -450,7 +447,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
-- 
2.43.0


From 1bc8f45ff3b26b6df638996fe51e950782374702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 32/33] fix: mp4: write profile space and tier of the SPS in
 the H265 configuration record

---
 internal/mp4/codec_boxes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 421d1c4..1edc961 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -824,6 +824,8 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 
 		_, err = w.WriteBox(&amp4.HvcC{ // <hvcC/>
 			ConfigurationVersion:        1,
+			GeneralProfileSpace:         info.H265SPS.ProfileTierLevel.GeneralProfileSpace,
+			GeneralTierFlag:             info.H265SPS.ProfileTierLevel.GeneralTierFlag != 0,
 			GeneralProfileIdc:           info.H265SPS.ProfileTierLevel.GeneralProfileIdc,
 			GeneralProfileCompatibility: info.H265SPS.ProfileTierLevel.GeneralProfileCompatibilityFlag,
 			GeneralConstraintIndicator: [6]uint8{
-- 
2.43.0


From 9690591e007e56f369adcef5fddc13b77c0d830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 33/33] fix: correct name of the STSA_R NALU type

---
 pkg/codecs/h265/nalu_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/nalu_type.go b/pkg/codecs/h265/nalu_type.go
index 384fba8..fc6d079 100644
--- a/pkg/codecs/h265/nalu_type.go
+++ b/pkg/codecs/h265/nalu_type.go
@@ -56,7 +56,7 @@ var naluTypeLabels = map[NALUType]string{
 	NALUType_TSA_N:          "TSA_N",
 	NALUType_TSA_R:          "TSA_R",
 	NALUType_STSA_N:         "STSA_N",
-	NALUType_STSA_R:         "STSA_R:",
+	NALUType_STSA_R:         "STSA_R",
 	NALUType_RADL_N:         "RADL_N",
 	NALUType_RADL_R:         "RADL_R",
 	NALUType_RASL_N:         "RASL_N",
-- 
2.43.0

