package vidx

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
)

// VH_VP8RA: a VP8 frame is random access exactly when its inverse key frame flag is zero.
//
//vh: prop=P36,P03 case:n=0..12 merge=conc
func VH_VP8RA() {
	b := vnd.Bytes("b", vnd.Case("n"))
	b = bw.Spare(b)
	bw.In(b)
	vnd.Assert(vp8.IsRandomAccess(b) == (len(b) > 0 && b[0]&1 == 0), "key frame flag")
}

// VH_VP9: a frame header laid out by the specification decodes to the encoded values; truncated headers, wrong markers and wrong sync
// codes are rejected.
//
//vh: prop=P20 case:prof=0..3 case:kind=0..2 case:rgb=0..1 merge=conc reach=ok
func VH_VP9() {
	w := &bw.W{}
	p := vnd.Case("prof")
	var e vp9.Header
	e.Profile = uint8(p)
	w.U(2, 2)
	w.U(uint64(p&1), 1)
	w.U(uint64(p>>1), 1)
	if p == 3 {
		w.U(0, 1)
	}
	kind := vnd.Case("kind")
	var c *vp9.Header_ColorConfig
	switch kind {
	case 0:
		w.F(true)
		e.ShowExistingFrame = true
		e.FrameToShowMapIdx = uint8(w.Bits(3, "map"))
	default:
		w.F(false)
		e.NonKeyFrame = kind == 1
		w.F(e.NonKeyFrame)
		e.ShowFrame = w.Flag("sf")
		e.ErrorResilientMode = w.Flag("er")
		if kind == 1 {
			break
		}
		w.U(0x498342, 24)
		c = &vp9.Header_ColorConfig{BitDepth: 8}
		if p >= 2 {
			c.TenOrTwelveBit = w.Flag("t12")
			c.BitDepth = uint8(vnd.Ite(c.TenOrTwelveBit, 12, 10))
		}
		odd := p&1 == 1
		if vnd.Case("rgb") == 1 && odd {
			w.U(7, 3)
			c.ColorSpace = 7
			c.ColorRange = true
			w.U(0, 1)
		} else {
			c.ColorSpace = uint8(w.Bits(3, "cs"))
			vnd.Assume(c.ColorSpace != 7)
			c.ColorRange = w.Flag("cr")
			if odd {
				c.SubsamplingX = w.Flag("sx")
				c.SubsamplingY = w.Flag("sy")
				w.U(0, 1)
			} else {
				c.SubsamplingX, c.SubsamplingY = true, true
			}
		}
		e.ColorConfig = c
		e.FrameSize = &vp9.Header_FrameSize{
			FrameWidthMinus1:  uint16(w.Bits(16, "fw")),
			FrameHeightMinus1: uint16(w.Bits(16, "fh")),
		}
	}
	need := w.Pos
	for w.Pos&7 != 0 {
		w.Flag("pad", w.Pos)
	}
	buf := append(w.Buf, vnd.Byte("more"))
	var g vp9.Header
	bw.Dirty(&g, buf)
	vnd.Assert(g.Unmarshal(buf) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g, e), "field values")
	if e.FrameSize != nil {
		vnd.Assert(g.Width() == int(e.FrameSize.FrameWidthMinus1)+1, "width")
		vnd.Assert(g.Height() == int(e.FrameSize.FrameHeightMinus1)+1, "height")
		exp := vnd.Ite(c.SubsamplingX, vnd.Ite(c.SubsamplingY, 1, 2), 3)
		if !(!c.SubsamplingX && c.SubsamplingY) { // 4:4:0 has no such code
			vnd.Assert(uint64(g.ChromaSubsampling()) == exp, "chroma subsampling")
		}
	} else {
		vnd.Assert(g.Width() == 0 && g.Height() == 0, "no size")
	}
	vnd.Reach("ok")
	for n := (need - 1) / 8; n >= 0; n-- {
		var t vp9.Header
		vnd.Assert(t.Unmarshal(buf[:n]) != nil, "truncated")
	}
	bad := append([]byte(nil), buf...)
	m := vnd.Byte("marker")
	vnd.Assume(m>>6 != 2)
	bad[0] = m
	vnd.Assert(g.Unmarshal(bad) != nil, "invalid marker")
	if kind == 2 {
		x := uint64(vnd.Bits("sync", 24))
		vnd.Assume(x != 0x498342)
		pos := 8
		if p == 3 {
			pos++
		}
		buf := append([]byte(nil), buf...)
		for i := 0; i < 24; i++ {
			b := pos + i
			buf[b/8] = buf[b/8]&^(0x80>>uint(b%8)) | byte(x>>uint(23-i)&1)<<uint(7-b%8)
		}
		vnd.Assert(g.Unmarshal(buf) != nil, "invalid sync code")
	}
}

// VH_VP9Any: arbitrary bytes never panic and yield values within range.
//
//vh: prop=P03,P34,P20 case:n=0..14 merge=conc
func VH_VP9Any() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(4096)
	var g vp9.Header
	bw.Dirty(&g, buf)
	if g.Unmarshal(buf) != nil {
		return
	}
	vnd.Assert(buf[0]>>6 == 2, "frame marker")
	vnd.Assert(g.Profile <= 3 && g.FrameToShowMapIdx <= 7, "ranges")
	vnd.Assert(g.Width() >= 0 && g.Width() <= 65536 && g.Height() >= 0 && g.Height() <= 65536, "size")
	s := g.ChromaSubsampling()
	vnd.Assert(s >= 1 && s <= 3, "chroma subsampling")
	if g.ColorConfig != nil {
		d := g.ColorConfig.BitDepth
		vnd.Assert(d == 8 || d == 10 || d == 12, "bit depth")
	}
}

// VH_MPEG4Video: configurations are accepted exactly when their start codes are the allowed ones.
//
//vh: prop=P24,P03 quick:n=0..12 thorough:n=0..15 case:mid=0..3 merge=conc
func VH_MPEG4Video() {
	n := vnd.Case("n")
	tail := vnd.Bytes("b", n)
	var buf []byte
	switch vnd.Case("mid") {
	case 0:
		buf = tail
	case 1:
		buf = append([]byte{0, 0, 1, 0xB0}, tail...)
	case 2:
		buf = append([]byte{0, 0, 1, 0xB0, 0, 0, 1, vnd.Byte("c1")}, tail...)
	case 3:
		buf = append([]byte{0, 0, 1, 0xB0, vnd.Byte("x"), 0, 0, 1, vnd.Byte("c1"), vnd.Byte("y"), 0, 0, 1, vnd.Byte("c2")}, tail...)
	}
	ok := len(buf) >= 4
	vo, vol := false, false
	if ok {
		ok = vnd.And(vnd.And(buf[0] == 0, buf[1] == 0), vnd.And(buf[2] == 1, buf[3] == 0xB0))
	}
	i := 4
	for ok && i+3 < len(buf) {
		if buf[i] != 0 || buf[i+1] != 0 || buf[i+2] != 1 {
			i++
			continue
		}
		c := buf[i+3]
		vo = vnd.Or(vo, c <= 0x1F)
		vol = vnd.Or(vol, vnd.And(c >= 0x20, c <= 0x2F))
		ok = c <= 0x2F || c == 0xB5 || c == 0xB2
		i += 4
	}
	buf = bw.Spare(buf)
	bw.In(buf)
	vnd.Assert((mpeg4video.IsValidConfig(buf) == nil) == vnd.And(ok, vnd.And(vo, vol)), "accepted exactly when the start codes are allowed")
}

// VH_DQT: quantization tables are encoded as the specification lays them out and decode to the same tables.
//
//vh: prop=P22 case:n=0..4 case:pre=0,3 merge=conc
func VH_DQT() {
	n := vnd.Case("n")
	var m jpeg.DefineQuantizationTable
	pre := vnd.Bytes("pre", vnd.Case("pre"))
	exp := append([]byte(nil), pre...)
	exp = append(exp, 0xFF, 0xDB, byte((2+65*n)>>8), byte(2+65*n))
	for i := 0; i < n; i++ {
		t := jpeg.QuantizationTable{ID: vnd.Byte("id", i) & 15}
		t.Data = vnd.Bytes("d"+string(rune('0'+i)), 64)
		m.Tables = append(m.Tables, t)
		exp = append(append(exp, t.ID), t.Data...)
	}
	b := m.Marshal(append([]byte(nil), pre...))
	vnd.Assert(vnd.Eq(b, exp), "layout")
	var g jpeg.DefineQuantizationTable
	bw.Dirty(&g, b[len(pre)+4:])
	vnd.Assert(g.Unmarshal(b[len(pre)+4:]) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g, m), "same tables")
	if n > 0 {
		var x jpeg.DefineQuantizationTable
		vnd.Assert(x.Unmarshal(b[len(pre)+4:len(b)-1]) != nil, "truncated")
		q := append([]byte(nil), b[len(pre)+4:]...)
		q[65*(n-1)] = vnd.Byte("prec")
		vnd.Assume(q[65*(n-1)] > 15)
		var y jpeg.DefineQuantizationTable
		vnd.Assert(y.Unmarshal(q) != nil, "16-bit precision is not supported")
	}
	var z jpeg.DefineQuantizationTable
	vnd.Assert(z.Unmarshal(append(append([]byte(nil), b[len(pre)+4:]...), 1)) != nil, "trailing data")
}

// VH_SOF: frame headers are encoded as the specification lays them out and decode to the same values; others are rejected.
//
//vh: prop=P22 case:typ=0,1 case:qt=1,2 merge=conc
func VH_SOF() {
	m := jpeg.StartOfFrame1{
		Type: uint8(vnd.Case("typ")), Width: int(vnd.U16("w")), Height: int(vnd.U16("h")),
		QuantizationTableCount: uint8(vnd.Case("qt")),
	}
	q := byte(vnd.Case("qt") - 1)
	b := m.Marshal(nil)
	bw.Out(b)
	exp := []byte{0xFF, 0xC0, 0, 17, 8, byte(m.Height >> 8), byte(m.Height), byte(m.Width >> 8), byte(m.Width), 3,
		0, 0x21 + m.Type, 0, 1, 0x11, q, 2, 0x11, q}
	vnd.Assert(vnd.Eq(b, exp), "layout")
	var g jpeg.StartOfFrame1
	bw.Dirty(&g, b[4:])
	vnd.Assert(g.Unmarshal(b[4:]) == nil, "decodes")
	vnd.Assert(g.Type == m.Type && g.Width == m.Width && g.Height == m.Height, "same values")
}

// VH_SOFAny: a frame header is accepted exactly when it describes 8-bit 4:2:2 or 4:2:0 with three components.
//
//vh: prop=P22,P03 case:n=0..20 merge=conc
func VH_SOFAny() {
	b := vnd.Bytes("b", vnd.Case("n"))
	var g jpeg.StartOfFrame1
	bw.Dirty(&g, b)
	err := g.Unmarshal(b)
	if len(b) != 15 {
		vnd.Assert(err != nil, "size")
		return
	}
	ok := vnd.And(vnd.And(b[0] == 8, b[5] == 3), vnd.And(vnd.Or(b[7] == 0x21, b[7] == 0x22), vnd.And(b[10] == 0x11, b[13] == 0x11)))
	vnd.Assert((err == nil) == ok, "accepted exactly when supported")
	if err == nil {
		vnd.Assert(g.Height == int(b[1])<<8|int(b[2]) && g.Width == int(b[3])<<8|int(b[4]), "size")
		vnd.Assert((g.Type == 0) == (b[7] == 0x21) && g.Type <= 1, "type")
	}
}

// VH_JPEGRest: remaining segments.
//
//vh: prop=P22,P03 case:n=0..12 merge=conc
func VH_JPEGRest() {
	b := vnd.Bytes("b", vnd.Case("n"))
	var r jpeg.DefineRestartInterval
	bw.Dirty(&r, b)
	err := r.Unmarshal(b)
	vnd.Assert((err == nil) == (len(b) == 2), "restart interval size")
	if err == nil {
		vnd.Assert(r.Interval == uint16(b[0])<<8|uint16(b[1]), "restart interval")
	}
	var s jpeg.StartOfScan
	vnd.Assert((s.Unmarshal(b) == nil) == (len(b) == 10), "scan header size")
	sb := s.Marshal(nil)
	bw.Out(sb)
	vnd.Assert(vnd.Eq(sb, []byte{0xFF, 0xDA, 0, 12, 3, 0, 0, 1, 0x11, 2, 0x11, 0, 63, 0}), "scan header")
	vnd.Assert(s.Unmarshal(sb[4:]) == nil, "scan header decodes")
	vnd.Assert(vnd.Eq(jpeg.StartOfImage{}.Marshal(b[:len(b):len(b)])[len(b):], []byte{0xFF, 0xD8}), "start of image")
	var q jpeg.DefineQuantizationTable
	vnd.Assert((q.Unmarshal(b) == nil) == (len(b) == 0), "tables need 65 bytes")
}

// VH_DHT: Huffman tables are laid out as the specification prescribes.
//
//vh: prop=P22 case:syms=0,3,12,162,237,256,600 merge=conc
func VH_DHT() {
	m := jpeg.DefineHuffmanTable{
		Codes: vnd.Bytes("codes", 16), Symbols: vnd.Bytes("syms", vnd.Case("syms")),
		TableNumber: int(vnd.Bits("num", 2)), TableClass: int(vnd.Bits("class", 1)),
	}
	b := m.Marshal(nil)
	bw.Out(b)
	n := 2 + 1 + 16 + len(m.Symbols)
	exp := append([]byte{0xFF, 0xC4, byte(n >> 8), byte(n), byte(m.TableClass)<<4 | byte(m.TableNumber)}, m.Codes...)
	vnd.Assert(vnd.Eq(b, append(exp, m.Symbols...)), "layout")
}

// VH_VP9RA: a VP9 frame is random access exactly when it is a key frame with a valid header.
//
//vh: prop=P36,P03 case:n=0..14 merge=conc
func VH_VP9RA() {
	b := vnd.Bytes("b", vnd.Case("n"))
	exp := false
	if len(b) > 0 && b[0]>>6 == 2 {
		var h vp9.Header
		prof3 := b[0]>>4&3 == 3
		exist, nonkey := b[0]>>3&1 == 1, b[0]>>2&1 == 1
		if prof3 {
			exist, nonkey = b[0]>>2&1 == 1, b[0]>>1&1 == 1
		}
		exp = vnd.And(vnd.And(!exist, !nonkey), h.Unmarshal(b) == nil)
	}
	b = bw.Spare(b)
	bw.In(b)
	vnd.Assert(vp9.IsRandomAccess(b) == exp, "key frame")
}
