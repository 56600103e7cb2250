// Package audiox contains the harnesses for the audio codecs.
package audiox

import (
	"time"

	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
)

var mp1Rates = [3][14]int{
	{32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384}, // MPEG-1 layer II
	{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320},  // MPEG-1 layer III
	{8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160},      // MPEG-2 layers II and III
}

// VH_MPEG1: MPEG-1/2 audio frame headers decode to the values of the specification's tables; everything else is rejected.
//
//vh: prop=P18,P04 case:ver=0..1 case:br=0..15 case:lay=0..3 merge=conc
func VH_MPEG1() {
	ver, br, lay := vnd.Case("ver"), vnd.Case("br"), vnd.Case("lay")
	for sr := 0; sr < 4; sr++ {
		buf := []byte{
			0xFF,
			0xF0 | byte(ver<<3) | byte(lay<<1) | vnd.Byte("prot")&1,
			byte(br<<4) | byte(sr<<2) | vnd.Byte("b2")&3,
			vnd.Byte("b3"),
			vnd.Byte("b4"),
		}
		var h mpeg1audio.FrameHeader
		bw.Dirty(&h, buf)
		err := h.Unmarshal(buf)
		ok := br != 0 && br != 15 && sr != 3 && (lay == 2 || lay == 1)
		vnd.Assert((err == nil) == ok, "accepted exactly when no field is reserved or unsupported")
		if !ok {
			continue
		}
		vnd.Assert(h.MPEG2 == (ver == 0), "version")
		vnd.Assert(h.Layer == uint8(4-lay), "layer")
		t := 2
		if ver == 1 {
			t = 2 - lay
		}
		rate := mp1Rates[t][br-1] * 1000
		vnd.Assert(h.Bitrate == rate, "bitrate")
		freq := [3]int{44100, 48000, 32000}[sr]
		if ver == 0 {
			freq /= 2
		}
		vnd.Assert(h.SampleRate == freq, "sample rate")
		vnd.Assert(h.Padding == (buf[2]&2 != 0), "padding")
		vnd.Assert(h.ChannelMode == mpeg1audio.ChannelMode(buf[3]>>6), "channel mode")
		n := 1152
		if ver == 0 && lay == 1 {
			n = 576
		}
		vnd.Assert(h.SampleCount() == n, "samples per frame")
		vnd.Assert(h.FrameLen() == n/8*rate/freq+int(vnd.Ite(buf[2]&2 != 0, 1, 0)), "frame length")
		vnd.Reach("ok")
	}
}

// VH_MPEG1Any: wrong sync words and truncated headers are rejected; nothing panics.
//
//vh: prop=P18,P04 case:n=0..6 merge=conc
func VH_MPEG1Any() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	var h mpeg1audio.FrameHeader
	bw.Dirty(&h, buf)
	err := h.Unmarshal(buf)
	if len(buf) < 5 || buf[0] != 0xFF || buf[1]>>4 != 15 {
		vnd.Assert(err != nil, "rejected")
		return
	}
	if err == nil {
		vnd.Assert(h.FrameLen() > 0 && h.SampleCount() > 0, "frame length")
	}
}

var ac3Rates = [19]int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}

// VH_AC3Sync: sync information decodes to the codes and to the frame size of the specification's formula.
//
//vh: prop=P17,P04 case:fs=0..3 merge=conc
func VH_AC3Sync() {
	fs := vnd.Case("fs")
	for code := 0; code < 64; code++ {
		buf := []byte{0x0B, 0x77, vnd.Byte("crc", 0), vnd.Byte("crc", 1), byte(fs<<6 | code), vnd.Byte("more")}
		var s ac3.SyncInfo
		bw.Dirty(&s, buf)
		ok := fs < 3 && code < 38
		for n := 0; n <= 6; n++ {
			s = ac3.SyncInfo{}
			vnd.Assert((s.Unmarshal(buf[:n]) == nil) == (ok && n >= 5), "accepted exactly when complete and not reserved")
		}
		if !ok {
			continue
		}
		vnd.Assert(int(s.Fscod) == fs && int(s.Frmsizecod) == code, "codes")
		br := ac3Rates[code/2]
		var words int
		switch fs {
		case 0:
			words = br * 2
			vnd.Assert(s.SampleRate() == 48000, "sample rate")
		case 1:
			words = br*96000/44100 + code&1
			vnd.Assert(s.SampleRate() == 44100, "sample rate")
		case 2:
			words = br * 3
			vnd.Assert(s.SampleRate() == 32000, "sample rate")
		}
		vnd.Assert(s.FrameSize() == 2*words, "frame size")
		vnd.Reach("ok")
		bad := append([]byte(nil), buf...)
		bad[0], bad[1] = vnd.Byte("s", 0), vnd.Byte("s", 1)
		vnd.Assert((s.Unmarshal(bad) == nil) == (bad[0] == 0x0B && bad[1] == 0x77), "sync word")
	}
}

// VH_AC3BSI: bit stream information is laid out as in the specification.
//
//vh: prop=P17,P04 case:acmod=0..7 merge=conc
func VH_AC3BSI() {
	w := &bw.W{}
	ac := vnd.Case("acmod")
	bsid := w.Bits(5, "bsid")
	bsmod := w.Bits(3, "bsmod")
	w.U(uint64(ac), 3)
	if ac&1 != 0 && ac != 1 {
		w.Bits(2, "cmix")
	}
	if ac&4 != 0 {
		w.Bits(2, "surmix")
	}
	if ac == 2 {
		w.Bits(2, "dsur")
	}
	lfe := w.Flag("lfe")
	for w.Pos < 24 {
		w.Flag("rest", w.Pos)
	}
	var b ac3.BSI
	bw.Dirty(&b, w.Buf)
	for n := 0; n <= 3; n++ {
		b = ac3.BSI{}
		vnd.Assert((b.Unmarshal(w.Buf[:n]) == nil) == (n >= 2 && bsid <= 8), "accepted exactly when complete and supported")
	}
	vnd.Assert(uint64(b.Bsid) == bsid, "bsid")
	if bsid > 8 {
		return
	}
	vnd.Assert(uint64(b.Bsmod) == bsmod && int(b.Acmod) == ac && b.LfeOn == lfe, "field values")
	vnd.Assert(b.ChannelCount() == [8]int{2, 1, 2, 3, 3, 4, 4, 5}[ac]+int(vnd.Ite(lfe, 1, 0)), "channel count")
	vnd.Reach("ok")
}

// VH_EAC3: E-AC-3 sync frames decode to the field values laid out by the specification.
//
//vh: prop=P17,P04 case:fs=0..3 case:acmod=0..7 merge=conc
func VH_EAC3() {
	w := &bw.W{}
	w.U(0x0B77, 16)
	var e eac3.SyncInfo
	e.Strmtyp = uint8(w.Bits(2, "typ"))
	e.Substreamid = uint8(w.Bits(3, "sub"))
	e.Frmsiz = uint16(w.Bits(11, "siz"))
	e.Fscod = uint8(vnd.Case("fs"))
	w.U(uint64(e.Fscod), 2)
	x := uint8(w.Bits(2, "x"))
	e.Acmod = uint8(vnd.Case("acmod"))
	w.U(uint64(e.Acmod), 3)
	e.Lfeon = w.Flag("lfe")
	e.Bsid = uint8(w.Bits(5, "bsid"))
	for w.Pos < 72 {
		w.Flag("rest", w.Pos)
	}
	ok := vnd.And(e.Bsid == 16, vnd.Or(e.Fscod != 3, x != 3))
	var s eac3.SyncInfo
	bw.Dirty(&s, w.Buf)
	for n := 0; n <= 9; n++ {
		s = eac3.SyncInfo{}
		vnd.Assert((s.Unmarshal(w.Buf[:n]) == nil) == vnd.And(ok, n >= 8), "accepted exactly when complete and not reserved")
	}
	bad := append([]byte(nil), w.Buf...)
	bad[0], bad[1] = vnd.Byte("s", 0), vnd.Byte("s", 1)
	var t eac3.SyncInfo
	vnd.Assert((t.Unmarshal(bad) == nil) == vnd.And(ok, vnd.And(bad[0] == 0x0B, bad[1] == 0x77)), "sync word")
	if !ok {
		return
	}
	var rate, blocks int
	if e.Fscod == 3 {
		e.Fscod2 = x
		e.Numblkscod = 3
		rate = int(vnd.Ite(x == 0, 24000, vnd.Ite(x == 1, 22050, 16000)))
		blocks = 6
	} else {
		e.Numblkscod = x
		rate = [3]int{48000, 44100, 32000}[e.Fscod]
		blocks = int(vnd.Ite(x == 3, 6, uint64(x)+1))
	}
	vnd.Assert(vnd.DeepEqual(s, e), "field values")
	vnd.Assert(s.SampleRate() == rate, "sample rate")
	vnd.Assert(s.NumBlocks() == blocks, "number of blocks")
	vnd.Assert(s.FrameSize() == (int(e.Frmsiz)+1)*2, "frame size")
	vnd.Assert(s.ChannelCount() == [8]int{2, 1, 2, 3, 3, 4, 4, 5}[e.Acmod]+int(vnd.Ite(e.Lfeon, 1, 0)), "channel count")
	vnd.Reach("ok")
}

// VH_AnyHdr: fixed-size headers never panic.
//
//vh: prop=P04,P34 case:n=0..36 case:k=0..5 merge=conc
func VH_AnyHdr() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(4096)
	switch vnd.Case("k") {
	case 0:
		var s ac3.SyncInfo
		bw.Dirty(&s, buf)
		if s.Unmarshal(buf) == nil {
			vnd.Assert(s.FrameSize() > 0 && s.SampleRate() > 0, "sizes")
		}
	case 1:
		var s ac3.BSI
		if s.Unmarshal(buf) == nil {
			vnd.Assert(s.ChannelCount() > 0, "channels")
		}
	case 2:
		var s eac3.SyncInfo
		bw.Dirty(&s, buf)
		if s.Unmarshal(buf) == nil {
			vnd.Assert(s.FrameSize() > 0 && s.SampleRate() > 0 && s.ChannelCount() > 0 && s.NumBlocks() > 0, "sizes")
		}
	case 3:
		var s opus.IDHeader
		if s.Unmarshal(buf) == nil {
			bw.In(&s)
			_, err := s.Marshal()
			vnd.Assert(err == nil, "encodes")
		}
		bw.In(buf)
		opus.PacketDuration2(buf)
		bw.In(buf)
		opus.PacketDuration(buf)
	case 4:
		var s flac.StreamInfo
		if s.Unmarshal(buf) == nil {
			bw.In(&s)
			_, err := s.Marshal()
			vnd.Assert(err == nil, "encodes")
		}
	case 5:
		var a g711.Alaw
		bw.Dirty(&a, buf)
		a.Unmarshal(buf)
		bw.In(&a)
		_, err := a.Marshal()
		vnd.Assert(err == nil, "encodes")
		bw.In(buf)
		_, err = g711.Alaw(buf).Marshal()
		vnd.Assert((err == nil) == (len(buf)%2 == 0), "odd sizes")
		var u g711.Mulaw
		bw.Dirty(&u, buf)
		u.Unmarshal(buf)
		bw.In(&u)
		_, err = u.Marshal()
		vnd.Assert(err == nil, "encodes")
		bw.In(buf)
		_, err = g711.Mulaw(buf).Marshal()
		vnd.Assert((err == nil) == (len(buf)%2 == 0), "odd sizes")
	}
}

// VH_OpusDur: the duration of a packet is the frame duration of its configuration times its frame count (RFC 6716, 3.1).
//
//vh: prop=P19,P04 case:n=0..4 merge=conc
func VH_OpusDur() {
	n := vnd.Case("n")
	pkt := vnd.Bytes("b", n)
	pkt = bw.Spare(pkt)
	bw.In(pkt)
	d := opus.PacketDuration2(pkt)
	bw.In(pkt)
	t := opus.PacketDuration(pkt)
	if n == 0 {
		vnd.Assert(d == 0 && t == 0, "empty packet")
		return
	}
	cfg := pkt[0] >> 3
	var f uint64
	switch {
	case cfg < 12: // SILK: 10, 20, 40, 60 ms
		f = vnd.Ite(cfg&3 == 0, 480, vnd.Ite(cfg&3 == 1, 960, vnd.Ite(cfg&3 == 2, 1920, 2880)))
	case cfg < 16: // Hybrid: 10, 20 ms
		f = vnd.Ite(cfg&1 == 0, 480, 960)
	default: // CELT: 2.5, 5, 10, 20 ms
		f = uint64(120) << (cfg & 3)
	}
	var m uint64
	switch pkt[0] & 3 {
	case 0:
		m = 1
	case 1, 2:
		m = 2
	default:
		if n >= 2 {
			m = uint64(pkt[1] & 63)
		}
	}
	vnd.Assert(d == int64(f*m), "duration in samples")
	vnd.Assert(t == time.Duration(f*m)*time.Second/48000, "duration")
}

// VH_OpusID: identification headers round-trip; a wrong magic, version or length is rejected.
//
//vh: prop=P19,P04 case:n=0..12 merge=conc
func VH_OpusID() {
	n := vnd.Case("n")
	h := opus.IDHeader{
		Version: 1, ChannelCount: vnd.Byte("cc"), PreSkip: vnd.U16("pre"), InputSampleRate: vnd.U32("rate"),
		OutputGain: vnd.U16("gain"), ChannelMappingFamily: vnd.Byte("fam"), ChannelMappingTable: vnd.Bytes("map", n),
	}
	bw.In(&h)
	b, err := h.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil && len(b) == 19+n, "encodes")
	vnd.Assert(string(b[:8]) == "OpusHead" && b[8] == 1 && b[9] == h.ChannelCount && b[18] == h.ChannelMappingFamily, "layout")
	vnd.Assert(vnd.Eq(b[19:], h.ChannelMappingTable), "mapping")
	var g opus.IDHeader
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g, h), "round trip")
	bad := append([]byte(nil), b...)
	for i := 0; i < 9; i++ {
		bad[i] = vnd.Byte("magic", i)
	}
	same := vnd.Eq(bad[:9], []byte("OpusHead\x01"))
	vnd.Assert((g.Unmarshal(bad) == nil) == same, "magic and version")
	for i := 0; i < 19; i++ {
		vnd.Assert(g.Unmarshal(b[:i]) != nil, "truncated")
	}
}

// VH_FLAC: stream information is laid out as in RFC 9639 and round-trips.
//
//vh: prop=P21,P04 case:more=0..2 merge=conc
func VH_FLAC() {
	w := &bw.W{}
	e := flac.StreamInfo{
		MinBlockSize: uint16(w.Bits(16, "minb")), MaxBlockSize: uint16(w.Bits(16, "maxb")),
		MinFrameSize: uint32(w.Bits(24, "minf")), MaxFrameSize: uint32(w.Bits(24, "maxf")),
		SampleRate: uint32(w.Bits(20, "rate")), ChannelCount: uint8(w.Bits(3, "ch")) + 1, BitDepth: uint8(w.Bits(5, "bits")) + 1,
		TotalSamples: w.Bits(36, "total"),
	}
	for i := range e.MD5 {
		e.MD5[i] = byte(w.Bits(8, "md5", i))
	}
	b := append(append([]byte(nil), w.Buf...), vnd.Bytes("more", vnd.Case("more"))...)
	var g flac.StreamInfo
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g, e), "field values")
	bw.In(&e)
	m, err := e.Marshal()
	bw.Out(m)
	vnd.Assert(err == nil && vnd.Eq(m, w.Buf), "encodes to the same bytes")
	for n := 0; n < 34; n++ {
		vnd.Assert(g.Unmarshal(b[:n]) != nil, "truncated")
	}
}

// alaw and ulaw give the linear value of a code by the formulas of G.711, scaled to 16 bits.
func alaw(c byte) int32 {
	c ^= 0x55
	m, e := uint64(c&15), uint64(c>>4&7)
	t := vnd.Ite(e == 0, m*16+8, vnd.Ite(e == 1, m*16+264, (m*16+264)<<((e-1)&7)))
	return int32(vnd.Ite(c&0x80 != 0, t, -t))
}

func ulaw(c byte) int32 {
	c = ^c
	m, e := uint64(c&15), uint64(c>>4&7)
	t := (m*8+132)<<e - 132
	return int32(vnd.Ite(c&0x80 != 0, -t, t))
}

func be16(b []byte) int32 { return int32(int16(uint16(b[0])<<8 | uint16(b[1]))) }

// VH_G711Decode: every code expands to its G.711 value; order and count are preserved; compressing again gives the same code
// (mu-law has two codes for zero).
//
//vh: prop=P23,P04 case:n=0..3 case:law=0..1 merge=full
func VH_G711Decode() {
	n := vnd.Case("n")
	in := vnd.Bytes("b", n)
	var lin []byte
	var enc []byte
	var err error
	if vnd.Case("law") == 0 {
		var a g711.Alaw
		bw.Dirty(&a, in)
		a.Unmarshal(in)
		lin = a
		bw.In(&a)
		enc, err = a.Marshal()
		bw.Out(enc)
		vnd.Assert(vnd.Eq(g711.DecodeAlaw(in), lin), "deprecated function")
	} else {
		var u g711.Mulaw
		bw.Dirty(&u, in)
		u.Unmarshal(in)
		lin = u
		bw.In(&u)
		enc, err = u.Marshal()
		bw.Out(enc)
		vnd.Assert(vnd.Eq(g711.DecodeMulaw(in), lin), "deprecated function")
	}
	vnd.Assert(err == nil && len(lin) == 2*n && len(enc) == n, "counts")
	for i := 0; i < n; i++ {
		v := be16(lin[2*i:])
		if vnd.Case("law") == 0 {
			vnd.Assert(v == alaw(in[i]), "A-law value")
			vnd.Assert(enc[i] == in[i], "A-law code is stable")
		} else {
			vnd.Assert(v == ulaw(in[i]), "mu-law value")
			vnd.Assert(vnd.Or(enc[i] == in[i], vnd.And(in[i] == 0x7F, enc[i] == 0xFF)), "mu-law code is stable")
		}
	}
}

// VH_G711Encode: compression picks the code whose value is nearest to the sample at 14-bit precision.
//
//vh: prop=P23,P04 case:hi=0..255 case:law=0..1 merge=full
func VH_G711Encode() {
	s := []byte{byte(vnd.Case("hi")), vnd.Byte("lo")}
	x := be16([]byte{s[0], s[1] &^ 3})
	other := vnd.Byte("other")
	var enc []byte
	var err error
	var v, o int32
	if vnd.Case("law") == 0 {
		bw.In(s)
		enc, err = g711.Alaw(s).Marshal()
		bw.Out(enc)
		vnd.Assert(err == nil && len(enc) == 1, "encodes")
		v, o = alaw(enc[0]), alaw(other)
	} else {
		bw.In(s)
		enc, err = g711.Mulaw(s).Marshal()
		bw.Out(enc)
		vnd.Assert(err == nil && len(enc) == 1, "encodes")
		v, o = ulaw(enc[0]), ulaw(other)
	}
	vnd.Assert(abs(x-v) <= abs(x-o), "nearest code")
}

// VH_G711Order: samples are compressed one by one in order.
//
//vh: prop=P23,P04 case:n=0..9 case:law=0..1 merge=full
func VH_G711Order() {
	n := vnd.Case("n")
	in := vnd.Bytes("b", n)
	enc := func(b []byte) ([]byte, error) {
		if vnd.Case("law") == 0 {
			return g711.Alaw(b).Marshal()
		}
		return g711.Mulaw(b).Marshal()
	}
	for i := range in {
		in[i] |= 0xF8 // quiet samples: only order matters here
	}
	e, err := enc(in)
	if n%2 != 0 {
		vnd.Assert(err != nil, "half a sample")
		return
	}
	vnd.Assert(err == nil && len(e) == n/2, "count")
	for i := range e {
		one, _ := enc(in[2*i : 2*i+2])
		vnd.Assert(e[i] == one[0], "order")
	}
}

func abs(v int32) int32 {
	return int32(vnd.Ite(v < 0, uint64(uint32(-v)), uint64(uint32(v))))
}
