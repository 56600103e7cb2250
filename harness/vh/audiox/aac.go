package audiox

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

var freqs = [13]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// tableFreq tells whether a rate is in the table of the specification.
func tableFreq(v int) bool {
	r := false
	for _, f := range freqs {
		r = vnd.Or(r, v == f)
	}
	return r
}

// putFreq writes a sampling frequency; 13 stands for a rate given explicitly, which is not in the table.
func putFreq(w *bw.W, i int, name string) int {
	if i < 13 {
		w.U(uint64(i), 4)
		return freqs[i]
	}
	w.U(15, 4)
	v := int(w.Bits(24, name))
	vnd.Assume(!tableFreq(v))
	return v
}

func channels(cfg int) int {
	if cfg == 7 {
		return 8
	}
	return cfg
}

// putASC writes an AudioSpecificConfig and returns the expected structure.
func putASC(w *bw.W, sr, ext, xsr, cfg int, core bool, name string) mpeg4audio.AudioSpecificConfig {
	e := mpeg4audio.AudioSpecificConfig{Type: mpeg4audio.ObjectTypeAACLC, ChannelConfig: uint8(cfg), ChannelCount: channels(cfg)}
	switch ext {
	case 0:
		w.U(2, 5)
	case 1:
		w.U(5, 5)
		e.ExtensionType = mpeg4audio.ObjectTypeSBR
	case 2:
		w.U(29, 5)
		e.ExtensionType = mpeg4audio.ObjectTypePS
	}
	e.SampleRate = putFreq(w, sr, name+"rate")
	w.U(uint64(cfg), 4)
	if ext != 0 {
		e.ExtensionSampleRate = putFreq(w, xsr, name+"xrate")
		w.U(2, 5)
	}
	e.FrameLengthFlag = w.Flag(name + "flen")
	e.DependsOnCoreCoder = core
	w.F(core)
	if core {
		e.CoreCoderDelay = uint16(w.Bits(14, name+"delay"))
	}
	w.F(false)
	return e
}

// VH_ASC: configurations laid out by the specification decode to the encoded values, encode back to the same bytes, and are
// rejected when truncated.
//
//vh: prop=P14,P04 case:sr=0..13 case:ext=0..2 case:core=0..1 merge=conc
func VH_ASC() {
	ext := vnd.Case("ext")
	xs := []int{0}
	if ext != 0 {
		xs = []int{0, 3, 7, 12, 13}
	}
	for _, xsr := range xs {
		for cfg := 0; cfg < 8; cfg++ {
			w := &bw.W{}
			e := putASC(w, vnd.Case("sr"), ext, xsr, cfg, vnd.Case("core") == 1, "")
			var c mpeg4audio.AudioSpecificConfig
			bw.Dirty(&c, w.Buf)
			vnd.Assert(c.Unmarshal(w.Buf) == nil, "decodes")
			vnd.Assert(vnd.DeepEqual(c, e), "field values")
			bw.In(&e)
			b, err := e.Marshal()
			bw.Out(b)
			vnd.Assert(err == nil && vnd.Eq(b, w.Buf), "encodes to the same bytes")
			e.ChannelCount = 0
			bw.In(&e)
			b, err = e.Marshal()
			bw.Out(b)
			vnd.Assert(err == nil && vnd.Eq(b, w.Buf), "the deprecated channel count is not needed")
			for n := (w.Pos - 1) / 8; n >= 0; n-- {
				vnd.Assert(c.Unmarshal(w.Buf[:n]) != nil, "truncated")
			}
		}
	}
	vnd.Reach("ok")
}

// VH_ASCReject: unsupported object types, reserved rates and channel configurations, and extensions are rejected.
//
//vh: prop=P14,P04 case:ext=0..2 merge=conc
func VH_ASCReject() {
	w := &bw.W{}
	ext := vnd.Case("ext")
	t := uint64(2)
	if ext > 0 {
		t = 5 + 24*uint64(ext-1)
	}
	bad := vnd.Bits("bad", 3)
	typ := vnd.Ite(bad == 1, vnd.Bits("typ", 5), t)
	vnd.Assume(vnd.Or(bad != 1, !vnd.Or(typ == 2, vnd.Or(typ == 5, typ == 29))))
	w.V(typ, 5)
	w.V(vnd.Ite(bad == 2, 13+vnd.Bits("sr", 1), 4), 4)
	w.V(vnd.Ite(bad == 3, 8+vnd.Bits("cfg", 3), 2), 4)
	x := vnd.Bits("x", 5)
	if ext != 0 {
		w.V(vnd.Ite(bad == 4, 13+vnd.Bits("xsr", 1), 4), 4)
		vnd.Assume(vnd.Or(bad != 5, x != 2))
		w.V(vnd.Ite(bad == 5, x, 2), 5)
	} else {
		vnd.Assume(bad != 4 && bad != 5)
	}
	w.U(0, 2)
	w.V(vnd.Ite(bad == 6, 1, 0), 1)
	var c mpeg4audio.AudioSpecificConfig
	bw.Dirty(&c, w.Buf)
	vnd.Assert((c.Unmarshal(w.Buf) == nil) == vnd.Or(bad == 0, bad == 7), "rejected")
}

// VH_ASCMarshal: every configuration with valid field values round-trips.
//
//vh: prop=P14 case:ext=0..2 case:core=0..1 case:cfg=0..7 merge=conc
func VH_ASCMarshal() {
	cfg := vnd.Case("cfg")
	c := mpeg4audio.AudioSpecificConfig{
		Type: mpeg4audio.ObjectTypeAACLC, SampleRate: int(vnd.Bits("rate", 24)), ChannelConfig: uint8(cfg), ChannelCount: channels(cfg),
		FrameLengthFlag: vnd.Bool("flen"), DependsOnCoreCoder: vnd.Case("core") == 1,
	}
	if ext := vnd.Case("ext"); ext != 0 {
		c.ExtensionType = mpeg4audio.ObjectType(5 + 24*(ext-1))
		c.ExtensionSampleRate = int(vnd.Bits("xrate", 24))
	}
	if c.DependsOnCoreCoder {
		c.CoreCoderDelay = uint16(vnd.Bits("delay", 14))
	}
	bw.In(&c)
	b, err := c.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil, "encodes")
	var g mpeg4audio.AudioSpecificConfig
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g, c), "round trip")
	c.ChannelCount = vnd.Int("cc", -4, 20)
	bw.In(&c)
	_, err = c.Marshal()
	vnd.Assert((err == nil) == vnd.Or(c.ChannelCount == 8, vnd.And(c.ChannelCount >= 0, c.ChannelCount <= 6)), "channel count")
}

// VH_ASCAny: arbitrary bytes never panic; what is accepted encodes.
//
//vh: prop=P04,P14,P34 case:n=0..11 merge=conc
func VH_ASCAny() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(4096)
	var c mpeg4audio.AudioSpecificConfig
	bw.Dirty(&c, buf)
	if c.Unmarshal(buf) != nil {
		return
	}
	bw.In(&c)
	b, err := c.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil, "encodes")
	var g mpeg4audio.AudioSpecificConfig
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil && vnd.DeepEqual(g, c), "round trip")
}

// VH_PCE: program configuration elements give the channel count of their elements.
//
//vh: prop=P14,P04 case:f=0..3,15 case:s=0..2 case:b=0..2 case:l=0..3 case:m=0..1 merge=full
func VH_PCE() {
	f, s, b, l := vnd.Case("f"), vnd.Case("s"), vnd.Case("b"), vnd.Case("l")
	w := &bw.W{}
	w.U(5, 3)
	e := mpeg4audio.ProgramConfigElement{
		ElementInstanceTag: uint8(w.Bits(4, "tag")), ObjectType: uint8(w.Bits(2, "type")), SamplingFrequencyIndex: uint8(w.Bits(4, "sf")),
	}
	w.U(uint64(f), 4)
	w.U(uint64(s), 4)
	w.U(uint64(b), 4)
	w.U(uint64(l), 2)
	e.NumFrontChannelElements, e.NumSideChannelElements = uint8(f), uint8(s)
	e.NumBackChannelElements, e.NumLFEChannelElements = uint8(b), uint8(l)
	e.NumAssocDataElements = uint8(w.Bits(3, "assoc"))
	e.NumValidCCElements = uint8(w.Bits(4, "cc"))
	m := vnd.Case("m") == 1
	for i, n := range []int{4, 4, 3} {
		w.F(m)
		if m {
			w.Bits(n, "mix", i)
		}
	}
	n := 0
	for i := 0; i < f+s+b; i++ {
		n += 1 + int(vnd.Ite(w.Flag("cpe", i), 1, 0))
		w.Bits(4, "etag", i)
	}
	for i := 0; i < l; i++ {
		n++
		w.Bits(4, "ltag", i)
	}
	need := w.Pos
	buf := append(append([]byte(nil), w.Buf...), vnd.Byte("more"))
	buf = bw.Spare(buf)
	bw.In(buf)
	p, err := mpeg4audio.ParsePCEFromRawDataBlock(buf)
	c, err2 := mpeg4audio.CountChannelsFromRawDataBlock(buf)
	if f+s+b+l == 0 {
		vnd.Assert(err != nil && err2 != nil, "no channels")
		return
	}
	vnd.Assert(err == nil && err2 == nil, "decodes")
	e.ChannelCount = n
	vnd.Assert(vnd.DeepEqual(*p, e), "field values")
	vnd.Assert(c == n, "channel count")
	for i := (need - 1) / 8; i >= 0; i-- {
		_, err = mpeg4audio.ParsePCEFromRawDataBlock(buf[:i])
		vnd.Assert(err != nil, "truncated")
		_, err = mpeg4audio.CountChannelsFromRawDataBlock(buf[:i])
		vnd.Assert(err != nil, "truncated")
	}
	buf = append([]byte(nil), buf...)
	buf[0] = vnd.Byte("id")
	vnd.Assume(buf[0]>>5 != 5)
	_, err = mpeg4audio.ParsePCEFromRawDataBlock(buf)
	vnd.Assert(err != nil, "not a program configuration")
	vnd.Reach("ok")
}

// VH_RawAny: arbitrary raw data blocks never panic.
//
//vh: prop=P04 quick:n=0..4 thorough:n=0..7 case:k=0..1 merge=conc
func VH_RawAny() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	if vnd.Case("k") == 0 {
		bw.In(buf)
		n, err := mpeg4audio.CountChannelsFromRawDataBlock(buf)
		vnd.Assert(err != nil || n > 0, "channel count")
		return
	}
	p, err := mpeg4audio.ParsePCEFromRawDataBlock(buf)
	vnd.Assert(err != nil || p.ChannelCount > 0, "channel count")
}

// VH_RawSkip: fill and data elements before the first channel element are skipped.
//
//vh: prop=P14,P04 case:k=0..4 case:n=0..2 case:el=0..3 case:pre=0,1 merge=conc
func VH_RawSkip() {
	w := &bw.W{}
	if vnd.Case("pre") == 1 { // the other elements are not aligned
		w.U(6, 3)
		w.U(0, 4)
	}
	n := vnd.Case("n")
	switch vnd.Case("k") {
	case 0:
		w.U(6, 3)
		w.U(uint64(n), 4)
	case 1:
		w.U(6, 3)
		w.U(15, 4)
		w.U(uint64(n+1), 8)
		n += 15
	case 2, 3:
		w.U(4, 3)
		w.Bits(4, "tag")
		align := vnd.Case("k") == 3
		w.F(align)
		w.U(uint64(n), 8)
		if align {
			for w.Pos%8 != 0 {
				w.Flag("al", w.Pos)
			}
		}
	case 4:
		w.U(4, 3)
		w.Bits(4, "tag")
		w.F(false)
		w.U(255, 8)
		w.U(uint64(n), 8)
		n += 255
	}
	for i := 0; i < n; i++ {
		w.Bits(8, "skip", i)
	}
	el := vnd.Case("el")
	w.U([4]uint64{0, 1, 3, 7}[el], 3)
	w.Bits(4, "etag")
	w.Bits(7, "more")
	c, err := mpeg4audio.CountChannelsFromRawDataBlock(w.Buf)
	if el == 3 {
		vnd.Assert(err != nil, "no channel elements")
		return
	}
	vnd.Assert(err == nil && c == [4]int{1, 2, 1}[el], "channels of the first element")
}

// VH_ADTS: access units round-trip through ADTS, laid out as in the specification.
//
//vh: prop=P15,P04 case:k=0..3 case:sz=0..5 merge=conc unwind=20000
func VH_ADTS() {
	sizes := [6][]int{{1}, {2, 1}, {7, 8, 9}, {255, 3, 1}, {5120}, {2041, 5119}}[vnd.Case("sz")]
	var ps mpeg4audio.ADTSPackets
	total := 0
	for i, n := range sizes {
		cfg := (vnd.Case("k")*2 + i*3) % 8
		p := &mpeg4audio.ADTSPacket{
			Type: mpeg4audio.ObjectType(1 + vnd.Bits("type", 2, i)), SampleRate: freqs[(vnd.Case("k")*4+i)%13],
			ChannelConfig: uint8(cfg), ChannelCount: channels(cfg),
		}
		p.AU = vnd.Fill(byte(0x31+i), n)
		for j := range p.AU {
			if j < 4 || j >= n-4 {
				p.AU[j] = vnd.Byte("au", i, j)
			}
		}
		ps = append(ps, p)
		total += 7 + n
	}
	bw.In(&ps)
	b, err := ps.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil && len(b) == total, "announced size")
	pos := 0
	for i, p := range ps {
		n := sizes[i] + 7
		h := b[pos : pos+n]
		vnd.Assert(h[0] == 0xFF && h[1] == 0xF1, "sync word")
		vnd.Assert(h[2]>>6 == byte(p.Type-1) && freqs[h[2]>>2&15] == p.SampleRate && h[2]&2 == 0, "profile and rate")
		vnd.Assert((h[2]&1)<<2|h[3]>>6 == p.ChannelConfig && h[3]&0x3C == 0, "channels")
		vnd.Assert(int(h[3]&3)<<11|int(h[4])<<3|int(h[5]>>5) == n, "frame length")
		vnd.Assert(h[6]&3 == 0, "one block")
		vnd.Assert(vnd.Eq(h[7:], p.AU), "payload")
		pos += n
	}
	var g mpeg4audio.ADTSPackets
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(len(g) == len(ps), "count")
	for i := range ps {
		vnd.Assert(vnd.DeepEqual(*g[i], *ps[i]), "round trip")
	}
	if total < 40 {
		for n := 0; n < total; n++ {
			var t mpeg4audio.ADTSPackets
			err := t.Unmarshal(b[:n])
			at := false // at a packet boundary the stream is complete
			for i, e := 0, 0; i < len(sizes); i++ {
				e += 7 + sizes[i]
				at = at || n == e
			}
			vnd.Assert((err == nil) == at, "truncated")
		}
	}
	vnd.Reach("ok")
}

// VH_ADTSMarshal: parameters that cannot be represented are reported.
//
//vh: prop=P15,P04 case:n=1,5120,5121,8184,8185 merge=conc
func VH_ADTSMarshal() {
	n := vnd.Case("n")
	p := &mpeg4audio.ADTSPacket{
		Type: mpeg4audio.ObjectType(vnd.Int("type", -2, 40)), SampleRate: vnd.Int("rate", 0, 1<<20), AU: vnd.Fill(7, n),
		ChannelCount: vnd.Int("cc", -2, 12),
	}
	cc := p.ChannelCount
	_, err := mpeg4audio.ADTSPackets{p}.Marshal()
	ok := vnd.And(vnd.And(p.Type >= 1, p.Type <= 4), tableFreq(p.SampleRate))
	ok = vnd.And(ok, vnd.Or(cc == 8, vnd.And(cc >= 0, cc <= 6)))
	vnd.Assert((err == nil) == vnd.And(ok, n <= mpeg4audio.MaxAccessUnitSize), "encodes exactly what can be represented")
}

// VH_ADTSAny: arbitrary streams never panic; what is accepted is a sequence of frames with consistent lengths.
//
//vh: prop=P15,P04,P34 quick:n=0..20 thorough:n=0..28 merge=conc
func VH_ADTSAny() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(65536)
	var ps mpeg4audio.ADTSPackets
	if ps.Unmarshal(buf) != nil {
		return
	}
	pos := 0
	for _, p := range ps {
		n := len(p.AU)
		h := buf[pos:]
		vnd.Assert(len(h) >= n+7 && n >= 1, "frame within the stream")
		vnd.Assert(h[0] == 0xFF && h[1]&0xF1 == 0xF1, "sync word")
		vnd.Assert(int(h[3]&3)<<11|int(h[4])<<3|int(h[5]>>5) == n+7, "frame length")
		vnd.Assert(int(p.Type) == int(h[2]>>6)+1 && p.ChannelConfig == (h[2]&1)<<2|h[3]>>6, "header values")
		vnd.Assert(vnd.Eq(p.AU, h[7:7+n]), "payload")
		pos += n + 7
	}
	vnd.Assert(pos == len(buf), "whole stream")
	vnd.Assert(len(ps) > 0, "at least one frame")
}
