package mp4x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// desc is what a file has to announce about a track.
type desc struct {
	width, height  int
	channels, rate int
	bits           int
	record         []byte // expected configuration record, when it is short and fixed
	h265Constraint []byte // constraint flags of the SPS
}

func be16(b []byte, o int) int { return int(b[o])<<8 | int(b[o+1]) }

// avcDesc returns a codec with a SPS of any profile, level and size.
func avcDesc(prof, lz int, crop bool) (codecs.Codec, desc) {
	w := &bw.W{}
	w.U(0x67, 8)
	w.U(uint64(prof), 8)
	cf := byte(w.Bits(6, "cf")) << 2
	w.U(0, 2)
	level := byte(w.Bits(8, "level"))
	w.UEv(0)
	if prof == 100 {
		w.UEv(1)
		w.UEv(0)
		w.UEv(0)
		w.F(false)
		w.F(false)
	}
	w.UEv(0)
	w.UEv(2)
	w.UEv(1)
	w.F(false)
	mbw := int(w.UEc(lz, "mbw")) + 1
	mbh := int(w.UEc(lz, "mbh")) + 1
	fmo := crop || prof != 77
	w.F(fmo)
	if !fmo {
		w.F(false)
	}
	w.F(true)
	w.F(crop)
	width, height := mbw*16, mbh*16
	if !fmo {
		height *= 2
	}
	if crop {
		l, r, t, b := int(w.UEc(1, "l")), int(w.UEc(0, "r")), int(w.UEc(0, "t")), int(w.UEc(2, "b"))
		width -= 2 * (l + r)
		height -= 2 * (t + b)
	}
	w.F(false)
	w.Trail()
	sps := w.Escaped(1)
	pps := symBytes("pps", 3)
	rec := []byte{1, byte(prof), cf, level, 0xff, 0xe1, 0, byte(len(sps))}
	rec = append(rec, sps...)
	rec = append(rec, 1, 0, 3)
	rec = append(rec, pps...)
	return &codecs.H264{SPS: sps, PPS: pps}, desc{width: width, height: height, record: rec}
}

// hevcDesc returns a codec with a SPS of any profile, tier, level and size.
func hevcDesc(depth, lz int, zero bool) (codecs.Codec, desc) {
	w := &bw.W{}
	w.U(0x4201, 16)
	w.U(0, 4)
	w.U(0, 3)
	w.U(1, 1)
	space := byte(w.Bits(2, "space"))
	tier := byte(w.Bits(1, "tier"))
	idc := byte(w.Bits(5, "idc"))
	prof := space<<6 | tier<<5 | idc
	compat := w.Bits(32, "compat")
	constraint := uint64(0)
	if zero {
		w.U(0, 48)
	} else {
		constraint = w.Bits(48, "constraint")
	}
	level := byte(w.Bits(8, "level"))
	w.UEv(0)
	w.UEv(1)
	width := int(w.UEc(lz, "w"))
	height := int(w.UEc(lz, "h"))
	w.F(!zero)
	dw, dh := width, height
	if !zero {
		l, r, t, b := int(w.UEc(1, "l")), int(w.UEc(0, "r")), int(w.UEc(0, "t")), int(w.UEc(2, "b"))
		dw -= 2 * (l + r)
		dh -= 2 * (t + b)
	}
	w.UEv(uint32(depth))
	w.UEv(uint32(2 - depth))
	w.UEv(4)
	w.F(true)
	w.UEv(2)
	w.UEv(0)
	w.UEv(0)
	w.UEv(0)
	w.UEv(3)
	w.UEv(0)
	w.UEv(3)
	w.UEv(0)
	w.UEv(0)
	w.U(0, 4)
	w.UEv(0)
	w.U(0, 3)
	w.F(false)
	w.F(false)
	w.Trail()
	sps := w.Escaped(2)
	vps, pps := symBytes("vps", 4), symBytes("pps", 3)
	rec := []byte{
		1, prof, byte(compat >> 24), byte(compat >> 16), byte(compat >> 8), byte(compat),
		0, 0, 0, 0, 0, 0, level, 0xf0, 0, 0xfc, 0xfd, 0xf8 | byte(depth), 0xf8 | byte(2-depth), 0, 0, 0,
		3,
	}
	for i, u := range [][]byte{vps, sps, pps} {
		rec = append(rec, byte(32+i), 0, 1, 0, byte(len(u)))
		rec = append(rec, u...)
	}
	var c []byte
	for i := 5; i >= 0; i-- {
		c = append(c, byte(constraint>>uint(8*i)))
	}
	return &codecs.H265{VPS: vps, SPS: sps, PPS: pps}, desc{width: dw, height: dh, record: rec, h265Constraint: c}
}

// av1Desc returns a codec with a sequence header of any profile, level, tier and size.
func av1Desc(prof, n int, reduced bool) (codecs.Codec, desc) {
	w := &bw.W{}
	w.U(0x08, 8)
	w.U(uint64(prof), 3)
	w.F(reduced)
	w.F(reduced)
	var level, tier byte
	if reduced {
		level = byte(w.Bits(5, "level"))
	} else {
		w.U(0, 7)
		w.Bits(12, "idc")
		level = byte(w.Bits(5, "level"))
		if prof == 1 {
			vnd.Assume(level > 7)
			tier = byte(w.Bits(1, "tier"))
		} else {
			vnd.Assume(level <= 7)
		}
	}
	w.U(uint64(n-1), 4)
	w.U(uint64(n), 4)
	width := int(w.Bits(n, "w")) + 1
	height := int(w.Bits(n+1, "h")) + 1
	if !reduced {
		w.F(false)
	}
	w.Bits(3, "tools")
	if !reduced {
		w.Bits(4, "tools2")
		w.U(0, 1) // order hint
		w.U(3, 2)
	}
	w.Bits(3, "filters")
	high := w.Flag("high")
	twelve := false
	if prof == 2 {
		vnd.Assume(high)
		twelve = w.Flag("twelve")
		vnd.Assume(twelve)
	}
	mono := false
	if prof != 1 {
		mono = n%2 == 1
		w.F(mono)
	}
	w.F(false)
	w.Flag("range")
	sx, sy, pos := true, true, byte(0)
	if !mono {
		switch prof {
		case 0:
			pos = byte(w.Bits(2, "csp"))
		case 1:
			sx, sy = false, false
		case 2:
			sx, sy = true, n%4 == 0
			w.F(sx)
			w.F(sy)
			if sy {
				pos = byte(w.Bits(2, "csp"))
			}
		}
		w.Flag("uvq")
	}
	w.Flag("grain")
	w.Trail()
	f := func(b bool, n uint) byte { return byte(vnd.Ite(b, 1, 0)) << n }
	rec := []byte{0x81, byte(prof)<<5 | level, tier<<7 | f(high, 6) | f(twelve, 5) | f(mono, 4) | f(sx, 3) | f(sy, 2) | pos, 0,
		0x0a, byte(len(w.Buf) - 1)}
	rec = append(rec, w.Buf[1:]...)
	return &codecs.AV1{SequenceHeader: w.Buf}, desc{width: width, height: height, record: rec}
}

// otherDesc returns a codec of the other kinds.
func otherDesc(kind int) (codecs.Codec, desc) {
	c := mkCodec(kind, "c", 2)
	vnd.Assume(fits(c))
	d := desc{bits: 16}
	switch c := c.(type) {
	case *codecs.VP9:
		d.width, d.height = c.Width, c.Height
		d.record = []byte{1, 0, 0, 0, c.Profile, 10, c.BitDepth<<4 | c.ChromaSubsampling<<1 | byte(vnd.Ite(c.ColorRange, 1, 0)), 0, 0, 0, 0, 0}
	case *codecs.MPEG4Video, *codecs.MPEG1Video:
		d.width, d.height = 800, 600
	case *codecs.MJPEG:
		d.width, d.height = c.Width, c.Height
	case *codecs.Opus:
		d.channels, d.rate = c.ChannelCount, 48000
		d.record = []byte{0, byte(c.ChannelCount), 1, 56, 0, 0, 0xbb, 0x80, 0, 0, 0}
	case *codecs.FLAC:
		vnd.Assume(c.StreamInfo.SampleRate < 65536)
		d.channels, d.rate, d.bits = int(c.StreamInfo.ChannelCount), int(c.StreamInfo.SampleRate), int(c.StreamInfo.BitDepth)
	case *codecs.MPEG4Audio:
		vnd.Assume(c.Config.SampleRate < 65536)
		d.rate = c.Config.SampleRate
		d.channels = int(vnd.Ite(c.Config.ChannelConfig == 7, 8, uint64(c.Config.ChannelConfig)))
	case *codecs.MPEG1Audio:
		d.channels, d.rate = c.ChannelCount, c.SampleRate
	case *codecs.AC3:
		d.channels, d.rate = c.ChannelCount, c.SampleRate
		v := vnd.Ite(c.SampleRate == 48000, 0, vnd.Ite(c.SampleRate == 44100, 1, 2))<<22 | uint64(c.Bsid)<<17 | uint64(c.Bsmod)<<14 |
			uint64(c.Acmod)<<11 | vnd.Ite(c.LfeOn, 1, 0)<<10 | uint64(c.BitRateCode)<<5
		d.record = []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	case *codecs.EAC3:
		d.channels, d.rate = c.ChannelCount, c.SampleRate
	case *codecs.LPCM:
		d.channels, d.rate, d.bits = c.ChannelCount, c.SampleRate, c.BitDepth
		d.record = []byte{0, 0, 0, 0, byte(vnd.Ite(c.LittleEndian, 1, 0)), byte(c.BitDepth)}
	}
	return c, d
}

const matrix = "\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40\x00\x00\x00"

func child(b []byte, p boxPos, skip int, i int, typ string) boxPos {
	c := boxes(b, p.off+8+skip, p.off+p.size)
	vnd.Assert(i < len(c) && isBox(b, c[i], typ), "box "+typ+" is missing or is not in its place")
	return c[i]
}

// checkDesc checks the header of a track, and returns its sample table.
func checkDesc(b []byte, trak boxPos, c codecs.Codec, d desc, id, ts, dur, presDur, max, avg uint32) boxPos {
	video := c.IsVideo()
	tkhd := child(b, trak, 0, 0, "tkhd")
	vnd.Assert(tkhd.size == 92, "size of tkhd")
	o := tkhd.off
	vnd.Assert(be32(b, o+8)&0xff000001 == 1, "version of tkhd and enabled flag")
	vnd.Assert(be32(b, o+20) == id, "track id")
	vnd.Assert(be32(b, o+28) == presDur, "duration in tkhd")
	vnd.Assert(string(b[o+48:o+84]) == matrix, "matrix of tkhd")
	if video {
		vnd.Assert(be16(b, o+44) == 0, "volume")
		vnd.Assert(be32(b, o+84) == uint32(d.width)<<16, "width in tkhd")
		vnd.Assert(be32(b, o+88) == uint32(d.height)<<16, "height in tkhd")
	} else {
		vnd.Assert(be16(b, o+44) == 0x100, "volume")
		vnd.Assert(be32(b, o+84) == 0 && be32(b, o+88) == 0, "an audio track has no size")
	}
	n := len(boxes(b, trak.off+8, trak.off+trak.size))
	mdia := child(b, trak, 0, n-1, "mdia")
	mdhd := child(b, mdia, 0, 0, "mdhd")
	o = mdhd.off
	vnd.Assert(mdhd.size == 32 && be32(b, o+8) == 0, "version of mdhd")
	vnd.Assert(be32(b, o+20) == ts, "time scale")
	vnd.Assert(be32(b, o+24) == dur, "duration in mdhd")
	vnd.Assert(be16(b, o+28) == 0x55c4, "language")
	hdlr := child(b, mdia, 0, 1, "hdlr")
	o = hdlr.off
	typ := "soun"
	if video {
		typ = "vide"
	}
	vnd.Assert(string(b[o+16:o+20]) == typ, "handler type")
	vnd.Assert(be32(b, o+12) == 0 && b[o+hdlr.size-1] == 0, "handler name")
	minf := child(b, mdia, 0, 2, "minf")
	if video {
		h := child(b, minf, 0, 0, "vmhd")
		vnd.Assert(h.size == 20 && be32(b, h.off+8) == 1, "vmhd")
	} else {
		h := child(b, minf, 0, 0, "smhd")
		vnd.Assert(h.size == 16 && be32(b, h.off+8) == 0, "smhd")
	}
	dref := child(b, child(b, minf, 0, 1, "dinf"), 0, 0, "dref")
	vnd.Assert(be32(b, dref.off+8) == 0 && be32(b, dref.off+12) == 1, "dref")
	url := child(b, dref, 8, 0, "url ")
	vnd.Assert(url.size == 12 && be32(b, url.off+8) == 1, "data is in the same file")
	stbl := child(b, minf, 0, 2, "stbl")
	stsd := child(b, stbl, 0, 0, "stsd")
	vnd.Assert(be32(b, stsd.off+8) == 0 && be32(b, stsd.off+12) == 1, "stsd")
	t1, t2 := sortOfEntry(c)
	en := child(b, stsd, 8, 0, t1)
	o = en.off
	vnd.Assert(be32(b, o+8) == 0 && be32(b, o+12) == 1, "data reference of the sample entry")
	skip := 28
	if video {
		skip = 78
		vnd.Assert(be32(b, o+16) == 0 && be32(b, o+20) == 0 && be32(b, o+24) == 0 && be32(b, o+28) == 0, "sample entry")
		vnd.Assert(be16(b, o+32) == d.width, "width")
		vnd.Assert(be16(b, o+34) == d.height, "height")
		vnd.Assert(be32(b, o+36) == 0x480000 && be32(b, o+40) == 0x480000, "resolution")
		vnd.Assert(be16(b, o+48) == 1 && be16(b, o+82) == 24 && be16(b, o+84) == 0xffff, "frame count and depth")
	} else {
		vnd.Assert(be32(b, o+16) == 0 && be32(b, o+20) == 0, "version of the sample entry")
		vnd.Assert(be16(b, o+24) == d.channels, "channel count")
		vnd.Assert(be16(b, o+26) == d.bits, "sample size")
		vnd.Assert(be32(b, o+32) == uint32(d.rate)<<16, "sample rate")
	}
	cf := child(b, en, skip, 0, t2)
	o = cf.off + 8
	if d.h265Constraint != nil {
		x := append([]byte(nil), b[o:cf.off+cf.size]...)
		copy(x[6:12], []byte{0, 0, 0, 0, 0, 0})
		x[21] = 0 // temporal layers are not checked
		vnd.Assert(vnd.Eq(x, d.record), "the configuration does not match the parameters")
		vnd.Assert(b[o+21]&3 == 3, "length size of the configuration")
	} else if d.record != nil {
		vnd.Assert(vnd.Eq(b[o:cf.off+cf.size], d.record), "the configuration does not match the parameters")
	}
	if t2 == "esds" {
		checkESDS(b[o:cf.off+cf.size], c, max, avg)
	}
	return stbl
}

// checkESDS checks an elementary stream descriptor.
func checkESDS(b []byte, c codecs.Codec, max, avg uint32) {
	vnd.Assert(be32(b, 0) == 0, "version of esds")
	next := func(b []byte, tag byte) ([]byte, []byte) {
		vnd.Assert(b[0] == tag, "descriptor tag")
		n, i := 0, 1
		for {
			n = n<<7 | int(b[i]&0x7f)
			i++
			if b[i-1]&0x80 == 0 {
				break
			}
		}
		vnd.Assert(i+n <= len(b), "descriptor size")
		return b[i : i+n], b[i+n:]
	}
	es, rest := next(b[4:], 3)
	vnd.Assert(len(rest) == 0, "a single elementary stream descriptor")
	vnd.Assert(es[2] == 0, "flags of the elementary stream descriptor")
	dc, rest := next(es[3:], 4)
	sl, rest := next(rest, 6)
	vnd.Assert(len(sl) == 1 && sl[0] == 2 && len(rest) == 0, "SL configuration")
	var obj byte
	var dsi []byte
	switch c := c.(type) {
	case *codecs.MPEG4Video:
		obj, dsi = 0x20, c.Config
	case *codecs.MPEG1Video:
		obj, dsi = 0x61, c.Config
	case *codecs.MJPEG:
		obj = 0x6c
	case *codecs.MPEG4Audio:
		obj = 0x40
		var err error
		dsi, err = c.Config.Marshal()
		vnd.Assert(err == nil, "encodes")
	case *codecs.MPEG1Audio:
		obj = 0x6b
	}
	vnd.Assert(dc[0] == obj, "object type")
	st := byte(5)
	if c.IsVideo() {
		st = 4
	}
	vnd.Assert(dc[1] == st<<2|1, "stream type")
	vnd.Assert(be32(dc, 5) == max, "maximum bitrate")
	vnd.Assert(be32(dc, 9) == avg, "average bitrate")
	if dsi == nil {
		vnd.Assert(len(dc) == 13, "there is no decoder configuration")
	} else {
		x, rest := next(dc[13:], 5)
		vnd.Assert(len(rest) == 0 && vnd.Eq(x, dsi), "decoder configuration")
	}
}

// anyDesc returns a codec of each kind, in some variants.
func anyDesc(kind, v int) (codecs.Codec, desc) {
	switch kind {
	case 0:
		return av1Desc(v%3, []int{10, 15, 8, 14, 7, 12}[v], v%2 == 0)
	case 2:
		return hevcDesc(v%3, []int{10, 11, 13, 7, 15, 12}[v], v%2 == 0)
	case 3:
		return avcDesc([]int{66, 100, 77, 88, 100, 77}[v], []int{6, 7, 5, 11, 4, 8}[v], v%2 == 1)
	}
	return otherDesc(kind)
}

func defaultRate(c codecs.Codec) uint32 {
	if c.IsVideo() {
		return 1000000
	}
	return 128825
}

// VH_DescInit: initialization segments describe their track exactly.
//
//vh: prop=P42 case:kind=0..13 case:v=0..5 merge=conc reach=ok
func VH_DescInit() {
	kind, v := vnd.Case("kind"), vnd.Case("v")
	c, d := anyDesc(kind, v)
	if c.IsVideo() {
		vnd.Assume(vnd.And(vnd.And(d.width > 0, d.height > 0), vnd.And(d.width < 65536, d.height < 65536)))
	}
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: int(vnd.U32("id")), TimeScale: vnd.U32("ts"), Codec: c}}}
	t := in.Tracks[0]
	max, avg := defaultRate(c), defaultRate(c)
	if v%2 == 1 {
		max, avg = vnd.U32("max"), vnd.U32("avg")
		vnd.Assume(vnd.And(max != 0, avg != 0))
		t.MaxBitrate, t.AvgBitrate = max, avg
	}
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	vnd.Assert(err == nil, "a valid segment can be encoded")
	b := buf.Bytes()
	root := boxes(b, 0, len(b))
	vnd.Assert(len(root) == 2 && isBox(b, root[0], "ftyp") && isBox(b, root[1], "moov"), "root boxes")
	checkMvhd(b, child(b, root[1], 0, 0, "mvhd"), 0)
	stbl := checkDesc(b, child(b, root[1], 0, 1, "trak"), c, d, uint32(t.ID), t.TimeScale, 0, 0, max, avg)
	for i, n := range []string{"stts", "stsc", "stsz", "stco"} {
		p := child(b, stbl, 0, i+1, n)
		for k := p.off + 8; k < p.off+p.size; k++ {
			vnd.Assert(b[k] == 0, "sample tables are empty")
		}
		vnd.Assert(p.size == 16 || n == "stsz" && p.size == 20, "sample tables are empty")
	}
	trex := child(b, child(b, root[1], 0, 2, "mvex"), 0, 0, "trex")
	o := trex.off
	vnd.Assert(trex.size == 32 && be32(b, o+8) == 0 && be32(b, o+12) == uint32(t.ID) && be32(b, o+16) == 1, "trex")
	vnd.Assert(be32(b, o+20) == 0 && be32(b, o+24) == 0 && be32(b, o+28) == 0, "defaults in trex")
	vnd.Reach("ok")
}

// VH_DescConstraint: the constraint flags of a HEVC configuration are the ones of the SPS.
//
//vh: prop=P42 case:v=0..1 merge=conc
func VH_DescConstraint() {
	c, d := hevcDesc(0, 10, vnd.Case("v") == 0)
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 90000, Codec: c}}}
	vnd.Assume(vnd.And(d.width > 0, d.height > 0))
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	vnd.Assert(err == nil, "a valid segment can be encoded")
	b := buf.Bytes()
	path := findBox(b, "moov", "trak", "mdia", "minf", "stbl", "stsd", "hvc1", "hvcC")
	o := path[len(path)-1].off + 8
	vnd.Assert(vnd.Eq(b[o+6:o+12], d.h265Constraint), "the constraint flags of the configuration are not the ones of the SPS")
}

func checkMvhd(b []byte, p boxPos, dur uint32) {
	o := p.off
	vnd.Assert(p.size == 108 && be32(b, o+8) == 0, "version of mvhd")
	vnd.Assert(be32(b, o+20) == 1000, "time scale in mvhd")
	vnd.Assert(be32(b, o+24) == dur, "duration in mvhd")
	vnd.Assert(be32(b, o+28) == 0x10000 && be16(b, o+32) == 0x100, "rate and volume in mvhd")
	vnd.Assert(string(b[o+44:o+80]) == matrix, "matrix of mvhd")
}

// VH_DescPres: presentations describe their tracks exactly.
//
//vh: prop=P42 case:kind=0..13 quick:v=0..1 thorough:v=0..5 merge=conc reach=ok
func VH_DescPres() {
	kind, v := vnd.Case("kind"), vnd.Case("v")
	c, d := anyDesc(kind, v)
	if c.IsVideo() {
		vnd.Assume(vnd.And(vnd.And(d.width > 0, d.height > 0), vnd.And(d.width < 65536, d.height < 65536)))
	}
	id := vnd.U32("id")
	ss := []presSample{{dur: 30, pl: []byte{vnd.Byte("pl")}}}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{
		presTrack(7, 50, 10, mkCodec(7, "first", 1), ss),
		presTrack(int(id), 1000, 0, c, ss),
	}}
	vnd.Assume(fits(in.Tracks[0].Codec))
	var s sink
	err := in.Marshal(&s)
	vnd.Assert(err == nil, "a presentation can be written")
	b := s.b
	root := boxes(b, 0, len(b))
	vnd.Assert(len(root) == 3 && isBox(b, root[0], "ftyp") && isBox(b, root[1], "moov") && isBox(b, root[2], "mdat"), "root boxes")
	checkMvhd(b, child(b, root[1], 0, 0, "mvhd"), 800)
	first := in.Tracks[0].Codec
	checkDesc(b, child(b, root[1], 0, 1, "trak"), first,
		desc{channels: first.(*codecs.Opus).ChannelCount, rate: 48000, bits: 16}, 7, 50, 40, 800, 0, 0)
	r := defaultRate(c)
	checkDesc(b, child(b, root[1], 0, 2, "trak"), c, d, id, 1000, 30, 30, r, r)
	vnd.Reach("ok")
}
