package mp4x

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

// withBox returns the segment of a codec with another content of the box that holds its parameters.
func withBox(k int, content []byte) []byte {
	b := plainInit(k)
	path := findBox(b, codecBoxes(plainCodec(k))[0]...)
	p := path[len(path)-1]
	w := &bwr{}
	w.b = append(w.b, b[:p.off+8]...)
	w.b = append(w.b, content...)
	w.b = append(w.b, b[p.off+p.size:]...)
	d := 8 + len(content) - p.size
	for _, q := range path {
		w.patch(q.off, uint32(q.size+d))
	}
	return w.b
}

// decodeInit decodes a segment, and returns the codec of its track.
func decodeInit(b []byte) codecs.Codec {
	vnd.AllocLimit(1 << 20)
	var out fmp4.Init
	if out.Unmarshal(bytes.NewReader(b)) != nil {
		return nil
	}
	vnd.Assert(len(out.Tracks) == 1, "one track")
	vnd.Assert(out.Tracks[0].ID == 1, "track id")
	vnd.Assert(out.Tracks[0].TimeScale == 90000, "time scale")
	return out.Tracks[0].Codec
}

func (w *bwr) lv(b []byte) {
	w.b = append(w.b, byte(len(b)>>8), byte(len(b)))
	w.b = append(w.b, b...)
}

// AVC configurations with any number of parameter sets are read when they hold
// one of each, rejected otherwise.
//vh: prop=P32,P05 case:sps=0..3 case:pps=0..3 case:plen=0..2 case:tail=0..2 merge=conc
func VH_InitAVC() {
	n, m, pl := vnd.Case("sps"), vnd.Case("pps"), vnd.Case("plen")
	w := &bwr{}
	// version, compatibility and level are free
	w.b = append(w.b, vnd.Byte("h", 0), 0x42, vnd.Byte("h", 1), vnd.Byte("h", 2), 0xff, 0xe0|byte(n&31))
	for i := 0; i < n; i++ {
		w.lv(h264SPS)
	}
	w.b = append(w.b, byte(m))
	pps := symBytes("pps", pl)
	for i := 0; i < m; i++ {
		w.lv(pps)
	}
	tail := vnd.Case("tail")
	if tail == 1 {
		w.b = w.b[:len(w.b)-1] // truncated
	}
	if tail == 2 {
		w.b = append(w.b, vnd.Byte("t"))
	}
	c := decodeInit(withBox(3, w.b))
	if n != 1 || m != 1 || pl == 0 || tail == 1 {
		vnd.Assert(c == nil, "a configuration without one SPS and one PPS is rejected")
		return
	}
	if tail == 2 {
		return
	}
	h, ok := c.(*codecs.H264)
	vnd.Assert(ok, "a configuration with one SPS and one PPS is accepted")
	vnd.Assert(bytes.Equal(h.SPS, h264SPS), "SPS")
	vnd.Assert(vnd.Eq(h.PPS, pps), "PPS")
}

// HEVC configurations with arrays of any kind in any order are read when they hold
// one VPS, SPS and PPS, rejected otherwise.
//vh: prop=P32,P05 case:order=0..7 case:cnt=0..2 case:which=0..4 merge=conc
func VH_InitHEVC() {
	orders := [...][]byte{{32, 33, 34}, {34, 33, 32}, {33, 34, 32}, {39, 32, 33, 34}, {32, 33, 40, 34, 39}, {32, 33}, {34}, {}}
	ord := orders[vnd.Case("order")]
	cnt, which := vnd.Case("cnt"), vnd.Case("which")
	vps, pps, sei := symBytes("vps", 3), symBytes("pps", 2), symBytes("sei", 2)
	w := &bwr{b: symBytes("hd", 22)}
	w.b[0] = 1
	w.b[21] = w.b[21]&0xfc | 3
	w.b = append(w.b, byte(len(ord)))
	good := len(ord) >= 3
	for i, t := range ord {
		n := 1
		if i == which {
			n = cnt
			if cnt != 1 && t < 39 {
				good = false
			}
		}
		w.b = append(w.b, vnd.Byte("comp", i)&0x80|t, 0, byte(n))
		for range n {
			switch t {
			case 32:
				w.lv(vps)
			case 33:
				w.lv(h265SPS)
			case 34:
				w.lv(pps)
			default:
				w.lv(sei)
			}
		}
	}
	c := decodeInit(withBox(2, w.b))
	if !good {
		vnd.Assert(c == nil, "a configuration without one VPS, SPS and PPS is rejected")
		return
	}
	h, ok := c.(*codecs.H265)
	vnd.Assert(ok, "a configuration with one VPS, SPS and PPS is accepted")
	vnd.Assert(bytes.Equal(h.SPS, h265SPS), "SPS")
	vnd.Assert(vnd.Eq(h.VPS, vps) && vnd.Eq(h.PPS, pps), "VPS and PPS")
}

// AV1 configurations are read when their OBUs hold a sequence header.
//vh: prop=P32,P05 case:pre=0..3 case:n=0..3 case:cut=0..3 merge=conc
func VH_InitAV1() {
	w := &bwr{b: symBytes("hd", 4)}
	w.b[0] = 0x81
	pre, n, cut := vnd.Case("pre"), vnd.Case("n"), vnd.Case("cut")
	obu := func(typ byte, pl []byte) {
		w.b = append(w.b, typ<<3|2, byte(len(pl)))
		w.b = append(w.b, pl...)
	}
	switch pre {
	case 1:
		obu(5, symBytes("meta", n))
	case 2:
		obu(15, symBytes("pad", n))
	case 3:
		w.b = append(w.b, symBytes("raw", n)...)
	}
	if cut != 3 {
		seq := av1Seq[1:]
		w.b = append(w.b, 1<<3|2, byte(len(seq)))
		w.b = append(w.b, seq[:len(seq)-cut]...)
	}
	c := decodeInit(withBox(0, w.b))
	if pre == 3 {
		if c != nil {
			_, ok := c.(*codecs.AV1)
			vnd.Assert(ok, "codec type")
		}
		return
	}
	if cut != 0 {
		vnd.Assert(c == nil, "a configuration without a complete sequence header is rejected")
		return
	}
	a, ok := c.(*codecs.AV1)
	vnd.Assert(ok, "a configuration with a sequence header is accepted")
	vnd.Assert(bytes.Equal(a.SequenceHeader, av1Seq), "sequence header")
}

func (w *bwr) desc(tag byte, long bool, body []byte) {
	w.b = append(w.b, tag)
	if long {
		w.b = append(w.b, 0x80, 0x80, 0x80)
	}
	w.b = append(w.b, byte(len(body)))
	w.b = append(w.b, body...)
}

// Elementary stream descriptors in short or long form, with or without their
// parts, and of any object type.
//vh: prop=P32,P05 case:codec=4,5,6,9,10 case:long=0..1 case:part=0..4 case:n=0..5 case:oti=0..1 merge=conc
func VH_InitESDS() {
	k, long, part, n := vnd.Case("codec"), vnd.Case("long") == 1, vnd.Case("part"), vnd.Case("n")
	tags := map[int]byte{4: 0x20, 5: 0x61, 6: 0x6c, 9: 0x40, 10: 0x6b}
	oti := tags[k]
	if vnd.Case("oti") == 1 {
		oti = vnd.Byte("oti")
	}
	spec := symBytes("spec", n)
	var dsi, dcd, slc, es bwr
	dsi.desc(5, long, spec)
	dcd.b = append(dcd.b, oti)
	dcd.b = append(dcd.b, symBytes("dcd", 12)...)
	es.b = append(es.b, symBytes("es", 2)...)
	es.b = append(es.b, 0)
	slc.desc(6, long, []byte{2})
	inner := bwr{}
	if part != 1 {
		if part != 2 {
			d := append(append([]byte(nil), dcd.b...), dsi.b...)
			inner.desc(4, long, d)
		} else {
			inner.desc(4, long, dcd.b)
		}
	}
	if part != 3 {
		inner.b = append(inner.b, slc.b...)
	}
	es.b = append(es.b, inner.b...)
	w := &bwr{b: []byte{0, 0, 0, 0}}
	w.desc(3, long, es.b)
	if part == 4 {
		w.b = w.b[:len(w.b)-len(slc.b)-1]
	}
	c := decodeInit(withBox(k, w.b))
	if part == 1 {
		vnd.Assert(c == nil, "a descriptor without decoder configuration is rejected")
		return
	}
	if part == 4 {
		return
	}
	needs := k != 6 && k != 10
	hasSpec := n != 0 && part != 2
	if vnd.Case("oti") == 1 {
		if c != nil {
			if k < 7 {
				vnd.Assert(vnd.Or(vnd.And(oti == 0x20, hasSpec), vnd.Or(vnd.And(oti == 0x61, hasSpec), oti == 0x6c)), "unknown object types are rejected")
			} else {
				vnd.Assert(vnd.Or(vnd.And(oti == 0x40, hasSpec), oti == 0x6b), "unknown object types are rejected")
			}
		}
		return
	}
	if needs && !hasSpec {
		vnd.Assert(c == nil, "a descriptor without the configuration is rejected")
		return
	}
	switch c := c.(type) {
	case *codecs.MPEG4Video:
		vnd.Assert(k == 4 && vnd.Eq(c.Config, spec), "configuration")
	case *codecs.MPEG1Video:
		vnd.Assert(k == 5 && vnd.Eq(c.Config, spec), "configuration")
	case *codecs.MJPEG:
		vnd.Assert(k == 6 && c.Width == 640 && c.Height == 480, "parameters")
	case *codecs.MPEG1Audio:
		vnd.Assert(k == 10 && c.SampleRate == 48000 && c.ChannelCount == 2, "parameters")
	case *codecs.MPEG4Audio:
		var ref mpeg4audio.AudioSpecificConfig
		err := ref.Unmarshal(spec)
		vnd.Assert(k == 9 && err == nil && ref == c.Config, "configuration")
	default:
		var ref mpeg4audio.AudioSpecificConfig
		vnd.Assert(k == 9 && ref.Unmarshal(spec) != nil, "supported descriptors are accepted")
	}
}

// Boxes that hold the parameters of a codec in fixed fields, of any size and content.
//vh: prop=P32,P05,P34 case:codec=1,7,8,11,12,13 quick:n=0..14,41..43 thorough:n=0..44 merge=conc reach=ok
func VH_InitFixed() {
	k, n := vnd.Case("codec"), vnd.Case("n")
	pl := symBytes("p", n)
	c := decodeInit(withBox(k, pl))
	if c == nil {
		return
	}
	vnd.Reach("ok")
	switch c := c.(type) {
	case *codecs.Opus:
		vnd.Assert(k == 7 && n >= 11 && c.ChannelCount == int(pl[1]), "Opus parameters")
	case *codecs.VP9:
		vnd.Assert(k == 1 && n >= 12 && c.Profile == pl[4] && c.BitDepth == pl[6]>>4 && c.ChromaSubsampling == (pl[6]>>1)&7 && c.ColorRange == (pl[6]&1 != 0), "VP9 parameters")
		vnd.Assert(c.Width == 1920 && c.Height == 1080, "VP9 size")
	case *codecs.AC3:
		vnd.Assert(k == 11 && n >= 3, "AC-3 size")
		vnd.Assert(c.Fscod == pl[0]>>6 && c.Bsid == (pl[0]>>1)&31 && c.Bsmod == (pl[0]&1)<<2|pl[1]>>6, "AC-3 parameters")
		vnd.Assert(c.Acmod == (pl[1]>>3)&7 && c.LfeOn == (pl[1]>>2&1 != 0) && c.BitRateCode == (pl[1]&3)<<3|pl[2]>>5, "AC-3 parameters")
		vnd.Assert(c.SampleRate == 48000 && c.ChannelCount == 6, "AC-3 parameters")
	case *codecs.EAC3:
		vnd.Assert(k == 12 && n >= 5, "E-AC-3 size")
		vnd.Assert(c.DataRate == uint16(pl[0])<<5|uint16(pl[1])>>3, "E-AC-3 data rate")
		vnd.Assert(pl[1]&7 == 0, "several independent substreams are rejected")
		vnd.Assert(c.Acmod == (pl[3]>>1)&7 && c.LfeOn == (pl[3]&1 != 0) && c.NumDepSub == (pl[4]>>1)&15, "E-AC-3 parameters")
	case *codecs.LPCM:
		vnd.Assert(k == 13 && n >= 6 && c.LittleEndian == (pl[4]&1 != 0) && c.BitDepth == int(pl[5]), "LPCM parameters")
	case *codecs.FLAC:
		vnd.Assert(k == 8 && n >= 42, "FLAC size")
		vnd.Assert(c.StreamInfo.SampleRate == uint32(pl[18])<<12|uint32(pl[19])<<4|uint32(pl[20])>>4, "FLAC sample rate")
		vnd.Assert(c.StreamInfo.ChannelCount == (pl[20]>>1)&7+1, "FLAC channels")
	default:
		vnd.Assert(false, "codec type")
	}
}
