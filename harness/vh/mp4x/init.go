package mp4x

import (
	"bytes"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

const codecCount = 14

var h264SPS = []byte{
	0x67, 0x42, 0xc0, 0x28, 0xd9, 0x00, 0x78, 0x02,
	0x27, 0xe5, 0x84, 0x00, 0x00, 0x03, 0x00, 0x04,
	0x00, 0x00, 0x03, 0x00, 0xf0, 0x3c, 0x60, 0xc9, 0x20,
}

var h265SPS = []byte{
	0x42, 0x01, 0x01, 0x01, 0x60, 0x00, 0x00, 0x03,
	0x00, 0x90, 0x00, 0x00, 0x03, 0x00, 0x00, 0x03,
	0x00, 0x78, 0xa0, 0x03, 0xc0, 0x80, 0x10, 0xe5,
	0x96, 0x66, 0x69, 0x24, 0xca, 0xe0, 0x10, 0x00,
	0x00, 0x03, 0x00, 0x10, 0x00, 0x00, 0x03, 0x01,
	0xe0, 0x80,
}

var av1Seq = []byte{
	0x08, 0x00, 0x00, 0x00, 0x42, 0xa7, 0xbf, 0xe4,
	0x60, 0x0d, 0x00, 0x40,
}

func symBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vnd.Byte(name, i)
	}
	return b
}

// mkCodec returns a codec with symbolic parameters. The parameters are those
// that can be represented in the format.
func mkCodec(kind int, nm string, n int) codecs.Codec {
	switch kind {
	case 0:
		return &codecs.AV1{SequenceHeader: av1Seq}
	case 1:
		return &codecs.VP9{
			Width:             int(vnd.U16(nm + ".w")),
			Height:            int(vnd.U16(nm + ".h")),
			Profile:           vnd.Byte(nm + ".prof"),
			BitDepth:          vnd.Byte(nm + ".depth"),
			ChromaSubsampling: vnd.Byte(nm + ".chroma"),
			ColorRange:        vnd.Bool(nm + ".range"),
		}
	case 2:
		return &codecs.H265{VPS: symBytes(nm+".vps", n), SPS: h265SPS, PPS: symBytes(nm+".pps", 2*n-1)}
	case 3:
		return &codecs.H264{SPS: h264SPS, PPS: symBytes(nm+".pps", n)}
	case 4:
		return &codecs.MPEG4Video{Config: symBytes(nm+".conf", n)}
	case 5:
		return &codecs.MPEG1Video{Config: symBytes(nm+".conf", n)}
	case 6:
		return &codecs.MJPEG{Width: vnd.Int(nm+".w", 0, 65535), Height: vnd.Int(nm+".h", 0, 65535)}
	case 7:
		return &codecs.Opus{ChannelCount: int(int16(vnd.U16(nm + ".ch")))}
	case 8:
		var md5 [16]byte
		copy(md5[:], symBytes(nm+".md5", 16))
		return &codecs.FLAC{StreamInfo: &flac.StreamInfo{
			MD5:          md5,
			MinBlockSize: vnd.U16(nm + ".minb"),
			MaxBlockSize: vnd.U16(nm + ".maxb"),
			MinFrameSize: vnd.U32(nm + ".minf"),
			MaxFrameSize: vnd.U32(nm + ".maxf"),
			SampleRate:   vnd.U32(nm + ".rate"),
			ChannelCount: vnd.Byte(nm + ".ch"),
			BitDepth:     vnd.Byte(nm + ".depth"),
			TotalSamples: vnd.U64(nm + ".total"),
		}}
	case 9:
		return &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{
			Type:          mpeg4audio.ObjectTypeAACLC,
			SampleRate:    vnd.Int(nm+".rate", 1, 1<<24-1),
			ChannelConfig: vnd.Byte(nm + ".cc"),
		}}
	case 10:
		return &codecs.MPEG1Audio{SampleRate: int(vnd.U32(nm + ".rate")), ChannelCount: int(vnd.U32(nm + ".ch"))}
	case 11:
		return &codecs.AC3{
			SampleRate:   int(vnd.U32(nm + ".rate")),
			ChannelCount: int(vnd.U32(nm + ".ch")),
			Fscod:        vnd.Byte(nm + ".fscod"),
			Bsid:         vnd.Byte(nm + ".bsid"),
			Bsmod:        vnd.Byte(nm + ".bsmod"),
			Acmod:        vnd.Byte(nm + ".acmod"),
			LfeOn:        vnd.Bool(nm + ".lfe"),
			BitRateCode:  vnd.Byte(nm + ".brc"),
		}
	case 12:
		return &codecs.EAC3{
			SampleRate:   int(vnd.U32(nm + ".rate")),
			ChannelCount: int(vnd.U32(nm + ".ch")),
			DataRate:     vnd.U16(nm + ".drate"),
			Asvc:         vnd.Bool(nm + ".asvc"),
			Bsmod:        vnd.Byte(nm + ".bsmod"),
			Acmod:        vnd.Byte(nm + ".acmod"),
			LfeOn:        vnd.Bool(nm + ".lfe"),
			NumDepSub:    vnd.Byte(nm + ".nds"),
			ChanLoc:      vnd.U16(nm + ".loc"),
		}
	default:
		return &codecs.LPCM{
			LittleEndian: vnd.Bool(nm + ".le"),
			BitDepth:     int(vnd.U32(nm + ".depth")),
			SampleRate:   int(vnd.U32(nm + ".rate")),
			ChannelCount: int(vnd.U32(nm + ".ch")),
		}
	}
}

func sameCodec(a, b codecs.Codec) {
	switch a := a.(type) {
	case *codecs.AV1:
		b, ok := b.(*codecs.AV1)
		vnd.Assert(ok, "codec type")
		vnd.Assert(vnd.Eq(a.SequenceHeader, b.SequenceHeader), "AV1 sequence header")
	case *codecs.VP9:
		b, ok := b.(*codecs.VP9)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a == *b, "VP9 parameters")
	case *codecs.H265:
		b, ok := b.(*codecs.H265)
		vnd.Assert(ok, "codec type")
		vnd.Assert(vnd.Eq(a.VPS, b.VPS), "H265 VPS")
		vnd.Assert(vnd.Eq(a.SPS, b.SPS), "H265 SPS")
		vnd.Assert(vnd.Eq(a.PPS, b.PPS), "H265 PPS")
	case *codecs.H264:
		b, ok := b.(*codecs.H264)
		vnd.Assert(ok, "codec type")
		vnd.Assert(vnd.Eq(a.SPS, b.SPS), "H264 SPS")
		vnd.Assert(vnd.Eq(a.PPS, b.PPS), "H264 PPS")
	case *codecs.MPEG4Video:
		b, ok := b.(*codecs.MPEG4Video)
		vnd.Assert(ok, "codec type")
		vnd.Assert(vnd.Eq(a.Config, b.Config), "MPEG-4 video config")
	case *codecs.MPEG1Video:
		b, ok := b.(*codecs.MPEG1Video)
		vnd.Assert(ok, "codec type")
		vnd.Assert(vnd.Eq(a.Config, b.Config), "MPEG-1 video config")
	case *codecs.MJPEG:
		b, ok := b.(*codecs.MJPEG)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a == *b, "M-JPEG parameters")
	case *codecs.Opus:
		b, ok := b.(*codecs.Opus)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a == *b, "Opus parameters")
	case *codecs.FLAC:
		b, ok := b.(*codecs.FLAC)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a.StreamInfo == *b.StreamInfo, "FLAC stream info")
	case *codecs.MPEG4Audio:
		b, ok := b.(*codecs.MPEG4Audio)
		vnd.Assert(ok, "codec type")
		vnd.Assert(a.Config.Type == b.Config.Type, "MPEG-4 audio type")
		vnd.Assert(a.Config.SampleRate == b.Config.SampleRate, "MPEG-4 audio sample rate")
		vnd.Assert(a.Config.ChannelConfig == b.Config.ChannelConfig, "MPEG-4 audio channel config")
	case *codecs.MPEG1Audio:
		b, ok := b.(*codecs.MPEG1Audio)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a == *b, "MPEG-1 audio parameters")
	case *codecs.AC3:
		b, ok := b.(*codecs.AC3)
		vnd.Assert(ok, "codec type")
		x := *a
		x.Fscod = b.Fscod // deprecated, derived from the sample rate
		vnd.Assert(x == *b, "AC-3 parameters")
	case *codecs.EAC3:
		b, ok := b.(*codecs.EAC3)
		vnd.Assert(ok, "codec type")
		x := *a
		if x.NumDepSub == 0 {
			x.ChanLoc = 0 // only valid when there are dependent substreams
		}
		vnd.Assert(x == *b, "E-AC-3 parameters")
	case *codecs.LPCM:
		b, ok := b.(*codecs.LPCM)
		vnd.Assert(ok, "codec type")
		vnd.Assert(*a == *b, "LPCM parameters")
	}
}

func sameInit(a, b *fmp4.Init) {
	vnd.Assert(len(a.Tracks) == len(b.Tracks), "track count")
	for i := range a.Tracks {
		x, y := a.Tracks[i], b.Tracks[i]
		vnd.Assert(x.ID == y.ID, "track id")
		vnd.Assert(x.TimeScale == y.TimeScale, "time scale")
		sameCodec(x.Codec, y.Codec)
	}
}

// fits tells whether parameters are valid and can be represented in the format.
func fits(c codecs.Codec) bool {
	rate := func(r, ch int) bool { return vnd.And(r < 65536, ch < 65536) }
	switch c := c.(type) {
	case *codecs.VP9:
		return vnd.And(vnd.And(c.Width > 0, c.Height > 0), vnd.And(c.BitDepth < 16, c.ChromaSubsampling < 8))
	case *codecs.MJPEG:
		return vnd.And(c.Width > 0, c.Height > 0)
	case *codecs.Opus:
		return vnd.And(c.ChannelCount > 0, c.ChannelCount < 256)
	case *codecs.FLAC:
		x := c.StreamInfo
		return vnd.And(vnd.And(vnd.And(x.MinFrameSize < 1<<24, x.MaxFrameSize < 1<<24), vnd.And(x.SampleRate < 1<<20, x.TotalSamples < 1<<36)),
			vnd.And(vnd.And(x.ChannelCount >= 1, x.ChannelCount <= 8), vnd.And(x.BitDepth >= 4, x.BitDepth <= 32)))
	case *codecs.MPEG4Audio:
		return vnd.And(c.Config.ChannelConfig >= 1, c.Config.ChannelConfig <= 7)
	case *codecs.MPEG1Audio:
		return rate(c.SampleRate, c.ChannelCount)
	case *codecs.AC3:
		return vnd.And(vnd.And(rate(c.SampleRate, c.ChannelCount), vnd.Or(vnd.Or(c.SampleRate == 48000, c.SampleRate == 44100), c.SampleRate == 32000)),
			vnd.And(vnd.And(c.Bsid < 32, c.Bsmod < 8), vnd.And(c.Acmod < 8, c.BitRateCode < 32)))
	case *codecs.EAC3:
		return vnd.And(vnd.And(rate(c.SampleRate, c.ChannelCount), vnd.Or(vnd.Or(c.SampleRate == 48000, c.SampleRate == 44100), c.SampleRate == 32000)),
			vnd.And(vnd.And(vnd.And(c.DataRate < 1<<13, c.Bsmod < 8), vnd.And(c.Acmod < 8, c.NumDepSub < 16)), c.ChanLoc < 1<<9))
	case *codecs.LPCM:
		return vnd.And(rate(c.SampleRate, c.ChannelCount), c.BitDepth < 256)
	}
	return true
}

// An initialization segment is either rejected by the encoder or decoded back
// to the same tracks.
//vh: prop=P32 quick:codec=0..13 quick:n=1,3 thorough:codec=0..13 thorough:n=1..8 merge=conc reach=ok
func VH_InitRoundTrip() {
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{
		ID:         int(vnd.U32("id")),
		TimeScale:  vnd.U32("ts"),
		AvgBitrate: vnd.U32("avg"),
		MaxBitrate: vnd.U32("max"),
		Codec:      mkCodec(vnd.Case("codec"), "c", vnd.Case("n")),
	}}}
	vnd.Assume(in.Tracks[0].TimeScale != 0)
	bw.In(in)
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	if err != nil {
		vnd.Assert(!fits(in.Tracks[0].Codec), "parameters that can be represented are not rejected")
		return
	}
	var out fmp4.Init
	bw.Out(buf.Bytes())
	err = out.Unmarshal(bytes.NewReader(buf.Bytes()))
	vnd.Assert(err == nil, "an encoded segment can be decoded")
	sameInit(in, &out)
	bw.Out(&out)
	vnd.Reach("ok")
}

// Several tracks, and user data, are read back in order.
//vh: prop=P32 quick:codec=0..13 quick:k=2..3 thorough:codec=0..13 thorough:k=2..5 thorough:step=1..13 quick:step=1,4 merge=conc reach=ok
func VH_InitTracks() {
	first, k, step := vnd.Case("codec"), vnd.Case("k"), vnd.Case("step")
	in := &fmp4.Init{}
	for i := 0; i < k; i++ {
		nm := "c" + string(rune('0'+i))
		tr := &fmp4.InitTrack{
			ID:        int(vnd.U32("id", i)),
			TimeScale: vnd.U32("ts", i),
			AvgBitrate: vnd.U32("avg", i),
			MaxBitrate: vnd.U32("max", i),
			Codec:     mkCodec((first+i*step)%codecCount, nm, 2),
		}
		vnd.Assume(tr.TimeScale != 0)
		vnd.Assume(fits(tr.Codec))
		in.Tracks = append(in.Tracks, tr)
	}
	colr := &amp4.Colr{
		ColourType:              [4]byte{'n', 'c', 'l', 'x'},
		ColourPrimaries:         vnd.U16("prim"),
		TransferCharacteristics: vnd.U16("tran"),
		MatrixCoefficients:      vnd.U16("matr"),
		FullRangeFlag:           vnd.Bool("full"),
	}
	sidx := &amp4.Sidx{
		ReferenceID:                vnd.U32("ref"),
		Timescale:                  vnd.U32("sts"),
		EarliestPresentationTimeV0: vnd.U32("ept"),
		FirstOffsetV0:              vnd.U32("fof"),
		ReferenceCount:             1,
		References: []amp4.SidxReference{{
			ReferencedSize:     vnd.U32("rs") & 0x7fffffff,
			SubsegmentDuration: vnd.U32("sd"),
			StartsWithSAP:      vnd.Bool("sap"),
		}},
	}
	in.UserData = []amp4.IBox{colr, sidx}

	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	vnd.Assert(err == nil, "a valid segment can be encoded")
	var out fmp4.Init
	err = out.Unmarshal(bytes.NewReader(buf.Bytes()))
	vnd.Assert(err == nil, "an encoded segment can be decoded")
	sameInit(in, &out)
	vnd.Assert(len(out.UserData) == 2, "user data count")
	c, ok := out.UserData[0].(*amp4.Colr)
	vnd.Assert(ok, "user data type")
	vnd.Assert(vnd.And(vnd.And(c.ColourPrimaries == colr.ColourPrimaries, c.TransferCharacteristics == colr.TransferCharacteristics),
		vnd.And(c.MatrixCoefficients == colr.MatrixCoefficients, c.FullRangeFlag == colr.FullRangeFlag)), "user data content")
	x, ok := out.UserData[1].(*amp4.Sidx)
	vnd.Assert(ok, "user data type")
	vnd.Assert(vnd.And(vnd.And(x.ReferenceID == sidx.ReferenceID, x.Timescale == sidx.Timescale),
		vnd.And(x.EarliestPresentationTimeV0 == sidx.EarliestPresentationTimeV0, x.FirstOffsetV0 == sidx.FirstOffsetV0)), "user data content")
	vnd.Assert(len(x.References) == 1 && x.References[0] == sidx.References[0], "user data content")

	// structure
	b := buf.Bytes()
	root := boxes(b, 0, len(b))
	vnd.Assert(len(root) == 2 && isBox(b, root[0], "ftyp") && isBox(b, root[1], "moov"), "root boxes")
	mv := boxes(b, root[1].off+8, root[1].off+root[1].size)
	vnd.Assert(len(mv) == k+3 && isBox(b, mv[0], "mvhd") && isBox(b, mv[k+1], "mvex") && isBox(b, mv[k+2], "udta"), "content of moov")
	tx := boxes(b, mv[k+1].off+8, mv[k+1].off+mv[k+1].size)
	vnd.Assert(len(tx) == k, "a trex per track")
	for i, tr := range in.Tracks {
		vnd.Assert(isBox(b, mv[1+i], "trak") && isBox(b, tx[i], "trex"), "trak and trex")
		vnd.Assert(be32(b, tx[i].off+12) == uint32(tr.ID), "track id in trex")
		tk := boxes(b, mv[1+i].off+8, mv[1+i].off+mv[1+i].size)
		vnd.Assert(len(tk) == 2 && isBox(b, tk[0], "tkhd") && isBox(b, tk[1], "mdia"), "content of trak")
		vnd.Assert(be32(b, tk[0].off+20) == uint32(tr.ID), "track id in tkhd")
		md := boxes(b, tk[1].off+8, tk[1].off+tk[1].size)
		vnd.Assert(len(md) == 3 && isBox(b, md[0], "mdhd") && isBox(b, md[1], "hdlr") && isBox(b, md[2], "minf"), "content of mdia")
		vnd.Assert(be32(b, md[0].off+20) == tr.TimeScale, "time scale in mdhd")
		typ := "soun"
		if tr.Codec.IsVideo() {
			typ = "vide"
		}
		vnd.Assert(string(b[md[1].off+16:md[1].off+20]) == typ, "handler type")
		mi := boxes(b, md[2].off+8, md[2].off+md[2].size)
		vnd.Assert(len(mi) == 3 && isBox(b, mi[2], "stbl"), "content of minf")
		st := boxes(b, mi[2].off+8, mi[2].off+mi[2].size)
		vnd.Assert(len(st) == 5 && isBox(b, st[0], "stsd") && isBox(b, st[1], "stts") && isBox(b, st[2], "stsc") &&
			isBox(b, st[3], "stsz") && isBox(b, st[4], "stco"), "content of stbl")
		en := boxes(b, st[0].off+16, st[0].off+st[0].size)
		vnd.Assert(be32(b, st[0].off+12) == 1 && len(en) == 1, "a single sample entry")
		t1, t2 := sortOfEntry(tr.Codec)
		vnd.Assert(isBox(b, en[0], t1), "type of the sample entry")
		skip := 36
		if tr.Codec.IsVideo() {
			skip = 86
		}
		cf := boxes(b, en[0].off+skip, en[0].off+en[0].size)
		vnd.Assert(len(cf) == 2 && isBox(b, cf[0], t2) && isBox(b, cf[1], "btrt"), "content of the sample entry")
		max, avg := tr.MaxBitrate, tr.AvgBitrate
		def := uint32(128825)
		if tr.Codec.IsVideo() {
			def = 1000000
		}
		vnd.Assert(be32(b, cf[1].off+12) == uint32(vnd.Ite(max == 0, uint64(def), uint64(max))), "maximum bitrate")
		vnd.Assert(be32(b, cf[1].off+16) == uint32(vnd.Ite(avg == 0, uint64(def), uint64(avg))), "average bitrate")
	}
	vnd.Reach("ok")
}

func sortOfEntry(c codecs.Codec) (string, string) {
	switch c.(type) {
	case *codecs.AV1:
		return "av01", "av1C"
	case *codecs.VP9:
		return "vp09", "vpcC"
	case *codecs.H265:
		return "hvc1", "hvcC"
	case *codecs.H264:
		return "avc1", "avcC"
	case *codecs.MPEG4Video, *codecs.MPEG1Video, *codecs.MJPEG:
		return "mp4v", "esds"
	case *codecs.Opus:
		return "Opus", "dOps"
	case *codecs.FLAC:
		return "fLaC", "dfLa"
	case *codecs.MPEG4Audio, *codecs.MPEG1Audio:
		return "mp4a", "esds"
	case *codecs.AC3:
		return "ac-3", "dac3"
	case *codecs.EAC3:
		return "ec-3", "dec3"
	}
	return "ipcm", "pcmC"
}

// findBox returns the path of positions of a box, given the path of types.
func findBox(b []byte, types ...string) []boxPos {
	start, end := 0, len(b)
	var out []boxPos
	for _, t := range types {
		found := false
		for _, p := range boxes(b, start, end) {
			if isBox(b, p, t) {
				out = append(out, p)
				start, end = p.off+8, p.off+p.size
				switch t {
				case "stsd":
					start += 8
				case "av01", "vp09", "hvc1", "avc1", "mp4v":
					start += 78
				case "Opus", "fLaC", "mp4a", "ac-3", "ec-3", "ipcm":
					start += 28
				}
				found = true
				break
			}
		}
		vnd.Assert(found, "box is present")
	}
	return out
}

// removeBox removes the last box of a path.
func removeBox(b []byte, path []boxPos) []byte {
	last := path[len(path)-1]
	w := &bwr{}
	w.b = append(w.b, b[:last.off]...)
	w.b = append(w.b, b[last.off+last.size:]...)
	for _, p := range path[:len(path)-1] {
		w.patch(p.off, uint32(p.size-last.size))
	}
	return w.b
}

// duplicateBox writes the last box of a path twice.
func duplicateBox(b []byte, path []boxPos) []byte {
	last := path[len(path)-1]
	w := &bwr{}
	w.b = append(w.b, b[:last.off+last.size]...)
	w.b = append(w.b, b[last.off:]...)
	for _, p := range path[:len(path)-1] {
		w.patch(p.off, uint32(p.size+last.size))
	}
	return w.b
}

func requiredBoxes(c codecs.Codec) [][]string {
	t1, t2 := sortOfEntry(c)
	return [][]string{
		{"ftyp"}, {"moov"}, {"moov", "mvhd"}, {"moov", "trak"},
		{"moov", "trak", "tkhd"}, {"moov", "trak", "mdia"}, {"moov", "trak", "mdia", "mdhd"},
		{"moov", "trak", "mdia", "minf"}, {"moov", "trak", "mdia", "minf", "stbl"},
		{"moov", "trak", "mdia", "minf", "stbl", "stsd"},
		{"moov", "trak", "mdia", "minf", "stbl", "stsd", t1},
		{"moov", "trak", "mdia", "minf", "stbl", "stsd", t1, t2},
	}
}

func oneTrack(codec int) []byte {
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{
		ID:        int(vnd.U32("id")),
		TimeScale: vnd.U32("ts"),
		Codec:     mkCodec(codec, "c", 2),
	}}}
	vnd.Assume(in.Tracks[0].TimeScale != 0)
	vnd.Assume(fits(in.Tracks[0].Codec))
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	vnd.Assert(err == nil, "a valid segment can be encoded")
	return buf.Bytes()
}

// Segments that lack a required box, or hold it twice, and segments without
// tracks or with a zero time scale, are rejected.
//vh: prop=P32 case:codec=0..13 case:req=0..11 case:dup=0..1 merge=conc reach=ok
func VH_InitMissing() {
	codec := vnd.Case("codec")
	b := oneTrack(codec)
	path := findBox(b, requiredBoxes(mkCodec(codec, "c", 2))[vnd.Case("req")]...)
	if vnd.Case("dup") == 1 {
		if len(path) == 2 && isBox(b, path[1], "trak") || len(path) >= 4 && len(path) <= 5 {
			vnd.Reach("ok") // a second track, or a container of already seen boxes
			return
		}
		b = duplicateBox(b, path)
	} else {
		b = removeBox(b, path)
	}
	var out fmp4.Init
	err := out.Unmarshal(bytes.NewReader(b))
	vnd.Assert(err != nil, "an incomplete or inconsistent segment is rejected")
	vnd.Reach("ok")
}

// Segments that end before the end of the last sample entry are rejected, and
// a zero time scale is rejected.
//vh: prop=P32,P05 case:codec=0..13 case:part=0..3 merge=conc unwind=2000 steps=20000000 reach=ok
func VH_InitTruncated() {
	b := oneTrack(vnd.Case("codec"))
	path := findBox(b, "moov", "trak", "mdia", "minf", "stbl", "stsd")
	end := path[5].off + path[5].size
	for n := vnd.Case("part"); n < end; n += 4 {
		var out fmp4.Init
		err := out.Unmarshal(bytes.NewReader(b[:n:n]))
		vnd.Assert(err != nil, "a truncated segment is rejected")
	}
	path = findBox(b, "moov", "trak", "mdia", "mdhd")
	w := &bwr{b: append([]byte(nil), b...)}
	w.patch(path[3].off+20, 0)
	var out fmp4.Init
	err := out.Unmarshal(bytes.NewReader(w.b))
	vnd.Assert(err != nil, "a zero time scale is rejected")
	vnd.Reach("ok")
}
