package mp4x

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// window replaces k bytes at position pos with arbitrary ones.
func window(b []byte, pos, k int) []byte {
	out := append([]byte(nil), b...)
	for i := 0; i < k && pos+i < len(out); i++ {
		out[pos+i] = vnd.Byte("w", i)
	}
	return out
}

func templatePart() []byte {
	p := fmp4.Parts{{
		SequenceNumber: 3,
		Tracks: []*fmp4.PartTrack{{
			ID:       1,
			BaseTime: 90000,
			Samples:  []*fmp4.Sample{{Duration: 3000, Payload: []byte{1, 2}}, {Duration: 3000, PTSOffset: 4, IsNonSyncSample: true, Payload: []byte{3}}},
		}},
	}}
	var buf seekablebuffer.Buffer
	err := p.Marshal(&buf)
	vnd.Assert(err == nil, "a part can be written")
	return buf.Bytes()
}

// anySize returns one of the sizes that are the most likely to be mishandled.
func anySize(size int) uint32 {
	t := [...]int{0, 1, 4, 7, 8, 9, 12, 16, 20, size - 4, size - 1, size + 1, size + 4, size + 8, 255, 1 << 30}
	return uint32(t[vnd.Concrete(vnd.Int("size", 0, len(t)-1))])
}

func checkParts(b []byte) {
	vnd.AllocLimit(1 << 20)
	var out fmp4.Parts
	if out.Unmarshal(b) == nil {
		for _, p := range out {
			for _, tr := range p.Tracks {
				for _, s := range tr.Samples {
					vnd.Assert(s != nil && len(s.Payload) <= len(b), "samples are filled")
				}
			}
		}
		vnd.Reach("ok")
	}
}

// Arbitrary content of any box of a part does not cause panics, endless loops
// or large allocations.
//vh: prop=P05,P34 quick:box=0..3 quick:extra=0,4 thorough:box=0..3 thorough:extra=0..12 merge=conc reach=ok
func VH_PartsContent() {
	types := [...][]string{{"moof", "mfhd"}, {"moof", "traf", "tfhd"}, {"moof", "traf", "tfdt"}, {"moof", "traf", "trun"}}
	b := templatePart()
	path := findBox(b, types[vnd.Case("box")]...)
	p := path[len(path)-1]
	// the payload, and some more bytes of it, are arbitrary
	extra := vnd.Case("extra")
	w := &bwr{}
	w.b = append(w.b, b[:p.off+8]...)
	pl := symBytes("payload", p.size-8+extra)
	if vnd.Case("box") == 3 {
		// counts between 7 and the maximum are not covered
		n := be32(pl, 4)
		vnd.Assume(vnd.Or(n <= 6, n > 120*160))
	}
	w.b = append(w.b, pl...)
	w.b = append(w.b, b[p.off+p.size:]...)
	for _, q := range path {
		w.patch(q.off, uint32(q.size+extra))
	}
	checkParts(w.b)
}

// Boxes of any size and type in any place do not either.
//vh: prop=P05,P34 case:box=0..6 case:typ=0..9 merge=conc
func VH_PartsHeader() {
	types := [...][]string{{"moof"}, {"moof", "mfhd"}, {"moof", "traf"}, {"moof", "traf", "tfhd"}, {"moof", "traf", "tfdt"}, {"moof", "traf", "trun"}, {"mdat"}}
	names := [...]string{"moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mdat", "zzzz", "udta", "\xa9too"}
	b := templatePart()
	path := findBox(b, types[vnd.Case("box")]...)
	p := path[len(path)-1]
	typ := names[vnd.Case("typ")]
	w := &bwr{b: append([]byte(nil), b...)}
	copy(w.b[p.off+4:], typ)
	if !isBox(b, p, typ) {
		checkParts(w.b)
	}
	w.patch(p.off, anySize(p.size))
	checkParts(w.b)
}

// codecBoxes are the boxes that hold the parameters of a track.
func codecBoxes(c codecs.Codec) [][]string {
	t1, t2 := sortOfEntry(c)
	return [][]string{
		{"moov", "trak", "mdia", "minf", "stbl", "stsd", t1, t2},
		{"moov", "trak", "mdia", "minf", "stbl", "stsd", t1},
		{"moov", "trak", "mdia", "minf", "stbl", "stsd"},
		{"moov", "trak", "mdia", "mdhd"},
		{"moov", "trak", "tkhd"},
		{"moov", "mvhd"},
	}
}

func plainCodec(k int) codecs.Codec {
	switch k {
	case 0:
		return &codecs.AV1{SequenceHeader: av1Seq}
	case 1:
		return &codecs.VP9{Width: 1920, Height: 1080, Profile: 1, BitDepth: 8, ChromaSubsampling: 1}
	case 2:
		return &codecs.H265{VPS: []byte{1, 2, 3, 4}, SPS: h265SPS, PPS: []byte{8, 9}}
	case 3:
		return &codecs.H264{SPS: h264SPS, PPS: []byte{8, 9}}
	case 4:
		return &codecs.MPEG4Video{Config: []byte{1, 2, 3}}
	case 5:
		return &codecs.MPEG1Video{Config: []byte{1, 2, 3}}
	case 6:
		return &codecs.MJPEG{Width: 640, Height: 480}
	case 7:
		return &codecs.Opus{ChannelCount: 2}
	case 8:
		return &codecs.FLAC{StreamInfo: &flac.StreamInfo{SampleRate: 48000, ChannelCount: 2, BitDepth: 16, MinBlockSize: 4096, MaxBlockSize: 4096}}
	case 9:
		return &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{Type: mpeg4audio.ObjectTypeAACLC, SampleRate: 48000, ChannelConfig: 2}}
	case 10:
		return &codecs.MPEG1Audio{SampleRate: 48000, ChannelCount: 2}
	case 11:
		return &codecs.AC3{SampleRate: 48000, ChannelCount: 6, Bsid: 8, Acmod: 7, LfeOn: true, BitRateCode: 7}
	case 12:
		return &codecs.EAC3{SampleRate: 48000, ChannelCount: 6, DataRate: 448, Acmod: 7, LfeOn: true}
	}
	return &codecs.LPCM{BitDepth: 16, SampleRate: 48000, ChannelCount: 2}
}

func plainInit(k int) []byte {
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 90000, Codec: plainCodec(k)}}}
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	vnd.Assert(err == nil, "a valid segment can be encoded")
	return buf.Bytes()
}

func checkInit(b []byte) {
	vnd.AllocLimit(1 << 20)
	var out fmp4.Init
	if out.Unmarshal(bytes.NewReader(b)) != nil {
		return
	}
	vnd.Reach("ok")
	vnd.Assert(len(out.Tracks) != 0, "decoded segments have tracks")
	for _, tr := range out.Tracks {
		vnd.Assert(tr.Codec != nil && tr.TimeScale != 0, "decoded tracks are complete")
	}
	// what has been decoded can be used and written again
	var buf seekablebuffer.Buffer
	if out.Marshal(&buf) == nil {
		var again fmp4.Init
		err := again.Unmarshal(bytes.NewReader(buf.Bytes()))
		vnd.Assert(err == nil, "a decoded segment that is written can be decoded")
		sameInit(&out, &again)
		vnd.Reach("again")
	}
}

// Arbitrary content of any part of the boxes that describe a codec does not
// cause panics, endless loops or large allocations, and what is decoded can be
// written and decoded again. Boxes with a variable layout are in forms.go.
//vh: prop=P05,P34,P32 quick:codec=1,7,8,11,12,13 quick:size=4 quick:w=0..20 thorough:codec=0..13 thorough:size=8 thorough:w=0..10 merge=conc secs=8 reach=ok,again
func VH_InitContent() {
	initContent(vnd.Case("codec"), 0)
}

// The same holds for sample entries.
//vh: prop=P05,P34,P32 case:codec=0..13 quick:size=8 quick:w=0..9 thorough:size=8,16 thorough:w=0..9 merge=conc secs=8 reach=ok,again
func VH_InitEntryContent() {
	initContent(vnd.Case("codec"), 1)
}

// The same holds for the boxes that do not depend on the codec.
//vh: prop=P05,P34,P32 case:box=2..5 quick:size=8 quick:w=0..13 thorough:size=8,16 thorough:w=0..13 merge=conc secs=8 reach=ok,again
func VH_InitTrackContent() {
	initContent(9, vnd.Case("box"))
}

func initContent(k, box int) {
	b := plainInit(k)
	path := findBox(b, codecBoxes(plainCodec(k))[box]...)
	p := path[len(path)-1]
	hd := p.size - 8
	switch box {
	case 1: // the entry itself, without the boxes it holds
		hd = 78
		if k >= 7 {
			hd = 28
		}
	case 2: // without the size and type of the entry
		hd = 8
	}
	pos := vnd.Case("w") * vnd.Case("size")
	if pos >= hd {
		return
	}
	n := vnd.Case("size")
	if pos+n > hd {
		n = hd - pos
	}
	checkInit(window(b, p.off+8+pos, n))
}

// Boxes of any size and type in any place do not either.
//vh: prop=P05,P34 quick:codec=0,2,7,9 quick:box=0..5 quick:typ=0,1,3,6 thorough:codec=0..13 thorough:box=0..5 thorough:typ=0..6 merge=conc
func VH_InitHeader() {
	k := vnd.Case("codec")
	b := plainInit(k)
	bx := codecBoxes(plainCodec(k))[vnd.Case("box")]
	path := findBox(b, bx...)
	p := path[len(path)-1]
	names := [...]string{bx[len(bx)-1], "stsd", "hvcC", "esds", "trak", "btrt", "mp4a"}
	typ := names[vnd.Case("typ")]
	w := &bwr{b: append([]byte(nil), b...)}
	copy(w.b[p.off+4:], typ)
	checkInit(w.b)
	w.patch(p.off, anySize(p.size))
	checkInit(w.b)
}

// The same holds for progressive presentations: boxes of any size and type in any place.
//vh: prop=P05,P34 case:box=0..16 quick:typ=0,1,4 thorough:typ=0..10 case:n=2 merge=conc
func VH_PresHeader() {
	var ss []presSample
	for i := 0; i < vnd.Case("n"); i++ {
		ss = append(ss, presSample{dur: 10, off: int32(i), non: i != 0, pl: []byte{1, 2}})
	}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(1, 1000, 20, plainCodec(7), ss)}}
	var wo sink
	err := in.Marshal(&wo)
	vnd.Assert(err == nil, "a presentation can be written")
	stbl := []string{"moov", "trak", "mdia", "minf", "stbl"}
	all := [...][]string{
		{"ftyp"}, {"moov"}, {"moov", "mvhd"}, {"moov", "trak"}, {"moov", "trak", "tkhd"}, {"moov", "trak", "edts"},
		{"moov", "trak", "edts", "elst"}, {"moov", "trak", "mdia"}, {"moov", "trak", "mdia", "mdhd"}, {"moov", "trak", "mdia", "minf"},
		stbl, append(stbl[:5:5], "stts"), append(stbl[:5:5], "stss"), append(stbl[:5:5], "ctts"), append(stbl[:5:5], "stsc"),
		append(stbl[:5:5], "stsz"), append(stbl[:5:5], "stco"),
	}
	bx := all[vnd.Case("box")]
	names := [...]string{bx[len(bx)-1], "trak", "stsz", "zzzz", "stco", "stsc", "stts", "ctts", "stss", "stsd", "mdat"}
	path := findBox(wo.b, bx...)
	p := path[len(path)-1]
	w := &bwr{b: append([]byte(nil), wo.b...)}
	copy(w.b[p.off+4:], names[vnd.Case("typ")])
	presRead(w.b)
	w.patch(p.off, anySize(p.size))
	presRead(w.b)
}

// Boxes of a presentation that do not hold tables, with any content.
//vh: prop=P05,P34 case:box=0..4 quick:size=8 quick:w=0..11 thorough:size=16 thorough:w=0..6 merge=conc secs=30
func VH_PresContent() {
	ss := []presSample{{dur: 10, off: 1, pl: []byte{1, 2}}, {dur: 20, off: 2, non: true, pl: []byte{3}}}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(1, 1000, 20, plainCodec(7), ss)}}
	var wo sink
	err := in.Marshal(&wo)
	vnd.Assert(err == nil, "a presentation can be written")
	all := [...][]string{{"moov", "mvhd"}, {"moov", "trak", "tkhd"}, {"moov", "trak", "edts", "elst"}, {"moov", "trak", "mdia", "mdhd"}, {"ftyp"}}
	path := findBox(wo.b, all[vnd.Case("box")]...)
	p := path[len(path)-1]
	pos, n := vnd.Case("w")*vnd.Case("size"), vnd.Case("size")
	if pos >= p.size-8 {
		return
	}
	if pos+n > p.size-8 {
		n = p.size - 8 - pos
	}
	presRead(window(wo.b, p.off+8+pos, n))
}
