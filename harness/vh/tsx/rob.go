package tsx

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

// stream returns a valid stream with a track of each kind.
func stream(kinds ...int) []byte {
	m := newMx(kinds...)
	for _, t := range m.tracks {
		if c, ok := t.Codec.(*codecs.DVBSubtitle); ok {
			c.Items[0].AncillaryPageID, c.Items[0].CompositionPageID, c.Items[0].Type = 1, 2, 3
			c.Items[0].Language = []byte("eng")
		}
	}
	m.conc = true
	m.tracks[0].Language = "eng"
	m.init()
	var err error
	for ti, k := range kinds {
		t := m.tracks[ti]
		p := []byte{0x65, 2, 3, 4, 5, 6, 7, 8}
		switch k {
		case cH264:
			err = m.w.WriteH264(t, 90000, 45000, [][]byte{p, p})
		case cH265:
			err = m.w.WriteH265(t, 90000, 45000, [][]byte{{0x26, 1, 2, 3}, p})
		case cMPEG4Video:
			err = m.w.WriteMPEG4Video(t, 90000, []byte{0, 0, 1, 0xb3, 5})
		case cMPEG1Video:
			err = m.w.WriteMPEG1Video(t, 90000, []byte{0, 0, 1, 0xb8, 5})
		case cOpus:
			err = m.w.WriteOpus(t, 90000, [][]byte{p, {3}})
		case cMPEG4Audio:
			err = m.w.WriteMPEG4Audio(t, 90000, [][]byte{p, {3}})
		case cLATM:
			err = m.w.WriteMPEG4AudioLATM(t, 90000, [][]byte{p, {3}})
		case cMPEG1Audio:
			f := make([]byte, 96)
			copy(f, []byte{0xff, 0xfb, 0x14, 0})
			err = m.w.WriteMPEG1Audio(t, 90000, [][]byte{f, f})
		case cAC3:
			f := make([]byte, 128)
			copy(f, []byte{0x0b, 0x77, 0, 0, 0, 8 << 3, 0x40, 0})
			err = m.w.WriteAC3(t, 90000, f)
		case cEAC3:
			err = m.w.WriteEAC3(t, 90000, []byte{0x0b, 0x77, 0, 4, 0x3f, 16 << 3, 0, 0, 0, 0})
		case cKLVSync, cKLVAsync:
			err = m.w.WriteKLV(t, 90000, p)
		case cDVB:
			err = m.w.WriteDVBSubtitle(t, 90000, p)
		}
		vnd.Assert(err == nil, "a unit cannot be written")
	}
	return m.buf.Bytes()
}

// consume reads a stream until it ends.
func consume(ts []byte) bool {
	r := &mpegts.Reader{R: bytes.NewReader(ts)}
	err := r.Initialize()
	if err != nil {
		return false
	}
	r.OnDecodeError(func(error) {})
	for _, t := range r.Tracks() {
		switch t.Codec.(type) {
		case *codecs.H264:
			r.OnDataH264(t, func(int64, int64, [][]byte) error { return nil })
		case *codecs.H265:
			r.OnDataH265(t, func(int64, int64, [][]byte) error { return nil })
		case *codecs.MPEG4Video, *codecs.MPEG1Video:
			r.OnDataMPEGxVideo(t, func(int64, []byte) error { return nil })
		case *codecs.Opus:
			r.OnDataOpus(t, func(int64, [][]byte) error { return nil })
		case *codecs.MPEG4Audio:
			r.OnDataMPEG4Audio(t, func(int64, [][]byte) error { return nil })
		case *codecs.MPEG4AudioLATM:
			r.OnDataMPEG4AudioLATM(t, func(int64, [][]byte) error { return nil })
		case *codecs.MPEG1Audio:
			r.OnDataMPEG1Audio(t, func(int64, [][]byte) error { return nil })
		case *codecs.AC3:
			r.OnDataAC3(t, func(int64, []byte) error { return nil })
		case *codecs.EAC3:
			r.OnDataEAC3(t, func(int64, []byte) error { return nil })
		case *codecs.KLV:
			r.OnDataKLV(t, func(int64, []byte) error { return nil })
		case *codecs.DVBSubtitle:
			r.OnDataDVBSubtitle(t, func(int64, []byte) error { return nil })
		}
	}
	for {
		err = r.Read()
		if err != nil {
			return true
		}
	}
}

// VH_TSTables: streams whose tables have arbitrary bytes at any position and a matching checksum.
//
//vh: prop=P05 quick:c=4,10,11,12 thorough:c=0..12 quick:p=0..3,6,8..14,17..19,22,24..47,49,50,52..63 thorough:p=0..3,6..63 quick:w=1 thorough:w=1..2 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_TSTables() {
	c, p, w := vnd.Case("c"), vnd.Case("p"), vnd.Case("w")
	ts := stream(c)
	t := 188
	if p >= 44 {
		t, p = 0, p-44
	}
	// pointer, then table id and length
	n := 4 + 1 + 3 + int(ts[t+6]&0xf)<<8 + int(ts[t+7])
	for i := 0; i < w; i++ {
		if p+i < n-4 {
			ts[t+p+i] = vnd.Byte("m", i)
		}
	}
	if p >= 4 {
		copy(ts[t+n-4:], vnd.Bytes("crc", 4))
	}
	consume(ts)
	vnd.Reach("ok")
}

// VH_TSUnits: streams with arbitrary bytes at any position of the packets which contain units.
//
//vh: prop=P05 case:c=0..12 quick:p=0..3,6..40 thorough:p=0..187 quick:w=1 thorough:w=1..2 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_TSUnits() {
	c, p, w := vnd.Case("c"), vnd.Case("p"), vnd.Case("w")
	ts := stream(c)
	for i := 2 * 188; i < len(ts); i += 188 {
		// skip stuffing
		q := p
		if ts[i+3]&0x20 != 0 && p > 6 {
			q = p - 6 + 4 + int(ts[i+4])
		}
		for k := 0; k < w && q+k < 188; k++ {
			ts[i+q+k] = vnd.Byte("m", i, k)
		}
	}
	consume(ts)
	vnd.Reach("ok")
}
