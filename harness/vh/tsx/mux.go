package tsx

import (
	"bytes"
	"io"

	"github.com/asticode/go-astits"

	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

const (
	cH264 = iota
	cH265
	cMPEG4Video
	cMPEG1Video
	cOpus
	cMPEG4Audio
	cLATM
	cMPEG1Audio
	cAC3
	cEAC3
	cKLVSync
	cKLVAsync
	cDVB
)

type sent struct {
	pts, dts int64
	data     [][]byte
}

// mx is a muxing session: what is written to each track is what must be read back.
type mx struct {
	buf    bytes.Buffer
	w      *mpegts.Writer
	tracks []*mpegts.Track
	kinds  []int
	sent   [][]sent
	got    []int
	last   int64 // timestamp of the last unit that has one
	conc   bool  // concrete unit types, to avoid one path for each combination
	lost   map[[2]int]bool // units that can be missing
	fail   map[[2]int]error // errors returned by callbacks
}

// body returns a unit with symbolic bytes that contains no start code.
func body(size int, name string, idx ...int) []byte {
	b := vnd.Fill(0x5a, size)
	for i := 0; i < 2 && i < size; i++ {
		b[i] = vnd.Byte(name, append(append([]int(nil), idx...), i)...)
	}
	if size > 2 {
		b[size-1] = vnd.Byte(name, append(append([]int(nil), idx...), 2)...)
		vnd.Assume(b[size-1] != 0)
		vnd.Assume(vnd.Or(b[0] != 0, b[1] != 0))
	} else if size == 1 {
		vnd.Assume(b[0] != 0)
	} else if size == 2 {
		vnd.Assume(b[1] != 0)
	}
	return b
}

func newTrack(c int) *mpegts.Track {
	t := &mpegts.Track{}
	switch c {
	case cH264:
		t.Codec = &codecs.H264{}
	case cH265:
		t.Codec = &codecs.H265{}
	case cMPEG4Video:
		t.Codec = &codecs.MPEG4Video{}
	case cMPEG1Video:
		t.Codec = &codecs.MPEG1Video{}
	case cOpus:
		t.Codec = &codecs.Opus{ChannelCount: 2}
	case cMPEG4Audio:
		t.Codec = &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{
			Type: mpeg4audio.ObjectTypeAACLC, SampleRate: 44100, ChannelConfig: 6, ChannelCount: 6,
		}}
	case cLATM:
		t.Codec = &codecs.MPEG4AudioLATM{}
	case cMPEG1Audio:
		t.Codec = &codecs.MPEG1Audio{}
	case cAC3:
		t.Codec = &codecs.AC3{SampleRate: 32000, ChannelCount: 3}
	case cEAC3:
		t.Codec = &codecs.EAC3{SampleRate: 24000, ChannelCount: 6}
	case cKLVSync:
		t.Codec = &codecs.KLV{Synchronous: true}
	case cKLVAsync:
		t.Codec = &codecs.KLV{}
	case cDVB:
		t.Codec = &codecs.DVBSubtitle{Items: []*astits.DescriptorSubtitlingItem{
			{
				AncillaryPageID: vnd.U16("anc"), CompositionPageID: vnd.U16("comp"), Type: vnd.Byte("type"),
				Language: vnd.Bytes("sublang", 3),
			},
		}}
	}
	return t
}

func isVideo(c int) bool { return c <= cMPEG1Video }

func newMx(kinds ...int) *mx {
	m := &mx{kinds: kinds}
	for _, c := range kinds {
		m.tracks = append(m.tracks, newTrack(c))
	}
	m.sent = make([][]sent, len(kinds))
	m.got = make([]int, len(kinds))
	return m
}

func (m *mx) init() {
	m.w = &mpegts.Writer{W: &m.buf, Tracks: m.tracks}
	err := m.w.Initialize()
	vnd.Assert(err == nil, "the writer cannot be initialized")
}

// write writes a unit made of parts of the given sizes.
func (m *mx) write(ti int, id int, pts, dts int64, sizes ...int) {
	t := m.tracks[ti]
	var parts [][]byte
	for i, s := range sizes {
		p := body(s, "body", ti, id, i)
		if m.conc && isVideo(m.kinds[ti]) {
			p = vnd.Fill(0x5a, s)
			p[0] = []byte{0x65, 0x21, 0x01, 0x28}[(id+i)%4]
			p[s-1] = vnd.Byte("body", ti, id, i, 0) | 1
			p[s/2] = vnd.Byte("body", ti, id, i, 1) | 2
		}
		parts = append(parts, p)
	}
	var err error
	parts = bw.Room(parts)
	exp := parts
	bw.In(parts)
	if !isVideo(m.kinds[ti]) {
		dts = pts
	}
	switch m.kinds[ti] {
	case cH264:
		vnd.Assume(parts[0][0] != 9)
		in := parts
		if id&1 == 1 {
			in = append([][]byte{{9, 0x50}}, parts...)
		}
		in = bw.Room(in)
		bw.In(in)
		err = m.w.WriteH264(t, pts, dts, in)
	case cH265:
		vnd.Assume(parts[0][0] != 35<<1)
		in := parts
		if id&1 == 1 {
			in = append([][]byte{{35 << 1, 1, 0x50}}, parts...)
		}
		in = bw.Room(in)
		bw.In(in)
		err = m.w.WriteH265(t, pts, dts, in)
	case cMPEG4Video, cMPEG1Video:
		dts = pts
		frame := []byte{0, 0, 1, vnd.Byte("code", ti, id)}
		if m.conc {
			frame[3] = []byte{0xb3, 0xb6, 0xb8}[id%3]
		}
		for _, p := range parts {
			frame = append(frame, p...)
		}
		exp = [][]byte{frame}
		frame = bw.Spare(frame)
		bw.In(frame)
		if m.kinds[ti] == cMPEG4Video {
			err = m.w.WriteMPEG4Video(t, pts, frame)
		} else {
			err = m.w.WriteMPEG1Video(t, pts, frame)
		}
	case cOpus:
		err = m.w.WriteOpus(t, pts, parts)
	case cMPEG4Audio:
		err = m.w.WriteMPEG4Audio(t, pts, parts)
	case cLATM:
		err = m.w.WriteMPEG4AudioLATM(t, pts, parts)
	case cMPEG1Audio:
		exp = nil
		for i := range parts {
			// MPEG-1 layer 3, 32 kbit/s, 48 khz
			frame := make([]byte, 96)
			copy(frame, []byte{0xff, 0xfb, 0x14, 0})
			frame[3] = vnd.Byte("mode", ti, id, i)
			copy(frame[4:], parts[i][:min(len(parts[i]), 92)])
			exp = append(exp, frame)
		}
		exp = bw.Room(exp)
		bw.In(exp)
		err = m.w.WriteMPEG1Audio(t, pts, exp)
	case cAC3:
		// 32 khz, 32 kbit/s, 2/1
		frame := make([]byte, 192)
		copy(frame, []byte{0x0b, 0x77, vnd.Byte("crc", ti, id), vnd.Byte("crc2", ti, id), 0x80, 8 << 3, 4<<5 | 0<<2})
		copy(frame[10:], parts[0][:min(len(parts[0]), 180)])
		exp = [][]byte{frame}
		frame = bw.Spare(frame)
		bw.In(frame)
		err = m.w.WriteAC3(t, pts, frame)
	case cEAC3:
		frame := []byte{0x0b, 0x77, vnd.Byte("crc", ti, id), vnd.Byte("crc2", ti, id), 0xcf, 0x80, 0, 0}
		frame[4] = 3<<6 | 0<<4 | 7<<1 | 1
		frame[5] = 16<<3 | 3
		for _, p := range parts {
			frame = append(frame, p...)
		}
		exp = [][]byte{frame}
		frame = bw.Spare(frame)
		bw.In(frame)
		err = m.w.WriteEAC3(t, pts, frame)
	case cKLVSync, cKLVAsync:
		exp = parts[:1]
		err = m.w.WriteKLV(t, pts, parts[0])
		if m.kinds[ti] == cKLVAsync {
			pts, dts = m.last, m.last
		}
	case cDVB:
		exp = parts[:1]
		err = m.w.WriteDVBSubtitle(t, pts, parts[0])
	}
	vnd.Assert(err == nil, "a unit cannot be written")
	if m.kinds[ti] != cKLVAsync {
		m.last = pts
	}
	m.sent[ti] = append(m.sent[ti], sent{pts, dts, exp})
}

func (m *mx) check(ti int, pts, dts int64, data [][]byte) error {
	bw.Out(data)
	i := m.got[ti]
	for m.lost[[2]int{ti, i}] && m.sent[ti][i].pts != pts {
		i++
	}
	m.got[ti] = i + 1
	vnd.Assert(i < len(m.sent[ti]), "a unit that was not written is read")
	s := m.sent[ti][i]
	vnd.Assert(pts == s.pts, "a unit is read with a different PTS")
	vnd.Assert(dts == s.dts, "a unit is read with a different DTS")
	vnd.Assert(len(data) == len(s.data), "a unit is read with a different number of parts")
	for j := range data {
		vnd.Assert(vnd.Eq(data[j], s.data[j]), "a unit is read with different contents")
	}
	return m.fail[[2]int{ti, i}]
}

// register sets the callbacks of all tracks.
func (m *mx) register(r *mpegts.Reader) {
	trs := r.Tracks()
	vnd.Assert(len(trs) == len(m.tracks), "the number of tracks is different")
	for ti, t := range trs {
		vnd.Assert(t.PID == m.tracks[ti].PID, "the PID of a track is different")
		vnd.Assert(t.Language == m.tracks[ti].Language, "the language of a track is different")
		vnd.Assert(t.Codec.IsVideo() == isVideo(m.kinds[ti]), "audio and video tracks are not distinguished")
		v := func(pts, dts int64, au [][]byte) error { return m.check(ti, pts, dts, au) }
		a := func(pts int64, au [][]byte) error { return m.check(ti, pts, pts, au) }
		s := func(pts int64, au []byte) error { return m.check(ti, pts, pts, [][]byte{au}) }
		var ok bool
		switch m.kinds[ti] {
		case cH264:
			_, ok = t.Codec.(*codecs.H264)
			r.OnDataH264(t, v)
		case cH265:
			_, ok = t.Codec.(*codecs.H265)
			r.OnDataH265(t, v)
		case cMPEG4Video:
			_, ok = t.Codec.(*codecs.MPEG4Video)
			r.OnDataMPEGxVideo(t, s)
		case cMPEG1Video:
			_, ok = t.Codec.(*codecs.MPEG1Video)
			r.OnDataMPEGxVideo(t, s)
		case cOpus:
			var o *codecs.Opus
			o, ok = t.Codec.(*codecs.Opus)
			ok = ok && o.Desc != nil && o.Desc.ChannelCount() == 2 && o.ChannelCount == 2
			r.OnDataOpus(t, a)
		case cMPEG4Audio:
			ok = vnd.DeepEqual(t.Codec, m.tracks[ti].Codec)
			r.OnDataMPEG4Audio(t, a)
		case cLATM:
			_, ok = t.Codec.(*codecs.MPEG4AudioLATM)
			r.OnDataMPEG4AudioLATM(t, a)
		case cMPEG1Audio:
			_, ok = t.Codec.(*codecs.MPEG1Audio)
			r.OnDataMPEG1Audio(t, a)
		case cAC3:
			ok = vnd.DeepEqual(t.Codec, m.tracks[ti].Codec)
			r.OnDataAC3(t, s)
		case cEAC3:
			ok = vnd.DeepEqual(t.Codec, m.tracks[ti].Codec)
			r.OnDataEAC3(t, s)
		case cKLVSync, cKLVAsync:
			ok = vnd.DeepEqual(t.Codec, m.tracks[ti].Codec)
			r.OnDataKLV(t, s)
		case cDVB:
			var d *codecs.DVBSubtitle
			d, ok = t.Codec.(*codecs.DVBSubtitle)
			ok = ok && len(d.Items) == 1
			if ok {
				o := m.tracks[ti].Codec.(*codecs.DVBSubtitle).Items[0]
				vnd.Assert(vnd.And(d.Items[0].AncillaryPageID == o.AncillaryPageID,
					vnd.And(d.Items[0].CompositionPageID == o.CompositionPageID,
						vnd.And(d.Items[0].Type == o.Type, vnd.Eq(d.Items[0].Language, o.Language)))), "a subtitling item is different")
			}
			r.OnDataDVBSubtitle(t, s)
		}
		vnd.Assert(ok, "the codec of a track is different")
	}
}

func (m *mx) read(src io.Reader) {
	r := &mpegts.Reader{R: src}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	m.register(r)
	r.OnDecodeError(func(error) { vnd.Assert(false, "a decode error is reported") })
	m.drain(r)
}

func (m *mx) drain(r *mpegts.Reader) {
	for {
		err := r.Read()
		if err == io.EOF {
			break
		}
		vnd.Assert(err == nil, "reading fails")
	}
	m.complete()
}

// complete checks that all units have been read.
func (m *mx) complete() {
	for ti := range m.tracks {
		i := m.got[ti]
		for m.lost[[2]int{ti, i}] {
			i++
		}
		vnd.Assert(i == len(m.sent[ti]), "a unit that was written is not read")
	}
}

// VH_MuxOne: one track of each codec, units of one or two parts.
//
//vh: prop=P30 case:c=0..10,12 quick:a=1,2,3,100,154..182,352..358,2000 quick:n=2 thorough:a=1..400,65500..65545 thorough:n=1..2 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_MuxOne() {
	c, a, n := vnd.Case("c"), vnd.Case("a"), vnd.Case("n")
	m := newMx(c)
	m.init()
	for i := 0; i < n; i++ {
		pts := int64(vnd.Bits("pts", 33, i))
		dts := int64(vnd.Bits("dts", 33, i))
		if i == 0 {
			m.write(0, i, pts, dts, a)
		} else {
			m.write(0, i, pts, dts, a+1, 5)
		}
	}
	vnd.Assert(m.buf.Len()%188 == 0, "the stream is not made of packets")
	m.read(&m.buf)
	vnd.Reach("ok")
}

var mixes = [][]int{
	{cH264, cMPEG4Audio},
	{cH265, cOpus, cKLVSync},
	{cAC3, cEAC3, cMPEG1Video, cDVB},
	{cMPEG1Audio, cLATM, cH264},
	{cMPEG4Video, cKLVSync, cH265, cOpus, cMPEG4Audio},
	{cKLVSync, cDVB},
	{cH264, cKLVAsync, cMPEG1Audio},
}

// VH_MuxMany: several interleaved tracks with languages and explicit PIDs, and more units than a continuity counter holds.
//
//vh: prop=P30 case:mix=0..6 quick:n=1..3 thorough:n=1..6 case:o=0..3 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_MuxMany() {
	n, o := vnd.Case("n"), vnd.Case("o")
	m := newMx(mixes[vnd.Case("mix")]...)
	m.conc = true
	if o&1 == 1 {
		for i, t := range m.tracks {
			t.Language = string(vnd.Bytes("lang", 3))
			if i == 0 || i > 2 {
				t.PID = uint16(0x1ffe - 3*i)
			}
		}
	}
	m.init()
	if o&2 == 2 {
		_, err := m.w.WriteTables()
		vnd.Assert(err == nil, "tables cannot be written")
	}
	for i := 0; i < n; i++ {
		for j := 0; j < 3; j++ {
			for ti := range m.tracks {
				id := i*3 + j
				pts := int64(vnd.Bits("pts", 32, ti, id)) << 1
				dts := pts
				if id&2 == 0 {
					dts = int64(vnd.Bits("dts", 32, ti, id))<<1 | 1
				}
				switch {
				case m.kinds[ti] == cKLVAsync:
					if j == 2 && ti > 0 && i == n-1 {
						m.write(ti, id, 0, 0, 7*i+5)
					}
				case j == 0 || ti%2 == 0:
					m.write(ti, id, pts, dts, 30+100*j, 3)
				case j == 1:
					m.write(ti, id, pts, dts, 160+i)
				}
			}
		}
	}
	m.read(&m.buf)
	vnd.Reach("ok")
}

// VH_MuxLong: more units than continuity counters and table periods can hold.
//
//vh: prop=P30 case:c=0,5,10 quick:n=50 thorough:n=130 quick:a=8,300 thorough:a=8,100,300,700 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_MuxLong() {
	n, a, c := vnd.Case("n"), vnd.Case("a"), vnd.Case("c")
	m := newMx(c, cMPEG1Audio)
	m.init()
	for i := 0; i < n; i++ {
		pts := int64(vnd.Bits("pts", 33, i))
		if c == cH264 {
			// not random access
			b := vnd.Fill(1, a)
			b[a-1] = vnd.Byte("x", i) | 1
			err := m.w.WriteH264(m.tracks[0], pts, pts, [][]byte{b})
			vnd.Assert(err == nil, "a unit cannot be written")
			m.sent[0] = append(m.sent[0], sent{pts, pts, [][]byte{b}})
		} else {
			m.write(0, 0, pts, pts, a)
		}
		if i%10 == 0 {
			m.write(1, i, pts, pts, 2)
		}
	}
	m.read(&m.buf)
	vnd.Reach("ok")
}

// VH_MuxLarge: units larger than the fields which hold their size, followed by a unit of two packets.
//
//vh: prop=P30 quick:c=9,10,12 thorough:c=0,3,9,10,12 quick:a=65522,65535,65536 thorough:a=65520..65540,70000,131069..131073,140000 case:b=200 merge=conc unwind=200000 steps=60000000 reach=ok
func VH_MuxLarge() {
	c, a := vnd.Case("c"), vnd.Case("a")
	m := newMx(c)
	m.init()
	p1 := int64(vnd.Bits("pts", 33))
	p2 := int64(vnd.Bits("pts2", 33))
	m.write(0, 0, p1, p1, a)
	m.write(0, 2, p2, p2, vnd.Case("b"))
	m.read(&m.buf)
	vnd.Reach("ok")
}

// VH_MuxLargeSmall: as above, but the second unit fits in a packet.
//
//vh: prop=P30 case:c=9,10,12 case:a=66000 merge=conc unwind=200000 steps=60000000
func VH_MuxLargeSmall() {
	m := newMx(vnd.Case("c"))
	m.init()
	m.write(0, 0, 1000, 1000, vnd.Case("a"))
	m.write(0, 2, 2000, 2000, 5)
	r := &mpegts.Reader{R: &m.buf}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	n := 0
	cb := func(pts int64, _ []byte) error {
		vnd.Assert(pts == 2000 || n == 0, "units are not in order")
		n++
		return nil
	}
	if t := r.Tracks()[0]; vnd.Case("c") == cEAC3 {
		r.OnDataEAC3(t, cb)
	} else if vnd.Case("c") == cKLVSync {
		r.OnDataKLV(t, cb)
	} else {
		r.OnDataDVBSubtitle(t, cb)
	}
	for {
		err = r.Read()
		if err == io.EOF {
			break
		}
		vnd.Assert(err == nil, "reading fails")
	}
	vnd.Assert(n == 2, "a unit larger than 65535 bytes is lost when it is followed by a unit that fits in a packet")
	vnd.Reach("ok")
}

type chunked struct {
	b   []byte
	n   int
	eof bool // io.EOF comes together with the last bytes
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.b[:min(c.n, len(c.b))])
	c.b = c.b[n:]
	if c.eof && len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// VH_MuxChunks: the reader does not depend on how the source splits the stream, and skips garbage which precedes it.
//
//vh: prop=P30,P39 case:mix=0..6 quick:n=1,100,187,188,189,1000,1316,1400 thorough:n=1..400,1000,1300..1400 quick:g=0,1,187,188,189,400 thorough:g=0..3,100,180..195,370..380,1000 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_MuxChunks() {
	m := newMx(mixes[vnd.Case("mix")]...)
	m.conc = true
	m.init()
	for j := 0; j < 2; j++ {
		for ti := range m.tracks {
			pts := int64(vnd.Bits("pts", 33, ti, j))
			if m.kinds[ti] != cKLVAsync {
				m.write(ti, j, pts, pts, 30+100*j, 3)
			}
		}
	}
	g := vnd.Case("g")
	garbage := vnd.Fill(0x48, g)
	for i := 0; i < g && i < 3; i++ {
		garbage[i] = vnd.Byte("g", i)
		garbage[g-1-i] = vnd.Byte("gg", i)
		vnd.Assume(vnd.And(garbage[i] != 0x47, garbage[g-1-i] != 0x47))
	}
	skips := 0
	r := &mpegts.Reader{R: &chunked{append(garbage, m.buf.Bytes()...), vnd.Case("n"), (vnd.Case("n")+g+vnd.Case("mix"))%2 == 1}}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	m.register(r)
	r.OnDecodeError(func(error) { skips++ })
	m.drain(r)
	vnd.Assert((skips > 0) == (g > 0), "skipped bytes are not reported")
	vnd.Reach("ok")
}

// VH_MuxConfig: parameters of audio tracks are delivered.
//
//vh: prop=P30 case:k=0..3 case:x=0..15 case:y=0..2 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_MuxConfig() {
	k, x, y := vnd.Case("k"), vnd.Case("x"), vnd.Case("y")
	acmod, lfe := x>>1, x&1
	chans := []int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + lfe
	m := newMx([]int{cMPEG4Audio, cAC3, cEAC3, cOpus}[k])
	pts := int64(vnd.Bits("pts", 33))
	switch k {
	case 0:
		rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
		if x >= len(rates) {
			vnd.Reach("ok")
			return
		}
		cc := 1 + (x+y*3)%7
		n := cc
		if cc == 7 {
			n = 8
		}
		m.tracks[0].Codec = &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{
			Type: mpeg4audio.ObjectType(2), SampleRate: rates[x], ChannelConfig: uint8(cc), ChannelCount: n,
		}}
		m.init()
		m.write(0, 0, pts, pts, 20, 5)
	case 1:
		m.tracks[0].Codec = &codecs.AC3{SampleRate: []int{48000, 44100, 32000}[y], ChannelCount: chans}
		frame := make([]byte, []int{128, 138, 192}[y])
		copy(frame, []byte{0x0b, 0x77, vnd.Byte("crc"), vnd.Byte("crc2"), byte(y << 6), 8<<3 | byte(vnd.Bits("bsmod", 3))})
		w := bwOf(acmod, 3)
		if acmod&1 == 1 && acmod != 1 {
			w.Bits(2, "cmix")
		}
		if acmod&4 != 0 {
			w.Bits(2, "smix")
		}
		if acmod == 2 {
			w.Bits(2, "dsur")
		}
		w.U(uint64(lfe), 1)
		copy(frame[6:], w.Buf)
		m.init()
		err := m.w.WriteAC3(m.tracks[0], pts, frame)
		vnd.Assert(err == nil, "a unit cannot be written")
		m.sent[0] = append(m.sent[0], sent{pts, pts, [][]byte{frame}})
	case 2:
		m.tracks[0].Codec = &codecs.EAC3{SampleRate: []int{48000, 44100, 32000}[y], ChannelCount: chans}
		frame := make([]byte, 100)
		copy(frame, []byte{0x0b, 0x77, 0, 49, byte(y<<6) | 0x30 | byte(x), 16<<3 | byte(vnd.Bits("dialnorm", 3)), vnd.Byte("z")})
		m.init()
		err := m.w.WriteEAC3(m.tracks[0], pts, frame)
		vnd.Assert(err == nil, "a unit cannot be written")
		m.sent[0] = append(m.sent[0], sent{pts, pts, [][]byte{frame}})
	case 3:
		if x == 0 || x > 8 {
			vnd.Reach("ok")
			return
		}
		o := &codecs.Opus{ChannelCount: x}
		switch y {
		case 1:
			o = &codecs.Opus{Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(0x81 + x)}}
			if x == 8 {
				o.Desc.ChannelConfigCode = 0x80
			}
		case 2:
			o = &codecs.Opus{Desc: &substructs.OpusAudioDescriptor{
				ChannelConfigCode: 0x81, ExplicitChannelCount: x, MappingFamily: 1,
				StreamCount: (x + 1) / 2, CoupledStreamCount: x / 2, ChannelMapping: make([]byte, x),
			}}
			for i := range o.Desc.ChannelMapping {
				o.Desc.ChannelMapping[i] = byte(i)
			}
		}
		m.tracks[0].Codec = o
		m.init()
		m.write(0, 0, pts, pts, 20, 5)
		r := &mpegts.Reader{R: &m.buf}
		err := r.Initialize()
		vnd.Assert(err == nil, "the reader cannot be initialized")
		ro, ok := r.Tracks()[0].Codec.(*codecs.Opus)
		vnd.Assert(ok, "the codec of a track is different")
		n := x
		if y == 1 && x == 8 {
			n = 2
		}
		vnd.Assert(ro.ChannelCount == n && ro.Desc.ChannelCount() == n, "the channel count is different")
		if y == 0 {
			vnd.Assert(vnd.DeepEqual(ro.Desc, &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(x)}), "the descriptor is different")
		} else {
			vnd.Assert(vnd.DeepEqual(ro.Desc, o.Desc), "the descriptor is different")
		}
		r.OnDataOpus(r.Tracks()[0], func(p int64, au [][]byte) error { return m.check(0, p, p, au) })
		m.drain(r)
		vnd.Reach("ok")
		return
	}
	m.read(&m.buf)
	vnd.Reach("ok")
}

func bwOf(v, n int) *bw.W {
	w := &bw.W{}
	w.U(uint64(v), n)
	return w
}

// VH_MuxDVB: subtitling items are delivered.
//
//vh: prop=P30 case:n=1..4 merge=conc unwind=20000 reach=ok
func VH_MuxDVB() {
	n := vnd.Case("n")
	m := newMx(cDVB)
	c := m.tracks[0].Codec.(*codecs.DVBSubtitle)
	c.Items = nil
	for i := 0; i < n; i++ {
		c.Items = append(c.Items, &astits.DescriptorSubtitlingItem{
			AncillaryPageID: vnd.U16("anc", i), CompositionPageID: vnd.U16("comp", i), Type: vnd.Byte("type", i),
			Language: []byte{vnd.Byte("l", i, 0), vnd.Byte("l", i, 1), vnd.Byte("l", i, 2)},
		})
	}
	m.init()
	err := m.w.WriteDVBSubtitle(m.tracks[0], 5, []byte{1, 2})
	vnd.Assert(err == nil, "a unit cannot be written")
	r := &mpegts.Reader{R: &m.buf}
	err = r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	d, ok := r.Tracks()[0].Codec.(*codecs.DVBSubtitle)
	vnd.Assert(ok, "the codec of a track is different")
	vnd.Assert(vnd.DeepEqual(d.Items, c.Items), "the subtitling items are different")
	vnd.Reach("ok")
}

// VH_MuxAsync: asynchronous units get the timestamp of the last unit of another track, whatever its size.
//
//vh: prop=P30 case:c=0..10,12 quick:a=1..4,150..176 thorough:a=1..400 merge=conc unwind=20000 reach=ok
func VH_MuxAsync() {
	c, a := vnd.Case("c"), vnd.Case("a")
	m := newMx(c, cKLVAsync)
	m.conc = true
	m.init()
	for i := 0; i < 2; i++ {
		pts := int64(vnd.Bits("pts", 33, i))
		m.write(0, i*2, pts, int64(vnd.Bits("dts", 33, i)), a)
	}
	m.write(1, 9, 0, 0, 1+a%5)
	m.read(&m.buf)
	vnd.Reach("ok")
}

// VH_KLVCells: a synchronous KLV unit split into any cells is delivered when the cells are consistent.
//
//vh: prop=P30 quick:n=1..4,255,256,257 thorough:n=1..12,255..260,511..514 quick:bad=0..4 thorough:bad=0..4 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_KLVCells() {
	n, bad := vnd.Case("n"), vnd.Case("bad")
	var enc, exp []byte
	for i := 0; i < n; i++ {
		size := 1 + i%3
		fr := 0
		if i == 0 {
			fr |= 2
		}
		if i == n-1 {
			fr |= 1
		}
		seq := byte(i)
		last := i == n-1
		switch {
		case bad == 1 && last:
			seq++
		case bad == 2 && last:
			fr ^= 1
		case bad == 3 && i == 0:
			fr ^= 2
		}
		d := make([]byte, size)
		for k := range d {
			d[k] = vnd.Byte("d", i, k)
		}
		enc = append(enc, vnd.Byte("svc", i), seq, byte(fr<<6)|byte(vnd.Bits("fl", 1, i)<<4)|0xf, 0, byte(size))
		enc = append(enc, d...)
		exp = append(exp, d...)
	}
	if bad == 4 {
		enc = append(enc, vnd.Byte("extra"))
	}
	m := newMx(cKLVSync)
	m.init()
	err := m.w.WriteDVBSubtitle(m.tracks[0], 77, enc)
	vnd.Assert(err == nil, "a unit cannot be written")
	r := &mpegts.Reader{R: &m.buf}
	err = r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	got, errs := 0, 0
	r.OnDecodeError(func(error) { errs++ })
	r.OnDataKLV(r.Tracks()[0], func(pts int64, data []byte) error {
		got++
		vnd.Assert(pts == 77 && vnd.Eq(data, exp), "the unit is different")
		return nil
	})
	for {
		err = r.Read()
		if err == io.EOF {
			break
		}
		vnd.Assert(err == nil, "reading fails")
	}
	if bad == 0 {
		vnd.Assert(got == 1 && errs == 0, "a valid unit is rejected")
	} else {
		vnd.Assert(got == 0 && errs == 1, "invalid cells are accepted")
	}
	vnd.Reach("ok")
}
