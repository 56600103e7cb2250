package tsx

import (
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

// session writes three units, of one or more packets, on each of two tracks.
func session(c int) *mx {
	o := cMPEG1Audio
	if c == cMPEG1Audio {
		o = cH264
	}
	m := newTS(c, o)
	m.init()
	for j := 0; j < 3; j++ {
		for ti := range m.tracks {
			if m.kinds[ti] != cKLVAsync {
				m.write(ti, 2*j, int64(90000*(j+1)+ti), int64(90000*(j+1)+ti), 30+110*j)
			}
		}
	}
	return m
}

// restamp fixes continuity counters.
func restamp(ts []byte) []byte {
	cc := map[int]byte{}
	for p := 0; p < len(ts); p += 188 {
		pid := int(ts[p+1]&0x1f)<<8 | int(ts[p+2])
		ts[p+3] = ts[p+3]&0xf0 | cc[pid]&0xf
		if ts[p+3]&0x10 != 0 {
			cc[pid]++
		}
	}
	return ts
}

func insert(ts []byte, pos int, in []byte) []byte {
	out := append([]byte(nil), ts[:pos]...)
	return append(append(out, in...), ts[pos:]...)
}

func putStamp(b []byte, prefix byte, v int64) {
	b[0] = prefix<<4 | byte(v>>30)&7<<1 | 1
	b[1] = byte(v >> 22)
	b[2] = byte(v>>15)<<1 | 1
	b[3] = byte(v >> 7)
	b[4] = byte(v)<<1 | 1
}

// rawPacket is a packet that contains an entire unit, with any timestamp indicator.
// The size of the unit is not announced in video tracks.
func rawPacket(pid int, video bool, ind int, pts, dts int64, data []byte) []byte {
	h := []byte{0, 0, 1, 0xe0, 0, 0, 0x80, byte(ind << 6), 0}
	switch ind {
	case 2:
		h = append(h, make([]byte, 5)...)
		h[8] = 5
		putStamp(h[9:], 2, pts)
	case 3:
		h = append(h, make([]byte, 10)...)
		h[8] = 10
		putStamp(h[9:], 3, pts)
		putStamp(h[14:], 1, dts)
	}
	if !video {
		h[3], h[5] = 0xbd, byte(3+int(h[8])+len(data))
	}
	p := []byte{0x47, 0x40 | byte(pid>>8), byte(pid), 0x30, 0, 0}
	pad := 184 - 2 - len(h) - len(data)
	p[4] = byte(1 + pad)
	for i := 0; i < pad; i++ {
		p = append(p, 0xff)
	}
	return append(append(p, h...), data...)
}

// starts returns the positions of the packets in which the units of a PID start, and the end of the stream.
func starts(ts []byte, pid int) []int {
	var out []int
	for p := 0; p < len(ts); p += 188 {
		if int(ts[p+1]&0x1f)<<8|int(ts[p+2]) == pid && ts[p+1]&0x40 != 0 {
			out = append(out, p)
		}
	}
	return append(out, len(ts))
}

// open initializes a reader and registers callbacks.
func (m *mx) open(src io.Reader) *mpegts.Reader {
	r := &mpegts.Reader{R: src}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	m.register(r)
	return r
}

// VH_RecGarbage: bytes between packets are skipped and reported.
//
//vh: prop=P39 case:c=0,5,12 quick:k=2,3,5,8 thorough:k=0..12 quick:g=1,100,187,188,189,376 thorough:g=1..400 case:n=188,1000 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecGarbage() {
	m := session(vnd.Case("c"))
	g := vnd.Case("g")
	garbage := vnd.Fill(0x48, g)
	for i := 0; i < g && i < 3; i++ {
		garbage[i] = vnd.Byte("g", i)
		garbage[g-1-i] = vnd.Byte("gg", i)
		vnd.Assume(vnd.And(garbage[i] != 0x47, garbage[g-1-i] != 0x47))
	}
	pos := min(188*vnd.Case("k"), m.buf.Len())
	r := m.open(&chunked{b: insert(m.buf.Bytes(), pos, garbage), n: vnd.Case("n")})
	skips := 0
	r.OnDecodeError(func(error) { skips++ })
	m.drain(r)
	vnd.Assert(skips > 0 || pos == m.buf.Len() && g < 188, "skipped bytes are not reported")
	vnd.Reach("ok")
}

// VH_RecCorrupt: a unit with arbitrary contents is either delivered or reported, and does not affect the others.
//
//vh: prop=P39 case:c=0..12 quick:n=1,4,9 thorough:n=1..16 case:k=1..3 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecCorrupt() {
	c, n, k := vnd.Case("c"), vnd.Case("n"), vnd.Case("k")
	m := session(c)
	if c == cKLVAsync {
		k = 0
	}
	pid := int(m.tracks[0].PID)
	st := starts(m.buf.Bytes(), pid)
	ts := insert(m.buf.Bytes(), st[k], rawPacket(pid, isVideo(c), 2, 77, 77, vnd.Bytes("raw", n)))
	r := m.open(&chunked{b: restamp(ts), n: 1316})
	errs, got := 0, 0
	r.OnDecodeError(func(error) { errs++ })
	t := r.Tracks()[0]
	v := func(pts, dts int64, au [][]byte) error {
		if pts == 77 {
			got++
			return nil
		}
		return m.check(0, pts, dts, au)
	}
	a := func(pts int64, au [][]byte) error { return v(pts, pts, au) }
	s := func(pts int64, au []byte) error { return v(pts, pts, [][]byte{au}) }
	switch c {
	case cH264:
		r.OnDataH264(t, v)
	case cH265:
		r.OnDataH265(t, v)
	case cMPEG4Video, cMPEG1Video:
		r.OnDataMPEGxVideo(t, s)
	case cOpus:
		r.OnDataOpus(t, a)
	case cMPEG4Audio:
		r.OnDataMPEG4Audio(t, a)
	case cLATM:
		r.OnDataMPEG4AudioLATM(t, a)
	case cMPEG1Audio:
		r.OnDataMPEG1Audio(t, a)
	case cAC3:
		r.OnDataAC3(t, s)
	case cEAC3:
		r.OnDataEAC3(t, s)
	case cKLVSync, cKLVAsync:
		r.OnDataKLV(t, s)
	case cDVB:
		r.OnDataDVBSubtitle(t, s)
	}
	m.drain(r)
	vnd.Assert(got+errs == 1, "a unit is neither delivered nor reported, or both")
	vnd.Reach("ok")
}

// VH_RecStamps: units without timestamp, with an invalid indicator or whose timestamps must be equal and are not, are reported and skipped.
//
//vh: prop=P39 case:c=0..10,12 case:ind=0,1,3 case:k=1..3 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecStamps() {
	c, ind, k := vnd.Case("c"), vnd.Case("ind"), vnd.Case("k")
	m := session(c)
	pid := int(m.tracks[0].PID)
	ts := append([]byte(nil), m.buf.Bytes()...)
	st := starts(ts, pid)
	// valid contents: use the ones of the last unit that fits in a packet
	g := parseTS(ts)
	var data []byte
	for _, u := range g.units {
		if u.pid == pid && len(u.data) < 150 {
			data = u.data
		}
	}
	if c == cAC3 {
		// 48 khz, 32 kbit/s
		data = make([]byte, 128)
		copy(data, []byte{0x0b, 0x77, vnd.Byte("crc"), vnd.Byte("crc2"), 0, 8 << 3, 4 << 5})
	}
	vnd.Assert(data != nil, "there is no unit that fits in a packet")
	pts, dts := int64(vnd.Bits("pts", 33)), int64(vnd.Bits("dts", 33))
	vnd.Assume(vnd.And(uint64(pts) != 90000, vnd.And(uint64(pts) != 180000, uint64(pts) != 270000)))
	ts = insert(ts, st[k], rawPacket(pid, isVideo(c), ind, pts, dts, data))
	m.lost = map[[2]int]bool{{0, k}: true}
	ok := ind == 3 && (dts == pts || c <= cMPEG1Video || c == cKLVSync || c == cDVB)
	// when valid, the unit is expected with the contents of its source
	var src [][]byte
	n := 0
	for _, u := range g.units {
		if u.pid == pid {
			if len(u.data) < 150 {
				src = m.sent[0][n].data
			}
			n++
		}
	}
	if c == cAC3 {
		src = [][]byte{data}
	}
	d := dts
	if c > cH265 {
		d = pts
	}
	s := m.sent[0]
	m.sent[0] = append(append(append([]sent(nil), s[:k]...), sent{pts, d, src}), s[k:]...)
	r := m.open(&chunked{b: restamp(ts), n: 1316})
	errs := 0
	r.OnDecodeError(func(error) { errs++ })
	for {
		err := r.Read()
		if err == io.EOF {
			break
		}
		vnd.Assert(err == nil, "reading fails")
	}
	m.complete()
	if ok {
		vnd.Assert(errs == 0, "a valid unit is reported")
	} else {
		vnd.Assert(errs == 1, "an invalid unit is not reported")
	}
	vnd.Reach("ok")
}

// VH_RecUndeclared: units of PIDs that are not in the PMT are reported and skipped.
//
//vh: prop=P39 case:c=0,5,12 quick:k=2,3,5,8 thorough:k=2..12 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecUndeclared() {
	m := session(vnd.Case("c"))
	pid := vnd.Case("k") + 400
	pos := min(188*vnd.Case("k"), m.buf.Len())
	r := m.open(&chunked{b: insert(m.buf.Bytes(), pos, rawPacket(pid, false, 2, int64(vnd.Bits("pts", 33)), 0, vnd.Bytes("raw", 9))), n: 1000})
	errs := 0
	r.OnDecodeError(func(error) { errs++ })
	m.drain(r)
	vnd.Assert(errs == 1, "a unit of an undeclared track is not reported")
	vnd.Reach("ok")
}

// VH_RecOther: packets without units do not affect units. f selects null packets, packets without payload, packets with the error indicator and packets without the start of a unit.
//
//vh: prop=P39 case:c=0,5,12 quick:k=2,3,5,8 thorough:k=2..12 case:f=0..3 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecOther() {
	m := session(vnd.Case("c"))
	pos := min(188*vnd.Case("k"), m.buf.Len())
	pid := int(m.tracks[0].PID)
	p := vnd.Fill(0xff, 188)
	p[0] = 0x47
	switch vnd.Case("f") {
	case 0:
		p[1], p[2], p[3] = 0x1f, 0xff, 0x10|byte(vnd.Bits("cc", 4))
	case 1:
		p[1], p[2], p[3], p[4] = byte(pid>>8), byte(pid), 0x20|byte(vnd.Bits("cc", 4)), 183
		p[5] = 0x10
		copy(p[6:], vnd.Bytes("pcr", 6))
	case 2:
		p[1], p[2], p[3] = 0x80|vnd.Byte("h1"), vnd.Byte("h2"), 0x10|byte(vnd.Bits("cc", 4))
	case 3:
		p[1], p[2], p[3] = 0x05, byte(vnd.Bits("pid", 4)), 0x10|byte(vnd.Bits("cc", 4))
		copy(p[4:], vnd.Bytes("d", 3))
		vnd.Assume(p[4] != 0)
	}
	r := m.open(&chunked{b: insert(m.buf.Bytes(), pos, p), n: 1000})
	r.OnDecodeError(func(error) { vnd.Assert(false, "a decode error is reported") })
	m.drain(r)
	vnd.Reach("ok")
}

// VH_RecLost: when a packet is lost, the unit it belongs to is not delivered, and all units except this and the previous one are.
//
//vh: prop=P39 case:c=0,1,2,4,5,10,12 quick:k=3..9 thorough:k=3..14 merge=conc unwind=20000 steps=60000000
func VH_RecLost() {
	m := session(vnd.Case("c"))
	ts := m.buf.Bytes()
	pos := 188 * vnd.Case("k")
	if pos >= len(ts) {
		return
	}
	pid := int(ts[pos+1]&0x1f)<<8 | int(ts[pos+2])
	for ti, t := range m.tracks {
		if int(t.PID) == pid {
			n := -1
			for _, s := range starts(ts, pid) {
				if s <= pos {
					n++
				}
			}
			m.lost = map[[2]int]bool{{ti, n}: true, {ti, n - 1}: true}
			if pos == starts(ts, pid)[0] {
				return // parameters are there
			}
			last := 0
			for p := 0; p < len(ts); p += 188 {
				if ts[p+2] == ts[pos+2] && ts[p+1]&0x1f == ts[pos+1]&0x1f {
					last = p
				}
			}
			if pos == last {
				return // this cannot be detected
			}
		}
	}
	ts = append(append([]byte(nil), ts[:pos]...), ts[pos+188:]...)
	r := m.open(&chunked{b: ts, n: 1000})
	m.drain(r)
	vnd.Reach("ok")
}

var errSource = errors.New("source error")

type failing struct {
	chunked
	err  error
	with bool // return the error with the last bytes
}

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.chunked.Read(p)
	if err != nil || f.with && len(f.b) == 0 {
		return n, f.err
	}
	return n, nil
}

// VH_RecSourceError: the error of the source is returned as is, after the units that precede it.
//
//vh: prop=P39 case:c=0,5,12 quick:k=0,1,187,188,189,376,400,564,600,752,940,1128,1300 thorough:k=0..1600 case:w=0,1 case:e=0,1 quick:n=150,188,1000 thorough:n=100,150,187,188,189,1000 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecSourceError() {
	c, k := vnd.Case("c"), vnd.Case("k")
	m := session(c)
	ts := m.buf.Bytes()
	exp := errSource
	if vnd.Case("e") == 1 {
		exp = io.EOF
	}
	f := &failing{chunked{b: ts[:min(k, len(ts))], n: vnd.Case("n")}, exp, vnd.Case("w") == 1}
	r := &mpegts.Reader{R: f}
	err := r.Initialize()
	if err == nil {
		m.register(r)
		r.OnDecodeError(func(error) { vnd.Assert(false, "a decode error is reported") })
		// units that end before the error
		if exp == errSource {
			for {
				err = r.Read()
				if err != nil {
					break
				}
			}
			for ti, t := range m.tracks {
				n := 0
				for i, s := range starts(ts, int(t.PID)) {
					if i > 0 && s+188 <= k {
						n++
					}
				}
				vnd.Assert(m.got[ti] >= n, "units that precede the error are not delivered")
			}
		} else {
			m.lost = map[[2]int]bool{}
			for {
				err = r.Read()
				if err != nil {
					break
				}
				if m.got[0] == 3 || m.got[1] == 3 {
					break
				}
			}
			if err == nil {
				err = io.EOF
			}
		}
	}
	vnd.Assert(err == exp, "another error is returned")
	vnd.Reach("ok")
}

// VH_RecCallbackError: errors of callbacks are returned, and reading can go on.
//
//vh: prop=P39 case:c=0..10,12 case:k=0..2 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecCallbackError() {
	m := session(vnd.Case("c"))
	m.fail = map[[2]int]error{{0, vnd.Case("k")}: errSource}
	r := m.open(&m.buf)
	r.OnDecodeError(func(error) { vnd.Assert(false, "a decode error is reported") })
	n := 0
	for {
		err := r.Read()
		if err == io.EOF {
			break
		}
		if err != nil {
			vnd.Assert(err == errSource, "another error is returned")
			vnd.Assert(m.got[0] == vnd.Case("k")+1, "the error of a callback is returned at the wrong time")
			n++
		}
	}
	vnd.Assert(n == 1, "the error of a callback is not returned")
	m.complete()
	vnd.Reach("ok")
}

// VH_RecNoCallback: units of tracks without callback are skipped.
//
//vh: prop=P39 case:c=0..12 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_RecNoCallback() {
	m := session(vnd.Case("c"))
	r := &mpegts.Reader{R: &m.buf}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	r.OnDecodeError(func(error) { vnd.Assert(false, "a decode error is reported") })
	t := r.Tracks()[1]
	n := 0
	if m.kinds[1] == cH264 {
		r.OnDataH264(t, func(pts, dts int64, au [][]byte) error { n++; return m.check(1, pts, dts, au) })
	} else {
		r.OnDataMPEG1Audio(t, func(pts int64, au [][]byte) error { n++; return m.check(1, pts, pts, au) })
	}
	for {
		err = r.Read()
		if err == io.EOF {
			break
		}
		vnd.Assert(err == nil, "reading fails")
	}
	vnd.Assert(n == 3, "a unit that was written is not read")
	vnd.Reach("ok")
}

var _ = codecs.H264{}
