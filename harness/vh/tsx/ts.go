package tsx

import (
	"bytes"
	"errors"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

func stamp(b []byte, prefix byte) int64 {
	if b[0]>>4 != prefix || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return -1
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1)
}

func crc(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, v := range b {
		c ^= uint32(v) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// pes is a unit found in a stream.
type pes struct {
	pid      int
	pts, dts int64 // -1 when absent
	pcr      int64 // -1 when absent
	ra       bool
	tables   bool // tables are right before the unit
	streamID byte
	size     int // announced size
	data     []byte
}

type esInfo struct {
	typ, pid int
	desc     []byte
}

// parsed is the content of a stream.
type parsed struct {
	units  []*pes
	pcrPID []int // one for each table
	es     []esInfo
}

// parseTS is an independent parser, that does not tolerate anything unexpected.
func parseTS(ts []byte) *parsed {
	out := &parsed{}
	vnd.Assert(len(ts)%188 == 0, "the stream is not made of packets")
	cc := map[int]int{}
	open := map[int]*pes{}
	pat, pmt := -1, -1
	for p := 0; p < len(ts); p += 188 {
		pk := ts[p : p+188]
		vnd.Assert(pk[0] == 0x47, "a packet does not start with a sync byte")
		vnd.Assert(pk[1]&0x80 == 0, "a packet has the error indicator")
		vnd.Assert(pk[3]>>6 == 0, "a packet is scrambled")
		pid := int(pk[1]&0x1f)<<8 | int(pk[2])
		start := pk[1]&0x40 != 0
		pos := 4
		ra := false
		pcr := int64(-1)
		if pk[3]&0x20 != 0 {
			l := int(pk[4])
			vnd.Assert(l <= 183, "invalid adaptation field")
			if l > 0 {
				ra = pk[5]&0x40 != 0
				q := 6
				if pk[5]&0x10 != 0 {
					vnd.Assert(l >= 7, "invalid adaptation field")
					pcr = int64(pk[6])<<25 | int64(pk[7])<<17 | int64(pk[8])<<9 | int64(pk[9])<<1 | int64(pk[10])>>7
					vnd.Assert(pk[10]&1 == 0 && pk[11] == 0, "the clock has an extension")
					q = 12
				}
				vnd.Assert(pk[5]&^byte(0x50) == 0, "unexpected adaptation field")
				for ; q < 5+l; q++ {
					vnd.Assert(pk[q] == 0xff, "invalid stuffing")
				}
			}
			pos += 1 + l
		}
		vnd.Assert(pk[3]&0x10 != 0 && pos < 188, "a packet has no payload")
		if c, ok := cc[pid]; ok {
			vnd.Assert(int(pk[3]&0xf) == (c+1)&0xf, "continuity counters are not continuous")
		}
		cc[pid] = int(pk[3] & 0xf)
		pl := pk[pos:]
		if pid == 0 || pid == 0x1000 {
			vnd.Assert(start && pl[0] == 0, "a table does not start in its packet")
			l := int(pl[2]&0xf)<<8 | int(pl[3])
			vnd.Assert(l >= 9 && 4+l <= len(pl), "invalid table size")
			sec := pl[1 : 4+l]
			vnd.Assert(sec[5]&1 == 1 && sec[6] == 0 && sec[7] == 0, "invalid table header")
			n := len(sec) - 4
			vnd.Assert(crc(sec[:n]) == uint32(sec[n])<<24|uint32(sec[n+1])<<16|uint32(sec[n+2])<<8|uint32(sec[n+3]), "the checksum of a table is wrong")
			for _, b := range pl[4+l:] {
				vnd.Assert(b == 0xff, "invalid stuffing")
			}
			if pid == 0 {
				vnd.Assert(sec[0] == 0 && n == 12, "invalid PAT")
				vnd.Assert(int(sec[10]&0x1f)<<8|int(sec[11]) == 0x1000, "the PAT does not contain the PMT")
				pat = p
				continue
			}
			vnd.Assert(sec[0] == 2 && pat == p-188, "a PMT is not preceded by a PAT")
			pmt = p
			out.pcrPID = append(out.pcrPID, int(sec[8]&0x1f)<<8|int(sec[9]))
			q := 12 + (int(sec[10]&0xf)<<8 | int(sec[11]))
			var es []esInfo
			for q < n {
				dl := int(sec[q+3]&0xf)<<8 | int(sec[q+4])
				vnd.Assert(q+5+dl <= n, "invalid PMT")
				es = append(es, esInfo{int(sec[q]), int(sec[q+1]&0x1f)<<8 | int(sec[q+2]), sec[q+5 : q+5+dl]})
				q += 5 + dl
			}
			vnd.Assert(q == n, "invalid PMT")
			out.es = es
			continue
		}
		vnd.Assert(pmt >= 0, "a unit precedes tables")
		if !start {
			vnd.Assert(pcr < 0 && !ra, "a random access point or a clock is in the middle of a unit")
			vnd.Assert(open[pid] != nil, "a unit does not have a start")
			open[pid].data = append(open[pid].data, pl...)
			continue
		}
		u := &pes{pid: pid, pcr: pcr, ra: ra, tables: pmt == p-188, pts: -1, dts: -1}
		open[pid] = u
		out.units = append(out.units, u)
		vnd.Assert(pl[0] == 0 && pl[1] == 0 && pl[2] == 1, "a unit does not start with a start code")
		u.streamID = pl[3]
		hl := int(pl[8])
		if u.size = int(pl[4])<<8 | int(pl[5]); u.size != 0 {
			u.size -= 3 + hl
		}
		vnd.Assert(pl[6]>>6 == 2, "invalid unit header")
		switch pl[7] >> 6 {
		case 0:
			vnd.Assert(hl == 0, "invalid unit header")
		case 2:
			vnd.Assert(hl == 5, "invalid unit header")
			u.pts = stamp(pl[9:], 2)
			u.dts = u.pts
		case 3:
			vnd.Assert(hl == 10, "invalid unit header")
			u.pts = stamp(pl[9:], 3)
			u.dts = stamp(pl[14:], 1)
		default:
			vnd.Assert(false, "invalid unit header")
		}
		u.data = append([]byte(nil), pl[9+hl:]...)
	}
	return out
}

// unit is a unit that has been written.
type unit struct {
	ti       int
	pts, dts int64
	data     [][]byte
}

// tsWriter writes units and remembers them.
type tsWriter struct {
	m     *mx
	order []unit
}

func (w *tsWriter) write(ti, j int, pts, dts int64, sizes ...int) {
	if w.m.kinds[ti] == cKLVAsync {
		pts, dts = -1, -1
	}
	w.m.write(ti, j, max(pts, 0), max(dts, 0), sizes...)
	s := w.m.sent[ti][len(w.m.sent[ti])-1]
	if w.m.kinds[ti] > cH265 {
		dts = pts
	}
	w.order = append(w.order, unit{ti, pts, dts, s.data})
}

func (w *tsWriter) randomAccess(u unit) bool {
	switch w.m.kinds[u.ti] {
	case cH264:
		for _, n := range u.data {
			if n[0]&0x1f == 5 {
				return true
			}
		}
		return false
	case cH265:
		for _, n := range u.data {
			if t := n[0] >> 1 & 0x3f; t == 19 || t == 20 || t == 21 {
				return true
			}
		}
		return false
	case cMPEG4Video:
		return bytes.Contains(u.data[0], []byte{0, 0, 1, 0xb3})
	case cMPEG1Video:
		return bytes.Contains(u.data[0], []byte{0, 0, 1, 0xb8})
	}
	return true
}

// payload returns the expected contents of a unit, nil if they have a codec-specific form.
func (w *tsWriter) payload(u unit, got []byte) []byte {
	var out []byte
	switch w.m.kinds[u.ti] {
	case cH264, cH265:
		// delimiter, provided by the user or added by the writer
		aud := []byte{9, 0xf0}
		if w.m.kinds[u.ti] == cH265 {
			aud = []byte{70, 1, 0x50}
		}
		out = append(out, 0, 0, 0, 1)
		out = append(out, aud...)
		if got[3+len(aud)] == 0x50 {
			out[3+len(aud)] = 0x50
		}
		for _, n := range u.data {
			out = append(append(out, 0, 0, 0, 1), n...)
		}
	case cMPEG4Video, cMPEG1Video, cMPEG1Audio, cAC3, cEAC3, cKLVAsync, cDVB:
		for _, n := range u.data {
			out = append(out, n...)
		}
	}
	return out
}

// check checks a stream against what has been written.
func (w *tsWriter) check(ts []byte, early bool) {
	m := w.m
	p := parseTS(ts)
	lead := w.order[0].ti
	for i, pid := range p.pcrPID {
		if early && i == 0 {
			vnd.Assert(pid == int(m.tracks[0].PID), "the clock PID is wrong")
		} else {
			vnd.Assert(pid == int(m.tracks[lead].PID), "the clock PID is not the one of the leading track")
		}
	}
	vnd.Assert(len(p.es) == len(m.tracks), "a track is missing in the PMT")
	for ti, e := range p.es {
		vnd.Assert(e.pid == int(m.tracks[ti].PID), "the PID of a track is different")
		vnd.Assert(e.typ == []int{0x1b, 0x24, 0x10, 0x02, 0x06, 0x0f, 0x11, 0x03, 0x81, 0x87, 0x15, 0x06, 0x06}[m.kinds[ti]], "the stream type of a track is different")
		lang := ""
		for d := e.desc; len(d) > 0; {
			vnd.Assert(len(d) >= 2 && len(d) >= 2+int(d[1]), "invalid descriptors")
			if d[0] == 0x0a {
				vnd.Assert(d[1] == 4, "invalid language")
				lang = string(d[2:5])
			}
			d = d[2+int(d[1]):]
		}
		vnd.Assert(lang == m.tracks[ti].Language, "the language of a track is different")
	}
	vnd.Assert(len(p.units) == len(w.order), "the number of units is different")
	since := 0
	for i, u := range w.order {
		g := p.units[i]
		vnd.Assert(g.pid == int(m.tracks[u.ti].PID), "units are not in the order in which they were written")
		vnd.Assert(g.pts == u.pts && g.dts == u.dts, "the timestamps of a unit are different")
		ra := w.randomAccess(u)
		vnd.Assert(g.ra == ra, "the random access indicator is wrong")
		if u.ti == lead {
			if ra {
				vnd.Assert(g.tables, "a random access point of the leading track is not preceded by tables")
			}
			if g.pcr < 0 {
				since++
				vnd.Assert(since < 3 && (!ra || !isVideo(m.kinds[lead])), "clocks are missing")
			} else {
				since = 0
				vnd.Assert(g.pcr == (max(u.dts, 0)-9000)&(1<<33-1), "the clock does not precede the timestamp by 100 ms")
			}
		} else {
			vnd.Assert(g.pcr < 0, "a clock is not on the leading track")
		}
		k := m.kinds[u.ti]
		switch {
		case isVideo(k):
			vnd.Assert(g.streamID == 0xe0, "the stream ID is wrong")
		case k == cKLVSync:
			vnd.Assert(g.streamID == 0xfc, "the stream ID is wrong")
		case k == cKLVAsync || k == cDVB:
			vnd.Assert(g.streamID == 0xbd, "the stream ID is wrong")
		default:
			vnd.Assert(g.streamID == 0xc0, "the stream ID is wrong")
		}
		vnd.Assert(g.size == len(g.data) || g.size == 0 && isVideo(k), "the size of a unit is wrong")
		if exp := w.payload(u, g.data); exp != nil {
			vnd.Assert(vnd.Eq(g.data, exp), "the contents of a unit are different")
		}
	}
}

// newTS is newMx with concrete tables.
func newTS(kinds ...int) *mx {
	m := newMx(kinds...)
	m.conc = true
	for _, t := range m.tracks {
		if c, ok := t.Codec.(*codecs.DVBSubtitle); ok {
			c.Items[0].AncillaryPageID, c.Items[0].CompositionPageID, c.Items[0].Type = 1, 2, 3
			c.Items[0].Language = []byte("eng")
		}
	}
	return m
}

// VH_TSStream checks the stream produced by the writer with an independent parser. Tracks are written in any order and can have already been used by another writer.
//
//vh: prop=P38 case:mix=0..6 quick:n=1,5 thorough:n=1..9 case:o=0..7 quick:a=30 thorough:a=1..200 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_TSStream() {
	m := newTS(mixes[vnd.Case("mix")]...)
	o, a := vnd.Case("o"), vnd.Case("a")
	for i, t := range m.tracks {
		if i%2 == 0 {
			t.Language = "eng"
		}
	}
	m.init()
	if o&4 != 0 {
		// use tracks with another writer
		for ti := range m.tracks {
			m.write(ti, 0, 90000, 90000, a)
			m.init()
		}
		m.buf.Reset()
		m.sent = make([][]sent, len(m.tracks))
	}
	if o&1 != 0 {
		n, err := m.w.WriteTables()
		vnd.Assert(err == nil, "tables cannot be written")
		vnd.Assert(n == m.buf.Len(), "the number of written bytes is wrong")
	}
	w := &tsWriter{m: m}
	for j := 0; j < vnd.Case("n"); j++ {
		for i := range m.tracks {
			ti := i
			if o&2 != 0 {
				ti = len(m.tracks) - 1 - i
			}
			pts := int64(vnd.Bits("pts", 32, ti, j)) << 1
			dts := int64(vnd.Bits("dts", 32, ti, j))<<1 | 1
			if j%2 == 0 {
				dts = pts
			}
			if i == 0 && j == 0 && m.kinds[ti] == cKLVAsync {
				continue
			}
			w.write(ti, j, pts, dts, a+100*j, 3)
		}
	}
	w.check(m.buf.Bytes(), o&1 != 0)
	vnd.Reach("ok")
}

// VH_TSOne: packets, stuffing and clocks of a track of each codec, for any unit size.
//
//vh: prop=P38 case:c=0..10,12 quick:a=1..4,140..184,340..360 thorough:a=1..800 quick:n=5 thorough:n=5,10 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_TSOne() {
	c, a, n := vnd.Case("c"), vnd.Case("a"), vnd.Case("n")
	m := newTS(c)
	m.init()
	w := &tsWriter{m: m}
	for j := 0; j < n; j++ {
		pts := int64(vnd.Bits("pts", 32, j)) << 1
		dts := int64(vnd.Bits("dts", 32, j))<<1 | 1
		if j%2 == 0 {
			dts = pts
		}
		w.write(0, j, pts, dts, a+j%3)
	}
	w.check(m.buf.Bytes(), false)
	vnd.Reach("ok")
}

// VH_TSRandomAccess: clocks and tables follow the random access points of a video track, whatever the sequence of types.
//
//vh: prop=P38 case:c=0,1 quick:n=1..5 thorough:n=1..9 merge=none unwind=20000 steps=60000000 reach=ok
func VH_TSRandomAccess() {
	c := vnd.Case("c")
	m := newTS(c, cKLVSync)
	m.init()
	w := &tsWriter{m: m}
	for j := 0; j < vnd.Case("n"); j++ {
		au := [][]byte{{0x41, 1, 2}}
		if vnd.Bool("ra", j) {
			au[0][0] = 0x65
		}
		var err error
		if c == cH265 {
			au[0][0] = au[0][0] & 0x20 // 32 (16) or 0
			if au[0][0] != 0 {
				au[0][0] = 20 << 1
			}
			err = m.w.WriteH265(m.tracks[0], 90000, 90000, au)
		} else {
			err = m.w.WriteH264(m.tracks[0], 90000, 90000, au)
		}
		vnd.Assert(err == nil, "a unit cannot be written")
		w.order = append(w.order, unit{0, 90000, 90000, au})
		if j%2 == 0 {
			w.write(1, j, 1000, 1000, 10)
		}
	}
	w.check(m.buf.Bytes(), false)
	vnd.Reach("ok")
}

// VH_TSTablesVersion: the tables announce a new version exactly when their content changes.
//
//vh: prop=P38 case:mix=0..6 quick:n=3 thorough:n=1..40 merge=conc unwind=20000 steps=60000000 reach=ok
func VH_TSTablesVersion() {
	m := newTS(mixes[vnd.Case("mix")]...)
	m.init()
	_, err := m.w.WriteTables()
	vnd.Assert(err == nil, "tables cannot be written")
	last := len(m.tracks) - 1
	for j := 0; j < vnd.Case("n"); j++ {
		m.write(last, 2*j, 90000, 90000, 50)
		_, err = m.w.WriteTables()
		vnd.Assert(err == nil, "tables cannot be written")
	}
	ts := m.buf.Bytes()
	prev := map[int][]byte{}
	for p := 0; p < len(ts); p += 188 {
		pid := int(ts[p+1]&0x1f)<<8 | int(ts[p+2])
		if pid != 0 && pid != 0x1000 {
			continue
		}
		sec := append([]byte(nil), ts[p+5:p+188]...)
		l := int(sec[1]&0xf)<<8 | int(sec[2])
		v := sec[5] >> 1 & 0x1f
		body := append(append([]byte(nil), sec[:5]...), sec[6:3+l-4]...)
		if old, ok := prev[pid]; ok {
			vnd.Assert((old[0] == v) == vnd.Eq(old[1:], body), "the version of a table is wrong")
		}
		prev[pid] = append([]byte{v}, body...)
	}
	vnd.Reach("ok")
}

var errSink = errors.New("sink error")

type sink struct {
	n int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.n == 0 {
		return 0, errSink
	}
	s.n--
	return len(p), nil
}

// VH_TSSinkError: errors of the destination are returned.
//
//vh: prop=P38 case:c=0..12 quick:n=0..12 thorough:n=0..60 merge=conc unwind=20000 steps=60000000
func VH_TSSinkError() {
	c, n := vnd.Case("c"), vnd.Case("n")
	count := func(w *mpegts.Writer, t *mpegts.Track, k int) error {
		p := body(200, "body")
		switch c {
		case cH264:
			return w.WriteH264(t, 1, 1, [][]byte{{0x65}, p})
		case cH265:
			return w.WriteH265(t, 1, 1, [][]byte{{0x26, 1}, p})
		case cMPEG4Video:
			return w.WriteMPEG4Video(t, 1, p)
		case cMPEG1Video:
			return w.WriteMPEG1Video(t, 1, p)
		case cOpus:
			return w.WriteOpus(t, 1, [][]byte{p})
		case cMPEG4Audio:
			return w.WriteMPEG4Audio(t, 1, [][]byte{p})
		case cLATM:
			return w.WriteMPEG4AudioLATM(t, 1, [][]byte{p})
		case cMPEG1Audio:
			f := make([]byte, 96)
			copy(f, []byte{0xff, 0xfb, 0x14, 0})
			return w.WriteMPEG1Audio(t, 1, [][]byte{f, f})
		case cAC3:
			return w.WriteAC3(t, 1, p)
		case cEAC3:
			return w.WriteEAC3(t, 1, p)
		case cDVB:
			return w.WriteDVBSubtitle(t, 1, p)
		}
		return w.WriteKLV(t, 1, p)
	}
	m := newTS(c)
	s := &sink{n}
	w := &mpegts.Writer{W: s, Tracks: m.tracks}
	vnd.Assert(w.Initialize() == nil, "the writer cannot be initialized")
	for k := 0; ; k++ {
		left := s.n
		err := count(w, m.tracks[0], k)
		if err != nil {
			vnd.Assert(errors.Is(err, errSink) && s.n == 0, "another error is returned")
			break
		}
		vnd.Assert(s.n < left, "nothing is written")
	}
	vnd.Reach("ok")
}
