package mp4x

import (
	"bytes"
	"errors"

	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

type presSample struct {
	dur uint32
	off int32
	non bool
	pl  []byte
}

func presTrack(id int, ts uint32, to int32, c codecs.Codec, ss []presSample) *pmp4.Track {
	bw.In(c)
	tr := &pmp4.Track{ID: id, TimeScale: ts, TimeOffset: to, Codec: c}
	for i := range ss {
		s := ss[i]
		s.pl = bw.Spare(s.pl)
		bw.In(s.pl)
		tr.Samples = append(tr.Samples, &pmp4.Sample{
			Duration:        s.dur,
			PTSOffset:       s.off,
			IsNonSyncSample: s.non,
			PayloadSize:     uint32(len(s.pl)),
			GetPayload:      func() ([]byte, error) { return s.pl, nil },
		})
	}
	return tr
}

func samePres(in *pmp4.Presentation, b []byte, ss [][]presSample) {
	bw.Out(b)
	var out pmp4.Presentation
	err := out.Unmarshal(bytes.NewReader(b))
	vnd.Assert(err == nil, "a written presentation can be read")
	vnd.Assert(len(in.Tracks) == len(out.Tracks), "track count")
	for i, x := range in.Tracks {
		y := out.Tracks[i]
		vnd.Assert(x.ID == y.ID, "track id")
		vnd.Assert(x.TimeScale == y.TimeScale, "time scale")
		vnd.Assert(x.TimeOffset == y.TimeOffset, "time offset")
		sameCodec(x.Codec, y.Codec)
		bw.Out(y.Codec)
		vnd.Assert(len(y.Samples) == len(ss[i]), "sample count")
		for k, s := range ss[i] {
			q := y.Samples[k]
			vnd.Assert(s.dur == q.Duration, "sample duration")
			vnd.Assert(s.off == q.PTSOffset, "sample composition offset")
			vnd.Assert(s.non == q.IsNonSyncSample, "sample sync flag")
			vnd.Assert(int(q.PayloadSize) == len(s.pl), "sample size")
			pl, err := q.GetPayload()
			bw.Out(pl)
			vnd.Assert(err == nil && vnd.Eq(pl, s.pl), "sample payload")
		}
	}
}

// A presentation with a single track, with any durations, offsets, flags and
// payloads, reads back equal.
//vh: prop=P33 quick:n=0..3 quick:size=0..2 thorough:n=0..5 thorough:size=0..4 merge=conc reach=ok
func VH_PresOne() {
	n, size := vnd.Case("n"), vnd.Case("size")
	var ss []presSample
	for i := 0; i < n; i++ {
		sz := size
		if i == 1 {
			sz = (size + 1) % 4
		}
		s := presSample{dur: vnd.U32("dur", i), off: int32(vnd.U32("off", i)), non: vnd.Bool("non", i), pl: make([]byte, sz)}
		for k := range s.pl {
			s.pl[k] = vnd.Byte("pl", i, k)
		}
		if bw.Fixed() {
			s.dur, s.off, s.non = 1, int32(i), i == 1
		}
		ss = append(ss, s)
	}
	// the time scale is a division away from the branches of the encoder
	ts := uint32(1)
	if n < 2 && !bw.Fixed() {
		ts = vnd.U32("ts")
		vnd.Assume(ts != 0)
	} else if n == 2 && size == 1 {
		ts = 90000
	}
	to := int32(vnd.U32("to"))
	if bw.Fixed() {
		to = 1
	}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{
		presTrack(int(vnd.U32("id")), ts, to, &codecs.Opus{ChannelCount: 2}, ss),
	}}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	samePres(in, w.b, [][]presSample{ss})
	vnd.Reach("ok")
}

// Presentations with several tracks, whose samples are interleaved by time in
// any order, read back equal, and sample data is stored in chunks that follow
// each other without gaps.
//vh: prop=P33 quick:n=1..2 quick:m=1..2 quick:ts=0..1 thorough:n=1..3 thorough:m=0..3 thorough:ts=0..2 merge=conc reach=ok
func VH_PresTwo() {
	nn := [2]int{vnd.Case("n"), vnd.Case("m")}
	tss := [...][2]uint32{{1, 1}, {1000, 1}, {90000, 48000}}[vnd.Case("ts")]
	in := &pmp4.Presentation{}
	var all [][]presSample
	total := 0
	for t := 0; t < 2; t++ {
		var ss []presSample
		for i := 0; i < nn[t]; i++ {
			s := presSample{dur: vnd.U32("dur", t, i) & 7, pl: make([]byte, 1+(t+i)%2)}
			for k := range s.pl {
				s.pl[k] = vnd.Byte("pl", t, i, k)
			}
			if bw.Fixed() {
				s.dur = 3
			}
			total += len(s.pl)
			ss = append(ss, s)
		}
		all = append(all, ss)
		to := int32(vnd.Byte("to", t)&3) - 1
		if bw.Fixed() {
			to = 1
		}
		in.Tracks = append(in.Tracks, presTrack(t+1, tss[t], to, &codecs.Opus{ChannelCount: 2}, ss))
	}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	samePres(in, w.b, all)
	root := boxes(w.b, 0, len(w.b))
	vnd.Assert(len(root) == 3 && isBox(w.b, root[0], "ftyp") && isBox(w.b, root[1], "moov") && isBox(w.b, root[2], "mdat"), "root boxes")
	vnd.Assert(root[2].size == 8+total, "mdat holds the payloads only")
	vnd.Reach("ok")
}

// Whatever the order in which samples of two tracks are interleaved, their
// chunks are described so that every sample is found again.
//vh: prop=P33 quick:pat=0..63 quick:len=6 quick:sizes=0..2 thorough:pat=0..255 thorough:len=8 thorough:sizes=0..2 merge=conc reach=ok
func VH_PresInterleave() {
	pat, n, sizes := vnd.Case("pat"), vnd.Case("len"), vnd.Case("sizes")
	var all [2][]presSample
	var last, first [2]int
	for i := 0; i < n; i++ {
		t := pat >> i & 1
		sz := 1
		if sizes == 1 && i%2 == 1 || sizes == 2 && i%3 == 0 {
			sz = 0
		}
		if sizes == 2 && i%3 == 1 {
			sz = 2
		}
		s := presSample{pl: make([]byte, sz), dur: 1}
		for k := range s.pl {
			s.pl[k] = vnd.Byte("pl", i, k)
		}
		if len(all[t]) == 0 {
			first[t] = i
		} else {
			all[t][len(all[t])-1].dur = uint32(i - last[t])
		}
		last[t] = i
		all[t] = append(all[t], s)
	}
	in := &pmp4.Presentation{}
	for t := 0; t < 2; t++ {
		in.Tracks = append(in.Tracks, presTrack(t+1, 1000, int32(first[t]), &codecs.Opus{ChannelCount: 2}, all[t]))
	}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	samePres(in, w.b, all[:])

	// samples are stored in order of time
	at := len(w.b)
	for i := n - 1; i >= 0; i-- {
		t := pat >> i & 1
		s := all[t][len(all[t])-1]
		all[t] = all[t][:len(all[t])-1]
		at -= len(s.pl)
		vnd.Assert(vnd.Eq(w.b[at:at+len(s.pl)], s.pl), "samples are stored in order of time")
	}
	vnd.Reach("ok")
}

// Every codec is read back from a presentation.
//vh: prop=P33 quick:codec=0..13 quick:n=2 thorough:codec=0..13 thorough:n=1..4 merge=conc reach=ok
func VH_PresCodecs() {
	c := mkCodec(vnd.Case("codec"), "c", vnd.Case("n"))
	vnd.Assume(fits(c))
	ss := []presSample{{dur: 5, pl: []byte{vnd.Byte("pl")}}}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(1, 90000, 0, c, ss)}}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	samePres(in, w.b, [][]presSample{ss})
	vnd.Reach("ok")
}

// presTables returns a file with a single track, whose sample tables are given.
func presTables(tables []byte) []byte {
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(1, 1000, 0, &codecs.Opus{ChannelCount: 2}, nil)}}
	var s sink
	err := in.Marshal(&s)
	vnd.Assert(err == nil, "a presentation can be written")
	b := s.b
	path := findBox(b, "moov", "trak", "mdia", "minf", "stbl", "stsd")
	from := path[5].off + path[5].size
	to := path[4].off + path[4].size
	w := &bwr{}
	w.b = append(w.b, b[:from]...)
	w.b = append(w.b, tables...)
	w.b = append(w.b, b[to:]...)
	for _, p := range path[:5] {
		w.patch(p.off, uint32(p.size+len(tables)-(to-from)))
	}
	return w.b
}

func (w *bwr) table(kind int, n int, nm string) {
	o := w.start([...]string{"stss", "ctts", "stsc", "stsz", "stco", "stts"}[kind])
	w.u32(vnd.U32(nm + ".vf") & 0x01000000)
	if kind == 3 {
		w.u32(0)
	}
	w.u32(uint32(n))
	k := [...]int{1, 2, 3, 1, 1, 2}[kind]
	for i := 0; i < n*k; i++ {
		v := vnd.U32(nm, i)
		w.u32(v)
	}
	w.end(o)
}

// Any sample tables, in any order, with any content, are either rejected or
// give samples that can be read: the payload of every sample is provided, or
// an error when it lies outside of the file.
//vh: prop=P33,P05,P34 quick:a=0..4 quick:b=0..4 quick:c=0..4 quick:e=1 thorough:a=0..4 thorough:b=0..4 thorough:c=0..4 thorough:d=0..5 thorough:e=1..2 quick:d=5 merge=conc
func VH_PresTables() {
	e := vnd.Case("e")
	w := &bwr{}
	o := w.start("stts")
	w.u32(0)
	w.u32(1)
	cnt := vnd.U32("samples")
	vnd.Assume(cnt <= 2)
	w.u32(cnt)
	w.u32(vnd.U32("delta"))
	w.end(o)
	w.table(vnd.Case("a"), e, "a")
	w.table(vnd.Case("b"), e, "b")
	w.table(vnd.Case("c"), e, "c")
	if d := vnd.Case("d"); d != 5 {
		w.table(d, e, "d")
	}
	presRead(presTables(w.b))
}

func presRead(b []byte) {
	vnd.AllocLimit(1<<17 + 64*len(b))
	var out pmp4.Presentation
	r := bytes.NewReader(b)
	if out.Unmarshal(r) != nil {
		return
	}
	for _, tr := range out.Tracks {
		for _, s := range tr.Samples {
			pl, err := s.GetPayload()
			vnd.Assert(err != nil || len(pl) == int(s.PayloadSize), "a payload has the size of its sample")
		}
	}
}

// Tracks that announce more samples than the documented maximum, in one or
// more runs, are rejected before memory is reserved for them.
//vh: prop=P34 case:n=1..4 case:first=0..3 case:any=0..1 merge=conc unwind=40000 reach=ok
func VH_PresLimit() {
	const max = 30 * 60 * 60 * 48
	n, first := vnd.Case("n"), uint32(vnd.Case("first"))
	w := &bwr{}
	o := w.start("stts")
	w.u32(0)
	w.u32(uint32(n))
	tot := uint32(0)
	for i := 0; i < n-1; i++ {
		w.u32(first)
		w.u32(vnd.U32("delta", i))
		tot += first
	}
	c := max - tot + 1
	if vnd.Case("any") == 1 {
		c = vnd.U32("c")
		vnd.Assume(c > max-tot)
	}
	w.u32(c)
	w.u32(vnd.U32("delta", n))
	w.end(o)
	b := presTables(w.b)
	vnd.AllocLimit(1 << 17)
	var out pmp4.Presentation
	err := out.Unmarshal(bytes.NewReader(b))
	vnd.Assert(err != nil, "a track with too many samples is rejected")
	vnd.Reach("ok")
}

// Sample tables in the usual order, with several entries.
//vh: prop=P33,P05,P34 quick:sc=1..2 quick:sz=0..3 quick:co=0..2 thorough:sc=1..3 thorough:sz=0..4 thorough:co=0..4 merge=conc
func VH_PresChunks() {
	w := &bwr{}
	o := w.start("stts")
	w.u32(0)
	w.u32(1)
	cnt := vnd.U32("samples")
	vnd.Assume(cnt <= 4)
	w.u32(cnt)
	w.u32(vnd.U32("delta"))
	w.end(o)
	w.table(2, vnd.Case("sc"), "sc")
	w.table(3, vnd.Case("sz"), "sz")
	w.table(4, vnd.Case("co"), "co")
	presRead(presTables(w.b))
}

// chunk layouts: samples per chunk
var layouts = [...][]int{{1}, {3}, {1, 1}, {2, 1}, {1, 2, 2}, {2, 2, 1}, {1, 1, 2}, {1, 2, 1}, {3, 3}, {2, 2, 2, 1, 1}, {1, 2, 2, 1}}

// Presentations of other producers, whose chunks are stored in any place and
// described by compressed tables, are read as ISO 14496-12 prescribes.
//vh: prop=P33 case:lay=0..10 case:split=0..1 case:ver=0..1 merge=conc reach=ok
func VH_PresForeign() {
	lay, split, ver := layouts[vnd.Case("lay")], vnd.Case("split"), uint32(vnd.Case("ver"))
	n := 0
	for _, c := range lay {
		n += c
	}
	var ss []presSample
	for i := 0; i < n; i++ {
		s := presSample{dur: vnd.U32("dur", i/2), non: i%3 != 0, pl: make([]byte, 1+i%3)}
		s.off = int32(vnd.U32("off", i/2))
		for k := range s.pl {
			s.pl[k] = vnd.Byte("pl", i, k)
		}
		ss = append(ss, s)
	}

	build := func(base int) *bwr {
		w := &bwr{}
		o := w.start("stts")
		w.u32(0)
		// entries are either one per sample or one per pair
		step := 1 + split
		w.u32(uint32((n + step - 1) / step))
		for i := 0; i < n; i += step {
			w.u32(uint32(min(step, n-i)))
			w.u32(ss[i].dur)
		}
		w.end(o)
		o = w.start("ctts")
		w.u32(ver << 24)
		w.u32(uint32((n + step - 1) / step))
		for i := 0; i < n; i += step {
			w.u32(uint32(min(step, n-i)))
			w.u32(uint32(ss[i].off))
		}
		w.end(o)
		if split == 1 {
			o = w.start("stsz")
			w.u32(0)
			w.u32(0)
			w.u32(uint32(n))
			for _, s := range ss {
				w.u32(uint32(len(s.pl)))
			}
			w.end(o)
		}
		o = w.start("stsc")
		w.u32(0)
		at := len(w.b)
		w.u32(0)
		cnt := 0
		for i, c := range lay {
			if i == 0 || split == 0 || c != lay[i-1] {
				w.u32(uint32(i + 1))
				w.u32(uint32(c))
				w.u32(1)
				cnt++
			}
		}
		w.patch(at, uint32(cnt))
		w.end(o)
		if split == 0 {
			o = w.start("stsz")
			w.u32(0)
			w.u32(0)
			w.u32(uint32(n))
			for _, s := range ss {
				w.u32(uint32(len(s.pl)))
			}
			w.end(o)
		}
		o = w.start("stco")
		w.u32(0)
		w.u32(uint32(len(lay)))
		// chunks are stored in reverse order, each followed by a gap
		pos := base + 8
		offs := make([]int, len(lay))
		e := n
		for i := len(lay) - 1; i >= 0; i-- {
			offs[i] = pos
			for _, s := range ss[e-lay[i] : e] {
				pos += len(s.pl)
			}
			pos++
			e -= lay[i]
		}
		for _, x := range offs {
			w.u32(uint32(x))
		}
		w.end(o)
		o = w.start("stss")
		w.u32(0)
		w.u32(uint32((n + 2) / 3))
		for i := 0; i < n; i += 3 {
			w.u32(uint32(i + 1))
		}
		w.end(o)
		return w
	}
	// the empty mdat of the template comes last
	base := len(presTables(build(0).b)) - 8
	b := presTables(build(base).b)
	w := &bwr{b: b[:base]}
	o := w.start("mdat")
	e := n
	for i := len(lay) - 1; i >= 0; i-- {
		for _, s := range ss[e-lay[i] : e] {
			w.b = append(w.b, s.pl...)
		}
		w.b = append(w.b, vnd.Byte("gap", i))
		e -= lay[i]
	}
	w.end(o)

	var out pmp4.Presentation
	err := out.Unmarshal(bytes.NewReader(w.b))
	vnd.Assert(err == nil, "presentations of other producers can be read")
	vnd.Assert(len(out.Tracks) == 1 && len(out.Tracks[0].Samples) == n, "sample count")
	for k, s := range ss {
		q := out.Tracks[0].Samples[k]
		if split == 1 {
			s.dur, s.off = ss[k&^1].dur, ss[k&^1].off
		}
		vnd.Assert(s.dur == q.Duration, "sample duration")
		vnd.Assert(s.off == q.PTSOffset, "sample composition offset")
		vnd.Assert(s.non == q.IsNonSyncSample, "sample sync flag")
		vnd.Assert(int(q.PayloadSize) == len(s.pl), "sample size")
		pl, err := q.GetPayload()
		vnd.Assert(err == nil && vnd.Eq(pl, s.pl), "sample payload")
	}
	vnd.Reach("ok")
}

// Presentations whose data does not fit in 32-bit sizes are rejected before
// sample data is requested.
//vh: prop=P33 quick:n=1..3 thorough:n=1..5 merge=conc reach=ok,big
func VH_PresTooBig() {
	n := vnd.Case("n")
	tr := &pmp4.Track{ID: 1, TimeScale: 1, Codec: &codecs.Opus{ChannelCount: 2}}
	asked := false
	total := uint64(0)
	for i := 0; i < n; i++ {
		sz := vnd.U32("size", i)
		total += uint64(sz)
		tr.Samples = append(tr.Samples, &pmp4.Sample{
			PayloadSize: sz,
			GetPayload: func() ([]byte, error) {
				asked = true
				return nil, errSeek
			},
		})
	}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{tr}}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err != nil, "failures are reported")
	if len(w.b) == 0 {
		vnd.Assert(!asked, "no data is requested")
		vnd.Assert(total > 0xffffffff-4096, "a presentation that fits is not rejected")
		vnd.Reach("big")
	} else {
		vnd.Assert(asked && err == errSeek, "errors of samples are returned")
		vnd.Assert(total+uint64(len(w.b)) <= 0xffffffff, "a presentation that does not fit is rejected")
		vnd.Reach("ok")
	}
}

// seekErr is a reader whose Seek method fails from a given call.
type seekErr struct {
	r    *bytes.Reader
	left int
}

var errSeek = errors.New("seek")

func (s *seekErr) Read(p []byte) (int, error) { return s.r.Read(p) }

func (s *seekErr) Seek(o int64, w int) (int64, error) {
	if s.left >= 0 {
		s.left--
		if s.left < 0 {
			return 0, errSeek
		}
	}
	return s.r.Seek(o, w)
}

// Errors of the underlying reader are reported when a payload is requested,
// and truncated files give errors instead of partial payloads.
//vh: prop=P33,P05 case:fail=0..2 case:cut=0..3 merge=conc reach=ok
func VH_PresReadErrors() {
	ss := []presSample{{dur: 1, pl: []byte{vnd.Byte("p0")}}, {dur: 1, pl: []byte{vnd.Byte("p1"), vnd.Byte("p2")}}}
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(1, 1, 0, &codecs.Opus{ChannelCount: 2}, ss)}}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	cut := vnd.Case("cut")
	r := &seekErr{r: bytes.NewReader(w.b[:len(w.b)-cut]), left: -1}
	var out pmp4.Presentation
	err = out.Unmarshal(r)
	vnd.Assert(err == nil, "a presentation can be read before its payloads")
	end := 3
	for i, s := range ss {
		q := out.Tracks[0].Samples[i]
		r.left = vnd.Case("fail") - 1
		pl, err := q.GetPayload()
		end -= len(s.pl)
		if r.left == -1 && vnd.Case("fail") != 0 || end < 0 {
			vnd.Assert(err != nil, "a failing seek is reported")
		}
		if err == nil {
			vnd.Assert(vnd.Eq(pl, s.pl), "sample payload")
		}
		if cut > 0 && i == 1 || cut > 2 {
			vnd.Assert(err != nil, "a missing payload is reported")
		} else if vnd.Case("fail") == 0 {
			vnd.Assert(err == nil, "a payload can be read")
		}
		r.left = -1
	}
	vnd.Reach("ok")
}
