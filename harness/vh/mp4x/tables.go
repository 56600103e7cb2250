package mp4x

import (
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

type row struct {
	off, size int
	dur       uint32
	cto       int32
	sync      bool
}

// optional returns a box that can be missing.
func optional(b []byte, stbl boxPos, typ string) (boxPos, bool) {
	var out boxPos
	n := 0
	for _, p := range boxes(b, stbl.off+8, stbl.off+stbl.size) {
		if isBox(b, p, typ) {
			out = p
			n++
		}
	}
	vnd.Assert(n <= 1, "box "+typ+" is present twice")
	return out, n == 1
}

// entries returns the position and the number of the entries of a table.
func entries(b []byte, stbl boxPos, typ string, hdr, size int) (int, int) {
	p, ok := optional(b, stbl, typ)
	vnd.Assert(ok, "box "+typ+" is missing")
	n := int(be32(b, p.off+hdr-4))
	vnd.Assert(p.size == hdr+n*size, "size of "+typ)
	return p.off + hdr, n
}

// expand reads sample tables as ISO 14496-12 prescribes.
func expand(b []byte, stbl boxPos) []row {
	var out []row
	o, n := entries(b, stbl, "stts", 16, 8)
	for i := 0; i < n; i++ {
		c := int(be32(b, o+8*i))
		vnd.Assert(c > 0, "stts entry without samples")
		for ; c > 0; c-- {
			out = append(out, row{dur: be32(b, o+8*i+4), sync: true})
		}
	}
	if _, ok := optional(b, stbl, "stss"); ok {
		for i := range out {
			out[i].sync = false
		}
		o, n = entries(b, stbl, "stss", 16, 4)
		prev := 0
		for i := 0; i < n; i++ {
			k := int(be32(b, o+4*i))
			vnd.Assert(k > prev && k <= len(out), "sync sample number")
			out[k-1].sync = true
			prev = k
		}
	}
	if p, ok := optional(b, stbl, "ctts"); ok {
		vnd.Assert(b[p.off+8] <= 1, "version of ctts")
		o, n = entries(b, stbl, "ctts", 16, 8)
		k := 0
		for i := 0; i < n; i++ {
			for c := int(be32(b, o+8*i)); c > 0; c-- {
				vnd.Assert(k < len(out), "ctts has too many samples")
				v := be32(b, o+8*i+4)
				vnd.Assert(b[p.off+8] == 1 || v < 1<<31, "composition offset")
				out[k].cto = int32(v)
				k++
			}
		}
		vnd.Assert(k == len(out), "ctts has too few samples")
	}
	o, n = entries(b, stbl, "stsz", 20, 4)
	vnd.Assert(n == len(out) && be32(b, o-8) == 0, "stsz")
	for i := range out {
		out[i].size = int(be32(b, o+4*i))
	}
	co, chunks := entries(b, stbl, "stco", 16, 4)
	o, n = entries(b, stbl, "stsc", 16, 12)
	k := 0
	for i := 0; i < n; i++ {
		first := int(be32(b, o+12*i))
		vnd.Assert(i > 0 || first == 1, "the first chunk is described")
		next := chunks + 1
		if i < n-1 {
			next = int(be32(b, o+12*i+12))
		}
		vnd.Assert(next > first && next <= chunks+1, "chunk numbers")
		vnd.Assert(be32(b, o+12*i+8) == 1, "sample description")
		for c := first; c < next; c++ {
			at := int(be32(b, co+4*(c-1)))
			for s := int(be32(b, o+12*i+4)); s > 0; s-- {
				vnd.Assert(k < len(out), "chunks have too many samples")
				out[k].off = at
				at += out[k].size
				k++
			}
		}
	}
	vnd.Assert(k == len(out), "chunks have too few samples")
	return out
}

// VH_DescTables: sample tables give each sample its properties and position, and samples fill the media data.
//
//vh: prop=P42 quick:n=0..4 thorough:n=0..6 quick:m=0,3 thorough:m=0..5 case:sym=0..3 case:z=0..1 merge=conc reach=ok
func VH_DescTables() {
	describe(vnd.Case("n"), vnd.Case("m"), vnd.Case("sym"), vnd.Case("z"), func(t, i int) uint32 { return uint32(10 + 7*t + i/2) })
	vnd.Reach("ok")
}

// VH_DescChunks: the same, with the samples of tracks interleaved in many ways.
//
//vh: prop=P42 case:n=1..6 case:m=1..6 case:pat=0..4 quick:z=0 thorough:z=0..1 merge=conc reach=ok
func VH_DescChunks() {
	pat := vnd.Case("pat")
	describe(vnd.Case("n"), vnd.Case("m"), 3, vnd.Case("z"), func(t, i int) uint32 {
		switch pat {
		case 0:
			return 10
		case 1:
			return uint32(10 + 10*t)
		case 2:
			return uint32(10 * (1 + (t+i)%2))
		case 3:
			return uint32(10 * (1 + (t+i/2)%2*2))
		}
		return uint32(10 * (1 + (i*i+t)%3))
	})
	vnd.Reach("ok")
}

func describe(n, m, sym, z int, durOf func(t, i int) uint32) {
	nn := [2]int{n, m}
	in := &pmp4.Presentation{}
	var all [][]presSample
	total := 0
	for t := 0; t < 2; t++ {
		var ss []presSample
		for i := 0; i < nn[t]; i++ {
			s := presSample{dur: durOf(t, i), off: int32(5 * (i % 2)), non: i%3 == 1, pl: make([]byte, 1+(t+i)%3)}
			if z == 1 && i%2 == 1 {
				s.pl = nil
			}
			if t == 0 {
				switch sym {
				case 0:
					if nn[1] == 0 {
						s.dur = vnd.U32("dur", i)
					}
				case 1:
					s.off = int32(vnd.U32("off", i))
				case 2:
					s.non = vnd.Bool("non", i)
				}
			}
			for k := range s.pl {
				s.pl[k] = vnd.Byte("pl", t, i, k)
			}
			total += len(s.pl)
			ss = append(ss, s)
		}
		all = append(all, ss)
		var c codecs.Codec = &codecs.Opus{ChannelCount: 2}
		if t == 0 {
			c = &codecs.MJPEG{Width: 640, Height: 480}
		}
		in.Tracks = append(in.Tracks, presTrack(t+1, 1000, int32(t*5), c, ss))
	}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	b := w.b
	root := boxes(b, 0, len(b))
	vnd.Assert(len(root) == 3 && isBox(b, root[1], "moov") && isBox(b, root[2], "mdat"), "root boxes")
	mdat := root[2]
	vnd.Assert(mdat.size == 8+total, "the media data holds the samples only")
	used := make([]bool, total)
	for t := 0; t < 2; t++ {
		trak := child(b, root[1], 0, 1+t, "trak")
		stbl := child(b, child(b, child(b, trak, 0, 2, "mdia"), 0, 2, "minf"), 0, 2, "stbl")
		rows := expand(b, stbl)
		vnd.Assert(len(rows) == nn[t], "number of samples")
		for i, r := range rows {
			s := all[t][i]
			vnd.Assert(r.dur == s.dur, "duration of a sample")
			vnd.Assert(r.cto == s.off, "composition offset of a sample")
			vnd.Assert(r.sync == !s.non, "sync flag of a sample")
			vnd.Assert(r.size == len(s.pl), "size of a sample")
			vnd.Assert(r.off >= mdat.off+8 && r.off+r.size <= len(b), "position of a sample")
			vnd.Assert(vnd.Eq(b[r.off:r.off+r.size], s.pl), "payload of a sample")
			for k := 0; k < r.size; k++ {
				vnd.Assert(!used[r.off-mdat.off-8+k], "samples overlap")
				used[r.off-mdat.off-8+k] = true
			}
		}
	}
}

// VH_DescDurations: durations of tracks and of the presentation are the ones of samples and offset.
//
//vh: prop=P42 case:n=0..2 case:ts=0..3 merge=conc reach=ok
func VH_DescDurations() {
	n := vnd.Case("n")
	ts := []uint32{1, 1000, 48000, 90000}[vnd.Case("ts")]
	sum := int64(0)
	var ss []presSample
	for i := 0; i < n; i++ {
		s := presSample{dur: uint32(vnd.Bits("dur", 10, i)), pl: []byte{1}}
		sum += int64(s.dur)
		ss = append(ss, s)
	}
	to := int64(vnd.Bits("to", 11)) - 1<<10
	vnd.Assume(sum+to >= 0)
	to2 := int64(vnd.Bits("to2", 11))
	in := &pmp4.Presentation{Tracks: []*pmp4.Track{
		presTrack(1, ts, int32(to), &codecs.Opus{ChannelCount: 2}, ss),
		presTrack(2, 44100, int32(to2), &codecs.Opus{ChannelCount: 2}, nil),
	}}
	var w sink
	err := in.Marshal(&w)
	vnd.Assert(err == nil, "a presentation can be written")
	b := w.b
	root := boxes(b, 0, len(b))
	max := int64(0)
	for t, d := range []int64{sum + to, to2} {
		trak := child(b, root[1], 0, 1+t, "trak")
		pd := int64(be32(b, child(b, trak, 0, 0, "tkhd").off+28))
		s := []int64{int64(ts), 44100}[t]
		vnd.Assert(vnd.And(pd*s <= d*1000, d*1000 < (pd+1)*s), "duration of a track in the time scale of the presentation")
		vnd.Assert(int64(be32(b, child(b, child(b, trak, 0, 2, "mdia"), 0, 0, "mdhd").off+24)) == d, "duration of a track")
		max = int64(vnd.Ite(pd > max, uint64(pd), uint64(max)))
	}
	vnd.Assert(int64(be32(b, child(b, root[1], 0, 0, "mvhd").off+24)) == max, "duration of the presentation")
	vnd.Reach("ok")
}

var errDst = errors.New("destination error")

// flaky is a destination that fails from a given operation on (go-mp4 loses errors of single one-byte writes).
type flaky struct {
	seekablebuffer.Buffer
	n, at int
}

func (f *flaky) step() bool {
	f.n++
	return f.at >= 0 && f.n-1 >= f.at
}

func (f *flaky) Write(p []byte) (int, error) {
	if f.step() {
		return 0, errDst
	}
	return f.Buffer.Write(p)
}

func (f *flaky) Seek(o int64, w int) (int64, error) {
	if f.step() {
		return 0, errDst
	}
	return f.Buffer.Seek(o, w)
}

// VH_DescErrors: errors of the destination and of sample providers are returned, wherever they happen.
//
//vh: prop=P42 case:what=0..2 case:kind=0..13 merge=none unwind=20000 steps=60000000 reach=ok
func VH_DescErrors() {
	what, kind := vnd.Case("what"), vnd.Case("kind")
	c := plainCodec(kind)
	failGet := -1
	run := func(w io.WriteSeeker) error {
		switch what {
		case 0:
			return fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 1000, Codec: c}, {ID: 2, TimeScale: 1000, Codec: c}}}.Marshal(w)
		case 1:
			ps := fmp4.Parts{mkFixedPart(1, 1+kind%3), mkFixedPart(2, 1)}
			return ps.Marshal(w)
		default:
			p := pmp4.Presentation{}
			for t := 0; t < 2; t++ {
				tr := &pmp4.Track{ID: 1 + t, TimeScale: 1000, Codec: c}
				for i := 0; i < 1+kind%3; i++ {
					tr.Samples = append(tr.Samples, &pmp4.Sample{Duration: 1, PayloadSize: 2, GetPayload: func() ([]byte, error) {
						failGet--
						if failGet == -1 {
							return nil, errDst
						}
						return []byte{1, 2}, nil
					}})
				}
				p.Tracks = append(p.Tracks, tr)
			}
			return p.Marshal(w)
		}
	}
	ref := &flaky{at: -1}
	vnd.Assert(run(ref) == nil, "what is valid can be written")
	at, get := -1, -1
	if what == 2 && vnd.Bool("provider") {
		get = vnd.Int("get", 0, 2*(1+kind%3)-1)
	} else {
		at = vnd.Int("at", 0, ref.n-1)
	}
	failGet = get
	err := run(&flaky{at: at})
	vnd.Assert(err != nil, "an error of the destination or of a sample provider is not returned")
	vnd.Reach("ok")
}

func mkFixedPart(seq uint32, n int) *fmp4.Part {
	p := &fmp4.Part{SequenceNumber: seq}
	for t := 0; t < 2; t++ {
		tr := &fmp4.PartTrack{ID: 1 + t, BaseTime: 5}
		for i := 0; i < n; i++ {
			tr.Samples = append(tr.Samples, &fmp4.Sample{Duration: 1, Payload: []byte{1, 2, 3}})
		}
		p.Tracks = append(p.Tracks, tr)
	}
	return p
}
