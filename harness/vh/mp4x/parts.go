package mp4x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
)

func mkPart(name string, tracks, n, size int) *fmp4.Part {
	p := &fmp4.Part{SequenceNumber: vnd.U32(name + ".seq")}
	for t := 0; t < tracks; t++ {
		tr := &fmp4.PartTrack{
			ID:       int(vnd.U32(name+".id", t)),
			BaseTime: vnd.U64(name+".base", t),
		}
		for i := 0; i < n; i++ {
			pl := make([]byte, size)
			for k := range pl {
				pl[k] = vnd.Byte(name+".pl", t, i, k)
			}
			s := &fmp4.Sample{
				Duration:        vnd.U32(name+".dur", t, i),
				PTSOffset:       int32(vnd.U32(name+".off", t, i)),
				IsNonSyncSample: vnd.Bool(name+".non", t, i),
				Payload:         pl,
			}
			if bw.Fixed() {
				s.PTSOffset, s.IsNonSyncSample = int32(5*(1-t)), i == 1
			}
			tr.Samples = append(tr.Samples, s)
		}
		p.Tracks = append(p.Tracks, tr)
	}
	return p
}

func samePart(a, b *fmp4.Part) {
	vnd.Assert(a.SequenceNumber == b.SequenceNumber, "sequence number")
	vnd.Assert(len(a.Tracks) == len(b.Tracks), "track count")
	for t := range a.Tracks {
		x, y := a.Tracks[t], b.Tracks[t]
		vnd.Assert(x.ID == y.ID, "track id")
		vnd.Assert(x.BaseTime == y.BaseTime, "base time")
		vnd.Assert(len(x.Samples) == len(y.Samples), "sample count")
		for i := range x.Samples {
			p, q := x.Samples[i], y.Samples[i]
			vnd.Assert(p.Duration == q.Duration, "sample duration")
			vnd.Assert(p.PTSOffset == q.PTSOffset, "sample PTS offset")
			vnd.Assert(p.IsNonSyncSample == q.IsNonSyncSample, "sample sync flag")
			vnd.Assert(vnd.Eq(p.Payload, q.Payload), "sample payload")
		}
	}
}

// parts, tracks per part, samples per track
var shapes = [...][3]int{
	{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {1, 2, 1}, {2, 1, 1}, {1, 1, 3}, {1, 2, 2}, {2, 1, 2},
	{1, 1, 6}, {1, 2, 3}, {1, 3, 1}, {3, 1, 1}, {2, 2, 1}, {1, 3, 2},
}

type boxPos struct{ off, size int }

func be32(b []byte, o int) uint32 {
	return uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3])
}

// boxes splits a region into boxes, checking that they tile it exactly.
func boxes(b []byte, start, end int) []boxPos {
	var out []boxPos
	for start < end {
		vnd.Assert(end-start >= 8, "box header fits")
		n := int(be32(b, start))
		vnd.Assert(n >= 8 && n <= end-start, "box size fits")
		out = append(out, boxPos{start, n})
		start += n
	}
	vnd.Assert(start == end, "boxes tile their parent")
	return out
}

func isBox(b []byte, p boxPos, typ string) bool {
	return b[p.off+4] == typ[0] && b[p.off+5] == typ[1] && b[p.off+6] == typ[2] && b[p.off+7] == typ[3]
}

// The written form of a part has the documented box structure, and the data
// offsets of its runs address the payloads of the samples.
//vh: prop=P31 quick:shape=1..8 thorough:shape=1..14 quick:size=0,3 thorough:size=0,1,5 merge=conc reach=ok
func VH_PartsStructure() {
	sh, size := shapes[vnd.Case("shape")], vnd.Case("size")
	np, tracks, n := sh[0], sh[1], sh[2]
	var ps fmp4.Parts
	for i := 0; i < np; i++ {
		ps = append(ps, mkPart("p"+string(rune('0'+i)), tracks, n, size))
	}
	var buf seekablebuffer.Buffer
	err := ps.Marshal(&buf)
	vnd.Assert(err == nil, "parts can be encoded")
	b := buf.Bytes()

	root := boxes(b, 0, len(b))
	vnd.Assert(len(root) == 2*np, "a moof and a mdat per part")
	for i, p := range ps {
		moof, mdat := root[2*i], root[2*i+1]
		vnd.Assert(isBox(b, moof, "moof") && isBox(b, mdat, "mdat"), "order of moof and mdat")
		in := boxes(b, moof.off+8, moof.off+moof.size)
		vnd.Assert(len(in) == 1+len(p.Tracks), "content of moof")
		vnd.Assert(isBox(b, in[0], "mfhd") && in[0].size == 16, "mfhd")
		vnd.Assert(be32(b, in[0].off+12) == p.SequenceNumber, "sequence number in mfhd")
		vnd.Assert(mdat.size == 8+tracks*n*size, "mdat holds the payloads only")
		next := mdat.off + 8
		for t, tr := range p.Tracks {
			vnd.Assert(isBox(b, in[1+t], "traf"), "traf")
			tb := boxes(b, in[1+t].off+8, in[1+t].off+in[1+t].size)
			vnd.Assert(len(tb) == 3, "content of traf")
			vnd.Assert(isBox(b, tb[0], "tfhd") && isBox(b, tb[1], "tfdt") && isBox(b, tb[2], "trun"), "tfhd, tfdt, trun")

			// default-base-is-moof, no other optional field
			vnd.Assert(be32(b, tb[0].off+8) == 0x020000 && tb[0].size == 16, "tfhd flags")
			vnd.Assert(be32(b, tb[0].off+12) == uint32(tr.ID), "track id in tfhd")
			vnd.Assert(be32(b, tb[1].off+8) == 0x01000000 && tb[1].size == 20, "tfdt version")
			vnd.Assert(uint64(be32(b, tb[1].off+12))<<32|uint64(be32(b, tb[1].off+16)) == tr.BaseTime, "base time in tfdt")

			o := tb[2].off
			vnd.Assert(b[o+8] == 1, "trun version")
			fl := be32(b, o+8) & 0xffffff
			vnd.Assert(int(be32(b, o+12)) == len(tr.Samples), "sample count in trun")
			vnd.Assert(vnd.And(fl&0x301 == 0x301, fl&^0xf01 == 0), "trun flags")
			at := o + 16
			pos := moof.off + int(int32(be32(b, at)))
			vnd.Assert(pos == next, "data offset addresses the payloads of the track")
			at += 4
			for _, s := range tr.Samples {
				vnd.Assert(be32(b, at) == s.Duration, "duration in trun")
				vnd.Assert(int(be32(b, at+4)) == len(s.Payload), "size in trun")
				at += 8
				if fl&0x400 != 0 {
					vnd.Assert((be32(b, at)&0x10000 != 0) == s.IsNonSyncSample, "sync flag in trun")
					at += 4
				} else {
					vnd.Assert(!s.IsNonSyncSample, "flags are present when needed")
				}
				if fl&0x800 != 0 {
					vnd.Assert(int32(be32(b, at)) == s.PTSOffset, "composition offset in trun")
					at += 4
				} else {
					vnd.Assert(s.PTSOffset == 0, "composition offset is present when needed")
				}
				vnd.Assert(vnd.Eq(b[next:next+len(s.Payload)], s.Payload), "payload at the addressed position")
				next += len(s.Payload)
			}
			vnd.Assert(at == tb[2].off+tb[2].size, "trun is filled exactly")
		}
	}
	vnd.Reach("ok")
}

// Encoding then decoding parts returns them unchanged.
//vh: prop=P31 quick:shape=0..8 thorough:shape=0..14 quick:size=0,3 thorough:size=0,1,5 merge=conc reach=ok
func VH_PartsRoundTrip() {
	sh, size := shapes[vnd.Case("shape")], vnd.Case("size")
	np, tracks, n := sh[0], sh[1], sh[2]
	var ps fmp4.Parts
	for i := 0; i < np; i++ {
		ps = append(ps, mkPart("p"+string(rune('0'+i)), tracks, n, size))
	}
	bw.In(ps)
	var buf seekablebuffer.Buffer
	err := ps.Marshal(&buf)
	vnd.Assert(err == nil, "parts can be encoded")

	var out fmp4.Parts
	bw.Out(buf.Bytes())
	err = out.Unmarshal(buf.Bytes())
	vnd.Assert(err == nil, "encoded parts can be decoded")
	vnd.Assert(len(out) == len(ps), "part count")
	for i := range ps {
		samePart(ps[i], out[i])
	}
	bw.Out(out)
	vnd.Reach("ok")
}
