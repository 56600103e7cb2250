package mp4x

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// Decoding parts into a list that holds parts of a previous decoding returns the
// new parts only.
//
//vh: prop=P35 case:t1=1..2 case:n1=0,2 case:t2=1..2 case:n2=0..2 case:cut=0..1 merge=conc reach=ok
func VH_ReuseParts() {
	pa := &fmp4.Part{SequenceNumber: 77}
	for t := 0; t < vnd.Case("t1"); t++ {
		tr := &fmp4.PartTrack{ID: 10 + t, BaseTime: 123456}
		for i := 0; i < vnd.Case("n1"); i++ {
			tr.Samples = append(tr.Samples, &fmp4.Sample{Duration: 3000, PTSOffset: 500, IsNonSyncSample: i != 0, Payload: []byte{9, 8}})
		}
		pa.Tracks = append(pa.Tracks, tr)
	}
	a := fmp4.Parts{pa}
	b := fmp4.Parts{mkPart("b", vnd.Case("t2"), vnd.Case("n2"), 3)}
	var ba, bb seekablebuffer.Buffer
	err := a.Marshal(&ba)
	vnd.Assert(err == nil, "parts can be written")
	err = b.Marshal(&bb)
	vnd.Assert(err == nil, "parts can be written")
	var ps fmp4.Parts
	if vnd.Case("cut") == 1 { // a decoding that fails after the first boxes
		x := ba.Bytes()
		err = ps.Unmarshal(x[:60])
		vnd.Assert(err != nil, "truncated parts are rejected")
	} else {
		err = ps.Unmarshal(ba.Bytes())
		vnd.Assert(err == nil, "parts can be read")
	}
	err = ps.Unmarshal(bb.Bytes())
	vnd.Assert(err == nil, "parts can be read into a list that is not empty")
	vnd.Assert(len(ps) == 1, "parts of the previous decoding are not kept")
	samePart(b[0], ps[0])
	vnd.Reach("ok")
}

// Decoding an initialization segment into one that has already been used returns the
// new tracks and user data only.
//
//vh: prop=P35 quick:codec=0..13 quick:step=5 thorough:codec=0..13 thorough:step=0..13 case:cut=0..1 merge=conc reach=ok
func VH_ReuseInit() {
	k := vnd.Case("codec")
	a := oneTrack(k)
	b := plainInit((k + vnd.Case("step")) % codecCount)
	var out, fresh fmp4.Init
	if vnd.Case("cut") == 1 {
		path := findBox(a, "moov", "trak", "mdia", "minf", "stbl", "stsd")
		err := out.Unmarshal(bytes.NewReader(a[:path[5].off+20]))
		vnd.Assert(err != nil, "truncated segments are rejected")
	} else {
		err := out.Unmarshal(bytes.NewReader(a))
		vnd.Assert(err == nil, "a segment can be read")
	}
	err := fresh.Unmarshal(bytes.NewReader(b))
	vnd.Assert(err == nil, "a segment can be read")
	err = out.Unmarshal(bytes.NewReader(b))
	vnd.Assert(err == nil, "a segment can be read into a used structure")
	vnd.Assert(len(out.Tracks) == 1 && len(out.UserData) == 0, "tracks of the previous decoding are not kept")
	sameInit(&fresh, &out)
	vnd.Reach("ok")
}

// Decoding a presentation into one that has already been used returns the new tracks only.
//
//vh: prop=P35 case:n1=0..2 case:n2=0..2 case:cut=0..1 merge=conc reach=ok
func VH_ReusePresentation() {
	mk := func(nm string, n int) (*pmp4.Presentation, []byte, []presSample) {
		var ss []presSample
		for i := 0; i < n; i++ {
			ss = append(ss, presSample{dur: vnd.U32(nm+"dur", i), off: int32(vnd.U32(nm+"off", i)), non: vnd.Bool(nm+"non", i), pl: symBytes(nm+"pl", i+1)})
		}
		in := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(int(vnd.U32(nm+"id")), 1, 0, &codecs.Opus{ChannelCount: 2}, ss)}}
		var w sink
		err := in.Marshal(&w)
		vnd.Assert(err == nil, "a presentation can be written")
		return in, w.b, ss
	}
	var sa []presSample
	for i := 0; i < vnd.Case("n1"); i++ {
		sa = append(sa, presSample{dur: 7, off: 3, non: i != 0, pl: []byte{1, 2}})
	}
	pa := &pmp4.Presentation{Tracks: []*pmp4.Track{presTrack(9, 1000, 5, plainCodec(3), sa), presTrack(8, 1000, 0, plainCodec(9), sa)}}
	var wa sink
	err := pa.Marshal(&wa)
	vnd.Assert(err == nil, "a presentation can be written")
	a := wa.b
	b, bb, ss := mk("b", vnd.Case("n2"))
	var out pmp4.Presentation
	if vnd.Case("cut") == 1 {
		path := findBox(a, "moov", "trak", "mdia", "minf", "stbl", "stsd")
		err := out.Unmarshal(bytes.NewReader(a[:path[5].off+20]))
		vnd.Assert(err != nil, "truncated presentations are rejected")
	} else {
		err := out.Unmarshal(bytes.NewReader(a))
		vnd.Assert(err == nil, "a presentation can be read")
	}
	err = out.Unmarshal(bytes.NewReader(bb))
	vnd.Assert(err == nil, "a presentation can be read into a used structure")
	vnd.Assert(len(out.Tracks) == 1, "tracks of the previous decoding are not kept")
	vnd.Assert(out.Tracks[0].ID == b.Tracks[0].ID, "track id")
	vnd.Assert(len(out.Tracks[0].Samples) == len(ss), "sample count")
	for i, s := range ss {
		q := out.Tracks[0].Samples[i]
		vnd.Assert(q.Duration == s.dur && q.PTSOffset == s.off && q.IsNonSyncSample == s.non, "sample")
		pl, err := q.GetPayload()
		vnd.Assert(err == nil && vnd.Eq(pl, s.pl), "sample payload")
	}
	vnd.Reach("ok")
}
