package mp4x

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// Presentations that are cut at any byte give an error, or errors for the samples that are cut.
//vh: prop=P05,P33 case:part=0..3 case:tracks=1..2 merge=conc unwind=4000 steps=20000000 reach=ok
func VH_PresCut() {
	var in pmp4.Presentation
	var all [][]presSample
	for t := 0; t < vnd.Case("tracks"); t++ {
		ss := []presSample{
			{dur: 10, pl: []byte{vnd.Byte("a", t)}},
			{dur: 20, off: 5, non: true, pl: []byte{vnd.Byte("b", t), vnd.Byte("c", t)}},
			{dur: 5, pl: []byte{vnd.Byte("d", t)}},
		}
		all = append(all, ss)
		in.Tracks = append(in.Tracks, presTrack(t+1, 90000, 0, &codecs.Opus{ChannelCount: 2}, ss))
	}
	var s sink
	vnd.Assert(in.Marshal(&s) == nil, "a presentation can be written")
	for n := vnd.Case("part"); n < len(s.b); n += 4 {
		var out pmp4.Presentation
		if out.Unmarshal(bytes.NewReader(s.b[:n:n])) != nil {
			continue
		}
		for t, tr := range out.Tracks {
			vnd.Assert(len(tr.Samples) == len(all[t]), "sample count")
			for k, q := range tr.Samples {
				pl, err := q.GetPayload()
				vnd.Assert(err != nil || vnd.Eq(pl, all[t][k].pl), "a sample that is read is complete")
			}
		}
		vnd.Reach("ok")
	}
}
