package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// VH_SPSCut: a SPS with any optional parts and code lengths, cut at any byte, never makes the parser panic.
//
//vh: prop=P03 quick:o=0..63 thorough:o=0..511 merge=conc unwind=30000 steps=20000000
func VH_SPSCut() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var s h265.SPS
	sub := 0
	if o%3 == 1 {
		sub = o / 3 % 7
	}
	start(w, o, sub, o%4, &s)
	for _, f := range s.ProfileTierLevel.GeneralProfileCompatibilityFlag {
		vnd.Assume(f)
	}
	vnd.Assume(s.ProfileTierLevel.GeneralProfileIdc == uint8(1+o%4))
	middle(w, o, &s)
	n := o / 2 % 3
	w.UEv(uint32(n))
	for i := 0; i < n; i++ {
		if i != 0 {
			w.F(false)
		}
		explicitRPS(w, i, (o+i)%3, (o+3*i)/2%3)
	}
	end(w, o, &s)
	w.Trail()
	full := w.Escaped(2)
	for n := 0; n <= len(full); n++ {
		var d h265.SPS
		if d.Unmarshal(full[:n:n]) == nil {
			d.Width()
			d.Height()
			d.FPS()
		}
	}
}
