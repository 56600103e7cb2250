package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// VH_SPSCut: a SPS with any optional parts and code lengths, cut at any byte, never makes the parser panic.
//
//vh: prop=P03 quick:o=0..39 thorough:o=0..255 case:high=0,1 merge=conc unwind=4000
func VH_SPSCut() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var s h264.SPS
	if vnd.Case("high") == 1 {
		header(w, 100, &s)
		w.UEv(1)
		w.UE("bdl")
		w.UE("bdc")
		w.F(false)
		if bw.Opt(o, 30) {
			w.F(true)
			for i := 0; i < 8; i++ {
				w.F(bw.Opt(o, 31+i))
				if bw.Opt(o, 31+i) {
					scaling(w, i, 16+i/6*48, o/8%4*5)
				}
			}
		} else {
			w.F(false)
		}
	} else {
		header(w, 77, &s)
	}
	tail(w, o, o/3%3, &s)
	w.Trail()
	full := w.Escaped(1)
	for n := 0; n <= len(full); n++ {
		var d h264.SPS
		if d.Unmarshal(full[:n:n]) == nil {
			d.Width()
			d.Height()
			d.FPS()
		}
	}
}
