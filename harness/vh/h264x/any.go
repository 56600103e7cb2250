package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// VH_SPSTail: arbitrary bytes following a valid SPS beginning that ends at different syntax elements: no panic, no hang, bounded
// memory.
//
//vh: prop=P03,P34 case:stage=0..8 quick:n=0..2 thorough:n=0..4 case:off=0,1 merge=conc
func VH_SPSTail() {
	stage := vnd.Case("stage")
	w := &bw.W{}
	w.U(0x67, 8)
	w.U(100, 8)
	w.U(0, 8)
	w.U(30, 8)
	if vnd.Case("off") == 0 {
		w.UEv(0)
	} else {
		w.UEv(6)
	}
	tailBody(w, stage)
	for w.Pos&7 != 0 {
		w.V(vnd.Bits("fill", 1, w.Pos), 1)
	}
	n := vnd.Case("n")
	if n == 2 && stage < 2 && vnd.Case("off") == 0 { // left to the thorough tier
		n = 1
	}
	buf := append(w.Buf, vnd.Bytes("buf", n)...)
	vnd.AllocLimit(8192 + 64*len(buf))
	var s h264.SPS
	if s.Unmarshal(buf) == nil {
		s.Width()
		s.Height()
		s.FPS()
	}
}

func tailBody(w *bw.W, stage int) {
	if stage == 0 {
		return
	}
	if stage == 1 {
		w.UEv(3)
		w.F(false)
	} else {
		w.UEv(1)
	}
	w.UEv(0)
	w.UEv(0)
	w.F(false)
	if stage == 1 { // scaling matrix
		w.F(true)
		return
	}
	w.F(false)
	w.UEv(0)
	if stage == 2 {
		w.UEv(1) // poc type 1
		w.F(false)
		w.SEv(0)
		w.SEv(0)
		return
	}
	w.UEv(2)
	w.UEv(4)
	w.F(false)
	w.UEv(119)
	w.UEv(67)
	w.F(true)
	w.F(true)
	if stage == 3 { // cropping
		w.F(true)
		return
	}
	w.F(false)
	w.F(true)
	if stage == 4 { // vui
		return
	}
	w.U(0, 4)
	if stage == 5 { // timing
		w.F(true)
		return
	}
	w.F(false)
	w.F(true)
	if stage == 6 { // hrd
		return
	}
	w.UEv(1)
	w.U(0, 8)
	if stage == 7 {
		return
	}
	for i := 0; i < 2; i++ {
		w.UEv(1)
		w.UEv(1)
		w.F(true)
	}
	w.U(0x12345, 20)
}
