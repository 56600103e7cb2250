package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// VH_SPSTail: arbitrary bytes following a valid SPS beginning that ends at different syntax elements: no panic, no hang, bounded
// memory.
//
//vh: prop=P03,P34 case:stage=0..11 quick:n=0..2 thorough:n=0..4 case:off=0,1 merge=conc
func VH_SPSTail() {
	stage := vnd.Case("stage")
	w := &bw.W{}
	w.U(0x42, 8)
	w.U(1, 8)
	sub := 0
	if stage == 11 {
		sub = 2
	}
	w.U(1<<4|uint64(sub)<<1|1, 8)
	w.U(0x01, 8)
	w.U(0x60606060, 32)
	w.U(0x606060606060, 48)
	w.U(90, 8)
	if vnd.Case("off") == 0 {
		w.UEv(0)
	} else {
		w.UEv(6)
	}
	if stage != 11 {
		body(w, stage)
	} else {
		w.Pos -= w.Pos & 7
		w.Buf = w.Buf[:w.Pos/8]
	}
	for w.Pos&7 != 0 {
		w.V(vnd.Bits("fill", 1, w.Pos), 1)
	}
	buf := append(w.Buf, vnd.Bytes("buf", vnd.Case("n"))...)
	vnd.AllocLimit(32768 + 64*len(buf))
	var s h265.SPS
	if s.Unmarshal(buf) == nil {
		s.Width()
		s.Height()
		s.FPS()
	}
}

func body(w *bw.W, stage int) {
	if stage == 0 {
		return
	}
	w.UEv(3)
	w.F(false)
	w.UEv(1920)
	w.UEv(1080)
	if stage == 1 {
		return
	}
	w.F(true)
	if stage == 2 {
		return
	}
	for i := 0; i < 4; i++ {
		w.UEv(1)
	}
	w.UEv(0)
	w.UEv(0)
	w.UEv(0)
	w.F(true)
	for i := 0; i < 3+6; i++ {
		w.UEv(1)
	}
	if stage == 3 { // scaling list
		w.F(true)
		w.F(true)
		return
	}
	w.F(false)
	w.F(false)
	w.F(false)
	if stage == 4 { // pcm
		w.F(true)
		return
	}
	w.F(false)
	switch stage {
	case 5: // one set
		w.UEv(1)
		return
	case 6: // inter-predicted set
		w.UEv(2)
		explicitVal(w, 1, 1, 0)
		w.F(true)
		return
	case 7: // inter-predicted from inter-predicted
		w.UEv(3)
		explicitVal(w, 2, 0, 0)
		w.F(true)
		w.F(true)
		w.UEv(0)
		w.F(true)
		w.F(true)
		w.F(true)
		w.F(true)
		return
	}
	w.UEv(0)
	if stage == 8 {
		return
	}
	w.F(false)
	w.F(false)
	w.F(false)
	w.F(true)
	if stage == 9 { // vui
		return
	}
	w.U(0, 8)
	w.F(true)
	w.U(1, 32)
	w.U(50, 32)
}
