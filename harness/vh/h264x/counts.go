package h264x

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
)

// VH_SPSCounts: lists of any length that the specification allows (255 offsets per cycle, 32 buffers) are decoded.
//
//vh: prop=P10 case:cyc=0,1,16,127,254,255 case:cpb=0,1,2,31,32 merge=conc reach=ok
func VH_SPSCounts() {
	cyc, cpb := vnd.Case("cyc"), vnd.Case("cpb")
	w := &bw.W{}
	var s h264.SPS
	header(w, 77, &s)
	s.ChromaFormatIdc = 1
	s.Log2MaxFrameNumMinus4 = w.UEmax(3, "lmf")
	w.UEv(1)
	s.PicOrderCntType = 1
	s.DeltaPicOrderAlwaysZeroFlag = w.Flag("dpz")
	s.OffsetForNonRefPic = w.SEmax(3, "onr")
	s.OffsetForTopToBottomField = w.SEmax(3, "otb")
	w.UEv(uint32(cyc))
	for i := 0; i < cyc; i++ {
		v := int32(i%7) - 3
		if i == 0 || i == cyc-1 {
			v = w.SEmax(5, "orf", i)
		} else {
			w.SEv(v)
		}
		s.OffsetForRefFrames = append(s.OffsetForRefFrames, v)
	}
	s.MaxNumRefFrames = w.UEmax(4, "mnf")
	s.GapsInFrameNumValueAllowedFlag = w.Flag("gap")
	s.PicWidthInMbsMinus1 = w.UEmax(7, "wid")
	s.PicHeightInMapUnitsMinus1 = w.UEmax(7, "hei")
	s.FrameMbsOnlyFlag = true
	w.F(true)
	s.Direct8x8InferenceFlag = w.Flag("d88")
	w.F(false)
	if cpb == 0 {
		w.F(false)
		checkSPS(w, &s)
		return
	}
	w.F(true)
	v := &h264.SPS_VUI{}
	for i := 0; i < 5; i++ { // aspect ratio, overscan, video signal, chroma location, timing
		w.F(false)
	}
	w.F(true)
	h := &h264.SPS_HRD{CpbCntMinus1: uint32(cpb - 1)}
	w.UEv(h.CpbCntMinus1)
	h.BitRateScale = uint8(w.Bits(4, "brs"))
	h.CpbSizeScale = uint8(w.Bits(4, "css"))
	for i := 0; i < cpb; i++ {
		h.BitRateValueMinus1 = append(h.BitRateValueMinus1, w.UEmax(3, "brv", i))
		h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, w.UEmax(3, "csv", i))
		h.CbrFlag = append(h.CbrFlag, w.Flag("cbr", i))
	}
	h.InitialCpbRemovalDelayLengthMinus1 = uint8(w.Bits(5, "icr"))
	h.CpbRemovalDelayLengthMinus1 = uint8(w.Bits(5, "crd"))
	h.DpbOutputDelayLengthMinus1 = uint8(w.Bits(5, "dod"))
	h.TimeOffsetLength = uint8(w.Bits(5, "tol"))
	v.NalHRD = h
	w.F(false)
	v.LowDelayHrdFlag = w.Flag("ldh")
	v.PicStructPresentFlag = w.Flag("psp")
	w.F(false)
	s.VUI = v
	checkSPS(w, &s)
}

// VH_SPSAlloc: an announced number of list entries beyond what the specification allows makes a SPS fail before memory is
// reserved for them; lz is the length of the code.
//
//vh: prop=P34,P03 case:k=0..2 case:lz=9,12,16,22,28,31 case:rest=0,8 merge=conc reach=ok
func VH_SPSAlloc() {
	w := &bw.W{}
	w.U(0x67, 8)
	w.U(77, 8)
	w.U(0, 8)
	w.U(30, 8)
	w.UEv(0)
	w.UEv(0)
	if vnd.Case("k") == 0 {
		w.UEv(1)
		w.F(vnd.Bool("dpz"))
		w.SEv(0)
		w.SEv(0)
	} else {
		w.UEv(2)
		w.UEv(1)
		w.F(false)
		w.UEv(10)
		w.UEv(10)
		w.F(true)
		w.F(true)
		w.F(false)
		w.F(true)
		for i := 0; i < 5; i++ {
			w.F(false)
		}
		w.F(vnd.Case("k") == 1)
		if vnd.Case("k") == 2 {
			w.F(true)
		}
	}
	w.UEc(vnd.Case("lz"), "count")
	w.V(vnd.Bits("rest", 8), 8)
	for i := 0; i < vnd.Case("rest"); i++ {
		w.U(0xFF, 8)
	}
	w.Trail()
	buf := w.Escaped(1)
	vnd.AllocLimit(4096 + 64*len(buf))
	var s h264.SPS
	vnd.Assert(s.Unmarshal(buf) != nil, "too many list entries")
	vnd.Reach("ok")
}
