package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// VH_SPSAny: decoding arbitrary bytes as a SPS returns or fails, and never panics or hangs.
//
//vh: prop=P03,P34 quick:n=0..6 thorough:n=0..8 merge=conc reach=ok,err
func VH_SPSAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	vnd.AllocLimit(8192 + 64*len(buf))
	var s h264.SPS
	err := s.Unmarshal(buf)
	if err == nil {
		vnd.Reach("ok")
		vnd.Observe("w", uint64(s.Width()))
		vnd.Observe("h", uint64(s.Height()))
		s.FPS()
	} else {
		vnd.Reach("err")
	}
}

var profiles = []int{66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 99, 0}

func isHigh(p int) bool { return p != 66 && p != 77 && p != 88 && p != 99 && p != 0 }

func hrd(w *bw.W, n string, cnt int) *h264.SPS_HRD {
	h := &h264.SPS_HRD{}
	w.UEv(uint32(cnt - 1))
	h.CpbCntMinus1 = uint32(cnt - 1)
	h.BitRateScale = uint8(w.Bits(4, n+"brs"))
	h.CpbSizeScale = uint8(w.Bits(4, n+"css"))
	for i := 0; i < cnt; i++ {
		h.BitRateValueMinus1 = append(h.BitRateValueMinus1, w.UE(n+"brv", i))
		h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, w.UE(n+"csv", i))
		h.CbrFlag = append(h.CbrFlag, w.Flag(n+"cbr", i))
	}
	h.InitialCpbRemovalDelayLengthMinus1 = uint8(w.Bits(5, n+"icr"))
	h.CpbRemovalDelayLengthMinus1 = uint8(w.Bits(5, n+"crd"))
	h.DpbOutputDelayLengthMinus1 = uint8(w.Bits(5, n+"dod"))
	h.TimeOffsetLength = uint8(w.Bits(5, n+"tol"))
	return h
}

func vui(w *bw.W, o int) *h264.SPS_VUI {
	v := &h264.SPS_VUI{}
	f := func(i int) bool {
		b := bw.Opt(o, i)
		w.F(b)
		return b
	}
	if f(1) {
		v.AspectRatioInfoPresentFlag = true
		if bw.Opt(o, 2) {
			w.U(255, 8)
			v.AspectRatioIdc = 255
			v.SarWidth = uint16(w.Bits(16, "sarw"))
			v.SarHeight = uint16(w.Bits(16, "sarh"))
		} else {
			v.AspectRatioIdc = uint8(w.Bits(8, "ari"))
			vnd.Assume(v.AspectRatioIdc != 255)
		}
	}
	if f(3) {
		v.OverscanInfoPresentFlag = true
		v.OverscanAppropriateFlag = w.Flag("osa")
	}
	if f(4) {
		v.VideoSignalTypePresentFlag = true
		v.VideoFormat = uint8(w.Bits(3, "vf"))
		v.VideoFullRangeFlag = w.Flag("vfr")
		if f(5) {
			v.ColourDescriptionPresentFlag = true
			v.ColourPrimaries = uint8(w.Bits(8, "cp"))
			v.TransferCharacteristics = uint8(w.Bits(8, "tc"))
			v.MatrixCoefficients = uint8(w.Bits(8, "mc"))
		}
	}
	if f(6) {
		v.ChromaLocInfoPresentFlag = true
		v.ChromaSampleLocTypeTopField = w.UE("clt")
		v.ChromaSampleLocTypeBottomField = w.UE("clb")
	}
	if f(7) {
		v.TimingInfo = &h264.SPS_TimingInfo{
			NumUnitsInTick:     uint32(w.Bits(32, "nut")),
			TimeScale:          uint32(w.Bits(32, "tsc")),
			FixedFrameRateFlag: w.Flag("ffr"),
		}
	}
	if f(8) {
		v.NalHRD = hrd(w, "n", 1+o%3)
	}
	if f(9) {
		v.VclHRD = hrd(w, "v", 1+o%4)
	}
	if v.NalHRD != nil || v.VclHRD != nil {
		v.LowDelayHrdFlag = w.Flag("ldh")
	}
	v.PicStructPresentFlag = w.Flag("psp")
	if f(10) {
		v.BitstreamRestriction = &h264.SPS_BitstreamRestriction{
			MotionVectorsOverPicBoundariesFlag: w.Flag("mvo"),
			MaxBytesPerPicDenom:                w.UE("mby"),
			MaxBitsPerMbDenom:                  w.UE("mbi"),
			Log2MaxMvLengthHorizontal:          w.UE("lmh"),
			Log2MaxMvLengthVertical:            w.UE("lmv"),
			MaxNumReorderFrames:                w.UE("mnr"),
			MaxDecFrameBuffering:               w.UE("mdb"),
		}
	}
	return v
}

// header writes the part up to the optional high-profile fields.
func header(w *bw.W, profile int, s *h264.SPS) {
	w.U(0x67, 8)
	w.U(uint64(profile), 8)
	s.ProfileIdc = uint8(profile)
	s.ConstraintSet0Flag = w.Flag("c0")
	s.ConstraintSet1Flag = w.Flag("c1")
	s.ConstraintSet2Flag = w.Flag("c2")
	s.ConstraintSet3Flag = w.Flag("c3")
	s.ConstraintSet4Flag = w.Flag("c4")
	s.ConstraintSet5Flag = w.Flag("c5")
	w.U(0, 2)
	s.LevelIdc = uint8(w.Bits(8, "lev"))
	s.ID = w.UE("id")
}

func tail(w *bw.W, o int, poc int, s *h264.SPS) {
	s.Log2MaxFrameNumMinus4 = w.UE("lmf")
	w.UEv(uint32(poc))
	s.PicOrderCntType = uint32(poc)
	switch poc {
	case 0:
		s.Log2MaxPicOrderCntLsbMinus4 = w.UE("lmp")
	case 1:
		s.DeltaPicOrderAlwaysZeroFlag = w.Flag("dpz")
		s.OffsetForNonRefPic = w.SE("onr")
		s.OffsetForTopToBottomField = w.SE("otb")
		n := o % 5
		w.UEv(uint32(n))
		for i := 0; i < n; i++ {
			s.OffsetForRefFrames = append(s.OffsetForRefFrames, w.SE("orf", i))
		}
	}
	s.MaxNumRefFrames = w.UE("mnf")
	s.GapsInFrameNumValueAllowedFlag = w.Flag("gap")
	s.PicWidthInMbsMinus1 = w.UE("wid")
	s.PicHeightInMapUnitsMinus1 = w.UE("hei")
	s.FrameMbsOnlyFlag = bw.Opt(o, 11)
	w.F(s.FrameMbsOnlyFlag)
	if !s.FrameMbsOnlyFlag {
		s.MbAdaptiveFrameFieldFlag = w.Flag("mba")
	}
	s.Direct8x8InferenceFlag = w.Flag("d88")
	if bw.Opt(o, 12) {
		w.F(true)
		s.FrameCropping = &h264.SPS_FrameCropping{
			LeftOffset:   w.UE("cl"),
			RightOffset:  w.UE("cr"),
			TopOffset:    w.UE("ct"),
			BottomOffset: w.UE("cb"),
		}
	} else {
		w.F(false)
	}
	if bw.Opt(o, 13) || bw.Opt(o, 14) {
		w.F(true)
		s.VUI = vui(w, o)
	} else {
		w.F(false)
	}
}

// geometry is the specification of the picture size (H.264 7.4.2.1.1).
func geometry(s *h264.SPS) (int64, int64) {
	cat := s.ChromaFormatIdc
	if s.SeparateColourPlaneFlag {
		cat = 0
	}
	cx, cy := int64(1), int64(1)
	if cat == 1 || cat == 2 {
		cx = 2
	}
	if cat == 1 {
		cy = 2
	}
	f := int64(2)
	if s.FrameMbsOnlyFlag {
		f = 1
	}
	cy *= f
	w := 16 * (int64(s.PicWidthInMbsMinus1) + 1)
	h := 16 * f * (int64(s.PicHeightInMapUnitsMinus1) + 1)
	if c := s.FrameCropping; c != nil {
		w -= cx * (int64(c.LeftOffset) + int64(c.RightOffset))
		h -= cy * (int64(c.TopOffset) + int64(c.BottomOffset))
	}
	return w, h
}

func checkSPS(w *bw.W, exp *h264.SPS) {
	need := w.Pos
	w.Trail()
	buf := w.Escaped(1)
	var got h264.SPS
	bw.Dirty(&got, buf)
	err := got.Unmarshal(buf)
	vnd.Assert(err == nil, "valid SPS decodes")
	vnd.Assert(vnd.DeepEqual(got, *exp), "field values")
	ew, eh := geometry(exp)
	if vnd.And(vnd.And(ew > 0, ew < 1<<20), vnd.And(eh > 0, eh < 1<<20)) {
		vnd.Assert(int64(got.Width()) == ew, "width")
		vnd.Assert(int64(got.Height()) == eh, "height")
	}
	fps := got.FPS()
	if exp.VUI == nil || exp.VUI.TimingInfo == nil {
		vnd.Assert(vnd.FloatEq(fps, 0), "no frame rate")
	} else if ti := exp.VUI.TimingInfo; vnd.And(ti.NumUnitsInTick != 0, ti.TimeScale != 0) {
		vnd.Assert(vnd.FloatEq(fps, float64(ti.TimeScale)/(2*float64(ti.NumUnitsInTick))), "frame rate")
	}
	vnd.Reach("ok")
	for k := 0; k < 6 && need > 8*k; k++ {
		w.Buf = w.Buf[:(need-1)/8-k]
		tb := w.Escaped(1)
		var tr h264.SPS
		vnd.Assert(tr.Unmarshal(tb) != nil, "truncated SPS fails")
	}
}

// VH_SPS: a SPS laid out by the specification decodes to the encoded values. p selects the profile, o the optional parts
// and code lengths.
//
//vh: prop=P10 quick:o=0..127 thorough:o=0..255 merge=conc reach=ok
func VH_SPS() {
	o := vnd.Case("o")
	p := profiles[o%len(profiles)]
	w := &bw.W{C: o}
	var s h264.SPS
	header(w, p, &s)
	if isHigh(p) {
		cf := o / 2 % 4
		s.ChromaFormatIdc = uint32(cf)
		w.UEv(uint32(cf))
		if cf == 3 {
			s.SeparateColourPlaneFlag = bw.Opt(o, 15)
			w.F(s.SeparateColourPlaneFlag)
		}
		s.BitDepthLumaMinus8 = w.UE("bdl")
		s.BitDepthChromaMinus8 = w.UE("bdc")
		s.QpprimeYZeroTransformBypassFlag = w.Flag("qpp")
		w.F(false) // seq_scaling_matrix_present_flag
	} else {
		s.ChromaFormatIdc = 1
	}
	tail(w, o, o/3%3, &s)
	checkSPS(w, &s)
}

// VH_SPSHigh: every chroma format in every optional combination of colour planes, cropping and interlacing.
//
//vh: prop=P10 case:cf=0..3 case:sep=0..1 quick:o=0..15 thorough:o=0..31 merge=conc
func VH_SPSHigh() {
	o, cf := vnd.Case("o"), vnd.Case("cf")
	w := &bw.W{C: o}
	var s h264.SPS
	header(w, 100, &s)
	s.ChromaFormatIdc = uint32(cf)
	w.UEv(uint32(cf))
	if cf == 3 {
		s.SeparateColourPlaneFlag = vnd.Case("sep") == 1
		w.F(s.SeparateColourPlaneFlag)
	}
	s.BitDepthLumaMinus8 = w.UEmax(3, "bdl")
	s.BitDepthChromaMinus8 = w.UEmax(3, "bdc")
	s.QpprimeYZeroTransformBypassFlag = w.Flag("qpp")
	w.F(false)
	tail(w, o, 2, &s)
	checkSPS(w, &s)
}

// scaling writes a scaling list that stops at position stop (stop == size: never) and returns its values (H.264 7.3.2.1.1.1).
func scaling(w *bw.W, li, size, stop int) ([]int32, bool) {
	out := make([]int32, size)
	last := int32(8)
	for j := 0; j < size; j++ {
		if j < stop {
			var d int32
			if j < 6 { // symbolic
				d = w.SEmax(3, "dl", li, j)
				if j == stop-1 { // so that the stopping delta has a known code length
					vnd.Assume(vnd.And(last+d >= 8, last+d <= 15))
				} else {
					vnd.Assume(vnd.And(last+d > 0, last+d < 256))
				}
			} else {
				d = int32(j%3) - 1
				vnd.Assume(last+d > 0)
				w.SEv(d)
			}
			last += d
		} else if j == stop {
			d := bw.Signed(w.UEc(4, "ds", li))
			vnd.Assume(d == -last)
		}
		out[j] = last
	}
	return out, stop == 0
}

// VH_SPSScaling: scaling lists, present or absent, stopping early or not.
//
//vh: prop=P10 quick:li=0,5,6,7,11 thorough:li=0..11 case:stop=0,1,3,6,99 quick:cf=1,3 thorough:cf=0..3 merge=conc
func VH_SPSScaling() {
	li, stop, cf := vnd.Case("li"), vnd.Case("stop"), vnd.Case("cf")
	w := &bw.W{C: li + stop}
	var s h264.SPS
	header(w, 100, &s)
	s.ChromaFormatIdc = uint32(cf)
	w.UEv(uint32(cf))
	n := 8
	if cf == 3 {
		w.F(false)
		n = 12
	}
	s.BitDepthLumaMinus8 = w.UEmax(3, "bdl")
	s.BitDepthChromaMinus8 = w.UEmax(3, "bdc")
	s.QpprimeYZeroTransformBypassFlag = w.Flag("qpp")
	w.F(true)
	li %= n
	for i := 0; i < n; i++ {
		present := i == li || i == (li+3)%n
		w.F(present)
		if !present {
			continue
		}
		size := 16
		if i >= 6 {
			size = 64
		}
		st := stop
		if i != li {
			st = 0
		}
		if st > size {
			st = size
		}
		l, def := scaling(w, i, size, st)
		if i < 6 {
			s.ScalingList4x4 = append(s.ScalingList4x4, l)
			s.UseDefaultScalingMatrix4x4Flag = append(s.UseDefaultScalingMatrix4x4Flag, def)
		} else {
			s.ScalingList8x8 = append(s.ScalingList8x8, l)
			s.UseDefaultScalingMatrix8x8Flag = append(s.UseDefaultScalingMatrix8x8Flag, def)
		}
	}
	tail(w, 3, 0, &s)
	checkSPS(w, &s)
}

// VH_SPSInvalid: wrong unit types and picture order count types are rejected.
//
//vh: prop=P10 case:o=0..3 merge=conc
func VH_SPSInvalid() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var s h264.SPS
	header(w, 66, &s)
	s.Log2MaxFrameNumMinus4 = w.UE("lmf")
	poc := w.UEc(2+o, "poc")
	vnd.Assume(poc > 2)
	w.V(vnd.Bits("rest", 64), 64)
	w.V(vnd.Bits("rest2", 64), 64)
	vnd.Assert(s.Unmarshal(w.Escaped(1)) != nil, "invalid pic_order_cnt_type")
	b := vnd.Bytes("any", 6)
	vnd.Assume(b[0]&0x1F != 7)
	vnd.Assert(s.Unmarshal(b) != nil, "not a SPS")
}

// VH_SPSGeometry: the picture size is the one of the specification's formulas for every chroma format, plane separation,
// interlacing, cropping and size.
//
//vh: prop=P10 case:crop=0..1 merge=full reach=ok
func VH_SPSGeometry() {
	s := h264.SPS{
		ChromaFormatIdc:           uint32(vnd.Bits("cf", 2)),
		SeparateColourPlaneFlag:   vnd.Bool("sep"),
		PicWidthInMbsMinus1:       vnd.U32("w"),
		PicHeightInMapUnitsMinus1: vnd.U32("h"),
		FrameMbsOnlyFlag:          vnd.Bool("fmo"),
	}
	vnd.Assume(vnd.Implies(s.SeparateColourPlaneFlag, s.ChromaFormatIdc == 3))
	if vnd.Case("crop") == 1 {
		s.FrameCropping = &h264.SPS_FrameCropping{
			LeftOffset: vnd.U32("cl"), RightOffset: vnd.U32("cr"), TopOffset: vnd.U32("ct"), BottomOffset: vnd.U32("cb"),
		}
	}
	ew, eh := geometry(&s)
	vnd.Assume(vnd.And(vnd.And(ew > 0, ew < 1<<20), vnd.And(eh > 0, eh < 1<<20)))
	vnd.Assert(int64(s.Width()) == ew, "width")
	vnd.Assert(int64(s.Height()) == eh, "height")
	vnd.Reach("ok")
}
