package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// VH_SPSAny: decoding arbitrary bytes as a SPS returns or fails, and never panics or hangs.
//
//vh: prop=P03,P34 quick:n=0..18 thorough:n=0..20 case:hdr=0..1 merge=conc
func VH_SPSAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	if vnd.Case("hdr") == 1 && len(buf) > 15 { // get past the profile
		copy(buf[0:], []byte{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0})
	}
	vnd.AllocLimit(16384 + 64*len(buf))
	var s h265.SPS
	if s.Unmarshal(buf) == nil {
		s.Width()
		s.Height()
		s.FPS()
	}
}

// VH_PPSAny: decoding arbitrary bytes as a PPS returns or fails, and never panics or hangs.
//
//vh: prop=P03,P34 quick:n=0..8 thorough:n=0..12 merge=conc
func VH_PPSAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	vnd.AllocLimit(8192 + 64*len(buf))
	var s h265.PPS
	s.Unmarshal(buf) //nolint:errcheck
}

// VH_PPS: a PPS laid out by the specification decodes to the encoded values.
//
//vh: prop=P11 quick:o=0..31 thorough:o=0..63 case:hb=0..1 merge=conc
func VH_PPS() {
	w := &bw.W{C: vnd.Case("o")}
	w.U(uint64(vnd.Case("hb")), 1)
	w.U(34, 6)
	w.U(0, 6)
	w.U(1, 3)
	var s h265.PPS
	s.ID = w.UE("id")
	s.SPSID = w.UE("spsid")
	s.DependentSliceSegmentsEnabledFlag = w.Flag("dep")
	s.OutputFlagPresentFlag = w.Flag("out")
	s.NumExtraSliceHeaderBits = uint8(w.Bits(3, "ext"))
	need := w.Pos
	w.Flag("sdh")
	w.Trail()
	var got h265.PPS
	buf := w.Escaped(2)
	bw.Dirty(&got, buf)
	vnd.Assert(got.Unmarshal(buf) == nil, "valid PPS decodes")
	vnd.Assert(got == s, "PPS values")
	b := w.Escaped(2)
	t := vnd.Byte("typ")
	vnd.Assume(t>>1&63 != 34)
	b[0] = t
	vnd.Assert(got.Unmarshal(b) != nil, "not a PPS")
	for k := 0; k < 3 && (need-1)/8-k > 0; k++ {
		w.Buf = w.Buf[:(need-1)/8-k]
		if len(w.Buf) < 2 {
			break
		}
		vnd.Assert(got.Unmarshal(w.Escaped(2)) != nil, "truncated PPS fails")
	}
}

func ptl(w *bw.W, o int, sub int, p *h265.SPS_ProfileTierLevel) {
	p.GeneralProfileSpace = uint8(w.Bits(2, "gps"))
	p.GeneralTierFlag = uint8(w.Bits(1, "gtf"))
	p.GeneralProfileIdc = uint8(w.Bits(5, "gpi"))
	for j := range p.GeneralProfileCompatibilityFlag {
		p.GeneralProfileCompatibilityFlag[j] = w.Flag("gpc", j)
	}
	p.GeneralProgressiveSourceFlag = w.Flag("f", 0)
	p.GeneralInterlacedSourceFlag = w.Flag("f", 1)
	p.GeneralNonPackedConstraintFlag = w.Flag("f", 2)
	p.GeneralFrameOnlyConstraintFlag = w.Flag("f", 3)
	p.GeneralMax12bitConstraintFlag = w.Flag("f", 4)
	p.GeneralMax10bitConstraintFlag = w.Flag("f", 5)
	p.GeneralMax8bitConstraintFlag = w.Flag("f", 6)
	p.GeneralMax422ChromeConstraintFlag = w.Flag("f", 7)
	p.GeneralMax420ChromaConstraintFlag = w.Flag("f", 8)
	p.GeneralMaxMonochromeConstraintFlag = w.Flag("f", 9)
	p.GeneralIntraConstraintFlag = w.Flag("f", 10)
	p.GeneralOnePictureOnlyConstraintFlag = w.Flag("f", 11)
	p.GeneralLowerBitRateConstraintFlag = w.Flag("f", 12)
	m14 := w.Flag("f", 13)
	c := false
	for _, j := range []int{5, 9, 10, 11} {
		c = vnd.Or(c, vnd.Or(p.GeneralProfileIdc == uint8(j), p.GeneralProfileCompatibilityFlag[j]))
	}
	p.GeneralMax14BitConstraintFlag = vnd.And(c, m14)
	w.Bits(34, "rsv")
	p.GeneralLevelIdc = uint8(w.Bits(8, "lev"))
	for i := 0; i < sub; i++ {
		w.F(false)
		w.F(false)
		p.SubLayerProfilePresentFlag = append(p.SubLayerProfilePresentFlag, false)
		p.SubLayerLevelPresentFlag = append(p.SubLayerLevelPresentFlag, false)
	}
	if sub > 0 {
		for i := sub; i < 8; i++ {
			w.U(0, 2)
		}
	}
}

func window(w *bw.W, n string) *h265.SPS_Window {
	return &h265.SPS_Window{
		LeftOffset: w.UE(n + "l"), RightOffset: w.UE(n + "r"), TopOffset: w.UE(n + "t"), BottomOffset: w.UE(n + "b"),
	}
}

func scaling(w *bw.W, o int) *h265.SPS_ScalingListData {
	d := &h265.SPS_ScalingListData{}
	for size := 0; size < 4; size++ {
		step := 1
		if size == 3 {
			step = 3
		}
		for m := 0; m < 6; m += step {
			pred := bw.Opt(o, 100+size*6+m) && bw.Opt(o+7, 130+m)
			w.F(pred)
			d.ScalingListPredModeFlag[size][m] = pred
			if !pred {
				d.ScalingListPredmatrixIDDelta[size][m] = w.UEmax(2, "pmd", size, m)
				continue
			}
			if size > 1 {
				d.ScalingListDcCoefMinus8[size-2][m] = w.SEmax(8, "dc", size, m)
			}
			n := 64
			if size == 0 {
				n = 16
			}
			for k := 0; k < n; k++ {
				if k < 3 {
					w.SEmax(5, "dco", size, m, k)
				} else {
					w.SEv(int32(k%3) - 1)
				}
			}
		}
	}
	return d
}

func explicitRPS(w *bw.W, i, neg, pos int) *h265.SPS_ShortTermRefPicSet {
	r := &h265.SPS_ShortTermRefPicSet{NumNegativePics: uint32(neg), NumPositivePics: uint32(pos)}
	w.UEv(uint32(neg))
	w.UEv(uint32(pos))
	prev := int32(0)
	for k := 0; k < neg; k++ {
		prev -= int32(w.UEmax(3, "dp0", i, k)) + 1
		r.DeltaPocS0 = append(r.DeltaPocS0, prev)
		r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, w.Flag("us0", i, k))
	}
	prev = 0
	for k := 0; k < pos; k++ {
		prev += int32(w.UEmax(3, "dp1", i, k)) + 1
		r.DeltaPocS1 = append(r.DeltaPocS1, prev)
		r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, w.Flag("us1", i, k))
	}
	return r
}

// interRPS is a set predicted from ref (H.265 7.3.7, 7.4.8 (7-61), (7-62)). used and use are bit masks.
func interRPS(w *bw.W, ref *h265.SPS_ShortTermRefPicSet, sign bool, abs uint32, used, use int) *h265.SPS_ShortTermRefPicSet {
	r := &h265.SPS_ShortTermRefPicSet{InterRefPicSetPredictionFlag: true, DeltaRpsSign: sign, AbsDeltaRpsMinus1: abs}
	w.F(true)
	w.F(sign)
	w.UEv(abs)
	d := int32(abs) + 1
	if sign {
		d = -d
	}
	n0, n1 := len(ref.DeltaPocS0), len(ref.DeltaPocS1)
	n := n0 + n1
	u := func(j int) bool { return used>>uint(j)&1 != 0 }
	del := func(j int) bool { return u(j) || use>>uint(j)&1 != 0 }
	for j := 0; j <= n; j++ {
		w.F(u(j))
		if !u(j) {
			w.F(use>>uint(j)&1 != 0)
		}
	}
	add0 := func(p int32, j int) {
		if p < 0 && del(j) {
			r.DeltaPocS0 = append(r.DeltaPocS0, p)
			r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, u(j))
		}
	}
	add1 := func(p int32, j int) {
		if p > 0 && del(j) {
			r.DeltaPocS1 = append(r.DeltaPocS1, p)
			r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, u(j))
		}
	}
	for j := n1 - 1; j >= 0; j-- {
		add0(ref.DeltaPocS1[j]+d, n0+j)
	}
	add0(d, n)
	for j := 0; j < n0; j++ {
		add0(ref.DeltaPocS0[j]+d, j)
	}
	for j := n0 - 1; j >= 0; j-- {
		add1(ref.DeltaPocS0[j]+d, j)
	}
	add1(d, n)
	for j := 0; j < n1; j++ {
		add1(ref.DeltaPocS1[j]+d, n0+j)
	}
	r.NumNegativePics = uint32(len(r.DeltaPocS0))
	r.NumPositivePics = uint32(len(r.DeltaPocS1))
	return r
}

func vui(w *bw.W, o int) *h265.SPS_VUI {
	v := &h265.SPS_VUI{}
	f := func(i int) bool {
		b := bw.Opt(o, i)
		w.F(b)
		return b
	}
	if f(1) {
		v.AspectRatioInfoPresentFlag = true
		if bw.Opt(o, 2) {
			w.U(255, 8)
			v.AspectRatioIdc = 255
			v.SarWidth = uint16(w.Bits(16, "sarw"))
			v.SarHeight = uint16(w.Bits(16, "sarh"))
		} else {
			v.AspectRatioIdc = uint8(w.Bits(8, "ari"))
			vnd.Assume(v.AspectRatioIdc != 255)
		}
	}
	if f(3) {
		v.OverscanInfoPresentFlag = true
		v.OverscanAppropriateFlag = w.Flag("osa")
	}
	if f(4) {
		v.VideoSignalTypePresentFlag = true
		v.VideoFormat = uint8(w.Bits(3, "vf"))
		v.VideoFullRangeFlag = w.Flag("vfr")
		if f(5) {
			v.ColourDescriptionPresentFlag = true
			v.ColourPrimaries = uint8(w.Bits(8, "cp"))
			v.TransferCharacteristics = uint8(w.Bits(8, "tc"))
			v.MatrixCoefficients = uint8(w.Bits(8, "mc"))
		}
	}
	if f(6) {
		v.ChromaLocInfoPresentFlag = true
		v.ChromaSampleLocTypeTopField = w.UE("clt")
		v.ChromaSampleLocTypeBottomField = w.UE("clb")
	}
	v.NeutralChromaIndicationFlag = w.Flag("nci")
	v.FieldSeqFlag = w.Flag("fsq")
	v.FrameFieldInfoPresentFlag = w.Flag("ffi")
	if f(7) {
		v.DefaultDisplayWindow = window(w, "dd")
	}
	if f(8) {
		t := &h265.SPS_TimingInfo{
			NumUnitsInTick: uint32(w.Bits(32, "nut")),
			TimeScale:      uint32(w.Bits(32, "tsc")),
		}
		if f(9) {
			t.POCProportionalToTimingFlag = true
			t.NumTicksPOCDiffOneMinus1 = w.UE("ntp")
		}
		v.TimingInfo = t
	}
	return v
}

// start writes a SPS up to the scaling lists.
func start(w *bw.W, o, sub, cf int, s *h265.SPS) {
	w.U(0x42, 8)
	w.U(1, 8)
	s.VPSID = uint8(w.Bits(4, "vps"))
	w.U(uint64(sub), 3)
	s.MaxSubLayersMinus1 = uint8(sub)
	s.TemporalIDNestingFlag = w.Flag("tin")
	ptl(w, o, sub, &s.ProfileTierLevel)
	s.ID = uint8(w.UEmax(3, "id"))
	s.ChromaFormatIdc = uint32(cf)
	w.UEv(uint32(cf))
	if cf == 3 {
		s.SeparateColourPlaneFlag = w.Flag("scp")
	}
	s.PicWidthInLumaSamples = w.UE("wid")
	s.PicHeightInLumaSamples = w.UE("hei")
	if bw.Opt(o, 20) {
		w.F(true)
		s.ConformanceWindow = window(w, "cw")
	} else {
		w.F(false)
	}
	s.BitDepthLumaMinus8 = w.UEmax(3, "bdl")
	s.BitDepthChromaMinus8 = w.UEmax(3, "bdc")
	s.Log2MaxPicOrderCntLsbMinus4 = w.UEmax(3, "poc")
	s.SubLayerOrderingInfoPresentFlag = bw.Opt(o, 21)
	w.F(s.SubLayerOrderingInfoPresentFlag)
	s.MaxDecPicBufferingMinus1 = make([]uint32, sub+1)
	s.MaxNumReorderPics = make([]uint32, sub+1)
	s.MaxLatencyIncreasePlus1 = make([]uint32, sub+1)
	i := sub
	if s.SubLayerOrderingInfoPresentFlag {
		i = 0
	}
	for ; i <= sub; i++ {
		s.MaxDecPicBufferingMinus1[i] = w.UE("mdp", i)
		s.MaxNumReorderPics[i] = w.UE("mnr", i)
		s.MaxLatencyIncreasePlus1[i] = w.UE("mli", i)
	}
	s.Log2MinLumaCodingBlockSizeMinus3 = w.UE("a", 0)
	s.Log2DiffMaxMinLumaCodingBlockSize = w.UE("a", 1)
	s.Log2MinLumaTransformBlockSizeMinus2 = w.UE("a", 2)
	s.Log2DiffMaxMinLumaTransformBlockSize = w.UE("a", 3)
	s.MaxTransformHierarchyDepthInter = w.UE("a", 4)
	s.MaxTransformHierarchyDepthIntra = w.UE("a", 5)
}

func middle(w *bw.W, o int, s *h265.SPS) {
	s.ScalingListEnabledFlag = bw.Opt(o, 22)
	w.F(s.ScalingListEnabledFlag)
	if s.ScalingListEnabledFlag {
		p := bw.Opt(o, 23)
		w.F(p)
		if p {
			s.ScalingListData = scaling(w, o)
		}
	}
	s.AmpEnabledFlag = w.Flag("amp")
	s.SampleAdaptiveOffsetEnabledFlag = w.Flag("sao")
	s.PcmEnabledFlag = bw.Opt(o, 24)
	w.F(s.PcmEnabledFlag)
	if s.PcmEnabledFlag {
		s.PcmSampleBitDepthLumaMinus1 = uint8(w.Bits(4, "pl"))
		s.PcmSampleBitDepthChromaMinus1 = uint8(w.Bits(4, "pc"))
		s.Log2MinPcmLumaCodingBlockSizeMinus3 = w.UE("pa")
		s.Log2DiffMaxMinPcmLumaCodingBlockSize = w.UE("pb")
		s.PcmLoopFilterDisabledFlag = w.Flag("plf")
	}
}

func end(w *bw.W, o int, s *h265.SPS) {
	s.LongTermRefPicsPresentFlag = bw.Opt(o, 25)
	w.F(s.LongTermRefPicsPresentFlag)
	if s.LongTermRefPicsPresentFlag {
		w.UEv(0)
	}
	s.TemporalMvpEnabledFlag = w.Flag("tmv")
	s.StrongIntraSmoothingEnabledFlag = w.Flag("sis")
	if bw.Opt(o, 26) || bw.Opt(o, 27) {
		w.F(true)
		s.VUI = vui(w, o)
	} else {
		w.F(false)
	}
}

func checkSPS(w *bw.W, exp *h265.SPS) {
	need := w.Pos
	w.Flag("tail")
	w.Trail()
	var got h265.SPS
	buf := w.Escaped(2)
	bw.Dirty(&got, buf)
	err := got.Unmarshal(buf)
	vnd.Assert(err == nil, "valid SPS decodes")
	vnd.Assert(vnd.DeepEqual(got, *exp), "field values")

	// H.265 7.4.3.2.1
	cx, cy := int64(1), int64(1)
	switch exp.ChromaFormatIdc {
	case 1:
		cx, cy = 2, 2
	case 2:
		cx = 2
	}
	ew, eh := int64(exp.PicWidthInLumaSamples), int64(exp.PicHeightInLumaSamples)
	if c := exp.ConformanceWindow; c != nil {
		ew -= cx * (int64(c.LeftOffset) + int64(c.RightOffset))
		eh -= cy * (int64(c.TopOffset) + int64(c.BottomOffset))
	}
	vnd.Assert(vnd.Implies(vnd.And(ew > 0, ew < 1<<20), int64(got.Width()) == ew), "width")
	vnd.Assert(vnd.Implies(vnd.And(eh > 0, eh < 1<<20), int64(got.Height()) == eh), "height")
	fps := got.FPS()
	if exp.VUI == nil || exp.VUI.TimingInfo == nil {
		vnd.Assert(vnd.FloatEq(fps, 0), "no frame rate")
	} else if ti := exp.VUI.TimingInfo; vnd.And(ti.NumUnitsInTick != 0, ti.TimeScale != 0) {
		vnd.Assert(vnd.FloatEq(fps, float64(ti.TimeScale)/float64(ti.NumUnitsInTick)), "frame rate")
	}
	vnd.Reach("ok")
	for k := 0; k < 6 && need > 8*(k+3); k++ {
		w.Buf = w.Buf[:(need-1)/8-k]
		var tr h265.SPS
		vnd.Assert(tr.Unmarshal(w.Escaped(2)) != nil, "truncated SPS fails")
	}
}

// VH_SPS: a SPS laid out by the specification decodes to the encoded values, with any profile; o selects optional parts and
// code lengths.
//
//vh: prop=P11 quick:o=0..95 thorough:o=0..255 merge=conc reach=ok
func VH_SPS() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var s h265.SPS
	sub := 0
	if o%3 == 1 {
		sub = o / 3 % 7
	}
	start(w, o, sub, o%4, &s)
	middle(w, o, &s)
	n := o / 2 % 3
	if o%7 == 3 {
		n = 5
	}
	w.UEv(uint32(n))
	for i := 0; i < n; i++ {
		if i != 0 {
			w.F(false)
		}
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, explicitRPS(w, i, (o+i)%3, (o+3*i)/2%3))
	}
	end(w, o, &s)
	checkSPS(w, &s)
}

// VH_SPSInter: inter-predicted reference picture sets.
//
//vh: prop=P11 case:sign=0..1 quick:abs=0,2 thorough:abs=0..5 quick:mask=0..9 thorough:mask=0..63 merge=conc reach=ok
func VH_SPSInter() {
	m := vnd.Case("mask")
	w := &bw.W{C: m}
	var s h265.SPS
	start(w, 0, 0, 1, &s)
	middle(w, 0, &s)
	w.UEv(3)
	r := &h265.SPS_ShortTermRefPicSet{
		NumNegativePics: 3, NumPositivePics: 2,
		DeltaPocS0: []int32{-1, -3, -4}, DeltaPocS1: []int32{2, 3},
	}
	w.UEv(3)
	w.UEv(2)
	for i, d := range []uint32{0, 1, 0, 1, 0} {
		w.UEv(d)
		u := w.Flag("us", i)
		if i < 3 {
			r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, u)
		} else {
			r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, u)
		}
	}
	sign := vnd.Case("sign") == 1
	abs := uint32(vnd.Case("abs"))
	r1 := interRPS(w, r, sign, abs, m*37>>2, ^(m * 11))
	r2 := interRPS(w, r1, !sign, 1+abs/2, m*53, 0x3F>>uint(m%5))
	s.ShortTermRefPicSets = []*h265.SPS_ShortTermRefPicSet{r, r1, r2}
	end(w, 0, &s)
	checkSPS(w, &s)
}

// VH_SPSReject: what is not supported or not valid is rejected.
//
//vh: prop=P11 case:k=0..4 merge=conc
func VH_SPSReject() {
	k := vnd.Case("k")
	w := &bw.W{C: k}
	var s h265.SPS
	switch k {
	case 0: // wrong unit type
		start(w, 0, 0, 1, &s)
		b := w.Escaped(2)
		b[0] = vnd.Byte("typ")
		vnd.Assume(b[0]>>1&63 != 33)
		vnd.Assert(s.Unmarshal(b) != nil, "not a SPS")
		return
	case 1: // chroma format
		w.U(0x42, 8)
		w.U(1, 8)
		w.U(0, 8)
		ptl(w, 0, 0, &s.ProfileTierLevel)
		w.UEv(0)
		vnd.Assume(w.UEc(3, "cf") >= 4)
		w.V(vnd.Bits("rest", 64), 64)
		w.V(vnd.Bits("rest2", 64), 64)
	case 2: // too many reference picture sets
		start(w, 0, 0, 1, &s)
		middle(w, 0, &s)
		vnd.Assume(w.UEc(6, "nst") > 64)
		w.V(vnd.Bits("rest", 64), 64)
		w.V(vnd.Bits("rest2", 64), 64)
	case 3: // long-term pictures
		start(w, 0, 0, 1, &s)
		middle(w, 0, &s)
		w.UEv(0)
		w.F(true)
		w.UEc(3, "lt")
		w.V(vnd.Bits("rest", 64), 64)
		w.V(vnd.Bits("rest2", 64), 64)
	case 4: // sub-layer profile
		w.U(0x42, 8)
		w.U(1, 8)
		w.U(1<<1, 8)
		w.U(0x01, 8)
		w.U(0x60606060, 32)
		w.U(0x606060606060, 48)
		w.U(90, 8)
		a, b := w.Flag("spp"), w.Flag("slp")
		vnd.Assume(vnd.Or(a, b))
		w.U(0, 14)
		w.V(vnd.Bits("rest", 64), 64)
		w.V(vnd.Bits("rest2", 64), 64)
		w.V(vnd.Bits("rest3", 64), 64)
	}
	var got h265.SPS
	bw.Dirty(&got)
	vnd.Assert(got.Unmarshal(w.Escaped(2)) != nil, "rejected")
}

// VH_SPSGeometry: the picture size is the one of the specification's formulas for every chroma format, plane separation,
// conformance window and size.
//
//vh: prop=P11 case:cf=0..3 case:crop=0..1 merge=full reach=ok
func VH_SPSGeometry() {
	cf := vnd.Case("cf")
	s := h265.SPS{
		ChromaFormatIdc:         uint32(cf),
		SeparateColourPlaneFlag: vnd.And(vnd.Bool("sep"), cf == 3),
		PicWidthInLumaSamples:   vnd.U32("w"),
		PicHeightInLumaSamples:  vnd.U32("h"),
	}
	ew, eh := int64(s.PicWidthInLumaSamples), int64(s.PicHeightInLumaSamples)
	if vnd.Case("crop") == 1 {
		c := &h265.SPS_Window{
			LeftOffset: vnd.U32("cl"), RightOffset: vnd.U32("cr"), TopOffset: vnd.U32("ct"), BottomOffset: vnd.U32("cb"),
		}
		s.ConformanceWindow = c
		// table 6-1
		ew -= []int64{1, 2, 2, 1}[cf] * (int64(c.LeftOffset) + int64(c.RightOffset))
		eh -= []int64{1, 2, 1, 1}[cf] * (int64(c.TopOffset) + int64(c.BottomOffset))
	}
	vnd.Assume(vnd.And(vnd.And(ew > 0, ew < 1<<20), vnd.And(eh > 0, eh < 1<<20)))
	vnd.Assert(int64(s.Width()) == ew, "width")
	vnd.Assert(int64(s.Height()) == eh, "height")
	vnd.Reach("ok")
}

// VH_SPSCounts: lists of any length that the specification allows (64 sets of 16 pictures) are decoded.
//
//vh: prop=P11 case:sets=1,2,17,63,64 case:pics=0..2 merge=conc reach=ok
func VH_SPSCounts() {
	n, k := vnd.Case("sets"), vnd.Case("pics")
	w := &bw.W{}
	var s h265.SPS
	start(w, 0, 0, 1, &s)
	middle(w, 0, &s)
	w.UEv(uint32(n))
	for i := 0; i < n; i++ {
		if i != 0 {
			w.F(false)
		}
		if i == 0 || i == n-1 {
			s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, explicitRPS(w, i, []int{16, 0, 8}[k], []int{0, 16, 8}[k]))
			continue
		}
		r := &h265.SPS_ShortTermRefPicSet{NumNegativePics: 1, DeltaPocS0: []int32{-int32(i)}}
		w.UEv(1)
		w.UEv(0)
		w.UEv(uint32(i - 1))
		r.UsedByCurrPicS0Flag = []bool{w.Flag("us", i)}
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, r)
	}
	end(w, 0, &s)
	checkSPS(w, &s)
}

// VH_SPSAlloc: an announced number of list entries far beyond what the specification allows makes a SPS fail before memory is
// reserved for them; lz is the length of the code.
//
//vh: prop=P34,P03 case:k=0..3 case:lz=12,16,22,28,31 case:rest=0,8 merge=conc reach=ok
func VH_SPSAlloc() {
	w := &bw.W{}
	var s h265.SPS
	start(w, 0, 0, 1, &s)
	middle(w, 0, &s)
	k := vnd.Case("k")
	if k != 0 {
		w.UEv(1)
		switch k {
		case 2:
			w.UEv(0)
		case 3:
			w.UEv(1)
		}
	}
	w.UEc(vnd.Case("lz"), "count")
	w.V(vnd.Bits("rest", 8), 8)
	for i := 0; i < vnd.Case("rest"); i++ {
		w.U(0xFF, 8)
	}
	w.Trail()
	buf := w.Escaped(2)
	vnd.AllocLimit(8192 + 64*len(buf))
	var d h265.SPS
	vnd.Assert(d.Unmarshal(buf) != nil, "too many list entries")
	vnd.Reach("ok")
}
