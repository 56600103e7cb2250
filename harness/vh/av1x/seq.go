package av1x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
)

// color writes a color_config (AV1 5.5.2). desc: 0 none, 1 any, 2 sRGB identity.
func color(w *bw.W, profile int, hbd, twelve, mono bool, desc int, sx, sy bool, c *av1.SequenceHeader_ColorConfig) {
	c.HighBitDepth = hbd
	w.F(hbd)
	c.BitDepth = 8
	if hbd {
		c.BitDepth = 10
	}
	if profile == 2 && hbd {
		w.F(twelve)
		c.TwelveBit = twelve
		if twelve {
			c.BitDepth = 12
		}
	}
	if profile != 1 {
		w.F(mono)
		c.MonoChrome = mono
	}
	w.F(desc > 0)
	c.ColorDescriptionPresentFlag = desc > 0
	switch desc {
	case 0:
		c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 2, 2, 2
	case 1:
		c.ColorPrimaries = av1.SequenceHeader_ColorPrimaries(w.Bits(8, "cp"))
		c.TransferCharacteristics = av1.SequenceHeader_TransferCharacteristics(w.Bits(8, "tc"))
		c.MatrixCoefficients = av1.SequenceHeader_MatrixCoefficients(w.Bits(8, "mc"))
		vnd.Assume(!vnd.And(vnd.And(c.ColorPrimaries == 1, c.TransferCharacteristics == 13), c.MatrixCoefficients == 0))
	case 2:
		c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 1, 13, 0
		w.U(1, 8)
		w.U(13, 8)
		w.U(0, 8)
	}
	switch {
	case c.MonoChrome:
		c.ColorRange = w.Flag("cr")
		c.SubsamplingX, c.SubsamplingY = true, true
	case desc == 2:
		c.ColorRange = true
	default:
		c.ColorRange = w.Flag("cr")
		switch {
		case profile == 0:
			c.SubsamplingX, c.SubsamplingY = true, true
		case profile == 1:
		case c.BitDepth == 12:
			w.F(sx)
			c.SubsamplingX = sx
			if sx {
				w.F(sy)
				c.SubsamplingY = sy
			}
		default:
			c.SubsamplingX = true
		}
		if c.SubsamplingX && c.SubsamplingY {
			c.ChromaSamplePosition = av1.SequenceHeader_ChromaSamplePosition(w.Bits(2, "csp"))
		}
	}
}

// front writes a sequence header up to the colour configuration.
func front(w *bw.W, profile, o int, reduced bool, h *av1.SequenceHeader) {
	h.SeqProfile = uint8(profile)
	w.U(uint64(profile), 3)
	h.StillPicture = w.Flag("sp")
	h.ReducedStillPictureHeader = reduced
	w.F(reduced)
	if reduced {
		h.OperatingPointIdc = []uint16{0}
		h.SeqLevelIdx = []uint8{uint8(w.Bits(5, "lev", 0))}
		h.SeqTier = []bool{false}
		h.DecoderModelPresentForThisOp = []bool{false}
		h.InitialDisplayPresentForThisOp = []bool{false}
	} else {
		if bw.Opt(o, 1) {
			w.F(true)
			t := &av1.SequenceHeader_TimingInfo{}
			t.NumUnitsInDisplayTick = uint32(w.Bits(32, "nud"))
			t.TimeScale = uint32(w.Bits(32, "ts"))
			t.EqualPictureInterval = bw.Opt(o, 2)
			w.F(t.EqualPictureInterval)
			if t.EqualPictureInterval {
				t.NumTicksPerPictureMinus1 = w.UE("ntp")
			}
			h.TimingInfo = t
			w.F(false)
		} else {
			w.F(false)
		}
		w.F(false)
		n := 1
		if o%3 == 2 {
			n = o/3%4 + 1
		}
		if o == 17 {
			n = 32
		}
		h.OperatingPointsCntMinus1 = uint8(n - 1)
		w.U(uint64(n-1), 5)
		for i := 0; i < n; i++ {
			h.OperatingPointIdc = append(h.OperatingPointIdc, uint16(w.Bits(12, "opi", i)))
			tier := false
			var lev uint8
			if bw.Opt(o, 40+i) {
				lev = uint8(8 + vnd.Bits("lvh", 4, i))
				vnd.Assume(lev < 32)
				w.V(uint64(lev), 5)
				tier = w.Flag("tier", i)
			} else {
				w.U(0, 2)
				lev = uint8(w.Bits(3, "lvl", i))
			}
			h.SeqLevelIdx = append(h.SeqLevelIdx, lev)
			h.SeqTier = append(h.SeqTier, tier)
			h.DecoderModelPresentForThisOp = append(h.DecoderModelPresentForThisOp, false)
			h.InitialDisplayPresentForThisOp = append(h.InitialDisplayPresentForThisOp, false)
			h.InitialDisplayDelayMinus1 = append(h.InitialDisplayDelayMinus1, 0)
		}
	}
	wb, hb := 1+o*5%16, 1+o*7%16
	w.U(uint64(wb-1), 4)
	w.U(uint64(hb-1), 4)
	h.MaxFrameWidthMinus1 = uint32(w.Bits(wb, "fw"))
	h.MaxFrameHeightMinus1 = uint32(w.Bits(hb, "fh"))
	if !reduced {
		h.FrameIDNumbersPresentFlag = bw.Opt(o, 3)
		w.F(h.FrameIDNumbersPresentFlag)
		if h.FrameIDNumbersPresentFlag {
			h.DeltaFrameIDLengthMinus2 = uint8(w.Bits(4, "dfi"))
			h.AdditionalFrameIDLengthMinus1 = uint8(w.Bits(3, "afi"))
		}
	}
	h.Use128x128Superblock = w.Flag("sb")
	h.EnableFilterIntra = w.Flag("efi")
	h.EnableIntraEdgeFilter = w.Flag("eie")
	h.SeqForceScreenContentTools = 2
	h.SeqForceIntegerMv = 2
	if !reduced {
		h.EnableInterintraCompound = w.Flag("eic")
		h.EnableMaskedCompound = w.Flag("emc")
		h.EnableWarpedMotion = w.Flag("ewm")
		h.EnableDualFilter = w.Flag("edf")
		h.EnableOrderHint = bw.Opt(o, 4)
		w.F(h.EnableOrderHint)
		if h.EnableOrderHint {
			h.EnableJntComp = w.Flag("ejc")
			h.EnableRefFrameMvs = w.Flag("erf")
		}
		h.SeqChooseScreenContentTools = bw.Opt(o, 5)
		w.F(h.SeqChooseScreenContentTools)
		if !h.SeqChooseScreenContentTools {
			h.SeqForceScreenContentTools = 0
			if bw.Opt(o, 6) {
				h.SeqForceScreenContentTools = 1
			}
			w.F(bw.Opt(o, 6))
		}
		if h.SeqForceScreenContentTools > 0 {
			h.SeqChooseIntegerMv = bw.Opt(o, 7)
			w.F(h.SeqChooseIntegerMv)
			if !h.SeqChooseIntegerMv {
				h.SeqForceIntegerMv = av1.SequenceHeader_SeqForceIntegerMv(w.Bits(1, "fim"))
			}
		}
		if h.EnableOrderHint {
			h.OrderHintBitsMinus1 = uint8(w.Bits(3, "ohb"))
		}
	}
	h.EnableSuperRes = w.Flag("esr")
	h.EnableCdef = w.Flag("ecd")
	h.EnableRestoration = w.Flag("ere")
}

func check(w *bw.W, o int, h *av1.SequenceHeader) {
	h.FilmGrainParamsPresent = w.Flag("fg")
	need := w.Pos
	w.Trail()
	mk := func(b []byte, sz bool) []byte {
		if sz {
			n := len(b)
			if n < 128 {
				return append([]byte{0x0A, byte(n)}, b...)
			}
			return append([]byte{0x0A, byte(n) | 0x80, byte(n >> 7)}, b...)
		}
		return append([]byte{0x08}, b...)
	}
	for _, sz := range []bool{false, true} {
		var got av1.SequenceHeader
		buf := mk(w.Buf, sz)
		bw.Dirty(&got, buf)
		vnd.Assert(got.Unmarshal(buf) == nil, "valid header decodes")
		vnd.Assert(vnd.DeepEqual(got, *h), "field values")
		vnd.Assert(got.Width() == int(h.MaxFrameWidthMinus1)+1, "width")
		vnd.Assert(got.Height() == int(h.MaxFrameHeightMinus1)+1, "height")
		for k := 0; k < 8 && (need-1)/8-k >= 0; k++ {
			var tr av1.SequenceHeader
			vnd.Assert(tr.Unmarshal(mk(w.Buf[:(need-1)/8-k], sz)) != nil, "truncated header fails")
		}
	}
	b := mk(w.Buf, true)
	var tr av1.SequenceHeader
	vnd.Assert(tr.Unmarshal(append(b, 0)) != nil, "size field mismatch")
	vnd.Assert(tr.Unmarshal(b[:len(b)-1]) != nil, "size field mismatch")
	vnd.Reach("ok")
}

// VH_Seq: a sequence header laid out by the specification decodes to the encoded values; o selects optional parts.
//
//vh: prop=P09 quick:o=0..31 thorough:o=0..255 case:reduced=0..1 merge=conc reach=ok
func VH_Seq() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var h av1.SequenceHeader
	p := o % 3
	front(w, p, o, vnd.Case("reduced") == 1, &h)
	color(w, p, bw.Opt(o, 20), bw.Opt(o, 21), bw.Opt(o, 22), o/3%3, bw.Opt(o, 23), bw.Opt(o, 24), &h.ColorConfig)
	check(w, o, &h)
}

// VH_SeqColor: every combination of the colour configuration.
//
//vh: prop=P09 case:p=0..2 case:depth=0..2 case:mono=0..1 case:desc=0..2 case:sub=0..2 merge=conc reach=ok
func VH_SeqColor() {
	w := &bw.W{}
	var h av1.SequenceHeader
	p, d, s := vnd.Case("p"), vnd.Case("depth"), vnd.Case("sub")
	front(w, p, 12, false, &h)
	color(w, p, d > 0, d > 1, vnd.Case("mono") == 1, vnd.Case("desc"), s > 0, s > 1, &h.ColorConfig)
	check(w, 0, &h)
}

// VH_SeqReject: unsupported parts are rejected.
//
//vh: prop=P09 case:k=0..3 merge=conc
func VH_SeqReject() {
	w := &bw.W{}
	switch vnd.Case("k") {
	case 0: // decoder model
		w.U(0, 5)
		w.F(true)
		w.V(vnd.Bits("a", 64), 64)
		w.F(false)
		w.F(true)
	case 1: // initial display delay
		w.U(0, 5)
		w.F(false)
		w.F(true)
	case 2:
		b := append([]byte{vnd.Byte("h")}, vnd.Fill(0, 40)...)
		vnd.Assume(b[0]&0x84 != 0)
		var h av1.SequenceHeader
		vnd.Assert(h.Unmarshal(b) != nil, "invalid OBU header")
		return
	case 3:
		var h av1.SequenceHeader
		vnd.Assert(h.Unmarshal(nil) != nil, "empty")
		return
	}
	w.V(vnd.Bits("r", 64), 64)
	w.V(vnd.Bits("s", 64), 64)
	var h av1.SequenceHeader
	vnd.Assert(h.Unmarshal(append([]byte{8}, w.Buf...)) != nil, "unsupported")
}

// VH_SeqAny: arbitrary bytes never panic.
//
//vh: prop=P03,P34 quick:n=0..8 thorough:n=0..11 case:sz=0..1 merge=conc
func VH_SeqAny() {
	n := vnd.Case("n")
	buf := vnd.Bytes("buf", n)
	if n > 0 {
		if vnd.Case("sz") == 1 {
			buf[0] = 0x0A
		} else {
			buf[0] = 0x08
		}
	}
	vnd.AllocLimit(4096 + 64*n)
	var h av1.SequenceHeader
	if h.Unmarshal(buf) == nil {
		h.Width()
		h.Height()
	}
}

// VH_SeqCut: a sequence header with any optional parts and code lengths, cut at any byte, never makes the parser panic.
//
//vh: prop=P03 quick:o=0..95 thorough:o=0..511 case:reduced=0..1 merge=conc
func VH_SeqCut() {
	o := vnd.Case("o")
	w := &bw.W{C: o}
	var h av1.SequenceHeader
	p := o % 3
	front(w, p, o, vnd.Case("reduced") == 1, &h)
	color(w, p, bw.Opt(o, 20), bw.Opt(o, 21), bw.Opt(o, 22), o/3%3, bw.Opt(o, 23), bw.Opt(o, 24), &h.ColorConfig)
	w.Trail()
	for n := 0; n <= len(w.Buf); n++ {
		var d av1.SequenceHeader
		if d.Unmarshal(append([]byte{0x08}, w.Buf[:n]...)) == nil {
			d.Width()
			d.Height()
		}
	}
}
