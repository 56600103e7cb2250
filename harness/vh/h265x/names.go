package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// VH_Types: unit types have the numbers of the specification and distinct names.
//
//vh: prop=P44 merge=none states=200
func VH_Types() {
	t := vnd.Byte("type")
	known := false
	for _, x := range []struct {
		typ  h265.NALUType
		n    byte
		name string
	}{
		{h265.NALUType_TRAIL_N, 0, "TRAIL_N"},
		{h265.NALUType_TRAIL_R, 1, "TRAIL_R"},
		{h265.NALUType_TSA_N, 2, "TSA_N"},
		{h265.NALUType_TSA_R, 3, "TSA_R"},
		{h265.NALUType_STSA_N, 4, "STSA_N"},
		{h265.NALUType_STSA_R, 5, "STSA_R"},
		{h265.NALUType_RADL_N, 6, "RADL_N"},
		{h265.NALUType_RADL_R, 7, "RADL_R"},
		{h265.NALUType_RASL_N, 8, "RASL_N"},
		{h265.NALUType_RASL_R, 9, "RASL_R"},
		{h265.NALUType_RSV_VCL_N10, 10, "RSV_VCL_N10"},
		{h265.NALUType_RSV_VCL_N12, 12, "RSV_VCL_N12"},
		{h265.NALUType_RSV_VCL_N14, 14, "RSV_VCL_N14"},
		{h265.NALUType_RSV_VCL_R11, 11, "RSV_VCL_R11"},
		{h265.NALUType_RSV_VCL_R13, 13, "RSV_VCL_R13"},
		{h265.NALUType_RSV_VCL_R15, 15, "RSV_VCL_R15"},
		{h265.NALUType_BLA_W_LP, 16, "BLA_W_LP"},
		{h265.NALUType_BLA_W_RADL, 17, "BLA_W_RADL"},
		{h265.NALUType_BLA_N_LP, 18, "BLA_N_LP"},
		{h265.NALUType_IDR_W_RADL, 19, "IDR_W_RADL"},
		{h265.NALUType_IDR_N_LP, 20, "IDR_N_LP"},
		{h265.NALUType_CRA_NUT, 21, "CRA_NUT"},
		{h265.NALUType_RSV_IRAP_VCL22, 22, "RSV_IRAP_VCL22"},
		{h265.NALUType_RSV_IRAP_VCL23, 23, "RSV_IRAP_VCL23"},
		{h265.NALUType_VPS_NUT, 32, "VPS_NUT"},
		{h265.NALUType_SPS_NUT, 33, "SPS_NUT"},
		{h265.NALUType_PPS_NUT, 34, "PPS_NUT"},
		{h265.NALUType_AUD_NUT, 35, "AUD_NUT"},
		{h265.NALUType_EOS_NUT, 36, "EOS_NUT"},
		{h265.NALUType_EOB_NUT, 37, "EOB_NUT"},
		{h265.NALUType_FD_NUT, 38, "FD_NUT"},
		{h265.NALUType_PREFIX_SEI_NUT, 39, "PrefixSEINUT"},
		{h265.NALUType_SUFFIX_SEI_NUT, 40, "SuffixSEINUT"},
		{h265.NALUType_AggregationUnit, 48, "AggregationUnit"},
		{h265.NALUType_FragmentationUnit, 49, "FragmentationUnit"},
		{h265.NALUType_PACI, 50, "PACI"},
	} {
		vnd.Assert(byte(x.typ) == x.n, "number of the type")
		if t == x.n {
			vnd.Assert(h265.NALUType(t).String() == x.name, "name of the type")
			known = true
		}
	}
	if !known {
		_ = h265.NALUType(t).String()
	}
	vnd.Reach("ok")
}
