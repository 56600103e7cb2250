package h264x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReuseSPS is VH_SPS, with structures that have already been used.
//
//vh: prop=P35 quick:o=0..15 thorough:o=0..63 merge=conc
func VH_ReuseSPS() {
	bw.Reuse = true
	VH_SPS()
}

// VH_ReuseSPSHigh is VH_SPSHigh, with structures that have already been used.
//
//vh: prop=P35 case:cf=0..3 case:sep=0..1 quick:o=0..2 thorough:o=0..7 merge=conc
func VH_ReuseSPSHigh() {
	bw.Reuse = true
	VH_SPSHigh()
}

// VH_ReuseSPSScaling is VH_SPSScaling, with structures that have already been used.
//
//vh: prop=P35 quick:li=0,6,11 thorough:li=0..11 case:stop=0,6,99 case:cf=1,3 merge=conc
func VH_ReuseSPSScaling() {
	bw.Reuse = true
	VH_SPSScaling()
}

// VH_ReuseAVCCRoundTrip is VH_AVCCRoundTrip, with structures that have already been used.
//
//vh: prop=P35 case:k=1..3 case:l0=1..3 case:l1=1 merge=conc
func VH_ReuseAVCCRoundTrip() {
	bw.Reuse = true
	VH_AVCCRoundTrip()
}

// VH_ReuseAnnexBRoundTrip is VH_AnnexBRoundTrip, with structures that have already been used.
//
//vh: prop=P35 case:k=1..3 case:l0=1..3 case:l1=1 merge=conc
func VH_ReuseAnnexBRoundTrip() {
	bw.Reuse = true
	VH_AnnexBRoundTrip()
}
