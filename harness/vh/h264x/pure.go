package h264x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureSPS performs VH_SPS twice.
//
//vh: prop=P41 quick:o=0..7 thorough:o=0..63 merge=conc unwind=20000 steps=20000000
func VH_PureSPS() {
	bw.Twice(VH_SPS)
}

// VH_PureSPSHigh performs VH_SPSHigh twice.
//
//vh: prop=P41 case:cf=1,3 case:sep=0..1 case:o=0 merge=conc unwind=20000 steps=20000000
func VH_PureSPSHigh() {
	bw.Twice(VH_SPSHigh)
}

// VH_PureSPSScaling performs VH_SPSScaling twice.
//
//vh: prop=P41 case:li=0,6 case:stop=0,99 case:cf=1 merge=conc unwind=20000 steps=20000000
func VH_PureSPSScaling() {
	bw.Twice(VH_SPSScaling)
}

// VH_PureAVCCRoundTrip performs VH_AVCCRoundTrip twice.
//
//vh: prop=P41 case:k=1..3 case:l0=1..3 case:l1=1 merge=conc unwind=20000 steps=20000000
func VH_PureAVCCRoundTrip() {
	bw.Twice(VH_AVCCRoundTrip)
}

// VH_PureAnnexBRoundTrip performs VH_AnnexBRoundTrip twice.
//
//vh: prop=P41 case:k=1..3 case:l0=1..3 case:l1=1 merge=conc unwind=20000 steps=20000000
func VH_PureAnnexBRoundTrip() {
	bw.Twice(VH_AnnexBRoundTrip)
}

// VH_PureEPRRoundTrip performs VH_EPRRoundTrip twice.
//
//vh: prop=P41 quick:n=0..7 thorough:n=0..10 merge=conc unwind=20000 steps=20000000
func VH_PureEPRRoundTrip() {
	bw.Twice(VH_EPRRoundTrip)
}

// VH_PureEPRAny performs VH_EPRAny twice.
//
//vh: prop=P41 quick:n=4..9 thorough:n=0..14 merge=conc unwind=20000 steps=20000000
func VH_PureEPRAny() {
	bw.Twice(VH_EPRAny)
}

// VH_PureRandomAccess performs VH_RandomAccess twice.
//
//vh: prop=P41 case:k=0..3 case:empty=-1..0 merge=conc unwind=20000 steps=20000000
func VH_PureRandomAccess() {
	bw.Twice(VH_RandomAccess)
}

// VH_PureAVCCAny performs VH_AVCCAny twice.
//
//vh: prop=P41 quick:n=0..10 thorough:n=0..18 merge=conc unwind=20000 steps=20000000
func VH_PureAVCCAny() {
	bw.Twice(VH_AVCCAny)
}

// VH_PureAnnexBAny performs VH_AnnexBAny twice.
//
//vh: prop=P41 quick:n=0..8 thorough:n=0..11 merge=conc unwind=20000 steps=20000000
func VH_PureAnnexBAny() {
	bw.Twice(VH_AnnexBAny)
}

// VH_PureDTSChange performs VH_DTSChange twice.
//
//vh: prop=P41 case:chg=0..1 case:kinds=0,4 case:pt=0,2 case:ptsb=20 merge=conc unwind=20000 steps=20000000
func VH_PureDTSChange() {
	bw.Twice(VH_DTSChange)
}
