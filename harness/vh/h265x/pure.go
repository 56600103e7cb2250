package h265x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureSPS performs VH_SPS twice.
//
//vh: prop=P41 quick:o=0..7 thorough:o=0..63 merge=conc unwind=20000 steps=20000000
func VH_PureSPS() {
	bw.Twice(VH_SPS)
}

// VH_PurePPS performs VH_PPS twice.
//
//vh: prop=P41 case:o=0..3 case:hb=0..1 merge=conc unwind=20000 steps=20000000
func VH_PurePPS() {
	bw.Twice(VH_PPS)
}

// VH_PureSPSInter performs VH_SPSInter twice.
//
//vh: prop=P41 case:sign=0..1 case:abs=0 case:mask=0..4 merge=conc unwind=20000 steps=20000000
func VH_PureSPSInter() {
	bw.Twice(VH_SPSInter)
}

// VH_PureRandomAccess performs VH_RandomAccess twice.
//
//vh: prop=P41 case:k=0..3 case:empty=-1..0 merge=conc unwind=20000 steps=20000000
func VH_PureRandomAccess() {
	bw.Twice(VH_RandomAccess)
}

// VH_PureDTSChange performs VH_DTSChange twice.
//
//vh: prop=P41 case:chg=0..1 case:ks=0,4 case:ro=0,1 case:ptsb=20 merge=conc unwind=20000 steps=20000000
func VH_PureDTSChange() {
	bw.Twice(VH_DTSChange)
}
