package h265x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReusePPS is VH_PPS, with structures that have already been used.
//
//vh: prop=P35 case:o=0..15 case:hb=0..1 merge=conc
func VH_ReusePPS() {
	bw.Reuse = true
	VH_PPS()
}

// VH_ReuseSPS is VH_SPS, with structures that have already been used.
//
//vh: prop=P35 quick:o=0..15 thorough:o=0..63 merge=conc
func VH_ReuseSPS() {
	bw.Reuse = true
	VH_SPS()
}

// VH_ReuseSPSInter is VH_SPSInter, with structures that have already been used.
//
//vh: prop=P35 case:sign=0..1 case:abs=0,2 case:mask=0..4 merge=conc
func VH_ReuseSPSInter() {
	bw.Reuse = true
	VH_SPSInter()
}
