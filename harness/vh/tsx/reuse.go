package tsx

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReuseOpusAU is VH_OpusAU, with structures that have already been used.
//
//vh: prop=P35 case:flags=0..7 case:size=0,3,256 case:ext=0,5 merge=conc unwind=20000
func VH_ReuseOpusAU() {
	bw.Reuse = true
	VH_OpusAU()
}

// VH_ReuseOpusDescCode is VH_OpusDescCode, with structures that have already been used.
//
//vh: prop=P35 case:n=1..3 merge=conc
func VH_ReuseOpusDescCode() {
	bw.Reuse = true
	VH_OpusDescCode()
}

// VH_ReuseOpusDescExplicit is VH_OpusDescExplicit, with structures that have already been used.
//
//vh: prop=P35 case:ch=1..6,9 case:sm=0..2 case:cm=0..2 merge=conc
func VH_ReuseOpusDescExplicit() {
	bw.Reuse = true
	VH_OpusDescExplicit()
}

// VH_ReuseOpusDescFamily0 is VH_OpusDescFamily0, with structures that have already been used.
//
//vh: prop=P35 merge=conc
func VH_ReuseOpusDescFamily0() {
	bw.Reuse = true
	VH_OpusDescFamily0()
}

// VH_ReuseOpusDescMarshal is VH_OpusDescMarshal, with structures that have already been used.
//
//vh: prop=P35 case:ch=1..3 case:sc=1..3 case:cc=0..2 case:fam=0,1 merge=conc
func VH_ReuseOpusDescMarshal() {
	bw.Reuse = true
	VH_OpusDescMarshal()
}

// VH_ReuseCell is VH_Cell, with structures that have already been used.
//
//vh: prop=P35 case:n=0..3 merge=conc
func VH_ReuseCell() {
	bw.Reuse = true
	VH_Cell()
}

// VH_ReuseSTD is VH_STD, with structures that have already been used.
//
//vh: prop=P35 merge=conc
func VH_ReuseSTD() {
	bw.Reuse = true
	VH_STD()
}

// VH_ReuseMetadata is VH_Metadata, with structures that have already been used.
//
//vh: prop=P35 case:flags=0..7 case:form=0..7 case:n=0,1,3 case:priv=0,4 merge=conc
func VH_ReuseMetadata() {
	bw.Reuse = true
	VH_Metadata()
}
