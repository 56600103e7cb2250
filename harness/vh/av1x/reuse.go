package av1x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReuseLEB128Dec is VH_LEB128Dec, with structures that have already been used.
//
//vh: prop=P35 case:n=0..9 merge=conc
func VH_ReuseLEB128Dec() {
	bw.Reuse = true
	VH_LEB128Dec()
}

// VH_ReuseBitstream is VH_Bitstream, with structures that have already been used.
//
//vh: prop=P35 case:a=0,1,2 case:b=-1,0,2 case:c=-1,1 case:sz=0..7 merge=conc
func VH_ReuseBitstream() {
	bw.Reuse = true
	VH_Bitstream()
}

// VH_ReuseOBUHeader is VH_OBUHeader, with structures that have already been used.
//
//vh: prop=P35 case:n=0..2 merge=conc
func VH_ReuseOBUHeader() {
	bw.Reuse = true
	VH_OBUHeader()
}

// VH_ReuseSeq is VH_Seq, with structures that have already been used.
//
//vh: prop=P35 quick:o=0..31 thorough:o=0..127 case:reduced=0..1 merge=conc
func VH_ReuseSeq() {
	bw.Reuse = true
	VH_Seq()
}

// VH_ReuseSeqColor is VH_SeqColor, with structures that have already been used.
//
//vh: prop=P35 case:p=0..2 case:depth=0..2 case:mono=0..1 case:desc=0..2 case:sub=0..2 merge=conc
func VH_ReuseSeqColor() {
	bw.Reuse = true
	VH_SeqColor()
}
