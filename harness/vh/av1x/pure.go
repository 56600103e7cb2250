package av1x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureLEB128 performs VH_LEB128 twice.
//
//vh: prop=P41 case:pad=0 merge=conc unwind=20000 steps=20000000
func VH_PureLEB128() {
	bw.Twice(VH_LEB128)
}

// VH_PureBitstream performs VH_Bitstream twice.
//
//vh: prop=P41 case:a=0,1,2 case:b=-1,0,2 case:c=-1,1 case:sz=0..7 merge=conc unwind=20000 steps=20000000
func VH_PureBitstream() {
	bw.Twice(VH_Bitstream)
}

// VH_PureSeq performs VH_Seq twice.
//
//vh: prop=P41 quick:o=0..7 thorough:o=0..63 case:reduced=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureSeq() {
	bw.Twice(VH_Seq)
}

// VH_PureSeqColor performs VH_SeqColor twice.
//
//vh: prop=P41 case:p=0..2 case:depth=0..2 case:mono=0..1 case:desc=0 case:sub=0 merge=conc unwind=20000 steps=20000000
func VH_PureSeqColor() {
	bw.Twice(VH_SeqColor)
}

// VH_PureOBUHeader performs VH_OBUHeader twice.
//
//vh: prop=P41 case:n=0..2 merge=conc unwind=20000 steps=20000000
func VH_PureOBUHeader() {
	bw.Twice(VH_OBUHeader)
}

// VH_PureRandomAccess performs VH_RandomAccess twice.
//
//vh: prop=P41 case:k=0..3 case:empty=-1..0 merge=conc unwind=20000 steps=20000000
func VH_PureRandomAccess() {
	bw.Twice(VH_RandomAccess)
}
