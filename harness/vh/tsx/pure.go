package tsx

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureOpusAU performs VH_OpusAU twice.
//
//vh: prop=P41 case:flags=0..7 case:size=0,3,256 case:ext=0,5 merge=conc unwind=20000 steps=20000000
func VH_PureOpusAU() {
	bw.Twice(VH_OpusAU)
}

// VH_PureOpusDescCode performs VH_OpusDescCode twice.
//
//vh: prop=P41 case:n=1..3 merge=conc unwind=20000 steps=20000000
func VH_PureOpusDescCode() {
	bw.Twice(VH_OpusDescCode)
}

// VH_PureOpusDescExplicit performs VH_OpusDescExplicit twice.
//
//vh: prop=P41 case:ch=1..6,9 case:sm=0..1 case:cm=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureOpusDescExplicit() {
	bw.Twice(VH_OpusDescExplicit)
}

// VH_PureOpusDescMarshal performs VH_OpusDescMarshal twice.
//
//vh: prop=P41 case:ch=1..3 case:sc=1..3 case:cc=0..2 case:fam=0,1 merge=conc unwind=20000 steps=20000000
func VH_PureOpusDescMarshal() {
	bw.Twice(VH_OpusDescMarshal)
}

// VH_PureCell performs VH_Cell twice.
//
//vh: prop=P41 case:n=0..3 merge=conc unwind=20000 steps=20000000
func VH_PureCell() {
	bw.Twice(VH_Cell)
}

// VH_PureSTD performs VH_STD twice.
//
//vh: prop=P41  merge=conc unwind=20000 steps=20000000
func VH_PureSTD() {
	bw.Twice(VH_STD)
}

// VH_PureMetadata performs VH_Metadata twice.
//
//vh: prop=P41 case:flags=0..7 case:form=0..3 case:n=0,1,3 case:priv=0,4 merge=conc unwind=20000 steps=20000000
func VH_PureMetadata() {
	bw.Twice(VH_Metadata)
}

// VH_PureMuxChunks performs VH_MuxChunks twice.
//
//vh: prop=P41 case:mix=0..6 case:n=188,1316 case:g=0 merge=conc unwind=20000 steps=20000000
func VH_PureMuxChunks() {
	bw.Twice(VH_MuxChunks)
}

// VH_PureMuxConfig performs VH_MuxConfig twice.
//
//vh: prop=P41 case:k=0..3 case:x=3 case:y=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureMuxConfig() {
	bw.Twice(VH_MuxConfig)
}
