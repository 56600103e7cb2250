package audiox

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureASC performs VH_ASC twice.
//
//vh: prop=P41 case:sr=0,3,13 case:ext=0..2 case:core=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureASC() {
	bw.Twice(VH_ASC)
}

// VH_PureASCMarshal performs VH_ASCMarshal twice.
//
//vh: prop=P41 case:ext=0..2 case:core=0..1 case:cfg=0,5 merge=conc unwind=20000 steps=20000000
func VH_PureASCMarshal() {
	bw.Twice(VH_ASCMarshal)
}

// VH_PurePCE performs VH_PCE twice.
//
//vh: prop=P41 case:f=1,2 case:s=1 case:b=0..1 case:l=1 case:m=0..1 merge=conc unwind=20000 steps=20000000
func VH_PurePCE() {
	bw.Twice(VH_PCE)
}

// VH_PureRawSkip performs VH_RawSkip twice.
//
//vh: prop=P41 case:k=0..4 case:n=1 case:el=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureRawSkip() {
	bw.Twice(VH_RawSkip)
}

// VH_PureADTS performs VH_ADTS twice.
//
//vh: prop=P41 case:k=0..3 case:sz=0..4 merge=conc unwind=20000 steps=20000000
func VH_PureADTS() {
	bw.Twice(VH_ADTS)
}

// VH_PureMPEG1 performs VH_MPEG1 twice.
//
//vh: prop=P41 case:ver=0 case:br=5 case:lay=1,2 merge=conc unwind=20000 steps=20000000
func VH_PureMPEG1() {
	bw.Twice(VH_MPEG1)
}

// VH_PureAC3Sync performs VH_AC3Sync twice.
//
//vh: prop=P41 case:fs=0..2 merge=conc unwind=20000 steps=20000000
func VH_PureAC3Sync() {
	bw.Twice(VH_AC3Sync)
}

// VH_PureAC3BSI performs VH_AC3BSI twice.
//
//vh: prop=P41 case:acmod=0,2,7 merge=conc unwind=20000 steps=20000000
func VH_PureAC3BSI() {
	bw.Twice(VH_AC3BSI)
}

// VH_PureEAC3 performs VH_EAC3 twice.
//
//vh: prop=P41 case:fs=0..3 case:acmod=2,7 merge=conc unwind=20000 steps=20000000
func VH_PureEAC3() {
	bw.Twice(VH_EAC3)
}

// VH_PureOpusDur performs VH_OpusDur twice.
//
//vh: prop=P41 case:n=0..4 merge=conc unwind=20000 steps=20000000
func VH_PureOpusDur() {
	bw.Twice(VH_OpusDur)
}

// VH_PureOpusID performs VH_OpusID twice.
//
//vh: prop=P41 case:n=0..12 merge=conc unwind=20000 steps=20000000
func VH_PureOpusID() {
	bw.Twice(VH_OpusID)
}

// VH_PureFLAC performs VH_FLAC twice.
//
//vh: prop=P41 case:more=0..2 merge=conc unwind=20000 steps=20000000
func VH_PureFLAC() {
	bw.Twice(VH_FLAC)
}

// VH_PureG711Decode performs VH_G711Decode twice.
//
//vh: prop=P41 case:n=0..3 case:law=0..1 merge=full unwind=20000 steps=20000000
func VH_PureG711Decode() {
	bw.Twice(VH_G711Decode)
}

// VH_PureG711Order performs VH_G711Order twice.
//
//vh: prop=P41 case:n=0..9 case:law=0..1 merge=full unwind=20000 steps=20000000
func VH_PureG711Order() {
	bw.Twice(VH_G711Order)
}

// VH_PureSMC performs VH_SMC twice.
//
//vh: prop=P41 quick:o=0..11 thorough:o=0..80 merge=conc unwind=20000 steps=20000000
func VH_PureSMC() {
	bw.Twice(VH_SMC)
}

// VH_PureAME performs VH_AME twice.
//
//vh: prop=P41 quick:o=0..7 thorough:o=0..71 case:cfg=0..2 case:sz=0..2 merge=conc unwind=20000 steps=20000000
func VH_PureAME() {
	bw.Twice(VH_AME)
}

// VH_PureLOAS performs VH_LOAS twice.
//
//vh: prop=P41 case:sz=0..4 merge=conc unwind=20000 steps=20000000
func VH_PureLOAS() {
	bw.Twice(VH_LOAS)
}
