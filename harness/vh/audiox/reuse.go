package audiox

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReuseASC is VH_ASC, with structures that have already been used.
//
//vh: prop=P35 case:sr=0..13 case:ext=0..2 case:core=0..1 merge=conc
func VH_ReuseASC() {
	bw.Reuse = true
	VH_ASC()
}

// VH_ReuseADTS is VH_ADTS, with structures that have already been used.
//
//vh: prop=P35 case:k=0..3 case:sz=0..5 merge=conc unwind=20000
func VH_ReuseADTS() {
	bw.Reuse = true
	VH_ADTS()
}

// VH_ReuseMPEG1 is VH_MPEG1, with structures that have already been used.
//
//vh: prop=P35 case:ver=0..1 case:br=0..15 case:lay=0..3 merge=conc
func VH_ReuseMPEG1() {
	bw.Reuse = true
	VH_MPEG1()
}

// VH_ReuseAC3Sync is VH_AC3Sync, with structures that have already been used.
//
//vh: prop=P35 case:fs=0..3 merge=conc
func VH_ReuseAC3Sync() {
	bw.Reuse = true
	VH_AC3Sync()
}

// VH_ReuseAC3BSI is VH_AC3BSI, with structures that have already been used.
//
//vh: prop=P35 case:acmod=0..7 merge=conc
func VH_ReuseAC3BSI() {
	bw.Reuse = true
	VH_AC3BSI()
}

// VH_ReuseEAC3 is VH_EAC3, with structures that have already been used.
//
//vh: prop=P35 case:fs=0..3 case:acmod=0..7 merge=conc
func VH_ReuseEAC3() {
	bw.Reuse = true
	VH_EAC3()
}

// VH_ReuseOpusID is VH_OpusID, with structures that have already been used.
//
//vh: prop=P35 case:n=0..12 merge=conc
func VH_ReuseOpusID() {
	bw.Reuse = true
	VH_OpusID()
}

// VH_ReuseFLAC is VH_FLAC, with structures that have already been used.
//
//vh: prop=P35 case:more=0..2 merge=conc
func VH_ReuseFLAC() {
	bw.Reuse = true
	VH_FLAC()
}

// VH_ReuseG711Decode is VH_G711Decode, with structures that have already been used.
//
//vh: prop=P35 case:n=0..3 case:law=0..1 merge=full
func VH_ReuseG711Decode() {
	bw.Reuse = true
	VH_G711Decode()
}

// VH_ReuseSMC is VH_SMC, with structures that have already been used.
//
//vh: prop=P35 quick:o=0..39 thorough:o=0..160 merge=conc
func VH_ReuseSMC() {
	bw.Reuse = true
	VH_SMC()
}

// VH_ReuseLOAS is VH_LOAS, with structures that have already been used.
//
//vh: prop=P35 case:sz=0..4 merge=conc unwind=20000
func VH_ReuseLOAS() {
	bw.Reuse = true
	VH_LOAS()
}
