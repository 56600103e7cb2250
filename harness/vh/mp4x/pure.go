package mp4x

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PurePartsRoundTrip performs VH_PartsRoundTrip twice.
//
//vh: prop=P41 quick:shape=4..8 quick:size=0,3 thorough:shape=0..14 thorough:size=0,3 merge=conc unwind=20000 steps=20000000
func VH_PurePartsRoundTrip() {
	bw.Twice(VH_PartsRoundTrip)
}

// VH_PureInitRoundTrip performs VH_InitRoundTrip twice.
//
//vh: prop=P41 quick:codec=0..13 quick:n=1 merge=conc unwind=20000 steps=20000000
func VH_PureInitRoundTrip() {
	bw.Twice(VH_InitRoundTrip)
}

// VH_PurePresOne performs VH_PresOne twice.
//
//vh: prop=P41 case:n=1..2 case:size=1 merge=conc unwind=20000 steps=20000000
func VH_PurePresOne() {
	bw.Twice(VH_PresOne)
}

// VH_PurePresTwo performs VH_PresTwo twice.
//
//vh: prop=P41 case:n=1 case:m=1..2 case:ts=0 merge=conc unwind=20000 steps=20000000
func VH_PurePresTwo() {
	bw.Twice(VH_PresTwo)
}

// VH_PurePresCodecs performs VH_PresCodecs twice.
//
//vh: prop=P41 case:codec=0..13 case:n=1 merge=conc unwind=20000 steps=20000000
func VH_PurePresCodecs() {
	bw.Twice(VH_PresCodecs)
}

// VH_PureSampleH26x performs VH_SampleH26x twice.
//
//vh: prop=P41 case:codec=0..1 case:k=1..2 case:l=1,3 case:reuse=0 case:api=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureSampleH26x() {
	bw.Twice(VH_SampleH26x)
}

// VH_PureSampleAV1 performs VH_SampleAV1 twice.
//
//vh: prop=P41 case:k=1..2 case:l=1,3 case:reuse=0 merge=conc unwind=20000 steps=20000000
func VH_PureSampleAV1() {
	bw.Twice(VH_SampleAV1)
}
