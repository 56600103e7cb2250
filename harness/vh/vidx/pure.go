package vidx

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_PureVP9 performs VH_VP9 twice.
//
//vh: prop=P41 case:prof=0..3 case:kind=0..2 case:rgb=0 merge=conc unwind=20000 steps=20000000
func VH_PureVP9() {
	bw.Twice(VH_VP9)
}

// VH_PureVP9RA performs VH_VP9RA twice.
//
//vh: prop=P41 case:n=0..6 merge=conc unwind=20000 steps=20000000
func VH_PureVP9RA() {
	bw.Twice(VH_VP9RA)
}

// VH_PureVP8RA performs VH_VP8RA twice.
//
//vh: prop=P41 case:n=0..6 merge=conc unwind=20000 steps=20000000
func VH_PureVP8RA() {
	bw.Twice(VH_VP8RA)
}

// VH_PureMPEG4Video performs VH_MPEG4Video twice.
//
//vh: prop=P41 case:n=0..8 case:mid=0..1 merge=conc unwind=20000 steps=20000000
func VH_PureMPEG4Video() {
	bw.Twice(VH_MPEG4Video)
}

// VH_PureDQT performs VH_DQT twice.
//
//vh: prop=P41 case:n=0..4 case:pre=0,3 merge=conc unwind=20000 steps=20000000
func VH_PureDQT() {
	bw.Twice(VH_DQT)
}

// VH_PureSOF performs VH_SOF twice.
//
//vh: prop=P41 case:typ=0,1 case:qt=1,2 merge=conc unwind=20000 steps=20000000
func VH_PureSOF() {
	bw.Twice(VH_SOF)
}

// VH_PureJPEGRest performs VH_JPEGRest twice.
//
//vh: prop=P41 case:n=0..12 merge=conc unwind=20000 steps=20000000
func VH_PureJPEGRest() {
	bw.Twice(VH_JPEGRest)
}

// VH_PureDHT performs VH_DHT twice.
//
//vh: prop=P41 case:syms=0,3,12 merge=conc unwind=20000 steps=20000000
func VH_PureDHT() {
	bw.Twice(VH_DHT)
}
