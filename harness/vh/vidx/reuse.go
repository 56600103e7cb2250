package vidx

import "github.com/bluenviron/mediacommon/v2/internal/vh/bw"

// VH_ReuseVP9 is VH_VP9, with structures that have already been used.
//
//vh: prop=P35 case:prof=0..3 case:kind=0..2 case:rgb=0..1 merge=conc
func VH_ReuseVP9() {
	bw.Reuse = true
	VH_VP9()
}

// VH_ReuseDQT is VH_DQT, with structures that have already been used.
//
//vh: prop=P35 case:n=0..4 case:pre=0,3 merge=conc
func VH_ReuseDQT() {
	bw.Reuse = true
	VH_DQT()
}

// VH_ReuseSOF is VH_SOF, with structures that have already been used.
//
//vh: prop=P35 case:typ=0,1 case:qt=1,2 merge=conc
func VH_ReuseSOF() {
	bw.Reuse = true
	VH_SOF()
}

// VH_ReuseJPEGRest is VH_JPEGRest, with structures that have already been used.
//
//vh: prop=P35 case:n=0..12 merge=conc
func VH_ReuseJPEGRest() {
	bw.Reuse = true
	VH_JPEGRest()
}
