package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// miniGOP returns the display positions, in decoding order, of a group of frames whose last displayed frame is decoded first:
// index 0..33 enumerates all the orders of groups of 1 to 5 frames.
func miniGOP(idx int) []int {
	n, count := 1, 1
	for idx >= count {
		idx -= count
		n++
		count = 1
		for k := 2; k < n; k++ {
			count *= k
		}
	}
	var rest []int
	for k := 1; k < n; k++ {
		rest = append(rest, k)
	}
	out := []int{n}
	for len(rest) > 0 {
		p := idx % len(rest)
		idx /= len(rest)
		out = append(out, rest[p])
		rest = append(append([]int(nil), rest[:p]...), rest[p+1:]...)
	}
	return out
}

// VH_DTSRegular: streams with a constant frame interval and a constant reordering pattern are accepted from the first
// random access unit, and after discovery timestamps are evenly spaced and at most two frames earlier than they could be.
//
//vh: prop=P43 case:pat=0..33 quick:ival=0,1 thorough:ival=0..5 quick:gop=6 thorough:gop=6,9 quick:pb=5,6 thorough:pb=5,6,16 merge=conc secs=200
func VH_DTSRegular() {
	pat := miniGOP(vnd.Case("pat"))
	regular(pat, pat, 2, vnd.Case("pb"))
}

// VH_DTSIncrement: streams without reordering settle on evenly spaced timestamps with any increment of the picture order
// count.
//
//vh: prop=P43 case:inc=1,2,4 case:ival=0..5 case:gop=6,70 case:pb=4,5,16 merge=conc secs=200
func VH_DTSIncrement() {
	regular([]int{1}, []int{1}, vnd.Case("inc"), vnd.Case("pb"))
}

// VH_DTSMixed: the same with two patterns that alternate.
//
//vh: prop=P43 case:pat=0..33 case:pat2=0..33 case:ival=0 case:gop=8 case:pb=6 merge=conc secs=200
func VH_DTSMixed() {
	regular(miniGOP(vnd.Case("pat")), miniGOP(vnd.Case("pat2")), 2, vnd.Case("pb"))
}

func regular(pat, pat2 []int, inc, pb int) {
	var d h264.DTSExtractor
	d.Initialize()
	ival := int64([]int{3003, 750, 375, 1500, 3600, 18000}[vnd.Case("ival")])
	start := int64(vnd.Bits("start", 33))
	var prev int64
	near := false
	count, disp := 0, 0
	for g := 0; g < 2; g++ {
		order := []int{0}
		for k := 0; k < max(vnd.Case("gop"), 20/min(len(pat), len(pat2))); k++ {
			last := len(order) - 1
			for _, p := range pat {
				order = append(order, last+p)
			}
			pat, pat2 = pat2, pat
		}
		for i, p := range order {
			var au [][]byte
			hdr := uint64(0x41)
			if i == 0 {
				au = append(au, dtsSPS(5, pb, 0, true))
				hdr = 0x65
			} else if count%3 == 0 {
				hdr = 0x01
			}
			au = append(au, slice(hdr, 5, pb, count, i == 0, uint64(inc*p)&(1<<uint(pb)-1)))
			pts := start + int64(disp+p)*ival
			au = bw.Room(au)
			bw.In(au)
			dts, err := d.Extract(au, pts)
			vnd.Assert(err == nil, "unit of a regular stream is accepted")
			if count > 0 {
				vnd.Assert(dts >= prev, "DTS does not decrease")
				vnd.Assert(vnd.Or(dts <= pts, dts == prev+90), "DTS is not beyond PTS")
			}
			if count >= 30 {
				vnd.Assert(dts == prev+ival, "settled timestamps are evenly spaced")
				near = vnd.Or(near, dts >= pts-2*ival)
			}
			prev = dts
			count++
		}
		disp += len(order)
	}
	vnd.Assert(near, "timestamps are not too early")
	vnd.Reach("ok")
}
