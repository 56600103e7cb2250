package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// VH_RandomAccess: an access unit is random access exactly when it contains an IDR unit.
//
//vh: prop=P36,P03 case:k=0..5 case:empty=-1..3 merge=conc
func VH_RandomAccess() {
	k := vnd.Case("k")
	var au [][]byte
	exp := false
	for i := 0; i < k; i++ {
		if i == vnd.Case("empty") {
			au = append(au, nil)
			continue
		}
		n := []byte{vnd.Byte("h", i), vnd.Byte("b", i)}
		if i == 2 {
			n = n[:1]
		}
		exp = vnd.Or(exp, n[0]&0x1F == 5)
		au = append(au, n)
	}
	au = bw.Room(au)
	bw.In(au)
	vnd.Assert(h264.IsRandomAccess(au) == exp, "IDR unit present")
}

// VH_DTSAny: feeding arbitrary units to the DTS extractor never panics.
//
//vh: prop=P03 quick:n=0..4 thorough:n=0..8 case:pre=0..2 merge=conc
func VH_DTSAny() {
	var d h264.DTSExtractor
	d.Initialize()
	switch vnd.Case("pre") {
	case 1:
		d.Extract([][]byte{dtsSPS(4, 4, 0, true), idr(4, 4, 0)}, 0) //nolint:errcheck
	case 2:
		d.Extract([][]byte{dtsSPS(4, 5, 0, true)}, 0) //nolint:errcheck
	}
	d.Extract([][]byte{nil, vnd.Bytes("buf", vnd.Case("n"))}, vnd.Int64("pts")) //nolint:errcheck
}

// dtsSPS is a SPS with the given frame number and POC widths.
func dtsSPS(fn, pocBits, pocType int, frameMbs bool) []byte {
	w := &bw.W{}
	w.U(0x67, 8)
	w.U(66, 8)
	w.U(0, 8)
	w.U(30, 8)
	w.UEv(0)
	w.UEv(uint32(fn - 4))
	w.UEv(uint32(pocType))
	switch pocType {
	case 0:
		w.UEv(uint32(pocBits - 4))
	case 1:
		w.F(true)
		w.SEv(1)
		w.SEv(-1)
		w.UEv(1)
		w.SEv(2)
	}
	w.UEv(4)
	w.F(false)
	w.UEv(119)
	w.UEv(67)
	w.F(frameMbs)
	if !frameMbs {
		w.F(false)
	}
	w.F(true)
	w.F(false)
	w.F(false)
	w.Trail()
	return w.Escaped(1)
}

func slice(hdr uint64, fn, pocBits int, i int, isIDR bool, poc uint64) []byte {
	w := &bw.W{}
	w.U(hdr, 8)
	w.UEv(0)
	w.UEv(7)
	w.UEv(0)
	w.U(1<<uint(fn)-1, fn)
	if isIDR {
		w.UEv(1)
	}
	w.V(poc, pocBits)
	w.U(1, 1)
	w.Trail()
	return w.Escaped(1)
}

func idr(fn, pocBits int, i int) []byte {
	return slice(0x65, fn, pocBits, i, true, vnd.Bits("poc", pocBits, i))
}

// VH_DTS: over sequences of access units (IDR, non-IDR reference and non-reference slices, no slice, any POC) and any PTS,
// results obey the monotonicity and the PTS bound.
//
//vh: prop=P12 case:kinds=2 quick:seq=0..8 thorough:seq=0..26 case:pt=0..3 case:pb=4 quick:ptsb=20 thorough:ptsb=33 merge=conc secs=200
func VH_DTS() {
	var d h264.DTSExtractor
	d.Initialize()
	pt := vnd.Case("pt") // 3: interlaced
	pb := vnd.Case("pb")
	ptsb := vnd.Case("ptsb")
	filled := false
	var prev int64
	seq := vnd.Case("seq")
	n := vnd.Case("kinds") + 1
	if seq >= 9 {
		n++
	}
	for i := 0; i < n; i++ {
		kind := 3
		if i > 0 {
			kind = seq % 3
			seq /= 3
		}
		pts := int64(vnd.Bits("pts", ptsb, i)) - 1<<uint(ptsb-1)
		poc := uint64(vnd.Concrete(int(vnd.Bits("poc", pb, i))))
		var au [][]byte
		if i == 0 {
			au = append(au, dtsSPS(5, pb, pt%3, pt != 3))
		}
		switch kind {
		case 0:
			au = append(au, slice(0x41, 5, pb, i, false, poc))
		case 1:
			au = append(au, slice(0x01, 5, pb, i, false, poc))
		case 2:
			if i == 2 {
				au = append(au, []byte{0x06, 1}) // no slice
			} else {
				au = append(au, slice(0x65, 5, pb, i, true, poc))
			}
		case 3:
			au = append(au, []byte{0x09, 0xF0}, slice(0x65, 5, pb, i, true, poc))
		}
		au = bw.Room(au)
	bw.In(au)
		dts, err := d.Extract(au, pts)
		if pt >= 2 {
			vnd.Assert(err == nil || (filled && pts < prev), "no reordering: PTS accepted unless it goes back")
		}
		if pt == 1 {
			vnd.Assert(err != nil, "POC type 1 is rejected")
		}
		if err != nil {
			continue
		}
		if pt >= 2 {
			vnd.Assert(dts == pts, "no reordering: DTS equals PTS")
		}
		if filled {
			vnd.Assert(dts >= prev, "DTS does not decrease")
			vnd.Assert(vnd.Or(dts <= pts, dts == prev+90), "DTS is not beyond PTS")
		} else {
			vnd.Assert(dts <= pts, "first DTS is not beyond PTS")
		}
		filled = true
		prev = dts
	}
	vnd.Reach("ok")
}

// VH_DTSChange: parameter set changes in the middle of a stream do not break the order of timestamps.
//
//vh: prop=P12 case:chg=0..8 quick:kinds=0,4,6 thorough:kinds=0..8 case:pt=0,2,3 quick:ptsb=20 thorough:ptsb=33 merge=conc secs=200
func VH_DTSChange() {
	var d h264.DTSExtractor
	d.Initialize()
	ptsb := vnd.Case("ptsb")
	chg, kinds := vnd.Case("chg")*3+1, vnd.Case("kinds")*3
	pb := 4
	pt := vnd.Case("pt")
	filled := false
	var prev int64
	for i := 0; i < 3; i++ {
		var au [][]byte
		switch chg % 3 {
		case 1:
			au = append(au, dtsSPS(5, pb, pt%3, pt != 3))
		case 2:
			pb, pt = 5, 0
			au = append(au, dtsSPS(5, pb, 0, true))
		}
		chg /= 3
		switch kinds % 3 {
		case 0:
			au = append(au, slice(0x65, 5, pb, i, true, uint64(2*i)))
		case 1:
			au = append(au, slice(0x41, 5, pb, i, false, uint64(6-2*i)))
		case 2:
			au = append(au, []byte{0x06, 1})
		}
		kinds /= 3
		pts := int64(vnd.Bits("pts", ptsb, i)) - 1<<uint(ptsb-1)
		au = bw.Room(au)
	bw.In(au)
		dts, err := d.Extract(au, pts)
		if err != nil {
			continue
		}
		if filled {
			vnd.Assert(dts >= prev, "DTS does not decrease")
			vnd.Assert(vnd.Or(dts <= pts, dts == prev+90), "DTS is not beyond PTS")
		} else {
			vnd.Assert(dts <= pts, "first DTS is not beyond PTS")
		}
		filled = true
		prev = dts
	}
	vnd.Reach("ok")
}

// VH_DTSLong: long sequences in which the reordering is discovered late, several times, or never.
//
//vh: prop=P12 case:pat=0..9 quick:n=7 thorough:n=7,20 quick:step=90 thorough:step=1,25,90,3003 merge=conc secs=200
func VH_DTSLong() {
	var d h264.DTSExtractor
	d.Initialize()
	pat := vnd.Case("pat")
	pocs := [10][]int{
		{2, 4, 6, 8}, {4, 2, 8, 6}, {6, 4, 2, 12, 10, 8}, {2, 4, 10, 8, 6}, {8, 4, 2, 6, 16, 12, 10, 14},
		{1, 2, 3, 4}, {2, 1, 4, 3}, {4, 8, 12, 16}, {8, 4, 16, 12}, {20, 18, 16, 14, 12, 10, 8, 6, 4, 2},
	}[pat]
	filled := false
	var prev int64
	base := int64(vnd.Bits("start", 33))
	step := int64(vnd.Case("step"))
	top := 0
	for _, p := range pocs {
		top = max(top, p)
	}
	for i := 0; i < vnd.Case("n"); i++ {
		var au [][]byte
		poc := 0
		if i == 0 {
			au = append(au, dtsSPS(5, 6, 0, true), slice(0x65, 5, 6, i, true, 0))
		} else {
			poc = pocs[(i-1)%len(pocs)] + (i-1)/len(pocs)*top
			au = append(au, slice(0x41, 5, 6, i, false, uint64(poc&63)))
		}
		pts := base + int64(poc)*step
		au = bw.Room(au)
	bw.In(au)
		dts, err := d.Extract(au, pts)
		if err != nil {
			continue
		}
		if filled {
			vnd.Assert(dts >= prev, "DTS does not decrease")
			vnd.Assert(vnd.Or(dts <= pts, dts == prev+90), "DTS is not beyond PTS")
		} else {
			vnd.Assert(dts <= pts, "first DTS is not beyond PTS")
		}
		filled = true
		prev = dts
	}
	vnd.Reach("ok")
}
