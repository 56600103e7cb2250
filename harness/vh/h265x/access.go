package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// VH_RandomAccess: an access unit is random access exactly when it contains an IDR or CRA unit.
//
//vh: prop=P36,P03 case:k=0..5 case:empty=-1..3 merge=conc
func VH_RandomAccess() {
	k := vnd.Case("k")
	var au [][]byte
	exp := false
	for i := 0; i < k; i++ {
		if i == vnd.Case("empty") {
			au = append(au, nil)
			continue
		}
		n := []byte{vnd.Byte("h", i), vnd.Byte("b", i)}
		if i == 2 {
			n = n[:1]
		}
		t := n[0] >> 1 & 63
		exp = vnd.Or(exp, vnd.And(t >= 19, t <= 21))
		au = append(au, n)
	}
	au = bw.Room(au)
	bw.In(au)
	vnd.Assert(h265.IsRandomAccess(au) == exp, "IDR or CRA unit present")
}

// dtsSPS is a SPS with the given number of reordered pictures.
func dtsSPS(reorder uint32, timing int, rps func(w *bw.W)) []byte {
	w := &bw.W{}
	w.U(0x42, 8)
	w.U(1, 8)
	w.U(1, 8)
	w.U(0x01, 8)
	w.U(0x60606060, 32)
	w.U(0x606060606060, 48)
	w.U(90, 8)
	w.UEv(0)
	w.UEv(1)
	w.UEv(1920)
	w.UEv(1080)
	w.F(false)
	w.UEv(0)
	w.UEv(0)
	w.UEv(0)
	w.F(true)
	w.UEv(4)
	w.UEv(reorder)
	w.UEv(0)
	for i := 0; i < 6; i++ {
		w.UEv(1)
	}
	w.F(false)
	w.F(false)
	w.F(false)
	w.F(false)
	rps(w)
	w.F(false)
	w.F(false)
	w.F(false)
	w.F(timing > 0)
	if timing > 0 {
		w.U(0, 8)
		w.F(true)
		switch timing {
		case 1:
			w.U(1001, 32)
			w.U(30000, 32)
		case 2:
			w.U(0, 32)
			w.U(0, 32)
		case 3:
			w.U(0xFFFFFFFF, 32)
			w.U(1, 32)
		}
		w.F(false)
	}
	w.Trail()
	return w.Escaped(2)
}

func dtsPPS(ext int, out bool) []byte {
	w := &bw.W{}
	w.U(0x44, 8)
	w.U(1, 8)
	w.UEv(0)
	w.UEv(0)
	w.F(false)
	w.F(out)
	w.U(uint64(ext), 3)
	w.Trail()
	return w.Escaped(2)
}

// rpsIPBB are the sets of an I P B b pattern.
func rpsIPBB(w *bw.W) {
	w.UEv(3)
	explicitVal(w, 1, 0, 3) // P: reference 4 back
	w.F(false)
	explicitVal(w, 1, 1, 0)
	w.F(false)
	explicitVal(w, 2, 2, 1)
}

func explicitVal(w *bw.W, neg, pos int, d uint32) {
	w.UEv(uint32(neg))
	w.UEv(uint32(pos))
	for k := 0; k < neg+pos; k++ {
		w.UEv(d)
		w.F(true)
	}
}

// slice is a slice header. idx < 0: the set is in the slice header.
func slice(typ int, st uint32, ext int, out bool, idx int) []byte {
	w := &bw.W{}
	w.U(uint64(typ)<<1, 8)
	w.U(1, 8)
	w.U(1, 1)
	if typ >= 16 && typ <= 23 {
		w.U(0, 1)
	}
	w.UEv(0)
	w.U(0, ext)
	w.UEv(st)
	if out {
		w.F(true)
	}
	w.U(5, 4)
	if idx >= 0 {
		w.F(true)
		w.U(uint64(idx), 2)
	} else {
		w.F(false)
		w.F(false)
		explicitVal(w, 1, 1, 0)
	}
	w.U(1, 1)
	w.Trail()
	return w.Escaped(2)
}

type kind struct {
	typ int
	st  uint32
	idx int
}

var kinds = []kind{{19, 2, 0}, {21, 1, 0}, {1, 1, 0}, {0, 0, 1}, {1, 0, 2}, {8, 0, 1}, {9, 0, 2}, {1, 0, -1}, {0, 0, 3}}

// VH_DTS: over sequences of access units and any PTS, results obey the monotonicity and the PTS bound.
//
//vh: prop=P13 case:first=0,1 quick:a=1..6 thorough:a=0..8 quick:b=0,2,4,7,8 thorough:b=0..8 case:ro=0..2 quick:timing=1 thorough:timing=0..3 quick:ptsb=20 thorough:ptsb=33 merge=conc secs=200
func VH_DTS() {
	var d h265.DTSExtractor
	d.Initialize()
	ro := vnd.Case("ro")
	ptsb := vnd.Case("ptsb")
	ext, out := ro, ro == 1
	seq := []int{vnd.Case("first"), vnd.Case("a"), vnd.Case("b"), 3}
	filled := false
	var prev int64
	for i, k := range seq {
		var au [][]byte
		if i == 0 {
			au = append(au, dtsSPS(uint32(ro), vnd.Case("timing"), rpsIPBB), dtsPPS(ext, out))
		}
		au = append(au, []byte{70, 1, 0x50}, slice(kinds[k].typ, kinds[k].st, ext, out, kinds[k].idx))
		pts := int64(vnd.Bits("pts", ptsb, i)) - 1<<uint(ptsb-1)
		au = bw.Room(au)
	bw.In(au)
		dts, err := d.Extract(au, pts)
		if err != nil {
			continue
		}
		vnd.Assert(dts <= pts, "DTS is not beyond PTS")
		if filled {
			vnd.Assert(dts >= prev, "DTS does not decrease")
		}
		filled = true
		prev = dts
	}
	vnd.Reach("ok")
}

// VH_DTSNeeds: nothing is extracted before SPS, PPS and a random access unit were received.
//
//vh: prop=P13 case:k=0..3 merge=conc
func VH_DTSNeeds() {
	var d h265.DTSExtractor
	d.Initialize()
	var au [][]byte
	switch vnd.Case("k") {
	case 0:
		au = [][]byte{dtsPPS(0, false), slice(19, 2, 0, false, 0)}
	case 1:
		au = [][]byte{dtsSPS(0, 1, rpsIPBB), slice(19, 2, 0, false, 0)}
	case 2:
		au = [][]byte{dtsSPS(0, 1, rpsIPBB), dtsPPS(0, false), slice(1, 1, 0, false, 0)}
	case 3:
		au = [][]byte{dtsSPS(0, 1, rpsIPBB), dtsPPS(0, false)}
	}
	au = bw.Room(au)
	bw.In(au)
	_, err := d.Extract(au, vnd.Int64("pts"))
	vnd.Assert(err != nil, "error before parameters are complete")
}

// VH_DTSAny: feeding arbitrary units to the DTS extractor never panics.
//
//vh: prop=P03 quick:n=0..5 thorough:n=0..9 case:pre=0..4 merge=conc
func VH_DTSAny() {
	var d h265.DTSExtractor
	d.Initialize()
	switch vnd.Case("pre") {
	case 1:
		d.Extract([][]byte{dtsSPS(2, 1, rpsIPBB), dtsPPS(1, true), slice(19, 2, 1, true, 0)}, 0) //nolint:errcheck
	case 2:
		d.Extract([][]byte{dtsSPS(0, 0, func(w *bw.W) { w.UEv(0) }), dtsPPS(0, false), slice(19, 2, 0, false, 0)}, 0) //nolint:errcheck
	case 3:
		d.Extract([][]byte{dtsSPS(1, 3, rpsIPBB), dtsPPS(7, false)}, 0) //nolint:errcheck
	case 4:
		d.Extract([][]byte{dtsSPS(1, 2, rpsIPBB)}, 0) //nolint:errcheck
	}
	d.Extract([][]byte{nil, vnd.Bytes("buf", vnd.Case("n"))}, 1<<20) //nolint:errcheck
}

// VH_DTSChange: parameter set changes in the middle of a stream do not break the order of timestamps.
//
//vh: prop=P13 case:chg=0..8 quick:ks=0,1,4,8 thorough:ks=0..8 case:ro=0..2 quick:ptsb=20 thorough:ptsb=33 merge=conc secs=200
func VH_DTSChange() {
	var d h265.DTSExtractor
	d.Initialize()
	ptsb := vnd.Case("ptsb")
	ro := vnd.Case("ro")
	chg, ks := vnd.Case("chg")*3+1, vnd.Case("ks")*3
	filled := false
	var prev int64
	for i := 0; i < 3; i++ {
		var au [][]byte
		switch chg % 3 {
		case 1:
			au = append(au, dtsSPS(uint32(ro), 1, rpsIPBB), dtsPPS(0, false))
		case 2:
			ro = 3 - ro
			au = append(au, dtsSPS(uint32(ro), 0, rpsIPBB), dtsPPS(0, false))
		}
		chg /= 3
		k := kinds[ks%3]
		ks /= 3
		au = append(au, slice(k.typ, k.st, 0, false, k.idx))
		pts := int64(vnd.Bits("pts", ptsb, i)) - 1<<uint(ptsb-1)
		au = bw.Room(au)
	bw.In(au)
		dts, err := d.Extract(au, pts)
		if err != nil {
			continue
		}
		vnd.Assert(dts <= pts, "DTS is not beyond PTS")
		if filled {
			vnd.Assert(dts >= prev, "DTS does not decrease")
		}
		filled = true
		prev = dts
	}
	vnd.Reach("ok")
}
