// Package h264x contains the harnesses for pkg/codecs/h264.
package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

func list(k int, l0 int, l1 int) [][]byte {
	var out [][]byte
	for i := 0; i < k; i++ {
		l := l0
		if i%2 == 1 {
			l = l1
		}
		b := make([]byte, l)
		for j := range b {
			b[j] = vnd.Byte("nalu", i, j)
		}
		out = append(out, b)
	}
	return out
}

func sameList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vnd.And(ok, vnd.Eq(a[i], b[i]))
	}
	return ok
}

// VH_AVCCRoundTrip: k units of any content, of alternating lengths.
//
//vh: prop=P06 case:k=1..3,49,50 quick:l0=1..5 thorough:l0=1..9 case:l1=1,4 merge=conc alloc=100000 reach=ok
func VH_AVCCRoundTrip() {
	in := list(vnd.Case("k"), vnd.Case("l0"), vnd.Case("l1"))
	in = bw.Room(in)
	bw.In(in)
	buf, err := h264.AVCC(in).Marshal()
	bw.Out(buf)
	vnd.Assert(err == nil, "encode")
	p := 0
	for _, n := range in {
		vnd.Assert(len(buf) >= p+4+len(n), "encoded size")
		vnd.Assert(int(buf[p])<<24|int(buf[p+1])<<16|int(buf[p+2])<<8|int(buf[p+3]) == len(n), "length prefix")
		vnd.Assert(vnd.Eq(buf[p+4:p+4+len(n)], n), "payload")
		p += 4 + len(n)
	}
	vnd.Assert(p == len(buf), "encoded size")
	var out h264.AVCC
	bw.Dirty(&out, buf)
	err = out.Unmarshal(buf)
	vnd.Assert(err == nil, "decode")
	vnd.Assert(sameList(out, in), "same units")
	vnd.Reach("ok")
}

// VH_AVCCAny: decoding of arbitrary bytes agrees with a direct reading of the format.
//
//vh: prop=P06,P03 quick:n=0..18 thorough:n=0..26 merge=conc reach=ok,err
func VH_AVCCAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	var out h264.AVCC
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)

	// reference
	var exp [][]byte
	valid := true
	p := 0
	for p < len(buf) {
		if len(buf)-p < 4 {
			valid = false
			break
		}
		l := int(buf[p])<<24 | int(buf[p+1])<<16 | int(buf[p+2])<<8 | int(buf[p+3])
		if l > len(buf)-p-4 {
			valid = false
			break
		}
		l = vnd.Concrete(l)
		if l > 0 {
			exp = append(exp, buf[p+4:p+4+l])
		}
		p += 4 + l
	}
	valid = valid && len(exp) > 0
	vnd.Assert((err == nil) == valid, "accepted exactly when well formed")
	if err != nil {
		vnd.Reach("err")
		return
	}
	vnd.Reach("ok")
	vnd.Assert(sameList(out, exp), "units")
}

// VH_AVCCLimits: more units or bytes than the documented maximums are rejected.
//
//vh: prop=P06 case:k=50..53 case:z=0..2 merge=conc alloc=100000
func VH_AVCCLimits() {
	k := vnd.Case("k")
	in := list(k, 1, 2)
	for i := 0; i < vnd.Case("z"); i++ {
		in = append(in, nil)
	}
	in = bw.Room(in)
	bw.In(in)
	buf, _ := h264.AVCC(in).Marshal()
	bw.Out(buf)
	var out h264.AVCC
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)
	vnd.Assert((err == nil) == (k <= h264.MaxNALUsPerAccessUnit), "unit count limit")
}

// VH_AVCCSize: total size limit, with the total split over two units.
//
//vh: prop=P06 case:over=-1..2 case:first=1,4000000 merge=conc alloc=20000000
func VH_AVCCSize() {
	n := h264.MaxAccessUnitSize + vnd.Case("over")
	first := vnd.Case("first")
	buf := vnd.Fill(vnd.Byte("b"), n+8)
	put := func(p int, l int) {
		buf[p], buf[p+1], buf[p+2], buf[p+3] = byte(l>>24), byte(l>>16), byte(l>>8), byte(l)
	}
	put(0, first)
	put(4+first, n-first)
	var out h264.AVCC
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)
	vnd.Assert((err == nil) == (n <= h264.MaxAccessUnitSize), "size limit")
}

// VH_AnnexBRoundTrip: k units without start codes that do not end with zero.
//
//vh: prop=P06 case:k=1..3,50 quick:l0=1..5 thorough:l0=1..8 case:l1=1,4 merge=conc alloc=100000 reach=ok
func VH_AnnexBRoundTrip() {
	k := vnd.Case("k")
	in := list(k, vnd.Case("l0"), vnd.Case("l1"))
	ok := true
	for _, n := range in {
		ok = vnd.And(ok, n[len(n)-1] != 0)
		for i := 2; i < len(n); i++ {
			ok = vnd.And(ok, !vnd.And(vnd.And(n[i-2] == 0, n[i-1] == 0), n[i] == 1))
			if k > 3 { // long lists: keep the number of paths small
				ok = vnd.And(ok, n[i-1] != 0)
			}
		}
	}
	vnd.Assume(ok)
	in = bw.Room(in)
	bw.In(in)
	buf, err := h264.AnnexB(in).Marshal()
	bw.Out(buf)
	vnd.Assert(err == nil, "encode")
	p := 0
	for _, n := range in {
		vnd.Assert(len(buf) >= p+4+len(n), "encoded size")
		vnd.Assert(vnd.Eq(buf[p:p+4], []byte{0, 0, 0, 1}), "start code")
		vnd.Assert(vnd.Eq(buf[p+4:p+4+len(n)], n), "payload")
		p += 4 + len(n)
	}
	vnd.Assert(p == len(buf), "encoded size")
	var out h264.AnnexB
	bw.Dirty(&out, buf)
	err = out.Unmarshal(buf)
	vnd.Assert(err == nil, "decode")
	vnd.Assert(sameList(out, in), "same units")
	vnd.Reach("ok")
}

// VH_AnnexBAny: decoding of arbitrary bytes yields the non-empty stretches between start codes, in order.
//
//vh: prop=P06,P03 quick:n=0..11 thorough:n=0..15 merge=conc reach=ok,err
func VH_AnnexBAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	var out h264.AnnexB
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)

	// reference: split at 00 00 01; one zero byte before a start code belongs to it
	var exp [][]byte
	start := -1
	first := -1
	for i := 0; i+2 < len(buf); {
		if buf[i] == 0 && buf[i+1] == 0 && buf[i+2] == 1 {
			if start >= 0 {
				end := i
				if end > start && buf[end-1] == 0 {
					end--
				}
				if end > start {
					exp = append(exp, buf[start:end])
				}
			} else {
				first = i
			}
			start = i + 3
			i += 3
		} else {
			i++
		}
	}
	if start >= 0 && start < len(buf) {
		exp = append(exp, buf[start:])
	}
	valid := first == 0 || (first == 1 && buf[0] == 0)
	valid = valid && len(exp) > 0
	vnd.Assert((err == nil) == valid, "accepted exactly when well formed")
	if err != nil {
		vnd.Reach("err")
		return
	}
	vnd.Reach("ok")
	for _, n := range out {
		vnd.Assert(len(n) > 0, "no empty unit")
	}
	vnd.Assert(sameList(out, exp), "units")
}

// VH_AnnexBLimits: more units than the documented maximum are rejected.
//
//vh: prop=P06 case:k=50..53 merge=conc alloc=100000
func VH_AnnexBLimits() {
	k := vnd.Case("k")
	in := list(k, 1, 2)
	for _, n := range in {
		for _, b := range n {
			vnd.Assume(b != 0)
		}
	}
	in = bw.Room(in)
	bw.In(in)
	buf, _ := h264.AnnexB(in).Marshal()
	bw.Out(buf)
	var out h264.AnnexB
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)
	vnd.Assert((err == nil) == (k <= h264.MaxNALUsPerAccessUnit), "unit count limit")
}

// VH_AnnexBSize: total size limit, with the total split over two units.
//
//vh: prop=P06 case:over=-1..2 case:first=0,4000000 merge=conc alloc=20000000
func VH_AnnexBSize() {
	n := h264.MaxAccessUnitSize + vnd.Case("over")
	first := vnd.Case("first")
	buf := vnd.Fill(0xAA, n+8)
	put := func(p int) { buf[p], buf[p+1], buf[p+2], buf[p+3] = 0, 0, 0, 1 }
	put(0)
	put(4 + first)
	var out h264.AnnexB
	bw.Dirty(&out, buf)
	err := out.Unmarshal(buf)
	vnd.Assert((err == nil) == (n <= h264.MaxAccessUnitSize), "size limit")
}
