// Package bitsx contains the harnesses for pkg/bits.
package bitsx

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/bits"
)

// bitAt is the specification of bit addressing: most significant bit first.
func bitAt(buf []byte, p int) uint64 {
	return uint64(buf[p>>3]>>(7-uint(p&7))) & 1
}

func eqBits(buf []byte, p int, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | bitAt(buf, p+i)
	}
	return v
}

// VH_ReadBits: a read of w bits returns exactly the w bits at the position, most significant first, and advances
// the position by w; it fails if and only if less than w bits are left, and then leaves the position alone.
// The position is symbolic.
//
//vh: prop=P01 quick:n=0..3,9 thorough:n=0..10 case:w=0..64 merge=full reach=ok,short
func VH_ReadBits() {
	n := vnd.Case("n")
	w := vnd.Case("w")
	buf := vnd.Bytes("buf", n)
	start := vnd.Int("pos", 0, n*8)
	pos := start
	v, err := bits.ReadBits(buf, &pos, w)
	if err != nil {
		vnd.Assert(start+w > n*8, "read within the buffer must succeed")
		vnd.Assert(pos == start, "failed read must not move")
		vnd.Reach("short")
		return
	}
	vnd.Assert(start+w <= n*8, "read beyond the end must fail")
	vnd.Assert(pos == start+w, "position")
	vnd.Observe("v", v)
	vnd.Assert(v == eqBits(buf, start, w), "value")
	vnd.Reach("ok")
}

// VH_ReadFlag: a flag is one bit.
//
//vh: prop=P01 case:n=0..4 merge=full reach=ok,short
func VH_ReadFlag() {
	n := vnd.Case("n")
	buf := vnd.Bytes("buf", n)
	start := vnd.Int("pos", 0, n*8)
	pos := start
	v, err := bits.ReadFlag(buf, &pos)
	if err != nil {
		vnd.Assert(start == n*8, "flag within the buffer must be read")
		vnd.Assert(pos == start, "failed read must not move")
		vnd.Reach("short")
		return
	}
	vnd.Assert(start < n*8, "flag beyond the end must fail")
	vnd.Assert(pos == start+1, "position")
	vnd.Assert(v == (bitAt(buf, start) == 1), "flag value")
	vnd.Reach("ok")
}

// VH_HasSpace: space is reported exactly when n bits are left.
//
//vh: prop=P01 case:n=0..4 merge=full
func VH_HasSpace() {
	n := vnd.Case("n")
	buf := vnd.Bytes("buf", n)
	pos := vnd.Int("pos", 0, n*8)
	w := vnd.Int("w", 0, 1000)
	err := bits.HasSpace(buf, pos, w)
	vnd.Assert((err == nil) == (pos+w <= n*8), "space")
}

// put writes the w low bits of v bit by bit.
func put(buf []byte, p *int, v uint64, w int) {
	for i := w - 1; i >= 0; i-- {
		buf[*p>>3] |= byte(v>>uint(i)&1) << (7 - uint(*p&7))
		*p++
	}
}

// VH_Golomb: the Exp-Golomb code of lz zeros, a one and lz arbitrary bits, placed at any position, decodes to 2^lz-1+suffix and the signed mapping of it.
//
//vh: prop=P01 case:lz=0..31 case:start=0..7 merge=full reach=ok
func VH_Golomb() {
	lz := vnd.Case("lz")
	start := vnd.Case("start")
	suffix := vnd.Bits("suffix", lz)
	total := start + 2*lz + 1
	buf := make([]byte, (total+7)/8)
	pos := 0
	put(buf, &pos, vnd.Bits("pre", start), start)
	put(buf, &pos, 1, lz+1)
	put(buf, &pos, suffix, lz)
	put(buf, &pos, vnd.Bits("post", len(buf)*8-total), len(buf)*8-total)
	k := uint64(1)<<uint(lz) - 1 + suffix

	p := start
	v, err := bits.ReadGolombUnsigned(buf, &p)
	vnd.Assert(err == nil, "ue: valid code")
	vnd.Assert(p == total, "ue: position")
	vnd.Assert(uint64(v) == k, "ue: value")

	var s int64
	if k&1 != 0 {
		s = int64((k + 1) / 2)
	} else {
		s = -int64(k / 2)
	}
	p = start
	w, err := bits.ReadGolombSigned(buf, &p)
	vnd.Assert(err == nil, "se: valid code")
	vnd.Assert(p == total, "se: position")
	vnd.Assert(int64(w) == s, "se: value")
	vnd.Reach("ok")

	// truncated
	for i := start; i < total; i++ {
		if i%8 == 0 {
			p = start
			_, err = bits.ReadGolombUnsigned(buf[:i/8], &p)
			vnd.Assert(err != nil, "ue: truncated code")
			p = start
			_, err = bits.ReadGolombSigned(buf[:i/8], &p)
			vnd.Assert(err != nil, "se: truncated code")
		}
	}
}

// VH_GolombAny: on arbitrary bytes, decoding succeeds only on a complete code of at most 31 leading zeros, returning its value.
//
//vh: prop=P01 quick:n=0..6,9 thorough:n=0..12 merge=conc reach=ok,err
func VH_GolombAny() {
	n := vnd.Case("n")
	buf := vnd.Bytes("buf", n)
	pos := 0
	v, err := bits.ReadGolombUnsigned(buf, &pos)
	if err != nil {
		vnd.Reach("err")
		return
	}
	vnd.Reach("ok")
	lz := (pos - 1) / 2
	vnd.Assert(lz <= 31, "code beyond 32 bits accepted")
	vnd.Assert(pos == 2*lz+1 && pos <= n*8, "position")
	vnd.Assert(eqBits(buf, 0, lz+1) == 1, "prefix")
	vnd.Assert(uint64(v) == uint64(1)<<uint(lz)-1+eqBits(buf, lz+1, lz), "value")
}

// VH_WriteBits: a write stores exactly the given bits and nothing else.
//
//vh: prop=P02 case:w=0..64 quick:n=1..3,9 thorough:n=0..10 merge=conc reach=ok
func VH_WriteBits() {
	n := vnd.Case("n")
	w := vnd.Case("w")
	vnd.Assume(w <= n*8)
	start := vnd.Concrete(vnd.Int("pos", 0, n*8-w))
	v := vnd.Bits("v", w)
	buf := make([]byte, n)
	p := 0
	for i := 0; i*8 < start; i++ { // arbitrary bits before the position
		k := start - i*8
		if k > 8 {
			k = 8
		}
		put(buf, &p, vnd.Bits("pre", k, i, k), k)
	}
	before := make([]byte, n)
	copy(before, buf)

	pos := start
	bits.WriteBitsUnsafe(buf, &pos, v, w)
	vnd.Assert(pos == start+w, "position")
	exp := before
	p = start
	put(exp, &p, v, w)
	vnd.Assert(vnd.Eq(buf, exp), "bits written")
	rp := start
	rv, err := bits.ReadBits(buf, &rp, w)
	vnd.Assert(err == nil && rv == v, "read back")
	vnd.Reach("ok")
}

// VH_WriteFlag: a flag is one bit.
//
//vh: prop=P02 case:n=1..3 merge=conc reach=ok
func VH_WriteFlag() {
	n := vnd.Case("n")
	start := vnd.Concrete(vnd.Int("pos", 0, n*8-1))
	buf := make([]byte, n)
	p := 0
	for i := 0; i < start; i++ {
		put(buf, &p, vnd.Bits("pre", 1, i), 1)
	}
	exp := make([]byte, n)
	copy(exp, buf)
	f := vnd.Bool("f")
	pos := start
	bits.WriteFlagUnsafe(buf, &pos, f)
	if f {
		put(exp, &p, 1, 1)
	}
	vnd.Assert(pos == start+1, "position")
	vnd.Assert(vnd.Eq(buf, exp), "bit written")
	vnd.Reach("ok")
}
