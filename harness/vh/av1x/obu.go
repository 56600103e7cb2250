package av1x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
)

// VH_LEB128: every value round-trips in the minimal number of bytes.
//
//vh: prop=P08 case:pad=0..3 merge=conc
func VH_LEB128() {
	v := vnd.U32("v")
	l := av1.LEB128(v)
	n := l.MarshalSize()
	exp := 5
	switch {
	case v < 1<<7:
		exp = 1
	case v < 1<<14:
		exp = 2
	case v < 1<<21:
		exp = 3
	case v < 1<<28:
		exp = 4
	}
	vnd.Assert(n == exp, "minimal size")
	buf := make([]byte, n+vnd.Case("pad"))
	for i := n; i < len(buf); i++ {
		buf[i] = 0xA5
	}
	vnd.Assert(l.MarshalTo(buf) == n, "written size")
	for i := 0; i < n; i++ {
		vnd.Assert(buf[i]&0x7F == byte(v>>uint(7*i))&0x7F, "group of 7 bits")
		vnd.Assert(buf[i]>>7 == 1 == (i != n-1), "continuation bit")
	}
	for i := n; i < len(buf); i++ {
		vnd.Assert(buf[i] == 0xA5, "nothing else is written")
	}
	var g av1.LEB128
	bw.Dirty(&g, buf)
	m, err := g.Unmarshal(buf)
	vnd.Assert(err == nil && m == n && uint32(g) == v, "round trip")
	_, err = g.Unmarshal(buf[:n-1])
	vnd.Assert(err != nil, "truncated")
	vnd.Reach("ok")
}

// VH_LEB128Dec: every byte string decodes to the specified value and length, or fails.
//
//vh: prop=P08,P03 case:n=0..10 merge=conc
func VH_LEB128Dec() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	var g av1.LEB128
	bw.Dirty(&g, buf)
	n, err := g.Unmarshal(buf)
	e := -1
	v := uint64(0)
	for i := 0; i < len(buf) && i < 8; i++ {
		v |= uint64(buf[i]&0x7F) << uint(7*i)
		if buf[i] < 0x80 {
			e = i
			break
		}
	}
	if e < 0 || v > 0xFFFFFFFF {
		vnd.Assert(err != nil, "invalid")
		return
	}
	vnd.Assert(err == nil && n == e+1 && uint64(g) == v, "value and length")
}

// VH_Bitstream: a list of OBUs, with or without size fields, encodes to size-prefixed OBUs and decodes to the same list.
//
//vh: prop=P08 case:a=0,1,2,5 quick:b=-1,0,2,130 thorough:b=-1..4,126..131,300 quick:c=-1,1 thorough:c=-1..3 case:sz=0..7 merge=conc
func VH_Bitstream() {
	var in, exp av1.Bitstream
	var enc []byte
	for i, n := range []int{vnd.Case("a"), vnd.Case("b"), vnd.Case("c")} {
		if n < 0 {
			continue
		}
		t := vnd.Byte("hdr", i) & 0x79
		body := vnd.Bytes("o"+string(rune('0'+i)), min(n, 4))
		for len(body) < n {
			body = append(body, byte(len(body)))
		}
		var sz []byte
		if n < 128 {
			sz = []byte{byte(n)}
		} else {
			sz = []byte{byte(n) | 0x80, byte(n >> 7)}
		}
		full := append(append([]byte{t | 2}, sz...), body...)
		bare := append([]byte{t}, body...)
		enc = append(enc, full...)
		exp = append(exp, bare)
		if vnd.Case("sz")>>uint(i)&1 == 1 {
			in = append(in, full)
		} else {
			in = append(in, bare)
		}
	}
	in = bw.Room(in)
	bw.In(&in)
	got, err := in.Marshal()
	bw.Out(got)
	vnd.Assert(err == nil, "encodes")
	vnd.Assert(vnd.Eq(got, enc), "size-prefixed OBUs")
	var dec av1.Bitstream
	bw.Dirty(&dec, got)
	vnd.Assert(dec.Unmarshal(got) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(dec, exp), "same OBUs without size fields")
	vnd.Reach("ok")
}

// VH_BitstreamTrunc: a stream cut inside an OBU fails.
//
//vh: prop=P08 case:cut=1..8 merge=conc
func VH_BitstreamTrunc() {
	buf := []byte{vnd.Byte("h", 0)&0x79 | 2, 3, 1, 2, 3, vnd.Byte("h", 1)&0x79 | 2, 4}
	buf = append(buf, vnd.Bytes("o", 4)...)
	var dec av1.Bitstream
	bw.Dirty(&dec, buf)
	c := vnd.Case("cut")
	if c < 6 {
		buf = buf[:len(buf)-c]
	} else {
		buf = buf[:10-c]
	}
	vnd.Assert(dec.Unmarshal(buf) != nil, "truncated")
}

// VH_BitstreamAny: every successful decode returns the OBUs of the input in order; nothing panics.
//
//vh: prop=P08,P03,P34 quick:n=0..8 thorough:n=0..12 merge=conc
func VH_BitstreamAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	vnd.AllocLimit(1024 + 64*len(buf))
	var dec av1.Bitstream
	bw.Dirty(&dec, buf)
	err := dec.Unmarshal(buf)
	// specification
	pos := 0
	ok := len(buf) > 0
	var exp av1.Bitstream
	for pos < len(buf) {
		h := buf[pos]
		if h&0x86 != 2 {
			ok = false
			break
		}
		var l av1.LEB128
		n, e := l.Unmarshal(buf[pos+1:])
		if e != nil || uint64(l) > uint64(len(buf)-pos-1-n) {
			ok = false
			break
		}
		s := vnd.Concrete(int(l))
		exp = append(exp, append([]byte{h & 0xFD}, buf[pos+1+n:pos+1+n+s]...))
		pos += 1 + n + s
	}
	vnd.Assert((err == nil) == ok, "accepted exactly when well formed")
	if err == nil {
		vnd.Assert(vnd.DeepEqual(dec, exp), "OBUs")
	}
}

// VH_OBUHeader: every header byte decodes to type and size flag, or is rejected.
//
//vh: prop=P08,P03 case:n=0..2 merge=conc
func VH_OBUHeader() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	var h av1.OBUHeader
	bw.Dirty(&h, buf)
	err := h.Unmarshal(buf)
	if len(buf) == 0 {
		vnd.Assert(err != nil, "empty")
		return
	}
	vnd.Assert((err != nil) == (buf[0]&0x84 != 0), "forbidden bit and extension are rejected")
	if err == nil {
		vnd.Assert(byte(h.Type) == buf[0]>>3&15 && h.HasSize == (buf[0]&2 != 0), "fields")
	}
}

// VH_BitstreamReject: OBUs that cannot be encoded are rejected.
//
//vh: prop=P08,P03 case:n=0..2 merge=conc
func VH_BitstreamReject() {
	b := vnd.Bytes("b", vnd.Case("n"))
	if len(b) > 0 {
		vnd.Assume(b[0]&0x84 != 0)
	}
	_, err := av1.Bitstream{{0x08, 1}, b}.Marshal()
	vnd.Assert(err != nil, "invalid OBU")
}

// VH_RandomAccess: a temporal unit is random access exactly when it contains a sequence header.
//
//vh: prop=P36,P03 case:k=0..5 case:empty=-1..3 merge=conc
func VH_RandomAccess() {
	k := vnd.Case("k")
	var tu [][]byte
	exp := false
	first := false
	for i := 0; i < k; i++ {
		if i == vnd.Case("empty") {
			tu = append(tu, nil)
			continue
		}
		n := []byte{vnd.Byte("h", i), vnd.Byte("b", i)}
		if i == 2 {
			n = n[:1]
		}
		sh := n[0]>>3&15 == 1
		exp = vnd.Or(exp, sh)
		if i == 0 {
			first = sh
		}
		tu = append(tu, n)
	}
	tu = bw.Room(tu)
	bw.In(tu)
	vnd.Assert(av1.IsRandomAccess2(tu) == exp, "sequence header present")
	ra, err := av1.IsRandomAccess(tu) //nolint:staticcheck
	if k == 0 || vnd.Case("empty") == 0 {
		vnd.Assert(err != nil, "empty")
	} else {
		vnd.Assert(err == nil && ra == first, "first OBU is a sequence header")
	}
}
