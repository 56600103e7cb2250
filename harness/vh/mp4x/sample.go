// Package mp4x contains the harnesses of MP4 files.
package mp4x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
)

func units(k, l int, first byte) [][]byte {
	var au [][]byte
	for i := 0; i < k; i++ {
		n := l
		if i == 1 {
			n = l + 1
		}
		au = append(au, vnd.Bytes([]string{"u0", "u1", "u2", "u3"}[i], n))
	}
	return au
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vnd.And(r, vnd.Eq(a[i], b[i]))
	}
	return r
}

func clone(a [][]byte) [][]byte {
	var b [][]byte
	for _, u := range a {
		b = append(b, append([]byte(nil), u...))
	}
	return b
}

// VH_SampleH26x: samples filled from H.264 and H.265 access units give the same units back; sync flags and offsets are exact.
//
//vh: prop=P37 case:codec=0..1 case:k=1..4 quick:l=1..5 thorough:l=1..12,255..257 case:reuse=0..1 case:api=0..1 merge=conc reach=ok
func VH_SampleH26x() {
	au := units(vnd.Case("k"), vnd.Case("l"), 0)
	orig := clone(au)
	au = bw.Room(au)
	bw.In(au)
	off := int32(vnd.U32("off"))
	s := &fmp4.Sample{}
	if vnd.Case("reuse") == 1 {
		s.IsNonSyncSample = vnd.Bool("was")
		s.PTSOffset = 77
		s.Duration = 0
		s.Payload = []byte{1, 2, 3}
	}
	var err error
	sync := false
	for _, u := range orig {
		if vnd.Case("codec") == 0 {
			sync = vnd.Or(sync, u[0]&0x1f == 5)
		} else {
			t := u[0] >> 1 & 0x3f
			sync = vnd.Or(sync, vnd.Or(t == 19, vnd.Or(t == 20, t == 21)))
		}
	}
	if vnd.Case("codec") == 0 {
		if vnd.Case("api") == 0 {
			err = s.FillH264(off, au)
		} else {
			s, err = fmp4.NewSampleH264(off, au)
		}
	} else if vnd.Case("api") == 0 {
		err = s.FillH265(off, au)
	} else {
		s, err = fmp4.NewSampleH265(off, au)
	}
	vnd.Assert(err == nil, "an access unit is rejected")
	vnd.Assert(s.IsNonSyncSample == !sync, "the sync flag is wrong")
	vnd.Assert(s.PTSOffset == off, "the composition offset is wrong")
	vnd.Assert(s.Duration == 0, "the duration is touched")
	pos := 0
	for _, u := range orig {
		n := len(u)
		vnd.Assert(pos+4+n <= len(s.Payload), "the payload is too short")
		vnd.Assert(s.Payload[pos] == byte(n>>24) && s.Payload[pos+1] == byte(n>>16) && s.Payload[pos+2] == byte(n>>8) &&
			s.Payload[pos+3] == byte(n), "a unit is not preceded by its length")
		vnd.Assert(vnd.Eq(s.Payload[pos+4:pos+4+n], u), "a unit is altered in the payload")
		pos += 4 + n
	}
	vnd.Assert(pos == len(s.Payload), "the payload is too long")
	bw.Out(s.Payload)
	var au2 [][]byte
	if vnd.Case("codec") == 0 {
		au2, err = s.GetH264()
	} else {
		au2, err = s.GetH265()
	}
	vnd.Assert(err == nil && same(orig, au2), "the access unit changes when it is stored and read")
	bw.Out(au2)
	vnd.Assert(same(orig, au), "the input is modified")
	vnd.Reach("ok")
}

// VH_SampleH26xBad: payloads whose lengths do not match are reported as errors.
//
//vh: prop=P37,P05 case:codec=0..1 quick:n=0..9 thorough:n=0..14 merge=conc states=20000 reach=done
func VH_SampleH26xBad() {
	n := vnd.Case("n")
	s := &fmp4.Sample{Payload: vnd.Bytes("p", n)}
	ok := n > 0
	for pos := 0; pos < n; {
		if n-pos < 4 {
			ok = false
			break
		}
		l := int(s.Payload[pos])<<24 | int(s.Payload[pos+1])<<16 | int(s.Payload[pos+2])<<8 | int(s.Payload[pos+3])
		if l > n-pos-4 {
			ok = false
			break
		}
		pos += 4 + vnd.Concrete(l)
	}
	var au [][]byte
	var err error
	if vnd.Case("codec") == 0 {
		au, err = s.GetH264()
	} else {
		au, err = s.GetH265()
	}
	vnd.Reach("done")
	if !ok {
		vnd.Assert(err != nil, "an invalid payload is accepted")
		return
	}
	if err == nil {
		pos := 0
		for _, u := range au {
			for pos < n && s.Payload[pos] == 0 && s.Payload[pos+1] == 0 && s.Payload[pos+2] == 0 && s.Payload[pos+3] == 0 {
				pos += 4 // empty units are ignored
			}
			pos += 4
			vnd.Assert(pos+len(u) <= n && vnd.Eq(u, s.Payload[pos:pos+len(u)]), "a unit is not the one of the payload")
			pos += len(u)
		}
	}
}

// VH_SampleAV1: samples filled from AV1 temporal units give the same OBUs back, without size fields.
//
//vh: prop=P37 case:k=1..4 quick:l=1..5 thorough:l=1..12,128..130 case:reuse=0..1 merge=conc reach=ok
func VH_SampleAV1() {
	tu := units(vnd.Case("k"), vnd.Case("l"), 0)
	sync := false
	for _, u := range tu {
		// forbidden bit and extension flag are not set, size is not present
		vnd.Assume(u[0]&0x86 == 0)
		sync = vnd.Or(sync, u[0]>>3 == 1)
	}
	orig := clone(tu)
	tu = bw.Room(tu)
	bw.In(tu)
	s := &fmp4.Sample{}
	if vnd.Case("reuse") == 1 {
		s.IsNonSyncSample = vnd.Bool("was")
		s.Payload = []byte{1, 2, 3}
	}
	err := s.FillAV1(tu)
	vnd.Assert(err == nil, "a temporal unit is rejected")
	vnd.Assert(s.IsNonSyncSample == !sync, "the sync flag is wrong")
	bw.Out(s.Payload)
	tu2, err := s.GetAV1()
	bw.Out(tu2)
	vnd.Assert(err == nil && same(orig, tu2), "the temporal unit changes when it is stored and read")
	vnd.Assert(same(orig, tu), "the input is modified")
	pos := 0
	for _, u := range orig {
		vnd.Assert(s.Payload[pos] == u[0]|2, "the size flag is not set")
		pos++
		n := len(u) - 1
		if n < 128 {
			vnd.Assert(s.Payload[pos] == byte(n), "the size is wrong")
			pos++
		} else {
			vnd.Assert(s.Payload[pos] == byte(n)|0x80 && s.Payload[pos+1] == byte(n>>7), "the size is wrong")
			pos += 2
		}
		vnd.Assert(vnd.Eq(s.Payload[pos:pos+n], u[1:]), "the OBU is altered in the payload")
		pos += n
	}
	vnd.Assert(pos == len(s.Payload), "the payload is too long")
	vnd.Reach("ok")
}

// VH_SampleAV1Bad: arbitrary AV1 payloads are decoded to what they contain or reported as errors.
//
//vh: prop=P37,P05 quick:n=0..6 thorough:n=0..9 merge=conc states=20000
func VH_SampleAV1Bad() {
	n := vnd.Case("n")
	s := &fmp4.Sample{Payload: vnd.Bytes("p", n)}
	tu, err := s.GetAV1()
	if n == 0 {
		vnd.Assert(err != nil, "an empty payload is accepted")
	}
	if err == nil {
		total := 0
		for _, u := range tu {
			vnd.Assert(len(u) > 0 && u[0]&2 == 0, "the size flag is left in the OBU")
			total += len(u) + 1
		}
		vnd.Assert(total <= n, "more data than there is")
		s2 := &fmp4.Sample{}
		vnd.Assert(s2.FillAV1(tu) == nil, "the decoded temporal unit is rejected")
		tu2, err := s2.GetAV1()
		vnd.Assert(err == nil && same(tu, tu2), "the temporal unit changes when it is stored and read")
	}
}

// VH_SampleErr: access units that cannot be stored are reported.
//
//vh: prop=P37 case:which=0..3 merge=conc
func VH_SampleErr() {
	s := &fmp4.Sample{}
	switch vnd.Case("which") {
	case 0:
		vnd.Assert(s.FillAV1([][]byte{{}}) != nil, "an empty OBU is stored")
	case 1:
		vnd.Assert(s.FillAV1([][]byte{{vnd.Byte("b")&0x78 | 0x80, 1}}) != nil, "a forbidden bit is stored")
	case 2:
		_, err := (&fmp4.Sample{}).GetH264()
		vnd.Assert(err != nil, "an empty payload is accepted")
	case 3:
		_, err := (&fmp4.Sample{}).GetH265()
		vnd.Assert(err != nil, "an empty payload is accepted")
	}
}
