package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// insert adds emulation prevention bytes (H.264 7.3.1 / 7.4.1.1).
func insert(rbsp []byte) []byte {
	var out []byte
	z := 0
	for _, b := range rbsp {
		if z == 2 && b <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	if len(out) > 0 && out[len(out)-1] == 0 {
		out = append(out, 3)
	}
	return out
}

// VH_EPRRoundTrip: insertion then removal is the identity.
//
//vh: prop=P07 quick:n=0..9 thorough:n=0..13 merge=conc reach=ok
func VH_EPRRoundTrip() {
	rbsp := vnd.Bytes("rbsp", vnd.Case("n"))
	enc := insert(rbsp)
	saved := append([]byte(nil), enc...)
	enc = bw.Spare(enc)
	bw.In(enc)
	out := h264.EmulationPreventionRemove(enc)
	bw.Out(out)
	vnd.Assert(vnd.Eq(enc, saved), "input unchanged")
	// a trailing 03 is appended after a final zero byte; the removal leaves it only if it is not preceded by two zeros
	if len(out) == len(rbsp)+1 {
		n := len(rbsp)
		vnd.Assert(rbsp[n-1] == 0 && out[n] == 3, "only the trailing byte may remain")
		out = out[:n]
	}
	vnd.Assert(vnd.Eq(out, rbsp), "original payload")
	vnd.Reach("ok")
}

// VH_EPRAny: on arbitrary bytes the result is the input without the third byte of every 00 00 03.
//
//vh: prop=P07,P03 quick:n=0..13 thorough:n=0..20 merge=conc reach=same,shorter
func VH_EPRAny() {
	buf := vnd.Bytes("buf", vnd.Case("n"))
	saved := append([]byte(nil), buf...)
	buf = bw.Spare(buf)
	bw.In(buf)
	out := h264.EmulationPreventionRemove(buf)
	bw.Out(out)
	vnd.Assert(vnd.Eq(buf, saved), "input unchanged")
	var exp []byte
	z := 0
	for i := 0; i < len(buf); i++ {
		if z >= 2 && buf[i] == 3 {
			z = 0
			continue
		}
		exp = append(exp, buf[i])
		if buf[i] == 0 {
			z++
		} else {
			z = 0
		}
	}
	vnd.Assert(vnd.Eq(out, exp), "removal")
	if len(out) == len(buf) {
		vnd.Reach("same")
	} else {
		vnd.Reach("shorter")
	}
}
