// Package bw contains the bit writer used by the harnesses to lay out bit strings as specifications describe them.
package bw

import "github.com/bluenviron/mediacommon/v2/internal/vnd"

// W is a bit writer. Layout is concrete, values may be symbolic.
type W struct {
	Buf   []byte
	Known []byte // mask of the bits of Buf that are fixed by the layout
	Pos int
	ue  int
	C   int // selects the code-length class of Exp-Golomb codes
}

// U writes n fixed bits.
func (w *W) U(v uint64, n int) { w.put(v, n, 1) }

// V writes n bits of any value.
func (w *W) V(v uint64, n int) { w.put(v, n, 0) }

func (w *W) put(v uint64, n int, known byte) {
	for i := n - 1; i >= 0; {
		if w.Pos&7 == 0 {
			w.Buf = append(w.Buf, 0)
			w.Known = append(w.Known, 0)
		}
		room := 8 - w.Pos&7
		k := min(room, i+1)
		w.Buf[len(w.Buf)-1] |= byte(v>>uint(i+1-k)&(1<<uint(k)-1)) << uint(room-k)
		w.Known[len(w.Known)-1] |= known * (1<<uint(k) - 1) << uint(room-k)
		w.Pos += k
		i -= k
	}
}

// F writes a fixed flag.
func (w *W) F(b bool) {
	w.U(vnd.Ite(b, 1, 0), 1)
}

// Code writes the Exp-Golomb code with lz leading zeros and the given suffix, and returns the coded number.
func (w *W) Code(lz int, suffix uint64) uint32 {
	w.U(0, lz)
	w.U(1, 1)
	w.V(suffix, lz)
	return uint32(uint64(1)<<uint(lz) - 1 + suffix)
}

// N is the narrow class schedule: small numbers of varying length.
var classes = []int{0, 1, 2, 0, 3, 5, 1, 8, 4, 0, 2, 13, 6, 1, 16, 3, 24, 7, 31}

// Class returns the length class of the next code.
func (w *W) Class() int {
	w.ue++
	return classes[(w.ue*5+w.C*3)%len(classes)]
}

// UE writes an unsigned number; its code length is chosen by the schedule and the number within the length is symbolic.
func (w *W) UE(name string, idx ...int) uint32 {
	return w.UEc(w.Class(), name, idx...)
}

// UEc writes an unsigned number of length class lz.
func (w *W) UEc(lz int, name string, idx ...int) uint32 {
	var s uint64
	if lz > 0 {
		s = vnd.Bits(name, 32, idx...)
		s &= 1<<uint(lz) - 1
	}
	return w.Code(lz, s)
}

// UEmax is UE with the length class limited to lz.
func (w *W) UEmax(lz int, name string, idx ...int) uint32 {
	return w.UEc(w.Class()%(lz+1), name, idx...)
}

// UEv writes a concrete number.
func (w *W) UEv(v uint32) {
	lz := 0
	for (uint64(v)+1)>>uint(lz+1) != 0 {
		lz++
	}
	w.U(0, lz)
	w.U(uint64(v)+1, lz+1)
}

// SE writes a signed number.
func (w *W) SE(name string, idx ...int) int32 {
	return Signed(w.UE(name, idx...))
}

// SEmax is SE with the length class limited to lz.
func (w *W) SEmax(lz int, name string, idx ...int) int32 {
	return Signed(w.UEmax(lz, name, idx...))
}

// SEv writes a concrete signed number.
func (w *W) SEv(v int32) {
	if v > 0 {
		w.UEv(uint32(2*v - 1))
	} else {
		w.UEv(uint32(-2 * v))
	}
}

// Signed maps a code number to its signed value.
func Signed(k uint32) int32 {
	half := uint64(k>>1) + uint64(k&1)
	return int32(uint32(vnd.Ite(k&1 != 0, half, -half)))
}

// Bits writes n symbolic bits and returns their value.
func (w *W) Bits(n int, name string, idx ...int) uint64 {
	v := vnd.Bits(name, n, idx...)
	w.V(v, n)
	return v
}

// Flag writes a symbolic flag.
func (w *W) Flag(name string, idx ...int) bool {
	b := vnd.Bool(name, idx...)
	w.V(vnd.Ite(b, 1, 0), 1)
	return b
}

// Align appends a stop bit and zeros up to the byte boundary.
func (w *W) Trail() {
	w.U(1, 1)
	for w.Pos&7 != 0 {
		w.U(0, 1)
	}
}

// Escaped returns the bytes with emulation prevention bytes inserted after the first hdr bytes. Where the layout alone does
// not decide whether one is needed, values that do not need it are assumed.
func (w *W) Escaped(hdr int) []byte {
	out := append([]byte(nil), w.Buf[:hdr]...)
	z := 0
	for i := hdr; i < len(w.Buf); i++ {
		b, k := w.Buf[i], w.Known[i]
		if z == 2 {
			switch {
			case k&0xFC == 0xFC && b <= 3:
				out = append(out, 3)
				z = 0
			case k&0xFC == 0xFC || k&b&0xFC != 0:
			default:
				vnd.Assume(b > 3)
			}
		} else if i >= hdr+2 {
			vnd.Assume(!vnd.And(vnd.And(out[len(out)-2] == 0, out[len(out)-1] == 0), b <= 3))
		}
		out = append(out, b)
		if k == 0xFF && b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// Opt selects optional parts: combination 0 has none, 1 has all, others are spread over the combinations.
func Opt(o, i int) bool {
	switch o {
	case 0:
		return false
	case 1:
		return true
	}
	x := uint64(o)*0x9E3779B97F4A7C15 + uint64(i)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	return x>>40&1 != 0
}

// Reuse makes Dirty effective.
var Reuse bool

// Dirty fills a structure with values left by an earlier use, when reuse is being checked. in is what is about to be decoded
// into it.
func Dirty(p any, in ...any) {
	if twice {
		drop(p)
		for _, x := range in {
			In(x)
		}
		pending = append(pending, p)
	}
	if Reuse {
		vnd.Dirty(p)
	}
}
