package mp4x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
)

type bwr struct{ b []byte }

func (w *bwr) u32(v uint32) {
	w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func (w *bwr) u64(v uint64) {
	w.u32(uint32(v >> 32))
	w.u32(uint32(v))
}

func (w *bwr) start(typ string) int {
	o := len(w.b)
	w.u32(0)
	w.b = append(w.b, typ[0], typ[1], typ[2], typ[3])
	return o
}

func (w *bwr) end(o int) {
	w.patch(o, uint32(len(w.b)-o))
}

func (w *bwr) patch(o int, v uint32) {
	w.b[o], w.b[o+1], w.b[o+2], w.b[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}

// Parts of other producers, which use any combination of optional fields of
// runs and track defaults, 32-bit or 64-bit base times, version 0 or 1 offsets,
// several runs per track in any order, and unknown boxes, are read as
// ISO 14496-12 prescribes.
//vh: prop=P31 quick:run=0..31 quick:ver=0..1 quick:def=0..1 thorough:run=0..31 thorough:ver=0..1 thorough:def=0..7 merge=conc reach=ok
func VH_PartsForeign() {
	rf, ver, def := vnd.Case("run"), vnd.Case("ver"), vnd.Case("def")
	var first, dur, size, flags, cto = rf&1 != 0, rf&2 != 0, rf&4 != 0, rf&8 != 0, rf&16 != 0
	if def == 1 {
		def = 7
	} else if def == 7 {
		def = 1
	}
	var defDur, defSize, defFlags = def&1 != 0, def&2 != 0, def&4 != 0

	w := &bwr{}
	moof := w.start("moof")
	mfhd := w.start("mfhd")
	w.u32(0)
	seq := vnd.U32("seq")
	w.u32(seq)
	w.end(mfhd)
	unk := w.start("zzzz")
	w.u32(vnd.U32("unk"))
	w.end(unk)

	traf := w.start("traf")
	tfhd := w.start("tfhd")
	tff := uint32(0x020000)
	if defDur {
		tff |= 0x8
	}
	if defSize {
		tff |= 0x10
	}
	if defFlags {
		tff |= 0x20
	}
	w.u32(tff)
	id := vnd.U32("id")
	w.u32(id)
	var dd, df uint32
	ds := uint32(0)
	if defDur {
		dd = vnd.U32("defdur")
		w.u32(dd)
	}
	if defSize {
		ds = 2
		w.u32(ds)
	}
	if defFlags {
		df = vnd.U32("defflags")
		w.u32(df)
	}
	w.end(tfhd)
	tfdt := w.start("tfdt")
	var base uint64
	w.u32(uint32(ver) << 24)
	if ver == 1 {
		base = vnd.U64("base")
		w.u64(base)
	} else {
		b := vnd.U32("base0")
		base = uint64(b)
		w.u32(b)
	}
	w.end(tfdt)

	type want struct {
		dur     uint32
		off     int32
		non     bool
		pl      []byte
	}
	var wants []want
	counts := [2]int{2, 1}
	var patch [2]int
	var total [2]int
	for k := 0; k < 2; k++ {
		trun := w.start("trun")
		tf := uint32(1)
		if first {
			tf |= 0x4
		}
		if dur {
			tf |= 0x100
		}
		if size {
			tf |= 0x200
		}
		if flags && !first {
			tf |= 0x400
		}
		if cto {
			tf |= 0x800
		}
		w.u32(uint32(ver)<<24 | tf)
		w.u32(uint32(counts[k]))
		patch[k] = len(w.b)
		w.u32(0)
		var ff uint32
		if first {
			ff = vnd.U32("firstflags", k)
			w.u32(ff)
		}
		for i := 0; i < counts[k]; i++ {
			x := want{dur: dd}
			if dur {
				x.dur = vnd.U32("dur", k, i)
				w.u32(x.dur)
			}
			sz := int(ds)
			if size {
				sz = 1 + 2*i + k
				w.u32(uint32(sz))
			}
			total[k] += sz
			fl := df
			if first && i == 0 {
				fl = ff
			}
			if flags && !first {
				fl = vnd.U32("flags", k, i)
				w.u32(fl)
			}
			x.non = fl&0x10000 != 0
			if cto {
				c := vnd.U32("cto", k, i)
				x.off = int32(c)
				w.u32(c)
			}
			x.pl = make([]byte, sz)
			for j := range x.pl {
				x.pl[j] = vnd.Byte("pl", k, i, j)
			}
			wants = append(wants, x)
		}
		w.end(trun)
	}
	w.end(traf)
	w.end(moof)
	mdat := w.start("mdat")
	// payloads of the second run come first
	w.patch(patch[0], uint32(len(w.b)+1+total[1]))
	w.patch(patch[1], uint32(len(w.b)))
	for _, x := range wants[2:] {
		w.b = append(w.b, x.pl...)
	}
	w.b = append(w.b, vnd.Byte("gap"))
	for _, x := range wants[:2] {
		w.b = append(w.b, x.pl...)
	}
	w.end(mdat)

	var out fmp4.Parts
	err := out.Unmarshal(w.b)
	vnd.Assert(err == nil, "parts of other producers can be decoded")
	vnd.Assert(len(out) == 1 && len(out[0].Tracks) == 1, "part and track count")
	vnd.Assert(out[0].SequenceNumber == seq, "sequence number")
	tr := out[0].Tracks[0]
	vnd.Assert(uint32(tr.ID) == id, "track id")
	vnd.Assert(tr.BaseTime == base, "base time")
	vnd.Assert(len(tr.Samples) == len(wants), "sample count")
	for i, x := range wants {
		s := tr.Samples[i]
		vnd.Assert(s.Duration == x.dur, "sample duration")
		vnd.Assert(s.PTSOffset == x.off, "sample composition offset")
		vnd.Assert(s.IsNonSyncSample == x.non, "sample sync flag")
		vnd.Assert(vnd.Eq(s.Payload, x.pl), "sample payload")
	}
	vnd.Reach("ok")
}

// Runs that announce more samples than the documented maximum are rejected
// before memory is reserved for them, whatever form of box header is used.
//vh: prop=P34 quick:wide=0..1 quick:big=0..1 quick:last=0..2 merge=conc unwind=40000 reach=ok
func VH_TrunLimit() {
	w := &bwr{}
	moof := w.start("moof")
	mfhd := w.start("mfhd")
	w.u32(0)
	w.u32(1)
	w.end(mfhd)
	traf := w.start("traf")
	tfhd := w.start("tfhd")
	w.u32(0x020000)
	w.u32(1)
	w.end(tfhd)
	tfdt := w.start("tfdt")
	w.u32(0)
	w.u32(0)
	w.end(tfdt)
	const max = 120 * 160
	n := uint32(max + 1)
	if vnd.Case("big") == 1 {
		n = vnd.U32("n")
		vnd.Assume(n > max)
	}
	// last 1: the run has no optional fields, last 2: it also is the last box
	off := uint32(4)
	if vnd.Case("last") != 0 {
		off = 0
	}
	if vnd.Case("wide") == 1 {
		w.u32(1)
		w.b = append(w.b, "trun"...)
		w.u64(uint64(24 + off))
	} else {
		w.u32(16 + off)
		w.b = append(w.b, "trun"...)
	}
	w.u32(off / 4)
	w.u32(n)
	if off != 0 {
		w.u32(0)
	}
	w.end(traf)
	w.end(moof)
	if vnd.Case("last") != 2 {
		mdat := w.start("mdat")
		w.end(mdat)
	}
	vnd.AllocLimit(1 << 16)
	var out fmp4.Parts
	err := out.Unmarshal(w.b)
	vnd.Assert(err != nil, "a run with too many samples is rejected")
	vnd.Reach("ok")
}
