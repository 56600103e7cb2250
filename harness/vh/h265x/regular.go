package h265x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// shapes returns the binary trees of n frames displayed from first on, as lists of frames in decoding order (a frame, the
// frames displayed before it, the frames displayed after it).
func shapes(first, n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for left := 0; left < n; left++ {
		for _, l := range shapes(first, left) {
			for _, r := range shapes(first+left+1, n-1-left) {
				out = append(out, append(append([]int{first + left}, l...), r...))
			}
		}
	}
	return out
}

// miniGOP returns the display positions, in decoding order, of a group of frames whose last displayed frame is decoded first
// and in which every other frame follows its references: index 0..22 enumerates all the hierarchies of groups of 1 to 5 frames.
func miniGOP(idx int) []int {
	for n := 1; ; n++ {
		s := shapes(1, n-1)
		if idx < len(s) {
			return append([]int{n}, s[idx]...)
		}
		idx -= len(s)
	}
}

type refSet struct{ neg, pos []int }

func (r refSet) write(w *bw.W) {
	w.UEv(uint32(len(r.neg)))
	w.UEv(uint32(len(r.pos)))
	prev := 0
	for _, d := range r.neg {
		w.UEv(uint32(prev - d - 1))
		w.F(true)
		prev = d
	}
	prev = 0
	for _, d := range r.pos {
		w.UEv(uint32(d - prev - 1))
		w.F(true)
		prev = d
	}
}

type group struct {
	pat  []int
	sets []refSet
	leaf []bool
	at   int // index of the first set
}

// plan returns the types and reference sets of the frames of a group and the number of reordered frames.
func plan(pat []int, where int) (group, int) {
	n := len(pat)
	sets := make([]refSet, n)
	leaf := make([]bool, n)
	reorder := 0
	for i, p := range pat {
		if i > 0 {
			leaf[i] = i == n-1 || pat[i+1] > p
			if i < n-1 {
				// a frame without frames before or after it until the next decoded one
				after := false
				for k := i + 1; k < n; k++ {
					between := pat[k] > p
					for j := 0; j < i; j++ {
						if pat[j] > p && pat[j] < pat[k] {
							between = false
						}
					}
					after = after || between
				}
				leaf[i] = leaf[i] && !after
			}
		}
		s := refSet{}
		a := 0
		for q := p - 1; q >= 1; q-- {
			for j := 0; j < i; j++ {
				if pat[j] == q && (!leaf[j] || where == 2) {
					s.neg = append(s.neg, q-p)
				}
			}
		}
		s.neg = append(s.neg, -p)
		for q := p + 1; q <= n; q++ {
			for j := 0; j < i; j++ {
				if pat[j] == q {
					a++
					s.pos = append(s.pos, q-p)
				}
			}
		}
		reorder = max(reorder, a)
		sets[i] = s
	}
	return group{pat: pat, sets: sets, leaf: leaf}, reorder
}

// VH_DTSRegular: streams with a constant frame interval and a constant hierarchy are accepted from the first random access
// unit, and timestamps become evenly spaced and as late as they can be.
//
//vh: prop=P43 case:pat=0..22 case:ra=0,1 case:where=0..2 quick:ival=0,1 thorough:ival=0..4 case:timing=0,1 quick:gop=4 thorough:gop=4,9 merge=conc secs=200
func VH_DTSRegular() {
	pat := miniGOP(vnd.Case("pat"))
	regular(pat, pat)
}

// VH_DTSMixed: the same with two hierarchies that alternate.
//
//vh: prop=P43 case:pat=0..22 case:pat2=0..22 case:ra=1 quick:where=1 thorough:where=0,1 case:ival=0 case:timing=1 case:gop=4 merge=conc secs=200
func VH_DTSMixed() {
	regular(miniGOP(vnd.Case("pat")), miniGOP(vnd.Case("pat2")))
}

func regular(pat1, pat2 []int) {
	var d h265.DTSExtractor
	d.Initialize()
	where := vnd.Case("where") // 0: sets in slices, 1: sets in the SPS, 2: the same, leaves are marked as references
	one, reorder := plan(pat1, where)
	two, reorder2 := plan(pat2, where)
	reorder = max(reorder, reorder2)
	all := append(append([]refSet(nil), one.sets...), two.sets...)
	two.at = len(one.sets)

	ivals := []int64{3003, 750, 375, 1500, 18000}
	timing := vnd.Case("timing")
	ival := ivals[vnd.Case("ival")]
	sps := dtsSPS(uint32(reorder), timing, func(w *bw.W) {
		if where == 0 {
			w.UEv(0)
			return
		}
		w.UEv(uint32(len(all)))
		for i, s := range all {
			if i > 0 {
				w.F(false)
			}
			s.write(w)
		}
	})
	idxBits := 0
	for 1<<idxBits < len(all) {
		idxBits++
	}
	pic := func(typ int, st uint32, g group, i int) []byte {
		w := &bw.W{}
		w.U(uint64(typ)<<1, 8)
		w.U(1, 8)
		w.U(1, 1)
		if typ >= 16 && typ <= 23 {
			w.U(0, 1)
		}
		w.UEv(0)
		w.UEv(st)
		if typ != 19 {
			w.U(5, 4)
			if where == 0 {
				w.F(false)
				g.sets[i].write(w)
			} else {
				w.F(true)
				w.U(uint64(g.at+i), idxBits)
			}
		}
		w.U(1, 1)
		w.Trail()
		return w.Escaped(2)
	}

	start := int64(vnd.Bits("start", 33))
	var prev int64
	late := false
	count, disp := 0, 0
	emit := func(nalus [][]byte, p int) {
		au := bw.Room(nalus)
		bw.In(au)
		pts := start + int64(disp+p)*ival
		dts, err := d.Extract(au, pts)
		vnd.Assert(err == nil, "unit of a regular stream is accepted")
		vnd.Assert(dts <= pts, "DTS is not beyond PTS")
		if count > 0 {
			vnd.Assert(dts >= prev, "DTS does not decrease")
		}
		if count >= 20 {
			vnd.Assert(dts == prev+ival, "settled timestamps are evenly spaced")
			late = vnd.Or(late, dts == pts)
		}
		prev = dts
		count++
	}
	for g := 0; g < 2; g++ {
		open := g == 1 && vnd.Case("ra") == 1
		if !open {
			emit([][]byte{sps, dtsPPS(0, false), pic(19, 2, one, 0)}, 0)
		}
		gops := max(vnd.Case("gop"), 24/min(len(one.pat), len(two.pat)))
		last := 0
		for k := 0; k < gops; k++ {
			for i, p := range one.pat {
				typ, st := 1, uint32(0)
				lead := open && k == 0
				switch {
				case i == 0 && lead:
					typ, st = 21, 2
				case i == 0:
					st = 1
				case one.leaf[i] && where != 2:
					typ = 0
				}
				if lead && i > 0 {
					typ += 8
				}
				au := [][]byte{{70, 1, 0x50}, pic(typ, st, one, i)}
				if typ == 21 {
					au = append([][]byte{sps, dtsPPS(0, false)}, au...)
				}
				emit(au, last+p)
			}
			last += len(one.pat)
			one, two = two, one
		}
		disp += last
		if vnd.Case("ra") == 0 {
			disp++
		}
	}
	vnd.Assert(late, "timestamps are as late as possible")
	vnd.Reach("ok")
}
