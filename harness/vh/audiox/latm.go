package audiox

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

// putMux writes a StreamMuxConfig. o selects its shape.
func putMux(w *bw.W, o int, payloads bool) *mpeg4audio.StreamMuxConfig {
	c := &mpeg4audio.StreamMuxConfig{}
	w.F(false)
	w.F(true)
	c.NumSubFrames = uint([]int{0, 1, 2, 0, 63, 3}[o%6])
	if payloads && c.NumSubFrames > 3 {
		c.NumSubFrames = 3
	}
	w.U(uint64(c.NumSubFrames), 6)
	np := []int{1, 1, 2, 3, 1, 2, 16}[o%7]
	if payloads && np > 3 {
		np = 3
	}
	w.U(uint64(np-1), 4)
	for i := 0; i < np; i++ {
		p := &mpeg4audio.StreamMuxConfigProgram{}
		nl := []int{1, 2, 1, 8, 3}[(o+i)%5]
		if payloads && nl > 3 {
			nl = 3
		}
		w.U(uint64(nl-1), 3)
		for j := 0; j < nl; j++ {
			l := &mpeg4audio.StreamMuxConfigLayer{}
			use := false
			if i != 0 || j != 0 {
				use = bw.Opt(o+2, i*8+j)
				w.F(use)
			}
			if !use {
				a := putASC(w, (o+i+j)%14, (o+i*2+j)%3, (o*3+j)%14, (o+j)%8, bw.Opt(o+3, i+j*16), string(rune('a'+i))+string(rune('a'+j)))
				l.AudioSpecificConfig = &a
			}
			t := (o + i + j*3) % 8
			if payloads {
				t = 0
			}
			l.FrameLengthType = uint(t)
			w.U(uint64(t), 3)
			switch t {
			case 0:
				l.LatmBufferFullness = uint(w.Bits(8, "full", i, j))
			case 1:
				l.FrameLength = uint(w.Bits(9, "len", i, j))
			case 3, 4, 5:
				l.CELPframeLengthTableIndex = uint(w.Bits(6, "celp", i, j))
			case 6, 7:
				l.HVXCframeLengthTableIndex = w.Flag("hvxc", i, j)
			}
			p.Layers = append(p.Layers, l)
		}
		c.Programs = append(c.Programs, p)
	}
	other := o % 5
	if payloads {
		other = 0
	}
	c.OtherDataPresent = other > 0
	w.F(other > 0)
	for k := other; k > 0; k-- {
		w.F(k > 1)
		v := uint32(w.Bits(8, "other", k))
		if k == other && other > 1 {
			vnd.Assume(v != 0) // shortest form
		}
		c.OtherDataLenBits = c.OtherDataLenBits<<8 | v
	}
	c.CRCCheckPresent = bw.Opt(o, 77)
	w.F(c.CRCCheckPresent)
	if c.CRCCheckPresent {
		c.CRCCheckSum = uint8(w.Bits(8, "crc"))
	}
	return c
}

func muxEqual(a, b *mpeg4audio.StreamMuxConfig) bool {
	return vnd.DeepEqual(a, b)
}

// VH_SMC: stream multiplex configurations laid out by the specification decode to the encoded values and encode to the same bytes.
//
//vh: prop=P16,P04 quick:o=0..39 thorough:o=0..160 merge=conc
func VH_SMC() {
	w := &bw.W{}
	e := putMux(w, vnd.Case("o"), false)
	var c mpeg4audio.StreamMuxConfig
	bw.Dirty(&c, w.Buf)
	vnd.Assert(c.Unmarshal(w.Buf) == nil, "decodes")
	vnd.Assert(muxEqual(&c, e), "field values")
	bw.In(&e)
	b, err := e.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil, "encodes")
	vnd.Assert(vnd.Eq(b, w.Buf), "encodes to the same bytes")
	vnd.Assert(c.Unmarshal(append(b, vnd.Byte("more"))) != nil, "unread bytes")
	vnd.Reach("ok")
}

// VH_AME: audio mux elements round-trip with their payloads intact and in order.
//
//vh: prop=P16,P04 quick:o=0..23 thorough:o=0..71 case:cfg=0..2 case:sz=0..2 merge=conc unwind=2000 steps=60000000
func VH_AME() {
	w := &bw.W{}
	o := vnd.Case("o")
	var e mpeg4audio.AudioMuxElement
	e.MuxConfigPresent = vnd.Case("cfg") > 0
	e.UseSameStreamMux = vnd.Case("cfg") == 2
	if e.MuxConfigPresent {
		w.F(e.UseSameStreamMux)
	}
	if vnd.Case("cfg") == 1 {
		e.StreamMuxConfig = putMux(w, o, true)
	} else {
		e.StreamMuxConfig = putMux(&bw.W{}, o, true)
	}
	sizes := [3][]int{{0, 1, 2, 3}, {254, 255, 256, 1}, {509, 510, 511, 0, 766}}[vnd.Case("sz")]
	k := 0
	for s := uint(0); s <= e.StreamMuxConfig.NumSubFrames; s++ {
		var sub [][][]byte
		k0 := k
		for _, p := range e.StreamMuxConfig.Programs {
			for range p.Layers {
				n := sizes[k%len(sizes)]
				for n >= 255 {
					w.U(255, 8)
					n -= 255
				}
				w.U(uint64(n), 8)
				k++
			}
		}
		k = k0
		for _, p := range e.StreamMuxConfig.Programs {
			var pr [][]byte
			for range p.Layers {
				n := sizes[k%len(sizes)]
				pay := vnd.Fill(byte(k), n)
				for i := range pay {
					if i < 2 || i >= n-2 {
						pay[i] = vnd.Byte("pay", k, i)
					}
					w.V(uint64(pay[i]), 8)
				}
				pr = append(pr, pay)
				k++
			}
			sub = append(sub, pr)
		}
		e.Payloads = append(e.Payloads, sub)
	}
	bw.In(&e)
	b, err := e.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil, "encodes")
	vnd.Assert(vnd.Eq(b, w.Buf), "layout")
	g := mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
	if vnd.Case("cfg") != 1 {
		vnd.Assert(g.Unmarshal(b) != nil, "configuration missing")
		g.StreamMuxConfig = e.StreamMuxConfig
	}
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g.Payloads, e.Payloads), "payloads")
	vnd.Assert(muxEqual(g.StreamMuxConfig, e.StreamMuxConfig), "configuration")
	vnd.Assert(g.UseSameStreamMux == e.UseSameStreamMux, "flag")
	vnd.Assert(g.Unmarshal(append(b, vnd.Byte("more"))) != nil, "unread bytes")
	vnd.Assert(g.Unmarshal(b[:len(b)-1]) != nil, "truncated")
	vnd.Reach("ok")
}

// VH_AMEReject: elements that cannot be represented are reported instead of being written wrong.
//
//vh: prop=P16,P04 case:o=0..7 merge=conc
func VH_AMEReject() {
	t := vnd.Case("o")
	a := mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 44100, ChannelConfig: 2, ChannelCount: 2}
	l := &mpeg4audio.StreamMuxConfigLayer{AudioSpecificConfig: &a, FrameLengthType: uint(t)}
	c := &mpeg4audio.StreamMuxConfig{Programs: []*mpeg4audio.StreamMuxConfigProgram{{Layers: []*mpeg4audio.StreamMuxConfigLayer{l}}}}
	c.OtherDataPresent = vnd.Bool("other")
	e := mpeg4audio.AudioMuxElement{
		MuxConfigPresent: vnd.Bool("present"), StreamMuxConfig: c, Payloads: [][][][]byte{{{vnd.Bytes("pay", 3)}}},
	}
	bw.In(&e)
	b, err := e.Marshal()
	bw.Out(b)
	vnd.Assert((err == nil) == (t == 0 && !c.OtherDataPresent), "encodes exactly what can be represented")
	if err == nil {
		g := mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent, StreamMuxConfig: c}
		vnd.Assert(g.Unmarshal(b) == nil && vnd.DeepEqual(g.Payloads, e.Payloads), "round trip")
	}
}

// VH_LOAS: sync stream frames round-trip.
//
//vh: prop=P16,P04 case:sz=0..4 merge=conc unwind=20000
func VH_LOAS() {
	sizes := [5][]int{{1}, {0, 2, 0}, {3, 255, 256}, {8191, 1}, {7, 7, 7, 7}}[vnd.Case("sz")]
	var s mpeg4audio.AudioSyncStream
	var exp []byte
	for i, n := range sizes {
		el := vnd.Fill(byte(0x31+i), n)
		for j := range el {
			if j < 4 || j >= n-4 {
				el[j] = vnd.Byte("el", i, j)
			}
		}
		s.AudioMuxElements = append(s.AudioMuxElements, el)
		exp = append(exp, 0x56, 0xE0|byte(n>>8), byte(n))
		exp = append(exp, el...)
	}
	bw.In(&s)
	b, err := s.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil && vnd.Eq(b, exp), "layout")
	var g mpeg4audio.AudioSyncStream
	bw.Dirty(&g, b)
	vnd.Assert(g.Unmarshal(b) == nil, "decodes")
	vnd.Assert(vnd.DeepEqual(g.AudioMuxElements, s.AudioMuxElements), "round trip")
	if len(b) < 50 {
		for n := range b {
			var t mpeg4audio.AudioSyncStream
			at := false
			for i, e := 0, 0; i < len(sizes); i++ {
				e += 3 + sizes[i]
				at = at || n == e
			}
			vnd.Assert((t.Unmarshal(b[:n]) == nil) == at, "truncated")
		}
	}
	s.AudioMuxElements = append(s.AudioMuxElements, vnd.Fill(1, 8192))
	bw.In(&s)
	_, err = s.Marshal()
	vnd.Assert(err != nil, "too big")
}

// VH_LOASAny: arbitrary streams never panic; what is accepted encodes back to the same bytes.
//
//vh: prop=P16,P04,P34 quick:n=0..10 thorough:n=0..15 merge=conc
func VH_LOASAny() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(65536)
	var s mpeg4audio.AudioSyncStream
	if s.Unmarshal(buf) != nil {
		return
	}
	bw.In(&s)
	b, err := s.Marshal()
	bw.Out(b)
	vnd.Assert(err == nil && vnd.Eq(b, buf), "encodes to the same bytes")
}

// VH_LATMAny: arbitrary configurations and elements never panic and do not allocate out of proportion.
//
//vh: prop=P04,P34 quick:n=0..5 thorough:n=0..9 case:k=0..2 merge=conc
func VH_LATMAny() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	vnd.AllocLimit(4096 + 64*len(buf))
	switch vnd.Case("k") {
	case 0:
		var c mpeg4audio.StreamMuxConfig
		bw.Dirty(&c, buf)
		if c.Unmarshal(buf) == nil {
			bw.In(&c)
			_, err := c.Marshal()
			vnd.Assert(err == nil, "encodes")
		}
	case 1:
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
		_ = e.Unmarshal(buf)
	case 2:
		l := &mpeg4audio.StreamMuxConfigLayer{FrameLengthType: uint(vnd.Bits("t", 3))}
		e := mpeg4audio.AudioMuxElement{
			StreamMuxConfig: &mpeg4audio.StreamMuxConfig{
				NumSubFrames: 1,
				Programs:     []*mpeg4audio.StreamMuxConfigProgram{{Layers: []*mpeg4audio.StreamMuxConfigLayer{l}}},
			},
		}
		_ = e.Unmarshal(buf)
	}
}
