package audiox

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

// VH_SMCCut: a stream multiplex configuration of any shape, cut at any byte, never makes the parser panic.
//
//vh: prop=P04 quick:o=0..79 thorough:o=0..239 merge=conc unwind=4000 steps=30000000
func VH_SMCCut() {
	w := &bw.W{}
	putMux(w, vnd.Case("o"), false)
	for n := (w.Pos - 1) / 8; n >= 0; n-- {
		var c mpeg4audio.StreamMuxConfig
		_ = c.Unmarshal(w.Buf[:n:n]) // configurations that end before a frame length type are accepted on purpose
	}
}

// VH_AMECut: an audio mux element of any shape, cut at any byte, fails and never makes the parser panic.
//
//vh: prop=P04,P16 quick:o=0..23 thorough:o=0..71 case:cfg=0..2 merge=conc unwind=4000 steps=60000000
func VH_AMECut() {
	w := &bw.W{}
	o, cfg := vnd.Case("o"), vnd.Case("cfg")
	if cfg > 0 {
		w.F(cfg == 2)
	}
	var c *mpeg4audio.StreamMuxConfig
	if cfg == 1 {
		c = putMux(w, o, true)
	} else {
		c = putMux(&bw.W{}, o, true)
	}
	k := 0
	for s := uint(0); s <= c.NumSubFrames; s++ {
		k0 := k
		for _, p := range c.Programs {
			for range p.Layers {
				w.U(uint64((o+k)%3), 8)
				k++
			}
		}
		k = k0
		for _, p := range c.Programs {
			for range p.Layers {
				for i := 0; i < (o+k)%3; i++ {
					w.Bits(8, "pay", k, i)
				}
				k++
			}
		}
	}
	for n := (w.Pos - 1) / 8; n >= 0; n-- {
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: cfg > 0}
		if cfg != 1 {
			e.StreamMuxConfig = c
		}
		vnd.Assert(e.Unmarshal(w.Buf[:n:n]) != nil, "truncated element")
	}
}
