package tsx

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

var crcTable [256]uint32

func init() {
	for i := range crcTable {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		crcTable[i] = c
	}
}

// section completes a section with its size and checksum, and returns it after a pointer field.
func section(tableID byte, ext int, body []byte) []byte {
	n := 5 + len(body) + 4
	s := []byte{tableID, 0xb0 | byte(n>>8), byte(n), byte(ext >> 8), byte(ext), 0xc1, 0, 0}
	s = append(s, body...)
	c := uint32(0xffffffff)
	for _, b := range s {
		c = c<<8 ^ crcTable[byte(c>>24)^b]
	}
	s = append(s, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	return append([]byte{0}, s...)
}

// psi splits a section into packets.
func psi(pid int, sec []byte) []byte {
	var out []byte
	for i := 0; len(sec) > 0; i++ {
		p := vnd.Fill(0xff, 188)
		p[0], p[1], p[2], p[3] = 0x47, byte(pid>>8), byte(pid), 0x10|byte(i&0xf)
		if i == 0 {
			p[1] |= 0x40
		}
		n := copy(p[4:], sec)
		sec = sec[n:]
		out = append(out, p...)
	}
	return out
}

type foreignES struct {
	typ  byte
	pid  int
	desc []byte
}

// foreign returns the tables of a stream of another producer.
func foreign(pmtPID int, nit bool, progDesc []byte, es ...foreignES) []byte {
	var pat []byte
	if nit {
		pat = append(pat, 0, 0, 0xe0, 0x10)
	}
	pat = append(pat, 0, 7, 0xe0|byte(pmtPID>>8), byte(pmtPID))
	pmt := []byte{0xff, 0xff, 0xf0 | byte(len(progDesc)>>8), byte(len(progDesc))}
	pmt = append(pmt, progDesc...)
	for _, e := range es {
		pmt = append(pmt, e.typ, 0xe0|byte(e.pid>>8), byte(e.pid), 0xf0|byte(len(e.desc)>>8), byte(len(e.desc)))
		pmt = append(pmt, e.desc...)
	}
	return append(psi(0, section(0, 1, pat)), psi(pmtPID, section(2, 7, pmt))...)
}

func detect(ts []byte) []*mpegts.Track {
	r := &mpegts.Reader{R: bytes.NewReader(ts)}
	err := r.Initialize()
	vnd.Assert(err == nil, "the reader cannot be initialized")
	return r.Tracks()
}

// name returns the name of the codec of a track.
func name(t *mpegts.Track) string {
	switch c := t.Codec.(type) {
	case *codecs.H264:
		return "h264"
	case *codecs.H265:
		return "h265"
	case *codecs.MPEG4Video:
		return "mpeg4video"
	case *codecs.MPEG1Video:
		return "mpeg1video"
	case *codecs.Opus:
		return "opus"
	case *codecs.MPEG4Audio:
		return "aac"
	case *codecs.MPEG4AudioLATM:
		return "latm"
	case *codecs.MPEG1Audio:
		return "mpeg1audio"
	case *codecs.AC3:
		return "ac3"
	case *codecs.EAC3:
		return "eac3"
	case *codecs.KLV:
		if c.Synchronous {
			return "klvsync"
		}
		return "klvasync"
	case *codecs.DVBSubtitle:
		return "dvb"
	case *codecs.Unsupported:
		return "unsupported"
	}
	return "unknown"
}

// VH_DetectType: the codec corresponds to the stream type, for all stream types.
//
//vh: prop=P40 case:k=0..2 case:nit=0,1 merge=conc unwind=20000 reach=ok,unsupported
func VH_DetectType() {
	typ := vnd.Byte("type")
	pid := 0x100 | int(vnd.Bits("pid", 7))
	k := vnd.Case("k")
	pmtPID := 0x20 | int(vnd.Bits("pmt", 2))
	// a stream that contains parameters of a single codec
	param := []byte{0x0f, 0x81, 0x87}[k]
	for _, o := range []byte{0x0f, 0x81, 0x87} {
		vnd.Assume(o == param || typ != o)
	}
	ts := foreign(pmtPID, vnd.Case("nit") == 1, nil, foreignES{typ, pid, nil})
	ts = append(ts, rawPacket(0x30, false, 2, 5, 5, []byte{0xff, 0xff})...)
	var f []byte
	switch k {
	case 0:
		f = []byte{0xff, 0xf1, 0x4c, 0x40, 0x01, 0x20, 0, 1, 2}
	case 1:
		f = []byte{0x0b, 0x77, 0, 0, 0x40, 8 << 3, 7 << 5, 0, 0, 0}
	case 2:
		f = []byte{0x0b, 0x77, 0, 4, 0x3f, 16 << 3, 0, 0, 0, 0}
	}
	ts = append(ts, rawPacket(pid, false, 2, 5, 5, f)...)
	trs := detect(ts)
	vnd.Assert(len(trs) == 1, "the number of tracks is different")
	vnd.Assert(int(trs[0].PID) == pid, "the PID of a track is different")
	exp := "unsupported"
	switch typ {
	case 1, 2:
		exp = "mpeg1video"
	case 3:
		exp = "mpeg1audio"
	case 0x0f:
		exp = "aac"
		c, ok := trs[0].Codec.(*codecs.MPEG4Audio)
		vnd.Assert(ok && c.Config.SampleRate == 48000 && c.Config.ChannelConfig == 1 && c.Config.Type == 2, "the parameters of a track are different")
	case 0x10:
		exp = "mpeg4video"
	case 0x11:
		exp = "latm"
	case 0x1b:
		exp = "h264"
	case 0x24:
		exp = "h265"
	case 0x81:
		exp = "ac3"
		c, ok := trs[0].Codec.(*codecs.AC3)
		vnd.Assert(ok && c.SampleRate == 44100 && c.ChannelCount == 5, "the parameters of a track are different")
	case 0x87:
		exp = "eac3"
		c, ok := trs[0].Codec.(*codecs.EAC3)
		vnd.Assert(ok && c.SampleRate == 48000 && c.ChannelCount == 6, "the parameters of a track are different")
	default:
		vnd.Reach("unsupported")
	}
	vnd.Assert(name(trs[0]) == exp, "the codec is different")
	vnd.Assert(trs[0].Language == "", "the language of a track is different")
	vnd.Reach("ok")
}

const (
	dReg = iota
	dSub
	dOpus
	dLang
	dAC3
	dRegLong
	dMeta
	dEmptySub
)

// VH_DetectPrivate: private data is recognized through its descriptors.
//
//vh: prop=P40 case:d1=0..8 case:d2=0..8 case:id=0..3 merge=conc unwind=20000 reach=ok
func VH_DetectPrivate() {
	var desc []byte
	var regs []uint32
	subs, opus, lang := -1, 0, ""
	bad := false
	for i, d := range []int{vnd.Case("d1"), vnd.Case("d2")} {
		switch d {
		case dReg, dRegLong:
			id := [][]byte{[]byte("Opus"), []byte("KLVA"), []byte("AC-3"), vnd.Bytes("id", 4)}[vnd.Case("id")]
			vnd.Assume(id[0] != 0)
			if i == 1 && len(regs) > 0 {
				id = []byte("KLVA")
			}
			desc = append(desc, 5, byte(4+d%2*2))
			desc = append(desc, id...)
			if d == dRegLong {
				desc = append(desc, vnd.Bytes("more", 2)...)
			}
			regs = append(regs, uint32(id[0])<<24|uint32(id[1])<<16|uint32(id[2])<<8|uint32(id[3]))
		case dSub, dEmptySub:
			n := 1 + i
			if d == dEmptySub {
				n = 0
			}
			desc = append(desc, 0x59, byte(8*n))
			for j := 0; j < n; j++ {
				desc = append(desc, vnd.Byte("l", i, j, 0), vnd.Byte("l", i, j, 1), vnd.Byte("l", i, j, 2), vnd.Byte("t", i, j),
					vnd.Byte("c", i, j, 0), vnd.Byte("c", i, j, 1), vnd.Byte("a", i, j, 0), vnd.Byte("a", i, j, 1))
			}
			if n > 0 && subs < 0 {
				subs = n
			}
			if n == 0 && subs < 0 {
				bad = true // an empty descriptor can hide the second one
			}
		case dOpus:
			code := vnd.Bits("code", 3, i)
			desc = append(desc, 0x7f, 2, 0x80, byte(code))
			if opus == 0 {
				opus = int(code)
				if code == 0 {
					opus = 2
				}
			}
		case dLang:
			desc = append(desc, 0x0a, 4, 'i', 't', 'a'+byte(i), vnd.Byte("at", i))
			if lang == "" {
				lang = []string{"ita", "itb"}[i]
			}
		case dAC3:
			desc = append(desc, 0x6a, 1, 0x0f)
		case dMeta:
			desc = append(desc, 0x26, 9, 1, 0, 0xff, 'K', 'L', 'V', 'A', 0, 0x0f)
		}
	}
	ts := foreign(0x1000, false, []byte{5, 4, 'H', 'D', 'M', 'V'}, foreignES{6, 0x100, desc})
	r := &mpegts.Reader{R: bytes.NewReader(ts)}
	err := r.Initialize()
	if len(regs) == 1 && regs[0] == 'O'<<24|'p'<<16|'u'<<8|'s' && opus == 0 {
		vnd.Assert(err != nil, "an Opus track without descriptor is accepted")
		vnd.Reach("ok")
		return
	}
	vnd.Assert(err == nil, "the reader cannot be initialized")
	t := r.Tracks()[0]
	vnd.Assert(t.Language == lang, "the language of a track is different")
	switch {
	case len(regs) > 1 && subs > 0 || bad:
		// unspecified
	case len(regs) > 1:
		vnd.Assert(name(t) == "unsupported", "the codec is different")
	case len(regs) == 1 && regs[0] == 'O'<<24|'p'<<16|'u'<<8|'s':
		c, ok := t.Codec.(*codecs.Opus)
		vnd.Assert(ok, "the codec is different")
		vnd.Assert(c.ChannelCount == opus, "the channel count is different")
	case len(regs) == 1 && regs[0] == 'K'<<24|'L'<<16|'V'<<8|'A':
		vnd.Assert(name(t) == "klvasync", "the codec is different")
	case len(regs) == 1 && regs[0] != 0:
		vnd.Assert(name(t) == "unsupported", "the codec is different")
	case subs > 0:
		c, ok := t.Codec.(*codecs.DVBSubtitle)
		vnd.Assert(ok, "the codec is different")
		vnd.Assert(len(c.Items) == subs, "subtitling items are different")
		i := subs - 1
		for j, it := range c.Items {
			vnd.Assert(vnd.Eq(it.Language, []byte{vnd.Byte("l", i, j, 0), vnd.Byte("l", i, j, 1), vnd.Byte("l", i, j, 2)}) &&
				it.Type == vnd.Byte("t", i, j) &&
				it.CompositionPageID == uint16(vnd.Byte("c", i, j, 0))<<8|uint16(vnd.Byte("c", i, j, 1)) &&
				it.AncillaryPageID == uint16(vnd.Byte("a", i, j, 0))<<8|uint16(vnd.Byte("a", i, j, 1)), "subtitling items are different")
		}
	default:
		vnd.Assert(name(t) == "unsupported", "the codec is different")
	}
	vnd.Reach("ok")
}

// VH_DetectMetadata: synchronous KLV is recognized through the format identifier of its metadata descriptor.
//
//vh: prop=P40 case:n=0..2 case:f=0..3 case:bad=0,1 merge=conc unwind=20000 reach=ok
func VH_DetectMetadata() {
	n, f := vnd.Case("n"), vnd.Case("f")
	var desc []byte
	klv := 0
	if vnd.Case("bad") == 1 {
		// too short
		desc = append(desc, 0x26, 3, 1, 0, 0xff)
	}
	for i := 0; i < n; i++ {
		d := []byte{0x01, byte(vnd.Bits("app", 2, i)), 0xff}
		if f&1 == 1 {
			d = append([]byte{0xff, 0xff}, vnd.Byte("ai", i, 0), vnd.Byte("ai", i, 1), vnd.Byte("ai", i, 2), vnd.Byte("ai", i, 3), 0xff)
		}
		id := []byte{vnd.Byte("id", i, 0), 'L', vnd.Byte("id", i, 1), 'A'}
		if id[0] == 'K' && id[2] == 'V' {
			klv++
		}
		d = append(d, id...)
		d = append(d, vnd.Byte("svc", i), 0x0f)
		if f&2 == 2 {
			d = append(d, vnd.Byte("priv", i))
		}
		desc = append(desc, 0x26, byte(len(d)))
		desc = append(desc, d...)
	}
	t := detect(foreign(0x1000, false, nil, foreignES{0x15, 0x100, desc}))[0]
	if klv == 1 {
		vnd.Assert(name(t) == "klvsync", "the codec is different")
	} else {
		vnd.Assert(name(t) == "unsupported", "the codec is different")
	}
	vnd.Reach("ok")
}

// VH_DetectLanguage: the language is the first one of the language descriptor.
//
//vh: prop=P40 case:n=0..2 case:typ=2,3,17,27 merge=conc unwind=20000 reach=ok
func VH_DetectLanguage() {
	n := vnd.Case("n")
	desc := []byte{0x52, 1, vnd.Byte("id"), 0x0a, byte(4 * n)}
	for i := 0; i < n; i++ {
		desc = append(desc, vnd.Byte("l", i, 0), vnd.Byte("l", i, 1), vnd.Byte("l", i, 2), vnd.Byte("at", i))
	}
	t := detect(foreign(0x1000, false, nil, foreignES{byte(vnd.Case("typ")), 0x100, desc}))[0]
	if n == 0 {
		vnd.Assert(t.Language == "", "the language is different")
	} else {
		vnd.Assert(t.Language == string([]byte{vnd.Byte("l", 0, 0), vnd.Byte("l", 0, 1), vnd.Byte("l", 0, 2)}), "the language is different")
	}
	vnd.Reach("ok")
}

// VH_DetectMany: all the tracks of the PMT are returned in order, including the unsupported ones, even when the PMT takes several packets.
//
//vh: prop=P40 quick:n=0..4,30,60 thorough:n=0..80 quick:pad=0,200 thorough:pad=0,50,100,150,200 merge=conc unwind=20000 reach=ok
func VH_DetectMany() {
	n := vnd.Case("n")
	var es []foreignES
	types := []byte{0x1b, 0x24, 0x0b, 0x03, 0x02, 0x11, 0x05, 0x10, 0x15, 0x06}
	names := []string{"h264", "h265", "unsupported", "mpeg1audio", "mpeg1video", "latm", "unsupported", "mpeg4video", "unsupported", "unsupported"}
	for i := 0; i < n; i++ {
		e := foreignES{types[i%10], 0x200 + 7*i, nil}
		if i < 2 {
			e.pid = 0x100 + 0x80*i + int(vnd.Bits("pid", 6, i))
		}
		if i%3 == 1 {
			e.desc = []byte{0x0a, 4, vnd.Byte("l", i), 'b', 'c', 0}
		}
		es = append(es, e)
	}
	var prog []byte
	if p := vnd.Case("pad"); p > 0 {
		prog = append([]byte{0xf0, byte(p)}, vnd.Fill(0x33, p)...)
	}
	trs := detect(foreign(0x1abc, true, prog, es...))
	vnd.Assert(len(trs) == n, "the number of tracks is different")
	for i, t := range trs {
		vnd.Assert(int(t.PID) == es[i].pid, "the PID of a track is different")
		vnd.Assert(name(t) == names[i%10], "the codec is different")
		lang := ""
		if i%3 == 1 {
			lang = string([]byte{vnd.Byte("l", i), 'b', 'c'})
		}
		vnd.Assert(t.Language == lang, "the language is different")
	}
	vnd.Reach("ok")
}

// VH_DetectOpus: channel counts of Opus descriptors.
//
//vh: prop=P40 case:k=0..3 merge=conc unwind=20000 reach=ok
func VH_DetectOpus() {
	desc := []byte{5, 4, 'O', 'p', 'u', 's'}
	exp := 0
	valid := true
	switch vnd.Case("k") {
	case 0:
		c := int(vnd.Byte("code"))
		desc = append(desc, 0x7f, 2, 0x80, byte(c))
		valid = c <= 8 || c == 0x80 || c >= 0x82 && c <= 0x88
		exp = c
		if c == 0 || c == 0x80 {
			exp = 2 // dual mono
		} else if c > 0x80 {
			exp = c - 0x81
		}
	case 1:
		desc = append(desc, 0x7f, 4, 0x80, 0x81, 2, 0)
		exp = 2
	case 2:
		desc = append(desc, 0x7f, 6, 0x80, 0x81, 3, 1, 0b01100000, 0b01000000)
		desc[7]++
		desc = append(desc, 0)
		exp = 3
		d := substructs.OpusAudioDescriptor{}
		valid = d.Unmarshal(desc[9:]) == nil
	case 3:
		desc = append(desc, 0x7f, 1, 0x80)
		valid = false
	}
	r := &mpegts.Reader{R: bytes.NewReader(foreign(0x1000, false, nil, foreignES{6, 0x100, desc}))}
	err := r.Initialize()
	vnd.Assert((err == nil) == valid, "a valid descriptor is rejected or an invalid one is accepted")
	if err == nil {
		c, ok := r.Tracks()[0].Codec.(*codecs.Opus)
		vnd.Assert(ok, "the codec is different")
		vnd.Assert(c.ChannelCount == exp && c.Desc.ChannelCount() == exp, "the channel count is different")
	}
	vnd.Reach("ok")
}

// VH_DetectParams: the parameters of audio tracks are read from their own units, whatever the order of tracks and of units, and
// in presence of other tracks.
//
//vh: prop=P40 case:k=0..3 quick:pmt=0,3,7,10 thorough:pmt=0..11 quick:ord=0,3,5 thorough:ord=0..5 merge=conc unwind=20000 reach=ok
func VH_DetectParams() {
	// four tracks out of these
	set := [][4]byte{{0x0f, 0x81, 0x87, 0x03}, {0x87, 0x1b, 0x87, 0x0f}, {0x81, 0x81, 0x11, 0x87}, {0x0f, 0x0f, 0x06, 0x81}}[vnd.Case("k")]
	rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
	chans := []int{2, 1, 2, 3, 3, 4, 4, 5}
	type tr struct {
		typ  byte
		pid  int
		f    []byte
		rate int
		n    int
	}
	var all []tr
	for i, typ := range set {
		t := tr{typ: typ, pid: 0x100 + i*0x11}
		acmod := (i*3 + vnd.Case("pmt") + vnd.Case("ord")*2) % 8
		lfe := int(vnd.Bits("lfe", 1, i))
		fs := int(vnd.Int("fs", 0, 2, i))
		switch typ {
		case 0x0f:
			sr := vnd.Int("sr", 0, 12, i)
			cc := vnd.Int("cc", 1, 7, i)
			t.rate, t.n = rates[sr], cc
			t.f = []byte{0xff, 0xf1, 0x40 | byte(sr)<<2 | byte(cc>>2), byte(cc&3) << 6, 0x01, 0x20, 0, 1, 2}
		case 0x81:
			b := uint(acmod) << 13
			p := 13
			if acmod&1 == 1 && acmod != 1 {
				p -= 2
			}
			if acmod&4 == 4 {
				p -= 2
			}
			if acmod == 2 {
				p -= 2
			}
			b |= uint(lfe) << uint(p-1)
			t.rate, t.n = []int{48000, 44100, 32000}[fs], chans[acmod]+lfe
			t.f = []byte{0x0b, 0x77, 0, 0, byte(fs) << 6, 8 << 3, byte(b >> 8), byte(b), 0, 0}
		case 0x87:
			t.rate, t.n = []int{48000, 44100, 32000}[fs], chans[acmod]+lfe
			t.f = []byte{0x0b, 0x77, 0, 4, byte(fs)<<6 | 0x30 | byte(acmod)<<1 | byte(lfe), 16 << 3, 0, 0, 0, 0}
		case 0x1b:
			t.f = []byte{0, 0, 0, 1, 9, 0xf0, 0, 0, 0, 1, 5, 1}
		default:
			// looks like a frame of another codec
			t.f = []byte{0x0b, 0x77, 0, 4, 0x3f, 16 << 3, 0, 0, 0, 0}
		}
		all = append(all, t)
	}
	perm := func(x int) []int {
		left := []int{0, 1, 2, 3}
		var out []int
		for n := 4; n > 0; n-- {
			i := x % n
			x /= n
			out = append(out, left[i])
			left = append(append([]int{}, left[:i]...), left[i+1:]...)
		}
		return out
	}
	po, uo := perm(vnd.Case("pmt")*2), perm(vnd.Case("ord")*4+1)
	var es []foreignES
	for _, i := range po {
		es = append(es, foreignES{all[i].typ, all[i].pid, nil})
	}
	ts := foreign(0x1000, false, nil, es...)
	cc := byte(0)
	for j := 0; j < 6; j++ {
		for _, i := range uo {
			p := rawPacket(all[i].pid, false, 2, int64(5+j), 0, all[i].f)
			p[3] |= cc
			k := 188 - len(all[i].f) - 14
			p[k+3] = 0xc0
			ts = append(ts, p...)
		}
		cc++
	}
	trs := detect(ts)
	vnd.Assert(len(trs) == 4, "the number of tracks is different")
	for j, i := range po {
		t := all[i]
		vnd.Assert(int(trs[j].PID) == t.pid, "the PID of a track is different")
		switch c := trs[j].Codec.(type) {
		case *codecs.MPEG4Audio:
			vnd.Assert(t.typ == 0x0f, "the codec is different")
			n := c.Config.ChannelCount
			if c.Config.ChannelConfig != 0 {
				n = int(c.Config.ChannelConfig)
			}
			vnd.Assert(c.Config.SampleRate == t.rate && n == t.n, "the parameters of an AAC track are different")
		case *codecs.AC3:
			vnd.Assert(t.typ == 0x81, "the codec is different")
			vnd.Assert(c.SampleRate == t.rate && c.ChannelCount == t.n, "the parameters of an AC-3 track are different")
		case *codecs.EAC3:
			vnd.Assert(t.typ == 0x87, "the codec is different")
			vnd.Assert(c.SampleRate == t.rate && c.ChannelCount == t.n, "the parameters of an E-AC-3 track are different")
		default:
			vnd.Assert(t.typ != 0x0f && t.typ != 0x81 && t.typ != 0x87, "the codec is different")
		}
	}
	vnd.Reach("ok")
}
