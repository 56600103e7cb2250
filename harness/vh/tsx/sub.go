// Package tsx contains the harnesses of MPEG-TS structures.
package tsx

import (
	"github.com/bluenviron/mediacommon/v2/internal/vh/bw"
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// VH_OpusAU: access units of every header form decode to their fields, consume exactly their bytes, and encode back.
//
//vh: prop=P26,P05 case:flags=0..7 quick:size=0,1,3,254,255,256,509,510,511,1000 thorough:size=0..6,253..258,508..512,764..767,1000,1275 case:ext=0,1,5,255 merge=conc unwind=20000 reach=ok
func VH_OpusAU() {
	fl, size, ext := vnd.Case("flags"), vnd.Case("size"), vnd.Case("ext")
	if fl&1 == 0 && ext > 0 {
		vnd.Reach("ok")
		return
	}
	w := &bw.W{}
	w.U(0x3ff, 11)
	w.U(uint64(fl), 3)
	w.Bits(2, "res")
	for n := size; ; n -= 255 {
		if n < 255 {
			w.U(uint64(n), 8)
			break
		}
		w.U(255, 8)
	}
	h := substructs.OpusControlHeader{
		PayloadSize: size, StartTrimFlag: fl&4 != 0, EndTrimFlag: fl&2 != 0, ControlExtensionFlag: fl&1 != 0,
	}
	if fl&4 != 0 {
		w.Bits(3, "res2")
		h.StartTrim = uint16(w.Bits(13, "start"))
	}
	if fl&2 != 0 {
		w.Bits(3, "res3")
		h.EndTrim = uint16(w.Bits(13, "end"))
	}
	if fl&1 != 0 {
		w.U(uint64(ext), 8)
		h.ControlExtensionLength = uint8(ext)
		for i := 0; i < ext; i++ {
			w.Bits(8, "ext", i)
		}
	}
	payload := vnd.Fill(0x5a, size)
	for i := 0; i < size && i < 4; i++ {
		payload[i] = vnd.Byte("p", i)
		payload[size-1-i] = vnd.Byte("q", i)
	}
	buf := append(append([]byte(nil), w.Buf...), payload...)
	total := len(buf)
	buf = append(buf, vnd.Bytes("tail", 2)...)

	var au substructs.OpusAccessUnit
	bw.Dirty(&au, buf)
	n, err := au.Unmarshal(buf)
	vnd.Assert(err == nil, "a valid access unit is rejected")
	vnd.Assert(n == total, "the consumed size is wrong")
	vnd.Assert(vnd.DeepEqual(au.ControlHeader, h), "the header differs")
	vnd.Assert(vnd.Eq(au.Packet, payload), "the packet differs")
	vnd.Assert(au.MarshalSize() == total, "the announced size is wrong")
	out := make([]byte, total+1)
	bw.In(&au)
	n, err = au.MarshalTo(out)
	bw.Out(out)
	vnd.Assert(err == nil && n == total, "encoding fails")
	var au2 substructs.OpusAccessUnit
	bw.Dirty(&au2, out)
	n, err = au2.Unmarshal(out)
	vnd.Assert(err == nil && n == total, "the encoded access unit is rejected")
	vnd.Assert(vnd.DeepEqual(au, au2), "the access unit changes when it is encoded and decoded")
	vnd.Assert(out[0] == 0x7f && out[1] == 0xe0|byte(fl<<2), "the encoded prefix or flags are wrong")
	for i := 0; i < 2 && fl&6 != 0; i++ {
		vnd.Assert(out[2+size/255+1+2*i]>>5 == 0, "reserved bits are not zero")
		if fl&6 != 6 {
			break
		}
	}

	// every truncation is rejected
	for k := 0; k < total; k++ {
		if k > len(w.Buf)+1 && k < total-1 {
			continue
		}
		var au3 substructs.OpusAccessUnit
		_, err = au3.Unmarshal(buf[:k])
		vnd.Assert(err != nil, "a truncated access unit is accepted")
	}
	au.ControlHeader.PayloadSize++
	_, err = au.MarshalTo(make([]byte, total+300))
	vnd.Assert(err != nil, "a packet that does not match its size is accepted")
	vnd.Reach("ok")
}

// VH_OpusAUBad: other prefixes are rejected and trims that do not fit are not encoded.
//
//vh: prop=P26 merge=conc reach=bad,trim
func VH_OpusAUBad() {
	buf := vnd.Bytes("b", 8)
	if uint16(buf[0])<<3|uint16(buf[1])>>5 != 0x3ff {
		var au substructs.OpusAccessUnit
		bw.Dirty(&au, buf)
		_, err := au.Unmarshal(buf)
		vnd.Assert(err != nil, "an invalid prefix is accepted")
		vnd.Reach("bad")
	}
	au := substructs.OpusAccessUnit{ControlHeader: substructs.OpusControlHeader{
		StartTrimFlag: vnd.Bool("sf"), EndTrimFlag: vnd.Bool("ef"), StartTrim: vnd.U16("st"), EndTrim: vnd.U16("et"),
	}}
	out := make([]byte, 16)
	bw.In(&au)
	n, err := au.MarshalTo(out)
	bw.Out(out)
	h := au.ControlHeader
	big := vnd.Or(vnd.And(h.StartTrimFlag, h.StartTrim > 0x1fff), vnd.And(h.EndTrimFlag, h.EndTrim > 0x1fff))
	vnd.Assert((err != nil) == big, "trims that do not fit are encoded")
	if err == nil {
		vnd.Assert(n == au.MarshalSize(), "wrong size")
		vnd.Reach("trim")
	}
}

func bitlen(n int) int {
	r := 0
	for n > 0 {
		n >>= 1
		r++
	}
	return r
}

var opusChannels = map[int]int{
	0: 2, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 0x80: 2, 0x82: 1, 0x83: 2, 0x84: 3, 0x85: 4, 0x86: 5, 0x87: 6, 0x88: 7,
}

// VH_OpusDescCode: channel configuration codes select the channel counts of the specification's table; reserved codes are rejected.
//
//vh: prop=P26 case:n=0..4 merge=conc reach=ok,bad
func VH_OpusDescCode() {
	buf := vnd.Bytes("b", vnd.Case("n"))
	for code := 0; code < 256; code++ {
		if code == 0x81 {
			continue
		}
		buf := append([]byte(nil), buf...)
		if len(buf) > 0 {
			buf[0] = byte(code)
		}
		var d substructs.OpusAudioDescriptor
		bw.Dirty(&d, buf)
		err := d.Unmarshal(buf)
		ch, ok := opusChannels[code]
		vnd.Assert((err == nil) == (ok && len(buf) > 0), "descriptors are accepted exactly when their code is assigned")
		if err != nil {
			vnd.Reach("bad")
			continue
		}
		vnd.Reach("ok")
		vnd.Assert(d.ChannelCount() == ch, "the channel count differs from the specification")
		bw.In(&d)
		out, err := d.Marshal()
		bw.Out(out)
		vnd.Assert(err == nil && len(out) == 1 && out[0] == byte(code), "the descriptor is not encoded back")
	}
	if len(buf) == 0 {
		vnd.Reach("ok")
	}
}

// VH_OpusDescExplicit: explicit descriptors of any channel and stream count decode to their fields and encode back.
//
//vh: prop=P26 quick:ch=1..6,8,9,16,17,32,33,255 thorough:ch=1..34,64,65,128,129,254,255 case:sm=0..2 case:cm=0..2 merge=conc reach=ok
func VH_OpusDescExplicit() {
	ch := vnd.Case("ch")
	b1 := bitlen(ch - 1)
	sc := 1 + []int{0, ((1 << b1) - 1) / 2, (1 << b1) - 1}[vnd.Case("sm")]
	b2 := bitlen(sc)
	cc := []int{0, ((1 << b2) - 1) / 2, (1 << b2) - 1}[vnd.Case("cm")]
	b3 := bitlen(sc + cc)
	d := substructs.OpusAudioDescriptor{
		ChannelConfigCode: 0x81, ExplicitChannelCount: ch, StreamCount: sc, CoupledStreamCount: cc,
	}
	w := &bw.W{}
	w.U(0x81, 8)
	w.U(uint64(ch), 8)
	fam := vnd.Byte("family")
	vnd.Assume(fam > 0)
	w.V(uint64(fam), 8)
	d.MappingFamily = int(fam)
	w.U(uint64(sc-1), b1)
	w.U(uint64(cc), b2)
	big := false
	for i := 0; i < ch; i++ {
		v := w.Bits(b3, "m", i)
		d.ChannelMapping = append(d.ChannelMapping, byte(v))
		big = vnd.Or(big, v > 255)
	}
	var d2 substructs.OpusAudioDescriptor
	bw.Dirty(&d2, w.Buf)
	err := d2.Unmarshal(w.Buf)
	vnd.Assert((err != nil) == big, "an explicit descriptor is rejected, or one that does not fit is accepted")
	vnd.Reach("ok")
	if err != nil {
		return
	}
	vnd.Assert(vnd.DeepEqual(d, d2), "the descriptor differs")
	vnd.Assert(d2.ChannelCount() == ch, "the channel count differs")
	bw.In(&d)
	out, err := d.Marshal()
	bw.Out(out)
	vnd.Assert(err == nil, "the descriptor is not encoded")
	vnd.Assert(vnd.Eq(out, w.Buf), "the encoded descriptor differs")
	for k := 0; k < len(w.Buf); k++ {
		if k < 8 || k > len(w.Buf)-3 {
			err = d2.Unmarshal(w.Buf[:k])
			vnd.Assert(err != nil, "a truncated descriptor is accepted")
		}
	}
}

// VH_OpusDescFamily0: mapping family 0 allows one or two channels.
//
//vh: prop=P26 merge=conc reach=ok,bad
func VH_OpusDescFamily0() {
	for ch := 0; ch < 256; ch++ {
		var d substructs.OpusAudioDescriptor
		bw.Dirty(&d)
		err := d.Unmarshal([]byte{0x81, byte(ch), 0})
		vnd.Assert((err == nil) == (ch == 1 || ch == 2), "mapping family 0 allows one or two channels")
		if err != nil {
			vnd.Reach("bad")
			continue
		}
		vnd.Assert(d.ChannelCount() == ch, "wrong channel count")
		bw.In(&d)
		out, err := d.Marshal()
		bw.Out(out)
		vnd.Assert(err == nil && vnd.Eq(out, []byte{0x81, byte(ch), 0}), "the descriptor is not encoded back")
		vnd.Reach("ok")
	}
}

// VH_OpusDescMarshal: what cannot be represented is rejected when encoding, what is encoded decodes to the same value.
//
//vh: prop=P26 case:ch=-1..4,255..257 case:sc=-1..5 case:cc=-1..4 case:fam=0,1,255,256 merge=conc
func VH_OpusDescMarshal() {
	ch := vnd.Case("ch")
	d := substructs.OpusAudioDescriptor{
		ChannelConfigCode: 0x81, ExplicitChannelCount: ch, MappingFamily: vnd.Case("fam"),
		StreamCount: vnd.Case("sc"), CoupledStreamCount: vnd.Case("cc"),
	}
	if ch > 0 {
		d.ChannelMapping = vnd.Bytes("m", ch)
	}
	if d.MappingFamily == 0 {
		d.StreamCount, d.CoupledStreamCount, d.ChannelMapping = 0, 0, nil
	}
	bw.In(&d)
	out, err := d.Marshal()
	bw.Out(out)
	if err == nil {
		var d2 substructs.OpusAudioDescriptor
		bw.Dirty(&d2, out)
		err = d2.Unmarshal(out)
		vnd.Assert(err == nil, "the encoded descriptor is rejected")
		vnd.Assert(vnd.DeepEqual(d, d2), "the descriptor changes when it is encoded and decoded")
	}
}

// VH_Cell: metadata access unit cells.
//
//vh: prop=P26,P05 quick:n=0..3,255..257,1000 thorough:n=0..8,255..257,1000,65534..65537 merge=conc unwind=70000 steps=20000000 alloc=200000 reach=ok
func VH_Cell() {
	n := vnd.Case("n")
	data := vnd.Fill(0x33, n)
	for i := 0; i < n && i < 4; i++ {
		data[i] = vnd.Byte("p", i)
		data[n-1-i] = vnd.Byte("q", i)
	}
	c := substructs.MetadataAUCell{
		MetadataServiceID: vnd.Byte("id"), SequenceNumber: vnd.Byte("seq"), CellFragmentIndication: byte(vnd.Bits("frag", 2)),
		DecoderConfigFlag: vnd.Bool("dec"), RandomAccessIndicator: vnd.Bool("rai"), AUCellData: data,
	}
	w := &bw.W{}
	w.V(uint64(c.MetadataServiceID), 8)
	w.V(uint64(c.SequenceNumber), 8)
	w.V(uint64(c.CellFragmentIndication), 2)
	w.F(c.DecoderConfigFlag)
	w.F(c.RandomAccessIndicator)
	w.Bits(4, "res")
	w.U(uint64(n), 16)
	buf := append(append([]byte(nil), w.Buf...), data...)
	buf = append(buf, vnd.Bytes("tail", 2)...)

	out := make([]byte, n+7)
	bw.In(&c)
	m, err := c.MarshalTo(out)
	bw.Out(out)
	vnd.Assert((err == nil) == (n <= 65535), "cells that do not fit are encoded")
	vnd.Reach("ok")
	if err != nil {
		return
	}
	vnd.Assert(m == n+5, "wrong encoded size")
	for _, b := range [][]byte{buf, out[:m]} {
		var c2 substructs.MetadataAUCell
		bw.Dirty(&c2, b)
		m, err = c2.Unmarshal(b)
		vnd.Assert(err == nil && m == n+5, "the cell is rejected or has another size")
		vnd.Assert(vnd.DeepEqual(c, c2), "the cell differs")
	}
	for k := 0; k < n+5; k++ {
		if k < 7 || k > n+2 {
			var c2 substructs.MetadataAUCell
			bw.Dirty(&c2, buf[:k])
			_, err = c2.Unmarshal(buf[:k])
			vnd.Assert(err != nil, "a truncated cell is accepted")
		}
	}
	c.CellFragmentIndication = 4 + byte(vnd.Bits("frag", 2))
	bw.In(&c)
	_, err = c.MarshalTo(out)
	bw.Out(out)
	vnd.Assert(err != nil, "a fragment indication that does not fit is encoded")
}

// VH_STD: the metadata STD descriptor.
//
//vh: prop=P26,P05 merge=conc reach=ok,bad
func VH_STD() {
	d := substructs.MetadataSTDDescriptor{
		MetadataInputLeakRate: vnd.U32("in"), MetadataBufferSize: vnd.U32("buf"), MetadataOutputLeakRate: vnd.U32("out"),
	}
	fits := vnd.And(vnd.And(d.MetadataInputLeakRate < 1<<22, d.MetadataBufferSize < 1<<22), d.MetadataOutputLeakRate < 1<<22)
	bw.In(&d)
	out, err := d.Marshal()
	bw.Out(out)
	vnd.Assert((err == nil) == fits, "values that do not fit are encoded")
	if err != nil {
		vnd.Reach("bad")
		return
	}
	vnd.Reach("ok")
	w := &bw.W{}
	for _, v := range []uint32{d.MetadataInputLeakRate, d.MetadataBufferSize, d.MetadataOutputLeakRate} {
		w.U(3, 2)
		w.V(uint64(v), 22)
	}
	vnd.Assert(vnd.Eq(out, w.Buf), "the encoded descriptor differs")
	w = &bw.W{}
	for i, v := range []uint32{d.MetadataInputLeakRate, d.MetadataBufferSize, d.MetadataOutputLeakRate} {
		w.Bits(2, "res", i)
		w.V(uint64(v), 22)
	}
	var d2 substructs.MetadataSTDDescriptor
	bw.Dirty(&d2, w.Buf)
	vnd.Assert(d2.Unmarshal(w.Buf) == nil, "the descriptor is rejected")
	vnd.Assert(vnd.DeepEqual(d, d2), "the descriptor differs")
	for k := 0; k < 12; k++ {
		if k != 9 {
			vnd.Assert(d2.Unmarshal(vnd.Bytes("any", k)) != nil, "a descriptor of another size is accepted")
		}
	}
}

// VH_Metadata: metadata descriptors of every form decode to their fields and encode back.
//
//vh: prop=P26,P05 case:flags=0..7 case:form=0..7 quick:n=0,1,3,256 thorough:n=0..5,254..256 case:priv=0,1,4 merge=conc reach=done
func VH_Metadata() {
	fl, form, n := vnd.Case("flags"), vnd.Case("form"), vnd.Case("n")
	d := substructs.MetadataDescriptor{
		MetadataApplicationFormat: vnd.U16("app"), MetadataFormat: vnd.Byte("fmt"), MetadataServiceID: vnd.Byte("sid"),
		DecoderConfigFlags: byte(fl), DSMCCFlag: form&4 != 0,
	}
	w := &bw.W{}
	if form&1 != 0 {
		d.MetadataApplicationFormat = 0xffff
		d.MetadataApplicationFormatIdentifier = vnd.U32("appid")
		w.U(0xffff, 16)
		w.V(uint64(d.MetadataApplicationFormatIdentifier), 32)
	} else {
		vnd.Assume(d.MetadataApplicationFormat != 0xffff)
		w.V(uint64(d.MetadataApplicationFormat), 16)
	}
	if form&2 != 0 {
		d.MetadataFormat = 0xff
		d.MetadataFormatIdentifier = vnd.U32("fmtid")
		w.U(0xff, 8)
		w.V(uint64(d.MetadataFormatIdentifier), 32)
	} else {
		vnd.Assume(d.MetadataFormat != 0xff)
		w.V(uint64(d.MetadataFormat), 8)
	}
	w.V(uint64(d.MetadataServiceID), 8)
	w.U(uint64(fl), 3)
	w.F(form&4 != 0)
	w.U(15, 4)
	long := false
	put := func(name string) []byte {
		w.U(uint64(n&0xff), 8)
		b := vnd.Bytes(name, n)
		for _, x := range b {
			w.V(uint64(x), 8)
		}
		long = long || n > 255
		return b
	}
	if form&4 != 0 {
		d.ServiceIdentification = put("sident")
	}
	switch fl {
	case 1:
		d.DecoderConfig = put("dc")
	case 3:
		d.DecConfigIdentification = put("dci")
	case 4:
		d.DecoderConfigMetadataServiceID = byte(w.Bits(8, "dcs"))
	}
	min := len(w.Buf)
	d.PrivateData = vnd.Bytes("priv", vnd.Case("priv"))
	buf := append(append([]byte(nil), w.Buf...), d.PrivateData...)

	bw.In(&d)
	out, err := d.Marshal()
	bw.Out(out)
	bad := fl == 5 || fl == 6
	vnd.Assert((err == nil) == (!bad && !long), "descriptors are encoded exactly when they are representable")
	if err == nil {
		vnd.Assert(vnd.Eq(out, buf), "the encoded descriptor differs")
	}
	vnd.Reach("done")
	if long {
		return
	}
	var d2 substructs.MetadataDescriptor
	bw.Dirty(&d2, buf)
	err = d2.Unmarshal(buf)
	vnd.Assert((err == nil) == !bad, "descriptors are accepted exactly when they are supported")
	if err != nil {
		return
	}
	vnd.Assert(vnd.DeepEqual(d, d2), "the descriptor differs")
	for k := 0; k < min; k++ {
		if k < 20 || k > min-3 {
			var d3 substructs.MetadataDescriptor
			vnd.Assert(d3.Unmarshal(buf[:k]) != nil, "a truncated descriptor is accepted")
		}
	}
}

// VH_SubAny: no byte string makes the decoders panic; whatever is accepted encodes to something that decodes to the same value.
//
//vh: prop=P26,P05,P34 case:what=0..4 quick:n=0..10 thorough:n=0..16 merge=conc states=40000 alloc=8192
func VH_SubAny() {
	n := vnd.Case("n")
	buf := vnd.Bytes("b", n)
	if vnd.Case("what") == 1 && n > 4 {
		buf[0] = 0x81
		buf[1] = byte(vnd.Concrete(vnd.Int("ch", 0, 4)))
	}
	orig := append([]byte(nil), buf...)
	vnd.AllocLimit(2*n + 4096)
	switch vnd.Case("what") {
	case 0:
		var a, b substructs.OpusAccessUnit
		k, err := a.Unmarshal(buf)
		if err == nil {
			vnd.Assert(k >= 0 && k <= n, "more bytes are consumed than there are")
			out := make([]byte, a.MarshalSize())
			bw.In(&a)
			m, err := a.MarshalTo(out)
			bw.Out(out)
			vnd.Assert(err == nil && m == len(out), "encoding fails")
			_, err = b.Unmarshal(out)
			vnd.Assert(err == nil && vnd.DeepEqual(a, b), "the value changes when it is encoded and decoded")
		}
	case 1:
		var a, b substructs.OpusAudioDescriptor
		if a.Unmarshal(buf) == nil {
			bw.In(&a)
			out, err := a.Marshal()
			bw.Out(out)
			vnd.Assert(err == nil, "encoding fails")
			vnd.Assert(b.Unmarshal(out) == nil && vnd.DeepEqual(a, b), "the value changes when it is encoded and decoded")
		}
	case 2:
		var a, b substructs.MetadataAUCell
		k, err := a.Unmarshal(buf)
		if err == nil {
			vnd.Assert(k >= 0 && k <= n, "more bytes are consumed than there are")
			out := make([]byte, k)
			bw.In(&a)
			m, err := a.MarshalTo(out)
			bw.Out(out)
			vnd.Assert(err == nil && m == k, "encoding fails")
			_, err = b.Unmarshal(out)
			vnd.Assert(err == nil && vnd.DeepEqual(a, b), "the value changes when it is encoded and decoded")
		}
	case 3:
		var a, b substructs.MetadataDescriptor
		if a.Unmarshal(buf) == nil {
			bw.In(&a)
			out, err := a.Marshal()
			bw.Out(out)
			vnd.Assert(err == nil && len(out) == n, "encoding fails")
			vnd.Assert(b.Unmarshal(out) == nil && vnd.DeepEqual(a, b), "the value changes when it is encoded and decoded")
		}
	case 4:
		var a, b substructs.MetadataSTDDescriptor
		if a.Unmarshal(buf) == nil {
			bw.In(&a)
			out, err := a.Marshal()
			bw.Out(out)
			vnd.Assert(err == nil && len(out) == n, "encoding fails")
			vnd.Assert(b.Unmarshal(out) == nil && vnd.DeepEqual(a, b), "the value changes when it is encoded and decoded")
		}
	}
	vnd.Assert(vnd.Eq(buf, orig), "the input is modified")
}
