// Package iox contains harnesses of readers, buffers and clocks.
package iox

import (
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

const m33 = 1<<33 - 1

// VH_TimeUnroll checks unrolling of timestamp sequences against the true timestamps.
//
//vh: prop=P25 quick:n=1..4 thorough:n=1..7 case:w=0..1 reach=fwd,back,wrap merge=full
func VH_TimeUnroll() {
	n := vnd.Case("n")
	start := int64(vnd.Bits("start", 40)) + 1<<36
	d := &mpegts.TimeDecoder{}
	if vnd.Case("w") == 0 {
		d.Initialize()
	} else {
		d = mpegts.NewTimeDecoder()
	}
	cur := start
	o := d.Decode(cur & m33)
	vnd.Assert(o == 0, "the first timestamp is not zero")
	for i := 0; i < n; i++ {
		step := int64(vnd.Bits("step", 33, i)) - (1 << 32)
		vnd.Assume(vnd.And(step > -(1<<32), step < 1<<32))
		next := cur + step
		o = d.Decode(next & m33)
		vnd.Assert(o == next-start, "the timestamp is not the distance from the first one")
		if i == 0 {
			if step > 0 {
				if next&m33 < cur&m33 {
					vnd.Reach("wrap")
				}
				vnd.Reach("fwd")
			} else if step < 0 {
				vnd.Reach("back")
			}
		}
		cur = next
	}
}

// VH_TimeCongruent checks that results stay congruent to the input, whatever the input is.
//
//vh: prop=P25 quick:n=1..4 thorough:n=1..8 merge=full reach=ok
func VH_TimeCongruent() {
	n := vnd.Case("n")
	var d mpegts.TimeDecoder
	d.Initialize()
	first := int64(vnd.Bits("ts", 33, 0))
	d.Decode(first)
	prev := int64(0)
	for i := 1; i <= n; i++ {
		ts := int64(vnd.Bits("ts", 33, i))
		o := d.Decode(ts)
		vnd.Assert((o-(ts-first))&m33 == 0, "the result is not congruent to the input")
		vnd.Assert(vnd.And(o-prev <= 1<<32, prev-o <= 1<<32), "the result jumps by more than half of the range")
		prev = o
	}
	vnd.Reach("ok")
}

var (
	errSrc  = errors.New("source error")
	errSrc2 = errors.New("second error")
)

// source delivers a byte stream in pieces of arbitrary size, then a persistent error.
type source struct {
	data  []byte
	pos   int
	calls int
	max   int  // largest piece
	zero  bool // pieces can be empty
	err   error
	early bool // the error is delivered together with the last bytes
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	left := len(s.data) - s.pos
	if left == 0 {
		return 0, s.err
	}
	n := left
	if n > len(p) {
		n = len(p)
	}
	if n > s.max {
		n = s.max
	}
	lo := 1
	if s.zero || n == 0 {
		lo = 0
	}
	n = vnd.Concrete(vnd.Int("piece", 0, 8, s.calls))
	if n < lo || n > s.max || n > left || n > len(p) {
		vnd.Assume(false)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.early && s.pos == len(s.data) && n > 0 {
		return n, s.err
	}
	return n, nil
}

// VH_Rewind checks replaying.
//
//vh: prop=P27 quick:n=0..3 thorough:n=0..5 quick:pre=0..3 thorough:pre=0..4 case:early=0..1 quick:sz=1..2 thorough:sz=1..3 merge=conc states=100000 reach=replayed
func VH_Rewind() {
	n := vnd.Case("n")
	data := vnd.Bytes("d", n)
	orig := append([]byte(nil), data...)
	src := &source{data: data, max: 3, err: errSrc, early: vnd.Case("early") == 1}
	r := &rewindablereader.Reader{R: src}

	var got []byte
	ended := false
	buf := make([]byte, 3)
	for i := 0; i < vnd.Case("pre"); i++ {
		k := vnd.Concrete(vnd.Int("presize", 0, 3, i))
		m, err := r.Read(buf[:k])
		vnd.Assert(m >= 0 && m <= k, "the count is out of range")
		got = append(got, buf[:m]...)
		for j := range buf {
			buf[j] = 0xEE
		}
		if err != nil {
			vnd.Assert(err == errSrc, "the error is not the one of the source")
			vnd.Assert(len(got) == n, "the error is delivered before the end")
			ended = true
		}
		if ended {
			vnd.Assert(err != nil || k == 0 || m == 0, "data after an error")
		}
	}
	vnd.Assert(vnd.Eq(got, orig[:len(got)]), "the first pass alters the stream")
	r.Rewind()
	got = nil
	for i := 0; ; i++ {
		m, err := r.Read(buf[:vnd.Case("sz")])
		vnd.Assert(m >= 0 && m <= vnd.Case("sz"), "the count is out of range (replay)")
		got = append(got, buf[:m]...)
		for j := range buf {
			buf[j] = 0xEE
		}
		if err != nil {
			vnd.Assert(err == errSrc, "the error is not the one of the source (replay)")
			break
		}
		vnd.Assert(i < 30, "the end of the stream is not reached")
	}
	vnd.Assert(len(got) == n, "the replayed stream has another length")
	vnd.Assert(vnd.Eq(got, orig), "the replayed stream is another one")
	vnd.Reach("replayed")
}

// bulk delivers large pieces, marking their edges.
type bulk struct {
	total int // bytes delivered
}

func (b *bulk) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	b.total++
	p[0] = byte(b.total)
	for i := 1; i < len(p) && i < 9; i++ {
		p[i] = byte(b.total + i)
	}
	if len(p) > 9 {
		b.total += len(p) - 1
	} else {
		b.total += len(p) - 1
	}
	return len(p), nil
}

// VH_RewindLimit checks the replay limit: near it, either bytes are recorded or the read fails, and none is lost.
//
//vh: prop=P27 case:short=1..3 case:a=1..5 unwind=4000000 steps=400000000 alloc=4194304 reach=full
func VH_RewindLimit() {
	const limit = 1024 * 1024
	src := &bulk{}
	r := &rewindablereader.Reader{R: src}
	buf := make([]byte, limit-vnd.Case("short"))
	n, err := r.Read(buf)
	vnd.Assert(err == nil && n == len(buf), "the limit is too low")
	pos := n
	small := make([]byte, 5)
	failed := false
	for i := 0; i < 4; i++ {
		n, err = r.Read(small[:vnd.Case("a")])
		for j := 0; j < n; j++ {
			vnd.Assert(small[j] == byte(pos+j+1), "the stream is altered near the limit")
		}
		pos += n
		if err != nil {
			failed = true
		}
	}
	vnd.Assert(failed, "the limit is not enforced")
	vnd.Assert(pos <= limit, "the limit is exceeded")
	vnd.Reach("full")
	r.Rewind()
	n, err = r.Read(buf)
	vnd.Assert(err == nil && n == len(buf), "the replay is incomplete")
	pos = n
	for pos < limit+8 {
		n, err = r.Read(small[:1])
		vnd.Assert(err == nil && n == 1, "the replay stops")
		vnd.Assert(small[0] == byte(pos+1), "bytes are lost near the limit")
		pos++
	}
}

// fileModel is a file.
type fileModel struct {
	data []byte
	pos  int
}

func (f *fileModel) write(p []byte) {
	for _, b := range p {
		if f.pos < len(f.data) {
			f.data[f.pos] = b
		} else {
			f.data = append(f.data, b)
		}
		f.pos++
	}
}

// VH_Seekable checks sequences of operations on the seekable buffer.
//
//vh: prop=P28 quick:n=1..3 thorough:n=1..4 case:first=0..8 merge=none states=2000000 alloc=40000 reach=mid,extend,neg
func VH_Seekable() {
	var b seekablebuffer.Buffer
	f := &fileModel{}
	n := vnd.Case("n")
	for i := 0; i < n; i++ {
		op := 0
		if i == 0 {
			op = vnd.Case("first")
		} else {
			op = vnd.Concrete(vnd.Int("op", 0, 8, i))
		}
		switch op {
		case 0:
			k := vnd.Concrete(vnd.Int("len", 0, 2, i))
			p := make([]byte, k)
			for j := range p {
				p[j] = vnd.Byte("b", i, j)
			}
			if f.pos < len(f.data) {
				vnd.Reach("mid")
			}
			m, err := b.Write(p)
			vnd.Assert(err == nil && m == k, "write fails or is partial")
			f.write(p)
			for j := range p {
				p[j] = 0xEE // the buffer must not keep the slice
			}
		case 5:
			p := vnd.Bytes("s", 2)
			m, err := io.WriteString(&b, string(p))
			vnd.Assert(err == nil && m == 2, "write fails or is partial")
			f.write(p)
		case 6:
			c := vnd.Byte("c", i)
			vnd.Assert(b.WriteByte(c) == nil, "write fails")
			f.write([]byte{c})
		case 7:
			r := rune(vnd.Bits("r", 11, i))
			m, err := b.WriteRune(r)
			if r < 0x80 {
				vnd.Assert(err == nil && m == 1, "write fails or is partial")
				f.write([]byte{byte(r)})
			} else {
				vnd.Assert(err == nil && m == 2, "write fails or is partial")
				f.write([]byte{0xc0 | byte(r>>6), 0x80 | byte(r&0x3f)})
			}
		case 8:
			src := &source{data: vnd.Bytes("copied", 2), max: 2, err: io.EOF}
			m, err := io.Copy(&b, src)
			vnd.Assert(err == nil && m == 2, "write fails or is partial")
			f.write(src.data)
		case 4:
			if i == 0 {
				continue
			}
			b.Reset()
			f = &fileModel{}
		default:
			off := vnd.Concrete(vnd.Int("off", -3, 3, i))
			whence := op - 1
			base := 0
			if whence == io.SeekCurrent {
				base = f.pos
			} else if whence == io.SeekEnd {
				base = len(f.data)
			}
			pos, err := b.Seek(int64(off), whence)
			if base+off < 0 {
				vnd.Assert(err != nil, "negative position not rejected")
				vnd.Reach("neg")
			} else {
				vnd.Assert(err == nil && pos == int64(base+off), "wrong position")
				f.pos = base + off
			}
			if f.pos > len(f.data) {
				vnd.Reach("extend")
			}
			for f.pos > len(f.data) {
				f.data = append(f.data, 0)
			}
		}
		vnd.Assert(b.Len() == len(f.data), "the length differs from the one of a file")
		vnd.Assert(vnd.Eq(b.Bytes(), f.data), "the content differs from the one of a file")
		pos, err := b.Seek(0, io.SeekCurrent)
		vnd.Assert(err == nil && pos == int64(f.pos), "the position differs from the one of a file")
	}
	vnd.Assert(vnd.Eq(b.Bytes(), f.data), "the final content differs from the one of a file")
}

// units delivers one unit per call, like a packet connection.
type units struct {
	sizes []int
	i     int
	pos   int
	at    int // unit at which the error is delivered
	err   error
	early bool // the error is delivered together with the last unit
	mark  func(pos int) byte
}

func (u *units) Read(p []byte) (int, error) {
	if u.i == u.at || u.i >= len(u.sizes) {
		return 0, u.err
	}
	n := u.sizes[u.i]
	if n > len(p) {
		n = len(p)
	}
	for j := 0; j < n; j++ {
		p[j] = u.mark(u.pos + j)
	}
	u.pos += n
	u.i++
	if u.early && u.i == len(u.sizes) {
		return n, u.err
	}
	return n, nil
}

func mark(pos int) byte {
	if pos%188 < 2 {
		return vnd.Byte("d", pos)
	}
	return byte(pos*7 + pos/256)
}

// VH_Buffered checks the buffered reader with units of any number of packets.
//
//vh: prop=P29 quick:n=1..2 thorough:n=1..3 case:k0=1..7 case:early=0..1 quick:p=100,188,189,400,1316,1500 thorough:p=1,94,100,188,189,376,400,1000,1316,1500,2000 merge=conc unwind=100000 reach=done
func VH_Buffered() {
	u := &units{err: errSrc, at: -1, mark: mark, early: vnd.Case("early") == 1}
	total := 0
	for i := 0; i < vnd.Case("n"); i++ {
		k := vnd.Case("k0")
		if i > 0 {
			k = []int{0, 1, 3, 7}[vnd.Concrete(vnd.Int("k", 0, 3, i))]
		}
		u.sizes = append(u.sizes, k*188)
		total += k * 188
	}
	r := mpegts.NewBufferedReader(u)
	p := make([]byte, vnd.Case("p"))
	pos := 0
	for i := 0; ; i++ {
		n, err := r.Read(p)
		if err != nil {
			vnd.Assert(err == errSrc, "the error is not the one of the source")
			vnd.Assert(pos == total, "bytes are missing")
			break
		}
		vnd.Assert(n >= 0 && n <= len(p), "the count is out of range")
		for j := 0; j < n; j++ {
			vnd.Assert(p[j] == mark(pos+j), "the stream is altered")
		}
		pos += n
		vnd.Assert(pos <= total, "bytes are repeated")
		vnd.Assert(i < 3000, "no progress")
	}
	_, err := r.Read(p)
	vnd.Assert(err == errSrc, "the error is not persistent")
	vnd.Reach("done")
}

// VH_BufferedBad checks that units which are not made of whole packets are rejected, after the ones before are delivered.
//
//vh: prop=P29 case:bad=1,2,94,187,189,375,377,1000,1315,1317,1500 case:before=0..2 merge=conc unwind=100000 reach=bad
func VH_BufferedBad() {
	u := &units{err: errSrc, at: -1, mark: mark}
	for i := 0; i < vnd.Case("before"); i++ {
		u.sizes = append(u.sizes, 376)
	}
	u.sizes = append(u.sizes, vnd.Case("bad"), 188)
	r := mpegts.NewBufferedReader(u)
	p := make([]byte, 188)
	for i := 0; i < 2*vnd.Case("before"); i++ {
		n, err := r.Read(p)
		vnd.Assert(err == nil && n == 188, "a valid unit is rejected")
		vnd.Assert(p[0] == mark(188*i), "the stream is altered")
	}
	_, err := r.Read(p)
	vnd.Assert(err != nil && err != errSrc, "an invalid unit is accepted")
	vnd.Reach("bad")
	_ = errSrc2
}
