package bw

import (
	"reflect"

	"github.com/bluenviron/mediacommon/v2/internal/vnd"
)

type kept struct {
	v, c any
	msg  string
}

const (
	modified = "an operation has modified its input"
	changed  = "an operation has changed the result of an earlier one"
)

var (
	twice   bool
	keeps   []kept // until the end
	short   []kept // until the next recording, since the harness can modify them
	pending []any
)

func (k kept) check() { vnd.Assert(vnd.DeepEqual(k.v, k.c), k.msg) }

func keep(x any, msg string) {
	if !twice {
		return
	}
	for _, k := range short {
		k.check()
	}
	short = nil
	add(x, msg)
}

func add(x any, msg string) {
	// including what lies between length and capacity
	switch v := x.(type) {
	case []byte:
		x = v[:cap(v)]
	case [][]byte:
		for _, e := range v {
			add(e, msg)
		}
		x = v[:cap(v)]
	}
	k := kept{x, vnd.DeepCopy(x), msg}
	if msg == modified && reflect.TypeOf(x).Kind() == reflect.Pointer {
		short = append(short, k)
		return
	}
	keeps = append(keeps, k)
}

// In records what is about to be passed to an operation.
func In(x any) { keep(x, modified) }

// Out records a result of an operation.
func Out(x any) {
	if b, ok := x.([]byte); ok {
		x = b[:len(b):len(b)]
	}
	keep(x, changed)
}

// drop forgets a structure that is about to be reused.
func drop(p any) {
	n := 0
	for _, k := range keeps {
		if k.v == p {
			k.check()
		} else {
			keeps[n] = k
			n++
		}
	}
	keeps = keeps[:n]
}

func settle() {
	for _, p := range pending {
		Out(p)
	}
	pending = nil
}

// Twice performs a harness twice, with different values, and checks that no operation has modified what it was given nor the
// results of earlier ones.
func Twice(f func()) {
	twice = true
	f()
	settle()
	vnd.Prefix("again.")
	f()
	settle()
	for _, k := range short {
		k.check()
	}
	for _, k := range keeps {
		k.check()
	}
	vnd.Reach("ok")
}

// Fixed tells whether values that determine the layout of what is written should be concrete.
func Fixed() bool { return twice }

// Room returns a list with the same elements, where the list and its elements have spare capacity.
func Room(in [][]byte) [][]byte {
	if !twice {
		return in
	}
	out := make([][]byte, 0, len(in)+2)
	for _, e := range in {
		if e != nil {
			n := append(make([]byte, 0, len(e)+6), e...)
			copy(n[len(e):cap(n)], []byte{0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a})
			e = n
		}
		out = append(out, e)
	}
	out[:cap(out)][len(in)] = []byte{0xee}
	return out
}

// Spare returns the same bytes with spare capacity.
func Spare(b []byte) []byte { return Room([][]byte{b})[0] }
