// Package kafka is an executable reference model of a Kafka cluster that
// speaks the wire protocol over the simulated network. Its codec is written
// from the protocol specification and shares nothing with the code under test.
package kafka

import "encoding/binary"

// ---------------------------------------------------------------- reading

type parseError struct{}

// R reads protocol primitives; it panics with parseError on malformed input.
type R struct {
	b    []byte
	o    int
	flex bool
}

func (r *R) need(n int) {
	if n < 0 || r.o+n > len(r.b) {
		panic(parseError{})
	}
}
func (r *R) left() int { return len(r.b) - r.o }
func (r *R) I8() int8  { r.need(1); v := r.b[r.o]; r.o++; return int8(v) }
func (r *R) Bool() bool {
	return r.I8() != 0
}
func (r *R) I16() int16 {
	r.need(2)
	v := binary.BigEndian.Uint16(r.b[r.o:])
	r.o += 2
	return int16(v)
}
func (r *R) I32() int32 {
	r.need(4)
	v := binary.BigEndian.Uint32(r.b[r.o:])
	r.o += 4
	return int32(v)
}
func (r *R) I64() int64 {
	r.need(8)
	v := binary.BigEndian.Uint64(r.b[r.o:])
	r.o += 8
	return int64(v)
}
func (r *R) UVar() uint64 {
	v, n := binary.Uvarint(r.b[r.o:])
	if n <= 0 {
		panic(parseError{})
	}
	r.o += n
	return v
}
func (r *R) Var() int64 {
	v, n := binary.Varint(r.b[r.o:])
	if n <= 0 {
		panic(parseError{})
	}
	r.o += n
	return v
}
func (r *R) raw(n int) []byte { r.need(n); v := r.b[r.o : r.o+n]; r.o += n; return v }

// NStr reads a nullable string in the encoding of the request version.
func (r *R) NStr() *string {
	var n int
	if r.flex {
		n = int(r.UVar()) - 1
	} else {
		n = int(r.I16())
	}
	if n < 0 {
		return nil
	}
	s := string(r.raw(n))
	return &s
}
func (r *R) Str() string {
	p := r.NStr()
	if p == nil {
		panic(parseError{})
	}
	return *p
}
func (r *R) Bytes() []byte {
	var n int
	if r.flex {
		n = int(r.UVar()) - 1
	} else {
		n = int(r.I32())
	}
	if n < 0 {
		return nil
	}
	return append([]byte{}, r.raw(n)...)
}

// Arr reads an array length; -1 is null.
func (r *R) Arr() int {
	var n int
	if r.flex {
		n = int(r.UVar()) - 1
	} else {
		n = int(r.I32())
	}
	if n < -1 || n > r.left() {
		panic(parseError{})
	}
	return n
}
func (r *R) Tags() {
	if !r.flex {
		return
	}
	n := int(r.UVar())
	for i := 0; i < n; i++ {
		r.UVar()
		r.raw(int(r.UVar()))
	}
}
func (r *R) I32s() []int32 {
	n := r.Arr()
	if n < 0 {
		return nil
	}
	out := make([]int32, n)
	for i := range out {
		out[i] = r.I32()
	}
	return out
}
func (r *R) Strs() []string {
	n := r.Arr()
	if n < 0 {
		return nil
	}
	out := make([]string, n)
	for i := range out {
		out[i] = r.Str()
	}
	return out
}

// ---------------------------------------------------------------- writing

// W builds a response body.
type W struct {
	b    []byte
	flex bool
	c    *Cluster
}

func (w *W) I8(v int8) { w.b = append(w.b, byte(v)) }
func (w *W) Bool(v bool) {
	if v {
		w.I8(1)
	} else {
		w.I8(0)
	}
}
func (w *W) I16(v int16)   { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *W) I32(v int32)   { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *W) I64(v int64)   { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *W) UVar(v uint64) { w.b = binary.AppendUvarint(w.b, v) }
func (w *W) Str(s string) {
	if w.flex {
		w.UVar(uint64(len(s) + 1))
	} else {
		w.I16(int16(len(s)))
	}
	w.b = append(w.b, s...)
}
func (w *W) NStr(s *string) {
	if s == nil {
		if w.flex {
			w.UVar(0)
		} else {
			w.I16(-1)
		}
		return
	}
	w.Str(*s)
}
func (w *W) Bytes(b []byte) {
	if w.flex {
		w.UVar(uint64(len(b) + 1))
	} else {
		w.I32(int32(len(b)))
	}
	w.b = append(w.b, b...)
}
func (w *W) Arr(n int) {
	if w.flex {
		w.UVar(uint64(n + 1))
	} else {
		w.I32(int32(n))
	}
}
func (w *W) I32s(v []int32) {
	w.Arr(len(v))
	for _, x := range v {
		w.I32(x)
	}
}
func (w *W) Tags() {
	if !w.flex {
		return
	}
	if w.c == nil || !w.c.NewTags {
		w.b = append(w.b, 0)
		return
	}
	// fields a later version of the protocol added, which clients skip
	w.c.tagN = w.c.tagN*1103515245 + 12345
	x := w.c.tagN >> 16
	n := []int{0, 1, 0, 2, 3}[x%5]
	w.UVar(uint64(n))
	for i := 0; i < n; i++ {
		w.UVar(uint64(90*(i+1)) + uint64(x%90))
		l := []int{0, 1, 7, 130, 300}[(int(x>>4)+i)%5]
		w.UVar(uint64(l))
		for j := 0; j < l; j++ {
			w.b = append(w.b, byte(int(x)+j))
		}
	}
}

// flexibleFrom is the first flexible version per API key.
var flexibleFrom = map[int16]int16{0: 9, 1: 12, 2: 6, 3: 9, 8: 8, 9: 6, 10: 3, 11: 6, 12: 4, 13: 4, 14: 4, 15: 5, 16: 3,
	17: 99, 18: 3, 19: 5, 20: 4, 29: 2, 30: 2, 31: 2, 32: 4, 33: 2, 35: 2, 36: 2, 37: 2, 42: 2, 43: 2, 44: 1, 45: 0, 46: 0}

func isFlex(api, ver int16) bool {
	f, ok := flexibleFrom[api]
	return ok && ver >= f
}
