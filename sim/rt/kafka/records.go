package kafka

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"

	snappy "github.com/eapache/go-xerial-snappy"
	"github.com/pierrec/lz4/v4"
)

// Header of a record.
type Header struct {
	Key   string
	Value []byte
}

// Rec is one stored record.
type Rec struct {
	Off     int64
	Key     []byte
	Val     []byte
	TS      int64
	Headers []Header
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func compress(codec int, b []byte) []byte {
	switch codec {
	case 1:
		var buf bytes.Buffer
		w := gzip.NewWriter(&buf)
		w.Write(b)
		w.Close()
		return buf.Bytes()
	case 2:
		return snappy.EncodeStream(nil, b)
	case 3:
		var buf bytes.Buffer
		w := lz4.NewWriter(&buf)
		w.Write(b)
		w.Close()
		return buf.Bytes()
	}
	return b
}

func decompress(codec int, b []byte) ([]byte, error) {
	switch codec {
	case 0:
		return b, nil
	case 1:
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case 2:
		return snappy.Decode(b)
	case 3:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return nil, fmt.Errorf("unknown codec %d", codec)
}

// Batch is one stored record batch.
type Batch struct {
	Base, Last int64
	Epoch      int32
	Codec      int
	Magic      int
	Control    bool
	Txn        bool // written in a transaction
	LogTime    bool // MaxTS, the time of the append, is the timestamp of every record
	BaseTS     int64
	MaxTS      int64
	Recs       []Rec
	Wire       []byte
}

func encodeRecord(rec Rec, base, baseTS int64) []byte {
	var b []byte
	b = append(b, 0)
	b = binary.AppendVarint(b, rec.TS-baseTS)
	b = binary.AppendVarint(b, rec.Off-base)
	if rec.Key == nil {
		b = binary.AppendVarint(b, -1)
	} else {
		b = binary.AppendVarint(b, int64(len(rec.Key)))
		b = append(b, rec.Key...)
	}
	if rec.Val == nil {
		b = binary.AppendVarint(b, -1)
	} else {
		b = binary.AppendVarint(b, int64(len(rec.Val)))
		b = append(b, rec.Val...)
	}
	b = binary.AppendVarint(b, int64(len(rec.Headers)))
	for _, h := range rec.Headers {
		b = binary.AppendVarint(b, int64(len(h.Key)))
		b = append(b, h.Key...)
		if h.Value == nil {
			b = binary.AppendVarint(b, -1)
		} else {
			b = binary.AppendVarint(b, int64(len(h.Value)))
			b = append(b, h.Value...)
		}
	}
	out := binary.AppendVarint(nil, int64(len(b)))
	return append(out, b...)
}

// encode fills b.Wire from the other fields.
func (b *Batch) encode() {
	if b.Magic < 2 {
		b.Wire = encodeMessageSet(b.Magic, b.Codec, b.Recs, b.LogTime, b.MaxTS)
		return
	}
	var recs []byte
	for _, r := range b.Recs {
		recs = append(recs, encodeRecord(r, b.Base, b.BaseTS)...)
	}
	if len(b.Recs) > 0 {
		recs = compress(b.Codec, recs)
	}
	w := &W{}
	attr := int16(b.Codec)
	if b.Control {
		attr |= 0x20
	}
	if b.Txn {
		attr |= 0x10
	}
	if b.LogTime {
		attr |= 0x08
	}
	w.I16(attr)
	w.I32(int32(b.Last - b.Base))
	w.I64(b.BaseTS)
	w.I64(b.MaxTS)
	if b.Txn {
		w.I64(4711)
		w.I16(3)
		w.I32(int32(b.Base))
	} else {
		w.I64(-1)
		w.I16(-1)
		w.I32(-1)
	}
	w.I32(int32(len(b.Recs)))
	w.b = append(w.b, recs...)
	h := &W{}
	h.I64(b.Base)
	h.I32(int32(4 + 1 + 4 + len(w.b)))
	h.I32(b.Epoch)
	h.I8(2)
	h.I32(int32(crc32.Checksum(w.b, castagnoli)))
	b.Wire = append(h.b, w.b...)
}

// encodeMessageSet writes records in the message format of magic 0 or 1.
func encodeMessageSet(magic, codec int, recs []Rec, logTime bool, appendTS int64) []byte {
	la := int8(0)
	if logTime {
		la = 8
	}
	one := func(off int64, attr int8, ts int64, key, val []byte) []byte {
		m := &W{}
		m.I8(int8(magic))
		m.I8(attr)
		if magic == 1 {
			m.I64(ts)
		}
		nb := func(b []byte) {
			if b == nil {
				m.I32(-1)
			} else {
				m.I32(int32(len(b)))
				m.b = append(m.b, b...)
			}
		}
		nb(key)
		nb(val)
		h := &W{}
		h.I64(off)
		h.I32(int32(4 + len(m.b)))
		h.I32(int32(crc32.ChecksumIEEE(m.b)))
		return append(h.b, m.b...)
	}
	var out []byte
	if codec == 0 {
		for _, r := range recs {
			ts := r.TS
			if logTime { // without compression the broker rewrites each message
				ts = appendTS
			}
			out = append(out, one(r.Off, la, ts, r.Key, r.Val)...)
		}
		return out
	}
	last := recs[len(recs)-1]
	for _, r := range recs {
		off := r.Off
		if magic == 1 {
			off -= recs[0].Off // relative; the wrapper has the offset of the last one
		}
		out = append(out, one(off, 0, r.TS, r.Key, r.Val)...)
	}
	ts := last.TS
	if logTime {
		ts = appendTS
	}
	return one(last.Off, int8(codec)|la, ts, nil, compress(codec, out))
}

var errBadBatch = errors.New("bad record batch")

// decodeBatch parses and validates one produced record batch as a broker does.
func decodeBatch(p []byte) (b *Batch, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(parseError); ok {
				err = fmt.Errorf("%w: truncated", errBadBatch)
				return
			}
			panic(r)
		}
	}()
	r := &R{b: p}
	b = &Batch{}
	b.Base = r.I64()
	l := int(r.I32())
	if l != len(p)-12 {
		return nil, fmt.Errorf("%w: batch length %d but %d bytes follow", errBadBatch, l, len(p)-12)
	}
	b.Epoch = r.I32()
	b.Magic = int(r.I8())
	if b.Magic != 2 {
		return nil, fmt.Errorf("%w: magic %d", errBadBatch, b.Magic)
	}
	crc := uint32(r.I32())
	if got := crc32.Checksum(p[r.o:], castagnoli); got != crc {
		return nil, fmt.Errorf("%w: crc", errBadBatch)
	}
	attr := r.I16()
	b.Codec = int(attr & 7)
	lod := r.I32()
	b.BaseTS = r.I64()
	b.MaxTS = r.I64()
	r.I64()
	r.I16()
	r.I32()
	n := int(r.I32())
	if n <= 0 || int32(n) != lod+1 {
		return nil, fmt.Errorf("%w: %d records but last offset delta %d", errBadBatch, n, lod)
	}
	body, err := decompress(b.Codec, p[r.o:])
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errBadBatch, err)
	}
	rr := &R{b: body}
	for i := 0; i < n; i++ {
		ln := int(rr.Var())
		rec := &R{b: rr.raw(ln)}
		rec.I8()
		var x Rec
		x.TS = b.BaseTS + rec.Var()
		x.Off = rec.Var()
		if k := rec.Var(); k >= 0 {
			x.Key = append([]byte{}, rec.raw(int(k))...)
		}
		if k := rec.Var(); k >= 0 {
			x.Val = append([]byte{}, rec.raw(int(k))...)
		}
		hn := int(rec.Var())
		for j := 0; j < hn; j++ {
			var h Header
			h.Key = string(rec.raw(int(rec.Var())))
			if k := rec.Var(); k >= 0 {
				h.Value = append([]byte{}, rec.raw(int(k))...)
			}
			x.Headers = append(x.Headers, h)
		}
		if rec.left() != 0 {
			return nil, fmt.Errorf("%w: record %d has %d stray bytes", errBadBatch, i, rec.left())
		}
		b.Recs = append(b.Recs, x)
	}
	if rr.left() != 0 {
		return nil, fmt.Errorf("%w: %d stray bytes after the records", errBadBatch, rr.left())
	}
	return b, nil
}
