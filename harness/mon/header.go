package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/spec"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// c06: the header codec alone.
func c06(r *kit.R) {
	r.Rule("a header (every chunk stream id and format, boundary and random fields) encoded, compared with the reference bytes, decoded " +
		"from adversarial readers, re-encoded, cut at every length and written to a transport failing at every length; distinct by bytes")
	one := func(m kit.Msg, length uint32, frag int, rngI int64) {
		rng := r.Rng(int(rngI))
		want := kit.HeaderBytesLen(m, length)
		c := m.Chunk()
		c.Header.MessageHeader.Length = length
		h := *c.Header
		var buf bytes.Buffer
		if err := h.Write(&buf); err != nil {
			r.Fail("writing header %v length %d: %v", m, length, err)
		}
		if d := kit.DiffBytes(want, buf.Bytes()); d != "" {
			r.Fail("header %v length %d encodes as % x: %s", m, length, buf.Bytes(), d)
		}
		if h != *c.Header {
			r.Fail("writing modified the header")
		}
		trail := []byte{0xde, 0xad, 0xbe, 0xef}
		full := append(append([]byte(nil), want...), trail...)
		for k := 0; k < frag; k++ {
			var src *kit.Src
			if k == 0 {
				src = &kit.Src{B: full}
			} else {
				src = kit.Frag(rng, full)
			}
			var rd io.Reader = src
			if k%2 == 1 {
				rd = kit.ByteSrc{Src: src}
			}
			var got chunk.Header
			if rng.Intn(2) == 0 {
				// one that held another header before
				got = chunk.Header{
					BasicHeader: chunk.BasicHeader{FormatId: byte(rng.Intn(4)), StreamId: rng.Uint32()},
					MessageHeader: chunk.MessageHeader{FormatId: byte(rng.Intn(4)), Timestamp: rng.Uint32(), TimestampDelta: rng.Intn(2) == 0,
						Length: rng.Uint32(), TypeId: byte(rng.Intn(256)), StreamId: rng.Uint32()},
					ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: rng.Uint32()},
				}
				if m.Fmt == 3 {
					got.MessageHeader.Timestamp &= 0xfffffe // says itself whether more follows
				} else if rng.Intn(2) == 0 {
					got.MessageHeader.Timestamp = kit.Ext24
				}
				if err := got.Read(rd); err != nil {
					r.Fail("reading header % x into a used one: %v", want, err)
				}
				// the fields this format does not carry are not compared
				if m.Fmt == 3 {
					got.MessageHeader.Timestamp, got.MessageHeader.TimestampDelta = 0, false
				}
				if m.Fmt >= 2 {
					got.MessageHeader.Length, got.MessageHeader.TypeId = 0, 0
				}
				if m.Fmt >= 1 {
					got.MessageHeader.StreamId = 0
				}
				if m.Fmt == 3 || m.TS != kit.Ext24 {
					got.ExtendedTimestamp.Delta = 0
				}
				r.Count("used_headers", 1)
			} else if err := got.Read(rd); err != nil {
				r.Fail("reading header % x: %v", want, err)
			}
			if src.Off != len(want) {
				r.Fail("header % x: %d bytes consumed, it has %d", want, src.Off, len(want))
			}
			exp := chunk.Header{BasicHeader: h.BasicHeader}
			exp.MessageHeader.FormatId = m.Fmt
			if m.Fmt <= 2 {
				exp.MessageHeader.Timestamp = m.TS
				exp.MessageHeader.TimestampDelta = m.Fmt > 0
				if m.TS == kit.Ext24 {
					exp.ExtendedTimestamp.Delta = m.Ext
				}
			}
			if m.Fmt <= 1 {
				exp.MessageHeader.Length = length
				exp.MessageHeader.TypeId = m.Type
			}
			if m.Fmt == 0 {
				exp.MessageHeader.StreamId = m.MSID
			}
			if got != exp {
				r.Fail("header % x decodes as %+v, want %+v", want, got, exp)
			}
			var again bytes.Buffer
			if err := got.Write(&again); err != nil || !bytes.Equal(again.Bytes(), want) {
				r.Fail("header % x re-encodes as % x (%v)", want, again.Bytes(), err)
			}
			if m.Fmt <= 2 && got.MessageHeader.HasExtendedTimestamp() != (m.TS == kit.Ext24) {
				r.Fail("header % x: extended timestamp presence %v", want, got.MessageHeader.HasExtendedTimestamp())
			}
		}
		r.Count("headers", 1)
	}
	faults := func(m kit.Msg, i int) {
		rng := r.Rng(i)
		want := kit.HeaderBytes(m)
		for t := 0; t < len(want); t++ {
			src := kit.Frag(rng, want[:t])
			if rng.Intn(2) == 0 {
				src.End = kit.Fault(rng)
			}
			var rd io.Reader = src
			if t%2 == 1 {
				rd = kit.ByteSrc{Src: src}
			}
			var got chunk.Header
			err := got.Read(rd)
			if err == nil {
				r.Fail("the first %d of %d bytes of header % x were accepted as a header", t, len(want), want)
			}
			if src.End != nil && !errors.Is(err, src.End) {
				r.Fail("header cut at byte %d: transport failed with %q, reported %q", t, src.End, err)
			}
			// the transport recovers, the header is lost all the same
			blip := &kit.Blip{Src: kit.Frag(rng, append(append([]byte(nil), want...), kit.Bytes(rng, 40)...)), At: t, Err: kit.Fault(rng)}
			got = chunk.Header{}
			if err := got.Read(blip); !errors.Is(err, blip.Err) {
				r.Fail("transport failing once before byte %d of header % x with %q: %v", t, want, blip.Err, err)
			}
			if blip.Off != t {
				r.Fail("transport failing once before byte %d of header % x: read up to byte %d", t, want, blip.Off)
			}
			sink := kit.NewSink()
			sink.FailAt = t
			sink.Err = kit.WriteFault(rng)
			sink.Heal = rng.Intn(2) == 0
			err = m.Chunk().Header.Write(sink)
			if !errors.Is(err, sink.Err) {
				r.Fail("header written to a transport failing after %d of %d bytes with %v: %v", t, len(want), sink.Err, err)
			}
			if !bytes.HasPrefix(want, sink.B) || len(sink.B) > t {
				r.Fail("failed write left % x, not a prefix of % x", sink.B, want)
			}
			r.Count("fault_points", 2)
		}
	}
	// the parts of a header on their own
	type codec interface {
		Read(io.Reader) error
		Write(io.Writer) error
	}
	parts := func(m kit.Msg, i int) {
		rng := r.Rng(i)
		h := m.Chunk().Header
		basic := kit.BasicBytes(m.Fmt, m.CSID)
		rest := kit.HeaderBytes(m)[len(basic):]
		mh := rest
		var ext []byte
		if m.Fmt <= 2 && m.TS == kit.Ext24 {
			mh, ext = rest[:len(rest)-4], rest[len(rest)-4:]
		}
		for _, x := range []struct {
			name string
			c    codec
			mk   func() codec
			want []byte
		}{
			{"basic header", &h.BasicHeader, func() codec { return new(chunk.BasicHeader) }, basic},
			{"message header", &h.MessageHeader, func() codec { return &chunk.MessageHeader{FormatId: m.Fmt} }, mh},
			{"extended timestamp", &h.ExtendedTimestamp, func() codec { return new(chunk.ExtendedTimestamp) }, ext},
		} {
			if x.want == nil {
				continue
			}
			var b bytes.Buffer
			if err := x.c.Write(&b); err != nil || !bytes.Equal(b.Bytes(), x.want) {
				r.Fail("the %s of %v is written as % x (%v), want % x", x.name, m, b.Bytes(), err, x.want)
			}
			src := kit.Frag(rng, append(append([]byte(nil), x.want...), 1, 2, 3))
			c := x.mk()
			if err := c.Read(src); err != nil || src.Off != len(x.want) {
				r.Fail("reading the %s % x consumed %d bytes (%v)", x.name, x.want, src.Off, err)
			}
			b.Reset()
			if c.Write(&b); !bytes.Equal(b.Bytes(), x.want) {
				r.Fail("the %s % x is rewritten as % x", x.name, x.want, b.Bytes())
			}
			for t := 0; t < len(x.want); t++ {
				src := kit.Frag(rng, x.want[:t])
				if rng.Intn(2) == 0 {
					src.End = kit.Fault(rng)
				}
				if err := x.mk().Read(src); err == nil || src.End != nil && !errors.Is(err, src.End) {
					r.Fail("the %s % x cut at byte %d by %v: %v", x.name, x.want, t, src.End, err)
				}
				sink := kit.NewSink()
				sink.FailAt, sink.Err, sink.Heal = t, kit.WriteFault(rng), rng.Intn(2) == 0
				if err := x.c.Write(sink); !errors.Is(err, sink.Err) || !bytes.HasPrefix(x.want, sink.B) || len(sink.B) > t {
					r.Fail("the %s % x written to a transport failing at byte %d with %v: %v, sent % x", x.name, x.want, t, sink.Err, err, sink.B)
				}
			}
			r.Count("header_parts", 1)
		}
	}
	for range r.Cases(1_000_000, 1) {
		n := 0
		for id := uint32(2); id <= 65599; id++ {
			if id == 63 {
				continue
			}
			for f := byte(0); f < 4; f++ {
				m := kit.Msg{Fmt: f, CSID: id, TS: id*77 + uint32(f)}
				if f == 3 {
					m.TS = 0
				}
				m.Type, m.MSID = byte(id), id*2654435761
				r.Scenario("header %v", m)
				one(m, (id*31)&0xffffff, 1, 0)
				n++
			}
		}
		r.EvalN(n, "id")
	}
	for i := range r.Cases(0, r.N(12000, 200000)) {
		rng := r.Rng(i)
		m := kit.Message(rng, kit.CSID(rng), 100, 10)
		m.Fmt = byte(rng.Intn(4))
		if m.Fmt == 3 {
			m.TS, m.Ext = 0, 0
		}
		length := []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xfffffe, 0xffffff, uint32(rng.Intn(1 << 24))}[rng.Intn(9)]
		r.Scenario("header %v length %d", m, length)
		one(m, length, 4, int64(i))
		if i%8 == 0 {
			faults(m, i)
			parts(m, i)
		}
		r.Eval(true, kit.HeaderBytesLen(m, length))
		if i < 4 {
			r.Sample("%v length %d <-> % x", m, length, kit.HeaderBytesLen(m, length))
		}
	}
	for range r.Cases(1_000_001, 1) {
		// unknown formats
		for f := 4; f < 256; f++ {
			mh := chunk.MessageHeader{FormatId: byte(f)}
			src := &kit.Src{B: kit.BasicBytes(0, 1000)}
			if err := mh.Read(src); !errors.Is(err, chunk.ErrUnknownFormatId) {
				r.Fail("reading a message header of format %d: %v", f, err)
			}
			if src.Off != 0 {
				r.Fail("reading a message header of format %d consumed %d bytes", f, src.Off)
			}
		}
		// ids no header can carry
		for _, id := range []uint32{65600, 65601, 65664, 1 << 17, 1<<24 + 5, 0xffffffff} {
			var b bytes.Buffer
			if err := (&chunk.BasicHeader{StreamId: id}).Write(&b); err == nil {
				r.Fail("chunk stream id %d, which no header can carry, was encoded as % x", id, b.Bytes())
			}
			b.Reset()
			if err := (&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}}).Write(&b); err == nil {
				r.Fail("chunk stream id %d, which no header can carry, was encoded as % x", id, b.Bytes())
			}
		}
		// ids 0 and 1 and 63, and the three-byte form, are where the library
		// departs from the specification
		var b bytes.Buffer
		err := (&chunk.BasicHeader{StreamId: 63}).Write(&b)
		var got chunk.BasicHeader
		if err == nil {
			if e := got.Read(bytes.NewReader(append(b.Bytes(), 0, 0))); e != nil || got.StreamId != 63 {
				if !bytes.Equal(b.Bytes(), []byte{63}) || e != nil || got.StreamId != 64 {
					r.Fail("chunk stream id 63 is encoded as % x, which decodes as id %d (%v)", b.Bytes(), got.StreamId, e)
				}
				r.Finding("csid-63", "chunk stream id 63 is encoded as % x, which decodes as id %d", b.Bytes(), got.StreamId)
			}
		}
		b.Reset()
		if err := (&chunk.BasicHeader{StreamId: 320}).Write(&b); err != nil || !bytes.Equal(b.Bytes(), []byte{1, 0, 1}) {
			if err != nil || !bytes.Equal(b.Bytes(), []byte{63, 1, 0}) {
				r.Fail("chunk stream id 320 is encoded as % x (%v)", b.Bytes(), err)
			}
			r.Finding("three-byte-form", "chunk stream id 320 is encoded as % x, Adobe RTMP 1.0 5.3.1.1 has 01 00 01", b.Bytes())
		}
		var t chunk.ExtendedTimestamp
		for _, v := range []uint32{0, 1, 0xffffff, 0x1000000, 0x01020304, 0xffffffff} {
			b.Reset()
			t.Delta = v
			if err := t.Write(&b); err != nil || !bytes.Equal(b.Bytes(), []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}) {
				r.Fail("extended timestamp %#x encodes as % x (%v)", v, b.Bytes(), err)
			}
			var u chunk.ExtendedTimestamp
			if err := u.Read(&b); err != nil || u.Delta != v {
				r.Fail("extended timestamp %#x decodes as %#x (%v)", v, u.Delta, err)
			}
		}
		r.EvalN(252+12+6, "edge")
	}
	r.Need("headers", 200000)
}

// littleEndian decodes a little-endian integer of any length up to four.
func littleEndian(r *kit.R, raw []byte, want uint64) {
	b := spare(raw)
	if got := spec.LittleEndianUint32(b); uint64(got) != want {
		r.Fail("LittleEndianUint32(% x) = %#x", raw, got)
	}
	if spareIntact(b) && bytes.Equal(b, raw) {
		return
	}
	// the known way: the bytes up to the fourth are cleared
	ref, all := spare(raw), b[:cap(b)]
	ref = ref[:cap(ref)]
	for k := len(raw); k < 4; k++ {
		ref[k] = 0
	}
	if len(raw) > 3 || !bytes.Equal(all, ref) {
		r.Fail("LittleEndianUint32 of %d bytes wrote into the caller's memory: % x, was % x", len(raw), all, raw)
	}
	r.Finding("little-endian-overwrite", "LittleEndianUint32 of %d bytes cleared the caller's memory behind them: % x", len(raw), all)
}

// s01: the integer codecs.
func s01(r *kit.R) {
	r.Rule("integers of every width encoded, decoded from slices of every shorter length (with poisoned spare capacity), written to failing " +
		"transports and read from fragmented ones; every 16-bit value, boundary and random wider ones; distinct by value, width and length")
	for range r.Cases(1_000_000, 1) {
		n := 0
		for v := 0; v < 1<<16; v++ {
			b := spare([]byte{byte(v >> 8), byte(v)})
			if got := spec.Uint16(b); got != uint16(v) {
				r.Fail("Uint16(% x) = %#x", b, got)
			}
			if got := spec.Uint32(b); got != uint32(v) {
				r.Fail("Uint32(% x) = %#x", b, got)
			}
			if got := spec.Uint64(b); got != uint64(v) {
				r.Fail("Uint64(% x) = %#x", b, got)
			}
			if !spareIntact(b) || b[0] != byte(v>>8) || b[1] != byte(v) {
				r.Fail("decoding two bytes wrote into the caller's memory: % x", b[:cap(b)])
			}
			littleEndian(r, []byte{byte(v >> 8), byte(v)}, uint64(v>>8|v<<8&0xff00))
			var w bytes.Buffer
			if k, err := spec.PutUint16(uint16(v), &w); k != 2 || err != nil || w.Bytes()[0] != byte(v>>8) || w.Bytes()[1] != byte(v) {
				r.Fail("PutUint16(%#x) wrote % x (%d, %v)", v, w.Bytes(), k, err)
			}
			n++
		}
		r.EvalN(n, "u16")
	}
	for i := range r.Cases(0, r.N(80000, 1000000)) {
		rng := r.Rng(i)
		v := rng.Uint64()
		if rng.Intn(3) == 0 {
			v = []uint64{0, 1, 0x7f, 0x80, 0xff, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 63, 1<<64 - 1}[rng.Intn(14)]
		}
		for n := 0; n <= 8; n++ {
			raw := make([]byte, n)
			var be, le uint64
			for k := range raw {
				raw[k] = byte(v >> (8 * k))
				be = be<<8 | uint64(raw[k])
				le |= uint64(raw[k]) << (8 * k)
			}
			b := spare(raw)
			if n <= 2 && uint64(spec.Uint16(b)) != be {
				r.Fail("Uint16(% x) = %#x", b, spec.Uint16(b))
			}
			if n <= 4 && uint64(spec.Uint32(b)) != be {
				r.Fail("Uint32(% x) = %#x", b, spec.Uint32(b))
			}
			if n <= 4 {
				littleEndian(r, raw, le)
			}
			if spec.Uint64(b) != be {
				r.Fail("Uint64(% x) = %#x", b, spec.Uint64(b))
			}
			if !spareIntact(b) || !bytes.Equal(b, raw) {
				r.Fail("decoding %d bytes wrote into the caller's memory: % x, was % x", n, b[:cap(b)], raw)
			}
		}
		put := func(name string, want []byte, f func(io.Writer) (int, error)) {
			for t := 0; t <= len(want); t++ {
				s := kit.NewSink()
				s.FailAt = t
				s.Err = kit.WriteFault(rng)
				s.Heal = rng.Intn(2) == 0
				n, err := f(s)
				if err != nil && !errors.Is(err, s.Err) {
					r.Fail("%s(%#x) to a transport failing with %v: %v", name, v, s.Err, err)
				}
				if (err == nil) != (t == len(want)) || n != t || !bytes.Equal(s.B, want[:t]) {
					r.Fail("%s(%#x) to a transport accepting %d bytes: wrote % x, returned %d, %v", name, v, t, s.B, n, err)
				}
			}
		}
		b := func(k int) byte { return byte(v >> (8 * k)) }
		put("PutUint8", []byte{b(0)}, func(w io.Writer) (int, error) { return spec.PutUint8(byte(v), w) })
		put("PutUint16", []byte{b(1), b(0)}, func(w io.Writer) (int, error) { return spec.PutUint16(uint16(v), w) })
		put("PutUint24", []byte{b(2), b(1), b(0)}, func(w io.Writer) (int, error) { return spec.PutUint24(uint32(v)&0xffffff, w) })
		put("PutUint32", []byte{b(3), b(2), b(1), b(0)}, func(w io.Writer) (int, error) { return spec.PutUint32(uint32(v), w) })
		put("LittleEndianPutUint32", []byte{b(0), b(1), b(2), b(3)}, func(w io.Writer) (int, error) { return spec.LittleEndianPutUint32(uint32(v), w) })
		x, y := int(int32(v)), int(int32(v>>32))
		if spec.Min(x, y) > x || spec.Min(x, y) > y || spec.Max(x, y) < x || spec.Max(x, y) < y || spec.Min(x, y)+spec.Max(x, y) != x+y {
			r.Fail("Min(%d,%d)=%d Max=%d", x, y, spec.Min(x, y), spec.Max(x, y))
		}
		// reading
		data := kit.Bytes(rng, 1+rng.Intn(40))
		want := rng.Intn(len(data) + 4)
		src := kit.Frag(rng, data)
		if rng.Intn(2) == 0 {
			src.End = kit.Fault(rng)
		}
		var rd io.Reader = src
		if rng.Intn(2) == 0 {
			rd = kit.ByteSrc{Src: src}
		}
		one, err := spec.ReadByte(rd)
		for err == nil && one == 0 && src.Off == 0 && rd == io.Reader(src) {
			r.Finding("readbyte-empty-read", "ReadByte took a read that returned no data and no error for a zero byte")
			one, err = spec.ReadByte(rd)
		}
		if err != nil && len(data) == 1 && src.Off == 1 && rd == io.Reader(src) && isEnd(src, err) {
			r.Finding("readbyte-byte-with-end", "ReadByte dropped a byte that a read returned together with the end of the transport")
			one, err = data[0], nil
		}
		if err != nil || one != data[0] || src.Off != 1 {
			r.Fail("ReadByte of % x: %#x, %v, %d bytes consumed", data, one, err, src.Off)
		}
		got, err := spec.ReadBytes(rd, want)
		if want <= len(data)-1 {
			if err != nil || !bytes.Equal(got, data[1:1+want]) || src.Off != 1+want {
				r.Fail("ReadBytes(%d) of % x: % x, %v, %d bytes consumed", want, data[1:], got, err, src.Off-1)
			}
		} else if err == nil || (src.End != nil && !errors.Is(err, src.End)) {
			r.Fail("ReadBytes(%d) of %d bytes: %v, the transport ended with %v", want, len(data)-1, err, src.End)
		}
		empty := kit.Frag(rng, nil)
		empty.End = kit.Fault(rng)
		one, err = spec.ReadByte(empty)
		for k := 0; k < 1000 && err == nil && one == 0 && !empty.Ended.Load(); k++ {
			r.Finding("readbyte-empty-read", "ReadByte took a read that returned no data and no error for a zero byte")
			one, err = spec.ReadByte(empty)
		}
		if !errors.Is(err, empty.End) {
			r.Fail("ReadByte of a failed transport: %v", err)
		}
		r.Eval(true, v, want, data)
		r.Count("values", 1)
		if i < 3 {
			r.Sample("value %#x, and %d of %s", v, want, fmt.Sprintf("%d bytes", len(data)))
		}
	}
	r.Need("values", 1000)
}
