package kit

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/WatchBeam/rtmp/chunk"
)

// This file is an independent implementation of the chunk wire format (Adobe
// RTMP 1.0, section 5.3), written against the specification and not against
// the code under test. One deliberate departure: the three-byte basic header
// uses the marker and byte order which this library's own tests pin (see the
// known findings), because otherwise no id above 319 could be exercised.

const Ext24 = 0xffffff

// Msg is a message: what a sender means and what a receiver must obtain.
type Msg struct {
	Fmt   byte
	CSID  uint32
	TS    uint32 // 24-bit field as transmitted, or as inherited
	Ext   uint32 // 32-bit extension, when TS is 0xffffff
	Delta bool
	Type  byte
	MSID  uint32
	Data  []byte
}

func (m Msg) String() string {
	return fmt.Sprintf("{fmt %d csid %d ts %#x ext %#x delta %v type %d msid %#x len %d}",
		m.Fmt, m.CSID, m.TS, m.Ext, m.Delta, m.Type, m.MSID, len(m.Data))
}

// Chunk is the message as the library represents it.
func (m Msg) Chunk() *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader: chunk.BasicHeader{FormatId: m.Fmt, StreamId: m.CSID},
		MessageHeader: chunk.MessageHeader{
			FormatId: m.Fmt, Timestamp: m.TS, TimestampDelta: m.Delta,
			Length: uint32(len(m.Data)), TypeId: m.Type, StreamId: m.MSID,
		},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: m.Ext},
	}, m.Data)
}

// Diff compares a delivered message with what was sent; "" when equal.
func Diff(want Msg, c *chunk.Chunk) string {
	if c == nil || c.Header == nil {
		return "nil message delivered"
	}
	h := c.Header
	switch {
	case h.BasicHeader.StreamId != want.CSID:
		return fmt.Sprintf("chunk stream id %d, want %d", h.BasicHeader.StreamId, want.CSID)
	case h.MessageHeader.TypeId != want.Type:
		return fmt.Sprintf("type id %d, want %d", h.MessageHeader.TypeId, want.Type)
	case h.MessageHeader.StreamId != want.MSID:
		return fmt.Sprintf("message stream id %#x, want %#x", h.MessageHeader.StreamId, want.MSID)
	case h.MessageHeader.Length != uint32(len(want.Data)):
		return fmt.Sprintf("length field %d, want %d", h.MessageHeader.Length, len(want.Data))
	case h.MessageHeader.Timestamp != want.TS:
		return fmt.Sprintf("timestamp field %#x, want %#x", h.MessageHeader.Timestamp, want.TS)
	case h.MessageHeader.TimestampDelta != want.Delta:
		return fmt.Sprintf("timestamp-is-delta %v, want %v", h.MessageHeader.TimestampDelta, want.Delta)
	case want.TS == Ext24 && h.ExtendedTimestamp.Delta != want.Ext:
		return fmt.Sprintf("extended timestamp %#x, want %#x", h.ExtendedTimestamp.Delta, want.Ext)
	}
	return DiffBytes(want.Data, c.Data)
}

// DiffBytes locates the first difference.
func DiffBytes(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("byte %d is %#02x, want %#02x (lengths %d, want %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	return fmt.Sprintf("%d bytes, want %d", len(got), len(want))
}

// BasicBytes encodes a basic header.
func BasicBytes(fmtID byte, csid uint32) []byte {
	switch {
	case csid < 64:
		return []byte{fmtID<<6 | byte(csid)}
	case csid < 320:
		return []byte{fmtID << 6, byte(csid - 64)}
	default:
		v := csid - 64
		return []byte{fmtID<<6 | 63, byte(v >> 8), byte(v)}
	}
}

// HeaderBytes encodes a whole chunk header of the message's own format.
func HeaderBytes(m Msg) []byte { return headerBytes(m, uint32(len(m.Data))) }

func headerBytes(m Msg, length uint32) []byte {
	b := BasicBytes(m.Fmt, m.CSID)
	if m.Fmt <= 2 {
		b = append(b, byte(m.TS>>16), byte(m.TS>>8), byte(m.TS))
	}
	if m.Fmt <= 1 {
		b = append(b, byte(length>>16), byte(length>>8), byte(length), m.Type)
	}
	if m.Fmt == 0 {
		b = append(b, byte(m.MSID), byte(m.MSID>>8), byte(m.MSID>>16), byte(m.MSID>>24))
	}
	if m.TS == Ext24 {
		b = append(b, byte(m.Ext>>24), byte(m.Ext>>16), byte(m.Ext>>8), byte(m.Ext))
	}
	return b
}

// Enc is the reference sender.
type Enc struct {
	Size int
	B    []byte
	Cuts []int // offset after each chunk
	prev map[uint32]Msg
}

func NewEnc(size int) *Enc { return &Enc{Size: size, prev: map[uint32]Msg{}} }

// Has tells whether the chunk stream has a header to inherit from.
func (e *Enc) Has(csid uint32) bool { _, ok := e.prev[csid]; return ok }

// Prev is the header the chunk stream would inherit from.
func (e *Enc) Prev(csid uint32) Msg { return e.prev[csid] }

// Forget makes the next message of the chunk stream start uncompressed.
func (e *Enc) Forget(csid uint32) { delete(e.prev, csid) }

// Part is a message being transmitted.
type Part struct {
	e    *Enc
	M    Msg // as it must be delivered
	off  int
	N    int // chunks sent
	Done bool
}

// Begin transmits the first chunk of m; fields the format omits are inherited
// from the chunk stream's previous header (and the data must have its length
// for formats 2 and 3).
func (e *Enc) Begin(m Msg) *Part {
	if m.Fmt > 0 {
		p, ok := e.prev[m.CSID]
		if !ok {
			panic("kit: nothing to inherit from")
		}
		m.MSID = p.MSID
		m.Delta = true
		if m.Fmt >= 2 {
			m.Type = p.Type
			if len(m.Data) != len(p.Data) {
				panic("kit: inherited length does not fit")
			}
		}
		if m.Fmt == 3 {
			m.TS, m.Ext, m.Delta = p.TS, p.Ext, p.Delta
		}
	} else {
		m.Delta = false
	}
	e.prev[m.CSID] = m
	e.B = append(e.B, HeaderBytes(m)...)
	p := &Part{e: e, M: m, N: 1}
	p.payload()
	return p
}

func (p *Part) payload() {
	n := len(p.M.Data) - p.off
	if n > p.e.Size {
		n = p.e.Size
	}
	p.e.B = append(p.e.B, p.M.Data[p.off:p.off+n]...)
	p.off += n
	p.Done = p.off == len(p.M.Data)
	p.e.Cuts = append(p.e.Cuts, len(p.e.B))
}

// Next transmits the next continuation chunk.
func (p *Part) Next() {
	if p.Done {
		panic("kit: message already complete")
	}
	p.e.B = append(p.e.B, BasicBytes(3, p.M.CSID)...)
	if p.M.TS == Ext24 {
		x := p.M.Ext
		p.e.B = append(p.e.B, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	p.N++
	p.payload()
}

// All transmits m without interleaving.
func (e *Enc) All(m Msg) Msg {
	p := e.Begin(m)
	for !p.Done {
		p.Next()
	}
	return p.M
}

// SetSize announces and adopts a new chunk size.
func (e *Enc) SetSize(csid uint32, n uint32) {
	e.All(Msg{CSID: csid, Type: 1, Data: []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}})
	e.Size = int(n)
}

// Wire is one chunk as found on the wire.
type Wire struct {
	Off     int
	Fmt     byte
	CSID    uint32
	Payload int
	First   bool
}

// Dec is the reference receiver: strict, any departure from the format is an
// error.
type Dec struct {
	Size  int
	B     []byte
	Off   int
	prev  map[uint32]Msg
	lens  map[uint32]int
	open  map[uint32]*Msg
	Wires []Wire
}

func NewDec(size int, b []byte) *Dec {
	return &Dec{Size: size, B: b, prev: map[uint32]Msg{}, lens: map[uint32]int{}, open: map[uint32]*Msg{}}
}

func (d *Dec) take(n int) ([]byte, error) {
	if len(d.B)-d.Off < n {
		return nil, fmt.Errorf("wire ends at offset %d, %d more bytes needed", len(d.B), n-(len(d.B)-d.Off))
	}
	b := d.B[d.Off : d.Off+n]
	d.Off += n
	return b, nil
}

func be(b []byte) uint32 {
	var v uint32
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return v
}

// Next returns the next complete message, or nil at the end of the bytes.
func (d *Dec) Next() (*Msg, error) {
	for d.Off < len(d.B) {
		m, err := d.chunk()
		if m != nil || err != nil {
			return m, err
		}
	}
	if len(d.open) > 0 {
		var ids []int
		for id := range d.open {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		return nil, fmt.Errorf("wire ends with incomplete messages on chunk streams %v", ids)
	}
	return nil, nil
}

func (d *Dec) chunk() (*Msg, error) {
	at := d.Off
	b, err := d.take(1)
	if err != nil {
		return nil, err
	}
	f := b[0] >> 6
	csid := uint32(b[0] & 63)
	switch csid {
	case 0:
		if b, err = d.take(1); err != nil {
			return nil, err
		}
		csid = 64 + uint32(b[0])
	case 63:
		if b, err = d.take(2); err != nil {
			return nil, err
		}
		csid = 64 + be(b)
		if csid < 320 {
			return nil, fmt.Errorf("offset %d: chunk stream %d in the three-byte form", at, csid)
		}
	}
	m := Msg{Fmt: f, CSID: csid}
	prev, has := d.prev[csid]
	if f > 0 && !has {
		return nil, fmt.Errorf("offset %d: format %d chunk on chunk stream %d, which has no header yet", at, f, csid)
	}
	length := 0
	if f > 0 {
		m.MSID, m.Type, length = prev.MSID, prev.Type, d.lens[csid]
	}
	if f == 3 {
		m.TS, m.Delta, m.Ext = prev.TS, prev.Delta, prev.Ext
	}
	if f <= 2 {
		if b, err = d.take(3); err != nil {
			return nil, err
		}
		m.TS = be(b)
		m.Delta = f > 0
	}
	if f <= 1 {
		if b, err = d.take(4); err != nil {
			return nil, err
		}
		length = int(be(b[:3]))
		m.Type = b[3]
	}
	if f == 0 {
		if b, err = d.take(4); err != nil {
			return nil, err
		}
		m.MSID = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	if m.TS == Ext24 {
		if b, err = d.take(4); err != nil {
			return nil, err
		}
		m.Ext = be(b)
	}
	cur, cont := d.open[csid]
	if cont {
		if f != 3 {
			return nil, fmt.Errorf("offset %d: format %d chunk inside an unfinished message of chunk stream %d", at, f, csid)
		}
		if m.Ext != cur.Ext {
			return nil, fmt.Errorf("offset %d: extended timestamp %#x on a continuation of a message with %#x", at, m.Ext, cur.Ext)
		}
	} else {
		d.prev[csid] = m
		d.lens[csid] = length
		c := m
		cur = &c
		d.open[csid] = cur
	}
	n := length - len(cur.Data)
	if n > d.Size {
		n = d.Size
	}
	if b, err = d.take(n); err != nil {
		return nil, err
	}
	cur.Data = append(cur.Data, b...)
	d.Wires = append(d.Wires, Wire{Off: at, Fmt: f, CSID: csid, Payload: n, First: !cont})
	if len(cur.Data) == length {
		delete(d.open, csid)
		return cur, nil
	}
	return nil, nil
}

// SameMsg compares two messages in every field; "" when equal.
func SameMsg(want, got Msg) string {
	a, b := want, got
	a.Data, b.Data = nil, nil
	if a.TS != Ext24 {
		a.Ext = 0
	}
	if b.TS != Ext24 {
		b.Ext = 0
	}
	if fmt.Sprintf("%+v", a) != fmt.Sprintf("%+v", b) {
		return fmt.Sprintf("header %v, want %v", got, want)
	}
	return DiffBytes(want.Data, got.Data)
}

// HeaderBytesLen is HeaderBytes with an explicit length field.
func HeaderBytesLen(m Msg, length uint32) []byte { return headerBytes(m, length) }
