package kit

import "math/rand"

// csids the library can represent: 2..62 and 64..65599.
var edgeCSIDs = []uint32{2, 3, 4, 5, 8, 31, 32, 61, 62, 64, 65, 66, 127, 128, 191, 255, 256, 318, 319, 320, 321, 322,
	383, 384, 511, 512, 575, 576, 1024, 4095, 32767, 32768, 65535, 65536, 65598, 65599}

// CSID draws a chunk stream id.
func CSID(rng *rand.Rand) uint32 {
	for {
		var id uint32
		switch rng.Intn(6) {
		case 0, 1:
			id = edgeCSIDs[rng.Intn(len(edgeCSIDs))]
		case 2:
			id = 2 + uint32(rng.Intn(61))
		case 3:
			id = 64 + uint32(rng.Intn(256))
		case 4:
			id = 320 + uint32(rng.Intn(65280))
		case 5:
			id = 2 + uint32(rng.Intn(8))
		}
		if id != 63 && id <= 65599 {
			return id
		}
	}
}

// CSIDs draws n distinct chunk stream ids.
func CSIDs(rng *rand.Rand, n int) []uint32 {
	seen := map[uint32]bool{}
	var r []uint32
	for len(r) < n {
		id := CSID(rng)
		if !seen[id] {
			seen[id] = true
			r = append(r, id)
		}
	}
	return r
}

// TS draws a timestamp field and its extension.
func TS(rng *rand.Rand) (field, ext uint32) {
	edge := []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xfffffe}
	switch rng.Intn(6) {
	case 0, 1:
		return edge[rng.Intn(len(edge))], 0
	case 2, 3:
		return uint32(rng.Intn(Ext24)), 0
	case 4:
		// a delta of a whole, or a wrapped clock, may be small all the same
		e := []uint32{0, 1, 5, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
		return Ext24, e[rng.Intn(len(e))]
	default:
		if rng.Intn(4) == 0 {
			return Ext24, rng.Uint32()
		}
		return Ext24, Ext24 + uint32(rng.Int63n(0xff000000))
	}
}

// TypeID draws a message type other than the protocol control types the chunk
// layer interprets itself (1 set chunk size, 2 abort).
func TypeID(rng *rand.Rand) byte {
	t := []byte{0, 3, 4, 5, 6, 8, 9, 0x12, 0x14, 22, 127, 128, 255}
	if rng.Intn(3) > 0 {
		return t[rng.Intn(len(t))]
	}
	return byte(3 + rng.Intn(253))
}

// MSID draws a message stream id.
func MSID(rng *rand.Rand) uint32 {
	e := []uint32{0, 1, 2, 0xff, 0x100, 0x10000, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}
	if rng.Intn(2) == 0 {
		return e[rng.Intn(len(e))]
	}
	return rng.Uint32()
}

// Size draws a chunk size.
func Size(rng *rand.Rand) int {
	e := []int{1, 2, 3, 7, 16, 64, 127, 128, 129, 255, 256, 1000, 1024, 4096, 65535, 65536, 1 << 20, 0xffffff, 0x7fffffff}
	switch rng.Intn(8) {
	case 0:
		return 1 + rng.Intn(300)
	case 1:
		return 1 + rng.Intn(1<<uint(1+rng.Intn(20)))
	}
	return e[rng.Intn(len(e))]
}

var edgeLens = []int{127, 128, 129, 255, 256, 257, 383, 384, 385, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
	8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131072, 200000}

// Max draws the bound on message lengths of a case: small as a rule, so that
// cases are many, and now and then large.
func Max(rng *rand.Rand, small int) int {
	switch rng.Intn(24) {
	case 0:
		return 70000
	case 1:
		return 9000
	case 2:
		return 200000
	}
	return small
}

// Len draws a message length around the boundaries a chunk size creates. max
// bounds it, and so does a limit on the number of chunks.
func Len(rng *rand.Rand, size, max int) int {
	var n int
	switch rng.Intn(8) {
	case 0:
		n = rng.Intn(3)
	case 1:
		n = size
	case 2:
		n = size + 1
	case 3:
		n = size - 1
	case 4:
		if size < 1<<20 {
			n = size*(1+rng.Intn(4)) + rng.Intn(3) - 1
		}
	case 5:
		n = edgeLens[rng.Intn(len(edgeLens))]
	default:
		n = rng.Intn(600)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = rng.Intn(max + 1)
	}
	if size < 64 && n > size*600 {
		n = size * (1 + rng.Intn(600))
	}
	return n
}

// Bytes makes recognisable, non-repeating data.
func Bytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// Message draws an uncompressed message for the chunk stream.
func Message(rng *rand.Rand, csid uint32, size, max int) Msg {
	ts, ext := TS(rng)
	return Msg{CSID: csid, TS: ts, Ext: ext, Type: TypeID(rng), MSID: MSID(rng), Data: Bytes(rng, Len(rng, size, max))}
}

// Compress re-draws m with a header format the encoder's state allows.
func Compress(rng *rand.Rand, e *Enc, m Msg) Msg {
	if !e.Has(m.CSID) || rng.Intn(4) == 0 {
		m.Fmt = 0
		return m
	}
	m.Fmt = byte(1 + rng.Intn(3))
	if t := e.Prev(m.CSID).Type; t == 1 || t == 2 {
		m.Fmt = 1 // the type would be inherited
	}
	if m.Fmt >= 2 {
		m.Data = Bytes(rng, len(e.Prev(m.CSID).Data))
	}
	return m
}
