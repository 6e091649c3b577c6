package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// c15: one message under assembly, against a model of it.
func c15(r *kit.R) {
	r.Rule("a message assembled from parts appended and parts read from fragmenting, ending and failing transports, asked for its " +
		"state in between, compared with a model at each step; distinct by the sequence of steps and their results")
	for i := range r.Cases(0, r.N(30000, 600000)) {
		rng := r.Rng(i)
		length := rng.Intn(300)
		if rng.Intn(8) == 0 {
			length = kit.Len(rng, 4096, 70000)
		}
		huge := rng.Intn(10) == 0 // more than a chunk header can say
		if huge {
			length = []int{1 << 24, 1<<24 + rng.Intn(1000), 1 << 31, 1<<32 - 1, int(rng.Uint32())}[rng.Intn(5)]
		}
		h := &chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(length), TypeId: byte(i)}, BasicHeader: chunk.BasicHeader{StreamId: uint32(i)}}
		was := *h
		b := chunk.NewBuilder(h)
		left := length
		var data []byte
		var steps []byte
		step := func(format string, a ...any) { steps = append(steps, fmt.Sprintf(format+";", a...)...) }
		size := func() int {
			if huge {
				return rng.Intn(100)
			}
			switch rng.Intn(6) {
			case 0:
				return left
			case 1:
				return 0
			case 2:
				return left + 1 + rng.Intn(5)
			}
			return rng.Intn(1 + length/3)
		}
		over := false
		r.Scenario("message of %d bytes", length)
		for k := 2 + rng.Intn(12); k > 0 && !over; k-- {
			n := max(0, size())
			p := kit.Bytes(rng, n)
			var got int
			var err error
			switch rng.Intn(5) {
			case 0, 1:
				step("append %d", n)
				got, err = b.Append(p)
			case 2, 3:
				step("read %d", n)
				src := kit.Frag(rng, append(append([]byte(nil), p...), 1, 2, 3))
				got, err = b.Read(src, n)
				if src.Off != n {
					r.Fail("after %s %d bytes of the transport are gone", steps, src.Off)
				}
			case 4:
				if n == 0 {
					continue
				}
				t := rng.Intn(n)
				step("cut read %d/%d", t, n)
				src := kit.Frag(rng, p[:t])
				src.EOFWith = false
				if rng.Intn(2) == 0 {
					src.End = kit.Fault(rng)
				}
				got, err = b.Read(src, n)
				if err == nil || got != t || src.End != nil && !errors.Is(err, src.End) {
					r.Fail("%s: reading %d bytes from a transport that ends after %d with %v: %d, %v", steps, n, t, src.End, got, err)
				}
				if src.End == nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
					r.Fail("%s: the end of the transport is reported as %v", steps, err)
				}
				r.Count("cut_reads", 1)
				n, p, got, err = 0, nil, 0, nil
			}
			left -= n
			data = append(data, p...)
			over = left < 0
			if got != n {
				r.Fail("%s: %d of %d bytes counted (%v)", steps, got, n, err)
			}
			if over != errors.Is(err, chunk.ErrTooManyBytes) || !over && err != nil {
				r.Fail("%s: %d bytes left of %d, error %v", steps, left, length, err)
			}
			if over {
				r.Count("overruns", 1)
				break
			}
			if b.BytesLeft() != left {
				r.Fail("%s: %d bytes left, want %d of %d", steps, b.BytesLeft(), left, length)
			}
			if rng.Intn(3) == 0 {
				d := rng.Intn(50)
				b.AddLeft(d)
				left += d
				if b.BytesLeft() != left {
					r.Fail("%s: %d bytes left after %d more, want %d", steps, b.BytesLeft(), d, left)
				}
			}
			if rng.Intn(3) == 0 {
				step("build")
				c := b.Build()
				if d := kit.DiffBytes(data, c.Data); d != "" || *c.Header != was {
					r.Fail("%s: built header %+v, payload %s", steps, *c.Header, d)
				}
			}
		}
		if !over {
			c := b.Build()
			if d := kit.DiffBytes(data, c.Data); d != "" || *c.Header != was || c.TypeId() != was.MessageHeader.TypeId || c.StreamId() != was.BasicHeader.StreamId {
				r.Fail("%s: built header %+v, payload %s", steps, *c.Header, d)
			}
			r.Count("assembled", 1)
		}
		r.Eval(len(steps) > 20, steps)
		if i < 3 {
			r.Sample("message of %d bytes: %s", length, steps)
		}
	}
	for range r.Cases(1_000_000, 1) { // very many parts
		n := r.N(70000, 300000)
		r.Scenario("message of %d parts", n)
		b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(n)}})
		var want []byte
		for k := 0; k < n; k++ {
			p := []byte{byte(k>>8 ^ k)}
			want = append(want, p...)
			got, err := 0, error(nil)
			if k%2 == 0 {
				got, err = b.Append(p)
			} else {
				got, err = b.Read(bytes.NewReader(p), 1)
			}
			if got != 1 || err != nil || b.BytesLeft() != n-k-1 {
				r.Fail("part %d of %d: %d, %v, %d bytes left", k, n, got, err, b.BytesLeft())
			}
		}
		if d := kit.DiffBytes(want, b.Build().Data); d != "" {
			r.Fail("%d parts: %s", n, d)
		}
		r.Eval(true, "parts")
	}
	r.Need("assembled", 1000)
	r.Need("overruns", 300)
	r.Need("cut_reads", 300)
}

// c16: header normalisation alone.
func c16(r *kit.R) {
	r.Rule("a history of headers of all formats on few or many chunk streams, normalised one after another, with explicitly stored ones " +
		"in between, compared with a model; distinct by history; non-trivial when a compressed header was completed")
	for i := range r.Cases(0, r.N(12000, 300000)) {
		rng := r.Rng(i)
		n := chunk.NewNormalizer()
		dn, _ := n.(*chunk.DefaultNormalizer)
		ids := kit.CSIDs(rng, 1+rng.Intn(5))
		count := 3 + rng.Intn(20)
		if rng.Intn(20) == 0 {
			ids = kit.CSIDs(rng, 300)
			count = 700
		}
		if i%3000 == 7 {
			count = 70000
		}
		if i%6000 == 8 { // nearly all chunk streams there are, most of them again long after
			ids = ids[:0]
			for id := uint32(2); id <= 65599; id++ {
				ids = append(ids, id)
			}
			count = 200000
		}
		draw := func(f byte) chunk.Header {
			h := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: ids[rng.Intn(len(ids))]}}
			m := &h.MessageHeader
			m.FormatId = f
			if f <= 2 {
				m.Timestamp, m.TimestampDelta = rng.Uint32()>>8, f > 0
				if rng.Intn(6) == 0 {
					m.Timestamp, h.ExtendedTimestamp.Delta = kit.Ext24, rng.Uint32()
				}
			}
			if f <= 1 {
				m.Length, m.TypeId = rng.Uint32()>>8, byte(rng.Intn(256))
			}
			if f == 0 {
				m.StreamId = kit.MSID(rng)
			}
			return h
		}
		var last *chunk.Header
		stored := map[uint32]*chunk.Header{}
		var kept []*chunk.Header
		var vals []chunk.Header
		var sig []byte
		completed := 0
		for k := 0; k < count; k++ {
			h := draw(byte(rng.Intn(4)))
			if dn != nil && rng.Intn(8) == 0 { // stored by hand
				x := h
				if rng.Intn(2) == 0 {
					dn.SetLast(&x)
					last = &h
				} else {
					dn.StoreHeader(&x)
					stored[h.BasicHeader.StreamId] = &h
				}
				sig = append(sig, 's', byte(h.BasicHeader.StreamId))
			} else {
				want := h
				m := &want.MessageHeader
				own := stored[h.BasicHeader.StreamId]
				prev := own
				if prev == nil {
					prev = last
				}
				switch f := h.BasicHeader.FormatId; {
				case f == 1 && prev != nil:
					m.StreamId = prev.MessageHeader.StreamId
					completed++
				case f == 2 && prev != nil:
					m.StreamId, m.Length, m.TypeId = prev.MessageHeader.StreamId, prev.MessageHeader.Length, prev.MessageHeader.TypeId
					completed++
				case f == 3 && own != nil:
					*m = own.MessageHeader
					m.FormatId = 3
					completed++
				}
				x := h
				got := n.Normalize(&x)
				if got == nil || *got != want {
					r.Fail("step %d: %+v normalised to %+v, want %+v (last %+v, same chunk stream %+v)", k, h, got, want, last, own)
				}
				kept = append(kept, got)
				vals = append(vals, want)
				last, stored[h.BasicHeader.StreamId] = &want, &want
				sig = append(sig, h.BasicHeader.FormatId, byte(h.BasicHeader.StreamId))
			}
			if dn != nil {
				same := func(what string, a, b *chunk.Header) {
					if (a == nil) != (b == nil) || a != nil && *a != *b {
						r.Fail("step %d: %s is %+v, want %+v", k, what, a, b)
					}
				}
				same("the last header", dn.Last(), last)
				id := ids[rng.Intn(len(ids))]
				same(fmt.Sprintf("the header of chunk stream %d", id), dn.Header(id), stored[id])
			}
			y, z := h, h
			if got := chunk.NoopNormalizer.Normalize(&y); got == nil || *got != z {
				r.Fail("the pass-through normaliser made %+v of %+v", got, z)
			}
		}
		for k := range kept {
			if *kept[k] != vals[k] {
				r.Fail("a header normalised before became %+v, was %+v", *kept[k], vals[k])
			}
		}
		r.Eval(completed > 0, sig, i%7)
		r.Count("headers_completed", completed)
	}
	customNormalizers(r)
	r.Need("headers_completed", 10000)
}

// script is a step of a handshake that records what is done to it.
type script struct {
	name string
	log  *[]string
	rw   io.ReadWriter
	r    *kit.R
	next handshake.Sequence
	err  [2]error
}

func (s *script) do(what int, same bool) error {
	*s.log = append(*s.log, fmt.Sprint(s.name, []string{"r", "w"}[what]))
	if !same {
		s.r.Fail("step %s is given another transport", s.name)
	}
	return s.err[what]
}
func (s *script) Read(r io.Reader) error    { return s.do(0, r == io.Reader(s.rw)) }
func (s *script) WriteTo(w io.Writer) error { return s.do(1, w == io.Writer(s.rw)) }
func (s *script) Next() handshake.Sequence {
	*s.log = append(*s.log, s.name+"n")
	return s.next
}

type duplex struct {
	io.Reader
	io.Writer
}

// h04: the handshake's packets and steps alone.
func h04(r *kit.R) {
	r.Rule("handshake packets with any contents encoded and decoded through fragmenting, ending and failing transports; each step run alone; " +
		"handshakes made of scripted steps, failing at any of them; distinct by contents, fault and script")
	// packets
	for i := range r.Cases(0, r.N(3000, 60000)) {
		rng := r.Rng(i)
		p := &handshake.AckPacket{Time1: rng.Uint32(), Time2: rng.Uint32() >> uint(rng.Intn(32))}
		copy(p.Payload[:], kit.Bytes(rng, handshake.PayloadLen))
		want := append([]byte{byte(p.Time1 >> 24), byte(p.Time1 >> 16), byte(p.Time1 >> 8), byte(p.Time1),
			byte(p.Time2 >> 24), byte(p.Time2 >> 16), byte(p.Time2 >> 8), byte(p.Time2)}, p.Payload[:]...)
		was := *p
		var b bytes.Buffer
		if err := p.Write(&b); err != nil || kit.DiffBytes(want, b.Bytes()) != "" || *p != was {
			r.Fail("packet written wrong (%v): %s", err, kit.DiffBytes(want, b.Bytes()))
		}
		src := kit.Frag(rng, append(append([]byte(nil), want...), 1, 2, 3))
		got := handshake.AckPacket{Time1: 1, Time2: 2}
		if err := got.Read(src); err != nil || got != *p || src.Off != len(want) {
			r.Fail("packet read back wrong (%v), %d bytes consumed", err, src.Off)
		}
		t := rng.Intn(len(want))
		if rng.Intn(2) == 0 {
			t = rng.Intn(10)
		}
		cut := kit.Frag(rng, want[:t])
		if rng.Intn(2) == 0 {
			cut.End = kit.Fault(rng)
		}
		if err := new(handshake.AckPacket).Read(cut); err == nil || cut.End != nil && !errors.Is(err, cut.End) {
			r.Fail("packet cut at byte %d by %v: %v", t, cut.End, err)
		}
		blip := &kit.Blip{Src: kit.Frag(rng, append(append([]byte(nil), want...), want...)), At: t, Err: kit.Fault(rng)}
		if err := new(handshake.AckPacket).Read(blip); !errors.Is(err, blip.Err) || blip.Off != t {
			r.Fail("transport failing once before byte %d of a packet with %v: %v, read up to %d", t, blip.Err, err, blip.Off)
		}
		sink := kit.NewSink()
		sink.FailAt, sink.Err, sink.Heal = t, kit.WriteFault(rng), rng.Intn(2) == 0
		if err := p.Write(sink); !errors.Is(err, sink.Err) || !bytes.HasPrefix(want, sink.B) || len(sink.B) > t {
			r.Fail("packet written to a transport failing at byte %d with %v: %v", t, sink.Err, err)
		}
		r.Eval(true, want, t)
		r.Count("packets", 1)

		// the steps of the server's side, alone
		v := &handshake.VerisonSequence{Supported: byte(rng.Intn(256))}
		if rng.Intn(2) == 0 {
			v = handshake.NewVersionSequence()
			if v.Supported != 3 {
				r.Fail("the supported version is %d", v.Supported)
			}
		}
		c0 := v.Supported
		if rng.Intn(2) == 0 {
			c0 = byte(rng.Intn(256))
		}
		s0 := kit.Frag(rng, []byte{c0, 9, 9})
		if err := v.Read(s0); (err == nil) != (c0 == v.Supported) || s0.Off != 1 {
			r.Fail("version %d read by a step for version %d: %v, %d bytes consumed", c0, v.Supported, err, s0.Off)
		}
		b.Reset()
		if err := v.WriteTo(&b); err != nil || !bytes.Equal(b.Bytes(), []byte{v.Supported}) {
			r.Fail("the step for version %d sends % x (%v)", v.Supported, b.Bytes(), err)
		}
		ca, ok := v.Next().(*handshake.ClientAckSequence)
		if !ok || ca == nil {
			r.Fail("the version step is followed by %T", v.Next())
		}
		if rng.Intn(3) == 0 {
			ca.S1 = &handshake.AckPacket{Time1: rng.Uint32(), Time2: rng.Uint32()}
			copy(ca.S1.Payload[:], kit.Bytes(rng, handshake.PayloadLen))
		}
		s1 := *ca.S1
		src = kit.Frag(rng, append(append([]byte(nil), want...), 7))
		if err := ca.Read(src); err != nil || *ca.C1 != *p || *ca.S1 != s1 || src.Off != len(want) {
			r.Fail("the challenge step misread the client's packet: %v", err)
		}
		b.Reset()
		var e bytes.Buffer
		s1.Write(&e)
		if err := ca.WriteTo(&b); err != nil || b.Len() != 2*len(want) || !bytes.Equal(b.Bytes()[:len(want)], e.Bytes()) {
			r.Fail("the challenge step sends %d bytes (%v), or not its own challenge", b.Len(), err)
		}
		if s2 := b.Bytes()[len(want):]; !bytes.Equal(s2[:4], want[:4]) || !bytes.Equal(s2[8:], want[8:]) {
			r.Fail("the challenge step does not echo the client's packet")
		}
		if *ca.C1 != *p || *ca.S1 != s1 {
			r.Fail("sending changed the packets of the challenge step")
		}
		sa, ok := ca.Next().(*handshake.ServerAckSequence)
		if !ok || sa == nil || *sa.S1 != s1 {
			r.Fail("the challenge step is followed by one that does not expect its challenge")
		}
		c2 := e.Bytes()
		good := rng.Intn(2) == 0
		if !good {
			c2[8+rng.Intn(handshake.PayloadLen)] ^= byte(1 << uint(rng.Intn(8)))
		}
		src = kit.Frag(rng, append(c2, 5))
		err := sa.Read(src)
		if (err == nil) != good || !good && !errors.Is(err, handshake.MismatchedChallengeErr) || src.Off != len(want) {
			r.Fail("challenge returned correctly: %v, error %v, %d bytes consumed", good, err, src.Off)
		}
		b.Reset()
		if err := sa.WriteTo(&b); err != nil || b.Len() > 0 || sa.Next() != nil {
			r.Fail("the last step sends % x (%v), or is not the last", b.Bytes(), err)
		}
		r.Count("steps", 3)
	}
	// scripts
	for i := range r.Cases(1_000_000, r.N(3000, 60000)) {
		rng := r.Rng(i)
		var log, want []string
		rw := &duplex{}
		n := 1 + rng.Intn(6)
		steps := make([]*script, n)
		for k := range steps {
			steps[k] = &script{name: fmt.Sprint(k), log: &log, rw: rw, r: r}
			if k > 0 {
				steps[k-1].next = steps[k]
			}
		}
		var fail error
		at := -1
		if rng.Intn(3) > 0 {
			at = rng.Intn(2 * n)
			fail = kit.WriteFault(rng)
			steps[at/2].err[at%2] = fail
		}
		for k := 0; k < 2*n; k++ {
			want = append(want, fmt.Sprint(k/2, []string{"r", "w"}[k%2]))
			if k == at {
				break
			}
			if k%2 == 1 {
				want = append(want, fmt.Sprint(k/2, "n"))
			}
		}
		r.Scenario("%d steps, failing at %d", n, at)
		err := handshake.With(&handshake.Param{Conn: rw, Initial: steps[0]}).Handshake()
		if err != fail && !errors.Is(err, fail) {
			r.Fail("%d steps, %v at %d: %v", n, fail, at, err)
		}
		// what follows is known when a step is done; it may be asked more than once
		done := ""
		for _, x := range log {
			if k := len(x) - 1; x[k] == 'w' {
				done = x[:k]
			} else if x[k] == 'n' && x[:k] != done {
				r.Fail("%d steps, failing at %d: step %s was asked what follows before it was done: %v", n, at, x[:k], log)
			}
		}
		rws := func(l []string) (o []string) {
			for _, x := range l {
				if x[len(x)-1] != 'n' {
					o = append(o, x)
				}
			}
			return
		}
		if fmt.Sprint(rws(log)) != fmt.Sprint(rws(want)) {
			r.Fail("%d steps, failing at %d: done were %v, want %v", n, at, log, want)
		}
		r.Eval(true, n, at, fmt.Sprint(fail), log)
		r.Count("scripts", 1)
	}
	r.Need("packets", 1000)
	r.Need("scripts", 1000)
}
