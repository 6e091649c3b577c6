package main

import (
	"errors"
	"fmt"
	"io"
	"math/bits"
	"math/rand"
	"slices"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// event is what the reader reported: a message or an error.
type event struct {
	c   *chunk.Chunk
	err error
}

// expect is the same, as the reference predicts it.
type expect struct {
	m   kit.Msg
	bad bool // an error
	off int  // offset in the stream at which it is determined
}

// isEnd recognises the report of the transport's end.
func isEnd(src *kit.Src, err error) bool {
	if src.End != nil {
		return errors.Is(err, src.End)
	}
	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
}

// drive records what the reader reports until it reports the transport's end.
func drive(r *kit.R, src *kit.Src, byteReader bool, size int) ([]event, error, chunk.Reader) {
	var rdsrc io.Reader = src
	if byteReader {
		rdsrc = kit.ByteSrc{Src: src}
	}
	rd := kit.NewReader(rdsrc, size)
	var ev []event
	for {
		select {
		case c := <-rd.Chunks():
			ev = append(ev, event{c: c})
		case err := <-rd.Errs():
			// a reader may read ahead, so other errors can still come
			if src.Ended.Load() && isEnd(src, err) {
				return ev, err, rd
			}
			ev = append(ev, event{err: err})
		}
		if len(ev) > len(src.B)+100 {
			r.Fail("%d events reported for %d bytes, the end of the transport not among them; the last one is %v", len(ev), len(src.B), ev[len(ev)-1])
		}
	}
}

// compare checks reported events against expected ones.
func compare(r *kit.R, what string, want []expect, got []event) {
	for i, w := range want {
		if i >= len(got) {
			r.Fail("%s: %d events reported, want %d; the first missing one is %s", what, len(got), len(want), w.describe())
		}
		g := got[i]
		switch {
		case w.bad && g.err == nil:
			r.Fail("%s: event %d is message %s, want an error", what, i, desc(g.c))
		case w.bad:
		case g.err != nil:
			r.Fail("%s: event %d is error %v, want %s", what, i, g.err, w.describe())
		default:
			if d := kit.Diff(w.m, g.c); d != "" {
				r.Fail("%s: message %d %v: %s", what, i, w.m, d)
			}
		}
	}
	if len(got) > len(want) {
		g := got[len(want)]
		if g.err != nil {
			r.Fail("%s: unexpected error %v after %d events", what, g.err, len(want))
		}
		r.Fail("%s: unexpected message %s after %d events", what, desc(g.c), len(want))
	}
}

func (w expect) describe() string {
	if w.bad {
		return "an error"
	}
	return "message " + w.m.String()
}

func desc(c *chunk.Chunk) string {
	if c == nil || c.Header == nil {
		return fmt.Sprintf("%+v", c)
	}
	return fmt.Sprintf("{%+v, %d bytes}", *c.Header, len(c.Data))
}

// decodeAll feeds b to the reader in the pieces src makes, and checks.
func decodeAll(r *kit.R, what string, src *kit.Src, byteReader bool, size int, want []expect) chunk.Reader {
	got, err, rd := drive(r, src, byteReader, size)
	compare(r, what, want, got)
	if src.End != nil && !errors.Is(err, src.End) {
		r.Fail("%s: the transport failed with %q, the reader reported %q", what, src.End, err)
	}
	r.Count("messages_decoded", len(got))
	r.Count("bytes_decoded", len(src.B))
	return rd
}

// scenario is a reference-encoded stream.
type scenario struct {
	e    *kit.Enc
	want []expect
	open []*kit.Part
	rng  *rand.Rand
	ids  []uint32
	max  int
	sig  []any
	hold uint32 // the chunk stream a control message is being sent on
}

func newScenario(rng *rand.Rand, size, nids, max int) *scenario {
	return &scenario{e: kit.NewEnc(size), rng: rng, ids: kit.CSIDs(rng, nids), max: max}
}

func (s *scenario) busy(id uint32) *kit.Part {
	for _, p := range s.open {
		if p.M.CSID == id {
			return p
		}
	}
	return nil
}

func (s *scenario) finish(p *kit.Part) {
	if !p.Done {
		return
	}
	s.want = append(s.want, expect{m: p.M, off: len(s.e.B)})
	for i, q := range s.open {
		if q == p {
			s.open = append(s.open[:i], s.open[i+1:]...)
			break
		}
	}
}

// step emits one chunk: a new message or a continuation.
func (s *scenario) step(start bool) {
	id := s.ids[s.rng.Intn(len(s.ids))]
	if id == s.hold {
		return
	}
	if p := s.busy(id); p != nil {
		p.Next()
		s.finish(p)
		return
	}
	if !start {
		if len(s.open) == 0 {
			return
		}
		p := s.open[s.rng.Intn(len(s.open))]
		p.Next()
		s.finish(p)
		return
	}
	m := kit.Message(s.rng, id, s.e.Size, s.max)
	m = kit.Compress(s.rng, s.e, m)
	p := s.e.Begin(m)
	s.open = append(s.open, p)
	s.finish(p)
}

func (s *scenario) drain() {
	for len(s.open) > 0 {
		s.step(false)
	}
}

// control sends a control message of the chunk layer, as a rule alone on chunk
// stream 2, with as many chunks of others in between as it has room for.
func (s *scenario) control(typ byte, body []byte) kit.Msg {
	rng := s.rng
	id := uint32(2)
	if rng.Intn(8) == 0 {
		id = s.ids[rng.Intn(len(s.ids))]
	}
	if p := s.busy(id); p != nil {
		for !p.Done {
			p.Next()
		}
		s.finish(p)
	}
	if len(body) >= 4 && rng.Intn(8) == 0 {
		body = append(slices.Clone(body), kit.Bytes(rng, 1+rng.Intn(6))...) // more than is looked at
	}
	m := kit.Msg{CSID: id}
	if rng.Intn(4) == 0 {
		m = kit.Message(rng, id, s.e.Size, 1)
	}
	m.Type, m.Data = typ, body
	if s.e.Has(id) && rng.Intn(2) == 0 {
		m.Fmt = 1
		if v := s.e.Prev(id); v.Type == typ && len(v.Data) == len(body) {
			m.Fmt = byte(1 + rng.Intn(3))
		}
	}
	p := s.e.Begin(m)
	between := rng.Intn(2) == 0
	s.hold = id
	for !p.Done {
		if between && rng.Intn(2) == 0 {
			s.step(rng.Intn(2) == 0)
			continue
		}
		p.Next()
	}
	s.hold = 0
	if rng.Intn(2) == 0 {
		s.e.Forget(id)
	}
	return p.M
}

// setSize announces a size on the control stream (interleaved like anything).
func (s *scenario) setSize(n uint32) {
	s.control(1, []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	s.e.Size = int(n)
}

// badSize sends a set-chunk-size message that must be refused.
func (s *scenario) badSize(body []byte) {
	s.control(1, body)
	s.want = append(s.want, expect{bad: true, off: len(s.e.B)})
}

// abort sends an abort for the chunk stream and drops its unfinished message.
func (s *scenario) abort(id uint32) {
	m := s.control(2, []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)})
	s.want = append(s.want, expect{m: m, off: len(s.e.B)})
	if p := s.busy(id); p != nil {
		for i, q := range s.open {
			if q == p {
				s.open = append(s.open[:i], s.open[i+1:]...)
				break
			}
		}
		if s.rng.Intn(2) == 0 { // or refer to the header of what was aborted
			s.e.Forget(id)
		}
	}
}

func (s *scenario) src() (*kit.Src, bool) {
	src := kit.Frag(s.rng, s.e.B)
	src.End = kit.Fault(s.rng)
	return src, s.rng.Intn(3) == 0
}

// c01: what the library's writer sends, its reader delivers.
func c01(r *kit.R) {
	r.Rule("a session: messages with boundary-heavy ids, timestamps, lengths and formats written by the library's writer, " +
		"with announced chunk-size changes, and read back by its reader through an adversarially fragmented transport; " +
		"every case has at least one message, distinct ones differ in the bytes on the wire")
	for i := range r.Cases(0, r.N(7500, 30000)) {
		rng := r.Rng(i)
		size := kit.Size(rng)
		first := size
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, size)
		e := kit.NewEnc(size) // for inheritance only
		ids := kit.CSIDs(rng, 1+rng.Intn(5))
		var want []expect
		n := 1 + rng.Intn(12)
		max := kit.Max(rng, 3000)
		for k := 0; k < n; k++ {
			if rng.Intn(10) == 0 {
				size = kit.Size(rng)
				c := kit.Msg{CSID: 2, Type: 1, Data: []byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}}.Chunk()
				if err := w.Write(c); err != nil {
					r.Fail("writing a set-chunk-size message: %v", err)
				}
				w.SetWriteSize(size)
				e.Size = size
				e.Forget(2)
			}
			m := kit.Compress(rng, e, kit.Message(rng, ids[rng.Intn(len(ids))], size, max))
			m = e.All(m)
			r.Scenario("message %d of %d: %v, chunk size %d", k, n, m, size)
			if err := w.Write(m.Chunk()); err != nil {
				r.Fail("Write(%v): %v", m, err)
			}
			want = append(want, expect{m: m})
		}
		src := kit.Frag(rng, sink.Bytes())
		r.Scenario("%d messages, first chunk size %d, ids %v", n, first, ids)
		kit.StopReader(decodeAll(r, "round trip", src, rng.Intn(3) == 0, first, want))
		r.Eval(true, src.B)
		if i < 3 {
			r.Sample("chunk size %d, ids %v, %d messages, first %v", first, ids, n, want[0].m)
		}
	}

	// every representable chunk stream id, two chunks each
	for range r.Cases(1_000_000, 1) {
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, 3)
		var want []expect
		for id := uint32(2); id <= 65599; id++ {
			if id == 63 {
				continue
			}
			m := kit.Msg{CSID: id, TS: id & 0xffff, Type: 9, MSID: id * 2654435761, Data: []byte{byte(id), byte(id >> 8), byte(id >> 16), 0xa5, 1}}
			r.Scenario("every chunk stream id: %d", id)
			if err := w.Write(m.Chunk()); err != nil {
				r.Fail("Write(%v): %v", m, err)
			}
			want = append(want, expect{m: m})
		}
		kit.StopReader(decodeAll(r, "every chunk stream id", &kit.Src{B: sink.Bytes()}, true, 3, want))
		r.EvalN(len(want), "id")
	}
	// every length around the first multiples of small chunk sizes
	for range r.Cases(1_000_001, 1) {
		for _, size := range []int{1, 2, 3, 5, 16, 127, 128, 129} {
			sink := kit.NewSink()
			w := chunk.NewWriter(sink, size)
			var want []expect
			for n := 0; n <= 4*size+2; n++ {
				for _, ts := range []uint32{7, kit.Ext24} {
					m := kit.Msg{CSID: uint32(3 + n%50), TS: ts, Ext: 0x01000000 * (ts & 1), Type: 8, MSID: 1, Data: seq(n)}
					if err := w.Write(m.Chunk()); err != nil {
						r.Fail("Write(%v): %v", m, err)
					}
					want = append(want, expect{m: m})
				}
			}
			kit.StopReader(decodeAll(r, fmt.Sprintf("lengths, chunk size %d", size), &kit.Src{B: sink.Bytes()}, true, size, want))
			r.EvalN(len(want), fmt.Sprint("len", size))
		}
	}
	// big messages
	for i := range r.Cases(1_000_002, r.N(4, 24)) {
		rng := r.Rng(i)
		size := []int{128, 4096, 65536, 0xffffff}[i%4]
		n := []int{1 << 16, 1<<20 + 1, 0xffffff, 5000000}[(i+2)%4]
		sink := kit.NewSink()
		m := kit.Msg{CSID: kit.CSID(rng), Type: 9, MSID: 1, Data: kit.Bytes(rng, n)}
		r.Budget(4e9)
		if err := chunk.NewWriter(sink, size).Write(m.Chunk()); err != nil {
			r.Fail("Write(%v): %v", m, err)
		}
		kit.StopReader(decodeAll(r, fmt.Sprintf("%d byte message, chunk size %d", n, size), &kit.Src{B: sink.Bytes()}, true, size, []expect{{m: m}}))
		r.Eval(true, "big", i)
	}
	// one long session
	for i := range r.Cases(1_001_000, 1) {
		rng := r.Rng(i)
		n := r.N(70000, 1500000)
		r.Budget(40e9)
		pr, pw := newConveyor()
		go func() {
			w := chunk.NewWriter(pw, 128)
			e := kit.NewEnc(128)
			for k := 0; k < n; k++ {
				w.Write(e.All(longMsg(k, e)).Chunk())
				if k%50 == 49 {
					size := 1 + k*7919%5000
					w.Write(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, byte(size >> 8), byte(size)}}.Chunk())
					w.SetWriteSize(size)
				}
			}
			pw.done()
		}()
		_ = rng
		rd := kit.NewReader(pr, 128)
		e := kit.NewEnc(128)
		for k := 0; k < n; k++ {
			select {
			case c := <-rd.Chunks():
				m := e.All(longMsg(k, e))
				e.B = e.B[:0]
				e.Cuts = e.Cuts[:0]
				if d := kit.Diff(m, c); d != "" {
					r.Fail("long session, message %d %v: %s", k, m, d)
				}
			case err := <-rd.Errs():
				r.Fail("long session: error %v after %d messages", err, k)
			}
			if k%1000 == 0 {
				r.Beat()
			}
		}
		kit.StopReader(rd)
		r.EvalN(n, "long")
		r.Count("messages_decoded", n)
	}
	r.Need("messages_decoded", 1000)
	stallReads(r, false, false)
}

// longSession decodes sessions of far more than 65536 items of every sort that
// a check looks at, with many messages on few chunk streams.
func longSession(r *kit.R, base int, sizes, bad, aborts bool) {
	for i := range r.Cases(base, r.N(1, 4)) {
		rng := r.Rng(i)
		s := newScenario(rng, 7, 3, 16)
		for s.busy(2) != nil || has(s.ids, 2) {
			s.ids = kit.CSIDs(rng, len(s.ids))
		}
		n := r.N(70000, 300000)
		items := 0
		for k := 0; k < n; k++ {
			if sizes {
				s.setSize(uint32(1 + k%20))
			}
			if bad {
				s.badSize(badSizes[rng.Intn(len(badSizes))])
			}
			if aborts {
				s.abort(s.ids[rng.Intn(len(s.ids))])
			}
			if !sizes && !bad && !aborts {
				for was := len(s.want); len(s.want) == was; {
					s.step(true)
				}
			} else {
				s.step(rng.Intn(3) > 0)
			}
			items++
		}
		s.drain()
		r.Budget(4e9)
		r.Scenario("a session of %d events, ids %v", len(s.want), s.ids)
		rd := decodeAll(r, "long session", &kit.Src{B: s.e.B}, true, 7, s.want)
		if got := rd.ReadSize(); got != s.e.Size {
			r.Fail("the reader's chunk size is %d after the session, the peer announced %d", got, s.e.Size)
		}
		kit.StopReader(rd)
		r.Count("items_of_long_sessions", items)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", 66000)
}

func seq(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

func longMsg(k int, e *kit.Enc) kit.Msg {
	id := uint32(3 + k%70)
	if id == 63 {
		id = 400
	}
	m := kit.Msg{CSID: id, TS: uint32(k) & 0xffffff, Type: byte(8 + k%2), MSID: uint32(k % 3), Data: seq(k % 300)}
	if m.TS == kit.Ext24 {
		m.TS = 5
	}
	if e.Has(id) && k%3 > 0 {
		m.Fmt = 1
	}
	return m
}

// conveyor is a bounded in-memory transport.
type conveyor struct {
	ch   chan []byte
	rest []byte
}

func newConveyor() (*conveyor, *conveyor) {
	c := &conveyor{ch: make(chan []byte, 64)}
	return c, c
}

func (c *conveyor) Write(p []byte) (int, error) {
	c.ch <- append([]byte(nil), p...)
	return len(p), nil
}
func (c *conveyor) done() { close(c.ch) }
func (c *conveyor) Read(p []byte) (int, error) {
	for len(c.rest) == 0 {
		x, ok := <-c.ch
		if !ok {
			return 0, io.EOF
		}
		c.rest = x
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

// c02: interleaved, header-compressed streams of a conforming sender.
func c02(r *kit.R) {
	r.Rule("a byte stream by the independent reference sender: messages of up to 12 (or 1500, or all 65598) chunk streams interleaved at " +
		"chunk granularity, all four header formats, extended timestamps; non-trivial when messages of different streams overlap " +
		"or a header is compressed; distinct by bytes")
	for i := range r.Cases(0, r.N(20000, 60000)) {
		rng := r.Rng(i)
		size := kit.Size(rng)
		if rng.Intn(2) == 0 {
			size = 1 + rng.Intn(40)
		}
		s := newScenario(rng, size, 1+rng.Intn(12), kit.Max(rng, 900))
		steps := 5 + rng.Intn(60)
		for k := 0; k < steps; k++ {
			s.step(rng.Intn(3) > 0)
		}
		s.drain()
		src, br := s.src()
		r.Scenario("chunk size %d, ids %v, %d messages, %d bytes", size, s.ids, len(s.want), len(s.e.B))
		kit.StopReader(decodeAll(r, "interleaved stream", src, br, size, s.want))
		r.Eval(len(s.want) > 1, s.e.B)
		for _, w := range s.want {
			r.Count(fmt.Sprintf("messages_format_%d", w.m.Fmt), 1)
			if w.m.Fmt > 0 && len(w.m.Data) > 65535 {
				r.Count("large_messages_with_compressed_headers", 1)
			}
			if w.m.TS == kit.Ext24 {
				r.Count("messages_with_extended_timestamp", 1)
			}
		}
		if i < 3 && len(s.want) > 0 {
			r.Sample("chunk size %d, ids %v, %d messages, first %v", size, s.ids, len(s.want), s.want[0].m)
		}
	}

	// all merges of two three-chunk messages, after all pairs of set-up headers,
	// for all formats
	base := 1_000_000
	for range r.Cases(base, 1) {
		n := 0
		for _, ids := range [][2]uint32{{3, 4}, {3, 64}, {62, 65599}, {320, 319}, {2, 575}} {
			for f0 := byte(0); f0 < 4; f0++ {
				for f1 := byte(0); f1 < 4; f1++ {
					for ext := 0; ext < 4; ext++ {
						for mask := 0; mask < 64; mask++ {
							if ones(mask) != 3 {
								continue
							}
							e := kit.NewEnc(4)
							mk := func(k int, f byte, d byte) kit.Msg {
								m := kit.Msg{Fmt: f, CSID: ids[k], TS: uint32(100 + k), Type: byte(8 + k), MSID: uint32(1 + 9*k), Data: []byte{d, 1, 2, 3, 4, 5, 6, 7, 8, 9, byte(k)}}
								if ext>>k&1 == 1 {
									m.TS, m.Ext = kit.Ext24, 0x01020304+uint32(d)
								}
								return m
							}
							var want []expect
							for k := 0; k < 2; k++ {
								want = append(want, expect{m: e.All(mk(k, 0, 50))})
							}
							var ps [2]*kit.Part
							for b := 0; b < 6; b++ {
								k := mask >> b & 1
								if ps[k] == nil {
									ps[k] = e.Begin(mk(k, [2]byte{f0, f1}[k], 60))
								} else {
									ps[k].Next()
								}
								if ps[k].Done {
									want = append(want, expect{m: ps[k].M})
								}
							}
							r.Scenario("merge %06b of formats %d,%d on ids %v ext %02b", mask, f0, f1, ids, ext)
							kit.StopReader(decodeAll(r, "merge", &kit.Src{B: e.B}, true, 4, want))
							n++
						}
					}
				}
			}
		}
		r.EvalN(n, "merge")
		r.Count("merges_enumerated", n)
	}
	// very many unfinished messages at once
	for i := range r.Cases(base+1, r.N(6, 20)) {
		rng := r.Rng(i)
		s := newScenario(rng, 5, 1500, 40)
		for k := 0; k < 12000; k++ {
			s.step(true)
		}
		top := len(s.open)
		s.drain()
		kit.StopReader(decodeAll(r, "1500 chunk streams", &kit.Src{B: s.e.B}, true, 5, s.want))
		r.Count("max_open_messages", top)
		r.Eval(true, s.e.B)
	}
	// every chunk stream there can be, each with an unfinished message
	for i := range r.Cases(base+100, r.N(1, 3)) {
		rng := r.Rng(i)
		var ids []uint32
		for id := uint32(2); id <= 65599; id++ {
			if id != 63 {
				ids = append(ids, id)
			}
		}
		e := kit.NewEnc(1)
		var want []expect
		for round := 0; round < 3; round++ {
			rng.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
			var ps []*kit.Part
			for _, id := range ids {
				m := kit.Message(rng, id, 1, 1)
				m.Data = []byte{byte(id), byte(round), byte(id >> 8)}
				if round > 0 {
					m.Fmt = byte(1 + rng.Intn(3))
				}
				ps = append(ps, e.Begin(m))
			}
			for n := 0; n < 2; n++ {
				rng.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
				for _, p := range ps {
					if p.Next(); p.Done {
						want = append(want, expect{m: p.M})
					}
				}
			}
		}
		r.Scenario("an unfinished message on each of %d chunk streams", len(ids))
		kit.StopReader(decodeAll(r, "all chunk streams", &kit.Src{B: e.B}, true, 1, want))
		r.Count("max_open_messages", len(ids))
		r.Eval(true, i)
	}
	// messages of the greatest lengths, interleaved, with compressed headers
	for i := range r.Cases(base+200, r.N(3, 24)) {
		rng := r.Rng(i)
		r.Budget(20e9)
		size := []int{100_000, 128, 0xffffff, 1 << 23, 0xfffffe}[i%5]
		ids := kit.CSIDs(rng, 2)
		ls := []int{1 << 23, 0xffffff, 1<<23 - 1, 0xfffffe}
		rng.Shuffle(len(ls), func(a, b int) { ls[a], ls[b] = ls[b], ls[a] })
		e := kit.NewEnc(size)
		var want []expect
		for round := byte(0); round < 2; round++ {
			var ps []*kit.Part
			for k, id := range ids {
				m := kit.Msg{CSID: id, Fmt: round * (2 + byte(rng.Intn(2))), TS: uint32(10 + k), Type: byte(8 + k), MSID: 1, Data: kit.Bytes(rng, ls[k])}
				p := e.Begin(m)
				if p.Done {
					want = append(want, expect{m: p.M})
				}
				ps = append(ps, p)
			}
			for left := len(ps); left > 0; {
				left = 0
				for _, p := range ps {
					if !p.Done {
						left++
						if p.Next(); p.Done {
							want = append(want, expect{m: p.M})
						}
					}
				}
			}
		}
		r.Scenario("messages of %d and %d bytes interleaved, chunk size %d", ls[0], ls[1], size)
		kit.StopReader(decodeAll(r, "enormous messages", &kit.Src{B: e.B}, true, size, want))
		r.Count("enormous_messages", len(want))
		r.Eval(true, "enormous", i)
	}
	r.Need("messages_decoded", 1000)
	longSession(r, 5_000_000, false, false, false)
	stallReads(r, false, false)
}

func ones(x int) (n int) {
	for ; x > 0; x >>= 1 {
		n += x & 1
	}
	return
}

var badSizes = [][]byte{{0, 0, 0, 0}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 128}, {}, {0}, {0, 0}, {0, 0, 1}}

// c03: the peer's chunk size announcements.
func c03(r *kit.R) {
	r.Rule("a reference stream in which valid and invalid set-chunk-size messages occur at any chunk boundary, also between the " +
		"chunks of unfinished messages, on any chunk stream and with any headers; non-trivial when it has at least one; distinct by bytes")
	good := []uint32{1, 2, 3, 4, 5, 127, 128, 129, 4096, 65535, 65536, 0xfffffe, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff}
	for i := range r.Cases(0, r.N(20000, 60000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(200)
		s := newScenario(rng, size, 1+rng.Intn(6), kit.Max(rng, 700))
		n := 0
		for k := 0; k < 10+rng.Intn(40); k++ {
			switch rng.Intn(8) {
			case 0:
				v := good[rng.Intn(len(good))]
				if rng.Intn(2) == 0 {
					v = uint32(1 + rng.Intn(300))
				}
				s.setSize(v)
				n++
				r.Count("sizes_announced", 1)
				if len(s.open) > 0 {
					r.Count("sizes_announced_inside_messages", 1)
				}
			case 1:
				if rng.Intn(3) == 0 {
					many := 1
					if rng.Intn(40) == 0 {
						many = 1 + rng.Intn(300)
					}
					for ; many > 0; many-- {
						s.badSize(badSizes[rng.Intn(len(badSizes))])
						n++
						r.Count("bad_sizes", 1)
					}
				}
			default:
				s.step(rng.Intn(3) > 0)
			}
		}
		s.drain()
		src, br := s.src()
		r.Scenario("first chunk size %d, ids %v, %d size changes, %d events", size, s.ids, n, len(s.want))
		rd := decodeAll(r, "chunk size changes", src, br, size, s.want)
		if got := rd.ReadSize(); got != s.e.Size {
			r.Fail("the reader's chunk size is %d after the stream, the peer announced %d", got, s.e.Size)
		}
		kit.StopReader(rd)
		r.Eval(n > 0, s.e.B)
		if i < 3 {
			r.Sample("first chunk size %d, %d size changes, last %d, %d events", size, n, s.e.Size, len(s.want))
		}
	}
	// every small size and the boundaries, announced alone, then a message that needs it
	for range r.Cases(1_000_000, 1) {
		n := 0
		for from := 1; from <= 9; from++ {
			for to := 1; to <= 300; to++ {
				e := kit.NewEnc(from)
				e.SetSize(2, uint32(to))
				m := e.All(kit.Msg{CSID: 5, Type: 8, MSID: 1, Data: seq(to*2 + 1)})
				kit.StopReader(decodeAll(r, fmt.Sprintf("size %d then %d", from, to), &kit.Src{B: e.B}, true, from, []expect{{m: m}}))
				n++
			}
		}
		r.EvalN(n, "pair")
	}
	r.Need("sizes_announced_inside_messages", 100)
	r.Need("bad_sizes", 50)
	longSession(r, 5_000_000, true, false, false)
	stallReads(r, true, false)
}

// c04: aborts.
func c04(r *kit.R) {
	r.Rule("a reference stream with abort messages naming chunk streams with and without an unfinished message; non-trivial when " +
		"at least one unfinished message was aborted; distinct by bytes")
	for i := range r.Cases(0, r.N(20000, 50000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(100)
		if rng.Intn(4) == 0 {
			size = kit.Size(rng)
		}
		s := newScenario(rng, size, 2+rng.Intn(6), kit.Max(rng, 500))
		for s.busy(2) != nil || has(s.ids, 2) {
			s.ids = kit.CSIDs(rng, len(s.ids))
		}
		hit := 0
		for k := 0; k < 10+rng.Intn(50); k++ {
			if rng.Intn(6) == 0 {
				id := s.ids[rng.Intn(len(s.ids))]
				if len(s.open) > 0 && rng.Intn(2) == 0 {
					id = s.open[rng.Intn(len(s.open))].M.CSID
				} else if rng.Intn(6) == 0 {
					id = rng.Uint32()
				}
				if rng.Intn(3) == 0 {
					// another one like it
					id = alike(rng, id)
				}
				if s.busy(id) != nil {
					hit++
				}
				s.abort(id)
				if rng.Intn(2) == 0 && has(s.ids, id) && s.busy(id) == nil {
					// a message follows at once on the aborted stream
					p := s.e.Begin(kit.Compress(rng, s.e, kit.Message(rng, id, s.e.Size, s.max)))
					s.open = append(s.open, p)
					s.finish(p)
				}
				continue
			}
			if rng.Intn(15) == 0 {
				s.setSize(uint32(1 + rng.Intn(200)))
				continue
			}
			s.step(rng.Intn(3) > 0)
		}
		s.drain()
		src, br := s.src()
		r.Scenario("chunk size %d, ids %v, %d unfinished messages aborted, %d events", size, s.ids, hit, len(s.want))
		kit.StopReader(decodeAll(r, "stream with aborts", src, br, size, s.want))
		r.Eval(hit > 0, s.e.B)
		r.Count("unfinished_messages_aborted", hit)
		if i < 3 {
			r.Sample("chunk size %d, ids %v, %d aborted, %d events", size, s.ids, hit, len(s.want))
		}
	}
	r.Need("unfinished_messages_aborted", 500)
	longSession(r, 5_000_000, false, false, true)
	stallReads(r, true, true)
}

// alike derives a number that is confused with id by slips of width, order or
// offset.
func alike(rng *rand.Rand, id uint32) uint32 {
	switch rng.Intn(12) {
	case 0:
		return id + 1<<16
	case 1:
		return id + 1<<8
	case 2:
		return id | 1<<31
	case 3:
		return id << 8
	case 4:
		return id >> 8
	case 5:
		return bits.ReverseBytes32(id)
	case 6:
		return id + 64
	case 7:
		return id - 64
	case 8:
		return id & 0xff
	case 9:
		return id + 1<<24
	case 10:
		return id&0xff<<8 | id>>8&0xff
	}
	return uint32(bits.ReverseBytes16(uint16(id-64))) + 64
}

func has(l []uint32, x uint32) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// c07: pieces and the end of the transport.
func c07(r *kit.R) {
	r.Rule("a reference stream cut at a byte offset (every offset of short streams), ending with end-of-file or a failure, " +
		"delivered in adversarial pieces; distinct by bytes before the cut, way of ending and stream")
	for i := range r.Cases(0, r.N(120, 2500)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(60)
		s := newScenario(rng, size, 1+rng.Intn(5), 160)
		for k := 0; k < 4+rng.Intn(14); k++ {
			if rng.Intn(12) == 0 {
				s.setSize(uint32(1 + rng.Intn(100)))
			} else {
				s.step(rng.Intn(3) > 0)
			}
		}
		s.drain()
		all := s.e.B
		for t := 0; t <= len(all); t++ {
			if len(all) > 500 && t > 60 && rng.Intn(len(all)/250) != 0 {
				continue
			}
			src := kit.Frag(rng, all[:t])
			if rng.Intn(2) == 0 {
				src.End = kit.Fault(rng)
			}
			var want []expect
			for _, w := range s.want {
				if w.off <= t {
					want = append(want, w)
				}
			}
			r.Scenario("stream of %d bytes cut at %d, end %v, with last bytes %v", len(all), t, src.End, src.EOFWith)
			rd := decodeAll(r, fmt.Sprintf("stream of %d bytes cut at %d", len(all), t), src, rng.Intn(4) == 0, size, want)
			// the transport stays dead: nothing more may be delivered
			for k := 0; k < 2; k++ {
				select {
				case c := <-rd.Chunks():
					r.Fail("message %s delivered after the transport ended at byte %d of %d", desc(c), t, len(all))
				case <-rd.Errs():
				}
			}
			kit.StopReader(rd)
			r.Eval(true, i, t, src.End, src.EOFWith, src.Max, src.Zero)
			r.Count("cuts", 1)
			// a failure the transport recovers from is a failure
			if t%3 == i%3 {
				once := &kit.Blip{Src: kit.Frag(rng, all), At: t, Err: kit.Fault(rng)}
				once.End, once.EOFWith = kit.ErrCut, false
				got, err := kit.Collect(once, size)
				if !errors.Is(err, once.Err) {
					r.Fail("the transport failed once, at byte %d of %d, with %q; after %d messages the reader reported %q", t, len(all), once.Err, len(got), err)
				}
				ev := make([]event, len(got))
				for k := range got {
					ev[k].c = got[k]
				}
				compare(r, fmt.Sprintf("stream of %d bytes failing once at %d", len(all), t), want, ev)
				r.Count("passing_failures", 1)
			}
		}
		// whole stream, several fragmentations
		for k := 0; k < 7; k++ {
			src, br := s.src()
			kit.StopReader(decodeAll(r, "fragmented stream", src, br, size, s.want))
			r.Eval(true, i, "frag", k)
		}
		if i < 3 {
			r.Sample("%d byte stream, chunk size %d, %d messages, every cut offset", len(all), size, len(s.want))
		}
	}
	r.Need("cuts", 5000)
	r.Need("passing_failures", 1000)
	stallReads(r, false, false)
}

// c08: anything else.
func c08(r *kit.R) {
	r.Rule("hostile bytes: noise, mutated reference streams, or header sequences with contradictory lengths, formats, control " +
		"bodies and chunk sizes, after a valid prefix; distinct by bytes")
	for i := range r.Cases(0, r.N(48000, 200000)) {
		rng := r.Rng(i)
		size := []int{1, 2, 16, 128, 128, 4096, 65536}[rng.Intn(7)]
		s := newScenario(rng, size, 1+rng.Intn(4), 200)
		if rng.Intn(12) == 0 { // long sessions with much that is refused
			for k := 0; k < 1+rng.Intn(400); k++ {
				if rng.Intn(4) > 0 {
					s.badSize(badSizes[rng.Intn(len(badSizes))])
				} else {
					s.step(rng.Intn(2) == 0)
				}
			}
			r.Count("sessions_with_many_refusals", 1)
		}
		for k := 0; k < rng.Intn(12); k++ {
			s.step(true)
		}
		s.drain()
		pre := len(s.want)
		b := s.e.B
		kind := rng.Intn(5)
		switch kind {
		case 0:
			b = append(b, kit.Bytes(rng, rng.Intn(3000))...)
		case 1: // noise with short ids and lengths so that messages complete
			for k := 0; k < 1+rng.Intn(60); k++ {
				b = append(b, byte(rng.Intn(4)<<6|2+rng.Intn(4)), 0, 0, byte(rng.Intn(256)), 0, 0, byte(rng.Intn(20)), byte(rng.Intn(6)), 0, 0, 0, 0)
				b = append(b, kit.Bytes(rng, rng.Intn(24))...)
			}
		case 2: // mutate a valid stream
			s2 := newScenario(rng, size, 1+rng.Intn(4), 200)
			for k := 0; k < 2+rng.Intn(20); k++ {
				if rng.Intn(6) == 0 {
					s2.setSize(uint32(1 + rng.Intn(300)))
				} else {
					s2.step(true)
				}
			}
			x := append([]byte(nil), s2.e.B...)
			for k := 0; k < 1+rng.Intn(6) && len(x) > 0; k++ {
				switch rng.Intn(3) {
				case 0:
					x[rng.Intn(len(x))] ^= 1 << rng.Intn(8)
				case 1:
					j := rng.Intn(len(x))
					x = append(x[:j], x[j+1:]...)
				case 2:
					j := rng.Intn(len(x))
					x = append(x[:j:j], append([]byte{byte(rng.Intn(256))}, x[j:]...)...)
				}
			}
			b = append(b, x...)
		case 3: // control messages with any body, on any chunk stream, sizes included
			for k := 0; k < 1+rng.Intn(30); k++ {
				body := kit.Bytes(rng, rng.Intn(7))
				if rng.Intn(2) == 0 && len(body) > 1 {
					body[0], body[1] = 0, 0
				}
				m := kit.Msg{Fmt: byte(rng.Intn(2)), CSID: uint32(2 + rng.Intn(5)), Type: byte(1 + rng.Intn(2)), Data: body}
				b = append(b, kit.HeaderBytes(m)...)
				b = append(b, body...)
			}
		case 4: // contradictory headers inside messages, enormous lengths
			for k := 0; k < 1+rng.Intn(30); k++ {
				m := kit.Message(rng, kit.CSID(rng), size, 300)
				if rng.Intn(2) == 0 {
					m.CSID = uint32(3 + rng.Intn(2))
				}
				m.Fmt = byte(rng.Intn(4))
				h := kit.HeaderBytes(m)
				b = append(b, h...)
				n := len(m.Data)
				if n > 0 {
					n = rng.Intn(n + 1)
				}
				b = append(b, m.Data[:n]...)
			}
		}
		src := kit.Frag(rng, b)
		if rng.Intn(3) == 0 {
			src.End = kit.Fault(rng)
		}
		r.Scenario("hostile kind %d, %d bytes after %d valid messages, chunk size %d: %x", kind, len(b), pre, size, b)
		got, err, rd := drive(r, src, rng.Intn(3) == 0, size)
		if err == nil {
			r.Fail("the end of the transport was reported as a nil error")
		}
		if len(got) < pre {
			r.Fail("%d events reported, the valid prefix alone has %d messages", len(got), pre)
		}
		compare(r, "valid prefix of a hostile stream", s.want, got[:pre])
		total := 0
		for _, g := range got {
			if g.err != nil {
				r.Count("errors_reported", 1)
				continue
			}
			if g.c == nil || g.c.Header == nil {
				r.Fail("nil message delivered")
			}
			if int(g.c.Header.MessageHeader.Length) != len(g.c.Data) {
				r.Fail("message %s delivered with %d bytes of data", desc(g.c), len(g.c.Data))
			}
			total += len(g.c.Data)
		}
		if total > len(b) {
			r.Fail("%d bytes of data delivered out of %d bytes received", total, len(b))
		}
		r.Count("messages_delivered", len(got))
		kit.StopReader(rd)
		r.Eval(true, b)
		if i < 3 {
			r.Sample("kind %d, %d valid messages then %d bytes in all: %d events", kind, pre, len(b), len(got))
		}
	}
	r.Need("messages_delivered", 1000)
	longSession(r, 5_000_000, false, true, false)
	stallReads(r, true, true)
}

// c14: relaying.
func c14(r *kit.R) {
	r.Rule("a reference stream read by the library, every delivered message written unchanged through the library's writer, and " +
		"that output decoded by the strict reference receiver and again by the library; non-trivial with at least one compressed " +
		"header; distinct by input bytes")
	for i := range r.Cases(0, r.N(15000, 50000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(150)
		if rng.Intn(4) == 0 {
			size = kit.Size(rng)
		}
		out := kit.Size(rng)
		s := newScenario(rng, size, 1+rng.Intn(6), kit.Max(rng, 600))
		comp := 0
		for k := 0; k < 5+rng.Intn(50); k++ {
			s.step(rng.Intn(3) > 0)
		}
		s.drain()
		src, br := s.src()
		got, _, rd := drive(r, src, br, size)
		kit.StopReader(rd)
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, out)
		for k, g := range got {
			if g.err != nil {
				r.Fail("event %d: %v", k, g.err)
			}
			if err := w.Write(g.c); err != nil {
				r.Fail("relaying message %d %s: %v", k, desc(g.c), err)
			}
			if k < len(s.want) && s.want[k].m.Fmt > 0 {
				comp++
			}
		}
		r.Scenario("relay of %d messages, chunk size in %d out %d, ids %v", len(got), size, out, s.ids)
		d := kit.NewDec(out, sink.Bytes())
		for k, x := range s.want {
			m, err := d.Next()
			if err != nil {
				r.Fail("relayed stream is malformed at message %d %v: %v", k, x.m, err)
			}
			if m == nil {
				r.Fail("relayed stream ends after %d of %d messages", k, len(s.want))
			}
			w := x.m
			w.Fmt = m.Fmt
			if df := kit.SameMsg(w, *m); df != "" {
				r.Fail("relayed message %d %v: %s", k, x.m, df)
			}
		}
		if m, err := d.Next(); m != nil || err != nil {
			r.Fail("relayed stream has trailing content: %v %v", m, err)
		}
		src2 := kit.Frag(rng, sink.Bytes())
		kit.StopReader(decodeAll(r, "relayed stream", src2, false, out, s.want))
		r.Eval(comp > 0, s.e.B)
		r.Count("compressed_headers_relayed", comp)
		if i < 3 {
			r.Sample("%d messages relayed, %d compressed, chunk size %d -> %d", len(got), comp, size, out)
		}
	}
	r.Need("compressed_headers_relayed", 1000)
}
