package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sync"
	"sync/atomic"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// frozen is a deep copy of a message, to notice modification.
type frozen struct {
	h chunk.Header
	d []byte
}

func freeze(c *chunk.Chunk) frozen { return frozen{*c.Header, append([]byte(nil), c.Data...)} }

func (f frozen) diff(c *chunk.Chunk) string {
	if *c.Header != f.h {
		return fmt.Sprintf("header became %+v, was %+v", *c.Header, f.h)
	}
	if d := kit.DiffBytes(f.d, c.Data); d != "" {
		return "data changed: " + d
	}
	return ""
}

// spare gives b spare capacity holding a sentinel, to notice appends in place.
func spare(b []byte) []byte {
	x := make([]byte, len(b)+16)
	copy(x, b)
	for i := len(b); i < len(x); i++ {
		x[i] = 0xe7
	}
	return x[:len(b)]
}

func spareIntact(b []byte) bool {
	for _, x := range b[len(b) : len(b)+16] {
		if x != 0xe7 {
			return false
		}
	}
	return true
}

// c05: the writer's bytes against the reference sender's.
func c05(r *kit.R) {
	r.Rule("a message and a chunk size, written by the library and by the reference sender: the bytes must be equal; also messages " +
		"and sizes that cannot be represented, which must be refused without output; distinct by bytes written; non-trivial always")
	for i := range r.Cases(0, r.N(32000, 100000)) {
		rng := r.Rng(i)
		size := kit.Size(rng)
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, size)
		e := kit.NewEnc(size)
		ids := kit.CSIDs(rng, 1+rng.Intn(3))
		for k := 0; k < 1+rng.Intn(8); k++ {
			if rng.Intn(5) == 0 {
				size = kit.Size(rng)
				w.SetWriteSize(size)
				e.Size = size
			}
			if got := w.WriteSize(); got != size {
				r.Fail("write size is %d after it was set to %d", got, size)
			}
			m := kit.Compress(rng, e, kit.Message(rng, ids[rng.Intn(len(ids))], size, kit.Max(rng, 2000)))
			m = e.All(m)
			if rng.Intn(6) == 0 {
				m.Type = byte(1 + rng.Intn(2)) // also control types are just messages here
				e.B = e.B[:len(sink.Bytes())]
				e.Forget(m.CSID)
				m.Fmt = 0
				m = e.All(m)
			}
			m.Data = spare(m.Data)
			c := m.Chunk()
			fr := freeze(c)
			before := len(sink.B)
			r.Scenario("chunk size %d, message %d %v", size, k, m)
			if err := w.Write(c); err != nil {
				r.Fail("Write(%v) with chunk size %d: %v", m, size, err)
			}
			if d := kit.DiffBytes(e.B[before:], sink.B[before:]); d != "" {
				r.Fail("wire form of %v with chunk size %d differs from the reference: %s", m, size, d)
			}
			if d := fr.diff(c); d != "" {
				r.Fail("writing modified the caller's message: %s", d)
			}
			if !spareIntact(m.Data) {
				r.Fail("writing modified memory after the end of the caller's data")
			}
			r.Count("messages_written", 1)
			if i < 3 && k == 0 {
				r.Sample("chunk size %d, %v -> %d wire bytes", size, m, len(sink.B)-before)
			}
		}
		// the same bytes seen by the strict receiver, for the chunk structure
		r.Eval(true, sink.B)
	}
	// a message whose header disagrees with its payload is the caller's, too
	for i := range r.Cases(500_000, r.N(300, 3000)) {
		rng := r.Rng(i)
		w := chunk.NewWriter(kit.NewSink(), 1+rng.Intn(200))
		m := kit.Message(rng, kit.CSID(rng), 100, 600)
		c := m.Chunk()
		c.Header.MessageHeader.Length = []uint32{0, 1, rng.Uint32() >> 8, rng.Uint32()}[rng.Intn(4)]
		c.Header.MessageHeader.FormatId ^= byte(rng.Intn(4))
		fr := freeze(c)
		r.Scenario("%v with a header of its own: %+v", m, *c.Header)
		w.Write(c)
		if d := fr.diff(c); d != "" {
			r.Fail("writing modified the caller's message: %s", d)
		}
		r.Eval(true, "header", i)
	}
	// messages of the greatest lengths
	for i := range r.Cases(900_000, r.N(4, 24)) {
		rng := r.Rng(i)
		r.Budget(20e9)
		size := []int{1 << 23, 3, 0xffffff, 70_000, 1<<31 - 1, 0xfffffe}[i%6]
		n := []int{0xffffff, 1 << 23, 1<<23 + 1, 1 << 24 * 3 / 4}[rng.Intn(4)]
		m := kit.Msg{CSID: kit.CSID(rng), Type: 9, MSID: 1, Data: kit.Bytes(rng, n)}
		m.TS, m.Ext = kit.TS(rng)
		r.Scenario("chunk size %d, %d bytes", size, n)
		sink := kit.NewSink()
		if err := chunk.NewWriter(sink, size).Write(m.Chunk()); err != nil {
			r.Fail("Write of %d bytes with chunk size %d: %v", n, size, err)
		}
		if d := kit.DiffBytes(kit.Encode(size, m), sink.B); d != "" {
			r.Fail("wire form of %d bytes with chunk size %d differs from the reference: %s", n, size, d)
		}
		r.Eval(true, "great", i)
	}
	// chunk structure by the strict receiver: every chunk but the last full
	for i := range r.Cases(1_000_000, r.N(4000, 20000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(300)
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, size)
		m := kit.Message(rng, kit.CSID(rng), size, 3000)
		if err := w.Write(m.Chunk()); err != nil {
			r.Fail("Write(%v): %v", m, err)
		}
		d := kit.NewDec(size, sink.B)
		got, err := d.Next()
		if err != nil || got == nil {
			r.Fail("wire form of %v with chunk size %d: %v", m, size, err)
		}
		if df := kit.SameMsg(m, *got); df != "" {
			r.Fail("wire form of %v decodes differently: %s", m, df)
		}
		if d.Off != len(sink.B) {
			r.Fail("%d bytes after the message", len(sink.B)-d.Off)
		}
		for k, x := range d.Wires {
			if k < len(d.Wires)-1 && x.Payload != size {
				r.Fail("chunk %d of %v carries %d bytes with chunk size %d", k, m, x.Payload, size)
			}
			if k > 0 && x.Payload == 0 {
				r.Fail("empty continuation chunk in %v", m)
			}
		}
		r.Count("chunks_written", len(d.Wires))
		r.Eval(true, sink.B)
	}
	// what cannot be represented is refused
	for range r.Cases(1_100_000, 1) {
		n := 0
		for _, id := range []uint32{65600, 65601, 65600 + 63, 65536 + 64, 0x20000, 0x1000000, 0xffffffff} {
			for f := byte(0); f < 4; f++ {
				sink := kit.NewSink()
				m := kit.Msg{Fmt: f, CSID: id, Type: 9, Data: seq(300)}
				if err := chunk.NewWriter(sink, 128).Write(m.Chunk()); err == nil {
					r.Fail("a message for chunk stream %d, which no header can carry, was written as % x...", id, sink.B[:4])
				}
				if len(sink.B) > 0 {
					r.Fail("a refused message left %d bytes on the wire", len(sink.B))
				}
				n++
			}
		}
		for _, size := range []int{0, -1, -2, -128, -129, math.MinInt32, math.MinInt, math.MinInt + 1} {
			for _, length := range []int{0, 1, 2, 127, 128, 129, 300, 70000} {
				for via := 0; via < 2; via++ {
					sink := kit.NewSink()
					sink.Limit = 1 << 20
					sink.Over = func() { r.Fail("runaway output with chunk size %d", size) }
					var w chunk.Writer
					if via == 0 {
						w = chunk.NewWriter(sink, 128)
						w.SetWriteSize(size)
					} else {
						w = chunk.NewWriter(sink, size)
					}
					r.Budget(50_000_000)
					r.Scenario("write size %d, message of %d bytes", size, length)
					m := kit.Msg{CSID: 3, Type: 9, Data: seq(length)}
					err := w.Write(m.Chunk())
					if err == nil && length > 0 {
						r.Fail("a message of %d bytes was written with chunk size %d", length, size)
					}
					want := []byte{}
					if err == nil {
						want = kit.HeaderBytes(m)
					}
					if d := kit.DiffBytes(want, sink.B); d != "" {
						r.Fail("a message of %d bytes written with chunk size %d (%v) left on the wire: %s", length, size, err, d)
					}
					w.SetWriteSize(100)
					sink.B = nil
					if err := w.Write(m.Chunk()); err != nil {
						r.Fail("Write after recovering from chunk size %d: %v", size, err)
					}
					e := kit.NewEnc(100)
					e.All(m)
					if d := kit.DiffBytes(e.B, sink.B); d != "" {
						r.Fail("wire form after recovering from chunk size %d: %s", size, d)
					}
					n++
				}
			}
		}
		// the writer for nobody takes everything that can be written, and the protocol's first chunk size is 128
		if chunk.DefaultReadSize != 128 || chunk.NoopWriter.WriteSize() != 128 {
			r.Fail("the default chunk size is %d (writer for nobody: %d)", chunk.DefaultReadSize, chunk.NoopWriter.WriteSize())
		}
		for k := 0; k < 50; k++ {
			rng := r.Rng(1_100_000 + k)
			m := kit.Message(rng, kit.CSID(rng), 128, 3000)
			c := m.Chunk()
			fr := freeze(c)
			if err := chunk.NoopWriter.Write(c); err != nil {
				r.Fail("the writer for nobody refuses %v: %v", m, err)
			}
			if d := fr.diff(c); d != "" {
				r.Fail("the writer for nobody modified the caller's message: %s", d)
			}
		}
		r.EvalN(n, "refused")
		r.Count("refusals", n)
	}
	r.Need("messages_written", 1000)
	longWriter(r)
	stallWrites(r)
}

// c09: the transport fails under the writer.
func c09(r *kit.R) {
	r.Rule("a message written to a transport that fails after accepting t bytes, for every t of its wire form; distinct by message " +
		"bytes and t; non-trivial always")
	for i := range r.Cases(0, r.N(600, 3000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(150)
		e := kit.NewEnc(size)
		m := e.All(kit.Message(rng, kit.CSID(rng), size, 400))
		m2 := e.All(kit.Message(rng, m.CSID, size, 100))
		one := kit.NewEnc(size)
		one.All(m)
		for t := 0; t <= len(e.B); t++ {
			sink := kit.NewSink()
			sink.FailAt = t
			sink.Err = kit.WriteFault(rng)
			sink.Heal = rng.Intn(2) == 0
			w := chunk.NewWriter(sink, size)
			c, c2 := m.Chunk(), m2.Chunk()
			fr := freeze(c)
			r.Scenario("chunk size %d, %v, transport fails after %d of %d bytes", size, m, t, len(e.B))
			err := w.Write(c)
			if t >= len(one.B) && err != nil {
				r.Fail("Write: %v although all %d bytes were accepted", err, len(one.B))
			}
			if t < len(one.B) {
				if err == nil {
					r.Fail("Write reported success although only %d of %d bytes were accepted", t, len(one.B))
				}
				if !errors.Is(err, sink.Err) {
					r.Fail("Write reported %q, the transport failed with %q", err, sink.Err)
				}
			} else {
				err = w.Write(c2)
				if (err == nil) != (t >= len(e.B)) || (err != nil && !errors.Is(err, sink.Err)) {
					r.Fail("second Write: %v with %d of %d bytes accepted, the transport failing with %q", err, t, len(e.B), sink.Err)
				}
			}
			if len(sink.B) > t {
				r.Fail("the transport failed after %d bytes with %q, %d were written in all", t, sink.Err, len(sink.B))
			}
			if d := kit.DiffBytes(e.B[:len(sink.B)], sink.B); d != "" {
				r.Fail("accepted bytes are no prefix of the right encoding: %s", d)
			}
			if len(sink.B) < t && t <= len(e.B) {
				r.Fail("the transport was offered %d bytes of %d", len(sink.B), t)
			}
			if sink.Heal && t < len(e.B) {
				// the transport works again
				at, fresh := len(sink.B), kit.NewEnc(size)
				fresh.All(m2)
				if err := w.Write(c2); err != nil {
					r.Fail("Write to the transport that works again: %v", err)
				}
				if d := kit.DiffBytes(fresh.B, sink.B[at:]); d != "" {
					r.Fail("written to the transport that works again: %s", d)
				}
				r.Count("writes_after_recovery", 1)
			}
			if d := fr.diff(c); d != "" {
				r.Fail("the failed write modified the caller's message: %s", d)
			}
			r.Count("fault_points", 1)
			r.Eval(true, one.B, t)
		}
		if i < 3 {
			r.Sample("%v with chunk size %d: failures after 0..%d bytes", m, size, len(e.B))
		}
	}
	r.Need("fault_points", 3000)
	r.Need("writes_after_recovery", 1000)
}

// c10: delivered messages belong to their receiver.
func c10(r *kit.R) {
	r.Rule("a reference stream whose delivered messages are overwritten (header, data, spare capacity) or kept by the consumer while " +
		"decoding continues, under the race detector; distinct by bytes and by which are overwritten; non-trivial with two messages")
	for i := range r.Cases(0, r.N(1400, 15000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(100)
		if rng.Intn(3) == 0 {
			size = kit.Size(rng)
		}
		s := newScenario(rng, size, 1+rng.Intn(5), kit.Max(rng, 400))
		for k := 0; k < 8+rng.Intn(40); k++ {
			s.step(rng.Intn(3) > 0)
		}
		s.drain()
		r.Arm(rng)
		src, _ := s.src()
		rd := kit.NewReader(src, size)
		var kept []*chunk.Chunk
		var froz []frozen
		var mutated []int
		k := 0
		r.Scenario("chunk size %d, ids %v, %d messages", size, s.ids, len(s.want))
	loop:
		for {
			select {
			case c := <-rd.Chunks():
				if k >= len(s.want) {
					r.Fail("unexpected message %s", desc(c))
				}
				if d := kit.Diff(s.want[k].m, c); d != "" {
					r.Fail("message %d %v: %s (consumer overwrote messages %v)", k, s.want[k].m, d, mutated)
				}
				if rng.Intn(2) == 0 {
					mutated = append(mutated, k)
					full := c.Data[:cap(c.Data)]
					for j := range full {
						full[j] ^= 0xff
					}
					c.Header.MessageHeader.Length ^= 0x55
					c.Header.MessageHeader.TypeId = 1
					c.Header.MessageHeader.StreamId ^= 0xffff
					c.Header.MessageHeader.Timestamp = kit.Ext24
					c.Header.ExtendedTimestamp.Delta++
					c.Header.BasicHeader.StreamId += 3
					c.Header.BasicHeader.FormatId = 2
					r.Count("messages_overwritten", 1)
				}
				kept = append(kept, c)
				froz = append(froz, freeze(c))
				k++
			case err := <-rd.Errs():
				if !isEnd(src, err) {
					r.Fail("error %v after %d messages (consumer overwrote messages %v)", err, k, mutated)
				}
				break loop
			}
		}
		if k != len(s.want) {
			r.Fail("%d messages delivered, want %d", k, len(s.want))
		}
		kit.StopReader(rd)
		for j, c := range kept {
			if d := froz[j].diff(c); d != "" {
				r.Fail("message %d changed after delivery: %s", j, d)
			}
		}
		r.Eval(k > 1, s.e.B, fmt.Sprint(mutated))
		r.Count("messages_kept", k)
		if i < 3 {
			r.Sample("%d messages on ids %v, overwritten: %v", k, s.ids, mutated)
		}
	}
	// the sender's side: a message may be reused once Write has returned
	for i := range r.Cases(1_000_000, r.N(300, 2000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(100)
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, size)
		e := kit.NewEnc(size)
		buf := make([]byte, 700)
		c := chunk.New(&chunk.Header{}, nil)
		for k := 0; k < 12; k++ {
			m := e.All(kit.Message(rng, kit.CSID(rng), size, 600))
			x := m.Chunk()
			*c.Header = *x.Header
			c.Data = buf[:copy(buf, m.Data)]
			if err := w.Write(c); err != nil {
				r.Fail("Write: %v", err)
			}
			for j := range buf {
				buf[j] = 0xcc
			}
			*c.Header = chunk.Header{}
		}
		if d := kit.DiffBytes(e.B, sink.B); d != "" {
			r.Fail("reusing one message for all writes changed the wire bytes: %s", d)
		}
		r.Eval(true, sink.B)
	}
	// one message passed to several writers at once: it is read only
	for i := range r.Cases(1_100_000, r.N(200, 2000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(200)
		var msgs []kit.Msg
		var cs []*chunk.Chunk
		var froz []frozen
		for k := 0; k < 1+rng.Intn(8); k++ {
			msgs = append(msgs, kit.Message(rng, kit.CSID(rng), size, kit.Max(rng, 600)))
			cs = append(cs, msgs[k].Chunk())
			froz = append(froz, freeze(cs[k]))
		}
		sinks := make([]*kit.Sink, 2+rng.Intn(4))
		r.Scenario("%d messages, each written by %d writers at once", len(msgs), len(sinks))
		r.Arm(rng)
		var fs []func()
		for a := range sinks {
			sinks[a] = kit.NewSink()
			sinks[a].Yield = kit.Yield
			order := rng.Perm(len(cs))
			fs = append(fs, func() {
				w := chunk.NewWriter(sinks[a], size+a)
				e := kit.NewEnc(size + a)
				for _, k := range order {
					if err := w.Write(cs[k]); err != nil {
						r.Fail("Write: %v", err)
					}
					e.All(msgs[k])
				}
				if d := kit.DiffBytes(e.B, sinks[a].B); d != "" {
					r.Fail("wire of writer %d of %d that share their messages: %s", a, len(sinks), d)
				}
			})
		}
		kit.Together(fs...)
		for k, c := range cs {
			if d := froz[k].diff(c); d != "" {
				r.Fail("writing modified message %d: %s", k, d)
			}
		}
		r.Eval(true, "broadcast", i)
		r.Count("messages_shared", len(cs))
	}
	r.Need("messages_shared", 300)
	r.Need("messages_overwritten", 500)
	stallReads(r, false, false)
}

// c11: several goroutines share a writer.
func c11(r *kit.R) {
	r.Rule("2-8 goroutines writing uniquely tagged messages to one writer over a transport whose Write calls are atomic, schedule " +
		"perturbed at statement level, under the race detector; distinct by the order in which messages hit the wire; non-trivial " +
		"when messages of different goroutines alternate")
	for i := range r.Cases(0, r.N(250, 6000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(200)
		g := 2 + rng.Intn(7)
		per := 3 + rng.Intn(12)
		sink := kit.NewSink()
		y := rng.Intn(2) == 0
		if y {
			sink.Yield = kit.Yield
		}
		w := chunk.NewWriter(sink, size)
		same := rng.Intn(2) == 0
		max := kit.Max(rng, 500)
		if rng.Intn(4) == 0 {
			size = kit.Size(rng)
			w.SetWriteSize(size)
		}
		if i%25 == 3 { // large messages
			g, per, max = 2+rng.Intn(3), 2+rng.Intn(3), []int{70_000, 300_000, 2_000_000}[i/25%3]
			size = max / (1 + rng.Intn(40))
			w.SetWriteSize(size)
		}
		plan := make([][]kit.Msg, g)
		for a := range plan {
			for k := 0; k < per; k++ {
				m := kit.Message(rng, kit.CSID(rng), size, max)
				if i%25 == 3 {
					m.Data = kit.Bytes(rng, max/2+rng.Intn(max))
					r.Count("large_messages", 1)
				}
				if same {
					m.CSID = 4
				}
				m.MSID = uint32(a)<<16 | uint32(k)
				plan[a] = append(plan[a], m)
			}
		}
		r.Scenario("%d goroutines, %d messages each, chunk size %d, same stream %v", g, per, size, same)
		r.Arm(rng)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for a := 0; a < g; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, m := range plan[a] {
					if err := w.Write(m.Chunk()); err != nil {
						r.Fail("Write: %v", err)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		d := kit.NewDec(size, sink.B)
		next := make([]int, g)
		order := make([]byte, 0, g*per)
		alt := 0
		for {
			m, err := d.Next()
			if err != nil {
				r.Fail("wire of %d concurrent writers is malformed: %v (messages so far by goroutine: %v)", g, err, order)
			}
			if m == nil {
				break
			}
			a := int(m.MSID >> 16)
			if a >= g || next[a] >= per {
				r.Fail("wire carries a message nobody wrote: %v", m)
			}
			if df := kit.SameMsg(plan[a][next[a]], *m); df != "" {
				r.Fail("goroutine %d's message %d: %s", a, next[a], df)
			}
			next[a]++
			if len(order) > 0 && order[len(order)-1] != byte(a) {
				alt++
			}
			order = append(order, byte(a))
		}
		for a, n := range next {
			if n != per {
				r.Fail("goroutine %d: %d of %d messages on the wire", a, n, per)
			}
		}
		// contiguous: no chunk of another message in between
		cont := 0
		for k, x := range d.Wires {
			if !x.First && d.Wires[k-1].CSID != x.CSID {
				r.Fail("a message is interrupted by a chunk of chunk stream %d at offset %d", d.Wires[k-1].CSID, x.Off)
			}
			if !x.First {
				cont++
			}
		}
		r.Eval(alt > 1, g, per, order)
		r.Count("alternations", alt)
		r.Count("continuation_chunks", cont)
		r.Count("messages", g*per)
		if i < 3 {
			r.Sample("%d goroutines: wire order %v", g, order)
		}
	}
	r.Need("alternations", 500)
	r.Need("large_messages", 20)
	// several goroutines write the very same message
	for i := range r.Cases(1_000_000, r.N(60, 1000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(200)
		sink := kit.NewSink()
		sink.Yield = kit.Yield
		w := chunk.NewWriter(sink, size)
		m := kit.Message(rng, kit.CSID(rng), size, kit.Max(rng, 500))
		c := m.Chunk()
		g := 2 + rng.Intn(4)
		r.Scenario("%v written by %d goroutines at once", m, g)
		r.Arm(rng)
		var fs []func()
		e := kit.NewEnc(size)
		for a := 0; a < g; a++ {
			e.All(m)
			fs = append(fs, func() {
				if err := w.Write(c); err != nil {
					r.Fail("Write: %v", err)
				}
			})
		}
		kit.Together(fs...)
		if d := kit.DiffBytes(e.B, sink.B); d != "" {
			r.Fail("%d copies of one message: %s", g, d)
		}
		r.Eval(true, "same", i)
	}
	stallWrites(r)
}

// c12: sizes and shared state changed while in use.
func c12(r *kit.R) {
	r.Rule("one writer writing while others change its size; a reader decoding while its size is polled and set; header state, message assembly and " +
		"registers used by several goroutines, schedule perturbed, under the race detector; distinct by observed sequence of sizes or results; " +
		"non-trivial when at least two sizes or orders were observed")
	for i := range r.Cases(0, r.N(480, 4000)) {
		rng := r.Rng(i)
		sizes := []int{1 + rng.Intn(20), 21 + rng.Intn(100), 200 + rng.Intn(200), 5000}
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, sizes[0])
		var msgs []kit.Msg
		for k := 0; k < 30; k++ {
			m := kit.Message(rng, kit.CSID(rng), 50, 600)
			m.Data = kit.Bytes(rng, 200+rng.Intn(500))
			msgs = append(msgs, m)
		}
		r.Scenario("sizes %v changed by two goroutines while 30 messages are written", sizes)
		r.Arm(rng)
		var stop atomic.Bool
		var wg sync.WaitGroup
		seeds := []int64{rng.Int63(), rng.Int63()}
		for a := 0; a < 2; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := seeds[a]
				for !stop.Load() {
					x = x*6364136223846793005 + 1442695040888963407
					w.SetWriteSize(sizes[uint64(x)>>40%4])
					got := w.WriteSize()
					if got != sizes[0] && got != sizes[1] && got != sizes[2] && got != sizes[3] {
						r.Fail("write size %d was never set", got)
					}
					kit.Yield()
				}
			}()
		}
		off := 0
		var seen []int
		for k, m := range msgs {
			if err := w.Write(m.Chunk()); err != nil {
				r.Fail("Write: %v", err)
			}
			tail := sink.B[off:]
			ok := false
			for _, n := range sizes {
				e := kit.NewEnc(n)
				e.All(m)
				if bytes.Equal(e.B, tail) {
					ok = true
					if len(seen) == 0 || seen[len(seen)-1] != n {
						seen = append(seen, n)
					}
					break
				}
			}
			if !ok {
				r.Fail("message %d %v: its %d wire bytes are its encoding with none of the chunk sizes %v", k, m, len(tail), sizes)
			}
			off = len(sink.B)
		}
		stop.Store(true)
		wg.Wait()
		r.End()
		r.Count("size_switches_observed", len(seen)-1)
		r.Eval(len(seen) > 1, fmt.Sprint(sizes, seen), i)
		if i < 2 {
			r.Sample("sizes %v, sequence observed %v", sizes, seen)
		}
	}
	// sizes that hold nothing among them: a message is refused or whole
	for i := range r.Cases(300_000, r.N(240, 2000)) {
		rng := r.Rng(i)
		size := 1 + rng.Intn(100)
		sink := kit.NewSink()
		w := chunk.NewWriter(sink, size)
		r.Scenario("the size changes between %d and 0 while messages are written", size)
		r.Arm(rng)
		var stop atomic.Bool
		done := make(chan struct{})
		go func() {
			defer close(done)
			for k := 0; !stop.Load(); k++ {
				w.SetWriteSize(size * (k & 1))
				kit.Yield()
			}
		}()
		refused := 0
		for k := 0; k < 30; k++ {
			m := kit.Message(rng, kit.CSID(rng), size, 600)
			m.Data = kit.Bytes(rng, 1+rng.Intn(500))
			was := len(sink.B)
			err := w.Write(m.Chunk())
			var want []byte
			if err == nil {
				want = kit.Encode(size, m)
			} else {
				refused++
			}
			if d := kit.DiffBytes(want, sink.B[was:]); d != "" {
				r.Fail("message %d %v, written with %v: %s", k, m, err, d)
			}
		}
		stop.Store(true)
		<-done
		r.End()
		r.Count("refused_while_sizes_changed", refused)
		r.Eval(refused > 0 && refused < 30, i)
	}
	r.Need("refused_while_sizes_changed", 100)
	// reader size set by another goroutine: any size at all decodes a stream of
	// messages no longer than the smallest
	for i := range r.Cases(1_000_000, r.N(240, 2000)) {
		rng := r.Rng(i)
		sizes := []int{64, 65, 128, 4096}
		s := newScenario(rng, 64, 1+rng.Intn(5), 64)
		for k := 0; k < 60; k++ {
			s.step(true)
		}
		s.drain()
		src, _ := s.src()
		rd := chunk.NewReader(src, 64, chunk.NewNormalizer())
		r.Arm(rng)
		go rd.Recv()
		var stop atomic.Bool
		var wg sync.WaitGroup
		for a := 0; a < 2; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := a; !stop.Load(); k++ {
					rd.SetReadSize(sizes[k%4])
					got := rd.ReadSize()
					if got != 64 && got != 65 && got != 128 && got != 4096 {
						r.Fail("read size %d was never set", got)
					}
					kit.Yield()
				}
			}()
		}
		var ev []event
		for done := false; !done; {
			select {
			case c := <-rd.Chunks():
				ev = append(ev, event{c: c})
			case err := <-rd.Errs():
				if !isEnd(src, err) {
					r.Fail("error %v", err)
				}
				done = true
			}
		}
		stop.Store(true)
		wg.Wait()
		compare(r, "stream read while the size is being set", s.want, ev)
		rd.SetReadSize(777)
		if rd.ReadSize() != 777 {
			r.Fail("read size %d after it was set to 777", rd.ReadSize())
		}
		kit.StopReader(rd)
		r.Eval(true, s.e.B)
		r.Count("reads_with_concurrent_resizing", len(ev))
	}
	// message assembly: conservation of the byte count, no part lost
	for i := range r.Cases(2_000_000, r.N(1000, 5000)) {
		rng := r.Rng(i)
		g := 2 + rng.Intn(5)
		per := 4 + rng.Intn(20)
		total := 0
		parts := make([][][]byte, g)
		for a := range parts {
			for k := 0; k < per; k++ {
				n := 5 + rng.Intn(6)
				p := make([]byte, n)
				p[0], p[1], p[2] = byte(a), byte(k), byte(n)
				parts[a] = append(parts[a], p)
				total += n
			}
		}
		b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(total + 100)}})
		whole := func(data []byte) ([]int, []byte) {
			next := make([]int, g)
			var order []byte
			for len(data) > 0 {
				if len(data) < 3 || int(data[0]) >= g || len(data) < int(data[2]) || next[data[0]] != int(data[1]) {
					r.Fail("assembled message is torn or out of order near % x", data[:min(len(data), 12)])
				}
				order = append(order, data[0])
				next[data[0]]++
				data = data[data[2]:]
			}
			return next, order
		}
		r.Arm(rng)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for a := 0; a < g; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k, p := range parts[a] {
					if k%2 == 0 {
						if n, err := b.Append(p); n != len(p) || err != nil {
							r.Fail("Append: %d, %v", n, err)
						}
					} else if n, err := b.Read(bytes.NewReader(p), len(p)); n != len(p) || err != nil {
						r.Fail("Read: %d, %v", n, err)
					}
					if k%3 == 0 {
						b.AddLeft(1)
						b.AddLeft(-1)
					}
					if l := b.BytesLeft(); l < 100 || l > total+100+g {
						r.Fail("%d bytes left while assembling %d", l, total)
					}
				}
			}()
		}
		if i%2 == 0 { // somebody looks at what there is so far
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 4; k++ {
					whole(b.Build().Data)
					kit.Yield()
				}
				r.Count("assembled_meanwhile", 4)
			}()
		}
		close(start)
		wg.Wait()
		if l := b.BytesLeft(); l != 100 {
			r.Fail("%d bytes left, want 100: %d goroutines appended %d bytes of %d", l, g, total, total+100)
		}
		first := b.Build()
		next, order := whole(first.Data)
		if again := b.Build(); !bytes.Equal(again.Data, first.Data) || *again.Header != *first.Header {
			r.Fail("assembling the same parts twice gives % x, then % x", first.Data, again.Data)
		}
		for a, n := range next {
			if n != per {
				r.Fail("goroutine %d: %d of %d parts in the message", a, n, per)
			}
		}
		r.Eval(true, order)
		r.Count("parts_assembled", g*per)
	}
	registers(r)
	r.Need("size_switches_observed", 100)
	r.Need("parts_assembled", 1000)
}
