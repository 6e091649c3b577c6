package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// Sessions of more items than sixteen bits count.

const many = 66_000

// at most one beat in a thousand items.
func beat(r *kit.R, k int) {
	if k%1000 == 0 {
		r.Beat()
	}
}

// longRoutes: many messages, or many errors, through one parser.
func longRoutes(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 3)) {
		n := r.N(many, 400_000)
		r.Budget(8e9)
		r.Scenario("a parser with %d messages and as many errors", n)
		own := &ownReader{chunks: make(chan *chunk.Chunk), errs: make(chan error), stop: make(chan struct{})}
		p := chunk.NewParser(own)
		one, err := p.Stream(5)
		if err != nil {
			r.Fail("Stream(5): %v", err)
		}
		two, err := p.Stream(7, 65599)
		if err != nil {
			r.Fail("Stream(7, 65599): %v", err)
		}
		ids := []uint32{5, 7, 65599}
		go p.Recv()
		boom := errors.New("boom")
		go func() {
			for k := 0; k < n; k++ {
				own.chunks <- kit.Msg{CSID: ids[k%3], TS: uint32(k)}.Chunk()
				own.errs <- boom
			}
		}()
		next := map[uint32]uint32{5: 0, 7: 1, 65599: 2}
		got, errs := 0, 0
		take := func(c *chunk.Chunk, of ...uint32) {
			id := c.StreamId()
			if !has(of, id) || c.Header.MessageHeader.Timestamp != next[id] {
				r.Fail("message %d, at the consumer of %v: %s, want number %d", got, of, desc(c), next[id])
			}
			next[id] += 3
			got++
			beat(r, got)
		}
		for got < n || errs < n {
			select {
			case c := <-one.In():
				take(c, 5)
			case c := <-two.In():
				take(c, 7, 65599)
			case err := <-p.Errs():
				if err != boom {
					r.Fail("error %v, the reader reports %v", err, boom)
				}
				errs++
			}
		}
		p.Close()
		r.Count("items_of_long_sessions", n)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", many)
}

// allRoutes: every chunk stream there is, all in use at once.
func allRoutes(r *kit.R) {
	const last = 65599
	for i := range r.Cases(6_500_000, 1) {
		rng := r.Rng(i)
		r.Budget(8e9)
		r.Scenario("a parser with chunk streams 2 to %d", last)
		own := &ownReader{chunks: make(chan *chunk.Chunk), errs: make(chan error), stop: make(chan struct{})}
		p := chunk.NewParser(own)
		st := map[uint32]chunk.Stream{}
		for id := uint32(2); id <= last; id++ {
			s, err := p.Stream(id)
			if err != nil || s == nil {
				r.Fail("Stream(%d) with %d streams open: %v", id, len(st), err)
			}
			st[id] = s
		}
		go p.Recv()
		for k, x := range rng.Perm(last - 1) {
			id := uint32(2 + x)
			m := kit.Msg{CSID: id, TS: uint32(k)}.Chunk()
			own.chunks <- m
			if again, err := p.Stream(id); err != nil || again != st[id] {
				r.Fail("Stream(%d), asked for again with %d streams open: another stream, or %v", id, len(st), err)
			}
			select {
			case c := <-st[id].In():
				if c.StreamId() != id || c.Header.MessageHeader.Timestamp != uint32(k) {
					r.Fail("chunk stream %d received %s", id, desc(c))
				}
			case err := <-p.Errs():
				r.Fail("message for chunk stream %d: %v", id, err)
			}
			if _, err := p.Stream(id, 1); err == nil {
				r.Fail("Stream(%d, 1) granted with %d in use", id, id)
			}
			beat(r, k)
		}
		p.Close()
		for id := uint32(2); id <= last; id++ {
			if c, ok := <-st[id].In(); ok {
				r.Fail("chunk stream %d received %s after the parser was closed", id, desc(c))
			}
		}
		r.Count("chunk_streams_at_once", len(st))
		r.Eval(true, "all", i)
	}
}

// wideRoutes: combined streams of many chunk streams.
func wideRoutes(r *kit.R) {
	for i := range r.Cases(6_600_000, r.N(6, 30)) {
		rng := r.Rng(i)
		r.Budget(4e9)
		own := &ownReader{chunks: make(chan *chunk.Chunk), errs: make(chan error), stop: make(chan struct{})}
		p := chunk.NewParser(own)
		ids := rng.Perm(4000)
		at := map[uint32]chunk.Stream{}
		var combined []chunk.Stream
		for len(ids) > 0 {
			l := min(2+rng.Intn(1<<(1+rng.Intn(10))), len(ids))
			var g []uint32
			for _, x := range ids[:l] {
				g = append(g, uint32(2+x))
			}
			ids = ids[l:]
			s, err := p.Stream(g...)
			if err != nil || s == nil {
				r.Fail("Stream of %d chunk streams: %v", l, err)
			}
			combined = append(combined, s)
			for _, id := range g {
				at[id] = s
			}
			r.Count("wide_streams", 1)
		}
		r.Scenario("a parser with %d combined streams over %d chunk streams", len(combined), len(at))
		go p.Recv()
		for k, x := range rng.Perm(4000) {
			id := uint32(2 + x)
			own.chunks <- kit.Msg{CSID: id, TS: uint32(k)}.Chunk()
			select {
			case c := <-at[id].In():
				if c.StreamId() != id || c.Header.MessageHeader.Timestamp != uint32(k) {
					r.Fail("chunk stream %d received %s", id, desc(c))
				}
			case err := <-p.Errs():
				r.Fail("message for chunk stream %d: %v", id, err)
			}
			beat(r, k)
		}
		p.Close()
		for _, s := range combined {
			if m, ok := s.(*chunk.MultiStream); ok {
				m.AwaitClose()
			}
		}
		r.Eval(true, "wide", i)
	}
}

// manySources: combined streams of many sources, and of combined streams, most
// of which have nothing to say.
func manySources(r *kit.R) {
	for i := range r.Cases(6_700_000, r.N(60, 400)) {
		rng := r.Rng(i)
		n := 2 + rng.Intn(1<<(1+rng.Intn(9)))
		r.Scenario("%d sources, most of them silent", n)
		r.Arm(rng)
		srcs := make([]fakeStream, n)
		m := chunk.NewMultiStream()
		all := []*chunk.MultiStream{m}
		into := m
		for k := range srcs {
			srcs[k] = make(fakeStream, rng.Intn(2))
			into.Append(srcs[k])
			switch rng.Intn(8) {
			case 0:
				into = m
			case 1:
				if len(all) < 10 {
					into = chunk.NewMultiStream()
					all = append(all, into)
				}
			}
		}
		for k, x := range all[1:] {
			all[rng.Intn(k+1)].Append(x)
		}
		done := make(chan struct{})
		for _, x := range all[1:] {
			go x.AwaitClose()
		}
		go func() { m.AwaitClose(); close(done) }()
		end := 0
		for j, k := range append(rng.Perm(n), rng.Perm(n)...) {
			srcs[k] <- kit.Msg{CSID: uint32(3 + k), MSID: uint32(j)}.Chunk()
			c := <-m.In()
			if c == nil {
				r.Fail("the end was reported with %d of %d sources open", n-end, n)
			}
			if int(c.StreamId()) != 3+k || int(c.Header.MessageHeader.StreamId) != j {
				r.Fail("message %d of source %d arrived as %s", j, k, desc(c))
			}
			if j >= n {
				close(srcs[k])
				end++
			}
		}
		for c := range m.In() {
			r.Fail("a message that nobody sent arrived: %s", desc(c))
		}
		<-done
		r.End()
		r.Eval(true, "many", i, n)
		r.Count("sources_combined", n)
		r.Count("nested_combinations", len(all)-1)
	}
	r.Need("nested_combinations", 20)
}

// longFanIn: many messages through one combined stream.
func longFanIn(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 3)) {
		n := r.N(many, 400_000)
		r.Budget(8e9)
		r.Scenario("two sources of %d messages each", n)
		m := chunk.NewMultiStream()
		a, b := make(fakeStream), make(fakeStream, 4)
		m.Append(a, b)
		for k, s := range []fakeStream{a, b} {
			go func() {
				for j := 0; j < n; j++ {
					s <- kit.Msg{CSID: uint32(3 + k), TS: uint32(j)}.Chunk()
				}
				close(s)
			}()
		}
		go m.AwaitClose()
		var next [2]uint32
		for c := range m.In() {
			k := c.StreamId() - 3
			if c.Header.MessageHeader.Timestamp != next[k] {
				r.Fail("source %d: message %d in place of %d", k, c.Header.MessageHeader.Timestamp, next[k])
			}
			next[k]++
			beat(r, int(next[k]))
		}
		if next != [2]uint32{uint32(n), uint32(n)} {
			r.Fail("%v messages delivered of %d each", next, n)
		}
		r.Count("items_of_long_sessions", 2*n)
		r.Eval(true, "long", i)
	}
	// many sources
	for i := range r.Cases(6_100_000, 1) {
		n := r.N(5000, 70_000)
		r.Budget(8e9)
		r.Scenario("%d sources", n)
		m := chunk.NewMultiStream()
		for k := 0; k < n; k++ {
			s := make(fakeStream, 1)
			s <- kit.Msg{CSID: 3, TS: uint32(k)}.Chunk()
			close(s)
			m.Append(s)
		}
		go m.AwaitClose()
		seen := make([]bool, n)
		got := 0
		for c := range m.In() {
			ts := c.Header.MessageHeader.Timestamp
			if seen[ts] {
				r.Fail("the message of source %d arrived twice", ts)
			}
			seen[ts] = true
			got++
			beat(r, got)
		}
		if got != n {
			r.Fail("%d messages of %d sources", got, n)
		}
		r.Eval(true, "sources", i)
	}
	r.Need("items_of_long_sessions", many)
}

// longControls: many control messages in both directions, half of the incoming
// ones unintelligible, half of the outgoing ones not written.
func longControls(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 3)) {
		n := r.N(many, 300_000)
		r.Budget(8e9)
		r.Scenario("%d control messages each way", n)
		src := make(fakeStream)
		w := &longSink{}
		s := control.NewStream(src, w, control.NewParser(), control.NewChunker())
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		go func() {
			for k := uint32(0); k < uint32(n); k++ {
				src <- kit.Msg{CSID: 2, Type: 3, Data: []byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}}.Chunk()
				src <- kit.Msg{CSID: 2, Type: 3, Data: []byte{1, 2}}.Chunk()
			}
		}()
		sent := make(chan struct{})
		go func() {
			for k := 0; k < 2*n; k++ {
				s.Out() <- &control.WindowAckSize{WindowAckSize: uint32(k)}
			}
			close(sent)
		}()
		got, errs := 0, 0
		for got < n || errs < 2*n || sent != nil {
			select {
			case c := <-s.In():
				if v, want := value(c), value(&control.Acknowledgement{SequenceNumber: uint32(got)}); v != want {
					r.Fail("received %s, want %s", v, want)
				}
				got++
				beat(r, got)
			case err := <-s.Errs():
				if err == nil {
					r.Fail("nil error reported")
				}
				errs++
				beat(r, errs)
			case <-sent:
				sent = nil
			}
		}
		stopControl(s)
		<-done
		if w.err != "" || w.next != uint32(2*n) {
			r.Fail("outgoing messages: %s after %d of %d", w.err, w.next, 2*n)
		}
		r.Count("items_of_long_sessions", 4*n)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", many)
}

// longSink is a chunk writer that every other message fails at.
type longSink struct {
	next uint32
	err  string
}

func (*longSink) WriteSize() int   { return 128 }
func (*longSink) SetWriteSize(int) {}
func (w *longSink) Write(c *chunk.Chunk) error {
	k := w.next
	if want := []byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}; c.TypeId() != 5 || !bytes.Equal(c.Data, want) {
		w.err = fmt.Sprintf("message %s %x, want number %d", desc(c), c.Data, k)
	}
	w.next++
	if k%2 == 1 {
		return io.ErrClosedPipe
	}
	return nil
}

// longWriter: many messages to one writer; what arrives is what a reference
// sender sends.
func longWriter(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 3)) {
		n := r.N(many, 400_000)
		r.Budget(8e9)
		r.Scenario("a writer with %d messages", n)
		var sink bytes.Buffer
		w := chunk.NewWriter(&sink, 5)
		for k := 0; k < n; k++ {
			m := kit.Msg{CSID: uint32(3 + k%3), TS: uint32(k), Type: 9, MSID: 1, Data: seq(k % 12)}
			if err := w.Write(m.Chunk()); err != nil {
				r.Fail("write %d: %v", k, err)
			}
			if want := kit.Encode(5, m); !bytes.Equal(sink.Bytes(), want) {
				r.Fail("write %d: %x on the wire, want %x", k, sink.Bytes(), want)
			}
			sink.Reset()
			beat(r, k)
		}
		r.Count("items_of_long_sessions", n)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", many)
}
