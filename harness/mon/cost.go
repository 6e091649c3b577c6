package main

import (
	"bytes"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// m03: what is done for a part of the traffic does not grow with what came
// before it.
func m03(r *kit.R) {
	r.Rule("the statements that the library executes and the memory that it allocates for some traffic, and for sixteen times as much of the same; " +
		"more than forty times the statements, or sixty-four times the memory, is a violation; distinct by traffic and amount; non-trivial always")
	loads := []struct {
		name string
		n    int
		f    func(r *kit.R, n int) func()
	}{
		{"one message of many chunks", 4000, costRead(func(e *kit.Enc, n int) { e.All(kit.Msg{CSID: 5, Type: 9, Data: make([]byte, 2*n)}) })},
		{"messages of many chunks, interleaved", 4000, costRead(func(e *kit.Enc, n int) {
			var ps []*kit.Part
			for k := uint32(0); k < 8; k++ {
				ps = append(ps, e.Begin(kit.Msg{CSID: 5 + 70*k, TS: kit.Ext24, Ext: 1 << 25, Type: 9, Data: make([]byte, n/4)}))
			}
			for left := len(ps); left > 0; {
				for _, p := range ps {
					if !p.Done {
						if p.Next(); p.Done {
							left--
						}
					}
				}
			}
		})},
		{"many messages", 2000, costRead(func(e *kit.Enc, n int) {
			for k := 0; k < n; k++ {
				m := kit.Msg{CSID: uint32(3 + k%5), TS: uint32(k), Type: 8, MSID: 1, Data: make([]byte, k%5)}
				if k > 10 && k%2 == 0 {
					m.Fmt = 1
				}
				e.All(m)
			}
		})},
		{"messages on ever more chunk streams", 2000, costRead(func(e *kit.Enc, n int) {
			for k := 0; k < n; k++ {
				for f := byte(0); f < 3; f += 2 {
					e.All(kit.Msg{CSID: anID(k), Fmt: f, Type: 8, MSID: 1, Data: []byte{1}})
				}
			}
		})},
		{"ever more unfinished messages", 2000, costRead(func(e *kit.Enc, n int) {
			var ps []*kit.Part
			for k := 0; k < n; k++ {
				p := e.Begin(kit.Msg{CSID: anID(k), Type: 8, MSID: 1, Data: make([]byte, 5)})
				p.Next()
				ps = append(ps, p)
			}
			for k := range ps {
				for p := ps[(k*7919)%n]; !p.Done; {
					p.Next()
				}
			}
		})},
		{"many changes of the chunk size, most of them refused", 2000, costRead(func(e *kit.Enc, n int) {
			for k := 0; k < n; k++ {
				if k%4 == 0 {
					e.SetSize(2, uint32(4+k%100))
				} else {
					e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}[:k%5]})
				}
				e.All(kit.Msg{CSID: 3, Type: 8, Data: []byte{1}})
			}
		})},
		{"many aborted messages", 2000, costRead(func(e *kit.Enc, n int) {
			for k := 0; k < n; k++ {
				e.Begin(kit.Msg{CSID: uint32(5 + k%3), Type: 9, Data: make([]byte, 50)}).Next()
				e.All(kit.Msg{CSID: 2, Type: 2, Data: []byte{0, 0, 0, byte(5 + k%3)}})
			}
		})},
		{"messages and errors through a parser", 2000, costRoutes},
		{"ever more streams of a parser", 1000, costStreams},
		{"messages through a combined stream", 2000, costFanIn},
		{"ever more sources of a combined stream", 1000, costSources},
		{"one long message written", 4000, func(r *kit.R, n int) func() {
			w := chunk.NewWriter(io.Discard, 2)
			m := kit.Msg{CSID: 70, TS: kit.Ext24, Ext: 1 << 25, Type: 9, Data: make([]byte, 2*n)}.Chunk()
			return func() { w.Write(m) }
		}},
		{"many messages written, half of them not", 4000, func(r *kit.R, n int) func() {
			w := chunk.NewWriter(&dropSink{}, 5)
			m := kit.Msg{CSID: 70, Type: 9, Data: make([]byte, 20)}.Chunk()
			return func() {
				for k := 0; k < n; k++ {
					if k%10 == 0 {
						w.SetWriteSize(1 + k%30)
					}
					w.Write(m)
				}
			}
		}},
		{"control messages both ways", 2000, costControl},
		{"parts of a message put together", 4000, func(r *kit.R, n int) func() {
			b := chunk.NewBuilder(kit.Msg{CSID: 5, Data: make([]byte, 2*n)}.Chunk().Header)
			part := []byte{1, 2}
			return func() {
				left := b.BytesLeft()
				for k := 0; k < n; k++ {
					if _, err := b.Append(part); err != nil {
						r.Fail("part %d: %v", k, err)
					}
					if left -= 2; b.BytesLeft() != left {
						r.Fail("%d bytes left after part %d, want %d", b.BytesLeft(), k, left)
					}
				}
				if got := len(b.Build().Data); got != 2*n {
					r.Fail("built %d bytes, want %d", got, 2*n)
				}
			}
		}},
		{"headers", 4000, func(r *kit.R, n int) func() {
			no := chunk.NewNormalizer()
			return func() {
				for k := 0; k < n; k++ {
					no.Normalize(kit.Msg{CSID: uint32(3 + k%9), Fmt: byte(k % 4)}.Chunk().Header)
				}
			}
		}},
		{"headers of ever more chunk streams", 4000, func(r *kit.R, n int) func() {
			no := chunk.NewNormalizer()
			return func() {
				for k := 0; k < n; k++ {
					no.Normalize(kit.Msg{CSID: anID(k), Fmt: byte(k % 4)}.Chunk().Header)
					no.Normalize(kit.Msg{CSID: anID(k / 2), Fmt: byte(k % 4)}.Chunk().Header)
				}
			}
		}},
	}
	for i := range r.Cases(0, len(loads)) {
		l := loads[i]
		r.Budget(20e9)
		r.Scenario("%s", l.name)
		n := l.n * r.N(1, 3)
		r.Linear(l.name, n, func(n int) func() { return l.f(r, n) })
		r.Eval(true, l.name, n)
	}
	r.Need("statements_watched", 1_000_000)
}

// anID gives different chunk stream ids for the first 65000 k.
func anID(k int) uint32 { return uint32(3 + k%65000) }

// costRead is for reading what a sender that uses chunks of two bytes sends.
func costRead(send func(e *kit.Enc, n int)) func(*kit.R, int) func() {
	return func(r *kit.R, n int) func() {
		e := kit.NewEnc(2)
		send(e, n)
		e.Cuts = nil
		rd := chunk.NewReader(&kit.Src{B: e.B, End: kit.ErrCut}, 2, chunk.NewNormalizer())
		return func() {
			go rd.Recv()
			for k := 0; ; k++ {
				select {
				case <-rd.Chunks():
				case err := <-rd.Errs():
					if err == kit.ErrCut {
						kit.StopReader(rd)
						return
					}
				}
				beat(r, k)
			}
		}
	}
}

func costRoutes(r *kit.R, n int) func() {
	own := &ownReader{chunks: make(chan *chunk.Chunk), errs: make(chan error), stop: make(chan struct{})}
	p := chunk.NewParser(own)
	one, err := p.Stream(5)
	if err != nil {
		r.Fail("Stream(5): %v", err)
	}
	two, err := p.Stream(7, 65599)
	if err != nil {
		r.Fail("Stream(7, 65599): %v", err)
	}
	m := []*chunk.Chunk{kit.Msg{CSID: 5}.Chunk(), kit.Msg{CSID: 7}.Chunk(), kit.Msg{CSID: 65599}.Chunk()}
	return func() {
		go p.Recv()
		for k := 0; k < n; k++ {
			own.chunks <- m[k%3]
			select {
			case <-one.In():
			case <-two.In():
			}
			own.errs <- io.ErrNoProgress
			<-p.Errs()
			if _, err := p.Stream(5, 7); err == nil {
				r.Fail("Stream(5, 7) granted")
			}
			beat(r, k)
		}
		p.Close()
	}
}

// costStreams is for streams that are asked for one after another, each used
// at once.
func costStreams(r *kit.R, n int) func() {
	own := &ownReader{chunks: make(chan *chunk.Chunk), errs: make(chan error), stop: make(chan struct{})}
	p := chunk.NewParser(own)
	return func() {
		done := make(chan struct{})
		go func() { p.Recv(); close(done) }()
		var last uint32
		for k := 0; k < n; k++ {
			ids := []uint32{uint32(10 + 3*k)}
			if k%10 == 0 {
				ids = append(ids, ids[0]+1, ids[0]+2)
			}
			st, err := p.Stream(ids...)
			if err != nil {
				r.Fail("Stream(%v): %v", ids, err)
			}
			if _, err := p.Stream(1<<30+uint32(k), last, ids[0]); k > 0 && err == nil {
				r.Fail("Stream(…, %d, %d) granted", last, ids[0])
			}
			last = ids[0]
			for _, id := range ids {
				own.chunks <- kit.Msg{CSID: id}.Chunk()
				<-st.In()
			}
			beat(r, k)
		}
		var ids []uint32
		for k := 0; k < n; k++ {
			ids = append(ids, 1<<29+uint32(k))
		}
		if _, err := p.Stream(ids...); err != nil {
			r.Fail("Stream of %d ids: %v", n, err)
		}
		p.Close()
		<-done
	}
}

func costSources(r *kit.R, n int) func() {
	m := chunk.NewMultiStream()
	c := kit.Msg{CSID: 5}.Chunk()
	return func() {
		var srcs []fakeStream
		for k := 0; k < n; k++ {
			s := make(fakeStream)
			m.Append(s)
			s <- c
			<-m.In()
			srcs = append(srcs, s)
			beat(r, k)
		}
		for k := range srcs {
			close(srcs[(k*7919)%n])
		}
		m.AwaitClose()
	}
}

func costFanIn(r *kit.R, n int) func() {
	m := chunk.NewMultiStream()
	a := make(fakeStream)
	m.Append(a)
	c := kit.Msg{CSID: 5}.Chunk()
	return func() {
		for k := 0; k < n; k++ {
			a <- c
			<-m.In()
			beat(r, k)
		}
		close(a)
		m.AwaitClose()
	}
}

func costControl(r *kit.R, n int) func() {
	src := make(fakeStream)
	var out bytes.Buffer
	s := control.NewStream(src, chunk.NewWriter(&out, 128), control.NewParser(), control.NewChunker())
	good, bad := kit.Msg{CSID: 2, Type: 5, Data: []byte{0, 0, 0, 1}}.Chunk(), kit.Msg{CSID: 2, Type: 77}.Chunk()
	return func() {
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		for k := 0; k < n; k++ {
			src <- good
			<-s.In()
			src <- bad
			<-s.Errs()
			s.Out() <- &control.Acknowledgement{SequenceNumber: uint32(k)}
			if k%100 == 0 {
				out.Reset()
			}
			beat(r, k)
		}
		stopControl(s)
		<-done
	}
}
