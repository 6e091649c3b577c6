package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// traffic is an endless session of everything a peer may send, on few chunk
// streams, and of what it may not; trouble tells what there is more of.
func traffic(rng *rand.Rand, max int, trouble int) (*scenario, func() []byte) {
	rng = rand.New(rand.NewSource(rng.Int63())) // used by whoever reads
	s := newScenario(rng, 1+rng.Intn(200), 6, max)
	for has(s.ids, 2) {
		s.ids = kit.CSIDs(rng, len(s.ids))
	}
	return s, func() []byte {
		s.e.B, s.e.Cuts, s.want, s.sig = s.e.B[:0], nil, s.want[:0], nil
		for len(s.e.B) == 0 {
			k := rng.Intn(24)
			if trouble > 0 && rng.Intn(2) == 0 {
				k = trouble
			}
			switch k {
			case 1:
				s.setSize(uint32(1 + rng.Intn(300)))
			case 2:
				s.badSize(badSizes[rng.Intn(len(badSizes))])
			case 3:
				id := s.ids[rng.Intn(len(s.ids))]
				if rng.Intn(2) == 0 {
					id = rng.Uint32() // most likely none in use
				}
				s.abort(id)
			default:
				s.step(rng.Intn(3) > 0)
			}
		}
		return append([]byte(nil), s.e.B...)
	}
}

// m01: nothing is kept of what is over.
func m01(r *kit.R) {
	r.Rule("the live heap and the number of goroutines, after a full collection with every goroutine parked, before and after tens of thousands of " +
		"further messages, errors, requests, writes, combined sources, handshakes or whole sessions, all of which are over by then; a growth that " +
		"repeats over a second stretch is a violation; distinct by workload and seed; non-trivial when all steps were taken")
	type load struct {
		name string
		f    func(r *kit.R, rng *rand.Rand)
	}
	loads := []load{
		{"a reader", keepReader}, {"a parser", keepParser}, {"a writer", keepWriter}, {"combined streams", keepFanIn},
		{"a control stream", keepControl}, {"sessions", keepSessions}, {"handshakes", keepShakes}, {"values", keepValues},
	}
	for i := range r.Cases(0, len(loads)*r.N(3, 12)) {
		l := loads[i%len(loads)]
		r.Budget(8e9)
		r.Scenario("%s", l.name)
		l.f(r, r.Rng(i))
		r.Eval(true, l.name, i)
		r.Count("workloads", 1)
	}
	r.Need("workloads", int64(len(loads)))
}

func keepReader(r *kit.R, rng *rand.Rand) {
	for trouble := range 4 {
		keepTroubled(r, rng, trouble)
	}
}

func keepTroubled(r *kit.R, rng *rand.Rand, trouble int) {
	s, more := traffic(rng, 300, trouble)
	src := kit.NewEndless(0, more)
	rd := kit.NewReader(src, s.e.Size)
	bytes := 0
	r.Steady(fmt.Sprintf("a reader (%s)", []string{"all sorts of traffic", "many chunk sizes", "many refused chunk sizes", "many aborts"}[trouble]), r.N(40_000, 300_000), func(int) {
		select {
		case c := <-rd.Chunks():
			bytes += len(c.Data)
		case <-rd.Errs():
		}
	})
	r.Count("bytes_decoded", bytes)
	src.Cut()
	kit.StopReader(rd)
}

func keepParser(r *kit.R, rng *rand.Rand) {
	s, more := traffic(rng, 300, rng.Intn(4))
	src := kit.NewEndless(0, more)
	p := chunk.NewParser(chunk.NewReader(src, s.e.Size, chunk.NewNormalizer()))
	all := chunk.NewMultiStream()
	add := func(ids ...uint32) {
		st, err := p.Stream(ids...)
		if err != nil {
			r.Fail("Stream(%v): %v", ids, err)
		}
		all.Append(st)
	}
	add(2)
	add(s.ids[0])
	add(s.ids[1:3]...)
	add(s.ids[3])
	add(s.ids[4:]...)
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	r.Steady("a parser", r.N(30_000, 200_000), func(k int) {
		if _, err := p.Stream(s.ids[k%3]); err != nil {
			r.Fail("Stream(%d) again: %v", s.ids[k%3], err)
		}
		if st, err := p.Stream(rng.Uint32(), s.ids[k%3], rng.Uint32()); err == nil {
			r.Fail("Stream of several in use granted: %v", st)
		}
		if st, err := p.Stream(); err == nil {
			r.Fail("Stream of none granted: %v", st)
		}
		select {
		case <-all.In():
		case <-p.Errs():
		}
	})
	gone := make(chan struct{})
	go func() {
		for {
			select {
			case <-all.In():
			case <-gone:
				return
			}
		}
	}()
	p.Close()
	src.Cut()
	<-done
	close(gone)
}

// dropSink takes everything and keeps nothing; every other write fails.
type dropSink struct{ n int }

func (d *dropSink) Write(b []byte) (int, error) {
	if d.n++; d.n%2 == 0 {
		return 0, io.ErrClosedPipe
	}
	return len(b), nil
}

func keepWriter(r *kit.R, rng *rand.Rand) {
	w := chunk.NewWriter(&dropSink{}, 128)
	ids := kit.CSIDs(rng, 8)
	r.Steady("a writer", r.N(60_000, 300_000), func(k int) {
		if k%100 == 0 {
			w.SetWriteSize(k % 300)
		}
		w.Write(kit.Message(rng, ids[k%8], 128, 400).Chunk())
	})
}

func keepFanIn(r *kit.R, rng *rand.Rand) {
	m := chunk.NewMultiStream()
	r.Steady("a combined stream whose sources come and go", r.N(10_000, 60_000), func(k int) {
		src := make(fakeStream)
		if k%3 == 0 {
			in := chunk.NewMultiStream()
			in.Append(src)
			go in.AwaitClose()
			m.Append(in)
		} else {
			m.Append(src)
		}
		src <- kit.Msg{CSID: 3, MSID: uint32(k), Data: kit.Bytes(rng, 200)}.Chunk()
		if c := <-m.In(); int(c.Header.MessageHeader.StreamId) != k {
			r.Fail("message %d arrived as %s", k, desc(c))
		}
		close(src)
	})
	done := make(chan struct{})
	go func() { m.AwaitClose(); close(done) }()
	if c, ok := <-m.In(); ok {
		r.Fail("message %s after all the sources ended", desc(c))
	}
	<-done
}

func keepControl(r *kit.R, rng *rand.Rand) {
	src := make(fakeStream)
	s := control.NewStream(src, chunk.NewWriter(&dropSink{}, 128), control.NewParser(), control.NewChunker())
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	errs, gone := 0, make(chan struct{})
	go func() {
		for range s.Errs() {
			errs++
		}
		close(gone)
	}()
	r.Steady("a control stream", r.N(30_000, 200_000), func(k int) {
		c, typ, body := genControl(rng)
		src <- kit.Msg{CSID: 2, Type: typ, Data: body}.Chunk()
		<-s.In()
		src <- kit.Msg{CSID: 2, Type: byte(20 + k%100), Data: kit.Bytes(rng, 30)}.Chunk()
		src <- kit.Msg{CSID: 2, Type: 3, Data: []byte{1}}.Chunk()
		s.Out() <- c // half of the writes fail
		s.Out() <- &ownControl{Body: body, fail: errOwn}
	})
	stopControl(s)
	<-done
	<-gone
	r.Count("control_errors", errs)
}

// keepSessions: sessions of a reader, a parser and a control stream that are
// opened, used and closed.
func keepSessions(r *kit.R, rng *rand.Rand) {
	// a combined stream may have a message in hand, which somebody has to take
	var draining []chan struct{}
	r.Steady("sessions opened and closed", r.N(1500, 10_000), func(k int) {
		s, more := traffic(rng, 300, k%4)
		src := kit.NewEndless(0, more)
		p := chunk.NewParser(chunk.NewReader(src, s.e.Size, chunk.NewNormalizer()))
		a, err := p.Stream(s.ids[0])
		if err != nil {
			r.Fail("Stream: %v", err)
		}
		b, err := p.Stream(s.ids[1:]...)
		if err != nil {
			r.Fail("Stream: %v", err)
		}
		c, err := p.Stream(2)
		if err != nil {
			r.Fail("Stream: %v", err)
		}
		ctl := control.NewStream(c, chunk.NewWriter(&dropSink{}, 128), control.NewParser(), control.NewChunker())
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); p.Recv() }()
		go func() { defer wg.Done(); ctl.Recv() }()
		for j := 0; j < 5; j++ {
			select {
			case <-a.In():
			case <-b.In():
			case <-p.Errs():
			case <-ctl.In():
			case <-ctl.Errs():
			case ctl.Out() <- &control.Acknowledgement{SequenceNumber: 9}:
			}
		}
		gone := make(chan struct{})
		go func() {
			for {
				select {
				case <-b.In():
				case <-gone:
					return
				}
			}
		}()
		stopControl(ctl)
		src.Cut()
		p.Close()
		wg.Wait()
		draining = append(draining, gone)
		if k%250 == 249 {
			r.Quiesce()
			for _, c := range draining {
				close(c)
			}
			draining = nil
		}
	})
}

func keepShakes(r *kit.R, rng *rand.Rand) {
	r.Steady("handshakes", r.N(1500, 10_000), func(k int) {
		v := byte(3)
		if k%3 == 0 {
			v = byte(k)
		}
		p := newPeer(v, kit.Bytes(rng, 1536), ident, &kit.Src{})
		if k%4 == 0 {
			p.cut = rng.Intn(3073)
		}
		if k%7 == 0 {
			p.out.FailAt = rng.Intn(3073)
		}
		err := handshake.With(&handshake.Param{Conn: p}).Handshake()
		if ok := v == 3 && p.cut < 0 && k%7 > 0; ok != (err == nil) {
			r.Fail("version %d, connection cut at %d, writes fail from %d on: %v", v, p.cut, p.out.FailAt, err)
		}
	})
}

// keepValues: the parts that have no session.
func keepValues(r *kit.R, rng *rand.Rand) {
	ch := control.NewChunker()
	ps := control.NewParser()
	r.Steady("control messages converted", r.N(30_000, 200_000), func(k int) {
		c, _, _ := genControl(rng)
		m, err := ch.Chunk(c)
		if err != nil {
			r.Fail("Chunk(%s): %v", value(c), err)
		}
		d, err := ps.Parse(m)
		if err != nil || value(c) != value(d) {
			r.Fail("%s came back as %v, %v", value(c), d, err)
		}
		ps.Parse(kit.Msg{CSID: 2, Type: byte(k), Data: kit.Bytes(rng, 40)}.Chunk())
	})
	n := chunk.NewNormalizer()
	r.Steady("headers", r.N(60_000, 300_000), func(k int) {
		m := kit.Message(rng, uint32(3+k%9), 128, 1)
		h := new(chunk.Header)
		src := kit.NewEndless(0, func() []byte { return kit.HeaderBytes(m) })
		if err := h.Read(src); err != nil {
			r.Fail("header %v: %v", m, err)
		}
		n.Normalize(h)
		if err := h.Write(io.Discard); err != nil {
			r.Fail("header %v: %v", m, err)
		}
	})
}

// A party whose counterpart does not take what it has may hold some of it, but
// no more than this much of what there is.
const (
	offered = 24 << 20
	share   = offered / 4
)

// m02: back pressure.
func m02(r *kit.R) {
	r.Rule("a peer with far more to send than fits any buffer, while the application takes nothing, takes from one stream of several, or takes " +
		"no errors; and an application with far more to send while the transport takes nothing; once nothing moves any more, how much " +
		"has been taken from the one who has it; distinct by situation and session; non-trivial when something was taken")
	situations := []struct {
		name string
		f    func(*kit.R, *rand.Rand)
	}{
		{"nobody takes messages from a reader", holdReader},
		{"nobody takes errors from a reader", holdErrors},
		{"nobody takes messages from a parser", holdParser},
		{"nobody takes control messages", holdControl},
		{"the transport takes nothing", holdWriter},
		{"nobody takes from a combined stream", holdFanIn},
	}
	for i := range r.Cases(0, len(situations)*r.N(40, 400)) {
		s := situations[i%len(situations)]
		r.Budget(8e9)
		r.Scenario("%s", s.name)
		s.f(r, r.Rng(i))
		r.Eval(true, s.name, i)
		r.Count("stalls", 1)
	}
	r.Need("stalls", int64(40*len(situations)))
}

func held(r *kit.R, what string, src *kit.Endless, from int64) {
	r.Quiesce()
	n := src.Taken.Load() - from
	if n > share {
		r.Fail("%s: %d of the %d bytes that the peer has were read all the same", what, n, src.Limit)
	}
	r.Count("bytes_read_ahead", int(n))
}

// busy sends messages of one size on the given chunk streams.
func busy(rng *rand.Rand, size int, ids []uint32) func() []byte {
	rng = rand.New(rand.NewSource(rng.Int63()))
	n := []int{1, 20, 100, 1000, 30_000}[rng.Intn(5)]
	e := kit.NewEnc(size)
	return func() []byte {
		e.B, e.Cuts = e.B[:0], nil
		for k := 0; k < 20; k++ {
			m := kit.Msg{CSID: ids[rng.Intn(len(ids))], Type: 9, MSID: 1, Data: make([]byte, n)}
			e.All(kit.Compress(rng, e, m))
		}
		return append([]byte(nil), e.B...)
	}
}

func holdReader(r *kit.R, rng *rand.Rand) {
	size := 1 + rng.Intn(400)
	src := kit.NewEndless(offered, busy(rng, size, kit.CSIDs(rng, 1+rng.Intn(5))))
	rd := kit.NewReader(src, size)
	held(r, "a reader whose messages nobody takes", src, 0)
	for k := rng.Intn(50); k > 0; k-- {
		<-rd.Chunks()
	}
	from := src.Taken.Load()
	held(r, "a reader whose messages nobody takes any more", src, from)
	src.Cut()
	kit.StopReader(rd)
}

func holdErrors(r *kit.R, rng *rand.Rand) {
	e := kit.NewEnc(128)
	more := func() []byte {
		e.B, e.Cuts = e.B[:0], nil
		for k := 0; k < 20; k++ {
			e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}})
		}
		return append([]byte(nil), e.B...)
	}
	src := kit.NewEndless(offered, more)
	rd := kit.NewReader(src, 128)
	if rng.Intn(2) == 0 {
		held(r, "a reader whose errors nobody takes", src, 0)
		for k := rng.Intn(50); k > 0; k-- {
			<-rd.Errs()
		}
		held(r, "a reader whose errors nobody takes any more", src, src.Taken.Load())
		src.Cut()
		kit.StopReader(rd)
		return
	}
	src.Cut()
	kit.StopReader(rd)
	src = kit.NewEndless(offered, more)
	p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
	go p.Recv()
	held(r, "a parser whose errors nobody takes", src, 0)
	for k := rng.Intn(50); k > 0; k-- {
		<-p.Errs()
	}
	held(r, "a parser whose errors nobody takes any more", src, src.Taken.Load())
	src.Cut()
	p.Close()
}

func holdParser(r *kit.R, rng *rand.Rand) {
	size := 1 + rng.Intn(400)
	ids := kit.CSIDs(rng, 5)
	src := kit.NewEndless(offered, busy(rng, size, ids))
	p := chunk.NewParser(chunk.NewReader(src, size, chunk.NewNormalizer()))
	// some alone, some combined, some nobody asked for
	var sts []chunk.Stream
	get := func(of ...uint32) {
		st, err := p.Stream(of...)
		if err != nil {
			r.Fail("Stream(%v): %v", of, err)
		}
		sts = append(sts, st)
	}
	switch rng.Intn(4) {
	case 0:
		get(ids...)
	case 1:
		get(ids[:3]...)
		get(ids[3])
	case 2:
		get(ids[0])
		get(ids[1])
	}
	go p.Recv()
	held(r, "a parser whose messages nobody takes", src, 0)
	// the consumers of some streams go on
	quit := make(chan struct{})
	var wg sync.WaitGroup
	taken := atomic.Int64{}
	for k, st := range sts {
		if k > 0 || rng.Intn(4) == 0 && len(sts) > 1 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for left := 200; left > 0; left-- {
				select {
				case <-st.In():
					taken.Add(1)
				case <-quit:
					return
				}
			}
			<-quit
		}()
	}
	r.Quiesce()
	from := src.Taken.Load()
	held(r, "a parser some of whose consumers stopped", src, from)
	r.Count("messages_taken_before_a_stall", int(taken.Load()))
	// whoever holds a message gets rid of it
	all := make(chan struct{})
	for _, st := range sts {
		go func() {
			for {
				select {
				case _, ok := <-st.In():
					if !ok {
						return
					}
				case <-all:
					return
				}
			}
		}()
	}
	close(quit)
	wg.Wait()
	src.Cut()
	p.Close()
	r.Quiesce()
	close(all)
}

func holdControl(r *kit.R, rng *rand.Rand) {
	e := kit.NewEnc(128)
	bad := rng.Intn(2) == 0
	src := kit.NewEndless(offered, func() []byte {
		e.B, e.Cuts = e.B[:0], nil
		for k := 0; k < 20; k++ {
			d := []byte{0, 0, 0, byte(k)}
			if bad {
				d = d[:2]
			}
			e.All(kit.Msg{CSID: 2, Type: 3, Data: d})
		}
		return append([]byte(nil), e.B...)
	})
	p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
	st, err := p.Stream(2)
	if err != nil {
		r.Fail("Stream(2): %v", err)
	}
	s := control.NewStream(st, chunk.NewWriter(io.Discard, 128), control.NewParser(), control.NewChunker())
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	go p.Recv()
	held(r, "a control stream from which nobody takes", src, 0)
	for k := rng.Intn(50); k > 0; k-- {
		select {
		case <-s.In():
		case <-s.Errs():
		}
	}
	held(r, "a control stream from which nobody takes any more", src, src.Taken.Load())
	stopControl(s)
	<-done
	src.Cut()
	p.Close()
}

// stuck is a transport that takes nothing.
type stuck struct{ end chan struct{} }

func (s stuck) Write(p []byte) (int, error) {
	<-s.end
	return 0, errors.New("stuck")
}

func holdWriter(r *kit.R, rng *rand.Rand) {
	const n = 20_000
	tr := stuck{make(chan struct{})}
	w := chunk.NewWriter(tr, 128)
	var accepted atomic.Int64
	quit := make(chan struct{})
	var wg sync.WaitGroup
	what := ""
	var s *control.Stream
	switch rng.Intn(2) {
	case 0:
		what = "messages to a writer"
		m := kit.Message(rng, 5, 128, 400)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				select {
				case <-quit:
					return
				default:
				}
				w.Write(m.Chunk())
				accepted.Add(1)
			}
		}()
	case 1:
		what = "control messages"
		s = control.NewStream(make(fakeStream), w, control.NewParser(), control.NewChunker())
		wg.Add(2)
		go func() { defer wg.Done(); s.Recv() }()
		out := s.Out()
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				select {
				case out <- &control.Acknowledgement{SequenceNumber: uint32(k)}:
					accepted.Add(1)
				case <-quit:
					return
				}
			}
		}()
	}
	r.Quiesce()
	if got := accepted.Load(); got > n/4 {
		r.Fail("a transport that takes nothing: %d of %d %s were accepted all the same", got, n, what)
	}
	r.Count("messages_accepted_meanwhile", int(accepted.Load()))
	close(quit)
	r.Quiesce()
	if s != nil {
		close(tr.end)
		stopControl(s)
	} else {
		close(tr.end)
	}
	wg.Wait()
}

func holdFanIn(r *kit.R, rng *rand.Rand) {
	const n = 20_000
	m := chunk.NewMultiStream()
	var accepted atomic.Int64
	quit := make(chan struct{})
	var wg sync.WaitGroup
	for k := 1 + rng.Intn(4); k > 0; k-- {
		src := make(fakeStream)
		m.Append(src)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(src)
			for j := 0; j < n; j++ {
				select {
				case src <- kit.Msg{CSID: 3, MSID: uint32(j)}.Chunk():
					accepted.Add(1)
				case <-quit:
					return
				}
			}
		}()
	}
	r.Quiesce()
	if got := accepted.Load(); got > n/4 {
		r.Fail("a combined stream that nobody takes from: %d messages were accepted of sources that have %d each", got, n)
	}
	r.Count("messages_accepted_meanwhile", int(accepted.Load()))
	close(quit)
	go m.AwaitClose()
	left := int64(0)
	for range m.In() {
		left++
	}
	wg.Wait()
	if left != accepted.Load() {
		r.Fail("%d messages accepted, %d delivered", accepted.Load(), left)
	}
}
