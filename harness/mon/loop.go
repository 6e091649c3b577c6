package main

import (
	"fmt"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// k06: what waits in one direction does not keep the other waiting.
func k06(r *kit.R) {
	r.Rule("a control stream whose application takes messages and errors, and sends, from one goroutine, while its peer sends ahead: " +
		"answers to each item, bursts before anything is taken, with or without malformed messages and failing writes, schedule perturbed, " +
		"under the race detector; a transport that holds a write while the peer sends; two streams that send to each other at once; " +
		"distinct by messages, script and style; non-trivial when something waited while a message was sent")
	styles := []string{"answers each item", "sends before it takes each item", "sends much before it takes anything", "answers over a failing transport"}
	for i := range r.Cases(0, r.N(1200, 16000)) {
		rng := r.Rng(i)
		style := i % len(styles)
		nin := 2 + rng.Intn(20)
		faulty := 0
		if rng.Intn(3) == 0 {
			faulty = 1 + rng.Intn(4)
		}
		var feed []*chunk.Chunk
		var want []string
		bad := 0
		for k := 0; k < nin; k++ {
			c, t, body := genControl(rng)
			if faulty > 0 && rng.Intn(faulty) == 0 {
				bad++
				t, body = malformed(rng, t, body)
			} else {
				want = append(want, value(c))
			}
			feed = append(feed, kit.Msg{CSID: 2, Type: t, Data: body}.Chunk())
		}
		// what is sent before (style 1, 2) or after each item is taken
		sink := kit.NewFlaky()
		script := make([][]control.Control, nin)
		sent := 0
		for k := range script {
			n := rng.Intn(3)
			if style == 2 {
				if n = 0; k == 0 {
					n = 1 + rng.Intn(60)
				}
			}
			for ; n > 0; n-- {
				c, t, body := genControl(rng)
				script[k] = append(script[k], c)
				sink.Next(rng, kit.Encode(4096, kit.Msg{CSID: 2, Type: t, Data: body}), style == 3 && rng.Intn(3) == 0)
				sent++
			}
		}
		werr := len(sink.Errs)
		src := make(fakeStream)
		s := control.NewStream(src, chunk.NewWriter(sink, 4096), control.NewParser(), control.NewChunker())
		r.Scenario("an application that %s, in one loop, %d messages of the peer ahead (%d bad), %d to send", styles[style], nin, bad, sent)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, c := range feed {
				src <- c
			}
		}()
		var got []string
		var errs []error
		over := make(chan struct{})
		taken := s.Errs()
		if style == 3 { // errors are taken elsewhere
			wg.Add(1)
			go func(ch <-chan error) {
				defer wg.Done()
				for {
					select {
					case e := <-ch:
						errs = append(errs, e)
					case <-over:
						return
					}
				}
			}(taken)
			taken = nil
		}
		take := func() {
			select {
			case c, ok := <-s.In():
				if !ok {
					r.Fail("the stream ended by itself")
				}
				got = append(got, value(c))
			case e, ok := <-taken:
				if !ok {
					r.Fail("the errors ended by themselves")
				}
				errs = append(errs, e)
			}
		}
		if style == 2 || rng.Intn(4) == 0 {
			// have something wait for sure
			if i%16 < 4 {
				r.Quiesce()
				r.Count("waiting_at_rest", 1)
			} else {
				maybe(r, rng)
			}
		}
		items := nin
		if style == 3 {
			items -= bad
		}
		for k, answers := range script {
			if style == 0 || style == 3 {
				if k < items {
					take()
				}
			}
			for _, c := range answers {
				s.Out() <- c
			}
			if style == 1 || style == 2 {
				take()
			}
		}
		r.Quiesce()
		close(over)
		wg.Wait()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Fail("received %v, want %v", got, want)
		}
		if len(errs) != bad+werr || !kit.Contains(errs, sink.Errs) {
			r.Fail("errors reported: %v, want %d for malformed messages, and %v", errs, bad, sink.Errs)
		}
		if d := kit.DiffBytes(sink.Want, sink.Bytes()); d != "" {
			r.Fail("sent by an application that %s: %s", styles[style], d)
		}
		stopControl(s)
		<-done
		r.Eval(sent > 0, style, fmt.Sprint(want), sink.Want)
		r.Count(styles[style], sent)
		if i < 4 {
			r.Sample("%s: %d messages ahead (%d bad), sends %d", styles[style], nin, bad, sent)
		}
	}
	// receiving while a write waits for the transport
	for i := range r.Cases(1_000_000, r.N(400, 4000)) {
		rng := r.Rng(i)
		nin, nout := 1+rng.Intn(20), 1+rng.Intn(5)
		sink := &gate{Sink: kit.NewSink(), at: rng.Intn(nout), held: make(chan struct{}), open: make(chan struct{})}
		src := make(fakeStream)
		s := control.NewStream(src, chunk.NewWriter(sink, 4096), control.NewParser(), control.NewChunker())
		r.Scenario("a control stream whose transport does not take message %d of %d, %d messages of the peer meanwhile", sink.at, nout, nin)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		var enc []byte
		var outs []control.Control
		for k := 0; k < nout; k++ {
			c, t, body := genControl(rng)
			enc = append(enc, kit.Encode(4096, kit.Msg{CSID: 2, Type: t, Data: body})...)
			outs = append(outs, c)
		}
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for _, c := range outs {
				s.Out() <- c
			}
		}()
		<-sink.held
		var want, got []string
		bad, errs := 0, 0
		var feed []*chunk.Chunk
		for k := 0; k < nin; k++ {
			c, t, body := genControl(rng)
			if rng.Intn(4) == 0 {
				bad++
				t, body = malformed(rng, t, body)
			} else {
				want = append(want, value(c))
			}
			feed = append(feed, kit.Msg{CSID: 2, Type: t, Data: body}.Chunk())
		}
		go func() {
			defer wg.Done()
			for _, c := range feed {
				src <- c
			}
		}()
		for range feed {
			select {
			case c := <-s.In():
				got = append(got, value(c))
			case <-s.Errs():
				errs++
			}
		}
		close(sink.open)
		wg.Wait()
		r.Quiesce()
		if fmt.Sprint(got) != fmt.Sprint(want) || errs != bad {
			r.Fail("received %v and %d errors while a write waited, want %v and %d", got, errs, want, bad)
		}
		if d := kit.DiffBytes(enc, sink.Bytes()); d != "" {
			r.Fail("sent around a write that waited: %s", d)
		}
		stopControl(s)
		<-done
		r.Eval(true, "held", sink.at, fmt.Sprint(want), enc)
		r.Count("received_while_a_write_waited", nin)
	}
	// two streams that send to each other over a transport without a buffer
	for i := range r.Cases(2_000_000, r.N(150, 1500)) {
		rng := r.Rng(i)
		n := 5 + rng.Intn(40)
		r.Scenario("two control streams that send each other %d messages at once", n)
		type end struct {
			in   *kit.Pipe
			p    *chunk.Parser
			s    *control.Stream
			outs []control.Control
			want []string // what the other end sends
			got  []string
		}
		ends := [2]*end{{in: kit.NewPipe(0)}, {in: kit.NewPipe(0)}}
		for k, e := range ends {
			e.p = chunk.NewParser(chunk.NewReader(e.in, 4096, chunk.NewNormalizer()))
			st, _ := e.p.Stream(2)
			e.s = control.NewStream(st, chunk.NewWriter(feeder{ends[1-k].in}, 4096), control.NewParser(), control.NewChunker())
			for len(e.outs) < n {
				if c, t, _ := genControl(rng); t > 2 { // the others are the reader's
					e.outs = append(e.outs, c)
					ends[1-k].want = append(ends[1-k].want, value(c))
				}
			}
		}
		r.Arm(rng)
		var wg, run sync.WaitGroup
		for _, e := range ends {
			wg.Add(2)
			run.Add(2)
			go func() { defer run.Done(); e.p.Recv() }()
			go func() { defer run.Done(); e.s.Recv() }()
			go func() {
				defer wg.Done()
				for _, c := range e.outs {
					e.s.Out() <- c
				}
			}()
			go func() {
				defer wg.Done()
				for len(e.got) < len(e.want) {
					e.got = append(e.got, value(<-e.s.In()))
				}
			}()
		}
		wg.Wait()
		r.Quiesce()
		for _, e := range ends {
			if fmt.Sprint(e.got) != fmt.Sprint(e.want) {
				r.Fail("received %v from a stream that sends at the same time, want %v", e.got, e.want)
			}
			stopControl(e.s)
			e.in.Cut(kit.ErrCut)
			e.p.Close()
		}
		run.Wait()
		r.Eval(true, "both", n, fmt.Sprint(ends[0].want, ends[1].want))
		r.Count("sent_both_ways", 2*n)
	}
	r.Need("received_while_a_write_waited", 1000)
	r.Need("sent_both_ways", 1000)
	for _, s := range styles {
		r.Need(s, 200)
	}
	r.Need("waiting_at_rest", 50)
}

// gate is a transport that holds one write until it is opened.
type gate struct {
	*kit.Sink
	at, k      int
	held, open chan struct{}
}

func (g *gate) Write(b []byte) (int, error) {
	if g.k++; g.k-1 == g.at {
		close(g.held)
		<-g.open
	}
	return g.Sink.Write(b)
}

// feeder writes into a pipe.
type feeder struct{ p *kit.Pipe }

func (f feeder) Write(b []byte) (int, error) {
	f.p.Feed(append([]byte(nil), b...))
	return len(b), nil
}
