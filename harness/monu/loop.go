package main

import (
	"fmt"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// take receives the next item or error of a pump.
type take func() (item string, err error, ok bool)

func taker[T any](ch <-chan T, errs <-chan error, f func(T) string) take {
	return func() (string, error, bool) {
		select {
		case x, ok := <-ch:
			if !ok {
				return "", nil, false
			}
			return f(x), nil, true
		case err, ok := <-errs:
			return "", err, ok
		}
	}
}

// u11: what waits in one direction does not keep the other waiting.
func u11(r *kit.R) {
	r.Rule("a NetConnection, NetStream or data stream, or a whole session with all of them and its control stream, whose application takes items " +
		"and errors, and sends, from one goroutine, while its peer sends ahead; a transport that holds a write while the peer sends; two managers that send to each other at once; schedule perturbed, under the race detector; distinct by messages, " +
		"part and style; non-trivial when something was sent")
	styles := []string{"answers each item", "sends before it takes each item", "sends much before it takes anything"}
	for i := range r.Cases(0, r.N(1200, 12000)) {
		rng := r.Rng(i)
		kind := kinds[i%3]
		style := i / 3 % len(styles)
		feed := make(chan *chunk.Chunk)
		sink := kit.NewFlaky()
		p, run := build(kind, feed, chunk.NewWriter(sink, 4096))
		nin := 2 + rng.Intn(15)
		var msgs []kit.Msg
		var want []string
		bad := 0
		picky := rng.Intn(2) == 0
		for k := 0; k < nin; k++ {
			m, v := p.genIn(rng)
			for v == "" && picky {
				m, v = p.genIn(rng)
			}
			msgs = append(msgs, m)
			if v == "" {
				bad++
			} else {
				want = append(want, v)
			}
		}
		script := make([][]func(), nin)
		sent := 0
		for k := range script {
			n := rng.Intn(3)
			if style == 2 {
				if n = 0; k == 0 {
					n = 1 + rng.Intn(40)
				}
			}
			for ; n > 0; n-- {
				f, m := p.genOut(rng)
				script[k] = append(script[k], f)
				sink.Next(rng, kit.Encode(4096, m), false)
				sent++
			}
		}
		r.Scenario("%s: an application that %s, in one loop, %d messages of the peer ahead (%d bad), %d to send", p.name, styles[style], nin, bad, sent)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { run(); close(done) }()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range msgs {
				feed <- m.Chunk()
			}
		}()
		var got []string
		errs := 0
		one := func() {
			v, err, ok := p.take()
			switch {
			case !ok:
				r.Fail("%s ended by itself", p.name)
			case err != nil:
				errs++
			default:
				got = append(got, v)
			}
		}
		if style == 2 || rng.Intn(4) == 0 {
			if i%16 < 4 {
				r.Quiesce()
				r.Count("waiting_at_rest", 1)
			} else {
				maybe(r, rng)
			}
		}
		for _, fs := range script {
			if style == 0 {
				one()
			}
			for _, f := range fs {
				f()
			}
			if style != 0 {
				one()
			}
		}
		r.Quiesce()
		wg.Wait()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || errs != bad {
			r.Fail("%s received %q and %d errors, want %q and %d", p.name, got, errs, want, bad)
		}
		if d := kit.DiffBytes(sink.Want, sink.Bytes()); d != "" {
			r.Fail("%s: sent by an application that %s: %s", p.name, styles[style], d)
		}
		p.close()
		<-done
		r.Eval(sent > 0, kind, style, fmt.Sprint(want), sink.Want)
		r.Count("sent_by_"+kind, sent)
		r.Count(styles[style], sent)
		if i < 3 {
			r.Sample("%s: %s, %d messages ahead (%d bad), sends %d", p.name, styles[style], nin, bad, sent)
		}
	}
	// whole sessions
	for i := range r.Cases(1_000_000, r.N(120, 1200)) {
		rng := r.Rng(i)
		e := newEnds(r, rng, 20+rng.Intn(40))
		l := newLink(rng, kit.Bytes(rng, 1536), e.bytes)
		r.Scenario("session with %d messages, %d bytes, all parts served by one loop", e.total, len(e.bytes))
		c := client.New(l)
		e.use(c, l.out)
		r.Arm(rng)
		if err := c.Handshake(); err != nil {
			r.Fail("handshake: %v", err)
		}
		e.rw.Add(2)
		go func() { defer e.rw.Done(); c.Controls().Recv() }()
		go func() { defer e.rw.Done(); c.Net().Dispatch(true) }()
		if rng.Intn(4) == 0 {
			r.Quiesce()
		}
		e.announce()
		r.Quiesce() // both are written before anything else is
		left := [4][]func(){e.sends[0], e.sends[1], e.sends[2], e.sends[3]}
		answer := func() {
			for n := rng.Intn(3); n > 0; n-- {
				if j := rng.Intn(4); len(left[j]) > 0 {
					left[j][0]()
					left[j] = left[j][1:]
				}
			}
		}
		cs, nc, ns, ds := c.Controls(), c.Net().NetConn(), c.Net().NetStream(), c.Net().DataStream()
		for k := 0; k < e.items; k++ {
			on := func(j int, v string) { e.got[j] = append(e.got[j], v) }
			var err error
			select {
			case x := <-cs.In():
				on(3, controlValue(x))
			case x := <-nc.In():
				on(0, connValue(x))
			case x := <-ns.In():
				on(1, streamValue(x))
			case x := <-ds.Out():
				on(2, dataValue(x))
			case err = <-cs.Errs():
			case err = <-nc.Errs():
			case err = <-ns.Errs():
			case err = <-ds.Errs():
			}
			if err != nil {
				r.Fail("reported in a session without faults: %v", err)
			}
			answer()
		}
		for _, fs := range left {
			for _, f := range fs {
				f()
			}
		}
		l.wg.Wait()
		r.Quiesce()
		r.End()
		e.judge()
		e.close()
		l.Cut(kit.ErrCut)
		r.Eval(e.all, e.bytes, e.order)
		r.Count("sessions", 1)
	}
	// receiving while a write waits for the transport
	for i := range r.Cases(2_000_000, r.N(400, 4000)) {
		rng := r.Rng(i)
		kind := kinds[i%3]
		nin, nout := 1+rng.Intn(20), 1+rng.Intn(5)
		feed := make(chan *chunk.Chunk)
		sink := &gate{Sink: kit.NewSink(), at: rng.Intn(nout), held: make(chan struct{}), open: make(chan struct{})}
		p, run := build(kind, feed, chunk.NewWriter(sink, 4096))
		r.Scenario("%s whose transport does not take item %d of %d, %d messages of the peer meanwhile", p.name, sink.at, nout, nin)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { run(); close(done) }()
		var enc []byte
		var outs []func()
		for k := 0; k < nout; k++ {
			f, m := p.genOut(rng)
			outs = append(outs, f)
			enc = append(enc, kit.Encode(4096, m)...)
		}
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for _, f := range outs {
				f()
			}
		}()
		<-sink.held
		var want, got []string
		var msgs []kit.Msg
		bad, errs := 0, 0
		for k := 0; k < nin; k++ {
			m, v := p.genIn(rng)
			if v == "" {
				bad++
			} else {
				want = append(want, v)
			}
			msgs = append(msgs, m)
		}
		go func() {
			defer wg.Done()
			for _, m := range msgs {
				feed <- m.Chunk()
			}
		}()
		for range msgs {
			switch v, err, ok := p.take(); {
			case !ok:
				r.Fail("%s ended by itself", p.name)
			case err != nil:
				errs++
			default:
				got = append(got, v)
			}
		}
		close(sink.open)
		wg.Wait()
		r.Quiesce()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || errs != bad {
			r.Fail("%s received %q and %d errors while a write waited, want %q and %d", p.name, got, errs, want, bad)
		}
		if d := kit.DiffBytes(enc, sink.Bytes()); d != "" {
			r.Fail("%s: sent around a write that waited: %s", p.name, d)
		}
		p.close()
		<-done
		r.Eval(true, "held", kind, sink.at, fmt.Sprint(want), enc)
		r.Count("received_while_a_write_waited", nin)
	}
	// two managers that send to each other over a transport without a buffer
	for i := range r.Cases(3_000_000, r.N(100, 1000)) {
		rng := r.Rng(i)
		n := 3 + rng.Intn(25)
		r.Scenario("two managers whose parts send each other %d items at once", n)
		type end struct {
			in   *kit.Pipe
			p    *chunk.Parser
			m    *cmd.Manager
			data []func()
			conn []func()
			want []string // frames that the other end sends
			got  []string
			errs int
		}
		ends := [2]*end{{in: kit.NewPipe(0)}, {in: kit.NewPipe(0)}}
		for k, e := range ends {
			e.p = chunk.NewParser(chunk.NewReader(e.in, 4096, chunk.NewNormalizer()))
			st, _ := e.p.Stream(3, 4, 5, 8)
			e.m = cmd.New(st, chunk.NewWriter(feeder{ends[1-k].in}, 4096))
			dp, cp := dataPump(e.m.DataStream()), connPump(e.m.NetConn())
			for len(e.data) < n {
				f, m := dp.genOut(rng)
				x, err := data.DefaultParser.Parse(m.Chunk())
				if err != nil {
					r.Fail("%v", err)
				}
				e.data = append(e.data, f)
				ends[1-k].want = append(ends[1-k].want, dataValue(x))
				f, _ = cp.genOut(rng)
				e.conn = append(e.conn, f)
			}
		}
		r.Arm(rng)
		var wg, run sync.WaitGroup
		for _, e := range ends {
			run.Add(2)
			go func() { defer run.Done(); e.p.Recv() }()
			go func() { defer run.Done(); e.m.Dispatch(true) }()
			for _, fs := range [][]func(){e.data, e.conn} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, f := range fs {
						f()
					}
				}()
			}
			wg.Add(2)
			go func() {
				defer wg.Done()
				for len(e.got) < n {
					select {
					case x := <-e.m.DataStream().Out():
						e.got = append(e.got, dataValue(x))
					case err := <-e.m.DataStream().Errs():
						r.Fail("data stream: %v", err)
					}
				}
			}()
			go func() { // responses are not requests
				defer wg.Done()
				for e.errs < n {
					select {
					case <-e.m.NetConn().Errs():
						e.errs++
					case x := <-e.m.NetConn().In():
						r.Fail("a response was received as %s", connValue(x))
					}
				}
			}()
		}
		wg.Wait()
		r.Quiesce()
		for _, e := range ends {
			if fmt.Sprintf("%q", e.got) != fmt.Sprintf("%q", e.want) {
				r.Fail("received %q from a manager that sends at the same time, want %q", e.got, e.want)
			}
			e.m.Close()
			e.in.Cut(kit.ErrCut)
			e.p.Close()
		}
		run.Wait()
		r.Eval(true, "both", n, fmt.Sprint(ends[0].want, ends[1].want))
		r.Count("sent_both_ways", 4*n)
	}
	r.Need("received_while_a_write_waited", 1000)
	r.Need("sent_both_ways", 1000)
	for _, k := range kinds {
		r.Need("sent_by_"+k, 300)
	}
	for _, s := range styles {
		r.Need(s, 300)
	}
	r.Need("waiting_at_rest", 50)
	r.Need("sessions", 50)
}

// gate is a transport that holds one write until it is opened.
type gate struct {
	*kit.Sink
	at, k      int
	held, open chan struct{}
}

func (g *gate) Write(b []byte) (int, error) {
	if g.k++; g.k-1 == g.at {
		close(g.held)
		<-g.open
	}
	return g.Sink.Write(b)
}

// feeder writes into a pipe.
type feeder struct{ p *kit.Pipe }

func (f feeder) Write(b []byte) (int, error) {
	f.p.Feed(append([]byte(nil), b...))
	return len(b), nil
}
