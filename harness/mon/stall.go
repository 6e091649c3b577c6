package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// This file holds the cases in which a party pauses for seconds. None of the
// properties allows for a time limit. The sessions of one case run side by
// side.

const stallBase = 9_000_000

// stallReads: a reader whose transport or consumer pauses at one point.
func stallReads(r *kit.R, sizes, aborts bool) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("sessions in which the transport or the consumer pauses for %v", r.Stall())
		var fs []func()
		for k := 0; k < 48; k++ {
			size := 1 + rng.Intn(100)
			s := newScenario(rng, size, 1+rng.Intn(4), 400)
			for has(s.ids, 2) {
				s.ids = kit.CSIDs(rng, len(s.ids))
			}
			var mid []int // offsets at which some message is unfinished
			for j := 0; j < 25; j++ {
				at := len(s.e.B)
				switch {
				case sizes && rng.Intn(6) == 0:
					s.setSize(uint32(1 + rng.Intn(200)))
				case aborts && rng.Intn(6) == 0 && len(s.open) > 0:
					s.abort(s.open[rng.Intn(len(s.open))].M.CSID)
				default:
					s.step(rng.Intn(3) > 0)
				}
				if len(s.open) > 0 {
					mid = append(mid, at+1, len(s.e.B))
				}
			}
			s.drain()
			src := &kit.StallSrc{R: r, B: s.e.B, At: rng.Intn(len(s.e.B) + 1), End: kit.ErrCut}
			if k%2 == 0 && len(mid) > 0 {
				src.At = mid[rng.Intn(len(mid))]
			}
			slow := -1
			if k%6 == 5 {
				src.At, slow = -1, rng.Intn(len(s.want)+1)
			}
			fs = append(fs, func() {
				what := fmt.Sprintf("transport pausing for %v at byte %d of %d", r.Stall(), src.At, len(src.B))
				if slow >= 0 {
					what = fmt.Sprintf("consumer pausing for %v before event %d of %d", r.Stall(), slow, len(s.want))
				}
				rd := kit.NewReader(src, size)
				var got []event
				for done := false; !done; {
					if len(got) == slow {
						r.Pause(r.Stall())
						slow = -1
					}
					select {
					case c := <-rd.Chunks():
						got = append(got, event{c: c})
					case err := <-rd.Errs():
						if done = errors.Is(err, kit.ErrCut); !done {
							got = append(got, event{err: err})
						}
					}
					if len(got) > len(src.B)+10 {
						r.Fail("%s: %d events for %d bytes", what, len(got), len(src.B))
					}
				}
				compare(r, what, s.want, got)
				kit.StopReader(rd)
				r.Eval(true, what, src.B)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 40)
}

// stallWrites: writers whose transport pauses; others wait for it meanwhile.
func stallWrites(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("sessions in which the transport takes %v for one write", r.Stall())
		var fs []func()
		for k := 0; k < 24; k++ {
			size := 1 + rng.Intn(100)
			g := 2 + rng.Intn(4)
			plan := make([][]kit.Msg, g)
			for a := range plan {
				for j := 0; j < 5; j++ {
					m := kit.Message(rng, kit.CSID(rng), size, 400)
					m.MSID = uint32(a)<<16 | uint32(j)
					plan[a] = append(plan[a], m)
				}
			}
			sink := &kit.StallSink{Sink: kit.NewSink(), R: r, At: rng.Intn(1200)}
			fs = append(fs, func() {
				what := fmt.Sprintf("transport pausing for %v at byte %d", r.Stall(), sink.At)
				w := chunk.NewWriter(sink, size)
				var ws []func()
				for _, ms := range plan {
					ws = append(ws, func() {
						for _, m := range ms {
							if err := w.Write(m.Chunk()); err != nil {
								r.Fail("%s: Write: %v", what, err)
							}
						}
					})
				}
				kit.Together(ws...)
				d := kit.NewDec(size, sink.Bytes())
				next := make([]int, g)
				for n := 0; ; n++ {
					m, err := d.Next()
					if err != nil {
						r.Fail("%s: the wire is malformed after %d messages: %v", what, n, err)
					}
					if m == nil {
						break
					}
					a := int(m.MSID >> 16)
					if a >= g || next[a] >= len(plan[a]) {
						r.Fail("%s: the wire carries a message nobody wrote: %v", what, m)
					}
					if df := kit.SameMsg(plan[a][next[a]], *m); df != "" {
						r.Fail("%s: goroutine %d's message %d: %s", what, a, next[a], df)
					}
					next[a]++
				}
				for a := range next {
					if next[a] != len(plan[a]) {
						r.Fail("%s: goroutine %d: %d of %d messages on the wire", what, a, next[a], len(plan[a]))
					}
				}
				for k, x := range d.Wires {
					if !x.First && d.Wires[k-1].CSID != x.CSID {
						r.Fail("%s: a message is interrupted by a chunk of chunk stream %d", what, x.CSID)
					}
				}
				r.Eval(true, what, sink.B)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 20)
}

// stallRoutes: a parser with one consumer pausing before one of its items, a
// stream asked for only after a pause, or an error nobody takes for a while.
func stallRoutes(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("sessions in which one consumer pauses for %v", r.Stall())
		var fs []func()
		for k := 0; k < 40; k++ {
			kind := k % 4 // single, combined, error, late request
			e := kit.NewEnc(64)
			ids := []uint32{3, 4, 5, 64, 320}
			want := map[uint32][]kit.Msg{}
			bad := 0
			n := 12 + rng.Intn(20)
			for j := 0; j < n; j++ {
				if kind == 2 && rng.Intn(6) == 0 {
					e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}})
					bad++
				}
				id := ids[rng.Intn(len(ids))]
				if kind == 3 && id == 3 && j < n-1 && len(want[3]) >= 0 {
					// several messages of the stream nobody has asked for yet would
					// only pile up behind the first
					id = 4
				}
				m := e.All(tagged(rng, id, j, 200))
				want[id] = append(want[id], m)
			}
			if kind == 3 {
				m := e.All(tagged(rng, 3, n, 200))
				want[3] = append(want[3], m)
			}
			at := rng.Intn(4)
			fs = append(fs, func() {
				what := fmt.Sprintf("consumer of kind %d pausing for %v before item %d", kind, r.Stall(), at)
				src := &kit.Src{B: e.B, End: kit.ErrCut}
				p := chunk.NewParser(chunk.NewReader(src, 64, chunk.NewNormalizer()))
				var wg sync.WaitGroup
				take := func(st chunk.Stream, group []uint32, slow int) {
					total := 0
					for _, id := range group {
						total += len(want[id])
					}
					next := map[uint32]int{}
					for j := 0; j < total; j++ {
						if j == min(slow, total-1) {
							r.Pause(r.Stall())
						}
						c, ok := <-st.In()
						if !ok {
							r.Fail("%s: the stream of %v ended after %d of %d messages", what, group, j, total)
						}
						id := c.StreamId()
						if !has(group, id) || next[id] >= len(want[id]) {
							r.Fail("%s: the consumer of %v received %s", what, group, desc(c))
						}
						if d := kit.Diff(want[id][next[id]], c); d != "" {
							r.Fail("%s: item %d of chunk stream %d: %s", what, next[id], id, d)
						}
						next[id]++
					}
				}
				open := func(slow int, group ...uint32) {
					st, err := p.Stream(group...)
					if err != nil {
						r.Fail("%s: Stream(%v): %v", what, group, err)
					}
					wg.Add(1)
					go func() { defer wg.Done(); take(st, group, slow) }()
				}
				slow := func(k int) int {
					if k == kind {
						return at
					}
					return -1
				}
				open(slow(1), 4, 64, 320)
				open(-1, 5)
				if kind != 3 {
					open(slow(0), 3)
				} else {
					wg.Add(1)
					go func() {
						defer wg.Done()
						r.Pause(r.Stall())
						open(-1, 3)
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; ; j++ {
						if kind == 2 && j == min(at, bad) {
							r.Pause(r.Stall())
						}
						err := <-p.Errs()
						if errors.Is(err, kit.ErrCut) {
							if j != bad {
								r.Fail("%s: %d errors forwarded, want %d", what, j, bad)
							}
							return
						}
					}
				}()
				go p.Recv()
				wg.Wait()
				go func() {
					for range p.Errs() {
					}
				}()
				p.Close()
				r.Eval(true, what, e.B)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 30)
}

// stallFanIn: a source or the consumer of a combined stream pauses.
func stallFanIn(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("combined streams with a source or consumer pausing for %v", r.Stall())
		var fs []func()
		for k := 0; k < 24; k++ {
			n := 1 + rng.Intn(4)
			cnt := make([]int, n)
			total := 0
			for a := range cnt {
				cnt[a] = 1 + rng.Intn(6)
				total += cnt[a]
			}
			slowSrc, slowAt, slowIn := -1, 0, -1
			if k%2 == 0 {
				slowSrc = rng.Intn(n)
				slowAt = rng.Intn(cnt[slowSrc] + 1)
			} else {
				slowIn = rng.Intn(total + 1)
			}
			fs = append(fs, func() {
				m := chunk.NewMultiStream()
				var wg sync.WaitGroup
				for a := range cnt {
					s := make(fakeStream)
					m.Append(s)
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j <= cnt[a]; j++ {
							if a == slowSrc && j == slowAt {
								r.Pause(r.Stall())
							}
							if j < cnt[a] {
								s <- kit.Msg{CSID: uint32(3 + a), MSID: uint32(j)}.Chunk()
							}
						}
						close(s)
					}()
				}
				done := make(chan struct{})
				go func() { m.AwaitClose(); close(done) }()
				next := make([]int, n)
				got := 0
				for {
					if got == slowIn {
						r.Pause(r.Stall())
						slowIn = -1
					}
					c, ok := <-m.In()
					if !ok {
						break
					}
					a := int(c.StreamId()) - 3
					if a < 0 || a >= n || int(c.Header.MessageHeader.StreamId) != next[a] {
						r.Fail("a pause of %v (source %d before message %d): unexpected message %s", r.Stall(), slowSrc, slowAt, desc(c))
					}
					next[a]++
					got++
				}
				<-done
				wg.Wait()
				if got != total {
					r.Fail("a pause of %v (source %d before message %d): %d of %d messages delivered before the end", r.Stall(), slowSrc, slowAt, got, total)
				}
				r.Eval(true, "pause", k, cnt)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 20)
}

// stallCloses: what is closed has been idle or blocked for a while.
func stallCloses(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("closing after %v of being idle or blocked", r.Stall())
		var fs []func()
		for k := 0; k < 18; k++ {
			parser, sit := k%2 == 0, k/2%3
			data := kit.NewEnc(64)
			data.All(kit.Message(rng, 3, 64, 200))
			fs = append(fs, func() {
				pipe := kit.NewPipe(8)
				rd := chunk.NewReader(pipe, 64, chunk.NewNormalizer())
				p := chunk.NewParser(rd)
				st, _ := p.Stream(3)
				done := make(chan struct{})
				go func() {
					if parser {
						p.Recv()
					} else {
						rd.Recv()
					}
					close(done)
				}()
				switch sit {
				case 1:
					pipe.Feed(data.B)
				case 2:
					e := kit.NewEnc(64)
					e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}})
					pipe.Feed(e.B)
				}
				r.Pause(r.Stall())
				if parser {
					p.Close()
				} else {
					rd.Close()
				}
				pipe.Cut(kit.ErrCut)
				<-done
				if parser {
					for n := 0; ; n++ {
						if _, ok := <-st.In(); !ok {
							break
						} else if n > 1 {
							r.Fail("the stream keeps delivering after Close")
						}
					}
				}
				r.Eval(true, "pause", k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
		r.Quiesce()
		if l := kit.Running("rtmp/chunk."); len(l) > 0 {
			r.Fail("goroutine left after close:\n%s", l[0])
		}
	}
	r.Need("paused_sessions", 15)
}

// slowPeer pauses before one byte of its handshake.
type slowPeer struct {
	*peer
	r    *kit.R
	at   int
	wat  int
	did  bool
	wdid bool
}

func (p *slowPeer) Read(b []byte) (int, error) {
	if !p.did && p.style.Off <= p.at {
		if p.style.Off == p.at {
			p.did = true
			p.r.Pause(p.r.Stall())
		} else if len(b) > p.at-p.style.Off {
			b = b[:p.at-p.style.Off]
		}
	}
	return p.peer.Read(b)
}

func (p *slowPeer) Write(b []byte) (int, error) {
	if !p.wdid && p.wat >= 0 && len(p.out.B)+len(b) > p.wat {
		p.wdid = true
		p.r.Pause(p.r.Stall())
	}
	return p.peer.Write(b)
}

// stallShakes: a peer pausing during its handshake.
func stallShakes(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("handshakes with a pause of %v", r.Stall())
		var fs []func()
		for k := 0; k < 32; k++ {
			at := []int{0, 1, 2, 700, 1536, 1537, 1538, 2000, 3072}[k%9]
			wat := -1
			if k%3 == 2 {
				wat = []int{0, 1, 1537}[k/3%3]
				at = -1
			}
			good := k%4 != 1
			c1 := kit.Bytes(rng, 1536)
			f := ident
			if !good {
				f = func(s1 []byte) []byte {
					x := append([]byte(nil), s1...)
					x[1000] ^= 4
					return x
				}
			}
			sp := &slowPeer{peer: newPeer(3, c1, f, &kit.Src{}), r: r, at: at, wat: wat}
			sp.after = kit.Bytes(rng, 20)
			fs = append(fs, func() {
				what := fmt.Sprintf("a peer pausing for %v before sending byte %d (before taking byte %d)", r.Stall(), at, wat)
				err := handshake.With(&handshake.Param{Conn: sp}).Handshake()
				if (err == nil) != good {
					r.Fail("%s, correct echo %v: %v", what, good, err)
				}
				if len(sp.out.B) != echoEnd || sp.style.Off != echoEnd {
					r.Fail("%s: %d bytes sent, %d consumed", what, len(sp.out.B), sp.style.Off)
				}
				if d := kit.DiffBytes(c1[8:], sp.out.B[1+1536+8:]); d != "" {
					r.Fail("%s: S2 does not echo C1: %s", what, d)
				}
				r.Eval(true, "pause", k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 30)
}

// pauser wraps a transport, pausing before its nth write.
type pauser struct {
	*kit.Flaky
	r  *kit.R
	at int
	k  int
}

func (p *pauser) Write(b []byte) (int, error) {
	if p.k++; p.k-1 == p.at {
		p.r.Pause(p.r.Stall())
	}
	return p.Flaky.Write(b)
}

// stallControls: a control stream whose source, transport or consumers pause.
func stallControls(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("control streams with a pause of %v", r.Stall())
		var fs []func()
		for k := 0; k < 30; k++ {
			kind := k % 5 // source, transport, consumer of messages, consumer of errors, sender
			var feed []*chunk.Chunk
			var want []string
			bad, werr := 0, 0
			for j := 0; j < 10; j++ {
				c, t, body := genControl(rng)
				if rng.Intn(3) == 0 {
					bad++
					t, body = malformed(rng, t, body)
				} else {
					want = append(want, value(c))
				}
				feed = append(feed, kit.Msg{CSID: 2, Type: t, Data: body}.Chunk())
			}
			fl := kit.NewFlaky()
			var outs []control.Control
			for j := 0; j < 10; j++ {
				c, t, body := genControl(rng)
				outs = append(outs, c)
				fl.Next(rng, kit.Encode(4096, kit.Msg{CSID: 2, Type: t, Data: body}), rng.Intn(4) == 0)
			}
			werr = len(fl.Errs)
			at := rng.Intn(4)
			on := func(k int) int {
				if k == kind {
					return at
				}
				return -1
			}
			sink := &pauser{Flaky: fl, r: r, at: on(1)}
			fs = append(fs, func() {
				what := fmt.Sprintf("control stream, party %d pausing for %v", kind, r.Stall())
				src := make(fakeStream)
				s := control.NewStream(src, chunk.NewWriter(sink, 4096), control.NewParser(), control.NewChunker())
				done := make(chan struct{})
				go func() { s.Recv(); close(done) }()
				var got []string
				var errs int
				kit.Together(
					func() {
						for j, c := range feed {
							if j == on(0) {
								r.Pause(r.Stall())
							}
							src <- c
						}
					},
					func() {
						for j, c := range outs {
							if j == on(4) {
								r.Pause(r.Stall())
							}
							s.Out() <- c
						}
					},
					func() {
						for len(got) < len(want) {
							if len(got) == on(2) {
								r.Pause(r.Stall())
							}
							c, ok := <-s.In()
							if !ok {
								r.Fail("%s: the stream ended", what)
							}
							got = append(got, value(c))
						}
					},
					func() {
						for errs < bad+werr {
							if errs == on(3) {
								r.Pause(r.Stall())
							}
							if err, ok := <-s.Errs(); !ok || err == nil {
								r.Fail("%s: error %v", what, err)
							}
							errs++
						}
					},
				)
				// what was handed over may still be on its way to the transport
				for t := time.Now(); time.Since(t) < time.Minute && len(sink.Bytes()) < len(fl.Want); {
					r.Pause(10 * time.Millisecond)
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Fail("%s: received %v, want %v", what, got, want)
				}
				if d := kit.DiffBytes(fl.Want, sink.Bytes()); d != "" {
					r.Fail("%s: outgoing messages on the wire: %s", what, d)
				}
				select {
				case c := <-s.In():
					r.Fail("%s: surplus message %v", what, c)
				case err := <-s.Errs():
					r.Fail("%s: surplus error %v", what, err)
				default:
				}
				stopControl(s)
				<-done
				r.Eval(true, what, k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 25)
}

// stallControlCloses: a control stream closed after having been idle or blocked
// for a while.
func stallControlCloses(r *kit.R) {
	for range r.Cases(stallBase, 1) {
		r.Scenario("closing control streams after %v", r.Stall())
		var fs []func()
		for k := 0; k < 12; k++ {
			fs = append(fs, func() {
				src := make(fakeStream)
				s := control.NewStream(src, chunk.NewWriter(kit.Fails(), 128), control.NewParser(), control.NewChunker())
				done := make(chan struct{})
				go func() { s.Recv(); close(done) }()
				switch k % 4 {
				case 1:
					src <- kit.Msg{CSID: 2, Type: 5, Data: []byte{0, 1, 2, 3}}.Chunk()
				case 2:
					src <- kit.Msg{CSID: 2, Type: 99}.Chunk()
				case 3:
					s.Out() <- &control.WindowAckSize{WindowAckSize: 1}
				}
				r.Pause(r.Stall())
				s.Close()
				<-done
				for n := 0; ; n++ {
					if _, ok := <-s.In(); !ok {
						break
					} else if n > 1 {
						r.Fail("messages keep coming after Close")
					}
				}
				for n := 0; ; n++ {
					if _, ok := <-s.Errs(); !ok {
						break
					} else if n > 1 {
						r.Fail("errors keep coming after Close")
					}
				}
				r.Eval(true, "pause", k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
		r.Quiesce()
		if l := kit.Running("WatchBeam/rtmp/control."); len(l) > 0 {
			r.Fail("goroutine left after close:\n%s", l[0])
		}
	}
	r.Need("paused_sessions", 10)
}
