package main

import (
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/server"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// This file holds the cases in which a party pauses for seconds. None of the
// properties allows for a time limit. The sessions of one case run side by
// side.

const stallBase = 9_000_000

// pauser wraps a transport, pausing before its nth write.
type pauser struct {
	*kit.Flaky
	r  *kit.R
	at int
	k  int
}

func (p *pauser) Write(b []byte) (int, error) {
	if p.k++; p.k-1 == p.at {
		p.r.Pause(p.r.Stall())
	}
	return p.Flaky.Write(b)
}

// takeN consumes items until n have come, pausing before the one numbered at.
func takeN(r *kit.R, p *pump, n, at int) []string {
	var got []string
	if n == 0 {
		return nil
	}
	stop := make(chan struct{})
	if at >= n {
		at = n - 1
	}
	if at == 0 {
		r.Pause(r.Stall())
	}
	p.consume(func(s string) {
		got = append(got, s)
		if len(got) == at {
			r.Pause(r.Stall())
		}
		if len(got) == n {
			close(stop)
		}
		if len(got) > n {
			r.Fail("%s: surplus item %s", p.name, s)
		}
	}, stop)
	return got
}

func takeErrs(r *kit.R, p *pump, n, at int) {
	for k := 0; k < n; k++ {
		if k == min(at, n-1) {
			r.Pause(r.Stall())
		}
		if err, ok := <-p.errs; !ok || err == nil {
			r.Fail("%s: error %v", p.name, err)
		}
	}
}

// settle waits until n bytes have been written, or nothing more comes.
func settle(r *kit.R, s *kit.Sink, n int) {
	for t := time.Now(); time.Since(t) < time.Minute && len(s.Bytes()) < n; {
		r.Pause(10 * time.Millisecond)
	}
}

// stallPumps: command streams whose source, transport, sender or consumers
// pause.
func stallPumps(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("command streams with a pause of %v", r.Stall())
		var fs []func()
		for k := 0; k < 30; k++ {
			kind, who := kinds[k%3], k/3%5
			feed := make(chan *chunk.Chunk)
			sink := &pauser{Flaky: kit.NewFlaky(), r: r, at: -1}
			p, run := build(kind, feed, chunk.NewWriter(sink, 4096))
			var msgs []kit.Msg
			var want []string
			bad, werr := 0, 0
			for j := 0; j < 10; j++ {
				m, v := p.genIn(rng)
				msgs = append(msgs, m)
				if v == "" {
					bad++
				} else {
					want = append(want, v)
				}
			}
			var sends []func()
			for j := 0; j < 8; j++ {
				f, m := p.genOut(rng)
				sends = append(sends, f)
				sink.Next(rng, kit.Encode(4096, m), rng.Intn(4) == 0)
			}
			werr = len(sink.Errs)
			at := rng.Intn(4)
			on := func(k int) int {
				if k == who {
					return at
				}
				return -1
			}
			sink.at = on(1)
			fs = append(fs, func() {
				what := fmt.Sprintf("%s, party %d pausing for %v", p.name, who, r.Stall())
				done := make(chan struct{})
				go func() { run(); close(done) }()
				var got []string
				kit.Together(
					func() {
						for j, m := range msgs {
							if j == on(0) {
								r.Pause(r.Stall())
							}
							feed <- m.Chunk()
						}
					},
					func() {
						for j, f := range sends {
							if j == on(4) {
								r.Pause(r.Stall())
							}
							f()
						}
					},
					func() { got = takeN(r, p, len(want), on(2)) },
					func() { takeErrs(r, p, bad+werr, on(3)) },
				)
				settle(r, sink.Sink, len(sink.Want))
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					r.Fail("%s: received %q, want %q", what, got, want)
				}
				if d := kit.DiffBytes(sink.Want, sink.Bytes()); d != "" {
					r.Fail("%s: outgoing messages on the wire: %s", what, d)
				}
				select {
				case err := <-p.errs:
					r.Fail("%s: surplus error %v", what, err)
				default:
				}
				p.close()
				<-done
				r.Eval(true, what, k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 25)
}

// stallManager: a manager one of whose parts is not consumed for a while.
func stallManager(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("managers one of whose consumers pauses for %v", r.Stall())
		var fs []func()
		for k := 0; k < 24; k++ {
			who, at := k%7, rng.Intn(4)
			src := make(source)
			m := cmd.New(src, chunk.NewWriter(kit.NewSink(), 4096))
			var feed []kit.Msg
			want := [3][]string{}
			bad := [3]int{}
			for j := 0; j < 30; j++ {
				var x kit.Msg
				var v string
				switch rng.Intn(3) {
				case 0:
					x, v = genConn(rng)
				case 1:
					x, v = genStream(rng)
				case 2:
					x, v = genData(rng)
				}
				a, b, d := where(x.CSID, x.MSID, x.Type)
				for j, on := range []bool{a, b, d} {
					if on && v == "" {
						bad[j]++
					} else if on {
						want[j] = append(want[j], v)
					}
				}
				feed = append(feed, x)
			}
			fs = append(fs, func() {
				what := fmt.Sprintf("manager, party %d pausing for %v before item %d", who, r.Stall(), at)
				done := make(chan struct{})
				go func() { m.Dispatch(true); close(done) }()
				ps := []*pump{connPump(m.NetConn()), streamPump(m.NetStream()), dataPump(m.DataStream())}
				var got [3][]string
				gs := []func(){func() {
					for j, x := range feed {
						if who == 6 && j == at {
							r.Pause(r.Stall())
						}
						src <- x.Chunk()
					}
				}}
				for j, p := range ps {
					a, b := -1, -1
					if who == j {
						a = at
					}
					if who == j+3 {
						b = at
					}
					gs = append(gs, func() { got[j] = takeN(r, p, len(want[j]), a) }, func() { takeErrs(r, p, bad[j], b) })
				}
				kit.Together(gs...)
				for j, p := range ps {
					if fmt.Sprintf("%q", got[j]) != fmt.Sprintf("%q", want[j]) {
						r.Fail("%s: %s received %q, want %q", what, p.name, got[j], want[j])
					}
					select {
					case err := <-p.errs:
						r.Fail("%s: %s: surplus error %v", what, p.name, err)
					default:
					}
				}
				m.Close()
				<-done
				r.Eval(true, what, k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 20)
}

// stallPartCloses: parts closed after having been idle or blocked for a while.
func stallPartCloses(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("closing command streams after %v", r.Stall())
		var fs []func()
		for k := 0; k < 24; k++ {
			sit := k / 4 % 4
			feed := make(source)
			w := chunk.NewWriter(kit.Fails(), 4096)
			var ps []*pump
			var run, closeAll func()
			if k%4 == 3 {
				m := cmd.New(feed, w)
				ps = []*pump{connPump(m.NetConn()), streamPump(m.NetStream()), dataPump(m.DataStream())}
				run, closeAll = func() { m.Dispatch(true) }, m.Close
			} else {
				p, f := build(kinds[k%4], feed, w)
				ps, run, closeAll = []*pump{p}, f, p.close
			}
			var in kit.Msg
			for {
				m, v := ps[0].genIn(rng)
				if (v != "") == (sit == 1) {
					in = m
					break
				}
			}
			out, _ := ps[0].genOut(rng)
			fs = append(fs, func() {
				done := make(chan struct{})
				go func() { run(); close(done) }()
				switch sit {
				case 1, 2:
					feed <- in.Chunk()
				case 3:
					out()
				}
				r.Pause(r.Stall())
				closeAll()
				<-done
				r.Eval(true, "pause", k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
		r.Quiesce()
		if l := kit.Running("WatchBeam/rtmp/cmd"); len(l) > 0 {
			r.Fail("goroutine left after close:\n%s", l[0])
		}
	}
	r.Need("paused_sessions", 20)
}

// stallSessions: whole sessions in which the peer or one consumer pauses.
func stallSessions(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("sessions with a pause of %v", r.Stall())
		var fs []func()
		for k := 0; k < 30; k++ {
			e := kit.NewEnc(128)
			var want [4]map[uint32][]string
			for j := range want {
				want[j] = map[uint32][]string{}
			}
			for j := 0; j < 30; j++ {
				var m kit.Msg
				var v string
				switch rng.Intn(4) {
				case 0:
					_, m, v = genControl(rng)
				case 1:
					m, v = genConn(rng)
				case 2:
					m, v = genStream(rng)
				case 3:
					m, v = genData(rng)
				}
				if v != "" {
					route(&want, e.All(m), v)
				}
			}
			c1 := kit.Bytes(rng, 1536)
			who := k % 6 // peer, or one of the four consumers
			at := []int{0, 1, 700, 1537, 3072, 3073, 3080, 3073 + rng.Intn(len(e.B)), 3073 + rng.Intn(len(e.B)), 3073 + rng.Intn(len(e.B))}[k%10]
			item := rng.Intn(4)
			fs = append(fs, func() {
				what := fmt.Sprintf("session, party %d pausing for %v at byte %d or item %d", who, r.Stall(), at, item)
				l := &link{Pipe: kit.NewPipe(4), out: kit.NewSink(), mute: true}
				all := append([]byte{3}, c1...)
				if who >= 4 {
					who = 4
				}
				go func() {
					a := min(at, 1537)
					part := func(b []byte, cut int) {
						if who == 4 && cut >= 0 && cut < len(b) {
							l.Feed(b[:cut])
							r.Pause(r.Stall())
							l.Feed(b[cut:])
							return
						}
						l.Feed(b)
					}
					if at >= 1537 {
						a = -1
					}
					part(all, a)
					for len(l.out.Bytes()) < 1537 {
						r.Pause(time.Millisecond)
					}
					part(append(l.out.Bytes()[1:1537:1537], e.B...), at-1537)
				}()
				c := client.New(l)
				if err := c.Handshake(); err != nil {
					r.Fail("%s: handshake: %v", what, err)
				}
				var rw sync.WaitGroup
				rw.Add(2)
				go func() { defer rw.Done(); c.Controls().Recv() }()
				go func() { defer rw.Done(); c.Net().Dispatch(true) }()
				ps := []*pump{connPump(c.Net().NetConn()), streamPump(c.Net().NetStream()), dataPump(c.Net().DataStream()),
					{name: "control stream", consume: eat(c.Controls().In(), controlValue), errs: c.Controls().Errs()}}
				var gs []func()
				var got [4][]string
				for j, p := range ps {
					n := 0
					for _, q := range want[j] {
						n += len(q)
					}
					x := -1
					if who == j {
						x = item
					}
					gs = append(gs, func() { got[j] = takeN(r, p, n, x) })
				}
				kit.Together(gs...)
				for j, p := range ps {
					if !interleaves(got[j], want[j]) {
						r.Fail("%s: %s received %q, want (by chunk stream) %q", what, p.name, got[j], want[j])
					}
					select {
					case err := <-p.errs:
						r.Fail("%s: %s reported %v", what, p.name, err)
					default:
					}
				}
				c.Net().Close()
				c.Controls().Close()
				rw.Wait()
				l.Cut(kit.ErrCut)
				r.Eval(true, what, e.B)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 25)
}

// stallServer: an application that takes its clients late, and peers that say
// nothing for a while.
func stallServer(r *kit.R) {
	for i := range r.Cases(stallBase, 1) {
		r.Scenario("servers whose application or peers pause for %v", r.Stall())
		var fs []func()
		for k := 0; k < 6; k++ {
			s, addr := listen(r)
			fs = append(fs, func() {
				what := fmt.Sprintf("server, kind %d, pause of %v", k%3, r.Stall())
				done := make(chan struct{})
				go func() { s.Accept(); close(done) }()
				if k%3 == 1 { // nobody comes for a while
					r.Pause(r.Stall())
				}
				const n = 5
				conns := make([]net.Conn, n)
				for j := range conns {
					c, err := net.Dial("tcp", addr)
					if err != nil {
						r.Fail("%s: peer %d: %v", what, j, err)
					}
					conns[j] = c
					if k%3 != 2 {
						c.Write([]byte{byte(j)})
					}
				}
				if k%3 == 0 { // nobody takes the clients
					r.Pause(r.Stall())
				}
				seen := map[byte]bool{}
				var cs []*client.Client
				for j := 0; j < n; j++ {
					select {
					case c := <-s.Clients():
						cs = append(cs, c)
					case err := <-s.Errs():
						r.Fail("%s: error before Close: %v", what, err)
					}
				}
				if k%3 == 2 { // nobody says anything
					r.Pause(r.Stall())
					for j, c := range conns {
						if _, err := c.Write([]byte{byte(j)}); err != nil {
							r.Fail("%s: peer %d: %v", what, j, err)
						}
					}
				}
				for _, c := range cs {
					var b [1]byte
					if _, err := io.ReadFull(c.Conn, b[:]); err != nil || seen[b[0]] || b[0] >= n {
						r.Fail("%s: a client reads %d, %v", what, b[0], err)
					}
					seen[b[0]] = true
					if _, err := c.Conn.Write([]byte{b[0] ^ 0x80}); err != nil {
						r.Fail("%s: writing to a client: %v", what, err)
					}
				}
				for j, c := range conns {
					var b [1]byte
					if _, err := io.ReadFull(c, b[:]); err != nil || b[0] != byte(j)^0x80 {
						r.Fail("%s: peer %d received %#x, %v", what, j, b[0], err)
					}
				}
				if err := s.Close(); err != nil {
					r.Fail("%s: Close: %v", what, err)
				}
				<-done
				for j, c := range conns {
					c.Close()
					cs[j].Conn.(net.Conn).Close()
				}
				r.Eval(true, what, k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
		_ = i
	}
	r.Need("paused_sessions", 6)
}

// listen makes a server on a free loopback port.
func listen(r *kit.R) (*server.Server, string) { return listenOn(r, "127.0.0.1:0") }

// listenOn makes a server on a free port of the host.
func listenOn(r *kit.R, host string) (*server.Server, string) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", host)
		if err != nil {
			r.Fail("no loopback: %v", err)
		}
		addr := l.Addr().String()
		l.Close()
		s, err := server.New(addr)
		if err == nil {
			return s, addr
		}
		if try > 50 {
			r.Fail("server.New: %v", err)
		}
	}
}
