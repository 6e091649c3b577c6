package main

import (
	"fmt"
	"io"
	"net"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// Sessions of more items than sixteen bits count.

const many = 66_000

// longSink is a chunk writer that every other message fails at.
type longSink struct {
	last *chunk.Chunk
	n    int
}

func (*longSink) WriteSize() int   { return 128 }
func (*longSink) SetWriteSize(int) {}
func (w *longSink) Write(c *chunk.Chunk) error {
	w.last = c
	if w.n++; w.n%2 == 0 {
		return io.ErrClosedPipe
	}
	return nil
}

// longPumps: many messages in both directions through each of the parts.
func longPumps(r *kit.R) {
	for i := range r.Cases(6_000_000, 3*r.N(1, 2)) {
		rng := r.Rng(i)
		n := r.N(many, 200_000)
		r.Budget(20e9)
		feed := make(chan *chunk.Chunk)
		w := &longSink{}
		p, run := build(kinds[i%3], feed, w)
		r.Scenario("%s: %d messages each way", p.name, n)
		done := make(chan struct{})
		go func() { run(); close(done) }()
		// a few messages over and over
		var in []kit.Msg
		var vals []string
		for len(in) < 7 {
			m, v := p.genIn(rng)
			if len(m.Data) < 200 {
				in, vals = append(in, m), append(vals, v)
			}
		}
		var out []func()
		for len(out) < 5 {
			f, m := p.genOut(rng)
			if len(m.Data) < 200 {
				out = append(out, f)
			}
		}
		bad := 0
		for k := 0; k < n; k++ {
			if vals[k%7] == "" {
				bad++
			}
		}
		go func() {
			for k := 0; k < n; k++ {
				feed <- in[k%7].Chunk()
			}
		}()
		sent := make(chan struct{})
		go func() {
			for k := 0; k < n; k++ {
				out[k%5]()
			}
			close(sent)
		}()
		stop, eaten := make(chan struct{}), make(chan struct{})
		full := make(chan struct{})
		k := 0
		skip := func() {
			for k < n && vals[k%7] == "" {
				k++
			}
			if k >= n {
				close(full)
			}
		}
		skip()
		go func() {
			defer close(eaten)
			p.consume(func(v string) {
				if k >= n || v != vals[k%7] {
					r.Fail("%s: %q arrived as number %d of %d, want %q", p.name, v, k, n, vals[k%7])
				}
				if k++; k%1000 == 0 {
					r.Beat()
				}
				skip()
			}, stop)
		}()
		for errs := 0; errs < bad+n/2; errs++ {
			if err := <-p.errs; err == nil {
				r.Fail("%s: nil error reported", p.name)
			}
			if errs%1000 == 0 {
				r.Beat()
			}
		}
		<-sent
		<-full
		r.Quiesce()
		if w.n != n {
			r.Fail("%s: %d of %d messages were written", p.name, w.n, n)
		}
		close(stop)
		<-eaten
		p.close()
		<-done
		r.Count("items_of_long_sessions", 2*n)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", many)
}

// longDispatch: many messages through one manager.
func longDispatch(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 2)) {
		n := r.N(many, 300_000)
		r.Budget(20e9)
		r.Scenario("%d messages through a manager", n)
		src := make(source)
		m := cmd.New(src, &longSink{})
		done := make(chan struct{})
		go func() { m.Dispatch(true); close(done) }()
		go func() {
			for k := 0; k < n; k++ {
				src <- kit.Msg{CSID: 4, Type: 8, MSID: 1, Data: []byte{byte(k >> 16), byte(k >> 8), byte(k)}}.Chunk()
				src <- kit.Msg{CSID: 9, Type: 8, MSID: 1, Data: []byte{1}}.Chunk() // for nobody
			}
		}()
		for k := 0; k < n; k++ {
			d := <-m.DataStream().Out()
			if v, want := dataValue(d), fmt.Sprintf("8 %x %x", []byte{byte(k >> 16)}[0], []byte{byte(k >> 8), byte(k)}); v != want {
				r.Fail("message %d arrived as %s, want %s", k, v, want)
			}
			if k%1000 == 0 {
				r.Beat()
			}
		}
		m.Close()
		<-done
		r.Count("items_of_long_sessions", 2*n)
		r.Eval(true, "long", i)
	}
	r.Need("items_of_long_sessions", many)
}

// longServer: many clients, one after another and hundreds at once.
func longServer(r *kit.R) {
	for i := range r.Cases(6_000_000, r.N(1, 3)) {
		s, addr := listen(r)
		n, at := r.N(1500, 6000), 300
		r.Scenario("%d clients, %d at once", n, at)
		done := make(chan struct{})
		go func() { s.Accept(); close(done) }()
		type pair struct {
			peer net.Conn
			c    *client.Client
		}
		var open []pair
		for k := 0; k < n; k++ {
			p, err := net.Dial("tcp", addr)
			if err != nil {
				r.Fail("client %d: %v", k, err)
			}
			select {
			case c := <-s.Clients():
				open = append(open, pair{p, c})
			case err := <-s.Errs():
				r.Fail("client %d of a server with %d open: %v", k, len(open), err)
			}
			if len(open) > at {
				o := open[0]
				open = open[1:]
				if _, err := o.peer.Write([]byte{byte(k)}); err != nil {
					r.Fail("peer %d: %v", k-at, err)
				}
				var b [1]byte
				if _, err := io.ReadFull(o.c.Conn, b[:]); err != nil || b[0] != byte(k) {
					r.Fail("client %d received %d, %v", k-at, b[0], err)
				}
				o.peer.Close()
				o.c.Conn.(net.Conn).Close()
			}
			r.Beat()
		}
		if err := s.Close(); err != nil {
			r.Fail("Close: %v", err)
		}
		<-done
		for _, o := range open {
			o.peer.Close()
			o.c.Conn.(net.Conn).Close()
		}
		r.Count("clients_of_one_server", n)
		r.Eval(true, "long", i)
	}
}
