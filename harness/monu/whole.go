package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/server"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// ailing is a session of which something fails: how is not looked at here, but
// the sessions beside and after it are not to notice. What it returns ends it.
func ailing(r *kit.R, rng *rand.Rand) func() {
	if rng.Intn(4) == 0 {
		hello := append([]byte{byte(3 + rng.Intn(2))}, kit.Bytes(rng, rng.Intn(3073))...)
		sink := kit.NewSink()
		if rng.Intn(2) == 0 {
			sink.FailAt, sink.Err = rng.Intn(3074), kit.WriteFault(rng)
		}
		if err := client.New(&broken{in: kit.Frag(rng, hello), out: sink}).Handshake(); err == nil {
			r.Fail("a handshake that had to fail did not")
		}
		return func() {}
	}
	if rng.Intn(4) == 0 { // whatever is written waits
		e := newEnds(r, rng, 0)
		l := newLink(rng, kit.Bytes(rng, 1536), nil)
		e.use(client.New(l), l.out)
		e.start()
		l.wg.Wait()
		hold := make(chan struct{})
		l.mu.Lock()
		l.out.Yield = func() { <-hold }
		l.mu.Unlock()
		for _, fs := range e.sends {
			fs[0]()
		}
		return func() {
			close(hold)
			e.stop()
			e.close()
			l.Cut(kit.ErrCut)
		}
	}
	e := newEnds(r, rng, 5+rng.Intn(20))
	b := e.bytes
	if rng.Intn(2) == 0 {
		b = b[:rng.Intn(len(b)+1)]
	}
	if rng.Intn(2) == 0 {
		b = append(b[:len(b):len(b)], kit.Bytes(rng, rng.Intn(600))...)
	}
	for k := rng.Intn(3); k > 0; k-- { // what no part can make sense of
		m, _ := []func(*rand.Rand) (kit.Msg, string){genConn, genStream, genData}[rng.Intn(3)](rng)
		m.Data = m.Data[:rng.Intn(len(m.Data)+1)]
		b = append(kit.Encode(128, m), b...)
	}
	l := newLink(rng, kit.Bytes(rng, 1536), b)
	c := client.New(l)
	e.use(c, l.out)
	if err := c.Handshake(); err != nil {
		r.Fail("handshake: %v", err)
	}
	if rng.Intn(2) == 0 { // nothing more is written
		l.mu.Lock()
		l.out.FailAt, l.out.Err = 3073+rng.Intn(500), kit.WriteFault(rng)
		l.mu.Unlock()
	}
	var rw, cw sync.WaitGroup
	rw.Add(2)
	go func() { defer rw.Done(); c.Controls().Recv() }()
	go func() { defer rw.Done(); c.Net().Dispatch(true) }()
	if rng.Intn(3) > 0 { // else nobody takes anything
		quit := make(chan struct{})
		none := func(string) {}
		cw.Add(2)
		go func() { defer cw.Done(); eat(c.Controls().In(), controlValue)(none, quit) }()
		go func() { defer cw.Done(); eat(c.Controls().Errs(), error.Error)(none, quit) }()
		for _, p := range e.ps {
			cw.Add(2)
			go func() { defer cw.Done(); p.consume(none, quit) }()
			go func() { defer cw.Done(); eat(p.errs, error.Error)(none, quit) }()
		}
		e.send()
		for _, p := range e.ps {
			if rng.Intn(2) == 0 {
				p.noEncode()
			}
		}
		if rng.Intn(2) == 0 {
			l.Cut(kit.Fault(rng))
		}
		if rng.Intn(2) == 0 {
			c.Net().Close()
			c.Controls().Close()
			return func() { close(quit); cw.Wait(); rw.Wait(); l.Cut(kit.ErrCut) }
		}
		return func() {
			c.Net().Close()
			c.Controls().Close()
			close(quit)
			cw.Wait()
			rw.Wait()
			l.Cut(kit.ErrCut)
		}
	}
	return func() {
		c.Net().Close()
		c.Controls().Close()
		rw.Wait()
		l.Cut(kit.ErrCut)
	}
}

// caller is a peer that connects through a socket, shakes hands, and keeps what
// it receives.
func caller(r *kit.R, rng *rand.Rand, addr string, then []byte) (net.Conn, *kit.Sink) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		r.Fail("peer: %v", err)
	}
	hello := append([]byte{3}, kit.Bytes(rng, 1536)...)
	cut := rng.Intn(len(hello))
	sink := kit.NewSink()
	go func() {
		conn.Write(hello[:cut])
		conn.Write(hello[cut:])
		b := make([]byte, 1+1536)
		n, _ := io.ReadFull(conn, b)
		sink.Write(b[:n])
		if n < len(b) {
			return
		}
		go conn.Write(append(b[1:1537:1537], then...))
		io.Copy(sink, conn)
	}()
	return conn, sink
}

// u09: sessions side by side.
func u09(r *kit.R) {
	r.Rule("2-7 whole client sessions at once, some over sockets from one server and some in memory, each receiving and sending on all its parts, after and " +
		"beside sessions in which handshakes, reading, writing or encoding fail, of which nobody takes anything, or which are closed, schedule perturbed, under the race " +
		"detector; distinct by what is sent; non-trivial when several sessions received something on all parts")
	for i := range r.Cases(0, r.N(160, 2000)) {
		rng := r.Rng(i)
		g := 2 + rng.Intn(6)
		over := rng.Intn(3) // none, half or all of them over sockets
		var srv *server.Server
		var addr string
		accepting := make(chan struct{})
		if over > 0 {
			srv, addr = listen(r)
			go func() { srv.Accept(); close(accepting) }()
		}
		r.Scenario("%d sessions", g)
		r.Arm(rng)
		var ended []func()
		var emu sync.Mutex
		trouble := func(n int, rng *rand.Rand) {
			for ; n > 0; n-- {
				f := ailing(r, rng)
				emu.Lock()
				ended = append(ended, f)
				emu.Unlock()
				r.Count("ailing_sessions", 1)
			}
		}
		trouble(rng.Intn(4), rng)
		ss := make([]*ends, g)
		var cuts []func()
		byAddr := map[string]*ends{}
		sinks := map[string]*kit.Sink{}
		for k := range ss {
			s := newEnds(r, rng, 10+rng.Intn(30))
			s.who = fmt.Sprintf("session %d of %d: ", k, g)
			ss[k] = s
			if over == 2 || over == 1 && k%2 == 0 {
				conn, sink := caller(r, rng, addr, s.bytes)
				cuts = append(cuts, func() { conn.Close() })
				byAddr[conn.LocalAddr().String()] = s
				sinks[conn.LocalAddr().String()] = sink
				continue
			}
			l := newLink(rng, kit.Bytes(rng, 1536), s.bytes)
			s.use(client.New(l), l.out)
			cuts = append(cuts, func() { l.Cut(kit.ErrCut) })
		}
		for range byAddr {
			select {
			case c := <-srv.Clients():
				conn := c.Conn.(net.Conn)
				a := conn.RemoteAddr().String()
				if byAddr[a] == nil || byAddr[a].c != nil {
					r.Fail("a client connected to %s, which is no peer or has one", a)
				}
				byAddr[a].use(c, sinks[a])
				cuts = append(cuts, func() { conn.Close() })
			case err := <-srv.Errs():
				r.Fail("accepting: %v", err)
			}
		}
		var fs []func()
		for _, s := range ss {
			fs = append(fs, func() {
				s.start()
				s.announce()
				s.settle(3073 + 2*16)
				s.send()
				s.settle(s.size)
			})
		}
		seed := rng.Int63()
		n := rng.Intn(4)
		fs = append(fs, func() { trouble(n, rand.New(rand.NewSource(seed))) })
		kit.Together(fs...)
		if over == 0 { // wait for anything that comes too often
			r.Quiesce()
		} else {
			r.Pause(2 * time.Millisecond)
		}
		busy := 0
		var sig []byte
		for _, s := range ss {
			s.stop()
			s.judge()
			sig = append(append(sig, s.bytes...), s.order...)
			if s.all {
				busy++
			}
		}
		for _, s := range ss {
			s.close()
		}
		for _, f := range ended {
			f()
		}
		for _, f := range cuts {
			f()
		}
		if over > 0 {
			srv.Close()
			<-accepting
		}
		r.End()
		r.Count("sessions", g)
		r.Count("sessions_over_sockets", len(byAddr))
		r.Eval(busy > 1, sig)
		if i < 3 {
			r.Sample("%d sessions, %d over sockets, %d ailing", g, len(byAddr), len(ended))
		}
	}
	r.Need("sessions", 400)
	r.Need("sessions_over_sockets", 100)
	r.Need("ailing_sessions", 200)
}
