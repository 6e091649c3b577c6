package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"syscall"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/server"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// link is the server's side of an in-memory connection whose peer completes
// the handshake and then sends a prepared chunk stream.
type link struct {
	*kit.Pipe
	out  *kit.Sink
	mu   sync.Mutex
	n    int
	then []byte
	rng  *rand.Rand
	wg   sync.WaitGroup
	mute bool // the peer's part is played by someone else
}

func (l *link) Write(p []byte) (int, error) {
	l.mu.Lock() // as a connection does, this takes whole writes one after the other
	defer l.mu.Unlock()
	n, err := l.out.Write(p)
	was := l.n
	l.n += n
	if !l.mute && was < 1537 && l.n >= 1537 {
		s1 := l.out.Bytes()[1:1537]
		l.send(append(s1, l.then...))
	}
	return n, err
}

func (l *link) send(b []byte) {
	l.wg.Add(1)
	max := []int{1, 7, 100, 1500, 1 << 20}[l.rng.Intn(5)]
	if max == 1 {
		max = 3
	}
	go func() {
		defer l.wg.Done()
		for len(b) > 0 {
			k := min(max, len(b))
			l.Feed(b[:k])
			b = b[k:]
		}
	}()
}

func newLink(rng *rand.Rand, c1, then []byte) *link {
	l := &link{Pipe: kit.NewPipe(4), out: kit.NewSink(), then: then, rng: rand.New(rand.NewSource(rng.Int63()))}
	l.send(append([]byte{3}, c1...))
	return l
}

// u01: a whole session.
func u01(r *kit.R) {
	r.Rule("a client connection end to end against an independent peer: handshake, then control, command, audio, video and data messages of the " +
		"peer interleaved on their chunk streams with compressed headers, while the application answers on all four outgoing streams at once, " +
		"schedule perturbed, under the race detector; distinct by the two byte streams; non-trivial when all four parts received something")
	for i := range r.Cases(0, r.N(180, 1500)) {
		rng := r.Rng(i)
		e := newEnds(r, rng, 20+rng.Intn(50))
		l := newLink(rng, kit.Bytes(rng, 1536), e.bytes)
		r.Scenario("session with %d messages, %d bytes", e.total, len(e.bytes))
		e.use(client.New(l), l.out)
		r.Arm(rng)
		e.start()
		e.announce()
		r.Quiesce()
		e.send()
		l.wg.Wait()
		r.Quiesce()
		e.stop()
		r.End()
		e.judge()
		e.close()
		l.Cut(kit.ErrCut)
		r.Eval(e.all, e.bytes, e.order)
		if i < 3 {
			r.Sample("received %d %d %d %d, outgoing order %s", len(e.got[0]), len(e.got[1]), len(e.got[2]), len(e.got[3]), e.order)
		}
	}
	for i := range r.Cases(2_000_000, r.N(400, 4000)) {
		failedHandshake(r, i)
	}
	r.Need("handshakes_failed", 300)
	for i := range r.Cases(3_000_000, r.N(60, 600)) {
		obstacle(r, i)
	}
	// chunk sizes above the default have to be announced
	for range r.Cases(1_000_000, 1) {
		rng := r.Rng(1)
		l := newLink(rng, kit.Bytes(rng, 1536), nil)
		c := client.New(l)
		if err := c.Handshake(); err != nil {
			r.Fail("handshake: %v", err)
		}
		go c.Net().NetStream().Listen()
		s := c.Net().NetStream()
		p := streamPump(s)
		var m kit.Msg
		for len(m.Data) < 200 {
			var f func()
			f, m = p.genOut(rng)
			if len(m.Data) >= 200 {
				f()
			}
		}
		r.Quiesce()
		d := kit.NewDec(128, l.out.Bytes()[3073:])
		var last *kit.Msg
		var err error
		for {
			var x *kit.Msg
			if x, err = d.Next(); x == nil || err != nil {
				break
			}
			last = x
		}
		if err != nil || last == nil || kit.SameMsg(m, *last) != "" {
			r.Finding("unannounced-chunk-size", "a session whose application announced nothing sent a %d byte message in one chunk; the peer still expects 128 byte chunks", len(m.Data))
		}
		s.Close()
		l.Cut(kit.ErrCut)
		r.Eval(true, "unannounced")
	}
	r.Need("messages_received", 500)
	r.Need("messages_sent", 500)
	stallSessions(r)
}

// interleaves tells whether got contains each of the sequences in parts, in
// order, and nothing else.
func interleaves(got []string, parts map[uint32][]string) bool {
	var seqs [][]string
	n := 0
	for _, p := range parts {
		seqs = append(seqs, p)
		n += len(p)
	}
	if n != len(got) || len(seqs) > 8 {
		return false
	}
	at := map[[8]int]bool{{}: true}
	for _, g := range got {
		next := map[[8]int]bool{}
		for pos := range at {
			for k, q := range seqs {
				if pos[k] < len(q) && q[pos[k]] == g {
					p := pos
					p[k]++
					next[p] = true
				}
			}
		}
		at = next
	}
	return len(at) > 0
}

func route(want *[4]map[uint32][]string, m kit.Msg, v string) {
	if m.CSID == 2 {
		want[3][2] = append(want[3][2], v)
		return
	}
	a, b, d := where(m.CSID, m.MSID, m.Type)
	for j, on := range []bool{a, b, d} {
		if on {
			want[j][m.CSID] = append(want[j][m.CSID], v)
		}
	}
}

// broken is a connection that fails at some point, and counts what is asked of
// it from then on.
type broken struct {
	in     io.Reader
	out    *kit.Sink
	mu     sync.Mutex
	failed bool
	after  int
}

func (b *broken) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.failed {
		b.after++
	}
	n, err := b.in.Read(p)
	// an error that comes along with all the bytes asked for may go unnoticed
	b.failed = b.failed || err != nil && n < len(p)
	return n, err
}

func (b *broken) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.failed {
		b.after++
	}
	n, err := b.out.Write(p)
	b.failed = b.failed || err != nil
	return n, err
}

// failedHandshake has a client's connection fail while it shakes hands.
func failedHandshake(r *kit.R, i int) {
	rng := r.Rng(i)
	hello := append([]byte{3}, kit.Bytes(rng, 1536)...)
	sink := kit.NewSink()
	var in io.Reader
	var want error
	var what string
	switch i % 4 {
	case 0:
		at := rng.Intn(len(hello))
		src := kit.Frag(rng, hello[:at])
		src.End = kit.Fault(rng)
		in, want, what = src, src.End, fmt.Sprintf("reading failed after %d bytes", at)
	case 1:
		at := rng.Intn(1 + 1536 + 1536)
		sink.FailAt, sink.Err = at, kit.WriteFault(rng)
		in, want, what = kit.Frag(rng, append(hello, kit.Bytes(rng, 1536)...)), sink.Err, fmt.Sprintf("writing failed after %d bytes", at)
	case 2:
		hello[0] = byte(4 + rng.Intn(252))
		if rng.Intn(2) == 0 {
			hello[0] = byte(rng.Intn(3))
		}
		in, what = kit.Frag(rng, append(hello, kit.Bytes(rng, 3000)...)), fmt.Sprintf("the peer spoke version %d", hello[0])
	case 3:
		at := len(hello) + rng.Intn(1536)
		in, what = kit.Frag(rng, append(hello, kit.Bytes(rng, 1536)...)[:at]), fmt.Sprintf("the peer hung up after %d bytes", at)
	}
	loops := func() []string { return kit.Running("chunk.(*DefaultReader).Recv", "chunk.(*Parser).Recv") }
	before := len(loops()) // those of earlier sessions, which clients cannot close
	conn := &broken{in: in, out: sink}
	c := client.New(conn)
	r.Scenario("a handshake in which %s", what)
	r.Arm(rng)
	err := c.Handshake()
	if err == nil || want != nil && !errors.Is(err, want) {
		r.Fail("a handshake in which %s: Handshake returned %v, want %v", what, err, want)
	}
	if i%16 < 4 {
		r.Quiesce() // were anything running, it would come to the connection
	} else {
		maybe(r, rng)
	}
	if l := loops(); len(l) > before {
		r.Fail("a handshake in which %s failed with %v, and the session is running:\n%s", what, err, l[len(l)-1])
	}
	conn.mu.Lock()
	if conn.after > 0 {
		r.Fail("a handshake in which %s failed with %v, and the connection was used %d times after it failed", what, err, conn.after)
	}
	conn.mu.Unlock()
	r.End()
	r.Eval(true, what)
	r.Count("handshakes_failed", 1)
}

// obstacle puts something in a session's way that it has no place for: a message
// on a chunk stream that belongs to no part, a chunk size that is refused, the
// end of the connection.
func obstacle(r *kit.R, i int) {
	rng := r.Rng(i)
	e := kit.NewEnc(128)
	var want [3][]string
	draw := func() {
		var m kit.Msg
		var v string
		j := rng.Intn(3)
		switch j {
		case 0:
			_, m, v = genControl(rng)
		case 1:
			for v == "" {
				m, v = genConn(rng)
			}
		case 2:
			for v == "" {
				m = frame(rng)
				v = fmt.Sprintf("%d %x %x", m.Type, m.Data[0], m.Data[1:])
			}
		}
		e.All(m)
		want[j] = append(want[j], v)
	}
	for k := 1 + rng.Intn(6); k > 0; k-- {
		draw()
	}
	var before [3]int
	for j := range want {
		before[j] = len(want[j])
	}
	what, key := "", ""
	switch i % 3 {
	case 0:
		id := []uint32{6, 7, 9, 62, 64, 320, 65599}[rng.Intn(7)]
		e.All(kit.Msg{CSID: id, Type: []byte{9, 20, 99}[rng.Intn(3)], Data: kit.Bytes(rng, rng.Intn(300))})
		what, key = fmt.Sprintf("a message on chunk stream %d", id), "other-stream"
	case 1:
		bad := [][]byte{{}, {1}, {0, 0, 1}, {0, 0, 0, 0}}[rng.Intn(4)]
		e.All(kit.Msg{CSID: 2, Type: 1, Data: bad})
		what, key = fmt.Sprintf("a Set Chunk Size of % x", bad), "refused-size"
	case 2:
		what, key = "the end of the connection", "never-ends"
	}
	if i%3 < 2 {
		for k := 1 + rng.Intn(6); k > 0; k-- {
			draw()
		}
	}
	loops := func() []string { return kit.Running("chunk.(*DefaultReader).Recv", "chunk.(*Parser).Recv") }
	others := func() []string {
		return kit.Running("rtmp/control.(*", "rtmp/cmd.(*", "rtmp/cmd/conn.(*", "rtmp/cmd/stream.(*", "rtmp/cmd/data.(*")
	}
	base := len(loops())
	baseOthers := len(others())
	l := newLink(rng, kit.Bytes(rng, 1536), e.B)
	c := client.New(l)
	r.Scenario("a session that meets %s", what)
	r.Arm(rng)
	if err := c.Handshake(); err != nil {
		r.Fail("handshake: %v", err)
	}
	var rw, cw sync.WaitGroup
	rw.Add(2)
	go func() { defer rw.Done(); c.Controls().Recv() }()
	go func() { defer rw.Done(); c.Net().Dispatch(true) }()
	ps := []*pump{connPump(c.Net().NetConn()), dataPump(c.Net().DataStream())}
	stop := make(chan struct{})
	var got [3][]string
	cw.Add(3)
	go func() {
		defer cw.Done()
		eat(c.Controls().In(), controlValue)(func(s string) { got[0] = append(got[0], s) }, stop)
	}()
	for j, p := range ps {
		go func() { defer cw.Done(); p.consume(func(s string) { got[j+1] = append(got[j+1], s) }, stop) }()
	}
	r.Quiesce()
	if i%3 == 2 {
		l.Cut(kit.Fault(rng))
		r.Quiesce()
	}
	// the application can still send
	f, m := streamPump(c.Net().NetStream()).genOut(rng)
	was := len(l.out.Bytes())
	f()
	r.Quiesce()
	if d := kit.DiffBytes(kit.Encode(4096, m), l.out.Bytes()[was:]); d != "" {
		r.Fail("a session that met %s then sent a status: %s", what, d)
	}
	close(stop)
	cw.Wait()
	all, early := true, true
	for j := range want {
		all = all && fmt.Sprintf("%q", got[j]) == fmt.Sprintf("%q", want[j])
		early = early && fmt.Sprintf("%q", got[j]) == fmt.Sprintf("%q", want[j][:before[j]])
	}
	if !all {
		if !early || i%3 == 2 {
			r.Fail("a session that met %s after %v messages received %.300q of %.300q", what, before, got, want)
		}
		r.Finding(key, "%s is the last a session delivers", what)
	}
	c.Net().Close()
	c.Controls().Close()
	rw.Wait()
	l.Cut(kit.ErrCut)
	r.Quiesce()
	r.End()
	if i%3 == 2 {
		if o := others(); len(o) > baseOthers {
			r.Fail("the connection ended, the session's parts were closed, and this runs:\n%s", o[len(o)-1])
		}
		if len(loops()) > base {
			r.Finding(key, "the connection ended, all parts of the session were closed, and its chunk parser runs on")
		}
	}
	r.Eval(true, what, fmt.Sprint(want))
	r.Count("obstacles", 1)
}

// u02: the server.
func u02(r *kit.R) {
	r.Rule("a server on a loopback port with 0-12 peers connecting at once, all, some or none of them taken by the application, closed in any of " +
		"these states or before it accepts, schedule perturbed, under the race detector; distinct by numbers and order of arrival; every peer must " +
		"reach exactly one client")
	six := false // whether the host has IPv6
	if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
		six = true
		l.Close()
	}
	for i := range r.Cases(0, r.N(180, 800)) {
		rng := r.Rng(i)
		host := "127.0.0.1:0"
		if six && rng.Intn(4) == 0 {
			host = "[::1]:0"
			r.Count("servers_on_ipv6", 1)
		}
		s, addr := listenOn(r, host)
		peers := rng.Intn(13)
		take := rng.Intn(peers + 1)
		if rng.Intn(2) == 0 {
			take = peers
		}
		late := rng.Intn(5) == 0
		r.Scenario("%d peers, %d taken, closed before accepting: %v", peers, take, late)
		r.Arm(rng)
		done := make(chan struct{})
		accept := func() { go func() { s.Accept(); close(done) }() }
		if !late {
			accept()
		}
		conns := make([]net.Conn, peers)
		var wg sync.WaitGroup
		for k := range conns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := net.Dial("tcp", addr)
				if err != nil {
					r.Fail("peer %d: %v", k, err)
				}
				if _, err := c.Write([]byte{byte(k)}); err != nil {
					r.Fail("peer %d: %v", k, err)
				}
				conns[k] = c
			}()
		}
		var order []byte
		var clients []*client.Client
		if !late {
			for k := 0; k < take; k++ {
				select {
				case c := <-s.Clients():
					clients = append(clients, c)
				case err := <-s.Errs():
					r.Fail("error before Close: %v", err)
				}
			}
		}
		wg.Wait()
		seen := map[byte]bool{}
		for _, c := range clients {
			var b [1]byte
			if _, err := io.ReadFull(c.Conn, b[:]); err != nil {
				r.Fail("reading from a client: %v", err)
			}
			if int(b[0]) >= peers || seen[b[0]] {
				r.Fail("peer %d reached two clients", b[0])
			}
			seen[b[0]] = true
			order = append(order, b[0])
			if _, err := c.Conn.Write([]byte{b[0] ^ 0x80}); err != nil {
				r.Fail("writing to a client: %v", err)
			}
		}
		for _, k := range order {
			var b [1]byte
			if _, err := io.ReadFull(conns[k], b[:]); err != nil || b[0] != k^0x80 {
				r.Fail("peer %d received %#x, %v", k, b[0], err)
			}
		}
		if err := s.Close(); err != nil {
			r.Fail("Close: %v", err)
		}
		if late {
			accept()
		}
		<-done
		r.End()
		if c, err := net.Dial("tcp", addr); err == nil {
			// the port may have been taken by another process; a server that
			// still listens would accept this and say nothing
			c.Close()
			r.Count("port_answered_after_close", 1)
		}
		for range clients {
			r.Count("clients_delivered", 1)
		}
		// taken clients stay usable
		for k, c := range clients {
			if _, err := c.Conn.Write([]byte{7}); err != nil {
				r.Fail("client %d unusable after the server closed: %v", k, err)
			}
			c.Conn.(net.Conn).Close()
		}
		// peers that were not taken are not left hanging
		for k, c := range conns {
			if !seen[byte(k)] {
				var b [1]byte
				if n, err := c.Read(b[:]); err == nil {
					r.Fail("peer %d, never taken, received %d bytes", k, n)
				} else if errors.Is(err, net.ErrClosed) {
					r.Fail("peer %d: %v", k, err)
				}
				r.Count("peers_dropped", 1)
			}
			c.Close()
		}
		if l := kit.Running("/server.(*Server).Accept"); len(l) > 0 {
			r.Fail("Accept still runs:\n%s", l[0])
		}
		r.Eval(peers > 1, peers, take, late, order)
		r.Count("servers_closed", 1)
		if i < 3 {
			r.Sample("%d peers, taken in order %v", peers, order)
		}
	}
	for i := range r.Cases(1_000_000, r.N(60, 400)) {
		outOfFiles(r, i)
	}
	for i := range r.Cases(2_000_000, r.N(20, 100)) {
		noServer(r, i)
	}
	r.Need("clients_delivered", 100)
	r.Need("peers_dropped", 20)
	r.Need("accepts_failed", 60)
	longServer(r)
	stallServer(r)
}

// outOfFiles lets accepting fail for a while, as it does when the process has no
// file descriptors left.
func outOfFiles(r *kit.R, i int) {
	rng := r.Rng(i)
	s, addr := listen(r)
	peers := 1 + rng.Intn(5)
	fails := 1 + rng.Intn(5)
	r.Scenario("%d peers, accepting fails %d times first", peers, fails)
	var conns []net.Conn
	for k := 0; k < peers; k++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			_, err = c.Write([]byte{byte(k)})
		}
		if err != nil {
			r.Fail("peer %d: %v", k, err)
		}
		conns = append(conns, c)
	}
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
		r.Fail("getrlimit: %v", err)
	}
	back := func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
			panic(err)
		}
	}
	kit.BeforeWrite.Store(&back)
	none := was
	none.Cur = 0
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &none); err != nil {
		r.Fail("setrlimit: %v", err)
	}
	done := make(chan struct{})
	go func() { s.Accept(); close(done) }()
	closeEarly := rng.Intn(4) == 0
	for k := 0; k < fails; k++ {
		select {
		case err := <-s.Errs():
			if !errors.Is(err, syscall.EMFILE) {
				r.Fail("reported %v, want %v", err, syscall.EMFILE)
			}
			r.Count("accepts_failed", 1)
		case c := <-s.Clients():
			r.Fail("client %v accepted without a file descriptor", c)
		}
	}
	if closeEarly { // with a failure that nobody takes
		maybe(r, rng)
		s.Close()
		<-done
	}
	back()
	kit.BeforeWrite.Store(nil)
	if !closeEarly {
		seen := map[byte]bool{}
		late := 0
		for len(seen) < peers {
			select {
			case err := <-s.Errs(): // a few may have been on its way
				if late++; late > 4 || !errors.Is(err, syscall.EMFILE) {
					r.Fail("with descriptors to be had again: %v", err)
				}
			case c := <-s.Clients():
				var b [1]byte
				if _, err := io.ReadFull(c.Conn, b[:]); err != nil || seen[b[0]] || int(b[0]) >= peers {
					r.Fail("client of peer %d (%v), seen %v", b[0], err, seen)
				}
				seen[b[0]] = true
				c.Conn.(net.Conn).Close()
			}
		}
		s.Close()
		<-done
	}
	for _, c := range conns {
		c.Close()
	}
	r.Eval(true, "files", peers, fails, closeEarly, i)
}

// noServer asks for servers that cannot be.
func noServer(r *kit.R, i int) {
	rng := r.Rng(i)
	s, addr := listen(r)
	for _, bind := range []string{addr, "nonsense", "127.0.0.1:99999", "256.0.0.1:80", fmt.Sprintf("127.0.0.1:x%d", rng.Intn(100)), ":-1"} {
		if t, err := server.New(bind); err == nil {
			r.Fail("a server was made at %q, which is taken or no address", bind)
		} else if t != nil {
			r.Fail("with %v comes a server", err)
		}
		r.Count("servers_refused", 1)
	}
	// the one that was there first is none the worse
	go s.Accept()
	c, err := net.Dial("tcp", addr)
	if err != nil {
		r.Fail("peer: %v", err)
	}
	select {
	case x := <-s.Clients():
		x.Conn.(net.Conn).Close()
	case err := <-s.Errs():
		r.Fail("error %v", err)
	}
	s.Close()
	c.Close()
	// its address can be taken again
	r.Eval(true, "refused", i)
}
