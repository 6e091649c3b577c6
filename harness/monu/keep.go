package main

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// u10: command connections, managers, sessions and servers keep nothing of
// what is over, and take no more than they can pass on.
func u10(r *kit.R) {
	r.Rule("the live heap and the number of goroutines before and after tens of thousands of messages each way through each of the command " +
		"streams and a manager, whole managers, and clients of a server; and how much each of them takes while its application, or its " +
		"transport, takes nothing; distinct by workload and seed; non-trivial when all steps were taken")
	type load struct {
		name string
		f    func(r *kit.R, rng *rand.Rand)
	}
	loads := []load{
		{"command streams in use", keepPumps}, {"a manager in use", keepManager}, {"managers opened and closed", keepManagers},
		{"a server whose clients come and go", keepServer},
	}
	for i := range r.Cases(0, len(loads)*r.N(2, 8)) {
		l := loads[i%len(loads)]
		r.Budget(20e9)
		r.Scenario("%s", l.name)
		l.f(r, r.Rng(i))
		r.Eval(true, l.name, i)
		r.Count("workloads", 1)
	}
	holds := []load{
		{"nobody takes from a command stream", holdPumps}, {"the transport takes nothing", holdOut}, {"nobody takes from a manager's children", holdManager},
		{"nobody takes from a session", holdSession},
	}
	for i := range r.Cases(1_000_000, len(holds)*r.N(20, 200)) {
		l := holds[i%len(holds)]
		r.Budget(20e9)
		r.Scenario("%s", l.name)
		l.f(r, r.Rng(i))
		r.Eval(true, l.name, i)
		r.Count("stalls", 1)
	}
	for i := range r.Cases(2_000_000, 4) {
		r.Budget(20e9)
		what := "messages through a manager"
		f := func(n int) func() { return costManager(r, n) }
		if i %= 4; i < 3 {
			what = "messages through " + kinds[i]
			f = func(n int) func() { return costPump(r, kinds[i], n) }
		}
		r.Scenario("%s", what)
		r.Linear(what, r.N(500, 3000), f)
		r.Eval(true, what)
	}
	r.Need("statements_watched", 100_000)
	r.Need("workloads", int64(len(loads)))
	r.Need("stalls", int64(20*len(holds)))
}

// dropSink is a chunk writer that keeps nothing; every other message fails.
type dropSink struct{ n int }

func (*dropSink) WriteSize() int   { return 128 }
func (*dropSink) SetWriteSize(int) {}
func (w *dropSink) Write(*chunk.Chunk) error {
	if w.n++; w.n%2 == 0 {
		return io.ErrClosedPipe
	}
	return nil
}

func keepPumps(r *kit.R, rng *rand.Rand) {
	for _, kind := range kinds {
		feed := make(chan *chunk.Chunk)
		p, run := build(kind, feed, &dropSink{})
		done := make(chan struct{})
		go func() { run(); close(done) }()
		seen, stop, eaten := make(chan struct{}), make(chan struct{}), make(chan struct{})
		go func() { defer close(eaten); p.consume(func(string) { seen <- struct{}{} }, stop) }()
		r.Steady(p.name, r.N(8000, 60_000), func(k int) {
			m, _ := p.genIn(rng)
			feed <- m.Chunk()
			select {
			case <-seen:
			case <-p.errs:
			}
			send, _ := p.genOut(rng)
			send()
			if k%2 == 1 {
				<-p.errs
			}
			if k%50 == 0 {
				p.noEncode()
				<-p.errs
			}
		})
		close(stop)
		<-eaten
		p.close()
		<-done
	}
}

func costPump(r *kit.R, kind string, n int) func() {
	rng := rand.New(rand.NewSource(1))
	feed := make(chan *chunk.Chunk)
	p, run := build(kind, feed, &dropSink{})
	m, _ := p.genIn(rng)
	send, _ := p.genOut(rng)
	return func() {
		done := make(chan struct{})
		go func() { run(); close(done) }()
		seen, stop, eaten := make(chan struct{}), make(chan struct{}), make(chan struct{})
		go func() { defer close(eaten); p.consume(func(string) { seen <- struct{}{} }, stop) }()
		for k := 0; k < n; k++ {
			feed <- m.Chunk()
			select {
			case <-seen:
			case <-p.errs:
			}
			send()
			if k%2 == 1 {
				<-p.errs
			}
			if k%1000 == 0 {
				r.Beat()
			}
		}
		close(stop)
		<-eaten
		p.close()
		<-done
	}
}

func costManager(r *kit.R, n int) func() {
	src := make(source)
	m := cmd.New(src, &dropSink{})
	return func() {
		done := make(chan struct{})
		go func() { m.Dispatch(true); close(done) }()
		for k := 0; k < n; k++ {
			src <- kit.Msg{CSID: 4, Type: 8, MSID: 1, Data: []byte{1, 2}}.Chunk()
			<-m.DataStream().Out()
			src <- kit.Msg{CSID: 9, Type: 8, MSID: 1, Data: []byte{1, 2}}.Chunk()
			if k%1000 == 0 {
				r.Beat()
			}
		}
		m.Close()
		<-done
	}
}

func keepManager(r *kit.R, rng *rand.Rand) {
	src := make(source)
	m := cmd.New(src, &dropSink{})
	done := make(chan struct{})
	go func() { m.Dispatch(true); close(done) }()
	ps := []*pump{connPump(m.NetConn()), streamPump(m.NetStream()), dataPump(m.DataStream())}
	seen, stop := make(chan struct{}), make(chan struct{})
	var wg sync.WaitGroup
	for _, p := range ps {
		wg.Add(1)
		go func() { defer wg.Done(); p.consume(func(string) { seen <- struct{}{} }, stop) }()
	}
	r.Steady("a manager", r.N(20_000, 150_000), func(k int) {
		m, _ := ps[k%3].genIn(rng)
		src <- m.Chunk()
		select {
		case <-seen:
		case <-ps[k%3].errs:
		}
		src <- kit.Msg{CSID: 9, Type: 8, MSID: 1, Data: m.Data}.Chunk() // for nobody
	})
	close(stop)
	wg.Wait()
	m.Close()
	<-done
}

func keepManagers(r *kit.R, rng *rand.Rand) {
	var in []kit.Msg
	p := &pump{genIn: genData}
	for len(in) < 40 {
		if x, v := p.genIn(rng); v != "" {
			in = append(in, x)
		}
	}
	r.Steady("managers", r.N(1500, 10_000), func(k int) {
		src := make(source)
		m := cmd.New(src, &dropSink{})
		done := make(chan struct{})
		go func() { m.Dispatch(true); close(done) }()
		for j := 0; j < 3; j++ {
			src <- in[(k+j)%40].Chunk()
			<-m.DataStream().Out()
		}
		if k%2 == 0 {
			src <- in[k%40].Chunk() // which nobody takes
		}
		m.Close()
		<-done
	})
}

func keepServer(r *kit.R, rng *rand.Rand) {
	s, addr := listen(r)
	done := make(chan struct{})
	go func() { s.Accept(); close(done) }()
	// (a session leaves goroutines behind, see the known finding of U01, but
	// nothing of the client itself)
	n := r.N(500, 3000)
	var clients []weak.Pointer[client.Client]
	var conns []weak.Pointer[net.TCPConn]
	for k := 0; k < n; k++ {
		p, err := net.Dial("tcp", addr)
		if err != nil {
			r.Fail("client %d: %v", k, err)
		}
		select {
		case c := <-s.Clients():
			clients = append(clients, weak.Make(c))
			if t, ok := c.Conn.(*net.TCPConn); ok {
				conns = append(conns, weak.Make(t))
			}
			c.Conn.(net.Conn).Close()
		case err := <-s.Errs():
			r.Fail("client %d: %v", k, err)
		}
		p.Close()
	}
	r.Pause(100 * time.Millisecond)
	runtime.GC()
	runtime.GC()
	kept := 0
	for _, c := range clients {
		if c.Value() != nil {
			kept++
		}
	}
	for _, c := range conns {
		if c.Value() != nil {
			kept++
		}
	}
	if kept > n/4 {
		r.Fail("a server: %d of %d clients or their connections are kept, which are gone and which nobody uses", kept, n)
	}
	r.Count("clients_released", n-kept)
	if err := s.Close(); err != nil {
		r.Fail("Close: %v", err)
	}
	<-done
}

const (
	offers = 8000     // messages
	stock  = 16 << 20 // bytes
)

// offer sends messages until told to stop, and counts those accepted.
func offer(quit chan struct{}, feed chan<- *chunk.Chunk, next func() *chunk.Chunk) (*atomic.Int64, chan struct{}) {
	var n atomic.Int64
	done := make(chan struct{})
	go func() {
		defer close(done)
		for k := 0; k < offers; k++ {
			select {
			case feed <- next():
				n.Add(1)
			case <-quit:
				return
			}
		}
	}()
	return &n, done
}

func tooMany(r *kit.R, what string, n int64) {
	if n > offers/4 {
		r.Fail("%s: %d of %d messages were accepted all the same", what, n, offers)
	}
	r.Count("messages_accepted_meanwhile", int(n))
}

func holdPumps(r *kit.R, rng *rand.Rand) {
	feed := make(chan *chunk.Chunk)
	p, run := build(kinds[rng.Intn(3)], feed, &dropSink{})
	done := make(chan struct{})
	go func() { run(); close(done) }()
	good := rng.Intn(2) == 0
	var m kit.Msg
	for v := ""; ; {
		if m, v = p.genIn(rng); (v != "") == good {
			break
		}
	}
	quit := make(chan struct{})
	n, gone := offer(quit, feed, m.Chunk)
	r.Quiesce()
	tooMany(r, p.name+" that nobody takes from", n.Load())
	close(quit)
	<-gone
	p.close()
	<-done
}

// stuck is a chunk writer that does not return.
type stuck struct{ end chan struct{} }

func (stuck) WriteSize() int   { return 128 }
func (stuck) SetWriteSize(int) {}
func (s stuck) Write(*chunk.Chunk) error {
	<-s.end
	return errors.New("stuck")
}

func holdOut(r *kit.R, rng *rand.Rand) {
	w := stuck{make(chan struct{})}
	p, run := build(kinds[rng.Intn(3)], make(chan *chunk.Chunk), w)
	done := make(chan struct{})
	go func() { run(); close(done) }()
	f, _ := p.genOut(rng)
	var n atomic.Int64
	var quit atomic.Bool
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		for k := 0; k < offers && !quit.Load(); k++ {
			f()
			n.Add(1)
		}
	}()
	r.Quiesce()
	tooMany(r, p.name+" whose transport takes nothing", n.Load())
	quit.Store(true)
	close(w.end)
	drained := make(chan struct{})
	go func() {
		for {
			select {
			case <-p.errs:
			case <-drained:
				return
			}
		}
	}()
	<-gone
	close(drained)
	p.close()
	<-done
}

func holdManager(r *kit.R, rng *rand.Rand) {
	src := make(source)
	m := cmd.New(src, &dropSink{})
	done := make(chan struct{})
	go func() { m.Dispatch(true); close(done) }()
	gens := []func(*rand.Rand) (kit.Msg, string){genConn, genStream, genData}
	if k := rng.Intn(5); k < 3 {
		gens = gens[k : k+1]
	}
	var in []kit.Msg
	for len(in) < 60 {
		x, _ := gens[rng.Intn(len(gens))](rng)
		in = append(in, x)
	}
	k := 0
	quit := make(chan struct{})
	n, gone := offer(quit, src, func() *chunk.Chunk { k++; return in[k%60].Chunk() })
	r.Quiesce()
	tooMany(r, "a manager whose children nobody takes from", n.Load())
	close(quit)
	<-gone
	m.Close()
	<-done
}

// flood is a peer that completes the handshake and has more to send than
// anyone can hold.
type flood struct {
	*kit.Endless
	mu    sync.Mutex
	out   []byte
	shook chan struct{}
}

func (f *flood) Write(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.out) < 1537 {
		f.out = append(f.out, p...)
		if len(f.out) >= 1537 {
			close(f.shook)
		}
	}
	return len(p), nil
}

func holdSession(r *kit.R, rng *rand.Rand) {
	f := &flood{shook: make(chan struct{})}
	e := kit.NewEnc(128)
	gens := []func(*rand.Rand) (kit.Msg, string){genConn, genStream, genData}
	which := rng.Intn(4)
	phase := 0
	f.Endless = kit.NewEndless(stock, func() []byte {
		e.B, e.Cuts = e.B[:0], nil
		switch phase++; phase {
		case 1:
			return append([]byte{3}, make([]byte, 1536)...)
		case 2:
			<-f.shook
			return append([]byte(nil), f.out[1:1537]...)
		}
		for k := 0; k < 100; k++ {
			var m kit.Msg
			if which < 3 {
				m, _ = gens[which](rng)
			} else {
				_, m, _ = genControl(rng)
			}
			e.All(m)
		}
		return append([]byte(nil), e.B...)
	})
	c := client.New(f)
	if err := c.Handshake(); err != nil {
		r.Fail("handshake: %v", err)
	}
	go c.Controls().Recv()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); c.Net().Dispatch(true) }()
	r.Quiesce()
	n := f.Taken.Load()
	if n > stock/4 {
		r.Fail("a session whose application takes nothing: %d of the %d bytes that the peer has were read all the same", n, stock)
	}
	r.Count("bytes_read_ahead", int(n))
	f.Cut()
	c.Controls().Close()
	c.Net().Close()
	wg.Wait()
}
