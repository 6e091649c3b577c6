package main

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// ends is a whole session: what its peer sends and its application is to
// receive, and the other way round.
type ends struct {
	r   *kit.R
	rng *rand.Rand
	who string

	// what the peer sends, and what becomes of it
	bytes []byte
	want  [4]map[uint32][]string
	total int // messages sent
	items int // items received

	c    *client.Client
	wire *kit.Sink // what the peer has received

	ps       []*pump
	rw, cw   sync.WaitGroup
	quit     chan struct{}
	got      [4][]string
	received atomic.Int64

	sends [4][]func()
	out   [4][]kit.Msg
	size  int // of the bytes the peer is to receive

	order []byte
	all   bool // every part received something
}

// newEnds draws n messages of the peer, interleaved, and the application's own.
func newEnds(r *kit.R, rng *rand.Rand, n int) *ends {
	s := &ends{r: r, rng: rng, total: n, quit: make(chan struct{})}
	e := kit.NewEnc(128)
	for j := range s.want {
		s.want[j] = map[uint32][]string{}
	}
	var open []*kit.Part
	var openV []string
	busy := map[uint32]bool{}
	step := func() {
		k := rng.Intn(len(open))
		p := open[k]
		p.Next()
		if p.Done {
			route(&s.want, p.M, openV[k])
			delete(busy, p.M.CSID)
			open = append(open[:k], open[k+1:]...)
			openV = append(openV[:k], openV[k+1:]...)
		}
	}
	for k := 0; k < n; k++ {
		if len(open) > 0 && rng.Intn(2) == 0 {
			step()
		}
		var m kit.Msg
		var v string
		switch rng.Intn(9) {
		case 0, 1:
			_, m, v = genControl(rng)
		case 2, 3:
			m, v = genConn(rng)
		case 4, 5:
			m, v = genStream(rng)
		case 6, 7:
			m, v = genData(rng)
		case 8:
			m = kit.Msg{CSID: 5, Type: 0x14, MSID: 9, Data: kit.Bytes(rng, rng.Intn(300))}
		}
		for busy[m.CSID] {
			step()
		}
		if v == "" && m.CSID != 5 {
			continue
		}
		if rng.Intn(12) == 0 && !busy[2] {
			e.SetSize(2, uint32(1+rng.Intn(600)))
			e.Forget(2)
		}
		if e.Has(m.CSID) && rng.Intn(2) == 0 && e.Prev(m.CSID).MSID == m.MSID {
			m.Fmt = 1
			if e.Prev(m.CSID).Type == m.Type && len(e.Prev(m.CSID).Data) == len(m.Data) {
				m.Fmt = 2
			}
		}
		p := e.Begin(m)
		if p.Done {
			route(&s.want, p.M, v)
		} else {
			busy[m.CSID] = true
			open = append(open, p)
			openV = append(openV, v)
		}
	}
	for len(open) > 0 {
		step()
	}
	s.bytes = e.B
	for _, w := range s.want {
		for _, q := range w {
			s.items += len(q)
		}
	}
	return s
}

// use names the client and what its peer receives, before anything is sent.
func (s *ends) use(c *client.Client, wire *kit.Sink) {
	s.c, s.wire = c, wire
	s.ps = []*pump{connPump(c.Net().NetConn()), streamPump(c.Net().NetStream()), dataPump(c.Net().DataStream())}
	s.size = 3073 + 2*16
	for j := 0; j < 4; j++ {
		for k := 3 + s.rng.Intn(8); k > 0; k-- {
			var f func()
			var m kit.Msg
			if j < 3 {
				f, m = s.ps[j].genOut(s.rng)
			} else {
				x, y, _ := genControl(s.rng)
				f, m = func() { c.Controls().Out() <- x }, y
			}
			s.sends[j] = append(s.sends[j], f)
			s.out[j] = append(s.out[j], m)
			s.size += len(kit.Encode(4096, m))
		}
	}
}

// start shakes hands and has everything run that a session has.
func (s *ends) start() {
	c := s.c
	if err := c.Handshake(); err != nil {
		s.r.Fail("%shandshake: %v", s.who, err)
	}
	s.rw.Add(2)
	go func() { defer s.rw.Done(); c.Controls().Recv() }()
	go func() { defer s.rw.Done(); c.Net().Dispatch(true) }()
	on := func(j int) func(string) {
		return func(v string) { s.got[j] = append(s.got[j], v); s.received.Add(1) }
	}
	s.cw.Add(2)
	go func() { defer s.cw.Done(); eat(c.Controls().In(), controlValue)(on(3), s.quit) }()
	fail := func(what string) func(error) string {
		return func(err error) string { s.r.Fail("%s%s reported %v", s.who, what, err); return "" }
	}
	go func() {
		defer s.cw.Done()
		eat(c.Controls().Errs(), fail("control stream"))(func(string) {}, s.quit)
	}()
	for j, p := range s.ps {
		s.cw.Add(2)
		go func() { defer s.cw.Done(); p.consume(on(j), s.quit) }()
		go func() { defer s.cw.Done(); eat(p.errs, fail(p.name))(func(string) {}, s.quit) }()
	}
}

// announce tells the peer the chunk size the session uses.
func (s *ends) announce() {
	s.c.Controls().Out() <- control.NewSetChunkSize(4096)
	s.c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: 77}
}

// send sends the application's messages on all parts at once.
func (s *ends) send() {
	var ow sync.WaitGroup
	for _, fs := range s.sends {
		ow.Add(1)
		go func() {
			defer ow.Done()
			for _, f := range fs {
				f()
			}
		}()
	}
	ow.Wait()
}

// settle waits for the peer to have so many bytes, and the application all it
// is to receive if the peer is to have all.
func (s *ends) settle(size int) {
	for t := time.Now(); time.Since(t) < time.Minute && (s.wire.Len() < size || size == s.size && int(s.received.Load()) < s.items); {
		s.r.Pause(time.Millisecond)
	}
}

func (s *ends) stop() {
	close(s.quit)
	s.cw.Wait()
}

// judge compares what was received on both sides with what was sent.
func (s *ends) judge() {
	r := s.r
	for j, p := range []string{"NetConn", "NetStream", "data stream", "control stream"} {
		// each chunk stream in its order; there is no order between them
		if !interleaves(s.got[j], s.want[j]) {
			r.Fail("%s%s received %q, want (by chunk stream) %q", s.who, p, s.got[j], s.want[j])
		}
	}
	// what the peer received
	wire := s.wire.Bytes()
	if len(wire) < 3073 || wire[0] != 3 {
		r.Fail("%s%d bytes sent, the handshake alone has 3073", s.who, len(wire))
	}
	d := kit.NewDec(128, wire[3073:])
	var heads []kit.Msg
	for k := 0; k < 2; k++ {
		m, err := d.Next()
		if err != nil || m == nil {
			r.Fail("%soutgoing stream: message %d: %v", s.who, k, err)
		}
		heads = append(heads, *m)
	}
	if heads[0].Type != 1 || heads[1].Type != 5 {
		r.Fail("%soutgoing stream starts with %v, %v", s.who, heads[0], heads[1])
	}
	d.Size = 4096
	var next [4]int
	for {
		m, err := d.Next()
		if err != nil {
			r.Fail("%soutgoing stream: %v (so far %v)", s.who, err, s.order)
		}
		if m == nil {
			break
		}
		j := map[uint32]int{3: 0, 5: 1, 4: 2, 2: 3}[m.CSID]
		if next[j] >= len(s.out[j]) {
			r.Fail("%soutgoing stream has an extra message %v", s.who, m)
		}
		if df := kit.SameMsg(s.out[j][next[j]], *m); df != "" {
			r.Fail("%soutgoing message %d of part %d: %s", s.who, next[j], j, df)
		}
		next[j]++
		s.order = append(s.order, byte('0'+j))
	}
	s.all = true
	for j := range next {
		if next[j] != len(s.out[j]) {
			r.Fail("%s%d of %d messages of part %d on the wire", s.who, next[j], len(s.out[j]), j)
		}
		s.all = s.all && len(s.got[j]) > 0
		r.Count("messages_received", len(s.got[j]))
		r.Count("messages_sent", len(s.out[j]))
	}
}

// close closes the session's parts; its connection is for the caller to cut.
func (s *ends) close() {
	s.c.Net().Close()
	s.c.Controls().Close()
	s.rw.Wait()
}
