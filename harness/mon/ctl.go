package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// genControl draws a control message and its body as the specification has it.
func genControl(rng *rand.Rand) (control.Control, byte, []byte) {
	v := rng.Uint32()
	if rng.Intn(2) == 0 {
		v = []uint32{0, 1, 127, 128, 0xff, 0x100, 0xffff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}[rng.Intn(14)]
	}
	b := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	switch rng.Intn(6) {
	case 0:
		if v > 0xffffff {
			b = []byte{0, 0xff, 0xff, 0xff}
		}
		return control.NewSetChunkSize(v), 1, b
	case 1:
		return &control.AbortMessage{ChunkStreamId: v}, 2, b
	case 2:
		return &control.Acknowledgement{SequenceNumber: v}, 3, b
	case 3:
		body := kit.Bytes(rng, []int{0, 1, 4, 8, 100, 1000}[rng.Intn(6)])
		t := uint16(v)
		return &control.Event{Type: control.EventType(t), Body: body}, 4, append([]byte{byte(t >> 8), byte(t)}, body...)
	case 4:
		return &control.WindowAckSize{WindowAckSize: v}, 5, b
	default:
		l := byte(rng.Intn(256))
		return &control.SetPeerBandwidth{AckWindowSize: v, LimitType: control.LimitType(l)}, 6, append(b, l)
	}
}

// value is what a control message says, comparable.
func value(c control.Control) string {
	switch x := c.(type) {
	case *control.SetChunkSize:
		return fmt.Sprintf("SetChunkSize %d", x.ChunkSize())
	case *control.Event:
		return fmt.Sprintf("Event %d %x", x.Type, x.Body)
	case *control.AbortMessage:
		return fmt.Sprintf("Abort %d", x.ChunkStreamId)
	case *control.Acknowledgement:
		return fmt.Sprintf("Ack %d", x.SequenceNumber)
	case *control.WindowAckSize:
		return fmt.Sprintf("Window %d", x.WindowAckSize)
	case *control.SetPeerBandwidth:
		return fmt.Sprintf("Bandwidth %d %d", x.AckWindowSize, x.LimitType)
	}
	return fmt.Sprintf("%T %+v", c, c)
}

// fromBody is the reference decoder of control bodies; nil when too short.
func fromBody(t byte, b []byte) string {
	need := map[byte]int{1: 4, 2: 4, 3: 4, 4: 2, 5: 4, 6: 5}[t]
	if need == 0 || len(b) < need {
		return ""
	}
	var v uint32
	for _, x := range b[:min(4, need)] {
		v = v<<8 | uint32(x)
	}
	switch t {
	case 1:
		return fmt.Sprintf("SetChunkSize %d", min(v, 0xffffff))
	case 2:
		return fmt.Sprintf("Abort %d", v)
	case 3:
		return fmt.Sprintf("Ack %d", v)
	case 4:
		return fmt.Sprintf("Event %d %x", uint32(b[0])<<8|uint32(b[1]), b[2:])
	case 5:
		return fmt.Sprintf("Window %d", v)
	}
	return fmt.Sprintf("Bandwidth %d %d", v, b[4])
}

// k01: control messages there and back.
func k01(r *kit.R) {
	r.Rule("a control message with boundary or random fields, chunked, compared with the reference wire form, parsed back, and sent through " +
		"the library's writer and reader; distinct by body and type; non-trivial always")
	// one chunker makes many messages, and those made earlier stay as they are
	shared, parser := control.NewChunker(), control.NewParser()
	type made struct {
		c    *chunk.Chunk
		want kit.Msg
		got  control.Control
		was  string
	}
	var kept []made
	for i := range r.Cases(0, r.N(96000, 400000)) {
		rng := r.Rng(i)
		c, t, body := genControl(rng)
		if i%1000 == 999 && t == 4 {
			n := []int{65530 + rng.Intn(20), 1 << 17, 1<<20 + rng.Intn(5)}[rng.Intn(3)]
			x := kit.Bytes(rng, n)
			c, body = &control.Event{Type: control.EventType(i), Body: x}, append([]byte{byte(i >> 8), byte(i)}, x...)
			r.Count("large_events", 1)
		}
		r.Scenario("%.100s", value(c))
		if c.TypeId() != t {
			r.Fail("%s has type id %d, want %d", value(c), c.TypeId(), t)
		}
		was := value(c)
		ch, err := control.NewChunker().Chunk(c)
		if err != nil {
			r.Fail("chunking %s: %v", was, err)
		}
		want := kit.Msg{CSID: 2, Type: t, Data: body}
		if d := kit.Diff(want, ch); d != "" {
			r.Fail("chunk of %s: %s", was, d)
		}
		if ch.Header.BasicHeader.FormatId != 0 || ch.Header.MessageHeader.FormatId != 0 {
			r.Fail("chunk of %s has format %d/%d", was, ch.Header.BasicHeader.FormatId, ch.Header.MessageHeader.FormatId)
		}
		if value(c) != was {
			r.Fail("chunking changed %s into %s", was, value(c))
		}
		if c2, err := shared.Chunk(c); err != nil {
			r.Fail("chunking %s with a chunker used before: %v", was, err)
		} else if got, err := parser.Parse(c2); err != nil {
			r.Fail("parsing the chunk of %s with a parser used before: %v", was, err)
		} else if kept = append(kept, made{c2, want, got, was}); len(kept) > 12 {
			kept = kept[1:]
		}
		for _, x := range kept {
			if d := kit.Diff(x.want, x.c); d != "" {
				r.Fail("chunk of %s, looked at after later ones were made: %s", x.was, d)
			}
			if value(x.got) != x.was {
				r.Fail("%s, parsed, later became %s", x.was, value(x.got))
			}
		}
		if rng.Intn(5) == 0 { // overwritten by its owner
			x := kept[rng.Intn(len(kept))]
			full := x.c.Data[:cap(x.c.Data)]
			for k := range full {
				full[k] ^= 0xff
			}
			kept = nil
			r.Count("overwritten", 1)
		}
		// a second chunk of the same message shares nothing with the first
		ch2, _ := control.NewChunker().Chunk(c)
		for k := range ch.Data {
			ch.Data[k] ^= 0xff
		}
		ch.Header.MessageHeader.Length++
		if d := kit.Diff(want, ch2); d != "" {
			r.Fail("overwriting one chunk of %s changed another: %s", was, d)
		}
		got, err := control.NewParser().Parse(ch2)
		if err != nil {
			r.Fail("parsing the chunk of %s: %v", was, err)
		}
		if value(got) != was {
			r.Fail("%s came back as %s", was, value(got))
		}
		if d := kit.Diff(want, ch2); d != "" {
			r.Fail("parsing changed the chunk of %s: %s", was, d)
		}
		r.Eval(true, t, body)
		r.Count(fmt.Sprintf("type_%d", t), 1)
		if i < 4 {
			r.Sample("%s <-> % x", was, body[:min(len(body), 12)])
		}
		// faulty transports: an error exactly when the body did not fit
		if i%4 == 0 {
			for t := 0; t <= len(body) && t < 12; t++ {
				s := kit.NewSink()
				s.FailAt = t
				s.Err = kit.WriteFault(rng)
				s.Heal = rng.Intn(2) == 0
				err := c.Write(s)
				if (err == nil) != (t >= len(body)) || !bytes.HasPrefix(body, s.B) {
					r.Fail("%s written to a transport accepting %d of %d bytes: %v, wrote % x", was, t, len(body), err, s.B)
				}
				if err != nil && !errors.Is(err, s.Err) {
					r.Fail("%s written to a transport failing with %v: %v", was, s.Err, err)
				}
			}
		}
		// through the wire; 1 and 2 are interpreted by the reader
		if i%4 == 1 && t != 1 && t != 2 {
			sink := kit.NewSink()
			if err := chunk.NewWriter(sink, 1+rng.Intn(200)).Write(ch2); err != nil {
				r.Fail("writing %s: %v", was, err)
			}
			sink2 := kit.NewSink()
			n := 1 + rng.Intn(200)
			chunk.NewWriter(sink2, n).Write(ch2)
			out, _ := kit.Collect(kit.Frag(rng, sink2.B), n)
			if len(out) != 1 {
				r.Fail("%s sent, %d messages received", was, len(out))
			}
			got, err := control.NewParser().Parse(out[0])
			if err != nil || value(got) != was {
				r.Fail("%s sent over the wire came back as %v (%v)", was, got, err)
			}
		}
	}
	for t := 1; t <= 6; t++ {
		r.Need(fmt.Sprintf("type_%d", t), 100)
	}
	for i := range r.Cases(500_000, r.N(16000, 80000)) {
		readDirectly(r, r.Rng(i))
	}
	r.Need("direct_reads", 10000)
}

// readDirectly decodes a control message from a transport of its own, whole,
// ending at each byte, failing at each byte, and failing there once.
func readDirectly(r *kit.R, rng *rand.Rand) {
	c, t, body := genControl(rng)
	fixed := t != 4
	r.Scenario("%s read directly", value(c))
	fresh := func() control.Control {
		switch t {
		case 1:
			return new(control.SetChunkSize)
		case 2:
			return new(control.AbortMessage)
		case 3:
			return new(control.Acknowledgement)
		case 4:
			return new(control.Event)
		case 5:
			return new(control.WindowAckSize)
		}
		return new(control.SetPeerBandwidth)
	}
	used := func() control.Control { // one that held other values before
		x := fresh()
		other := kit.Bytes(rng, len(body))
		if err := x.Read(bytes.NewReader(other)); err != nil || value(x) != fromBody(t, other) {
			r.Fail("reading % x: %s (%v), want %s", other, value(x), err, fromBody(t, other))
		}
		return x
	}
	for _, mk := range []func() control.Control{fresh, used} {
		all := body
		if fixed {
			all = append(append([]byte(nil), body...), 1, 2, 3)
		}
		src := kit.Frag(rng, all)
		x := mk()
		if err := x.Read(src); err != nil || value(x) != value(c) || src.Off != len(body) {
			r.Fail("%s read from its bytes % x gives %s (%v), %d bytes consumed", value(c), body, value(x), err, src.Off)
		}
		r.Count("direct_reads", 1)
	}
	for cut := 0; cut <= len(body) && cut < 16; cut++ {
		want := fromBody(t, body[:cut])
		// the transport ends here
		src := kit.Frag(rng, body[:cut])
		x := used()
		if err := x.Read(src); (err == nil) != (want != "") || err == nil && value(x) != want {
			r.Fail("%s cut after %d bytes reads as %s (%v)", value(c), cut, value(x), err)
		}
		if fixed && cut == len(body) {
			break
		}
		// it fails here, for good or once
		src = kit.Frag(rng, body[:cut])
		src.End = kit.Fault(rng)
		if err := used().Read(src); !errors.Is(err, src.End) {
			r.Fail("%s read from a transport failing after %d bytes with %q: %v", value(c), cut, src.End, err)
		}
		blip := &kit.Blip{Src: kit.Frag(rng, append(append([]byte(nil), body...), 9, 9, 9, 9, 9)), At: cut, Err: kit.Fault(rng)}
		if err := used().Read(blip); !errors.Is(err, blip.Err) {
			r.Fail("%s read from a transport failing once after %d bytes with %q: %v", value(c), cut, blip.Err, err)
		}
		r.Count("direct_faults", 2)
	}
	r.Eval(true, "direct", t, body)
}

// k02: the parser on anything.
func k02(r *kit.R) {
	r.Rule("a message of any type id with a body of any length and content, given to a parser shared by several goroutines, under the race " +
		"detector; the result is compared with a reference decoder and must stay unaffected by later parses or by changes to the message; " +
		"distinct by type and body")
	p := control.NewParser()
	check := func(t byte, body []byte) (control.Control, string) {
		b := spare(body)
		c := kit.Msg{CSID: 2, Type: t, Data: b}.Chunk()
		fr := freeze(c)
		got, err := p.Parse(c)
		if d := fr.diff(c); d != "" || !spareIntact(b) {
			r.Fail("parsing type %d body % x modified the message: %s", t, body, d)
		}
		want := fromBody(t, body)
		switch {
		case t < 1 || t > 6:
			var u control.UnknownControlType
			if err == nil || got != nil || !errors.As(err, &u) || byte(u) != t {
				r.Fail("type %d parsed as %v, %v", t, got, err)
			}
			r.Count("unknown_types", 1)
			return nil, ""
		case want == "":
			if err == nil {
				r.Fail("type %d with the %d byte body % x parsed as %s", t, len(body), body, value(got))
			}
			r.Count("too_short", 1)
			return nil, ""
		case err != nil:
			r.Fail("type %d body % x: %v", t, body, err)
		case value(got) != want:
			r.Fail("type %d body % x parsed as %s, want %s", t, body, value(got), want)
		case got.TypeId() != t:
			r.Fail("type %d parsed as type %d", t, got.TypeId())
		}
		for k := range b {
			b[k] ^= 0xff
		}
		c.Header.MessageHeader = chunk.MessageHeader{}
		if value(got) != want {
			r.Fail("changing the message afterwards changed the parsed %s into %s", want, value(got))
		}
		r.Count("parsed", 1)
		return got, want
	}
	for range r.Cases(1_000_000, 1) {
		n := 0
		for t := 0; t < 256; t++ {
			for l := 0; l < 12; l++ {
				r.Scenario("type %d, %d bytes", t, l)
				check(byte(t), seq(l))
				n++
			}
		}
		for t := 0; t < 8; t++ {
			for _, l := range []int{32767, 32768, 32770, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 70000, 1<<17 + 3, 1<<20 + 3, 3 << 20} {
				r.Scenario("type %d, %d bytes", t, l)
				check(byte(t), seq(l))
				r.Beat()
				n++
			}
		}
		r.EvalN(n, "grid")
	}
	for i := range r.Cases(0, r.N(900, 4000)) {
		rng := r.Rng(i)
		g := 2 + rng.Intn(5)
		type in struct {
			t byte
			b []byte
		}
		plan := make([][]in, g)
		for a := range plan {
			for k := 0; k < 20; k++ {
				t := byte(1 + rng.Intn(6))
				if rng.Intn(4) == 0 {
					t = byte(rng.Intn(256))
				}
				n := rng.Intn(10)
				if rng.Intn(16) == 0 {
					n = kit.Len(rng, 128, 70000)
				}
				plan[a] = append(plan[a], in{t, kit.Bytes(rng, n)})
			}
		}
		if rng.Intn(2) == 0 {
			p = control.NewParser()
		}
		r.Scenario("%d goroutines sharing a parser", g)
		r.Arm(rng)
		var wg sync.WaitGroup
		for a := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var kept []control.Control
				var vals []string
				for _, x := range plan[a] {
					if c, v := check(x.t, x.b); c != nil {
						kept = append(kept, c)
						vals = append(vals, v)
					}
				}
				for k, c := range kept {
					if value(c) != vals[k] {
						r.Fail("parsed %s later became %s", vals[k], value(c))
					}
				}
			}()
		}
		wg.Wait()
		for a := range plan {
			for _, x := range plan[a] {
				r.Eval(true, x.t, x.b)
			}
		}
		if i < 2 {
			r.Sample("%d goroutines, first parses type %d % x", g, plan[0][0].t, plan[0][0].b)
		}
	}
	r.Need("parsed", 1000)
	r.Need("too_short", 20)
	r.Need("unknown_types", 20)
}

// fakeStream is a chunk stream fed by the monitor.
type fakeStream chan *chunk.Chunk

func (f fakeStream) In() <-chan *chunk.Chunk { return f }

// malformed makes a control message one that has to be refused.
func malformed(rng *rand.Rand, t byte, body []byte) (byte, []byte) {
	if rng.Intn(3) == 0 {
		return []byte{0, 7, 8, 20, 99, 128, 255, byte(20 + rng.Intn(200))}[rng.Intn(8)], kit.Bytes(rng, rng.Intn(8))
	}
	return t, body[:rng.Intn(map[byte]int{1: 4, 2: 4, 3: 4, 4: 2, 5: 4, 6: 5}[t])]
}

// k03: the duplex control stream.
func k03(r *kit.R) {
	r.Rule("a control stream with concurrent incoming messages (some malformed) and outgoing ones (some hitting transport faults), with " +
		"independent consumers, schedule perturbed, under the race detector; distinct by interleaving of the four event kinds; non-trivial " +
		"when incoming and outgoing events alternate")
	for i := range r.Cases(0, r.N(350, 8000)) {
		rng := r.Rng(i)
		nin, nout := 3+rng.Intn(20), 3+rng.Intn(20)
		away := rng.Intn(12) // 0: of both, 1: of messages, 2: of errors
		faulty := 4
		if rng.Intn(8) == 0 {
			nin, nout = 100+rng.Intn(300), 100+rng.Intn(300)
			away = rng.Intn(5)
			if rng.Intn(2) == 0 {
				faulty = 200
			}
		}
		var feed []*chunk.Chunk
		var wantIn []string
		bad := 0
		for k := 0; k < nin; k++ {
			c, t, body := genControl(rng)
			if rng.Intn(faulty) == 0 {
				bad++
				t, body = malformed(rng, t, body)
			} else {
				wantIn = append(wantIn, value(c))
			}
			feed = append(feed, kit.Msg{CSID: 2, Type: t, Data: body}.Chunk())
		}
		sink := kit.NewFlaky()
		var outs []control.Control
		for k := 0; k < nout; k++ {
			c, t, body := genControl(rng)
			outs = append(outs, c)
			sink.Next(rng, kit.Encode(4096, kit.Msg{CSID: 2, Type: t, Data: body}), rng.Intn(faulty+1) == 0)
		}
		werr := len(sink.Errs)
		src := make(fakeStream)
		s := control.NewStream(src, chunk.NewWriter(sink, 4096), control.NewParser(), control.NewChunker())
		r.Scenario("%d incoming (%d bad), %d outgoing (%d failing)", nin, bad, nout, werr)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		var wg sync.WaitGroup
		var mu sync.Mutex
		var order []byte
		tag := func(b byte) { mu.Lock(); order = append(order, b); mu.Unlock() }
		wg.Add(2)
		go func() {
			defer wg.Done()
			for _, c := range feed {
				src <- c
				tag('i')
			}
		}()
		go func() {
			defer wg.Done()
			for _, c := range outs {
				s.Out() <- c
				tag('o')
			}
		}()
		if away == 0 { // the application is busy elsewhere
			r.Quiesce()
		}
		var gotIn []string
		var errs []error
		cons := make(chan struct{})
		back := make(chan struct{})
		var cw sync.WaitGroup
		cw.Add(2)
		go func() {
			defer cw.Done()
			if away == 1 {
				<-back
			}
			for {
				select {
				case c, ok := <-s.In():
					if !ok {
						return
					}
					gotIn = append(gotIn, value(c))
					tag('I')
				case <-cons:
					return
				}
			}
		}()
		go func() {
			defer cw.Done()
			if away == 2 {
				<-back
			}
			for {
				select {
				case e, ok := <-s.Errs():
					if !ok {
						return
					}
					errs = append(errs, e)
					tag('E')
				case <-cons:
					return
				}
			}
		}()
		if away == 1 || away == 2 {
			r.Quiesce()
		}
		close(back)
		wg.Wait()
		r.Quiesce()
		close(cons)
		cw.Wait()
		if fmt.Sprint(gotIn) != fmt.Sprint(wantIn) {
			r.Fail("received %v, want %v", gotIn, wantIn)
		}
		if len(errs) != bad+werr {
			r.Fail("%d errors reported (%v), want %d for malformed messages and %d for failed writes", len(errs), errs, bad, werr)
		}
		for _, e := range errs {
			if e == nil {
				r.Fail("nil error reported")
			}
		}
		if !kit.Contains(errs, sink.Errs) {
			r.Fail("the transport failed with %v, reported were %v", sink.Errs, errs)
		}
		if d := kit.DiffBytes(sink.Want, sink.Bytes()); d != "" {
			r.Fail("outgoing messages on the wire: %s", d)
		}
		stopControl(s)
		<-done
		alt := 0
		for k := 1; k < len(order); k++ {
			if (order[k]|32 == 'i') != (order[k-1]|32 == 'i') {
				alt++
			}
		}
		r.Eval(alt > 2, string(order))
		r.Count("incoming_delivered", len(gotIn))
		r.Count("errors_reported", len(errs))
		r.Count("outgoing_written", nout-werr)
		r.Count("direction_switches", alt)
		if i < 3 {
			r.Sample("event order %s", order)
		}
	}
	r.Need("incoming_delivered", 500)
	r.Need("errors_reported", 200)
	r.Need("direction_switches", 500)
	longControls(r)
	stallControls(r)
}

// stopControl closes a stream whatever it is doing, draining it.
func stopControl(s *control.Stream) {
	done := make(chan struct{})
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		in, errs := s.In(), s.Errs()
		for {
			select {
			case _, ok := <-in:
				if !ok {
					in = nil
				}
			case _, ok := <-errs:
				if !ok {
					errs = nil
				}
			case <-done:
				return
			}
		}
	}()
	s.Close()
	close(done)
	<-gone
}

// k04: closing the control stream; the end of its source.
func k04(r *kit.R) {
	r.Rule("a control stream closed while idle, busy, or blocked on a consumer that never reads messages or errors, or whose source ended " +
		"first, schedule perturbed, under the race detector; distinct by situation and amount of traffic")
	situations := []string{"idle", "blocked on a message nobody takes", "blocked on an error nobody takes", "blocked on a write error nobody takes",
		"busy", "source ended", "source ended, still sending", "before it runs"}
	for i := range r.Cases(0, r.N(1920, 8000)) {
		rng := r.Rng(i)
		k := i % len(situations)
		src := make(fakeStream)
		sink := kit.NewFlaky()
		if k == 3 {
			sink = kit.Fails()
		}
		s := control.NewStream(src, chunk.NewWriter(sink, 128), control.NewParser(), control.NewChunker())
		done := make(chan struct{})
		r.Scenario("close while %s", situations[k])
		r.Arm(rng)
		good := func() *chunk.Chunk { return kit.Msg{CSID: 2, Type: 5, Data: []byte{0, 1, 2, 3}}.Chunk() }
		run := func() { go func() { s.Recv(); close(done) }() }
		traffic := rng.Intn(4)
		closers := 1
		if rng.Intn(3) == 0 {
			closers = 2 + rng.Intn(3)
			r.Count("closed_by_several_at_once", 1)
		}
		if k != 7 {
			run()
			for t := 0; t < traffic; t++ {
				src <- good()
				if c, ok := <-s.In(); !ok || value(c) != "Window 66051" {
					r.Fail("delivered %v, %v", c, ok)
				}
			}
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		switch k {
		case 1:
			src <- good()
			maybe(r, rng)
		case 2:
			src <- kit.Msg{CSID: 2, Type: 99}.Chunk()
			maybe(r, rng)
		case 3:
			s.Out() <- &control.WindowAckSize{WindowAckSize: 1}
			maybe(r, rng)
		case 4:
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case src <- good():
					case <-stop:
						return
					}
				}
			}()
			for t := 0; t < rng.Intn(10); t++ {
				<-s.In()
			}
		case 5, 6:
			close(src)
			maybe(r, rng)
			if k == 6 {
				for t := 0; t < 3; t++ {
					s.Out() <- &control.WindowAckSize{WindowAckSize: uint32(t)}
				}
				r.Quiesce()
				e := kit.NewEnc(128)
				for t := 0; t < 3; t++ {
					e.All(kit.Msg{CSID: 2, Type: 5, Data: []byte{0, 0, 0, byte(t)}})
				}
				if d := kit.DiffBytes(e.B, sink.Bytes()); d != "" {
					r.Fail("sent after the source ended: %s", d)
				}
			}
		case 7:
			closed := make(chan struct{})
			go func() { kit.AtOnce(closers, s.Close); close(closed) }()
			maybe(r, rng)
			run()
			<-closed
		}
		if k != 7 {
			kit.AtOnce(closers, s.Close)
		}
		<-done
		close(stop)
		wg.Wait()
		// what was in flight may still be there; then the channels are closed
		for n := 0; ; n++ {
			if _, ok := <-s.In(); !ok {
				break
			} else if n > 3 {
				r.Fail("messages keep coming after Close")
			}
		}
		for n := 0; ; n++ {
			if _, ok := <-s.Errs(); !ok {
				break
			} else if n > 3 {
				r.Fail("errors keep coming after Close")
			}
		}
		if !isClosed(s.Out()) {
			r.Fail("after Close while %s, the outgoing channel is not closed", situations[k])
		}
		r.End()
		if l := kit.Running("WatchBeam/rtmp/control."); len(l) > 0 {
			r.Quiesce()
			if l := kit.Running("WatchBeam/rtmp/control."); len(l) > 0 {
				r.Fail("goroutine left after close while %s:\n%s", situations[k], l[0])
			}
		}
		r.Eval(true, k, traffic, i/len(situations))
		r.Count("closed_while_"+situations[k], 1)
	}
	r.Sample("situations: %v", situations)
	_ = reflect.TypeOf
	for _, s := range situations {
		r.Need("closed_while_"+s, 5)
	}
	stallControlCloses(r)
}

// isClosed tells whether a channel nobody receives from has been closed, and
// does not merely leave its senders waiting.
func isClosed(out chan<- control.Control) (closed bool) {
	defer func() { closed = recover() != nil }()
	select {
	case out <- &control.Acknowledgement{}:
	default:
	}
	return
}

// maybe waits for everything to be blocked, or just yields.
func maybe(r *kit.R, rng *rand.Rand) {
	switch rng.Intn(3) {
	case 0:
		r.Quiesce()
	case 1:
		kit.Yield()
	}
}
