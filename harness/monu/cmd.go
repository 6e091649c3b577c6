package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

func newArray(o kv) *amf0.Array {
	x := amf0.NewArray()
	for _, p := range o {
		x.Add(p[0], amf0.NewString(p[1]))
	}
	return x
}

// source is a chunk stream fed by the monitor.
type source chan *chunk.Chunk

func (s source) In() <-chan *chunk.Chunk { return s }

func maybe(r *kit.R, rng *rand.Rand) {
	switch rng.Intn(3) {
	case 0:
		r.Quiesce()
	case 1:
		kit.Yield()
	}
}

// where says which parts a message belongs to.
func where(csid, msid uint32, typ byte) (netConn, netStream, dataStream bool) {
	netConn = csid == 3 || (csid == 8 && msid == 0)
	netStream = typ == 20 && (csid == 4 || (csid == 8 && msid == 1))
	dataStream = csid == 4 && (typ == 8 || typ == 9 || typ == 18)
	return
}

type gateFunc func(*chunk.Chunk) bool

func (f gateFunc) Open(c *chunk.Chunk) bool { return f(c) }

// u03: which messages reach which part.
func u03(r *kit.R) {
	r.Rule("every combination of chunk stream id 0..70 and edges, message stream id and type id against the three gates; random trees of " +
		"combined gates; and random messages through a running manager, each of which must cause exactly one event in each part it " +
		"belongs to and none elsewhere, under the race detector; distinct by combination, tree or message sequence")
	for range r.Cases(1_000_000, 1) {
		n := 0
		var ids []uint32
		for k := uint32(0); k <= 70; k++ {
			ids = append(ids, k)
		}
		ids = append(ids, 259, 260, 264, 319, 320, 65539, 65540, 65544, 65599)
		for _, id := range ids {
			for _, ms := range []uint32{0, 1, 2, 3, 4, 8, 255, 256, 257, 1 << 16, 1<<24 + 1, 0xffffffff} {
				for t := 0; t < 256; t++ {
					c := kit.Msg{CSID: id, MSID: ms, Type: byte(t)}.Chunk()
					a, b, d := where(id, ms, byte(t))
					if cmd.NetConnGate.Open(c) != a || cmd.NetStreamGate.Open(c) != b || cmd.DataStreamGate.Open(c) != d {
						r.Fail("chunk stream %d, message stream %d, type %d: gates %v %v %v, want %v %v %v", id, ms, t,
							cmd.NetConnGate.Open(c), cmd.NetStreamGate.Open(c), cmd.DataStreamGate.Open(c), a, b, d)
					}
					n++
				}
			}
		}
		r.EvalN(n, "gates")
		r.Count("gate_decisions", n*3)
	}
	for i := range r.Cases(2_000_000, r.N(15000, 100000)) {
		rng := r.Rng(i)
		c := kit.Msg{CSID: uint32(rng.Intn(4)), MSID: uint32(rng.Intn(4)), Type: byte(rng.Intn(4))}.Chunk()
		g, want, text := tree(rng, c, 3)
		if g.Open(c) != want {
			r.Fail("gate %s is open: %v, want %v", text, g.Open(c), want)
		}
		r.Eval(true, text)
		r.Count("combined_gates", 1)
	}
	for i := range r.Cases(0, r.N(120, 1500)) {
		rng := r.Rng(i)
		src := make(source)
		sink := kit.NewSink()
		m := cmd.New(src, chunk.NewWriter(sink, 4096))
		n := 30 + rng.Intn(40)
		var feed []kit.Msg
		want := [3][]string{}
		for k := 0; k < n; k++ {
			var x kit.Msg
			var v string
			switch rng.Intn(4) {
			case 0:
				x, v = genConn(rng)
			case 1:
				x, v = genStream(rng)
			case 2:
				x, v = genData(rng)
			case 3:
				x = kit.Msg{CSID: uint32(2 + rng.Intn(9)), MSID: uint32(rng.Intn(3)), Type: []byte{8, 9, 0x12, 0x14, 5}[rng.Intn(5)]}
			}
			if rng.Intn(6) == 0 && v != "" {
				// elsewhere
				x.CSID, x.MSID = []uint32{5, 6, 7, 9}[rng.Intn(4)], uint32(rng.Intn(2))
			}
			a, b, d := where(x.CSID, x.MSID, x.Type)
			for j, on := range []bool{a, b, d} {
				if on {
					want[j] = append(want[j], v)
				}
			}
			feed = append(feed, x)
		}
		r.Scenario("%d messages through a manager", n)
		r.Arm(rng)
		done := make(chan struct{})
		ps := []*pump{connPump(m.NetConn()), streamPump(m.NetStream()), dataPump(m.DataStream())}
		parted := rng.Intn(3) == 0 // the parts are run by the application
		var loops sync.WaitGroup
		if parted {
			for _, f := range []func(){m.NetConn().Listen, m.NetStream().Listen, m.DataStream().Recv} {
				loops.Add(1)
				go func() { defer loops.Done(); f() }()
			}
			r.Count("parts_run_apart", 1)
		}
		go func() { m.Dispatch(!parted); close(done) }()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var got [3][]string
		var bad [3]int
		for j, p := range ps {
			wg.Add(2)
			go func() { defer wg.Done(); p.consume(func(s string) { got[j] = append(got[j], s) }, stop) }()
			go func() {
				defer wg.Done()
				eat(p.errs, func(error) string { return "" })(func(string) { bad[j]++ }, stop)
			}()
		}
		for _, x := range feed {
			src <- x.Chunk()
		}
		r.Quiesce()
		close(stop)
		wg.Wait()
		ev := 0
		for j, p := range ps {
			var w []string
			wb := 0
			for _, v := range want[j] {
				if v == "" {
					wb++
				} else {
					w = append(w, v)
				}
			}
			if fmt.Sprint(got[j]) != fmt.Sprint(w) || bad[j] != wb {
				r.Fail("%s: %d errors and %q, want %d errors and %q", p.name, bad[j], got[j], wb, w)
			}
			ev += len(want[j])
		}
		m.Close()
		<-done
		if parted { // the manager is gone; the parts still send, and can be closed
			for _, p := range ps {
				was := len(sink.Bytes())
				f, x := p.genOut(rng)
				f()
				r.Quiesce()
				if d := kit.DiffBytes(kit.Encode(4096, x), sink.Bytes()[was:]); d != "" {
					r.Fail("%s, run by the application, after its manager was closed: %s", p.name, d)
				}
				p.close()
			}
			loops.Wait()
		}
		r.Eval(ev > 0, fmt.Sprint(want), n)
		r.Count("dispatched_events", ev)
		r.Count("messages_for_nobody", n-ev)
		if i < 3 {
			r.Sample("%d messages, events per part %d %d %d", n, len(want[0]), len(want[1]), len(want[2]))
		}
	}
	r.Need("dispatched_events", 300)
	r.Need("messages_for_nobody", 50)
	r.Need("parts_run_apart", 10)
	longDispatch(r)
	stallManager(r)
}

// tree draws a gate together with its value for c.
func tree(rng *rand.Rand, c *chunk.Chunk, depth int) (cmd.Gate, bool, string) {
	k := rng.Intn(6)
	if depth == 0 {
		k = rng.Intn(4)
	}
	v := rng.Intn(4)
	switch k {
	case 0:
		return &cmd.StreamIdGate{StreamId: uint32(v)}, c.Header.BasicHeader.StreamId == uint32(v), fmt.Sprintf("cs%d", v)
	case 1:
		return &cmd.MessageStreamGate{StreamId: uint32(v)}, c.Header.MessageHeader.StreamId == uint32(v), fmt.Sprintf("ms%d", v)
	case 2:
		return &cmd.TypeIdGate{TypeId: byte(v)}, c.Header.MessageHeader.TypeId == byte(v), fmt.Sprintf("t%d", v)
	case 3:
		b := v%2 == 0
		return gateFunc(func(*chunk.Chunk) bool { return b }), b, fmt.Sprint(b)
	}
	n := rng.Intn(4)
	if rng.Intn(12) == 0 {
		n += rng.Intn(40)
	}
	var gs []cmd.Gate
	all, any := n > 0, false
	text := ""
	for j := 0; j < n; j++ {
		g, w, t := tree(rng, c, depth-1)
		gs = append(gs, g)
		all = all && w
		any = any || w
		text += t + ","
	}
	if k == 4 {
		return cmd.NewUnionGate(gs...), all, "all(" + text + ")"
	}
	return cmd.NewAnyGate(gs...), any, "any(" + text + ")"
}

// u04: each command stream on its own.
func u04(r *kit.R) {
	r.Rule("a NetConnection, NetStream or data stream with concurrent incoming messages (some unintelligible) and outgoing ones (some hitting " +
		"transport faults, some that cannot be encoded), with independent consumers, schedule perturbed, under the race detector; distinct by interleaving; non-trivial when " +
		"incoming and outgoing events alternate")
	for i := range r.Cases(0, r.N(210, 6000)) {
		rng := r.Rng(i)
		kind := kinds[i%3]
		feed := make(chan *chunk.Chunk)
		sink := kit.NewFlaky()
		p, run := build(kind, feed, chunk.NewWriter(sink, 4096))
		nin, nout := 3+rng.Intn(15), 3+rng.Intn(15)
		away := rng.Intn(12) // 0: of both, 1: of messages, 2: of errors
		faulty := 5
		calm := false
		if rng.Intn(8) == 0 {
			nin, nout = 100+rng.Intn(200), 100+rng.Intn(200)
			away = rng.Intn(5)
			if calm = rng.Intn(2) == 0; calm {
				faulty = 200
			}
		}
		var msgs []kit.Msg
		var want []string
		bad, werr := 0, 0
		for k := 0; k < nin; k++ {
			m, v := p.genIn(rng)
			for v == "" && calm && rng.Intn(50) > 0 {
				m, v = p.genIn(rng)
			}
			msgs = append(msgs, m)
			if v == "" {
				bad++
			} else {
				want = append(want, v)
			}
		}
		var sends []func()
		dumb := 0
		for k := 0; k < nout; k++ {
			if rng.Intn(faulty*2) == 0 {
				sends = append(sends, p.noEncode)
				dumb++
			}
			f, m := p.genOut(rng)
			sends = append(sends, f)
			sink.Next(rng, kit.Encode(4096, m), rng.Intn(faulty) == 0)
		}
		werr = len(sink.Errs)
		unencoded := dumb
		r.Scenario("%s: %d incoming (%d bad), %d outgoing (%d failing)", p.name, nin, bad, nout, werr)
		r.Arm(rng)
		done := make(chan struct{})
		go func() { run(); close(done) }()
		var wg, cw sync.WaitGroup
		var mu sync.Mutex
		var order []byte
		tag := func(b byte) { mu.Lock(); order = append(order, b); mu.Unlock() }
		wg.Add(2)
		go func() {
			defer wg.Done()
			for _, m := range msgs {
				feed <- m.Chunk()
				tag('i')
			}
		}()
		go func() {
			defer wg.Done()
			for _, f := range sends {
				f()
				tag('o')
			}
		}()
		if away == 0 { // the application is busy elsewhere
			r.Quiesce()
		}
		stop := make(chan struct{})
		back := make(chan struct{})
		var got []string
		var errs []error
		cw.Add(2)
		go func() {
			defer cw.Done()
			if away == 1 {
				<-back
			}
			p.consume(func(s string) { got = append(got, s); tag('I') }, stop)
		}()
		go func() {
			defer cw.Done()
			if away == 2 {
				<-back
			}
			for {
				select {
				case e, ok := <-p.errs:
					if !ok {
						return
					}
					errs = append(errs, e)
					tag('E')
				case <-stop:
					return
				}
			}
		}()
		if away == 1 || away == 2 {
			r.Quiesce()
		}
		close(back)
		wg.Wait()
		r.Quiesce()
		close(stop)
		cw.Wait()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			r.Fail("%s received %q, want %q", p.name, got, want)
		}
		for _, e := range errs {
			if e == nil {
				r.Fail("%s reported a nil error", p.name)
			}
			if errors.Is(e, errStubborn) {
				dumb--
			}
		}
		if dumb != 0 {
			r.Fail("%s reported the failures to encode an item %d times too few", p.name, dumb)
		}
		if dumb = unencoded; len(errs) != bad+werr+dumb || !kit.Contains(errs, sink.Errs) {
			r.Fail("%s reported %d errors (%v), want %d, the transport failing with %v", p.name, len(errs), errs, bad+werr+dumb, sink.Errs)
		}
		if d := kit.DiffBytes(sink.Want, sink.Bytes()); d != "" {
			r.Fail("%s: outgoing messages on the wire: %s", p.name, d)
		}
		p.close()
		<-done
		alt := 0
		for k := 1; k < len(order); k++ {
			if (order[k]|32 == 'i') != (order[k-1]|32 == 'i') {
				alt++
			}
		}
		r.Eval(alt > 2, kind, string(order), want)
		r.Count("incoming_delivered", len(got))
		r.Count("errors_reported", len(errs))
		r.Count("outgoing_unencodable", dumb)
		r.Count("outgoing_written", nout-werr)
		r.Count("direction_switches", alt)
		if i < 3 {
			r.Sample("%s: event order %s, received %.100q", p.name, order, got)
		}
	}
	r.Need("incoming_delivered", 300)
	r.Need("errors_reported", 100)
	r.Need("direction_switches", 300)
	longPumps(r)
	stallPumps(r)
}

// u05: status commands.
func u05(r *kit.R) {
	r.Rule("several goroutines making onStatus commands at once, overwriting the ones they made, under the race detector; each must stay equal " +
		"to the reference encoding of its own arguments; distinct by arguments; non-trivial with two or more commands")
	for i := range r.Cases(0, r.N(1800, 8000)) {
		rng := r.Rng(i)
		g := 2 + rng.Intn(4)
		plan := make([][]kv, g)
		for a := range plan {
			for k := 0; k < 6; k++ {
				plan[a] = append(plan[a], genKV(rng))
			}
		}
		r.Arm(rng)
		var wg sync.WaitGroup
		for a := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var cs []*chunk.Chunk
				check := func(k int, c *chunk.Chunk) {
					m := kit.Msg{CSID: 5, Type: 0x14, MSID: 1, Data: statusBody(plan[a][k])}
					if d := kit.Diff(m, c); d != "" {
						r.Fail("onStatus %v: %s", plan[a][k], d)
					}
				}
				ss := make([]*stream.Status, len(plan[a]))
				early := (i+a)%2 == 0 // all made before the first is filled
				for k := range ss {
					if early {
						ss[k] = stream.NewStatus()
					}
				}
				for k, o := range plan[a] {
					s := ss[k]
					if s == nil {
						s = stream.NewStatus()
					}
					if k%2 == 0 {
						s.Arguments = *o.object()
					} else {
						for _, p := range o {
							s.Arguments.Add(p[0], amf0.NewString(p[1]))
						}
					}
					ss[k] = s
					if early && k < len(ss)-1 {
						continue
					}
					if early {
						for k, s := range ss[:len(ss)-1] {
							c, err := s.AsChunk()
							if err != nil {
								r.Fail("onStatus %v: %v", plan[a][k], err)
							}
							check(k, c)
							cs = append(cs, c)
						}
					}
					c, err := s.AsChunk()
					if err != nil {
						r.Fail("onStatus %v: %v", o, err)
					}
					check(k, c)
					cs = append(cs, c)
				}
				for k, c := range cs {
					check(k, c)
					full := c.Data[:cap(c.Data)]
					for j := range full {
						full[j] ^= 0xff
					}
					c.Header.MessageHeader.Length++
				}
				// the statuses can be encoded again, by their bodies alone too
				for k, s := range ss {
					body := statusBody(plan[a][k])
					body = body[len(stream.OnStatusCommandHeader):]
					for n := 0; n < 2; n++ {
						data, err := s.Data()
						if err != nil {
							r.Fail("onStatus %v: %v", plan[a][k], err)
						}
						if d := kit.DiffBytes(body, data); d != "" {
							r.Fail("body of onStatus %v, encoded for time %d: %s", plan[a][k], n+2, d)
						}
						full := data[:cap(data)]
						for j := range full {
							full[j] ^= 0xff
						}
					}
					c, err := s.AsChunk()
					if err != nil {
						r.Fail("onStatus %v: %v", plan[a][k], err)
					}
					check(k, c)
					// with other arguments it is another command
					o := plan[a][(k+1)%len(plan[a])]
					s.Arguments = *o.object()
					if c, err = s.AsChunk(); err != nil {
						r.Fail("onStatus %v: %v", o, err)
					}
					check((k+1)%len(plan[a]), c)
				}
			}()
		}
		wg.Wait()
		bad := stream.NewStatus()
		bad.Arguments.Add("x", amf0.NewString("y"))
		bad.Arguments.Add("z", stubborn{})
		if c, err := bad.AsChunk(); !errors.Is(err, errStubborn) {
			r.Fail("a status that cannot be encoded is made into %v, %v", c, err)
		}
		r.Eval(true, fmt.Sprint(plan))
		r.Count("statuses", g*6)
		if i < 3 {
			r.Sample("%d goroutines, first %v", g, plan[0][0])
		}
	}
	r.Need("statuses", 500)
}

// u06: closing.
func u06(r *kit.R) {
	r.Rule("a NetConnection, NetStream, data stream, or a manager with all three, closed while idle, busy, blocked on an item or error nobody " +
		"takes, after its source ended, or before it runs, schedule perturbed, under the race detector; distinct by part, situation and traffic")
	sit := []string{"idle", "blocked on an item", "blocked on an error", "blocked on a write error", "busy", "source ended", "before it runs"}
	parts := []string{"conn", "stream", "data", "manager"}
	for i := range r.Cases(0, r.N(1344, 8000)) {
		rng := r.Rng(i)
		k := i % len(sit)
		kind := parts[(i/len(sit))%4]
		feed := make(source)
		w := chunk.NewWriter(kit.Fails(), 4096)
		var ps []*pump
		var run, closeAll func()
		if kind == "manager" {
			m := cmd.New(feed, w)
			ps = []*pump{connPump(m.NetConn()), streamPump(m.NetStream()), dataPump(m.DataStream())}
			run, closeAll = func() { m.Dispatch(true) }, m.Close
		} else {
			p, f := build(kind, feed, w)
			ps, run, closeAll = []*pump{p}, f, p.close
		}
		pick := func(good bool) (*pump, kit.Msg) {
			p := ps[rng.Intn(len(ps))]
			for {
				m, v := p.genIn(rng)
				a, b, d := where(m.CSID, m.MSID, m.Type)
				if (v != "") == good && (a || b || d) {
					return p, m
				}
			}
		}
		r.Scenario("%s closed while %s", kind, sit[k])
		r.Arm(rng)
		done := make(chan struct{})
		start := func() { go func() { run(); close(done) }() }
		stop := make(chan struct{})
		var wg sync.WaitGroup
		drain := func() {
			for _, p := range ps {
				wg.Add(2)
				go func() { defer wg.Done(); p.consume(func(string) {}, stop) }()
				go func() { defer wg.Done(); eat(p.errs, func(error) string { return "" })(func(string) {}, stop) }()
			}
		}
		traffic := rng.Intn(4)
		closers := 1
		if rng.Intn(3) == 0 {
			closers = 2 + rng.Intn(3)
			r.Count("closed_by_several_at_once", 1)
		}
		if k < 6 {
			start()
			for t := 0; t < traffic; t++ {
				p, m := pick(true)
				feed <- m.Chunk()
				one := make(chan struct{})
				p.consume(func(string) { close(one) }, one)
			}
		}
		switch k {
		case 1:
			for t := 0; t <= rng.Intn(2); t++ {
				_, m := pick(true)
				if t == 0 {
					feed <- m.Chunk()
				} else {
					select {
					case feed <- m.Chunk():
					default:
					}
				}
			}
			maybe(r, rng)
		case 2:
			_, m := pick(false)
			feed <- m.Chunk()
			maybe(r, rng)
		case 3:
			p := ps[rng.Intn(len(ps))]
			if f, _ := p.genOut(rng); rng.Intn(2) == 0 {
				f()
			} else {
				p.noEncode()
			}
			maybe(r, rng)
		case 4:
			drain()
			wg.Add(1)
			msgs := make([]kit.Msg, 20)
			for t := range msgs {
				_, msgs[t] = pick(rng.Intn(3) > 0)
			}
			go func() {
				defer wg.Done()
				for t := 0; ; t++ {
					select {
					case feed <- msgs[t%20].Chunk():
					case <-stop:
						return
					}
				}
			}()
			for t := 0; t < rng.Intn(30); t++ {
				kit.Yield()
			}
		case 5:
			close(feed)
			maybe(r, rng)
		case 6:
			c := make(chan struct{})
			go func() { kit.AtOnce(closers, closeAll); close(c) }()
			maybe(r, rng)
			start()
			<-c
		}
		if k != 6 {
			kit.AtOnce(closers, closeAll)
		}
		<-done
		close(stop)
		wg.Wait()
		r.End()
		for _, p := range ps {
			if p.ends {
				// the end is visible to consumers; at most one item was in flight
				n := 0
				p.consume(func(string) {
					if n++; n > 3 {
						r.Fail("%s keeps delivering after Close", p.name)
					}
				}, nil)
				n = 0
				for range p.errs {
					if n++; n > 3 {
						r.Fail("%s keeps reporting errors after Close", p.name)
					}
				}
			}
		}
		subs := []string{"WatchBeam/rtmp/cmd"}
		if len(kit.Running(subs...)) > 0 {
			r.Quiesce()
			if l := kit.Running(subs...); len(l) > 0 {
				r.Fail("goroutine left after %s was closed while %s:\n%s", kind, sit[k], l[0])
			}
		}
		r.Eval(true, k, kind, traffic, i)
		r.Count("closed_"+kind, 1)
		r.Count("closed_while_"+sit[k], 1)
	}
	r.Sample("parts %v, situations %v", parts, sit)
	for _, s := range sit {
		r.Need("closed_while_"+s, 10)
	}
	stallPartCloses(r)
}

// u07: audio and video frames.
func u07(r *kit.R) {
	r.Rule("an audio or video message with every control byte, random payload and header, parsed, inspected and marshalled back; distinct by " +
		"type, control byte and payload")
	// an application may hold on to what it was given, as a queue does
	type held struct {
		d data.Data
		v string
	}
	var queue []held
	keep := func(rng *rand.Rand, d data.Data, v string) {
		queue = append(queue, held{d, v})
		if len(queue) > 64 {
			k := rng.Intn(len(queue))
			if now := dataValue(queue[k].d); now != queue[k].v {
				r.Fail("a frame that read %.200s when it was parsed reads %.200s after others were", queue[k].v, now)
			}
			queue[k] = queue[64]
			queue = queue[:64]
			r.Count("held_frames", 1)
		}
	}
	for i := range r.Cases(0, r.N(20000, 100000)) {
		rng := r.Rng(i)
		m := frame(rng)
		m.Fmt = byte(rng.Intn(4))
		m.Delta = m.Fmt > 0 && rng.Intn(2) == 0
		m.CSID = kit.CSID(rng)
		ctl := byte(i)
		m.Data[0] = ctl
		c := m.Chunk()
		r.Scenario("%v control %#02x", m, ctl)
		d, err := data.DefaultParser.Parse(c)
		if err != nil {
			r.Fail("parsing %v: %v", m, err)
		}
		if d.Id() != m.Type {
			r.Fail("type %d parsed as type %d", m.Type, d.Id())
		}
		check := func(what string, want, got int) {
			if want != got {
				r.Fail("type %d control byte %#02x: %s is %d, want %d", m.Type, ctl, what, got, want)
			}
		}
		switch x := d.(type) {
		case *data.Audio:
			check("codec", int(ctl>>4), int(x.Codec()))
			check("channels", int(ctl&1), int(x.Type()))
			if want := 5.5 * float32(int(1)<<(ctl>>2&3)); x.Rate() != want {
				if x.Rate() != 5.5*float32(2^(ctl>>2&3)) {
					r.Fail("control byte %#02x: sample rate is %v kHz, the rate index stands for %v", ctl, x.Rate(), want)
				}
				r.Finding("audio-rate", "control byte %#02x: sample rate is %v kHz, the rate index stands for %v", ctl, x.Rate(), want)
			}
			if want := 8 << (ctl >> 1 & 1); x.Size() != want {
				if x.Size() != 8*int(2^(ctl>>1&1)) {
					r.Fail("control byte %#02x: sample size is %d bits, the size bit stands for %d", ctl, x.Size(), want)
				}
				r.Finding("audio-size", "control byte %#02x: sample size is %d bits, the size bit stands for %d", ctl, x.Size(), want)
			}
		case *data.Video:
			check("codec", int(ctl&15), int(x.Codec()))
			check("frame type", int(ctl>>4), int(x.Type()))
		default:
			r.Fail("type %d parsed as %T", m.Type, d)
		}
		v := fmt.Sprintf("%d %x %x", m.Type, ctl, m.Data[1:])
		if now := dataValue(d); now != v {
			r.Fail("%v parsed as %s", m, now)
		}
		if len(m.Data) < 600 {
			keep(rng, d, v)
		}
		back, err := d.Marshal()
		if err != nil {
			r.Fail("marshalling %v: %v", m, err)
		}
		if df := kit.Diff(m, back); df != "" {
			r.Fail("%v relayed: %s", m, df)
		}
		if was, now := onWire(r, m.Chunk()), onWire(r, back); was != now {
			r.Fail("%v is %.100x on the wire and %.100x when relayed", m, was, now)
		}
		empty := m
		empty.Data = nil
		if _, err := data.DefaultParser.Parse(empty.Chunk()); err != data.ErrControlMissing {
			r.Fail("empty message of type %d: %v", m.Type, err)
		}
		other := m
		other.Type = byte(rng.Intn(256))
		if other.Type != 8 && other.Type != 9 && other.Type != 18 {
			if x, err := data.DefaultParser.Parse(other.Chunk()); err == nil || x != nil {
				r.Fail("message of type %d parsed as %v, %v", other.Type, x, err)
			}
		}
		r.Eval(true, m.Type, m.Data)
		r.Count(fmt.Sprintf("frames_type_%d", m.Type), 1)
		if i < 3 {
			r.Sample("%v control %#02x", m, ctl)
		}
	}
	// data frames survive a round trip
	for i := range r.Cases(1_000_000, r.N(5000, 20000)) {
		rng := r.Rng(i)
		h, t, o := word(rng), word(rng), genKV(rng)
		body := cat(aStr(h), aStr(t), aArr(o))
		m := kit.Msg{CSID: 4, Type: 0x12, MSID: 1, Data: body}
		d, err := data.DefaultParser.Parse(m.Chunk())
		if err != nil {
			r.Fail("data frame: %v", err)
		}
		if v := dataValue(d); v != fmt.Sprintf("frame %s %s %v", h, t, o) {
			r.Fail("data frame %s %s %v parsed as %s", h, t, o, v)
		} else {
			keep(rng, d, v)
		}
		back, err := d.Marshal()
		if err != nil {
			r.Fail("data frame: %v", err)
		}
		if df := kit.Diff(m, back); df != "" {
			r.Fail("data frame relayed: %s", df)
		}
		r.Eval(true, body)
		r.Count("data_frames", 1)
		if rng.Intn(3) > 0 {
			continue
		}
		// the frame ends too soon
		short := m
		short.Data = body[:rng.Intn(len(body))]
		switch rng.Intn(4) {
		case 0:
			short.Data = nil
		case 1:
			short.Data = body[:len(aStr(h))]
		case 2:
			short.Data = body[:len(aStr(h))+len(aStr(t))]
		}
		if x, err := data.DefaultParser.Parse(short.Chunk()); err == nil {
			r.Fail("data frame %s %s %v, cut after %d of %d bytes, parsed as %s", h, t, o, len(short.Data), len(body), dataValue(x))
		}
		r.Count("cut_frames", 1)
	}
	for range r.Cases(2_000_000, 1) {
		named(r)
	}
	r.Need("frames_type_8", 500)
	r.Need("frames_type_9", 500)
	r.Need("held_frames", 5000)
}

// onWire is what a writer makes of the message.
func onWire(r *kit.R, c *chunk.Chunk) string {
	sink := kit.NewSink()
	err := chunk.NewWriter(sink, 4096).Write(c)
	return fmt.Sprintf("%s %v", sink.Bytes(), err)
}

// named checks the names given to codecs, layouts and frame types against the
// numbers that Adobe's FLV specification (E.4.2.1, E.4.3.1) has for them.
func named(r *kit.R) {
	n := 0
	for _, x := range []struct {
		key        string
		name       string
		want, here int // here: what the library has, where it departs
		got        int
	}{
		{"", "AudioTypeId", 8, 8, int(data.AudioTypeId)},
		{"", "VideoTypeId", 9, 9, int(data.VideoTypeId)},
		{"", "UncompressedAudioCodec", 0, 0, int(data.UncompressedAudioCodec)},
		{"", "ADPCMAudioCodec", 1, 1, int(data.ADPCMAudioCodec)},
		{"", "MP3AudioCodec", 2, 2, int(data.MP3AudioCodec)},
		{"", "UncompressedLittleEndianAudioCodec", 3, 3, int(data.UncompressedLittleEndianAudioCodec)},
		{"", "Nellymoser16AudioCodec", 4, 4, int(data.Nellymoser16AudioCodec)},
		{"", "Nellymoser8AudioCodec", 5, 5, int(data.Nellymoser8AudioCodec)},
		{"", "NellymoserAudioCodec", 6, 6, int(data.NellymoserAudioCodec)},
		{"", "G711AAudioCodec", 7, 7, int(data.G711AAudioCodec)},
		{"", "G711UAudioCodec", 8, 8, int(data.G711UAudioCodec)},
		{"audio-codec-names", "HE_AACAudioCodec", 10, 9, int(data.HE_AACAudioCodec)},
		{"audio-codec-names", "SPEEXAudioCodec", 11, 10, int(data.SPEEXAudioCodec)},
		{"", "MonoAudioType", 0, 0, int(data.MonoAudioType)},
		{"", "StereoAudioType", 1, 1, int(data.StereoAudioType)},
		{"video-codec-names", "SorensenH263VideoCodec", 2, 0, int(data.SorensenH263VideoCodec)},
		{"video-codec-names", "ScreenVideoVideoCodec", 3, 1, int(data.ScreenVideoVideoCodec)},
		{"video-codec-names", "On2VP6VideoCodec", 4, 2, int(data.On2VP6VideoCodec)},
		{"video-codec-names", "On2VP6AlphaVideoCodec", 5, 3, int(data.On2VP6AlphaVideoCodec)},
		{"video-codec-names", "ScreenVideo2VideoCodec", 6, 4, int(data.ScreenVideo2VideoCodec)},
		{"video-codec-names", "H264VideoCodec", 7, 5, int(data.H264VideoCodec)},
		{"video-type-names", "KeyframeVideoType", 1, 0, int(data.KeyframeVideoType)},
		{"video-type-names", "InterframeVideoType", 2, 1, int(data.InterframeVideoType)},
		{"video-type-names", "DisposableInterframeVideoType", 3, 2, int(data.DisposableInterframeVideoType)},
		{"video-type-names", "GeneratedKeyFrameVideoType", 4, 3, int(data.GeneratedKeyFrameVideoType)},
		{"video-type-names", "CommandFrameVideoType", 5, 4, int(data.CommandFrameVideoType)},
	} {
		n++
		if x.got == x.want {
			continue
		}
		if x.key == "" || x.got != x.here {
			r.Fail("%s is %d, the specification has %d", x.name, x.got, x.want)
		}
		r.Finding(x.key, "%s is %d, the specification has %d", x.name, x.got, x.want)
	}
	r.EvalN(n, "names")
}
