package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// This file holds the monitors of parts that a program supplies itself, through
// the library's interfaces.

// ownReader is a program's own chunk.Reader.
type ownReader struct {
	chunks       chan *chunk.Chunk
	errs         chan error
	feed         []*chunk.Chunk
	fails        []error
	recvs, ended atomic.Int32
	closes       atomic.Int32
	once         sync.Once
	stop         chan struct{}
	pause        func(item int) // before each item, if there is one
}

func (o *ownReader) Chunks() <-chan *chunk.Chunk { return o.chunks }
func (o *ownReader) Errs() <-chan error          { return o.errs }
func (o *ownReader) ReadSize() int               { return 128 }
func (o *ownReader) SetReadSize(int)             {}
func (o *ownReader) Close()                      { o.closes.Add(1); o.once.Do(func() { close(o.stop) }) }
func (o *ownReader) Recv() {
	defer o.ended.Add(1)
	if o.recvs.Add(1) > 1 {
		return
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for k, c := range o.feed {
			if o.pause != nil {
				o.pause(k)
			}
			select {
			case o.chunks <- c:
			case <-o.stop:
				return
			}
		}
	}()
	go func() {
		defer wg.Done()
		for k, e := range o.fails {
			if o.pause != nil {
				o.pause(k)
			}
			select {
			case o.errs <- e:
			case <-o.stop:
				return
			}
		}
	}()
	wg.Wait()
	<-o.stop
}

// p05: a parser over any reader.
func p05(r *kit.R) {
	r.Rule("a parser over a reader of the program's own, with buffered or unbuffered channels, reporting messages and errors at the same time; " +
		"single and combined streams, early and late; then closed; schedule perturbed, under the race detector; distinct by arrival order; " +
		"non-trivial when messages and errors alternate")
	for i := range r.Cases(0, r.N(1500, 20000)) {
		rng := r.Rng(i)
		ids := kit.CSIDs(rng, 1+rng.Intn(6))
		if rng.Intn(4) == 0 {
			// a reader may number its streams as it likes
			ids[0] = []uint32{0, 1, 63, 65600, rng.Uint32(), rng.Uint32(), 1<<32 - 1}[rng.Intn(7)]
			if has(ids[1:], ids[0]) {
				ids = ids[1:]
			}
		}
		o := &ownReader{chunks: make(chan *chunk.Chunk, rng.Intn(2)*rng.Intn(4)), errs: make(chan error, rng.Intn(2)*rng.Intn(4)), stop: make(chan struct{})}
		n := 1 + rng.Intn(40)
		for k := 0; k < n; k++ {
			c := kit.Msg{CSID: ids[rng.Intn(len(ids))], Type: kit.TypeID(rng), Data: kit.Bytes(rng, rng.Intn(6))}.Chunk()
			if len(o.feed) > 0 && rng.Intn(10) == 0 {
				c = o.feed[rng.Intn(len(o.feed))] // again
			}
			o.feed = append(o.feed, c)
		}
		for k := rng.Intn(20); k > 0; k-- {
			o.fails = append(o.fails, kit.WriteFault(rng))
			if rng.Intn(4) == 0 { // the same again
				o.fails = append(o.fails, o.fails[len(o.fails)-1])
			}
		}
		want := map[uint32][]*chunk.Chunk{}
		for _, c := range o.feed {
			want[c.Header.BasicHeader.StreamId] = append(want[c.Header.BasicHeader.StreamId], c)
		}
		p := chunk.NewParser(o)
		if o.recvs.Load()+o.closes.Load() > 0 {
			r.Fail("a new parser started or closed its reader by itself")
		}
		r.Scenario("%d messages on %v, %d errors", n, ids, len(o.fails))
		r.Arm(rng)
		var mu sync.Mutex
		var order []byte
		got := map[uint32][]*chunk.Chunk{}
		var errs []error
		combined := map[uint32]bool{}
		var wg sync.WaitGroup
		quit := make(chan struct{})
		take := func(st chunk.Stream) {
			defer wg.Done()
			for {
				select {
				case c, ok := <-st.In():
					if !ok {
						return
					}
					mu.Lock()
					id := c.Header.BasicHeader.StreamId
					got[id] = append(got[id], c)
					order = append(order, 'm', byte(id))
					mu.Unlock()
				case <-quit:
					return
				}
			}
		}
		rest := ids
		var singles []chunk.Stream
		if len(ids) > 2 && rng.Intn(2) == 0 {
			g := 2 + rng.Intn(len(ids)-2)
			ask := ids[:g:g]
			if rng.Intn(4) == 0 {
				ask = append(ask, ids[rng.Intn(g)]) // twice
			}
			st, err := p.Stream(ask...)
			if err != nil && len(ask) > g {
				st, err = p.Stream(ids[:g]...)
			}
			if err != nil {
				r.Fail("Stream(%v): %v", ids[:g], err)
			}
			for _, id := range ids[:g] {
				combined[id] = true
			}
			rest = ids[g:]
			wg.Add(1)
			go take(st)
		}
		for _, id := range rest {
			wg.Add(1)
			if rng.Intn(3) == 0 {
				go func() {
					kit.Yield()
					st, err := p.Stream(id)
					if err != nil {
						r.Fail("Stream(%d): %v", id, err)
					}
					take(st)
				}()
				continue
			}
			st, err := p.Stream(id)
			if err != nil {
				r.Fail("Stream(%d): %v", id, err)
			}
			singles = append(singles, st)
			go take(st)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case e, ok := <-p.Errs():
					if !ok {
						return
					}
					mu.Lock()
					errs = append(errs, e)
					order = append(order, 'e')
					mu.Unlock()
				case <-quit:
					return
				}
			}
		}()
		done := make(chan struct{})
		go func() { p.Recv(); close(done) }()
		r.Quiesce()
		mu.Lock()
		for id, w := range want {
			g := got[id]
			if len(g) != len(w) {
				r.Fail("%d messages of chunk stream %d arrived, the reader had %d", len(g), id, len(w))
			}
			for k := range w {
				if g[k] == nil || *g[k].Header != *w[k].Header || !bytes.Equal(g[k].Data, w[k].Data) {
					r.Fail("message %d of chunk stream %d is %s, the reader's was %s", k, id, desc(g[k]), desc(w[k]))
				}
			}
		}
		for id := range got {
			if want[id] == nil {
				r.Fail("%d messages for chunk stream %d, the reader had none", len(got[id]), id)
			}
		}
		if len(errs) != len(o.fails) {
			r.Fail("%d errors forwarded (%v), the reader had %d (%v)", len(errs), errs, len(o.fails), o.fails)
		}
		for k := range errs {
			if !errors.Is(errs[k], o.fails[k]) {
				r.Fail("error %d forwarded is %v, the reader's was %v", k, errs[k], o.fails[k])
			}
		}
		alt := bytes.Count(order, []byte("e"))
		mu.Unlock()
		if c := o.closes.Load(); c > 0 {
			r.Fail("the reader was closed %d times before the parser was", c)
		}
		if rng.Intn(2) == 0 {
			p.Close()
		} else {
			go p.Close()
			go p.Close()
		}
		<-done
		r.Quiesce()
		if o.recvs.Load() != 1 {
			r.Fail("the reader was run %d times", o.recvs.Load())
		}
		if o.closes.Load() < 1 || o.ended.Load() != 1 {
			r.Fail("the parser is closed, its reader is not")
		}
		for _, st := range singles {
			if _, ok := <-st.In(); ok {
				r.Fail("a message after the end")
			}
		}
		close(quit)
		wg.Wait()
		r.Eval(alt > 0, order)
		r.Count("messages", n)
		r.Count("errors", len(errs))
		if i < 3 {
			r.Sample("%d messages on %v, %d errors, order %q", n, ids, len(errs), order)
		}
	}
	// someone pauses: the reader, who takes messages, or who takes errors
	for i := range r.Cases(stallBase, 1) {
		rng := r.Rng(i)
		r.Scenario("parsers over own readers with one party pausing for %v", r.Stall())
		var fs []func()
		for k := 0; k < 24; k++ {
			o := &ownReader{chunks: make(chan *chunk.Chunk, rng.Intn(3)), errs: make(chan error, rng.Intn(3)), stop: make(chan struct{})}
			n, f := 2+rng.Intn(8), 2+rng.Intn(8)
			for j := 0; j < n; j++ {
				o.feed = append(o.feed, kit.Msg{CSID: 7, MSID: uint32(j)}.Chunk())
			}
			for j := 0; j < f; j++ {
				o.fails = append(o.fails, fmt.Errorf("failure %d", j))
			}
			if k%3 == 0 {
				at := rng.Intn(min(n, f))
				o.pause = func(j int) {
					if j == at {
						r.Pause(r.Stall())
					}
				}
			}
			slowMsg, slowErr := -1, -1
			if k%3 == 1 {
				slowMsg = rng.Intn(n)
			} else if k%3 == 2 {
				slowErr = rng.Intn(f)
			}
			fs = append(fs, func() {
				p := chunk.NewParser(o)
				st, err := p.Stream(7)
				if err != nil {
					r.Fail("Stream: %v", err)
				}
				go p.Recv()
				kit.Together(func() {
					for j := 0; j < n; j++ {
						if j == slowMsg {
							r.Pause(r.Stall())
						}
						if c := <-st.In(); c != o.feed[j] {
							r.Fail("after a pause of %v message %d is %s", r.Stall(), j, desc(c))
						}
					}
				}, func() {
					for j := 0; j < f; j++ {
						if j == slowErr {
							r.Pause(r.Stall())
						}
						if err := <-p.Errs(); !errors.Is(err, o.fails[j]) {
							r.Fail("after a pause of %v error %d is %v", r.Stall(), j, err)
						}
					}
				})
				p.Close()
				r.Eval(true, "pause", k)
				r.Count("paused_sessions", 1)
			})
		}
		kit.Together(fs...)
	}
	r.Need("paused_sessions", 20)
	r.Need("messages", 2000)
	r.Need("errors", 500)
}

// ownControl is a program's own control message.
type ownControl struct {
	N    int
	Body []byte
	fail error
}

const ownType = 0x77

func (o *ownControl) TypeId() byte { return ownType }
func (o *ownControl) Read(rd io.Reader) error {
	b, err := io.ReadAll(rd)
	o.Body = append(o.Body, b...)
	if len(b) > 0 && b[0] == 0xee {
		return errOwn
	}
	return err
}
func (o *ownControl) Write(w io.Writer) error {
	if _, err := w.Write(o.Body); err != nil {
		return err
	}
	return o.fail
}

type ownAck struct{ ownControl }

func (o *ownAck) TypeId() byte { return 3 }

var errOwn = errors.New("not one of mine")

type result struct {
	ctl control.Control
	c   *chunk.Chunk
	err error
}

// record is what a stand-in was given, by any goroutine.
type record[T any] struct {
	mu sync.Mutex
	l  []T
}

func (r *record[T]) add(x T) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.l = append(r.l, x)
}

func (r *record[T]) all() []T {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]T(nil), r.l...)
}

// ownParser and the others return what the script says for the item they get.
type ownParser struct {
	script map[*chunk.Chunk]result
	log    record[*chunk.Chunk]
}

func (o *ownParser) Parse(c *chunk.Chunk) (control.Control, error) {
	o.log.add(c)
	return o.script[c].ctl, o.script[c].err
}

type ownChunker struct {
	script map[control.Control]result
	log    record[control.Control]
}

func (o *ownChunker) Chunk(c control.Control) (*chunk.Chunk, error) {
	o.log.add(c)
	return o.script[c].c, o.script[c].err
}

type ownWriter struct {
	script map[*chunk.Chunk]error
	log    record[*chunk.Chunk]
}

func (o *ownWriter) WriteSize() int   { return 128 }
func (o *ownWriter) SetWriteSize(int) {}
func (o *ownWriter) Write(c *chunk.Chunk) error {
	o.log.add(c)
	kit.Yield()
	return o.script[c]
}

// k05: control streams and parsers with a program's own parts and types.
func k05(r *kit.R) {
	r.Rule("a control stream over a parser, chunker and writer of the program's own, failing as scripted, used in both directions at once, under " +
		"the race detector; control types of the program's own, registered, parsed, encoded; distinct by script and order of events")
	for i := range r.Cases(0, r.N(1500, 20000)) {
		rng := r.Rng(i)
		ps := &ownParser{script: map[*chunk.Chunk]result{}}
		ck := &ownChunker{script: map[control.Control]result{}}
		wr := &ownWriter{script: map[*chunk.Chunk]error{}}
		var feed, wantW []*chunk.Chunk
		var outs, wantIn []control.Control
		var wantE, wantF []error
		for k := rng.Intn(25); k > 0; k-- {
			c := &chunk.Chunk{Header: &chunk.Header{}}
			x := result{ctl: &ownControl{N: k}}
			switch rng.Intn(6) {
			case 0:
				x.ctl, x.err = nil, kit.WriteFault(rng)
			case 1:
				x.err = kit.WriteFault(rng) // with something unusable
			}
			if x.err != nil {
				wantE = append(wantE, x.err)
			} else {
				wantIn = append(wantIn, x.ctl)
			}
			ps.script[c] = x
			feed = append(feed, c)
		}
		for k := rng.Intn(25); k > 0; k-- {
			c := &ownControl{N: k}
			x := result{c: &chunk.Chunk{Header: &chunk.Header{}}}
			switch rng.Intn(8) {
			case 0:
				x.c, x.err = nil, kit.WriteFault(rng)
			case 1:
				x.err = kit.WriteFault(rng)
			case 2, 3:
				e := kit.WriteFault(rng)
				wr.script[x.c] = e
				wantF = append(wantF, e)
			}
			if x.err != nil {
				wantF = append(wantF, x.err)
			} else {
				wantW = append(wantW, x.c)
			}
			ck.script[c] = x
			outs = append(outs, c)
		}
		src := make(fakeStream, rng.Intn(3))
		s := control.NewStream(src, wr, ps, ck)
		r.Scenario("%d incoming, %d outgoing, failing %d and %d", len(feed), len(outs), len(wantE), len(wantF))
		r.Arm(rng)
		var mu sync.Mutex
		var order []byte
		tag := func(b byte) { mu.Lock(); order = append(order, b); mu.Unlock() }
		done := make(chan struct{})
		go func() { s.Recv(); close(done) }()
		var fw sync.WaitGroup
		fw.Add(2)
		go func() {
			defer fw.Done()
			for _, c := range feed {
				src <- c
				tag('i')
			}
		}()
		go func() {
			defer fw.Done()
			for _, c := range outs {
				s.Out() <- c
				tag('o')
			}
		}()
		var in []control.Control
		var errs []error
		quit := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for {
				select {
				case c := <-s.In():
					in = append(in, c)
					tag('I')
				case <-quit:
					return
				}
			}
		}()
		go func() {
			defer wg.Done()
			for {
				select {
				case e := <-s.Errs():
					errs = append(errs, e)
					tag('E')
				case <-quit:
					return
				}
			}
		}()
		fw.Wait()
		r.Quiesce()
		close(quit)
		wg.Wait()
		s.Close()
		<-done
		if !reflect.DeepEqual(ptrs(in), ptrs(wantIn)) {
			r.Fail("%d items delivered, or not those the parser made (%d), in order", len(in), len(wantIn))
		}
		if fmt.Sprint(ptrs(ps.log.all())) != fmt.Sprint(ptrs(feed)) {
			r.Fail("the parser was given %d messages, not the %d received, once each, in order", len(ps.log.all()), len(feed))
		}
		if fmt.Sprint(ptrs(ck.log.all())) != fmt.Sprint(ptrs(outs)) {
			r.Fail("the chunker was given %d items, not the %d sent, once each, in order", len(ck.log.all()), len(outs))
		}
		if fmt.Sprint(ptrs(wr.log.all())) != fmt.Sprint(ptrs(wantW)) {
			r.Fail("the writer was given %d messages, not the %d the chunker made, once each, in order", len(wr.log.all()), len(wantW))
		}
		if !shuffled(errs, wantE, wantF) {
			r.Fail("errors reported were %v, want %v of the parser and %v of chunker and writer", errs, wantE, wantF)
		}
		r.Eval(len(feed) > 0 && len(outs) > 0, order)
		r.Count("incoming", len(feed))
		r.Count("outgoing", len(outs))
		r.Count("errors", len(errs))
		if i < 3 {
			r.Sample("order of events %s", order)
		}
	}
	// types
	for range r.Cases(1_000_000, 1) {
		known := map[byte]reflect.Type{}
		for _, c := range control.Controls {
			known[c.TypeId()] = reflect.TypeOf(c).Elem()
		}
		for t := byte(1); t <= 6; t++ {
			if known[t] == nil {
				r.Fail("no control message of type %d", t)
			}
		}
		p := control.NewParser()
		for t := 0; t < 256; t++ {
			if got := p.TypeFor(byte(t)); got != known[byte(t)] {
				r.Fail("type %d is %v, want %v", t, got, known[byte(t)])
			}
			e := control.UnknownControlType(byte(t))
			if e.Error() == "" || e != control.UnknownControlType(byte(t)) {
				r.Fail("the error for unknown type %d says %q", t, e.Error())
			}
		}
		if control.StreamBegin != 0 || control.SetBufferLength != 3 || control.LimitTypeHard != 0 || control.LimitTypeSoft != 1 ||
			control.LimitTypeDynamic != 2 || control.ControlChunkStreamId != 2 || control.ControlMessageStreamId != 0 {
			r.Fail("a named number of the protocol is wrong: events %d %d, limits %d %d %d, streams %d %d", control.StreamBegin, control.SetBufferLength,
				control.LimitTypeHard, control.LimitTypeSoft, control.LimitTypeDynamic, control.ControlChunkStreamId, control.ControlMessageStreamId)
		}
		r.EvalN(256, "types")
	}
	was := control.Controls
	control.Controls = append(append([]control.Control(nil), was...), &ownControl{N: 5, Body: []byte{1, 2, 3}})
	own := control.NewParser()
	// a type of the program's own in place of one of the library's
	control.Controls = append(append([]control.Control(nil), was...), new(ownAck))
	instead := control.NewParser()
	control.Controls = was
	if c, err := instead.Parse(kit.Msg{CSID: 2, Type: 3, Data: []byte{1, 2}}.Chunk()); err != nil {
		r.Fail("a message of type 3, which the program listed a type of its own for: %v", err)
	} else if x, _ := c.(*ownAck); x == nil || !bytes.Equal(x.Body, []byte{1, 2}) {
		r.Fail("a message of type 3, which the program listed a type of its own for, is parsed as %T %+v", c, c)
	}
	for i := range r.Cases(2_000_000, r.N(2000, 40000)) {
		rng := r.Rng(i)
		body := kit.Bytes(rng, rng.Intn(2)*rng.Intn(400))
		bad := len(body) > 0 && rng.Intn(5) == 0
		if bad {
			body[0] = 0xee
		} else if len(body) > 0 && body[0] == 0xee {
			body[0] = 0
		}
		c := kit.Msg{CSID: 2, Type: ownType, Data: body}.Chunk()
		got, err := own.Parse(c)
		x, _ := got.(*ownControl)
		switch {
		case bad:
			if !errors.Is(err, errOwn) {
				r.Fail("the program's own type refused its body, the parser says %v", err)
			}
		case err != nil || x == nil || x.N != 0 || !bytes.Equal(x.Body, body):
			r.Fail("a message of a type of the program's own parsed as %+v, %v", got, err)
		}
		if _, err := control.NewParser().Parse(c); err == nil {
			r.Fail("a parser that does not know the program's type parsed it")
		}
		k, t, b := genControl(rng)
		if g, err := own.Parse(kit.Msg{CSID: 2, Type: t, Data: b}.Chunk()); err != nil || value(g) != value(k) {
			r.Fail("a parser with the program's own type parsed %s as %v, %v", value(k), g, err)
		}
		out := &ownControl{Body: body}
		if rng.Intn(3) == 0 {
			out.fail = kit.WriteFault(rng)
		}
		m, err := control.NewChunker().Chunk(out)
		if out.fail != nil {
			if !errors.Is(err, out.fail) {
				r.Fail("an item that cannot be encoded (%v): %v", out.fail, err)
			}
		} else if err != nil {
			r.Fail("an item of the program's own type: %v", err)
		} else if d := kit.Diff(kit.Msg{CSID: 2, Type: ownType, Data: body}, m); d != "" {
			r.Fail("an item of the program's own type is sent as %s: %s", desc(m), d)
		}
		r.Eval(true, body, bad)
		r.Count("own_types", 1)
	}
	r.Need("incoming", 2000)
	r.Need("outgoing", 2000)
	r.Need("errors", 500)
	r.Need("own_types", 1000)
}

func ptrs[T any](l []T) []string {
	o := make([]string, len(l))
	for i, x := range l {
		o[i] = fmt.Sprintf("%p", x)
	}
	return o
}

// shuffled: got is a shuffle of a and b that keeps the order of each.
func shuffled(got, a, b []error) bool {
	if len(got) != len(a)+len(b) {
		return false
	}
	reach := map[int]bool{0: true} // how many of a are used
	for k, g := range got {
		next := map[int]bool{}
		for x := range reach {
			if x < len(a) && errors.Is(g, a[x]) {
				next[x+1] = true
			}
			if y := k - x; y < len(b) && errors.Is(g, b[y]) {
				next[x] = true
			}
		}
		reach = next
	}
	return reach[len(a)]
}

// ownNormalizer shows what it is given and renumbers chunk streams.
type ownNormalizer struct {
	by   chunk.Normalizer
	add  uint32
	seen []chunk.Header
	same bool
}

func (o *ownNormalizer) Normalize(h *chunk.Header) *chunk.Header {
	o.seen = append(o.seen, *h)
	h = o.by.Normalize(h)
	x := h
	if !o.same {
		c := *h
		x = &c
	}
	x.BasicHeader.StreamId += o.add
	return x
}

// customNormalizers: a reader uses the normaliser it is given.
func customNormalizers(r *kit.R) {
	for i := range r.Cases(3_000_000, r.N(3000, 60000)) {
		rng := r.Rng(i)
		size := kit.Size(rng)
		s := newScenario(rng, size, 1+rng.Intn(4), 300)
		for has(s.ids, 2) {
			s.ids = kit.CSIDs(rng, len(s.ids))
		}
		noop := rng.Intn(2) == 0
		count := 0
		for k := 0; k < 20; k++ {
			if noop { // full headers
				id := s.ids[rng.Intn(len(s.ids))]
				if p := s.busy(id); p != nil {
					p.Next()
					s.finish(p)
				} else {
					m := kit.Message(rng, id, size, 300)
					m.Fmt = 0
					p := s.e.Begin(m)
					s.open = append(s.open, p)
					s.finish(p)
				}
			} else {
				s.step(true)
			}
		}
		s.drain()
		src := kit.Frag(rng, s.e.B)
		src.End = kit.ErrCut
		o := &ownNormalizer{by: chunk.NewNormalizer(), add: uint32(rng.Intn(2)) * rng.Uint32()}
		if noop {
			o.by = chunk.NoopNormalizer
			o.same = rng.Intn(2) == 0
		}
		rd := chunk.NewReader(src, size, o)
		go rd.Recv()
		for k, w := range s.want {
			select {
			case c := <-rd.Chunks():
				c.Header.BasicHeader.StreamId -= o.add
				if d := kit.Diff(w.m, c); d != "" {
					r.Fail("message %d read with a normaliser of the program's own (%+v): %s", k, *o, d)
				}
			case err := <-rd.Errs():
				r.Fail("message %d read with a normaliser of the program's own: %v", k, err)
			}
		}
		select {
		case c := <-rd.Chunks():
			r.Fail("message %s more than were sent", desc(c))
		case <-rd.Errs():
		}
		d := kit.NewDec(size, s.e.B)
		for {
			if m, err := d.Next(); m == nil || err != nil {
				break
			}
		}
		kit.StopReader(rd)
		if len(o.seen) != len(d.Wires) {
			r.Fail("%d chunks were received, the normaliser was given %d headers", len(d.Wires), len(o.seen))
		}
		count += len(o.seen)
		r.Eval(true, s.e.B, o.add, noop)
		r.Count("headers_shown", count)
	}
	r.Need("headers_shown", 10000)
}
