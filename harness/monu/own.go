package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sync"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// This file holds the monitors of types and parts that a program brings along
// itself, for the command packages.

// ownCmd is a program's own command, for either parser.
type ownCmd struct {
	A float64
	B string
	C bool
}

func (*ownCmd) CanReceive() bool { return true }
func (*ownCmd) IsCommand() bool  { return true }

type otherCmd struct{ B, D string }

func (*otherCmd) CanReceive() bool { return true }
func (*otherCmd) IsCommand() bool  { return true }

type anyCmd interface {
	CanReceive() bool
	IsCommand() bool
}

// ownNames are the names in the table; the others are not.
var ownNames = []string{"mine", "Mine", "", "connect", "a longer name of a command with spaces"}
var otherNames = []string{"min", "mine ", "MINE", "createStream", "publish", "play", "Connect"}

// table makes the factories of a command parser, recording what they make.
type table struct {
	mu   sync.Mutex
	made map[string][]anyCmd
}

func (t *table) factory(name string) func() anyCmd {
	return func() anyCmd {
		var c anyCmd = new(ownCmd)
		if name == "Mine" {
			c = new(otherCmd)
		}
		t.mu.Lock()
		t.made[name] = append(t.made[name], c)
		t.mu.Unlock()
		return c
	}
}

// ownBody draws the arguments of a command and what they mean.
func ownBody(rng *rand.Rand, name string) ([]byte, anyCmd) {
	a, b, c, d := num(rng), word(rng), rng.Intn(2) == 0, word(rng)
	if name == "Mine" {
		return cat(aStr(b), aStr(d)), &otherCmd{b, d}
	}
	return cat(aNum(a), aStr(b), aBool(c)), &ownCmd{a, b, c}
}

// ownParsers checks the two command parsers over a table of the program's own.
func ownParsers(r *kit.R, i int) {
	rng := r.Rng(i)
	t := &table{made: map[string][]anyCmd{}}
	cf, sf := map[string]conn.ReceviableFactory{}, map[string]stream.CommandFactory{}
	for _, n := range ownNames {
		f := t.factory(n)
		cf[n] = func() conn.Receivable { return f().(conn.Receivable) }
		sf[n] = func() stream.Command { return f().(stream.Command) }
	}
	cp, sp := conn.NewParser(cf), stream.NewParser(sf)
	var kept []anyCmd
	var want []anyCmd
	one := func(rng *rand.Rand, alone bool) (anyCmd, anyCmd) {
		name, known := ownNames[rng.Intn(len(ownNames))], true
		if rng.Intn(4) == 0 {
			name, known = otherNames[rng.Intn(len(otherNames))], false
		}
		body, exp := ownBody(rng, name)
		good := known
		switch rng.Intn(6) {
		case 0:
			body, good = body[:rng.Intn(len(body))], false
		case 1:
			body, good = cat(aObj(nil), body), false
		}
		var before int
		if alone {
			before = len(t.made[name])
		}
		extra := kit.Bytes(rng, rng.Intn(20))
		if !good {
			extra = nil
		}
		var got any
		var err error
		var isNil bool
		where := "NetConnection"
		if rng.Intn(2) == 0 {
			buf := bytes.NewBuffer(append(append([]byte(nil), body...), extra...))
			s := amf0.NewString(name)
			x, e := cp.Parse(s, buf)
			got, err, isNil = x, e, x == nil
			if string(*s) != name {
				r.Fail("parsing %q changed the name to %q", name, string(*s))
			}
			if good && buf.Len() != len(extra) {
				r.Fail("parsing %q left %d bytes, %d follow it", name, buf.Len(), len(extra))
			}
		} else {
			where = "NetStream"
			x, e := sp.Parse(bytes.NewReader(cat(aStr(name), aNum(num(rng)), aNull(), body, extra)))
			got, err, isNil = x, e, x == nil
		}
		if good != (err == nil) || good == isNil {
			r.Fail("%s command %q (in the table: %v, arguments % x): %v, %v", where, name, known, body, got, err)
		}
		if alone {
			made := len(t.made[name]) - before
			if known && made > 1 || !known && made > 0 || good && made != 1 {
				r.Fail("%s command %q (in the table: %v, intelligible: %v): its factory ran %d times", where, name, known, good, made)
			}
			if good && got != t.made[name][before] {
				r.Fail("%s command %q: the value parsed is not the one its factory made", where, name)
			}
		}
		r.Count("own_commands", 1)
		if !good {
			r.Count("own_commands_refused", 1)
			return nil, nil
		}
		if fmt.Sprint(got) != fmt.Sprint(exp) || fmt.Sprintf("%T", got) != fmt.Sprintf("%T", exp) {
			r.Fail("%s command %q parsed as %T %v, want %T %v", where, name, got, got, exp, exp)
		}
		return got.(anyCmd), exp
	}
	for k := 0; k < 12; k++ {
		if g, e := one(rng, true); g != nil {
			kept, want = append(kept, g), append(want, e)
		}
		for j := range kept {
			if fmt.Sprint(kept[j]) != fmt.Sprint(want[j]) {
				r.Fail("a command parsed earlier, %v, became %v", want[j], kept[j])
			}
		}
	}
	if i%4 == 0 { // shared by goroutines
		r.Arm(rng)
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			rng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 6; k++ {
					if g, e := one(rng, false); g != nil && fmt.Sprint(g) != fmt.Sprint(e) {
						r.Fail("%v parsed as %v", e, g)
					}
				}
			}()
		}
		wg.Wait()
		r.End()
		r.Count("shared_parsers", 1)
	}
	r.Eval(true, "parsers", i)
}

// ownData is a program's own data type.
type ownData struct {
	id   byte
	c    *chunk.Chunk
	out  *chunk.Chunk
	fail error
	log  *[]*ownData
}

func (o *ownData) Id() byte { return o.id }
func (o *ownData) Read(c *chunk.Chunk) error {
	o.c = c
	if len(c.Data) > 0 && c.Data[0] == 0xee {
		return errOwn
	}
	return nil
}
func (o *ownData) Marshal() (*chunk.Chunk, error) {
	if o.log != nil {
		recorded(o.log, o)
	}
	return o.out, o.fail
}

var errOwn = errors.New("not one of mine")

// ownDataParser checks the data parser over types of the program's own.
func ownDataParser(r *kit.R, i int) {
	rng := r.Rng(i)
	ids := map[byte][]*ownData{}
	var fs []data.DataFactory
	for k := 0; k < rng.Intn(6); k++ {
		id := byte(rng.Intn(256))
		if _, ok := ids[id]; ok {
			continue
		}
		ids[id] = nil
		fs = append(fs, func() data.Data { d := &ownData{id: id}; ids[id] = append(ids[id], d); return d })
	}
	p := data.NewParser(fs...)
	var known []byte
	for id := 0; id < 256; id++ {
		was, ok := ids[byte(id)]
		if ok {
			known = append(known, byte(id))
		}
		n := len(was)
		d := p.New(byte(id))
		if (d != nil) != ok {
			r.Fail("New(%d) made %v, registered: %v", id, d, ok)
		}
		if ok && (len(ids[byte(id)]) != n+1 || d != data.Data(ids[byte(id)][n])) {
			r.Fail("New(%d) did not make a new value with the type's factory", id)
		}
	}
	for k := 0; k < 10; k++ {
		id := byte(rng.Intn(256))
		if len(known) > 0 && rng.Intn(4) > 0 {
			id = known[rng.Intn(len(known))]
		}
		_, ok := ids[id]
		n := len(ids[id])
		m := kit.Msg{CSID: 4, Type: id, Data: kit.Bytes(rng, rng.Intn(5))}
		refused := rng.Intn(3) == 0
		if refused {
			m.Data = []byte{0xee}
		} else if len(m.Data) > 0 {
			m.Data[0] = 1
		}
		c := m.Chunk()
		d, err := p.Parse(c)
		switch {
		case !ok:
			if err == nil || d != nil {
				r.Fail("message of type %d, of no registered type: %v, %v", id, d, err)
			}
		case refused:
			if d != nil || !errors.Is(err, errOwn) {
				r.Fail("message of type %d, which its type refuses: %v, %v", id, d, err)
			}
		default:
			if err != nil || len(ids[id]) != n+1 || d != data.Data(ids[id][n]) || ids[id][n].c != c {
				r.Fail("message of type %d: %v, %v", id, d, err)
			}
		}
		r.Count("own_data", 1)
	}
	r.Eval(true, "data", i)
}

// recMu guards what the program's own parts record, on any goroutine.
var recMu sync.Mutex

func recorded[T any](l *[]T, x T) {
	recMu.Lock()
	defer recMu.Unlock()
	*l = append(*l, x)
}

func record[T any](l *[]T) []T {
	recMu.Lock()
	defer recMu.Unlock()
	return append([]T(nil), *l...)
}

// ownMarshal is a program's own outgoing NetConnection message.
type ownMarshal struct {
	b    []byte
	fail error
	log  *[]*ownMarshal
}

func (o *ownMarshal) Marshal() ([]byte, error) {
	recorded(o.log, o)
	return o.b, o.fail
}

type ownWriter struct {
	script map[*chunk.Chunk]error // by chunk, or in order
	plan   []error
	log    []*chunk.Chunk
}

func (o *ownWriter) WriteSize() int   { return 128 }
func (o *ownWriter) SetWriteSize(int) {}
func (o *ownWriter) Write(c *chunk.Chunk) error {
	recorded(&o.log, c)
	kit.Yield()
	if o.plan != nil {
		e := o.plan[0]
		o.plan = o.plan[1:]
		return e
	}
	return o.script[c]
}

type ownResult struct {
	d   data.Data
	err error
}

type ownParser struct {
	script map[*chunk.Chunk]ownResult
	log    []*chunk.Chunk
}

func (o *ownParser) Parse(c *chunk.Chunk) (data.Data, error) {
	recorded(&o.log, c)
	kit.Yield()
	return o.script[c].d, o.script[c].err
}

// ownDataStream runs a data stream over the program's own parser, writer and
// data, in both directions at once.
func ownDataStream(r *kit.R, i int) {
	rng := r.Rng(i)
	ps := &ownParser{script: map[*chunk.Chunk]ownResult{}}
	wr := &ownWriter{script: map[*chunk.Chunk]error{}}
	var log, ins []*ownData
	var feed, wantW []*chunk.Chunk
	var wantOut []data.Data
	var wantIn, wantWr []error
	for k := rng.Intn(20); k > 0; k-- {
		c := kit.Msg{CSID: uint32(rng.Intn(9)), Type: byte(rng.Intn(256)), Data: kit.Bytes(rng, rng.Intn(3))}.Chunk()
		res := ownResult{d: &ownData{id: c.Header.MessageHeader.TypeId}}
		switch rng.Intn(4) {
		case 0:
			res = ownResult{err: kit.WriteFault(rng)}
		case 1:
			if rng.Intn(2) == 0 {
				res.err = kit.WriteFault(rng) // something comes along with it
			}
		}
		ps.script[c] = res
		feed = append(feed, c)
		if res.err != nil {
			wantIn = append(wantIn, res.err)
		} else {
			wantOut = append(wantOut, res.d)
		}
	}
	for k := rng.Intn(20); k > 0; k-- {
		d := &ownData{id: byte(rng.Intn(256)), log: &log}
		d.out = kit.Msg{CSID: uint32(rng.Intn(70000)), Type: byte(rng.Intn(256)), MSID: rng.Uint32(), Data: kit.Bytes(rng, rng.Intn(9))}.Chunk()
		ins = append(ins, d)
		if rng.Intn(4) == 0 {
			d.fail = kit.WriteFault(rng)
			wantWr = append(wantWr, d.fail)
			if rng.Intn(2) == 0 {
				d.out = nil
			}
			continue
		}
		wantW = append(wantW, d.out)
		if rng.Intn(4) == 0 {
			wr.script[d.out] = kit.WriteFault(rng)
			wantWr = append(wantWr, wr.script[d.out])
		}
	}
	src := make(chan *chunk.Chunk)
	s := data.NewStream(src, wr)
	s.SetParser(ps)
	r.Scenario("data stream with its own parser: %d incoming, %d outgoing", len(feed), len(ins))
	var got []data.Data
	errs := duplex(r, rng, len(feed), len(ins), func(k int) { s.Chunks() <- feed[k] }, func(k int) { s.In() <- ins[k] }, s.Recv, func(stop chan struct{}) {
		eat(s.Out(), func(d data.Data) string { got = append(got, d); return "" })(func(string) {}, stop)
	}, s.Errs(), s.Close)
	if len(got) != len(wantOut) {
		r.Fail("%d items delivered, the parser made %d", len(got), len(wantOut))
	}
	for k := range got {
		if got[k] != wantOut[k] {
			r.Fail("item %d delivered is not the one the parser made", k)
		}
	}
	same(r, "given to the parser", feed, record(&ps.log))
	same(r, "marshalled", ins, record(&log))
	same(r, "written", wantW, record(&wr.log))
	merged(r, errs, wantIn, wantWr)
	r.Eval(len(feed) > 0 && len(ins) > 0, "stream", i)
	r.Count("own_items", len(feed)+len(ins))
	r.Count("own_failures", len(errs))
}

// ownConn runs a NetConnection sending the program's own messages.
func ownConn(r *kit.R, i int) {
	rng := r.Rng(i)
	wr := &ownWriter{plan: []error{}}
	var log, outs []*ownMarshal
	var want []kit.Msg
	var wantIn, wantWr []error
	for k := rng.Intn(20); k > 0; k-- {
		o := &ownMarshal{b: kit.Bytes(rng, []int{0, 1, 5, 127, 128, 129, 5000}[rng.Intn(7)]), log: &log}
		outs = append(outs, o)
		if rng.Intn(4) == 0 {
			o.fail = kit.WriteFault(rng)
			if rng.Intn(2) == 0 {
				o.b = nil
			}
			wantWr = append(wantWr, o.fail)
			continue
		}
		want = append(want, kit.Msg{CSID: 3, Type: 0x14, Data: append([]byte(nil), o.b...)})
		var e error
		if rng.Intn(4) == 0 {
			e = kit.WriteFault(rng)
			wantWr = append(wantWr, e)
		}
		wr.plan = append(wr.plan, e)
	}
	src := make(chan *chunk.Chunk)
	n := conn.NewNetConnection(src, wr)
	var feed []*chunk.Chunk
	var wantGot, got []string
	for k := rng.Intn(12); k > 0; k-- {
		m, v := genConn(rng)
		if v == "" {
			continue
		}
		feed = append(feed, m.Chunk())
		wantGot = append(wantGot, v)
	}
	r.Scenario("NetConnection with %d messages of the program's own", len(outs))
	errs := duplex(r, rng, len(feed), len(outs), func(k int) { src <- feed[k] }, func(k int) { n.Out() <- outs[k] }, n.Listen, func(stop chan struct{}) {
		eat(n.In(), connValue)(func(s string) { got = append(got, s) }, stop)
	}, n.Errs(), n.Close)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", wantGot) {
		r.Fail("received %q, want %q", got, wantGot)
	}
	same(r, "marshalled", outs, record(&log))
	written := record(&wr.log)
	if len(written) != len(want) {
		r.Fail("%d messages written, %d marshalled", len(written), len(want))
	}
	for k := range want {
		if d := kit.Diff(want[k], written[k]); d != "" {
			r.Fail("message %d written: %s", k, d)
		}
	}
	merged(r, errs, wantIn, wantWr)
	r.Eval(len(outs) > 0, "conn", i)
	r.Count("own_items", len(outs))
	r.Count("own_failures", len(errs))
}

// duplex feeds both directions of a command stream at once until nothing moves,
// closes it, and returns the errors it reported.
func duplex(r *kit.R, rng *rand.Rand, nin, nout int, feed, send func(int), run func(), consume func(chan struct{}), reports <-chan error, end func()) []error {
	r.Arm(rng)
	done, stop := make(chan struct{}), make(chan struct{})
	go func() { run(); close(done) }()
	var wg, cw sync.WaitGroup
	var errs []error
	wg.Add(2)
	cw.Add(2)
	go func() {
		defer wg.Done()
		for k := 0; k < nin; k++ {
			feed(k)
		}
	}()
	go func() {
		defer wg.Done()
		for k := 0; k < nout; k++ {
			send(k)
		}
	}()
	go func() { defer cw.Done(); consume(stop) }()
	go func() {
		defer cw.Done()
		for {
			select {
			case e, ok := <-reports:
				if !ok {
					return
				}
				errs = append(errs, e)
			case <-stop:
				return
			}
		}
	}()
	wg.Wait()
	r.Quiesce()
	end()
	<-done
	close(stop)
	cw.Wait()
	r.End()
	return errs
}

func same[T comparable](r *kit.R, what string, want, got []T) {
	if len(got) != len(want) {
		r.Fail("%d items %s, want %d", len(got), what, len(want))
	}
	for k := range want {
		if got[k] != want[k] {
			r.Fail("item %d %s is not the one it should be", k, what)
		}
	}
}

// merged checks that errs is a and b, each in its order, together.
func merged(r *kit.R, errs, a, b []error) {
	if len(errs) != len(a)+len(b) {
		r.Fail("%d failures reported (%v), want %d incoming (%v) and %d outgoing (%v)", len(errs), errs, len(a), a, len(b), b)
	}
	// reach[k]: the first i+k errors are the first i of a and k of b
	reach := map[[2]int]bool{{0, 0}: true}
	for n, e := range errs {
		next := map[[2]int]bool{}
		for s := range reach {
			if s[0]+s[1] != n {
				continue
			}
			if s[0] < len(a) && errors.Is(e, a[s[0]]) {
				next[[2]int{s[0] + 1, s[1]}] = true
			}
			if s[1] < len(b) && errors.Is(e, b[s[1]]) {
				next[[2]int{s[0], s[1] + 1}] = true
			}
		}
		if len(next) == 0 {
			r.Fail("failure %d reported is %v; reported %v, incoming %v, outgoing %v", n, e, errs, a, b)
		}
		reach = next
	}
}

// u08: command streams and their parsers with a program's own types.
func u08(r *kit.R) {
	r.Rule("command and data parsers over tables of the program's own types, alone and shared by goroutines; a NetConnection and a data stream over " +
		"parts of the program's own, failing as scripted, used in both directions at once, under the race detector; distinct by case")
	for i := range r.Cases(0, r.N(1200, 12000)) {
		ownParsers(r, i)
	}
	for i := range r.Cases(1_000_000, r.N(1200, 12000)) {
		ownDataParser(r, i)
	}
	for i := range r.Cases(2_000_000, r.N(500, 8000)) {
		ownDataStream(r, i)
	}
	for i := range r.Cases(3_000_000, r.N(500, 8000)) {
		ownConn(r, i)
	}
	for i := range r.Cases(4_000_000, r.N(2000, 20000)) {
		rng := r.Rng(i)
		id := kit.CSID(rng)
		if i < 70 {
			id = uint32(i)
		}
		var log []*ownMarshal
		o := &ownMarshal{b: kit.Bytes(rng, rng.Intn(300)), log: &log}
		if rng.Intn(4) == 0 {
			o.fail = kit.WriteFault(rng)
		}
		r.Scenario("chunker for chunk stream %d", id)
		c, err := conn.NewChunker(id).Chunk(o)
		if len(log) != 1 {
			r.Fail("marshalled %d times", len(log))
		}
		if o.fail != nil {
			if c != nil || !errors.Is(err, o.fail) {
				r.Fail("chunking a message that fails with %v: %v, %v", o.fail, c, err)
			}
			continue
		}
		want := kit.Msg{CSID: id, Type: 0x14, Data: o.b}
		if err != nil {
			r.Fail("chunking: %v", err)
		}
		if d := kit.Diff(want, c); d != "" {
			want.CSID = 3
			if e := kit.Diff(want, c); e != "" {
				r.Fail("chunk for chunk stream %d: %s", id, d)
			}
			r.Finding("chunker-stream", "a NetConnection chunker made for chunk stream %d makes chunks for chunk stream 3", id)
		}
		r.Eval(true, "chunker", id, o.b)
		r.Count("chunked", 1)
	}
	r.Need("own_commands", 5000)
	r.Need("own_commands_refused", 1000)
	r.Need("shared_parsers", 50)
	r.Need("own_data", 3000)
	r.Need("own_items", 3000)
	r.Need("own_failures", 500)
}
