package main

import (
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/kit"
	"github.com/anishathalye/porcupine"
)

// registers checks the header state's accessors as linearizable registers.
func registers(r *kit.R) {
	type op struct {
		Key   uint32 // 0: the last header
		Write bool
		Val   uint32
	}
	model := porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			m := map[uint32][]porcupine.Operation{}
			var ks []int
			for _, o := range h {
				k := o.Input.(op).Key
				if m[k] == nil {
					ks = append(ks, int(k))
				}
				m[k] = append(m[k], o)
			}
			sort.Ints(ks)
			var out [][]porcupine.Operation
			for _, k := range ks {
				out = append(out, m[uint32(k)])
			}
			return out
		},
		Init: func() any { return uint32(0) },
		Step: func(st, in, out any) (bool, any) {
			o := in.(op)
			if o.Write {
				return true, o.Val
			}
			return out.(uint32) == st.(uint32), st
		},
	}
	for i := range r.Cases(3_000_000, r.N(600, 3000)) {
		rng := r.Rng(i)
		n := chunk.NewNormalizer().(*chunk.DefaultNormalizer)
		g := 2 + rng.Intn(4)
		plan := make([][]op, g)
		for a := range plan {
			for k := 0; k < 10; k++ {
				plan[a] = append(plan[a], op{uint32(rng.Intn(3)), rng.Intn(2) == 0, uint32(1 + a*100 + k)})
			}
		}
		val := func(h *chunk.Header) uint32 {
			if h == nil {
				return 0
			}
			return h.MessageHeader.Timestamp
		}
		r.Arm(rng)
		var mu sync.Mutex
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		var clock atomic.Int64
		for a := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plan[a] {
					call := clock.Add(1)
					var out uint32
					h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: o.Key}, MessageHeader: chunk.MessageHeader{Timestamp: o.Val}}
					switch {
					case o.Key == 0 && o.Write:
						n.SetLast(h)
					case o.Key == 0:
						out = val(n.Last())
					case o.Write:
						n.StoreHeader(h)
					default:
						out = val(n.Header(o.Key))
					}
					ret := clock.Add(1)
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: a, Input: o, Call: call, Output: out, Return: ret})
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		res, _ := porcupine.CheckOperationsVerbose(model, hist, time.Minute)
		if res == porcupine.Illegal {
			r.Fail("header state history is not linearizable: %+v", hist)
		}
		if res == porcupine.Unknown {
			r.Count("histories_undecided", 1)
		}
		r.Count("register_histories", 1)
		r.Eval(true, "reg", i, fmt.Sprint(hist))
	}
}

// tagOf puts stream and sequence number into the data.
func tagged(rng *rand.Rand, id uint32, seqno int, max int) kit.Msg {
	m := kit.Message(rng, id, 64, max)
	m.Data = append([]byte{byte(seqno >> 8), byte(seqno), byte(id)}, m.Data...)
	return m
}

// p01: the parser's fan-out.
func p01(r *kit.R) {
	r.Rule("a session of uniquely tagged messages on several chunk streams, read through a parser with single and combined streams and one " +
		"consumer each (slow, fast, or asking for its stream late), schedule perturbed, under the race detector; distinct by arrival order at " +
		"the consumers; non-trivial when at least two consumers received something")
	for i := range r.Cases(0, r.N(260, 6000)) {
		rng := r.Rng(i)
		nid := 2 + rng.Intn(6)
		ids := kit.CSIDs(rng, nid)
		size := 64
		large := rng.Intn(4) == 0
		if large && rng.Intn(2) == 0 {
			size = 8192
		}
		e := kit.NewEnc(size)
		var open []*kit.Part
		want := map[uint32][]kit.Msg{}
		max := kit.Max(rng, 200)
		total, bad := 0, 0
		n := 10 + rng.Intn(50)
		fin := func(p *kit.Part) {
			if p.Done {
				want[p.M.CSID] = append(want[p.M.CSID], p.M)
				total++
				for j, q := range open {
					if q == p {
						open = append(open[:j], open[j+1:]...)
						break
					}
				}
			}
		}
		has2 := has(ids, 2)
		for k := 0; k < n || len(open) > 0; k++ {
			if !has2 && rng.Intn(12) == 0 {
				bad++
				e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}})
			}
			id := ids[rng.Intn(nid)]
			var p *kit.Part
			for _, q := range open {
				if q.M.CSID == id {
					p = q
				}
			}
			if p == nil && k >= n {
				p = open[0]
			}
			if p != nil {
				p.Next()
			} else {
				m := tagged(rng, id, k, max)
				if large && rng.Intn(3) == 0 {
					m.Data = append(m.Data, kit.Bytes(rng, []int{1000, 4094, 5000, 9000, 17000}[rng.Intn(5)])...)
				}
				p = e.Begin(kit.Compress(rng, e, m))
				open = append(open, p)
			}
			fin(p)
		}
		src := kit.Frag(rng, e.B)
		src.End = kit.ErrCut
		p := chunk.NewParser(chunk.NewReader(src, size, chunk.NewNormalizer()))

		// groups: a random partition of the ids
		perm := rng.Perm(nid)
		var groups [][]uint32
		for k := 0; k < nid; {
			l := 1
			if rng.Intn(2) == 0 {
				l = 1 + rng.Intn(nid-k)
			}
			var g []uint32
			for _, x := range perm[k : k+l] {
				g = append(g, ids[x])
			}
			groups = append(groups, g)
			k += l
		}
		r.Scenario("%d messages on groups %v, %d faulty size changes", total, groups, bad)
		r.Arm(rng)
		var mu sync.Mutex
		got := make([][]*chunk.Chunk, len(groups))
		var order []byte
		var count atomic.Int64
		full := make(chan struct{})
		endc := make(chan struct{})
		var wg sync.WaitGroup
		quit := make(chan struct{})
		for gi, g := range groups {
			late := len(g) == 1 && rng.Intn(4) == 0
			slow := rng.Intn(3)
			naps := rng.Intn(6)
			var st chunk.Stream
			if !late {
				ask, err := g, error(nil)
				if rng.Intn(3) == 0 { // one of them twice: the same, or refused
					ask = append(g[:len(g):len(g)], g[rng.Intn(len(g))])
				}
				if st, err = p.Stream(ask...); err != nil && len(ask) > len(g) {
					st, err = p.Stream(g...)
				}
				if err != nil || st == nil {
					r.Fail("Stream(%v): %v", g, err)
				}
			}
			seed := rng.Uint32()
			away := -1 // until then the others get no further without this consumer
			if rng.Intn(2) == 0 {
				away = rng.Intn(12)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if late {
					for k := 0; k < 50; k++ {
						kit.Yield()
					}
					var err error
					if st, err = p.Stream(g...); err != nil {
						r.Fail("Stream(%v): %v", g, err)
					}
				}
				for {
					if len(got[gi]) == away {
						away += 1 + int(seed%20)
						r.Quiesce(endc)
					}
					select {
					case c, ok := <-st.In():
						if !ok {
							return
						}
						mu.Lock()
						got[gi] = append(got[gi], c)
						order = append(order, byte(gi))
						mu.Unlock()
						if count.Add(1) == int64(total) {
							close(full)
						}
						if slow == 1 {
							kit.Yield()
						}
						if slow == 2 && naps > 0 {
							naps--
							time.Sleep(time.Duration(100+seed>>8%900) * time.Microsecond)
							seed = seed*1664525 + 1013904223
						}
					case <-quit:
						return
					}
				}
			}()
		}
		errs := 0
		go func() {
			for err := range p.Errs() {
				if errors.Is(err, kit.ErrCut) {
					close(endc)
					for range p.Errs() {
					}
					return
				}
				errs++
			}
		}()
		go p.Recv()
		if total > 0 {
			<-full
		}
		<-endc
		r.End()
		if errs != bad {
			r.Fail("%d errors forwarded, the reader reports %d", errs, bad)
		}
		// nothing is delivered twice: give surplus a chance to arrive
		if i%8 == 0 {
			kit.Yield()
		}
		close(quit)
		wg.Wait()
		p.Close()
		if int(count.Load()) != total {
			r.Fail("%d messages received, %d sent", count.Load(), total)
		}
		active := 0
		for gi, g := range groups {
			next := map[uint32]int{}
			if len(got[gi]) > 0 {
				active++
			}
			for k, c := range got[gi] {
				id := c.StreamId()
				if !has(g, id) {
					r.Fail("consumer of %v received a message of chunk stream %d", g, id)
				}
				if next[id] >= len(want[id]) {
					r.Fail("consumer of %v received %d messages of chunk stream %d, %d were sent", g, next[id]+1, id, len(want[id]))
				}
				if d := kit.Diff(want[id][next[id]], c); d != "" {
					r.Fail("consumer of %v, item %d (message %d of chunk stream %d): %s", g, k, next[id], id, d)
				}
				next[id]++
			}
			for _, id := range g {
				if next[id] != len(want[id]) {
					r.Fail("chunk stream %d: %d of %d messages received", id, next[id], len(want[id]))
				}
			}
		}
		r.Eval(active > 1, fmt.Sprint(groups), order)
		r.Count("messages_routed", total)
		r.Count("errors_forwarded", errs+1)
		r.Count("combined_streams", len(groups))
		if i < 3 {
			r.Sample("groups %v, arrival order %v", groups, order)
		}
	}
	r.Need("messages_routed", 2000)
	longRoutes(r)
	allRoutes(r)
	wideRoutes(r)
	stallRoutes(r)
}

// p02: asking for streams concurrently.
func p02(r *kit.R) {
	r.Rule("concurrent requests for single and combined chunk streams over few ids, checked against a sequential model for linearizability, " +
		"under the race detector; distinct by history; non-trivial when some combined request succeeded and some failed")
	type in struct{ IDs []uint32 }
	type out struct {
		OK   bool
		What string // identity of a single stream
	}
	model := porcupine.Model{
		Init: func() any { return "" },
		Step: func(st, i, o any) (bool, any) {
			s := st.(string) // "id=identity;" for each existing stream, identity ? when unknown
			x, y := i.(in), o.(out)
			find := func(id uint32) (string, bool) {
				for _, p := range strings.Split(s, ";") {
					if kv := strings.SplitN(strings.Trim(p, "[]"), "=", 2); len(kv) == 2 && kv[0] == fmt.Sprint(id) {
						return kv[1], true
					}
				}
				return "", false
			}
			if len(x.IDs) == 0 {
				return !y.OK, s
			}
			if len(x.IDs) == 1 {
				if !y.OK {
					return false, s
				}
				w, ok := find(x.IDs[0])
				if !ok {
					return true, norm(s + fmt.Sprintf("[%d=%s];", x.IDs[0], y.What))
				}
				if w == "?" {
					return true, norm(strings.Replace(s, fmt.Sprintf("[%d=?];", x.IDs[0]), fmt.Sprintf("[%d=%s];", x.IDs[0], y.What), 1))
				}
				return w == y.What, s
			}
			for _, id := range x.IDs {
				if _, ok := find(id); ok {
					return !y.OK, s
				}
			}
			ids := slices.Clone(x.IDs)
			slices.Sort(ids)
			ids = slices.Compact(ids)
			if !y.OK {
				return len(ids) < len(x.IDs), s
			}
			for _, id := range ids {
				s += fmt.Sprintf("[%d=?];", id)
			}
			return true, norm(s)
		},
	}
	und := 0
	for i := range r.Cases(0, r.N(4000, 12000)) {
		rng := r.Rng(i)
		p := chunk.NewParser(chunk.NewReader(&kit.Src{}, 128, chunk.NewNormalizer()))
		g := 2 + rng.Intn(4)
		pool := kit.CSIDs(rng, 3+rng.Intn(5))
		wide := rng.Intn(40) == 0
		if wide {
			pool = kit.CSIDs(rng, 30+rng.Intn(70))
		}
		plan := make([][][]uint32, g)
		for a := range plan {
			for k := 0; k < 3+rng.Intn(3); k++ {
				l := 1
				switch rng.Intn(8) {
				case 0:
					l = 0
				case 1, 2, 3, 4:
					l = 2 + rng.Intn(2)
					if wide {
						l = 2 + rng.Intn(len(pool)/2)
					}
				}
				pm := rng.Perm(len(pool))
				var ids []uint32
				for _, x := range pm[:l] {
					ids = append(ids, pool[x])
				}
				if l > 1 && rng.Intn(6) == 0 {
					// one of them twice: one stream all the same, or none
					ids = append(ids, ids[rng.Intn(l)])
				}
				plan[a] = append(plan[a], ids)
			}
		}
		r.Scenario("%d goroutines requesting %v", g, plan)
		r.Arm(rng)
		var mu sync.Mutex
		var hist []porcupine.Operation
		var clock atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		okMulti, badMulti := 0, 0
		for a := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, ids := range plan[a] {
					call := clock.Add(1)
					st, err := p.Stream(ids...)
					ret := clock.Add(1)
					if (err == nil) != (st != nil) {
						r.Fail("Stream(%v) = %v, %v", ids, st, err)
					}
					o := out{OK: err == nil}
					if len(ids) == 1 {
						o.What = fmt.Sprintf("%p", st)
					}
					mu.Lock()
					if len(ids) > 1 && err == nil {
						okMulti++
					}
					if len(ids) > 1 && err != nil {
						badMulti++
					}
					hist = append(hist, porcupine.Operation{ClientId: a, Input: in{ids}, Call: call, Output: o, Return: ret})
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		res, _ := porcupine.CheckOperationsVerbose(model, hist, time.Minute)
		switch res {
		case porcupine.Illegal:
			r.Fail("stream requests are not linearizable: %+v", hist)
		case porcupine.Unknown:
			und++
		}
		r.Eval(okMulti > 0 && badMulti > 0, fmt.Sprint(hist))
		r.Count("requests", len(hist))
		r.Count("combined_granted", okMulti)
		r.Count("combined_refused", badMulti)
		if i < 3 {
			r.Sample("%d requests: %v", len(hist), plan)
		}
	}
	r.Count("histories_undecided", und)
	r.Need("combined_granted", 100)
	r.Need("combined_refused", 100)
}

func norm(s string) string {
	l := strings.Split(strings.TrimSuffix(s, ";"), ";")
	sort.Strings(l)
	return strings.Join(l, ";") + ";"
}

// p03: closing readers and parsers.
func p03(r *kit.R) {
	r.Rule("a reader or parser closed while idle in a read, blocked on a message or an error nobody takes, busy, at the end of its " +
		"transport, or before it runs, schedule perturbed, under the race detector; distinct by situation, stream and traffic")
	sit := []string{"idle", "message blocked", "error blocked", "busy", "ended", "early"}
	for i := range r.Cases(0, r.N(1200, 12000)) {
		rng := r.Rng(i)
		k := i % len(sit)
		parser := (i/len(sit))%2 == 0
		pipe := kit.NewPipe(64)
		rd := chunk.NewReader(pipe, 64, chunk.NewNormalizer())
		e := kit.NewEnc(64)
		bit := func() []byte {
			e.B = nil
			e.All(kit.Message(rng, uint32(3+rng.Intn(3)), 64, 150))
			return e.B
		}
		r.Scenario("close of %s while %s", map[bool]string{true: "parser", false: "reader"}[parser], sit[k])
		r.Arm(rng)
		closers := 1
		if rng.Intn(3) == 0 {
			closers = 2 + rng.Intn(3)
			r.Count("closed_by_several_at_once", 1)
		}
		traffic := rng.Intn(5)
		var recvDone = make(chan struct{})
		badSize := func() {
			e.B = nil
			e.All(kit.Msg{CSID: 2, Type: 1, Data: []byte{0, 0, 0, 0}})
			pipe.Feed(e.B)
		}
		if !parser {
			run := func() { go func() { rd.Recv(); close(recvDone) }() }
			stop := make(chan struct{})
			var wg sync.WaitGroup
			if k != 5 {
				run()
				for t := 0; t < traffic; t++ {
					pipe.Feed(bit())
					<-rd.Chunks()
				}
			}
			switch k {
			case 1:
				pipe.Feed(bit())
				maybe(r, rng)
			case 2:
				badSize()
				maybe(r, rng)
			case 3:
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-rd.Chunks():
						case <-rd.Errs():
						case <-stop:
							return
						}
					}
				}()
				for t := 0; t < 20; t++ {
					pipe.Feed(bit())
				}
			case 4:
				pipe.Cut(kit.ErrCut)
				<-rd.Errs()
				maybe(r, rng)
			}
			if k == 5 {
				c := make(chan struct{})
				go func() { kit.AtOnce(closers, rd.Close); close(c) }()
				maybe(r, rng)
				run()
				<-c
			} else {
				kit.AtOnce(closers, rd.Close)
			}
			// a read in progress may have to return first
			pipe.Cut(kit.ErrCut)
			<-recvDone
			close(stop)
			wg.Wait()
		} else {
			p := chunk.NewParser(rd)
			var twice chunk.Stream
			single, _ := p.Stream(3)
			multi, _ := p.Stream(4, 5)
			if rng.Intn(3) == 0 {
				// one asked for with an id given twice, if it is granted
				if m, err := p.Stream(6, 7, 6); err == nil {
					twice = m
					r.Count("combined_with_repeated_ids", 1)
				} else if st, err := p.Stream(6, 7); err != nil {
					r.Fail("Stream(6, 7), after Stream(6, 7, 6) was refused: %v", err)
				} else {
					twice = st
				}
			}
			run := func() { go func() { p.Recv(); close(recvDone) }() }
			stop := make(chan struct{})
			var wg sync.WaitGroup
			var late []chunk.Stream
			if rng.Intn(2) == 0 {
				// others go on asking for streams
				base := uint32(100 + rng.Intn(1000))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := uint32(0); n < 200; n++ {
						select {
						case <-stop:
							return
						default:
						}
						if st, err := p.Stream(base + n%40); err != nil || st == nil {
							r.Fail("Stream(%d) around Close: %v, %v", base+n%40, st, err)
						}
						if st, err := p.Stream(3); err != nil || st != single {
							r.Fail("Stream(3) around Close: %v, %v", st, err)
						}
						if n%4 == 0 {
							m, err := p.Stream(base+10000+n, base+20000+n)
							if err != nil {
								r.Fail("Stream(%d, %d) around Close: %v", base+10000+n, base+20000+n, err)
							}
							late = append(late, m)
						}
						if st, _ := p.Stream(base + 2000 + n); n%8 == 0 {
							late = append(late, st)
						}
						kit.Yield()
					}
				}()
				r.Count("closed_while_streams_are_requested", 1)
			}
			if k != 5 {
				run()
				for t := 0; t < traffic; t++ {
					pipe.Feed(bit())
					select {
					case <-single.In():
					case <-multi.In():
					}
				}
			}
			drainMulti := true
			unasked := false // whether a message waits on a stream nobody asked for
			switch k {
			case 1:
				e.B = nil
				id := uint32(3)
				if unasked = rng.Intn(2) == 0; unasked {
					id = 40
				}
				e.All(kit.Message(rng, id, 64, 150))
				pipe.Feed(e.B)
				maybe(r, rng)
				if unasked && rng.Intn(2) == 0 {
					r.Quiesce()
				}
			case 2:
				badSize()
				maybe(r, rng)
			case 3:
				wg.Add(1)
				drainMulti = false
				go func() {
					defer wg.Done()
					a, b, c := single.In(), multi.In(), p.Errs()
					for {
						select {
						case _, ok := <-a:
							if !ok {
								a = nil
							}
						case <-b:
						case _, ok := <-c:
							if !ok {
								c = nil
							}
						case <-stop:
							return
						}
					}
				}()
				for t := 0; t < 20; t++ {
					pipe.Feed(bit())
				}
			case 4:
				pipe.Cut(kit.ErrCut)
				<-p.Errs()
				maybe(r, rng)
			}
			if k == 5 {
				c := make(chan struct{})
				go func() { kit.AtOnce(closers, p.Close); close(c) }()
				maybe(r, rng)
				run()
				<-c
			} else {
				kit.AtOnce(closers, p.Close)
				if traffic > 0 || k == 4 { // the loop was running
					// what was already on the way may still come, then the end
					for n, open := 0, true; open; n++ {
						select {
						case c, ok := <-single.In():
							if open = ok; ok && n > 3 {
								r.Fail("long after Close returned, the stream delivers %s", desc(c))
							}
						default:
							r.Fail("Close of a running parser returned, its stream is still open")
						}
					}
					for n, open := 0, true; open; n++ {
						select {
						case e, ok := <-p.Errs():
							if open = ok; ok && n > 3 {
								r.Fail("long after Close returned, %v is reported", e)
							}
						default:
							r.Fail("Close of a running parser returned, its errors are not ended")
						}
					}
					r.Count("ends_seen_at_once", 1)
				}
			}
			pipe.Cut(kit.ErrCut)
			<-recvDone
			// consumers see the end; at most one message was in flight
			wait := func(what string, ch <-chan *chunk.Chunk) {
				for n := 0; ; n++ {
					if _, ok := <-ch; !ok {
						return
					}
					if n > 3 {
						r.Fail("%s keeps delivering after Close", what)
					}
				}
			}
			wait("stream 3", single.In())
			if unasked {
				r.Scenario("close of parser while a message waits on a stream that nobody asked for before the close")
				st, err := p.Stream(40)
				if err != nil {
					r.Fail("Stream(40) after Close: %v", err)
				}
				wait("stream 40", st.In())
				r.Count("unasked_streams_ended", 1)
			}
			for n := 0; ; n++ {
				if _, ok := <-p.Errs(); !ok {
					break
				} else if n > 3 {
					r.Fail("errors keep coming after Close")
				}
			}
			_ = drainMulti
			gone := make(chan struct{})
			go func() { multi.(*chunk.MultiStream).AwaitClose(); close(gone) }()
			wait("stream 4,5", multi.In())
			<-gone
			close(stop)
			wg.Wait()
			st, err := p.Stream(77777)
			if err != nil {
				r.Fail("Stream after Close: %v", err)
			}
			r.Scenario("close of parser while %s, then the end of streams asked for around or after it", sit[k])
			if twice != nil {
				late = append(late, twice)
			}
			for _, st := range append(late, st) {
				if m, ok := st.(*chunk.MultiStream); ok {
					go m.AwaitClose()
				}
				if c, ok := <-st.In(); ok {
					r.Fail("a stream nothing was sent on delivers %s", desc(c))
				}
			}
			r.Count("streams_requested_around_close", len(late)+1)
		}
		r.End()
		if len(kit.Running("/repo/chunk", "rtmp/chunk.")) > 0 {
			r.Quiesce()
			if l := kit.Running("rtmp/chunk."); len(l) > 0 {
				r.Fail("goroutine left after close while %s:\n%s", sit[k], l[0])
			}
		}
		r.Eval(true, k, parser, traffic, i)
		r.Count("closed_"+sit[k], 1)
	}
	r.Need("ends_seen_at_once", 100)
	r.Need("closed_by_several_at_once", 100)
	r.Need("unasked_streams_ended", 20)
	r.Sample("situations %v for reader and parser", sit)
	for _, s := range sit {
		r.Need("closed_"+s, 10)
	}
	stallCloses(r)
}

// p04: fan-in.
func p04(r *kit.R) {
	r.Rule("1-6 sources with uniquely tagged messages combined in one or several steps while some already run, one consumer, then the end " +
		"awaited, schedule perturbed, under the race detector; distinct by arrival order; non-trivial when sources alternate")
	for i := range r.Cases(0, r.N(3000, 12000)) {
		rng := r.Rng(i)
		n := 1 + rng.Intn(6)
		srcs := make([]fakeStream, n)
		cnt := make([]int, n)
		over := make([]bool, n) // ended before it is added
		total := 0
		for k := range srcs {
			cnt[k] = rng.Intn(15)
			if rng.Intn(3) == 0 {
				cnt[k] = rng.Intn(2)
			}
			srcs[k] = make(fakeStream, rng.Intn(3))
			if over[k] = rng.Intn(3) == 0; over[k] {
				srcs[k] = make(fakeStream, cnt[k])
			}
			total += cnt[k]
		}
		msg := func(k, j int) *chunk.Chunk { return kit.Msg{CSID: uint32(3 + k), MSID: uint32(j)}.Chunk() }
		for k, s := range srcs {
			if over[k] {
				for j := 0; j < cnt[k]; j++ {
					s <- msg(k, j)
				}
				close(s)
			}
		}
		r.Scenario("%d sources with %v messages, ended before %v", n, cnt, over)
		r.Arm(rng)
		m := chunk.NewMultiStream()
		var wg sync.WaitGroup
		feed := func(k int) {
			if over[k] {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < cnt[k]; j++ {
					srcs[k] <- msg(k, j)
				}
				close(srcs[k])
			}()
		}
		for k := 0; k < n; {
			l := rng.Intn(n - k + 1)
			if l == 0 && rng.Intn(2) == 0 {
				l = 1
			}
			var a []chunk.Stream
			for _, s := range srcs[k : k+l] {
				a = append(a, s)
			}
			early := rng.Intn(2) == 0
			for j := k; j < k+l && early; j++ {
				feed(j)
			}
			if m.Append(a...) != m {
				r.Fail("Append returned another stream")
			}
			for j := k; j < k+l && !early; j++ {
				feed(j)
			}
			k += l
			if rng.Intn(2) == 0 {
				kit.Yield()
			}
		}
		done := make(chan struct{})
		go func() { m.AwaitClose(); close(done) }()
		away := -1
		if total > 0 && rng.Intn(3) == 0 {
			away = rng.Intn(total) // then the consumer is busy elsewhere
		}
		got := 0
		pause := func() {
			if got != away {
				return
			}
			r.Quiesce()
			select {
			case <-done:
				r.Fail("the end was reported with %d of %d messages delivered", got, total)
			default:
			}
			r.Count("ends_awaited_with_messages_left", 1)
		}
		pause()
		next := make([]int, n)
		var order []byte
		alt := 0
		for c := range m.In() {
			k := int(c.StreamId()) - 3
			if k < 0 || k >= n {
				r.Fail("message of unknown source %d", k)
			}
			if int(c.Header.MessageHeader.StreamId) != next[k] {
				r.Fail("source %d: message %d arrived in place of %d", k, c.Header.MessageHeader.StreamId, next[k])
			}
			next[k]++
			if len(order) > 0 && order[len(order)-1] != byte(k) {
				alt++
			}
			order = append(order, byte(k))
			got++
			pause()
			if rng.Intn(4) == 0 {
				kit.Yield()
			}
		}
		<-done
		wg.Wait()
		for k := range next {
			if next[k] != cnt[k] {
				r.Fail("source %d: %d of %d messages delivered before the end", k, next[k], cnt[k])
			}
		}
		r.End()
		r.Eval(alt > 1, cnt, order)
		r.Count("messages_merged", total)
		r.Count("alternations", alt)
		if i < 3 {
			r.Sample("%v messages, arrival order %v", cnt, order)
		}
	}
	r.Need("alternations", 500)
	longFanIn(r)
	manySources(r)
	stallFanIn(r)
}

// c13: independent sessions side by side.
func c13(r *kit.R) {
	r.Rule("4-8 complete and independent sessions (write, fragment, read, route, parse control messages, handshake) run at once, some after and beside " +
		"sessions in which everything fails, on the same chunk stream ids with different contents, schedule perturbed, under the race detector; distinct by contents; non-trivial always")
	for i := range r.Cases(0, r.N(240, 1500)) {
		rng := r.Rng(i)
		g := 4 + rng.Intn(5)
		seeds := make([]int64, g)
		for k := range seeds {
			seeds[k] = rng.Int63()
		}
		r.Scenario("%d sessions", g)
		r.Arm(rng)
		var wg sync.WaitGroup
		var msgs atomic.Int64
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seeds[k]))
				if rng.Intn(2) == 0 {
					for n := 1 + rng.Intn(3); n > 0; n-- {
						troubled(r, rng)
						r.Count("troubled_sessions", 1)
					}
				}
				msgs.Add(int64(session(r, rng)))
			}()
		}
		wg.Wait()
		r.Count("sessions", g)
		r.Count("messages", int(msgs.Load()))
		r.Eval(true, seeds)
		if i < 2 {
			r.Sample("%d sessions, %d messages", g, msgs.Load())
		}
	}
	r.Need("sessions", 100)
	r.Need("troubled_sessions", 100)
}

// troubled is a session of which everything fails at some point: how is not
// looked at here, but the sessions beside and after it are not to notice.
func troubled(r *kit.R, rng *rand.Rand) {
	ids := []uint32{2, 3, 4, 64, 320}
	// a handshake that is refused, cut short or not answered
	p := newPeer(3, kit.Bytes(rng, 1536), ident, kit.Frag(rng, nil))
	switch rng.Intn(4) {
	case 0:
		p = newPeer(byte(4+rng.Intn(252)), kit.Bytes(rng, 1536), ident, kit.Frag(rng, nil))
	case 1:
		p = newPeer(3, kit.Bytes(rng, rng.Intn(1536)), ident, kit.Frag(rng, nil))
	case 2:
		p = newPeer(3, kit.Bytes(rng, 1536), func([]byte) []byte { return make([]byte, 1536) }, kit.Frag(rng, nil))
	case 3:
		p.out.FailAt = rng.Intn(3073)
		p.out.Err = kit.ErrCut
	}
	if err := shake(p); err == nil {
		r.Fail("a handshake that had to fail did not")
	}
	// writes that fail half way, or are refused
	sink := kit.NewFlaky()
	w := chunk.NewWriter(sink, 1+rng.Intn(200))
	for k := 0; k < 10; k++ {
		m := kit.Message(rng, ids[rng.Intn(5)], 128, kit.Max(rng, 600))
		switch rng.Intn(4) {
		case 0:
			m.CSID = 65600 + rng.Uint32()%1000
		case 1:
			w.SetWriteSize(-rng.Intn(2))
		default:
			w.SetWriteSize(1 + rng.Intn(200))
		}
		sink.Next(rng, kit.Encode(128, kit.Msg{CSID: 3, Data: m.Data}), rng.Intn(2) == 0)
		w.Write(m.Chunk())
	}
	// bytes that make no sense, or end within messages
	e := kit.NewEnc(1 + rng.Intn(200))
	var open []*kit.Part
	size := e.Size
	for k, id := range ids {
		if rng.Intn(3) == 0 {
			e.All(kit.Msg{CSID: 2, Type: byte(1 + rng.Intn(2)), Data: kit.Bytes(rng, rng.Intn(4))})
		}
		if k > 0 {
			open = append(open, e.Begin(kit.Message(rng, id, e.Size, 600)))
		}
	}
	for _, p := range open {
		if !p.Done && rng.Intn(3) == 0 {
			p.Next()
		}
	}
	b := e.B
	if rng.Intn(2) == 0 {
		b = append(b, kit.Bytes(rng, rng.Intn(400))...)
	}
	src := kit.Frag(rng, b)
	src.End = kit.Fault(rng)
	_, _, rd := drive(r, src, rng.Intn(2) == 0, size)
	kit.StopReader(rd)
	// a parser and a control stream closed over messages nobody takes
	src = kit.Frag(rng, kit.Encode(128, kit.Msg{CSID: 2, Type: 3, Data: kit.Bytes(rng, rng.Intn(8))}))
	src.End = kit.ErrCut
	pr := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
	s2, err := pr.Stream(2)
	if err != nil {
		r.Fail("Stream(2): %v", err)
	}
	cs := control.NewStream(s2, chunk.NewWriter(kit.Fails(), 128), control.NewParser(), control.NewChunker())
	done := make(chan struct{}, 2)
	go func() { pr.Recv(); done <- struct{}{} }()
	go func() { cs.Recv(); done <- struct{}{} }()
	out := cs.Out()
	for n := rng.Intn(40); n > 0; n-- {
		select {
		case out <- &control.Acknowledgement{SequenceNumber: rng.Uint32()}:
			out = nil
		default:
		}
		kit.Yield()
	}
	cs.Close()
	pr.Close()
	<-done
	<-done
	control.NewParser().Parse(kit.Msg{CSID: 2, Type: byte(rng.Intn(9)), Data: kit.Bytes(rng, rng.Intn(4))}.Chunk())
}

func session(r *kit.R, rng *rand.Rand) int {
	// handshake
	c1 := kit.Bytes(rng, 1536)
	p := newPeer(3, c1, ident, kit.Frag(rng, nil))
	if err := shake(p); err != nil {
		r.Fail("handshake beside other sessions: %v", err)
	}
	if d := kit.DiffBytes(c1[8:], p.out.B[1+1536+8:]); d != "" {
		r.Fail("S2 beside other sessions: %s", d)
	}
	// both directions of the chunk layer
	size := 1 + rng.Intn(200)
	ids := []uint32{3, 4, 64, 320}
	sink := kit.NewSink()
	w := chunk.NewWriter(sink, size)
	e := kit.NewEnc(size)
	var want []expect
	for k := 0; k < 25; k++ {
		m := e.All(kit.Compress(rng, e, kit.Message(rng, ids[rng.Intn(4)], size, kit.Max(rng, 400))))
		if err := w.Write(m.Chunk()); err != nil {
			r.Fail("Write: %v", err)
		}
		want = append(want, expect{m: m})
	}
	if d := kit.DiffBytes(e.B, sink.B); d != "" {
		r.Fail("wire bytes of a session running beside others: %s", d)
	}
	src := kit.Frag(rng, sink.B)
	src.End = kit.ErrCut
	got, _, rd := drive(r, src, false, size)
	compare(r, "session beside others", want, got)
	kit.StopReader(rd)
	// routed, with control messages on stream 2
	e = kit.NewEnc(size)
	var vals []string
	nm := 0
	for k := 0; k < 15; k++ {
		c, t, body := genControl(rng)
		if t > 2 {
			vals = append(vals, value(c))
			e.All(kit.Msg{CSID: 2, Type: t, Data: body})
		}
		e.All(kit.Message(rng, 3, size, 100))
		nm++
	}
	src = kit.Frag(rng, e.B)
	src.End = kit.ErrCut
	pr := chunk.NewParser(chunk.NewReader(src, size, chunk.NewNormalizer()))
	s2, _ := pr.Stream(2)
	s3, _ := pr.Stream(3)
	go pr.Recv()
	cp := control.NewParser()
	var gv []string
	// what is lost leaves this loop, and everything else, waiting
	for n, errs := 0, pr.Errs(); n < nm || len(gv) < len(vals) || errs != nil; {
		select {
		case c := <-s2.In():
			x, err := cp.Parse(c)
			if err != nil {
				r.Fail("control message beside other sessions: %v", err)
			}
			gv = append(gv, value(x))
		case <-s3.In():
			n++
		case err := <-errs:
			if !errors.Is(err, kit.ErrCut) {
				r.Fail("error beside other sessions: %v", err)
			}
			errs = nil
		}
	}
	if fmt.Sprint(gv) != fmt.Sprint(vals) {
		r.Fail("control messages beside other sessions: %v, want %v", gv, vals)
	}
	pr.Close()
	return len(want) + nm
}
