package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/kit"
)

// peer is a scripted client on the other end of a server-side handshake. C2
// is made from what the server has sent when it is read.
type peer struct {
	c0       byte
	c1       []byte
	c2       func(s1 []byte) []byte
	after    []byte
	in       *kit.Src // of c0+c1+c2+after, grown lazily
	out      *kit.Sink
	ready    bool
	log      []string // r/w events
	cut      int      // bytes readable; -1 all
	style    *kit.Src
	pending  int
	readErr  error
	heal     bool // the failure at cut is reported once only
	violated string
}

func newPeer(c0 byte, c1 []byte, c2 func([]byte) []byte, style *kit.Src) *peer {
	p := &peer{c0: c0, c1: c1, c2: c2, out: kit.NewSink(), cut: -1, style: style}
	p.style.B = append([]byte{c0}, c1...)
	return p
}

const echoEnd = 1 + 1536 + 1536

func (p *peer) Read(b []byte) (int, error) {
	s := p.style
	if !p.ready && s.Off >= 1+1536 {
		// C2 depends on S1, which a server has to have sent by now
		if len(p.out.B) < 1+1536 {
			p.violated = fmt.Sprintf("the server waits for C2 after sending only %d bytes", len(p.out.B))
			return 0, io.ErrClosedPipe
		}
		p.ready = true
		s.B = append(s.B, p.c2(p.out.B[1:1+1536])...)
		s.B = append(s.B, p.after...)
	}
	// pieces never cross the C1/C2 boundary before C2 exists
	if p.cut >= 0 {
		if s.Off >= p.cut {
			p.log = append(p.log, "r!")
			if p.heal {
				p.cut = -1
			}
			if p.readErr != nil {
				return 0, p.readErr
			}
			return 0, io.EOF
		}
		if len(b) > p.cut-s.Off {
			b = b[:p.cut-s.Off]
		}
	}
	eof := s.EOFWith
	if !p.ready {
		s.EOFWith = false
	}
	n, err := s.Read(b)
	s.EOFWith = eof
	p.log = append(p.log, "r")
	return n, err
}

func (p *peer) Write(b []byte) (int, error) {
	p.log = append(p.log, "w")
	return p.out.Write(b)
}

func ident(b []byte) []byte { return b }

func shake(p *peer) error { return handshake.With(&handshake.Param{Conn: p}).Handshake() }

// h01: which handshakes succeed.
func h01(r *kit.R) {
	r.Rule("a server-side handshake with a scripted client: every version byte, random C1, and a C2 that echoes S1 exactly or with any one " +
		"byte of the 1528-byte challenge altered (every position), truncated, shifted or replaced; distinct by version, alteration and C1")
	check := func(what string, p *peer, want bool, versionOnly bool) {
		h := handshake.With(&handshake.Param{Conn: p})
		err := h.Handshake()
		if p.violated != "" {
			r.Fail("%s: %s", what, p.violated)
		}
		if want && err != nil {
			r.Fail("%s: a correct handshake failed: %v", what, err)
		}
		if !want && err == nil {
			r.Fail("%s: the handshake succeeded", what)
		}
		// asked again, it is as successful as before: a client that has not
		// shaken hands, and sends nothing more, does not get in
		sent, taken := len(p.out.B), p.style.Off
		if err := h.Handshake(); want && err != nil {
			r.Fail("%s: a complete handshake fails afterwards: %v", what, err)
		} else if !want && err == nil {
			r.Fail("%s: the handshake failed, but succeeded when called again", what)
		}
		if want && (len(p.out.B) != sent || p.style.Off != taken) {
			r.Fail("%s: a complete handshake goes on", what)
		}
		p.out.B = p.out.B[:sent]
		if versionOnly {
			return
		}
		o := p.out.B
		if len(o) != 1+1536+1536 {
			r.Fail("%s: the server sent %d bytes, want %d", what, len(o), 1+1536*2)
		}
		if o[0] != 3 {
			r.Fail("%s: S0 announces version %d", what, o[0])
		}
		s2 := o[1+1536:]
		if !bytes.Equal(s2[:4], p.c1[:4]) {
			r.Fail("%s: S2 carries time % x, C1 had % x", what, s2[:4], p.c1[:4])
		}
		if d := kit.DiffBytes(p.c1[8:], s2[8:]); d != "" {
			r.Fail("%s: S2 does not echo C1's challenge: %s", what, d)
		}
	}
	for range r.Cases(1_000_000, 1) {
		for v := 0; v < 256; v++ {
			r.Scenario("version %d", v)
			rng := r.Rng(v)
			p := newPeer(byte(v), kit.Bytes(rng, 1536), ident, kit.Frag(rng, nil))
			check(fmt.Sprintf("version %d", v), p, v == 3, v != 3)
			if v != 3 && len(p.out.B) != 0 {
				r.Fail("version %d was answered with %d bytes", v, len(p.out.B))
			}
			r.Count("versions", 1)
		}
		r.EvalN(256, "version")
	}
	for i := range r.Cases(0, r.N(4, 12)) {
		rng := r.Rng(i)
		for pos := 0; pos < 1536; pos++ {
			bit := byte(1) << rng.Intn(8)
			r.Scenario("C2 byte %d altered by %#02x", pos, bit)
			p := newPeer(3, kit.Bytes(rng, 1536), func(s1 []byte) []byte {
				x := append([]byte(nil), s1...)
				x[pos] ^= bit
				return x
			}, kit.Frag(rng, nil))
			// the first eight bytes are times, which an honest client fills in itself
			check(fmt.Sprintf("C2 byte %d altered by %#02x", pos, bit), p, pos < 8, false)
			if pos >= 8 {
				r.Count("alterations_refused", 1)
			}
		}
		r.EvalN(1536, fmt.Sprint("flip", i))
	}
	for i := range r.Cases(10_000, r.N(2400, 10000)) {
		rng := r.Rng(i)
		kind := rng.Intn(8)
		c1 := kit.Bytes(rng, 1536)
		f := func(s1 []byte) []byte {
			x := append([]byte(nil), s1...)
			switch kind {
			case 1: // reordered: swap two different challenge bytes
				for {
					a, b := 8+rng.Intn(1528), 8+rng.Intn(1528)
					if x[a] != x[b] {
						x[a], x[b] = x[b], x[a]
						break
					}
				}
			case 2: // echoes C1 instead
				copy(x, c1)
			case 3: // shifted by one
				copy(x[9:], s1[8:1535])
			case 4:
				for k := 8; k < len(x); k++ {
					x[k] = 0
				}
			case 5: // honest client: own time2
				copy(x[4:8], kit.Bytes(rng, 4))
			case 6: // equal sums and xors, different bytes
				for {
					a, b := 8+rng.Intn(1528), 8+rng.Intn(1528)
					if a != b && x[a] < 255 && x[b] > 0 {
						x[a]++
						x[b]--
						break
					}
				}
			case 7: // right only in one half
				if rng.Intn(2) == 0 {
					copy(x[8:8+764], kit.Bytes(rng, 764))
				} else {
					copy(x[8+764:], kit.Bytes(rng, 764))
				}
			}
			return x
		}
		p := newPeer(3, c1, f, kit.Frag(rng, nil))
		r.Scenario("C2 kind %d", kind)
		check(fmt.Sprintf("C2 kind %d", kind), p, kind == 0 || kind == 5, false)
		r.Eval(true, kind, c1)
		r.Count("handshakes", 1)
		if i-10000 < 3 {
			r.Sample("C2 kind %d", kind)
		}
	}
	r.Need("alterations_refused", 1000)
	r.Need("versions", 256)
	stallShakes(r)
}

// h02: the challenge is fresh.
func h02(r *kit.R) {
	r.Rule("challenges taken from handshakes run one after another, concurrently, and in fresh processes: no 8 bytes at any offset may repeat " +
		"an aligned 8-byte block of the same or an earlier challenge; distinct by challenge")
	// every challenge's aligned blocks are remembered; every offset of it is
	// looked up, so that a repetition of 15 bytes is found wherever it lies
	type place struct {
		who string
		off int
	}
	seen := map[uint64]place{}
	var mu sync.Mutex
	note := func(who string, s1 []byte) {
		mu.Lock()
		defer mu.Unlock()
		if len(s1) != 1536 {
			r.Fail("%s: S1 has %d bytes", who, len(s1))
		}
		for k := 8; k+8 <= 1536; k += 8 {
			b := binary.BigEndian.Uint64(s1[k:])
			if w, ok := seen[b]; ok {
				r.Fail("challenge of %s repeats at offset %d 8 bytes (% x) of %s at offset %d", who, k, s1[k:k+8], w.who, w.off)
			}
			seen[b] = place{who, k}
		}
		for k := 8; k+8 <= 1536; k++ {
			if w, ok := seen[binary.BigEndian.Uint64(s1[k:])]; ok && (w.who != who || w.off != k) {
				r.Fail("challenge of %s repeats at offset %d 8 bytes (% x) of %s at offset %d", who, k, s1[k:k+8], w.who, w.off)
			}
		}
		r.Count("challenge_blocks", 191)
	}
	for i := range r.Cases(0, r.N(1600, 8000)) {
		rng := r.Rng(i)
		p := newPeer(3, kit.Bytes(rng, 1536), ident, &kit.Src{})
		if err := shake(p); err != nil {
			r.Fail("handshake: %v", err)
		}
		note(fmt.Sprintf("handshake %d", i), p.out.B[1:1537])
		r.Eval(true, i)
		if i < 2 {
			r.Sample("S1 challenge starts % x", p.out.B[9:25])
		}
	}
	for i := range r.Cases(1_000_000, r.N(60, 300)) {
		rng := r.Rng(i)
		r.Arm(rng)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			c1 := kit.Bytes(rng, 1536)
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := newPeer(3, c1, ident, &kit.Src{})
				if err := shake(p); err != nil {
					r.Fail("concurrent handshake: %v", err)
				}
				if d := kit.DiffBytes(c1[8:], p.out.B[1+1536+8:]); d != "" {
					r.Fail("concurrent handshake: S2 does not echo C1: %s", d)
				}
				note(fmt.Sprintf("concurrent handshake %d/%d", i, g), p.out.B[1:1537])
			}()
		}
		wg.Wait()
		r.EvalN(8, fmt.Sprint("conc", i))
	}
	for i := range r.Cases(2_000_000, r.N(8, 40)) {
		out, err := exec.Command(os.Args[0], "-dump-s1").Output()
		if err != nil {
			continue
		}
		for k, l := range strings.Fields(string(out)) {
			b, err := hex.DecodeString(l)
			if err != nil {
				continue
			}
			note(fmt.Sprintf("process %d, handshake %d", i, k), b)
			r.Eval(true, "proc", i, k)
			r.Count("challenges_of_other_processes", 1)
		}
	}
	r.Need("challenge_blocks", 10000)
	r.Need("challenges_of_other_processes", 4)
}

// dumpS1 prints two challenges, for h02's fresh processes.
func dumpS1() bool {
	if len(os.Args) < 2 || os.Args[1] != "-dump-s1" {
		return false
	}
	for k := 0; k < 2; k++ {
		p := newPeer(3, make([]byte, 1536), ident, &kit.Src{})
		if shake(p) == nil {
			fmt.Println(hex.EncodeToString(p.out.B[1:1537]))
		}
	}
	return true
}

// step is one recorded action of a custom sequence.
type step struct {
	name     string
	log      *[]string
	readErr  error
	writeErr error
	next     handshake.Sequence
}

func (s *step) Read(io.Reader) error     { *s.log = append(*s.log, s.name+"r"); return s.readErr }
func (s *step) WriteTo(io.Writer) error  { *s.log = append(*s.log, s.name+"w"); return s.writeErr }
func (s *step) Next() handshake.Sequence { *s.log = append(*s.log, s.name+"n"); return s.next }

// h03: what is read and written, and when.
func h03(r *kit.R) {
	r.Rule("a handshake over a transport that fragments, ends or fails at byte t of the input (every t of 3073) or of the output (every t), " +
		"followed by bytes of the chunk stream; distinct by t, direction and fragmentation")
	honest := func(rng int) (*peer, []byte) {
		g := r.Rng(rng)
		c1 := kit.Bytes(g, 1536)
		p := newPeer(3, c1, ident, kit.Frag(g, nil))
		p.after = kit.Bytes(g, 40)
		return p, c1
	}
	for i := range r.Cases(0, r.N(1800, 6000)) {
		p, _ := honest(i)
		r.Scenario("fragmentation piece %d zero %v", p.style.Max, p.style.Zero)
		if err := shake(p); err != nil {
			r.Fail("fragmented handshake (pieces up to %d, empty reads %v): %v %s", p.style.Max, p.style.Zero, err, p.violated)
		}
		if p.style.Off != echoEnd {
			r.Fail("the handshake consumed %d bytes, it has %d; the rest belongs to the chunk stream", p.style.Off, echoEnd)
		}
		if len(p.out.B) != echoEnd {
			r.Fail("the handshake sent %d bytes, want %d", len(p.out.B), echoEnd)
		}
		r.Eval(true, "frag", i)
		r.Count("complete_handshakes", 1)
	}
	for i := range r.Cases(1_000_000, r.N(3, 6)) {
		for t := 0; t < echoEnd; t++ {
			p, _ := honest(i*10000 + t)
			p.cut = t
			rng := r.Rng(i*10000 + t)
			if rng.Intn(3) > 0 {
				p.readErr = kit.Fault(rng)
			}
			p.heal = rng.Intn(2) == 0
			r.Scenario("input ends after %d bytes", t)
			err := shake(p)
			if err == nil {
				r.Fail("the handshake succeeded with %d of %d bytes of input", t, echoEnd)
			}
			if p.violated != "" {
				r.Fail("input ending after %d bytes: %s", t, p.violated)
			}
			if p.readErr != nil && !errors.Is(err, p.readErr) {
				r.Fail("input failing after %d bytes with %q reported as %q", t, p.readErr, err)
			}
			want := 0
			if t >= 1 {
				want = 1
			}
			if t >= 1+1536 {
				want = echoEnd
			}
			if len(p.out.B) > want || (want == echoEnd && len(p.out.B) != want) {
				r.Fail("%d bytes were sent after %d bytes of input, want %d", len(p.out.B), t, want)
			}
			r.Count("input_fault_points", 1)
		}
		r.EvalN(echoEnd, fmt.Sprint("in", i))
		for t := 0; t < echoEnd; t++ {
			p, c1 := honest(i*10000 + 5000 + t)
			p.out.FailAt = t
			rng := r.Rng(i*10000 + 5000 + t)
			p.out.Err = kit.WriteFault(rng)
			p.out.Heal = rng.Intn(2) == 0
			r.Scenario("output fails after %d bytes", t)
			err := shake(p)
			if !errors.Is(err, p.out.Err) {
				r.Fail("output failing after %d bytes with %q reported as %v", t, p.out.Err, err)
			}
			if len(p.out.B) != t {
				r.Fail("output failed after %d bytes with %q, %d bytes were sent in all", t, p.out.Err, len(p.out.B))
			}
			// nothing is read after the fault
			if k := strings.LastIndex(strings.Join(p.log, ""), "w"); k != len(strings.Join(p.log, ""))-1 {
				r.Fail("the handshake read on after its output failed at byte %d", t)
			}
			lim := 1
			if t >= 1 {
				lim = 1 + 1536
			}
			if p.style.Off > lim {
				r.Fail("output failed at byte %d but %d bytes of input were consumed, want at most %d", t, p.style.Off, lim)
			}
			if t > 1+1536+8 {
				if d := kit.DiffBytes(c1[8:8+t-1-1536-8], p.out.B[1+1536+8:]); d != "" {
					r.Fail("S2 prefix before the fault: %s", d)
				}
			}
			r.Count("output_fault_points", 1)
		}
		r.EvalN(echoEnd, fmt.Sprint("out", i))
	}
	// custom sequences: order of operations, stop at the first error
	for i := range r.Cases(2_000_000, 1) {
		n := 0
		for l := 1; l <= 5; l++ {
			for fail := -1; fail < 2*l; fail++ {
				var log, want []string
				boom := errors.New("boom")
				var first handshake.Sequence
				for k := l - 1; k >= 0; k-- {
					s := &step{name: fmt.Sprint(k), log: &log, next: first}
					if fail == 2*k {
						s.readErr = boom
					}
					if fail == 2*k+1 {
						s.writeErr = boom
					}
					first = s
				}
				for k := 0; k < l; k++ {
					want = append(want, fmt.Sprint(k)+"r")
					if fail == 2*k {
						break
					}
					want = append(want, fmt.Sprint(k)+"w")
					if fail == 2*k+1 {
						break
					}
					want = append(want, fmt.Sprint(k)+"n")
				}
				err := handshake.With(&handshake.Param{Conn: &bytes.Buffer{}, Initial: first}).Handshake()
				if (fail >= 0) != (err == boom) || (fail < 0 && err != nil) {
					r.Fail("sequence of %d steps failing at operation %d: %v", l, fail, err)
				}
				if fmt.Sprint(log) != fmt.Sprint(want) {
					r.Fail("sequence of %d steps failing at operation %d ran %v, want %v", l, fail, log, want)
				}
				n++
			}
		}
		_ = i
		r.EvalN(n, "custom")
	}
	r.Sample("honest peer, input cut at each of %d offsets, output failing at each of %d offsets", echoEnd, echoEnd)
	r.Need("input_fault_points", 3000)
	r.Need("output_fault_points", 3000)
	stallShakes(r)
}
