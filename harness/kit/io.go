package kit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
)

// ErrCut is the failure scripted transports report.
var ErrCut = errors.New("kit: transport failed")

// netErr is a net.Error of any kind.
type netErr struct{ timeout, temporary bool }

func (e *netErr) Error() string {
	return fmt.Sprintf("kit: network failure, timeout %v, temporary %v", e.timeout, e.temporary)
}
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temporary }

// faults are failures that transports report in practice.
var faults = []func() error{
	func() error { return ErrCut },
	func() error { return errors.New("kit: another failure") },
	func() error { return &netErr{false, true} },
	func() error { return &netErr{true, true} },
	func() error { return &netErr{true, false} },
	func() error { return &net.OpError{Op: "io", Net: "tcp", Err: &netErr{true, true}} },
	func() error {
		return &net.OpError{Op: "io", Net: "tcp", Err: os.NewSyscallError("io", syscall.ECONNRESET)}
	},
	func() error { return &net.OpError{Op: "io", Net: "tcp", Err: os.NewSyscallError("io", syscall.EPIPE)} },
	func() error { return syscall.EAGAIN },
	func() error { return syscall.EINTR },
	func() error { return fmt.Errorf("kit: wrapped: %w", syscall.EINTR) },
	func() error { return os.ErrDeadlineExceeded },
	func() error { return os.ErrClosed },
	func() error { return net.ErrClosed },
	func() error { return io.ErrClosedPipe },
	func() error { return io.ErrUnexpectedEOF },
	func() error { return io.ErrShortWrite },
	func() error { return io.ErrShortBuffer },
	func() error { return io.ErrNoProgress },
	func() error { return context.Canceled },
	func() error { return context.DeadlineExceeded },
	func() error { return fmt.Errorf("kit: wrapped: %w", ErrCut) },
}

// Fault draws a failure, not io.EOF.
func Fault(rng *rand.Rand) error { return faults[rng.Intn(len(faults))]() }

// WriteFault draws a failure a write reports, io.EOF included.
func WriteFault(rng *rand.Rand) error {
	if rng.Intn(len(faults)+1) == 0 {
		return io.EOF
	}
	return Fault(rng)
}

// Src serves fixed bytes in adversarial but legal pieces.
type Src struct {
	B       []byte
	Off     int
	Rng     *rand.Rand // nil: whole requests
	Max     int        // largest piece, when Rng is set
	Zero    bool       // sometimes (0, nil)
	EOFWith bool       // the end is reported together with the last bytes
	End     error      // reported at the end (io.EOF by default)
	zeros   int
	Reads   int
	Ended   atomic.Bool // the end has been reported
}

func (s *Src) end() error {
	s.Ended.Store(true)
	if s.End != nil {
		return s.End
	}
	return io.EOF
}

func (s *Src) Read(p []byte) (int, error) {
	s.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.Off >= len(s.B) {
		return 0, s.end()
	}
	n := len(p)
	if s.Rng != nil {
		if s.zeros > 1 {
			s.zeros--
			return 0, nil
		}
		if s.Zero && s.zeros == 0 && s.Rng.Intn(4) == 0 {
			// mostly a few times, now and then for long
			s.zeros = 1 + s.Rng.Intn(3)
			if s.Rng.Intn(24) == 0 {
				s.zeros = 1 + s.Rng.Intn(60)
			}
			return 0, nil
		}
		s.zeros = 0
		m := s.Max
		if m <= 0 {
			m = 1
		}
		if k := 1 + s.Rng.Intn(m); k < n {
			n = k
		}
	}
	n = copy(p[:n], s.B[s.Off:])
	s.Off += n
	if s.EOFWith && s.Off == len(s.B) {
		return n, s.end()
	}
	return n, nil
}

// Blip fails once before the byte at offset At, and recovers.
type Blip struct {
	*Src
	At  int
	Err error
	did bool
}

func (b *Blip) Read(p []byte) (int, error) {
	if !b.did && b.Off <= b.At && len(p) > 0 {
		if b.Off == b.At {
			b.did = true
			return 0, b.Err
		}
		p = p[:min(len(p), b.At-b.Off)]
	}
	return b.Src.Read(p)
}

// Frag builds a Src over b with a fragmentation style drawn from rng.
func Frag(rng *rand.Rand, b []byte) *Src {
	s := &Src{B: b, Rng: rand.New(rand.NewSource(rng.Int63()))}
	switch rng.Intn(7) {
	case 0:
		s.Rng = nil
	case 1:
		s.Max = 1
	case 2:
		s.Max = 1
		s.Zero = true
	case 3:
		s.Max = 1 + rng.Intn(16)
		s.EOFWith = true
	case 4:
		s.Max = 1 + rng.Intn(4096)
		s.Zero = true
		s.EOFWith = true
	case 5:
		s.Rng = nil
		s.EOFWith = true
	case 6:
		s.Max = 1 + rng.Intn(300)
	}
	if len(b) > 20000 && s.Rng != nil {
		s.Max += len(b) / 1000
	}
	return s
}

// ByteSrc is Frag's result with a ReadByte method, like bytes.Buffer or bufio.
type ByteSrc struct{ *Src }

func (s ByteSrc) ReadByte() (byte, error) {
	if s.Off >= len(s.B) {
		return 0, s.end()
	}
	b := s.B[s.Off]
	s.Off++
	return b, nil
}

// Sink records writes; safe for concurrent use, each Write atomic as on a
// net.Conn. It can fail at a byte offset.
type Sink struct {
	mu     sync.Mutex
	B      []byte
	Writes int
	Sizes  []int
	FailAt int // -1: never. Bytes from this offset on are refused.
	Err    error
	Heal   bool // fail once only
	Short  bool // refuse with a short count and no error
	After  int  // writes attempted after the failure
	Limit  int  // 0: none; beyond it Over is called
	Over   func()
	Yield  func()
}

func NewSink() *Sink { return &Sink{FailAt: -1} }

func (s *Sink) Write(p []byte) (int, error) {
	if s.Yield != nil {
		s.Yield()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Writes++
	if s.Limit > 0 && len(s.B)+len(p) > s.Limit && s.Over != nil {
		s.Over()
	}
	if s.FailAt >= 0 && len(s.B)+len(p) > s.FailAt {
		n := s.FailAt - len(s.B)
		if n < 0 {
			n = 0
		}
		if len(s.B) >= s.FailAt && s.After >= 0 && s.failed() {
			s.After++
		}
		s.B = append(s.B, p[:n]...)
		s.FailAt = len(s.B)
		s.mark()
		if s.Heal {
			s.FailAt = -1
		}
		if s.Short {
			return n, nil
		}
		err := s.Err
		if err == nil {
			err = ErrCut
		}
		return n, err
	}
	s.B = append(s.B, p...)
	s.Sizes = append(s.Sizes, len(p))
	return len(p), nil
}

func (s *Sink) failed() bool { return s.Sizes != nil && s.Sizes[len(s.Sizes)-1] == -1 }
func (s *Sink) mark() {
	if !s.failed() {
		s.Sizes = append(s.Sizes, -1)
	}
}

// Len tells how many bytes have been accepted.
func (s *Sink) Len() int { return len(s.Bytes()) }

// Bytes returns a copy of what was accepted.
func (s *Sink) Bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), s.B...)
}

// Flaky is a transport that fails during chosen messages, having accepted some
// of their bytes, and recovers. Messages are told apart by their lengths, so
// that it does not matter in how many pieces they are written.
type Flaky struct {
	*Sink
	mu   sync.Mutex
	plan []planned
	Want []byte  // what is accepted in all
	Errs []error // the failures reported
}

type planned struct {
	left int // bytes accepted until the end or the failure
	err  error
}

func NewFlaky() *Flaky { return &Flaky{Sink: NewSink()} }

// Fails makes a transport whose first write fails.
func Fails() *Flaky {
	return &Flaky{Sink: NewSink(), plan: []planned{{err: ErrCut}}}
}

// Next plans the fate of the next message, whose wire form is enc.
func (f *Flaky) Next(rng *rand.Rand, enc []byte, fail bool) {
	p := planned{left: len(enc)}
	if fail {
		p.err = WriteFault(rng)
		p.left = 0
		if rng.Intn(3) == 0 {
			p.left = rng.Intn(len(enc))
		}
		f.Errs = append(f.Errs, p.err)
	}
	f.Want = append(f.Want, enc[:p.left]...)
	f.plan = append(f.plan, p)
}

func (f *Flaky) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := 0
	for n < len(b) && len(f.plan) > 0 {
		p := &f.plan[0]
		k := min(p.left, len(b)-n)
		f.Sink.Write(b[n : n+k])
		p.left -= k
		n += k
		if p.left == 0 && (p.err == nil || n < len(b)) {
			err := p.err
			f.plan = f.plan[1:]
			if err != nil {
				return n, err
			}
		}
	}
	if n < len(b) {
		f.Sink.Write(b[n:])
	}
	return len(b), nil
}

// Contains tells whether each of the failures was reported, in order.
func Contains(reported, failures []error) bool {
	for _, e := range reported {
		if len(failures) > 0 && errors.Is(e, failures[0]) {
			failures = failures[1:]
		}
	}
	return len(failures) == 0
}

// Encode is the wire form of one message.
func Encode(size int, m Msg) []byte {
	e := NewEnc(size)
	e.All(m)
	return e.B
}

// Pipe is an in-memory transport whose reader blocks on a channel until bytes
// are fed or it is ended.
type Pipe struct {
	ch   chan []byte
	rest []byte
	err  error
	mu   sync.Mutex
	end  chan struct{}
	once sync.Once
	Got  int // bytes handed to the reader
}

func NewPipe(buf int) *Pipe { return &Pipe{ch: make(chan []byte, buf), end: make(chan struct{})} }

func (p *Pipe) Feed(b []byte) {
	select {
	case p.ch <- b:
	case <-p.end:
	}
}

// Cut makes every later read fail with err.
func (p *Pipe) Cut(err error) {
	p.once.Do(func() {
		p.mu.Lock()
		p.err = err
		p.mu.Unlock()
		close(p.end)
	})
}

func (p *Pipe) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		select {
		case x := <-p.ch:
			p.rest = x
			continue
		default:
		}
		select {
		case x := <-p.ch:
			p.rest = x
		case <-p.end:
			p.mu.Lock()
			defer p.mu.Unlock()
			return 0, p.err
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	p.Got += n
	return n, nil
}

// Yield gives other goroutines a chance to run.
func Yield() { runtime.Gosched() }
