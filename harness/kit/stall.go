package kit

import (
	"io"
	"sync"
	"time"
)

// Stall is how long a stalled party pauses: long enough for what the code
// under test may do after a while, and for most of what it may do after a long
// while in the deep run.
func (r *R) Stall() time.Duration {
	if r.Thorough() {
		return 31 * time.Second
	}
	return 10500 * time.Millisecond
}

// Pause sleeps for d; the case counts as progressing.
func (r *R) Pause(d time.Duration) {
	for d > 0 {
		k := min(d, 200*time.Millisecond)
		time.Sleep(k)
		r.beat.Add(1)
		d -= k
	}
}

// Together runs fs at once and waits for them.
func Together(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

// StallSrc serves B and then End, pausing once before the byte at At.
type StallSrc struct {
	R   *R
	B   []byte
	At  int
	End error
	off int
	did bool
}

func (s *StallSrc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	lim := len(s.B)
	if !s.did && s.At >= 0 {
		if s.off == s.At {
			s.did = true
			s.R.Pause(s.R.Stall())
		} else {
			lim = min(lim, s.At)
		}
	}
	if s.off >= len(s.B) {
		if s.End != nil {
			return 0, s.End
		}
		return 0, io.EOF
	}
	n := copy(p, s.B[s.off:lim])
	s.off += n
	return n, nil
}

// StallSink pauses once, before accepting the byte at offset At. Half of the
// write in progress may have been accepted by then.
type StallSink struct {
	*Sink
	R   *R
	At  int
	did bool
	mu  sync.Mutex
}

func (s *StallSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.did && len(s.Sink.B)+len(p) > s.At {
		s.did = true
		k := max(0, s.At-len(s.Sink.B))
		if _, err := s.Sink.Write(p[:k]); err != nil {
			return 0, err
		}
		s.R.Pause(s.R.Stall())
		n, err := s.Sink.Write(p[k:])
		return n + k, err
	}
	return s.Sink.Write(p)
}
