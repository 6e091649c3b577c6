package kit

import (
	"io"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/WatchBeam/rtmp/zzverif/zzvy"
)

// What a run may keep of each of two equally long stretches of itself.
const (
	SteadyBytes      = 256 << 10
	SteadyGoroutines = 24
)

func settled(r *R) (heap int64, gs int) {
	r.Quiesce()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), runtime.NumGoroutine()
}

// Steady calls step n times over, after as many calls to warm up, and again n
// times if the program grew meanwhile. It fails if it grew both times. The
// harness itself must not grow with the number of steps.
func (r *R) Steady(what string, n int, step func(k int)) {
	k := 0
	run := func() {
		for end := k + n; k < end; k++ {
			step(k)
			if k%500 == 0 {
				r.beat.Add(1)
			}
		}
	}
	run()
	h0, g0 := settled(r)
	for i := 0; ; i++ {
		run()
		h1, g1 := settled(r)
		if h1-h0 <= SteadyBytes && g1-g0 <= SteadyGoroutines {
			if i == 0 {
				r.Sample("%s: %d steps, %d bytes and %d goroutines more", what, n, h1-h0, g1-g0)
			}
			r.Count("steps_watched", n)
			return
		}
		if i == 1 {
			r.Fail("%s: after %d steps, the next %d made the program grow by %d bytes and %d goroutines, which it keeps", what, k-n, n, h1-h0, g1-g0)
		}
		h0, g0 = h1, g1
	}
}

// Linear watches what the code under test executes, and what the program
// allocates, while what prepare returns for n, and for sixteen times as much,
// is run.
func (r *R) Linear(what string, n int, prepare func(n int) func()) {
	const more = 16
	cost := func(n int) (uint64, uint64) {
		f := prepare(n)
		runtime.GC()
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		s := zzvy.Steps()
		f()
		s = zzvy.Steps() - s
		runtime.ReadMemStats(&b)
		return s, b.TotalAlloc - a.TotalAlloc
	}
	cost(n / 8)
	s1, a1 := cost(n)
	s2, a2 := cost(more * n)
	if s2 > 40*s1+10_000 {
		r.Fail("%s: %d statements for %d of them, %d for %d", what, s1, n, s2, more*n)
	}
	if a2 > 64*a1+1<<20 {
		r.Fail("%s: %d bytes allocated for %d of them, %d for %d", what, a1, n, a2, more*n)
	}
	r.Sample("%s: %d statements and %d bytes for %d, %d and %d for %d", what, s1, a1, n, s2, a2, more*n)
	r.Count("statements_watched", int(s1+s2))
}

// Endless serves what more returns, and counts what was taken. After limit
// bytes (if positive) it blocks until it is cut.
type Endless struct {
	More  func() []byte
	Limit int64
	Taken atomic.Int64
	buf   []byte
	once  sync.Once
	end   chan struct{}
}

func NewEndless(limit int64, more func() []byte) *Endless {
	return &Endless{More: more, Limit: limit, end: make(chan struct{})}
}

func (s *Endless) Cut() { s.once.Do(func() { close(s.end) }) }

func (s *Endless) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	select {
	case <-s.end:
		return 0, io.EOF
	default:
	}
	if s.Limit > 0 && s.Taken.Load() >= s.Limit {
		<-s.end
		return 0, io.EOF
	}
	for len(s.buf) == 0 {
		s.buf = s.More()
	}
	n := copy(p, s.buf)
	s.buf = s.buf[n:]
	s.Taken.Add(int64(n))
	return n, nil
}
