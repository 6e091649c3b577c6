package kit

import (
	"io"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
)

// NewReader starts the library's reader over src.
func NewReader(src io.Reader, size int) chunk.Reader {
	rd := chunk.NewReader(src, size, chunk.NewNormalizer())
	go rd.Recv()
	return rd
}

// StopReader closes a reader whatever it is doing, draining it meanwhile.
func StopReader(rd chunk.Reader) {
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-rd.Chunks():
			case <-rd.Errs():
			case <-done:
				return
			}
		}
	}()
	rd.Close()
	close(done)
}

// AtOnce runs f in n goroutines that start together, and waits for them.
func AtOnce(n int, f func()) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// Collect reads messages until the first error, which it returns.
func Collect(src io.Reader, size int) ([]*chunk.Chunk, error) {
	rd := NewReader(src, size)
	defer StopReader(rd)
	var out []*chunk.Chunk
	for {
		select {
		case c := <-rd.Chunks():
			out = append(out, c)
		case err := <-rd.Errs():
			return out, err
		}
	}
}
