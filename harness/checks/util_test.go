package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sync"
	"time"

	msdk "github.com/livekit/media-sdk"

	"verif/harness/kit"
)

var (
	errInjected = errors.New("injected error")
	errClose    = errors.New("injected error of close")
)

// rec is a recorded write.
type rec[T any] struct {
	at    time.Time
	data  T // as passed by the caller, not copied
	copy  T
	start int64
}

// sink is a media writer that records writes, and calls an optional hook.
type sink[T ~[]E, E comparable] struct {
	rate   int
	mu     sync.Mutex
	recs   []rec[T]
	closed int
	after  int // writes after close
	hook   func(i int, s T) error

	closeErr error // returned by Close
}

func newSink[T ~[]E, E comparable](rate int) *sink[T, E] { return &sink[T, E]{rate: rate} }

type pcmSink = sink[msdk.PCM16Sample, int16]

func newPCMSink(rate int) *pcmSink { return newSink[msdk.PCM16Sample](rate) }

func (s *sink[T, E]) String() string  { return fmt.Sprintf("Sink(%d)", s.rate) }
func (s *sink[T, E]) SampleRate() int { return s.rate }
func (s *sink[T, E]) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed++
	return s.closeErr
}

func (s *sink[T, E]) WriteSample(v T) error {
	s.mu.Lock()
	i := len(s.recs)
	s.recs = append(s.recs, rec[T]{at: time.Now(), data: v, copy: append(T{}, v...)})
	if s.closed > 0 {
		s.after++
	}
	hook := s.hook
	s.mu.Unlock()
	if hook != nil {
		return hook(i, v)
	}
	return nil
}

// failAt makes some of writes fail (they are recorded anyway), and returns a function that checks an error of the write
// that was the last one: the error of the destination is passed on, and there are no other errors.
func (s *sink[T, E]) failAt(c *kit.C, rnd *rand.Rand, percent int) func(sig string, before int, err error) {
	fails := make(map[int]error)
	s.hook = func(k int, _ T) error {
		if rnd.Intn(100) < percent {
			fails[k] = someError(rnd, "injected")
		}
		return fails[k]
	}
	return func(sig string, before int, err error) {
		var want error
		for k := before; k < s.count(); k++ {
			if fails[k] != nil {
				want = fails[k]
			}
		}
		if want != nil {
			c.Count("failed writes", 1)
		}
		if (err != nil) != (want != nil) || want != nil && !errors.Is(err, want) {
			c.Fail(sig, "write %d returned %v, destination %v", before, err, want)
		}
	}
}

// endAfter returns a context that is cancelled or expires after a time, and its error. It never ends if the time is negative.
func endAfter(rnd *rand.Rand, d time.Duration) (context.Context, context.CancelFunc, error) {
	ctx, cancel := context.WithCancel(context.Background())
	if d < 0 {
		return ctx, cancel, nil
	}
	switch rnd.Intn(3) {
	case 0:
		return expire(ctx, cancel, d)
	case 1:
		ctx2, cancel2 := context.WithCancelCause(ctx)
		time.AfterFunc(d, func() { cancel2(io.EOF) })
		return ctx2, cancel, context.Canceled
	}
	time.AfterFunc(d, cancel)
	return ctx, cancel, context.Canceled
}

func expire(parent context.Context, cancel context.CancelFunc, d time.Duration) (context.Context, context.CancelFunc, error) {
	ctx, cancel2 := context.WithTimeout(parent, d)
	return ctx, func() { cancel2(); cancel() }, context.DeadlineExceeded
}

// closeInto closes a writer whose destination may fail: the destination is closed once, and its error is returned.
func closeInto[T ~[]E, E comparable](c *kit.C, rnd *rand.Rand, sig string, w io.Closer, s *sink[T, E]) {
	if rnd.Intn(2) == 0 {
		s.closeErr = someError(rnd, "injected by close")
	}
	if err := w.Close(); (err != nil) != (s.closeErr != nil) || s.closeErr != nil && !errors.Is(err, s.closeErr) || s.closed != 1 {
		c.Fail(sig, "close returned %v, destination %v; closed %d times", err, s.closeErr, s.closed)
	}
}

func (s *sink[T, E]) snapshot() []rec[T] {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]rec[T]{}, s.recs...)
}

func (s *sink[T, E]) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.recs)
}

// all returns concatenated data.
func (s *sink[T, E]) all() T {
	var out T
	for _, r := range s.snapshot() {
		out = append(out, r.copy...)
	}
	return out
}

func equal[E comparable](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func firstDiff[E comparable](a, b []E) int {
	for i := 0; i < min(len(a), len(b)); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// randPCM generates samples with extremes, runs and noise.
func randPCM(rnd *rand.Rand, n int) msdk.PCM16Sample {
	out := make(msdk.PCM16Sample, n)
	mode := rnd.Intn(5)
	for i := range out {
		switch mode {
		case 0:
			out[i] = []int16{32767, -32768, -32767, 0, 1, -1}[rnd.Intn(6)]
		case 1:
			out[i] = int16(rnd.Intn(65536) - 32768)
		case 2:
			out[i] = int16(rnd.Intn(400) - 200)
		case 3:
			out[i] = int16(i*7 + n)
		case 4:
			out[i] = int16(20000 + rnd.Intn(12768))
			if rnd.Intn(2) == 0 && i > 0 {
				out[i] = -out[i]
			}
		}
	}
	return out
}

// sin of a phase in turns.
func sin(turns float64) float64 { return math.Sin(2 * math.Pi * turns) }
