package checks

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	msdk "github.com/livekit/media-sdk"

	"verif/harness/kit"
)

func init() {
	kit.Register("X02", kit.Check{
		Rule: "Several goroutines write distinct runs of samples to one writer (frames, buffer, resampler and chains of them), and some of them close it in the middle; the output is decoded " +
			"to whole writes in the order of each goroutine, and calls of the destination must not overlap. Distinct: outputs, i.e. interleavings.",
		Floor: 150,
		Run:   checkShared,
	})
}

// sharedSink records data of a destination whose calls must not overlap.
type sharedSink[T ~[]E, E comparable] struct {
	*sink[T, E]
	busy     atomic.Int32
	overlaps atomic.Int32
	calls    atomic.Int32
}

func (s *sharedSink[T, E]) enter() func() {
	if s.busy.Add(1) != 1 {
		s.overlaps.Add(1)
	}
	if s.calls.Add(1)%3 == 0 {
		runtime.Gosched()
	}
	return func() { s.busy.Add(-1) }
}

func (s *sharedSink[T, E]) WriteSample(v T) error {
	defer s.enter()()
	return s.sink.WriteSample(v)
}

func (s *sharedSink[T, E]) Close() error {
	defer s.enter()()
	return s.sink.Close()
}

// floatSample is a frame of floating point samples.
type floatSample []float32

func (s floatSample) Size() int                  { return 4 * len(s) }
func (s floatSample) CopyTo([]byte) (int, error) { return 0, errInjected }

// sharedRun writes distinct runs of samples from several goroutines, and checks that the output consists of whole runs.
type sharedRun[T ~[]E, E float32 | int16] struct {
	c     *kit.C
	kind  string
	sizes [][]int // by a goroutine and a number of write
	value func(g, k int) E
	id    func(v E) (g, k int, ok bool)
}

func newSharedRun[T ~[]E, E float32 | int16](c *kit.C, rnd *rand.Rand, kind string, maxWrites int) *sharedRun[T, E] {
	r := &sharedRun[T, E]{c: c, kind: kind}
	gs := 2 + rnd.Intn(4)
	per := min(1+rnd.Intn(60), maxWrites/gs)
	for g := 0; g < gs; g++ {
		var sizes []int
		for k := 0; k < per; k++ {
			n := rnd.Intn(40)
			if rnd.Intn(10) == 0 {
				n = rnd.Intn(1500)
			}
			sizes = append(sizes, n)
		}
		r.sizes = append(r.sizes, sizes)
	}
	r.value = func(g, k int) E { return E(1 + k*gs + g) }
	r.id = func(v E) (int, int, bool) {
		i := int(v) - 1
		if i < 0 || i >= gs*per {
			return 0, 0, false
		}
		return i % gs, i / gs, true
	}
	return r
}

// write calls the function with all runs, and closes the writer before the last of them if requested.
func (r *sharedRun[T, E]) write(w msdk.WriteCloser[T], closeAt int) {
	var wg sync.WaitGroup
	var left atomic.Int32
	left.Store(int32(closeAt))
	start := make(chan struct{})
	for g, sizes := range r.sizes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k, n := range sizes {
				s := make(T, n)
				for j := range s {
					s[j] = r.value(g, k)
				}
				if err := w.WriteSample(s); err != nil && closeAt < 0 {
					r.c.Fail("error", "%s: %v", r.kind, err)
				}
				// The buffer is reused by its owner.
				for j := range s {
					s[j] = 0
				}
				if left.Add(-1) == 0 {
					if err := w.Close(); err != nil {
						r.c.Fail("close", "%s: %v", r.kind, err)
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
}

// check decodes the output. It's complete, or it's a prefix of some order of writes.
func (r *sharedRun[T, E]) check(out T, complete bool) {
	next := make([]int, len(r.sizes)) // the next write of each goroutine
	skip := func(g int) {
		for next[g] < len(r.sizes[g]) && r.sizes[g][next[g]] == 0 {
			next[g]++
		}
	}
	for i := 0; i < len(out); {
		g, k, ok := r.id(out[i])
		if !ok {
			r.c.Fail("unknown", "%s: sample %d is %v, which was never written", r.kind, i, out[i])
			return
		}
		skip(g)
		if next[g] != k {
			r.c.Fail("order", "%s: sample %d is from write %d of goroutine %d, expected %d", r.kind, i, k, g, next[g])
			return
		}
		n := r.sizes[g][k]
		for j := 0; j < n && i+j < len(out); j++ {
			if out[i+j] != out[i] {
				r.c.Fail("torn", "%s: write %d of goroutine %d has %d samples, but just %d are together", r.kind, k, g, n, j)
				return
			}
		}
		if i+n > len(out) && complete {
			r.c.Fail("cut", "%s: write %d of goroutine %d is cut", r.kind, k, g)
			return
		}
		next[g] = k + 1
		i += n
	}
	if !complete {
		return
	}
	for g := range r.sizes {
		if skip(g); next[g] != len(r.sizes[g]) {
			r.c.Fail("lost", "%s: writes of goroutine %d from %d are lost", r.kind, g, next[g])
		}
	}
}

func (r *sharedRun[T, E]) writes() (n int) {
	for _, s := range r.sizes {
		n += len(s)
	}
	return
}

// sharedFrames shares a writer that re-frames samples.
func sharedFrames[T ~[]E, E float32 | int16](c *kit.C, rnd *rand.Rand, i int, kind string, maxWrites int, newWriter func(w msdk.WriteCloser[T], frame int) msdk.WriteCloser[T]) {
	r := newSharedRun[T, E](c, rnd, kind, maxWrites)
	frame := []int{1, 7, 160, 1000}[rnd.Intn(4)]
	closeAt := -1
	if rnd.Intn(3) == 0 {
		closeAt = 1 + rnd.Intn(r.writes())
	}
	c.Eval("%s %d: frame %d, %d goroutines, %d writes, close at %d", kind, i, frame, len(r.sizes), r.writes(), closeAt)
	snk := &sharedSink[T, E]{sink: newSink[T](8000)}
	w := newWriter(snk, frame)
	r.write(w, closeAt)
	if closeAt < 0 {
		if err := w.Close(); err != nil {
			c.Fail("close", "%v", err)
		}
	}
	if n := snk.overlaps.Load(); n != 0 {
		c.Fail("overlap", "%s: %d calls of the destination overlap", kind, n)
	}
	if snk.closed != 1 {
		c.Fail("closed", "%s: destination is closed %d times", kind, snk.closed)
	}
	short := 0
	var out T
	for _, f := range snk.recs {
		if len(f.copy) != frame {
			short++
		}
		out = append(out, f.copy...)
	}
	if short > 1 {
		c.Fail("frame", "%s: %d frames have a size other than %d", kind, short, frame)
	}
	r.check(out, closeAt < 0)
	c.Count(kind+" writes", r.writes())
	c.Distinct(kind, frame, fmt.Sprint(out[:min(len(out), 500)]))
}

func checkShared(c *kit.C) {
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("shared", i)
		switch i % 4 {
		case 0:
			sharedFrames[msdk.PCM16Sample, int16](c, rnd, i, "frames", 30000, func(w msdk.PCM16Writer, n int) msdk.PCM16Writer { return msdk.FullFrames(w, n) })
		case 1:
			sharedFrames[floatSample, float32](c, rnd, i, "float frames", 30000, func(w msdk.WriteCloser[floatSample], n int) msdk.WriteCloser[floatSample] {
				return msdk.FullFrames(w, n)
			})
		case 2:
			r := newSharedRun[msdk.PCM16Sample, int16](c, rnd, "buffer", 30000)
			closeAt := -1
			if rnd.Intn(3) == 0 {
				closeAt = 1 + rnd.Intn(r.writes())
			}
			c.Eval("buffer %d: %d goroutines, %d writes, close at %d", i, len(r.sizes), r.writes(), closeAt)
			var out msdk.PCM16Sample
			w := msdk.NewPCM16BufferWriter(&out, 8000)
			r.write(w, closeAt)
			if err := w.Close(); err != nil {
				c.Fail("close", "%v", err)
			}
			r.check(out, closeAt < 0)
			c.Count("buffer writes", r.writes())
			c.Distinct("buffer", fmt.Sprint(out[:min(len(out), 500)]))
		case 3:
			sharedResample(c, rnd, i)
		}
	}
}

// sharedResample shares a chain with a resampler.
func sharedResample(c *kit.C, rnd *rand.Rand, i int) {
	src, dst := opusRates[rnd.Intn(len(opusRates))], opusRates[rnd.Intn(len(opusRates))]
	gs := 2 + rnd.Intn(4)
	frame := rnd.Intn(3) * 160
	closeAt := -1
	if rnd.Intn(3) == 0 {
		closeAt = 1 + rnd.Intn(gs*40)
	}
	c.Eval("resampler %d: %d -> %d, %d goroutines, frame %d, close at %d", i, src, dst, gs, frame, closeAt)
	snk := &sharedSink[msdk.PCM16Sample, int16]{sink: newPCMSink(dst)}
	var w msdk.PCM16Writer = snk
	if frame > 0 {
		w = msdk.FullFrames(w, frame)
	} else if src == dst {
		return // writes directly to the destination
	}
	w = msdk.ResampleWriter(w, src)
	level := int16(1000 + rnd.Intn(20000))
	var total, left atomic.Int64
	left.Store(int64(closeAt))
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		r := c.Rand("resampler", i, g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 40; k++ {
				s := make(msdk.PCM16Sample, 1+r.Intn(src/50))
				for j := range s {
					s[j] = level
				}
				if err := w.WriteSample(s); err != nil && closeAt < 0 {
					c.Fail("error", "resampler: %v", err)
				}
				total.Add(int64(len(s)))
				clear(s)
				if left.Add(-1) == 0 {
					if err := w.Close(); err != nil {
						c.Fail("close", "resampler: %v", err)
					}
				}
			}
		}()
	}
	wg.Wait()
	if closeAt < 0 {
		if err := w.Close(); err != nil {
			c.Fail("close", "resampler: %v", err)
		}
	}
	if n := snk.overlaps.Load(); n != 0 {
		c.Fail("overlap", "resampler: %d calls of the destination overlap", n)
	}
	if snk.closed != 1 {
		c.Fail("closed", "resampler: destination is closed %d times", snk.closed)
	}
	out := snk.all()
	want := float64(total.Load()) * float64(dst) / float64(src)
	if d := float64(len(out)) - want; d > 2 || (d < -2 && closeAt < 0) {
		c.Fail("duration", "%d samples resampled from %d to %d by %d goroutines: %d samples, expected %.1f", total.Load(), src, dst, gs, len(out), want)
	}
	// A constant level stays the same far from the ends.
	margin := max(len(out)/4, 100*(1+dst/src)) // the response of the filter
	for k := margin; k < len(out)-margin; k++ {
		if d := int(out[k]) - int(level); d > 30 || d < -30 {
			c.Fail("level", "sample %d from %d to %d is %d, all of the input is %d", k, src, dst, out[k], level)
			break
		}
	}
	c.Count("resampled", len(out))
	c.Distinct("resampler", src, dst, len(out))
}
