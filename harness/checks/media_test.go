package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	pmedia "github.com/pion/webrtc/v4/pkg/media"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/tones"

	"verif/harness/kit"
)

func init() {
	kit.Register("F01", kit.Check{
		Rule: "Random frame sizes, write sizes and downstream failures for 16-bit and 8-bit samples; frames are compared with a reference splitter. " +
			"Distinct: (frame size, sequence of write sizes, failures).",
		Floor: 200,
		Run:   checkFullFrames,
	})
	kit.Register("F02", kit.Check{
		Rule: "Random chunk and buffer sizes, delays and closes of either side, in virtual time (a blocked side is a deadlock of the bubble), and several " +
			"concurrent writers and readers under the race detector; all elements are unique. Distinct: histories of returned sizes and errors.",
		Floor: 200,
		Run:   checkPipe,
	})
	kit.Register("F03", kit.Check{
		Rule: "Random sequences of operations against a model, and concurrent histories of swaps, writes and closes under the race detector, decided by a " +
			"linearizability checker over a register. Distinct: histories.",
		Floor: 100,
		Run:   checkSwitch,
	})
	kit.Register("F04", kit.Check{
		Rule: "Random streams of frames through fan-out, file, dump, frame, buffer and media sample writers with injected errors of downstream writers and files; " +
			"what came out is compared with what was written. Distinct: (kind, sizes, injected errors).",
		Floor: 200,
		Run:   checkWriters,
	})
	kit.Register("F05", kit.Check{
		Rule: "All mono values, and all left values with a set of right values (all pairs in the thorough tier); random lengths, oversized and overlapping " +
			"buffers. Distinct: (left, right) blocks and buffer shapes.",
		Floor: 200,
		Run:   checkStereo,
	})
	kit.Register("F07", kit.Check{
		Rule: "Playback of random frames and tones in virtual time with slow and failing writers and cancellation at random times; times, order and number of " +
			"writes are compared with the schedule. Distinct: (frame duration, count, outcome).",
		Floor: 100,
		Run:   checkPlay,
	})
}

type byteSample []byte

type int8Sample []int8

func (s byteSample) Size() int { return len(s) }
func (s byteSample) CopyTo(dst []byte) (int, error) {
	if len(dst) < len(s) {
		return 0, io.ErrShortBuffer
	}
	return copy(dst, s), nil
}

func checkFullFrames(c *kit.C) {
	for _, size := range []int{0, -1, -160} {
		c.Eval("size %d", size)
		if kit.Panics(func() { msdk.FullFrames[msdk.PCM16Sample](newPCMSink(8000), size) }) == nil {
			c.Fail("size", "frames of %d samples are accepted", size)
		}
	}
	for i := 0; i < c.N(1500, 30000); i++ {
		rnd := c.Rand("frames", i)
		c.Eval("frames %d", i)
		if i%2 == 0 {
			runFullFrames[msdk.PCM16Sample](c, rnd, func(n int) int16 { return int16(n) })
		} else {
			runFullFrames[int8Sample](c, rnd, func(n int) int8 { return int8(n) })
		}
	}
}

func runFullFrames[T ~[]S, S int16 | int8](c *kit.C, rnd *rand.Rand, val func(n int) S) {
	errInjected := someError(rnd, "injected")
	size := 1 + rnd.Intn(40)
	if rnd.Intn(5) == 0 {
		size = []int{80, 160, 320, 480, 960}[rnd.Intn(5)]
	}
	errRate := []int{0, 0, 5, 30}[rnd.Intn(4)]
	rate := someRate(rnd)
	out := newSink[T](rate)
	failOn := make(map[int]bool)
	for k := 0; k < 4000; k++ {
		failOn[k] = rnd.Intn(100) < errRate
	}
	out.hook = func(k int, s T) error {
		if failOn[k] {
			return errInjected
		}
		return nil
	}
	w := msdk.FullFrames[T, S](out, size)
	if w.SampleRate() != rate {
		c.Fail("rate", "rate is %d, expected %d", w.SampleRate(), rate)
	}
	var (
		buf    T
		exp    []T
		n      int
		shapes []int
	)
	// An error is reported, and it doesn't hold back the frames that follow it.
	flush := func(force bool) (err error) {
		for len(buf) >= size {
			exp = append(exp, append(T{}, buf[:size]...))
			buf = buf[size:]
			if failOn[len(exp)-1] {
				err = errInjected
			}
		}
		if force && len(buf) > 0 {
			exp = append(exp, append(T{}, buf...))
			buf = nil
			if failOn[len(exp)-1] {
				err = errInjected
			}
		}
		return err
	}
	desc := func() string { return fmt.Sprintf("frame=%d errors=%d%% writes=%v", size, errRate, shapes) }
	compare := func() {
		got := out.snapshot()
		for k := 0; k < max(len(got), len(exp)); k++ {
			if k >= len(got) || k >= len(exp) {
				c.Fail("count", "%s: %d frames, expected %d", desc(), len(got), len(exp))
				return
			}
			if !equal(got[k].copy, exp[k]) {
				c.Fail("frame", "%s: frame %d has %d samples %v, expected %v", desc(), k, len(got[k].copy), got[k].copy, exp[k])
				return
			}
		}
	}
	for k := 0; k < 30; k++ {
		l := rnd.Intn(3*size + 1)
		switch rnd.Intn(6) {
		case 0:
			l = size
		case 1:
			l = rnd.Intn(size + 1)
		case 2:
			l = (size*(1+rnd.Intn(3)) + len(buf)) % (4 * size)
		}
		in := make(T, l)
		for j := range in {
			in[j] = val(n)
			n++
		}
		shapes = append(shapes, l)
		buf = append(buf, in...)
		e := flush(false)
		err := w.WriteSample(in)
		if (e == nil) != (err == nil) || e != nil && !errors.Is(err, e) {
			c.Fail("error", "%s: write returned %v, expected %v", desc(), err, e)
		}
		for j := range in {
			in[j] = 0x55
		}
		compare()
	}
	e := flush(true)
	out.closeErr = []error{nil, errClose}[rnd.Intn(2)]
	err := w.Close()
	if want := errors.Join(e, out.closeErr); (want == nil) != (err == nil) || e != nil && !errors.Is(err, e) || out.closeErr != nil && !errors.Is(err, errClose) {
		c.Fail("close-error", "%s: close returned %v, expected %v", desc(), err, want)
	}
	compare()
	if out.closed != 1 {
		c.Fail("close", "%s: closed %d times", desc(), out.closed)
	}
	if e == nil && rnd.Intn(4) == 0 {
		_ = w.Close() // has nothing to write
	}
	if out.after != 0 {
		c.Fail("after-close", "%s: %d writes after close", desc(), out.after)
	}
	if errRate == 0 && len(out.all()) != n {
		c.Fail("conservation", "%s: %d samples written, %d received", desc(), n, len(out.all()))
	}
	c.Count("frames", len(exp))
	c.Count("samples", n)
	c.Distinct(size, errRate, shapes)
	c.Sample(fmt.Sprint("errors", errRate > 0), "%s -> %d frames", desc(), len(exp))
}

func checkPipe(c *kit.C) {
	for i := 0; i < c.N(1200, 20000); i++ {
		rnd := c.Rand("pipe", i)
		c.Eval("pipe %d", i)
		c.Bubble("pipe", func() { runPipe(c, rnd, i) })
	}
	for i := 0; i < c.N(60, 1000); i++ {
		c.Eval("concurrent pipe %d", i)
		c.Within("pipe-concurrent", 60*time.Second, func() { runPipeConcurrent(c, i) })
	}
	for i := 0; i < c.N(8, 100); i++ {
		c.Eval("close at the hand-over %d", i)
		c.Within("pipe-close-race", 60*time.Second, func() { runPipeCloseRace(c, i) })
	}
	for i := 0; i < c.N(60, 1000); i++ {
		c.Eval("close with a crowd %d", i)
		c.Within("pipe-crowd", 60*time.Second, func() { runPipeCrowd(c, i) })
	}
}

// runPipeCrowd closes one side with an error, while many are blocked on the other one: all of them get the same error,
// even if several goroutines close it at once.
func runPipeCrowd(c *kit.C, id int) {
	rnd := c.Rand("pcrowd", id)
	r, w := msdk.Pipe[[]uint32, uint32](8000)
	n, readers, closers := 50+rnd.Intn(300), id%3 != 0, 1+id%2
	closeErrs := []error{errors.New("first"), errors.New("second")}
	errs := make([]error, n)
	var ready, wg, cwg sync.WaitGroup
	for k := 0; k < n; k++ {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			if readers {
				_, errs[k] = r.ReadSample(make([]uint32, 1))
			} else {
				errs[k] = w.WriteSample([]uint32{1})
			}
		}()
	}
	ready.Wait()
	time.Sleep(time.Duration(rnd.Intn(1000)) * time.Microsecond)
	for k := 0; k < closers; k++ {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			if readers {
				_ = w.CloseWithError(closeErrs[k])
			} else {
				_ = r.CloseWithError(closeErrs[k])
			}
		}()
	}
	wg.Wait()
	cwg.Wait()
	exp := errs[0]
	for _, err := range errs {
		if err != exp || !slices.Contains(closeErrs[:closers], err) {
			c.Fail("crowd-error", "%d blocked on a pipe (readers %v), closed by %d: got %v and %v", n, readers, closers, exp, err)
			break
		}
	}
	c.Count("crowd_unblocked", n)
	c.Distinct("crowd", n, readers, closers, fmt.Sprint(exp))
}

// runPipeCloseRace closes either side at the very moment when elements are handed over. None of the sides may get stuck,
// and they have to agree on which elements were passed.
func runPipeCloseRace(c *kit.C, id int) {
	rnd := c.Rand("pcr", id)
	spin := func(n int) {
		for j := 0; j < n; j++ {
			runtime.Gosched()
		}
	}
	outcomes := make(map[string]int)
	for k := 0; k < 5000; k++ {
		r, w := msdk.Pipe[[]uint32, uint32](8000)
		n := rnd.Intn(4)
		bufSize := 1 + rnd.Intn(4)
		wSpin, cSpin, rSpin, side := rnd.Intn(4), rnd.Intn(8), rnd.Intn(4), rnd.Intn(2)
		in := make([]uint32, n)
		for j := range in {
			in[j] = uint32(j + 1)
		}
		var werr error
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			spin(wSpin)
			werr = w.WriteSample(in)
		}()
		go func() {
			defer wg.Done()
			spin(cSpin)
			if side == 0 {
				_ = r.Close()
			} else {
				_ = w.Close()
			}
		}()
		spin(rSpin)
		var got []uint32
		for {
			buf := make([]uint32, bufSize)
			m, err := r.ReadSample(buf)
			got = append(got, buf[:m]...)
			if err != nil {
				break
			}
		}
		wg.Wait()
		for j, v := range got {
			if v != uint32(j+1) {
				c.Fail("close-race-data", "%d elements written, got %v", n, got)
			}
		}
		if werr == nil && len(got) != n {
			c.Fail("close-race-lost", "write of %d elements returned without an error, but %d were read", n, len(got))
		} else if werr != nil && n > 0 && len(got) == n {
			c.Fail("close-race-error", "write of %d elements returned %v, but all of them were read", n, werr)
		}
		outcomes[fmt.Sprintf("side=%d n=%d read=%d", side, n, len(got))]++
	}
	c.Count("close_races", 5000)
	c.Distinct("close-race", fmt.Sprint(outcomes))
}

func runPipe(c *kit.C, rnd *rand.Rand, id int) {
	rate := someRate(rnd)
	r, w := msdk.Pipe[msdk.PCM16Sample, int16](rate)
	if w.SampleRate() != rate {
		c.Fail("rate", "rate %d, expected %d", w.SampleRate(), rate)
	}
	var errR, errW error
	var expR, expW error // what sides get after close
	closer := rnd.Intn(3)
	if rnd.Intn(2) == 0 {
		errR = []error{errors.New("reader error"), io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}[rnd.Intn(4)]
	}
	if rnd.Intn(2) == 0 {
		errW = []error{errors.New("writer error"), io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}[rnd.Intn(4)]
	}
	maxChunk := 1 + rnd.Intn(30)
	if rnd.Intn(6) == 0 {
		maxChunk = 100 + rnd.Intn(6000)
	}
	chunks := 5 + rnd.Intn(20)
	if id%50 == 3 {
		maxChunk = []int{5000, 33000, 66000, 140000}[rnd.Intn(4)]
	}
	closeAt := time.Duration(rnd.Intn(chunks*2000))*time.Microsecond + 333*time.Nanosecond
	var (
		mu       sync.Mutex
		got      []int16
		complete int // elements in completed writes
		started  int // elements in started writes
		werr     error
		rerr     error
		hist     []string
	)
	note := func(format string, args ...any) {
		mu.Lock()
		hist = append(hist, fmt.Sprintf(format, args...))
		mu.Unlock()
	}
	var closed atomic.Bool
	doClose := func(side int) {
		switch side {
		case 0: // writer first
			if errW == nil && rnd.Intn(2) == 0 {
				_ = w.Close()
			} else {
				_ = w.CloseWithError(errW)
			}
			expR, expW = errW, io.ErrClosedPipe
			if errW == nil {
				expR = io.EOF
			}
		case 1:
			if errR == nil && rnd.Intn(2) == 0 {
				_ = r.Close()
			} else {
				_ = r.CloseWithError(errR)
			}
			expR, expW = io.ErrClosedPipe, errR
			if errR == nil {
				expW = io.ErrClosedPipe
			}
		case 2: // repeated close does not change the error
			_ = w.CloseWithError(errW)
			_ = w.CloseWithError(errors.New("another error"))
			_ = w.Close()
			expR, expW = errW, io.ErrClosedPipe
			if errW == nil {
				expR = io.EOF
			}
		}
		closed.Store(true)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	wrnd, rrnd := rand.New(rand.NewSource(rnd.Int63())), rand.New(rand.NewSource(rnd.Int63()))
	finishWriter := rnd.Intn(2) == 0
	go func() {
		defer wg.Done()
		n := 0
		for k := 0; k < chunks; k++ {
			time.Sleep(time.Duration(wrnd.Intn(3)) * time.Millisecond)
			chunk := make(msdk.PCM16Sample, wrnd.Intn(maxChunk+1))
			for j := range chunk {
				chunk[j] = int16(n + 1)
				n++
			}
			mu.Lock()
			started = n
			mu.Unlock()
			wasClosed := closed.Load()
			err := w.WriteSample(chunk)
			note("w%d=%v", len(chunk), err)
			if err != nil {
				werr = err
				break
			}
			if wasClosed {
				c.Fail("write-after-close", "write succeeds after close")
			}
			for j := range chunk {
				if chunk[j] != int16(n-len(chunk)+j+1) {
					c.Fail("write-modified", "written buffer is modified")
				}
				chunk[j] = -1
			}
			synctest.Wait() // reader already has the data, but it may not have recorded it yet
			mu.Lock()
			complete = n
			if len(got) != n {
				c.Fail("write-returned-early", "write returned with %d elements read of %d", len(got), n)
			}
			mu.Unlock()
		}
		if finishWriter && werr == nil && !closed.Load() {
			note("writer closes")
			doClose(0)
		}
	}()
	go func() {
		defer wg.Done()
		for {
			time.Sleep(time.Duration(rrnd.Intn(3)) * time.Millisecond)
			buf := make(msdk.PCM16Sample, rrnd.Intn(maxChunk+3))
			for j := range buf {
				buf[j] = -3
			}
			wasClosed := closed.Load()
			n, err := r.ReadSample(buf)
			note("r%d=%d,%v", len(buf), n, err)
			if err != nil {
				if n != 0 {
					c.Fail("read-error-data", "read returned %d and %v", n, err)
				}
				rerr = err
				return
			}
			if wasClosed {
				c.Fail("read-after-close", "read succeeds after close")
			}
			if n > len(buf) {
				c.Fail("read-size", "read %d elements to a buffer of %d", n, len(buf))
				return
			}
			mu.Lock()
			got = append(got, buf[:n]...)
			mu.Unlock()
			for _, v := range buf[n:] {
				if v != -3 {
					c.Fail("read-beyond", "read modified the buffer after returned size")
				}
			}
		}
	}()
	time.Sleep(closeAt)
	if !closed.Load() {
		note("close %d", closer)
		doClose(closer)
	} else {
		_ = w.CloseWithError(errors.New("late error"))
	}
	wg.Wait()
	for k, v := range got {
		if v != int16(k+1) {
			c.Fail("data", "element %d is %d; history %v", k, v, hist)
			break
		}
	}
	if len(got) < complete || len(got) > started {
		c.Fail("count", "%d elements read; writes completed %d, started %d; history %v", len(got), complete, started, hist)
	}
	if rerr != expR {
		c.Fail("read-error", "reader got %v, expected %v; history %v", rerr, expR, hist)
	}
	if werr != nil && werr != expW {
		c.Fail("write-error", "writer got %v, expected %v; history %v", werr, expW, hist)
	}
	if err := w.WriteSample(msdk.PCM16Sample{1}); err != expW {
		c.Fail("late-write-error", "write after close returns %v, expected %v", err, expW)
	}
	if _, err := r.ReadSample(make(msdk.PCM16Sample, 1)); err != expR {
		c.Fail("late-read-error", "read after close returns %v, expected %v", err, expR)
	}
	// Neither side gets the error of the other one after closing itself.
	if _, err := r.CloseWithError(errors.New("second error")), w.CloseWithError(errors.New("third error")); err != nil {
		c.Fail("close", "%v", err)
	}
	if err := w.WriteSample(msdk.PCM16Sample{1}); err != io.ErrClosedPipe {
		c.Fail("own-close-error", "write after both sides are closed returns %v", err)
	}
	if n, err := r.ReadSample(make(msdk.PCM16Sample, 1)); n != 0 || err != io.ErrClosedPipe {
		c.Fail("own-close-error", "read after both sides are closed returns %d %v", n, err)
	}
	c.Count("elements", len(got))
	c.Distinct(hist)
	if werr != nil {
		c.Count("writes_interrupted", 1)
	}
	if id < 3 {
		c.Sample(fmt.Sprint("history", id), "%v", hist)
	}
}

func runPipeConcurrent(c *kit.C, id int) {
	r, w := msdk.Pipe[[]uint32, uint32](8000)
	const writers = 4
	readers := 3
	if id%2 == 0 {
		readers = 1 // so that the order of all elements is known
	}
	var mu sync.Mutex
	var ends [writers]map[int]bool // the last elements of writes
	perReader := make([][][]uint32, readers)
	var rg, wg sync.WaitGroup
	completed := make([]int, writers)
	for g := 0; g < writers; g++ {
		wg.Add(1)
		ends[g] = make(map[int]bool)
		rnd := c.Rand("pw", id, g)
		go func() {
			defer wg.Done()
			n := 0
			for k := 0; k < 60; k++ {
				chunk := make([]uint32, rnd.Intn(12))
				for j := range chunk {
					chunk[j] = uint32(g)<<24 | uint32(n)
					n++
				}
				ends[g][n-1] = true
				if err := w.WriteSample(chunk); err != nil {
					c.Fail("conc-write", "write failed: %v", err)
					return
				}
				for j := range chunk {
					chunk[j] = 0xffffffff
				}
				completed[g] = n
			}
		}()
	}
	for g := 0; g < readers; g++ {
		rg.Add(1)
		rnd := c.Rand("pr", id, g)
		go func() {
			defer rg.Done()
			for {
				buf := make([]uint32, 1+rnd.Intn(9))
				n, err := r.ReadSample(buf)
				if err != nil {
					if err != io.EOF {
						c.Fail("conc-read", "read failed: %v", err)
					}
					return
				}
				mu.Lock()
				perReader[g] = append(perReader[g], append([]uint32{}, buf[:n]...))
				mu.Unlock()
				if rnd.Intn(10) == 0 {
					time.Sleep(time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	_ = w.Close()
	rg.Wait()
	seen := make(map[uint32]int)
	for g, reads := range perReader {
		lastOf := map[uint32]int64{}
		for _, buf := range reads {
			for j, v := range buf {
				seen[v]++
				wr, n := v>>24, int64(v&0xffffff)
				if last, ok := lastOf[wr]; ok && n <= last {
					c.Fail("conc-order", "reader %d got %d after %d of writer %d", g, n, last, wr)
				}
				lastOf[wr] = n
				if j > 0 && v != buf[j-1]+1 {
					c.Fail("conc-mixed", "read returned elements of different writes out of order: %x after %x", v, buf[j-1])
				}
			}
		}
	}
	if readers == 1 {
		prev := int64(-1)
		for _, buf := range perReader[0] {
			for _, v := range buf {
				if prev >= 0 && uint32(prev)>>24 != v>>24 {
					c.Count("switches between writers", 1)
					if !ends[prev>>24][int(prev&0xffffff)] {
						c.Fail("conc-interleaved", "element %x of another write is read after %x, which isn't the end of one", v, prev)
					}
				}
				prev = int64(v)
			}
		}
	}
	total := 0
	for g := 0; g < writers; g++ {
		total += completed[g]
		for n := 0; n < completed[g]; n++ {
			if k := seen[uint32(g)<<24|uint32(n)]; k != 1 {
				c.Fail("conc-once", "element %d of writer %d was read %d times", n, g, k)
			}
		}
	}
	if len(seen) != total {
		c.Fail("conc-total", "%d distinct elements read, %d written", len(seen), total)
	}
	c.Count("concurrent_elements", total)
	c.Distinct("conc", perReader)
}

// swIn is an operation on a switch.
type swIn struct {
	kind string // swap, write, close, get
	id   int    // new writer or value
}

// idSink is a writer that remembers values it received.
type idSink struct {
	id     int
	rate   int
	on     func(id int, v msdk.PCM16Sample)
	closed atomic.Int32
	err    error
}

func (s *idSink) String() string  { return fmt.Sprintf("ID(%d)", s.id) }
func (s *idSink) SampleRate() int { return s.rate }
func (s *idSink) Close() error    { s.closed.Add(1); return s.err }
func (s *idSink) WriteSample(v msdk.PCM16Sample) error {
	s.on(s.id, v)
	return s.err
}

func checkSwitch(c *kit.C) {
	c.Eval("arguments")
	if kit.Panics(func() { msdk.NewSwitchWriter(0) }) == nil {
		c.Fail("zero-rate", "switch with a zero rate is created")
	}
	for _, bad := range []int{0, -1, -8000} {
		if kit.Panics(func() { msdk.NewSwitchWriter(-1).SetSampleRate(bad) }) == nil {
			c.Fail("bad-rate", "rate %d is accepted", bad)
		}
	}
	if kit.Panics(func() { msdk.NewSwitchWriter(-5).SampleRate() }) == nil {
		c.Fail("unset-rate", "rate of an uninitialized switch is returned")
	}
	if kit.Panics(func() { msdk.NewSwitchWriter(-1).Swap(&idSink{rate: 8000}) }) == nil {
		c.Fail("unset-attach", "writer is attached with unset sample rate")
	}
	if kit.Panics(func() { s := msdk.NewSwitchWriter(-1); s.SetSampleRate(8000); s.SetSampleRate(16000) }) == nil {
		c.Fail("set-twice", "rate is set twice")
	}
	if kit.Panics(func() { s := msdk.NewSwitchWriter(8000); s.SetSampleRate(8000) }) == nil {
		c.Fail("set-fixed", "fixed rate is changed")
	}
	// The rate is set by one of concurrent calls.
	for i := 0; i < c.N(2000, 50000); i++ {
		c.Eval("rate %d", i)
		s := msdk.NewSwitchWriter(-1)
		var wg sync.WaitGroup
		var set, rate atomic.Int32
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if kit.Panics(func() { s.SetSampleRate(8000 * (g + 1)) }) == nil {
					set.Add(1)
					rate.Store(int32(8000 * (g + 1)))
				}
			}()
		}
		close(start)
		wg.Wait()
		if set.Load() != 1 || s.SampleRate() != int(rate.Load()) {
			c.Fail("rate-race", "%d concurrent calls set the rate, which is %d", set.Load(), s.SampleRate())
			break
		}
	}
	for i := 0; i < c.N(800, 10000); i++ {
		rnd := c.Rand("seq", i)
		c.Eval("sequence %d", i)
		c.Try("switch", func() { runSwitchSeq(c, rnd) })
	}
	for i := 0; i < c.N(250, 4000); i++ {
		c.Eval("history %d", i)
		c.Within("switch-concurrent", 60*time.Second, func() { runSwitchConcurrent(c, i) })
	}
	for i := 0; i < c.N(3, 10); i++ {
		c.Eval("switch stress %d", i)
		c.Within("switch-stress", 120*time.Second, func() { runSwitchStress(c, i) })
	}
}

func runSwitchSeq(c *kit.C, rnd *rand.Rand) {
	errInjected := someError(rnd, "injected")
	rates := []int{8000, 16000, 48000}
	rate := rates[rnd.Intn(3)]
	var s *msdk.SwitchWriter
	if rnd.Intn(2) == 0 {
		s = msdk.NewSwitchWriter(rate)
	} else {
		s = msdk.NewSwitchWriter(-1 - rnd.Intn(3))
		if err := s.WriteSample(msdk.PCM16Sample{1}); err != nil {
			c.Fail("write-unset", "write to an empty switch fails: %v", err)
		}
		s.SetSampleRate(rate)
	}
	if s.SampleRate() != rate {
		c.Fail("rate", "rate %d, expected %d", s.SampleRate(), rate)
	}
	var (
		cur      msdk.PCM16Writer // as returned by the switch
		curSink  *idSink
		disabled bool
		got      = map[int]int{}
		last     msdk.PCM16Sample
		hist     []string
		sinks    []*idSink
	)
	newSink := func(r int) *idSink {
		k := &idSink{id: len(sinks) + 1, rate: r, on: func(id int, v msdk.PCM16Sample) {
			got[id] += len(v)
			last = append(msdk.PCM16Sample{}, v...)
		}}
		sinks = append(sinks, k)
		return k
	}
	for k := 0; k < 40; k++ {
		op := rnd.Intn(8)
		switch op {
		case 0, 1:
			r := rate
			if rnd.Intn(4) == 0 {
				r = rates[rnd.Intn(3)]
			}
			n := newSink(r)
			if rnd.Intn(5) == 0 {
				n.err = errInjected
			}
			hist = append(hist, fmt.Sprintf("swap(%d@%d)", n.id, r))
			old := s.Swap(n)
			if old != cur {
				c.Fail("swap", "%v: swap returned %v, expected %v", hist, old, cur)
			}
			curSink = n
			cur = s.Get()
			if r == rate && cur != msdk.PCM16Writer(n) {
				c.Fail("get", "%v: %v is attached instead of %v", hist, cur, n)
			}
			if cur == nil || cur.SampleRate() != rate {
				c.Fail("attached-rate", "%v: attached writer expects a different rate", hist)
			}
		case 2:
			hist = append(hist, "swap(nil)")
			if old := s.Swap(nil); old != cur {
				c.Fail("swap", "%v: swap returned %v, expected %v", hist, old, cur)
			}
			cur, curSink = nil, nil
		case 3:
			hist = append(hist, "close")
			var before int32
			if curSink != nil {
				before = curSink.closed.Load()
			}
			err := s.Close()
			if curSink != nil {
				if curSink.closed.Load() != before+1 {
					c.Fail("close", "%v: current writer is not closed", hist)
				}
				if curSink.rate == rate && err != curSink.err {
					c.Fail("close-error", "%v: close returned %v", hist, err)
				}
			} else if err != nil {
				c.Fail("close-error", "%v: close of an empty switch returned %v", hist, err)
			}
			cur, curSink = nil, nil
		case 4:
			disabled = rnd.Intn(2) == 0
			hist = append(hist, fmt.Sprintf("disabled=%v", disabled))
			if disabled {
				s.Disable()
			} else {
				s.Enable()
			}
		default:
			in := randPCM(rnd, rate/50)
			hist = append(hist, "write")
			before := map[int]int{}
			for id, n := range got {
				before[id] = n
			}
			err := s.WriteSample(append(msdk.PCM16Sample{}, in...))
			for _, sk := range sinks {
				d := got[sk.id] - before[sk.id]
				exp := 0
				if sk == curSink && !disabled {
					exp = len(in)
					if sk.rate != rate {
						continue // resampled, may be delayed
					}
				}
				if d != exp {
					c.Fail("write", "%v: writer %d received %d samples, expected %d", hist, sk.id, d, exp)
				} else if d > 0 && !equal(last, in) {
					c.Fail("write-data", "%v: data differs", hist)
				}
			}
			var expErr error
			if curSink != nil && !disabled {
				expErr = curSink.err
				if curSink.rate != rate {
					expErr = err
				}
			}
			if err != expErr {
				c.Fail("write-error", "%v: write returned %v, expected %v", hist, err, expErr)
			}
			c.Count("writes", 1)
		}
		if g := s.Get(); g != cur {
			c.Fail("get", "%v: get returned %v, expected %v", hist, g, cur)
		}
		_ = s.String()
	}
	c.Distinct(hist)
	c.Sample("sequence", "rate=%d %v", rate, hist)
	if cur != nil {
		_ = s.Close()
	}
}

// runSwitchStress attaches and detaches two writers in a loop while others write.
func runSwitchStress(c *kit.C, id int) {
	const writers = 3
	n := c.N(20000, 200000)
	s := msdk.NewSwitchWriter(8000)
	var (
		counts [writers][]atomic.Int32
		wg, sw sync.WaitGroup
		done   atomic.Bool
		errs   atomic.Int32
		toNone atomic.Int32
	)
	for g := range counts {
		counts[g] = make([]atomic.Int32, n)
	}
	var sinks []*idSink
	for k := range 2 {
		sinks = append(sinks, &idSink{id: k + 1, rate: 8000, on: func(_ int, v msdk.PCM16Sample) {
			counts[v[0]][int(v[1])|int(v[2])<<14].Add(1)
		}})
	}
	held := []int{0, 0, 0} // attached minus returned
	var mu sync.Mutex
	for g := range 2 {
		sw.Add(1)
		go func() {
			defer sw.Done()
			for k := 0; !done.Load(); k++ {
				var w msdk.PCM16Writer
				at := 0
				if k%2 == 0 {
					w, at = sinks[g], g+1
				}
				old := s.Swap(w)
				from := 0
				if old != nil {
					from = old.(*idSink).id
				}
				mu.Lock()
				held[at]++
				held[from]--
				mu.Unlock()
				if k%16 == g {
					runtime.Gosched()
				}
				_ = s.Get()
			}
		}()
	}
	for g := range writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range n {
				if err := s.WriteSample(msdk.PCM16Sample{int16(g), int16(k & 0x3fff), int16(k >> 14)}); err != nil {
					errs.Add(1)
				}
				switch counts[g][k].Load() {
				case 0:
					toNone.Add(1)
				case 1:
				default:
					c.Fail("stress-twice", "frame %d of writer %d is delivered %d times", k, g, counts[g][k].Load())
				}
				if k%64 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	done.Store(true)
	sw.Wait()
	if e := errs.Load(); e != 0 {
		c.Fail("stress-error", "%d writes failed, but no writer fails", e)
	}
	cur := 0
	if w := s.Get(); w != nil {
		cur = w.(*idSink).id
	}
	held[cur]--
	held[0]++ // initially there was none
	for k, h := range held {
		if h != 0 {
			c.Fail("stress-swap", "writer %d (0 for none): attached %d times more than returned, current is %d", k, h, cur)
		}
	}
	for _, k := range sinks {
		if k.closed.Load() != 0 {
			c.Fail("stress-closed", "writer %d is closed by a swap", k.id)
		}
	}
	c.Count("stress frames", writers*n)
	c.Count("stress frames to nobody", int(toNone.Load()))
	c.Distinct("stress", id, toNone.Load())
}

func runSwitchConcurrent(c *kit.C, id int) {
	s := msdk.NewSwitchWriter(8000)
	var (
		mu   sync.Mutex
		recv = map[int][]int{} // value -> writers
		ops  []porcupine.Operation
		ids  atomic.Int32
		vals atomic.Int32
		base = time.Now()
	)
	var sinks sync.Map
	mk := func() *idSink {
		n := &idSink{id: int(ids.Add(1)), rate: 8000, on: func(id int, v msdk.PCM16Sample) {
			mu.Lock()
			k := int(v[0]) + int(v[1])<<14
			recv[k] = append(recv[k], id)
			mu.Unlock()
		}}
		sinks.Store(n.id, n)
		return n
	}
	idOf := func(w msdk.PCM16Writer) int {
		if w == nil {
			return 0
		}
		return w.(*idSink).id
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		rnd := c.Rand("hist", id, g)
		go func() {
			defer wg.Done()
			for k := 0; k < 8; k++ {
				op := swIn{kind: "write"}
				t0 := time.Since(base)
				var res int
				switch x := rnd.Intn(8); {
				case x < 3:
					n := mk()
					op = swIn{kind: "swap", id: n.id}
					t0 = time.Since(base)
					res = idOf(s.Swap(n))
				case x == 3:
					op = swIn{kind: "swap"}
					t0 = time.Since(base)
					res = idOf(s.Swap(nil))
				case x == 4:
					op = swIn{kind: "get"}
					t0 = time.Since(base)
					res = idOf(s.Get())
				case x == 5 && rnd.Intn(2) == 0:
					// The closed writer is recognized after the run.
					op = swIn{kind: "close", id: -1}
					t0 = time.Since(base)
					_ = s.Close()
					res = -1
				default:
					v := int(vals.Add(1))
					op.id = v
					t0 = time.Since(base)
					if err := s.WriteSample(msdk.PCM16Sample{int16(v & 0x3fff), int16(v >> 14)}); err != nil {
						c.Fail("concurrent-error", "write returned %v, but no writer fails", err)
					}
					mu.Lock()
					if w := recv[v]; len(w) > 0 {
						res = w[0]
					}
					mu.Unlock()
				}
				t1 := time.Since(base)
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: g, Input: op, Call: t0.Nanoseconds(), Output: res, Return: t1.Nanoseconds()})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for v, w := range recv {
		if len(w) > 1 {
			c.Fail("twice", "value %d is delivered %d times", v, len(w))
		}
	}
	// Writers closed by the switch: each at most once, and never returned by Swap.
	returned := map[int]int{}
	for _, op := range ops {
		if in := op.Input.(swIn); in.kind == "swap" && op.Output.(int) != 0 {
			returned[op.Output.(int)]++
		}
	}
	cur := idOf(s.Get())
	nclosed := 0
	sinks.Range(func(_, v any) bool {
		n := v.(*idSink)
		k := int(n.closed.Load())
		nclosed += k
		tot := returned[n.id] + k
		if n.id == cur {
			tot++
		}
		if tot != 1 {
			c.Fail("ownership", "writer %d: returned by swap %d times, closed %d times, current=%v", n.id, returned[n.id], k, n.id == cur)
		}
		return true
	})
	// Close does not report which writer it closed, so it's a nondeterministic swap to nothing.
	nm := porcupine.NondeterministicModel{
		Init: func() []any { return []any{0} },
		Step: func(st, in, out any) []any {
			op := in.(swIn)
			switch op.kind {
			case "swap":
				if out.(int) == st.(int) {
					return []any{op.id}
				}
				return nil
			case "close":
				return []any{0}
			default:
				if out.(int) == st.(int) {
					return []any{st}
				}
				return nil
			}
		},
	}
	switch porcupine.CheckOperationsTimeout(nm.ToModel(), ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Fail("linearizability", "history is not linearizable: %v", ops)
	case porcupine.Unknown:
		c.Count("linearizability_unknown", 1)
	default:
		c.Count("linearizable_histories", 1)
	}
	c.Count("concurrent_ops", len(ops))
	c.Count("closed", nclosed)
	c.Distinct("conc", fmt.Sprint(ops))
	if id == 0 {
		c.Sample("history", "%v", ops)
	}
}

// memFile is a file with injected failures.
type memFile struct {
	bytes.Buffer
	failAfter int // bytes, -1 to never fail
	failClose bool
	short     bool // fail once, without an error
	closed    int
	late      int
	errs      int // errors returned
	err       error
}

// failure is the error this file fails with.
func (f *memFile) failure() error {
	if f.err != nil {
		return f.err
	}
	return errInjected
}

func (f *memFile) Write(p []byte) (int, error) {
	if f.closed > 0 {
		f.late++
	}
	if f.failAfter >= 0 && f.Len()+len(p) > f.failAfter {
		n := max(0, f.failAfter-f.Len())
		f.Buffer.Write(p[:n])
		f.errs++
		if f.short {
			f.failAfter = 1 << 40
			return n, nil
		}
		return n, f.failure()
	}
	return f.Buffer.Write(p)
}

func (f *memFile) Close() error {
	f.closed++
	if f.failClose {
		f.errs++
		return f.failure()
	}
	return nil
}

type sampleSink struct {
	got []pmedia.Sample
	err error
}

func (s *sampleSink) WriteSample(v pmedia.Sample) error {
	s.got = append(s.got, v)
	return s.err
}

func pcmBytes(s []int16) []byte {
	var out []byte
	for _, v := range s {
		out = append(out, byte(uint16(v)), byte(uint16(v)>>8))
	}
	return out
}

func checkWriters(c *kit.C) {
	dir, err := os.MkdirTemp("", "writers")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i := 0; i < c.N(2000, 25000); i++ {
		rnd := c.Rand("writers", i)
		kind := i % 9
		c.Eval("writer %d kind %d", i, kind)
		frames := make([]msdk.PCM16Sample, rnd.Intn(30))
		var all msdk.PCM16Sample
		sizes := make([]int, len(frames))
		for k := range frames {
			n := rnd.Intn(400)
			if rnd.Intn(10) == 0 {
				n = rnd.Intn(5000)
			}
			frames[k] = randPCM(rnd, n)
			sizes[k] = n
			all = append(all, frames[k]...)
		}
		c.Try("writers", func() {
			switch kind {
			case 0, 1:
				checkMulti(c, rnd, frames)
			case 2, 3:
				f := &memFile{failAfter: -1, err: someError(rnd, "injected")}
				f.failClose = rnd.Intn(2) == 0
				if kind == 3 {
					f.failAfter = rnd.Intn(2*len(all) + 100)
					f.short = rnd.Intn(3) == 0
				}
				limit := f.failAfter
				w := msdk.NewFileWriter[msdk.PCM16Sample](f, 8000)
				failed := false
				for _, s := range frames {
					err := w.WriteSample(append(msdk.PCM16Sample{}, s...))
					if err != nil {
						failed = true
						if !errors.Is(err, f.err) && !(f.short && errors.Is(err, io.ErrShortWrite)) {
							c.Fail("file-error", "unexpected error %v", err)
						}
					} else if f.errs > 0 && !f.short {
						c.Fail("file-error-late", "a frame is accepted after the file has failed")
					}
				}
				err := w.Close()
				if f.closed != 1 || f.late != 0 {
					c.Fail("file-close", "file closed %d times, %d writes after close", f.closed, f.late)
				}
				exp := pcmBytes(all)
				shouldFail := f.failClose || limit >= 0 && len(exp) > limit
				if f.short && !f.failClose {
					// A file isn't supposed to write less without an error: it's reported, or the rest is written again.
					shouldFail = !bytes.Equal(f.Bytes(), exp)
				}
				if got := failed || err != nil; got != shouldFail {
					c.Fail("file-report", "failure is reported=%v, expected %v (size %d, limit %d, close error %v)", got, shouldFail, len(exp), limit, f.failClose)
				}
				if kind == 2 && !bytes.Equal(f.Bytes(), exp) {
					c.Fail("file-data", "file has %d bytes, differs from %d bytes written", f.Len(), len(exp))
				}
				if err != nil && !errors.Is(err, f.err) && !(f.short && errors.Is(err, io.ErrShortWrite)) {
					c.Fail("file-close-error", "unexpected error of close %v", err)
				}
				if kind == 3 && !bytes.HasPrefix(exp, f.Bytes()) {
					c.Fail("file-prefix", "file is not a prefix of data")
				}
			case 4:
				rate := someRate(rnd)
				sink := newPCMSink(rate)
				name := filepath.Join(dir, fmt.Sprintf("dump_%d", i))
				w := msdk.DumpWriterPCM16(name, sink)
				if w.SampleRate() != rate {
					c.Fail("dump-rate", "rate %d, expected %d", w.SampleRate(), rate)
				}
				for _, s := range frames {
					if err := w.WriteSample(s); err != nil {
						c.Fail("dump-error", "%v", err)
					}
				}
				if err := w.Close(); err != nil {
					c.Fail("dump-error", "%v", err)
				}
				data, err := os.ReadFile(fmt.Sprintf("%s_ar%d.s16le", name, rate))
				if err != nil {
					c.Fail("dump-file", "%v", err)
				}
				if !bytes.Equal(data, pcmBytes(all)) || !equal(sink.all(), all) || sink.closed != 1 || sink.count() != len(frames) {
					c.Fail("dump-data", "dump has %d bytes, sink %d samples, expected %d samples", len(data), len(sink.all()), len(all))
				}
				_ = os.Remove(fmt.Sprintf("%s_ar%d.s16le", name, rate))
			case 5:
				var fr []msdk.PCM16Sample
				w := msdk.NewPCM16FrameWriter(&fr, 8000)
				var buf msdk.PCM16Sample
				pre := randPCM(rnd, rnd.Intn(5))
				buf = append(buf, pre...)
				w2 := msdk.NewPCM16BufferWriter(&buf, 8000)
				tmp := make(msdk.PCM16Sample, 5000)
				for _, s := range frames {
					n := copy(tmp, s)
					_ = w.WriteSample(tmp[:n])
					_ = w2.WriteSample(tmp[:n])
					for j := range tmp {
						tmp[j] = 99
					}
				}
				_ = w2.Close()
				_ = w2.WriteSample(msdk.PCM16Sample{1, 2, 3})
				if !equal(buf, append(append(msdk.PCM16Sample{}, pre...), all...)) {
					c.Fail("buffer", "buffer writer: %d samples, expected %d", len(buf), len(pre)+len(all))
				}
				if len(fr) != len(frames) {
					c.Fail("frames", "frame writer: %d frames, expected %d", len(fr), len(frames))
				}
				for k := range fr {
					if !equal(fr[k], frames[k]) {
						c.Fail("frames", "frame writer: frame %d differs", k)
					}
				}
				// Read it back in random chunks.
				r := msdk.NewPCM16BufferReader(append(msdk.PCM16Sample{}, all...))
				var back msdk.PCM16Sample
				for len(back) < len(all) {
					b := make(msdk.PCM16Sample, 1+rnd.Intn(700))
					n, err := r.ReadSample(b)
					if err != nil || n == 0 && len(back) < len(all) {
						c.Fail("reader", "%d %v", n, err)
						break
					}
					back = append(back, b[:n]...)
				}
				if n, _ := r.ReadSample(make(msdk.PCM16Sample, 5)); n != 0 || !equal(back, all) {
					c.Fail("reader", "buffer reader returned %d samples, expected %d", len(back)+n, len(all))
				}
			case 6:
				ms := &sampleSink{}
				dur := time.Duration(1+rnd.Intn(60)) * time.Millisecond
				rate := someRate(rnd)
				w := msdk.FromSampleWriter[byteSample](ms, rate, dur)
				if w.SampleRate() != rate {
					c.Fail("sample-rate", "rate %d, expected %d", w.SampleRate(), rate)
				}
				tmp := make(byteSample, 10000)
				for k, s := range frames {
					n := copy(tmp, pcmBytes(s))
					ms.err = nil
					if rnd.Intn(6) == 0 {
						ms.err = someError(rnd, "injected")
					}
					if err := w.WriteSample(tmp[:n]); err != ms.err {
						c.Fail("sample-error", "write returned %v, expected %v", err, ms.err)
					}
					for j := range tmp {
						tmp[j] = 0xaa
					}
					_ = k
				}
				if len(ms.got) != len(frames) {
					c.Fail("sample-count", "%d samples, expected %d", len(ms.got), len(frames))
				}
				for k, v := range ms.got {
					if !bytes.Equal(v.Data, pcmBytes(frames[k])) || v.Duration != dur {
						c.Fail("sample-data", "sample %d differs", k)
					}
				}
			case 8:
				raw := make([][]byte, len(frames))
				for k, f := range frames {
					raw[k] = pcmBytes(f)[:rnd.Intn(2*len(f)+1)]
				}
				switch rnd.Intn(4) {
				case 0:
					checkByteFrames[g711.ALawSample](c, rnd, raw)
					checkBadFrames(c, rnd)
				case 1:
					checkByteFrames[g711.ULawSample](c, rnd, raw)
				case 2:
					checkByteFrames[g722.Sample](c, rnd, raw)
				case 3:
					checkByteFrames[opus.Sample](c, rnd, raw)
				}
			case 7:
				for _, s := range frames {
					if s.Size() != 2*len(s) {
						c.Fail("size", "size of %d samples is %d", len(s), s.Size())
					}
					extra := rnd.Intn(5)
					dst := bytes.Repeat([]byte{0xEE}, s.Size()+extra)
					n, err := s.CopyTo(dst)
					if err != nil || n != s.Size() || !bytes.Equal(dst[:n], pcmBytes(s)) || !bytes.Equal(dst[n:], bytes.Repeat([]byte{0xEE}, extra)) {
						c.Fail("copy", "copy of %d samples: %d %v", len(s), n, err)
					}
					for k := range s {
						if v := int16(binary.LittleEndian.Uint16(dst[2*k:])); v != s[k] {
							c.Fail("copy-value", "sample %d is %d, expected %d", k, v, s[k])
						}
					}
					if len(s) > 0 {
						if n, err := s.CopyTo(dst[:rnd.Intn(s.Size())]); err != io.ErrShortBuffer || n != 0 {
							c.Fail("copy-short", "copy to a short buffer: %d %v", n, err)
						}
					}
					var acc msdk.PCM16Sample
					_ = acc.WriteSample(s)
					_ = acc.WriteSample(s)
					if !equal(acc, append(append(msdk.PCM16Sample{}, s...), s...)) {
						c.Fail("append", "appended samples differ")
					}
					acc.Clear()
					for _, v := range acc {
						if v != 0 {
							c.Fail("clear", "not cleared")
							break
						}
					}
				}
			}
		})
		c.Count(fmt.Sprintf("kind_%d_frames", kind), len(frames))
		c.Distinct(kind, sizes)
		c.Sample(fmt.Sprint("kind", kind), "sizes=%v", sizes)
	}
}

type byteFrame interface {
	~[]byte
	msdk.Frame
}

// badFrame is a frame that can't be copied.
type badFrame []byte

func (f badFrame) Size() int { return len(f) }

// failure is the error of copying a frame, by its first byte.
func (f badFrame) failure() error {
	list := []error{errInjected, io.EOF, io.ErrShortBuffer, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed}
	if len(f) > 0 && f[0] > 0 {
		return list[int(f[0])%len(list)]
	}
	return nil
}

func (f badFrame) CopyTo(dst []byte) (int, error) {
	if e := f.failure(); e != nil {
		return 0, e
	}
	return copy(dst, f), nil
}

// checkBadFrames checks that a frame that can't be copied is reported, and is left out of the file.
func checkBadFrames(c *kit.C, rnd *rand.Rand) {
	f := &memFile{failAfter: -1}
	w := msdk.NewFileWriter[badFrame](f, 8000)
	var all []byte
	for i := 0; i < 20; i++ {
		s := make(badFrame, 1+rnd.Intn(300))
		rnd.Read(s)
		s[0] = 0
		if rnd.Intn(4) == 0 {
			s[0] = byte(1 + rnd.Intn(255))
			c.Count("frames_not_copied", 1)
		} else {
			all = append(all, s...)
		}
		if err := w.WriteSample(s); !errors.Is(err, s.failure()) {
			c.Fail("bad-frame", "write of a frame which fails to be copied with %v returns %v", s.failure(), err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fail("bad-frame", "close fails: %v", err)
	}
	if !bytes.Equal(f.Bytes(), all) {
		c.Fail("bad-frame-file", "file has %d bytes, expected %d", f.Len(), len(all))
	}
}

// checkByteFrames checks frames of codecs, and files and lists of them.
func checkByteFrames[T byteFrame](c *kit.C, rnd *rand.Rand, raw [][]byte) {
	f := &memFile{failAfter: -1}
	rate := someRate(rnd)
	w := msdk.NewFileWriter[T](f, rate)
	var all []byte
	if w.SampleRate() != rate {
		c.Fail("frame-rate", "%T: rate %d, expected %d", T(nil), w.SampleRate(), rate)
	}
	for _, b := range raw {
		s := T(bytes.Clone(b))
		if s.Size() != len(b) {
			c.Fail("size", "size of %d bytes of %T is %d", len(b), s, s.Size())
		}
		extra := rnd.Intn(5)
		dst := bytes.Repeat([]byte{0xEE}, len(b)+extra)
		n, err := s.CopyTo(dst)
		if err != nil || n != len(b) || !bytes.Equal(dst[:n], b) || !bytes.Equal(dst[n:], bytes.Repeat([]byte{0xEE}, extra)) {
			c.Fail("copy", "copy of %d bytes of %T: %d %v", len(b), s, n, err)
		}
		if len(b) > 0 {
			dst = bytes.Repeat([]byte{0xEE}, len(b))
			short := rnd.Intn(len(b))
			if n, err := s.CopyTo(dst[:short]); err != io.ErrShortBuffer || n != 0 {
				c.Fail("copy-short", "copy of %d bytes of %T to %d: %d %v", len(b), s, short, n, err)
			}
		}
		if err := w.WriteSample(s); err != nil {
			c.Fail("frame-write", "%T: %v", s, err)
		}
		if !bytes.Equal(s, b) {
			c.Fail("frame-modified", "%T of %d bytes is modified", s, len(b))
		}
		for k := range s {
			s[k] = 0x55
		}
		all = append(all, b...)
	}
	if err := w.Close(); err != nil {
		c.Fail("frame-close", "%v", err)
	}
	if !bytes.Equal(f.Bytes(), all) {
		c.Fail("frame-file", "%T: file has %d bytes, expected %d", T(nil), f.Len(), len(all))
	}
}

// someRate is a common sample rate, or another one.
func someRate(rnd *rand.Rand) int {
	list := []int{8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 96000}
	if rnd.Intn(3) == 0 {
		return 1 + rnd.Intn(200000)
	}
	return list[rnd.Intn(len(list))]
}

// someError is a common error, or another one.
func someError(rnd *rand.Rand, text string) error {
	list := []error{io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrShortWrite, net.ErrClosed, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
		fmt.Errorf("%s: %w", text, io.EOF), fmt.Errorf("%s: %w", text, io.ErrClosedPipe)}
	if rnd.Intn(2) == 0 {
		return errors.New(text)
	}
	return list[rnd.Intn(len(list))]
}

func checkMulti(c *kit.C, rnd *rand.Rand, frames []msdk.PCM16Sample) {
	n := rnd.Intn(6)
	var (
		w     msdk.MultiWriter[msdk.PCM16Sample]
		sinks []*pcmSink
		fail  = make([]map[int]error, n)
	)
	closeErr := make([]error, n)
	for k := 0; k < n; k++ {
		s := newPCMSink(8000)
		fail[k] = map[int]error{}
		rate := []int{0, 20, 100}[rnd.Intn(3)]
		for f := range frames {
			if rnd.Intn(100) < rate {
				fail[k][f] = someError(rnd, fmt.Sprintf("writer %d frame %d", k, f))
			}
		}
		s.hook = func(i int, _ msdk.PCM16Sample) error { return fail[k][i] }
		sinks = append(sinks, s)
		if rnd.Intn(4) == 0 {
			closeErr[k] = someError(rnd, fmt.Sprintf("close %d", k))
		}
		w = append(w, closeWith{s, closeErr[k]})
	}
	if exp := 8000 * min(n, 1); w.SampleRate() != exp {
		c.Fail("multi-rate", "rate %d, expected %d", w.SampleRate(), exp)
	}
	_ = w.String()
	oneOf := func(what string, err error, all []error) {
		any := false
		for _, e := range all {
			if e != nil {
				any = true
				if err == e || errors.Is(err, e) {
					return
				}
			}
		}
		if any || err != nil {
			c.Fail("multi-error", "%s returned %v, expected one of %v", what, err, all)
		}
	}
	for f, s := range frames {
		err := w.WriteSample(s)
		var all []error
		for k := range sinks {
			all = append(all, fail[k][f])
		}
		oneOf("write", err, all)
	}
	if n > 0 && rnd.Intn(3) == 0 { // shared: not closed
		if err := msdk.NopCloser[msdk.PCM16Sample](w).Close(); err != nil || sinks[0].closed != 0 {
			c.Fail("nop-close", "%v, closed %d times", err, sinks[0].closed)
		}
	}
	oneOf("close", w.Close(), closeErr)
	for k, s := range sinks {
		if s.closed != 1 {
			c.Fail("multi-close", "writer %d of %d is closed %d times", k, n, s.closed)
		}
		recs := s.snapshot()
		if len(recs) != len(frames) {
			c.Fail("multi-count", "writer %d of %d received %d frames of %d", k, n, len(recs), len(frames))
			continue
		}
		for f := range frames {
			if !equal(recs[f].copy, frames[f]) {
				c.Fail("multi-data", "writer %d: frame %d differs", k, f)
			}
		}
	}
}

type closeWith struct {
	*pcmSink
	err error
}

func (w closeWith) Close() error {
	_ = w.pcmSink.Close()
	return w.err
}

func checkStereo(c *kit.C) {
	pair := func(l, r, m int16) bool { return int(m) == (int(l)+int(r))/2 }
	// All left values with a set of right values.
	var rights []int
	if c.Thorough() {
		for v := -32768; v <= 32767; v++ {
			rights = append(rights, v)
		}
	} else {
		rights = []int{-32768, -32767, -32766, 32767, 32766, 0, 1, -1, 2, -2, 16384, -16384}
		rnd := c.Rand("right")
		for len(rights) < 300 {
			rights = append(rights, rnd.Intn(65536)-32768)
		}
	}
	const block = 65536
	src := make(msdk.PCM16Sample, 2*block)
	dst := make(msdk.PCM16Sample, block)
	for i, r := range rights {
		c.Eval("right=%d", r)
		for k := 0; k < block; k++ {
			l := int16(k - 32768)
			if i%2 == 0 {
				src[2*k], src[2*k+1] = l, int16(r)
			} else {
				src[2*k], src[2*k+1] = int16(r), l
			}
		}
		d := dst
		if i%3 == 0 {
			// overlapping
			buf := append(msdk.PCM16Sample{}, src...)
			msdk.StereoToMono(buf, buf)
			d = buf[:block]
		} else {
			msdk.StereoToMono(dst, src)
		}
		for k := 0; k < block; k++ {
			if !pair(src[2*k], src[2*k+1], d[k]) {
				c.Fail("average", "average of %d and %d is %d", src[2*k], src[2*k+1], d[k])
				break
			}
		}
		c.Distinct("right", r)
		c.Count("pairs", block)
	}
	c.Eval("all mono values")
	mono := make(msdk.PCM16Sample, block)
	for k := range mono {
		mono[k] = int16(k - 32768)
	}
	st := make(msdk.PCM16Sample, 2*block)
	msdk.MonoToStereo(st, mono)
	for k, v := range mono {
		if st[2*k] != v || st[2*k+1] != v {
			c.Fail("duplicate", "%d is (%d, %d)", v, st[2*k], st[2*k+1])
			break
		}
	}
	back := make(msdk.PCM16Sample, block)
	msdk.StereoToMono(back, st)
	if !equal(back, mono) {
		c.Fail("round-trip", "mono to stereo to mono changes sample %d", firstDiff(back, mono))
	}
	// Shapes.
	for i := 0; i < c.N(2000, 20000); i++ {
		rnd := c.Rand("shape", i)
		n := rnd.Intn(50)
		extra := rnd.Intn(4)
		c.Eval("shape n=%d extra=%d", n, extra)
		src := randPCM(rnd, n)
		orig := append(msdk.PCM16Sample{}, src...)
		dst := make(msdk.PCM16Sample, n/2+extra)
		for k := range dst {
			dst[k] = 12345
		}
		c.Try("shape", func() { msdk.StereoToMono(dst, src) })
		for k := range dst {
			if k < n/2 && !pair(src[2*k], src[2*k+1], dst[k]) || k >= n/2 && dst[k] != 12345 {
				c.Fail("shape-mono", "sample %d of %v is %d", k, src, dst[k])
			}
		}
		dst2 := make(msdk.PCM16Sample, 2*n+extra)
		for k := range dst2 {
			dst2[k] = 12345
		}
		c.Try("shape", func() { msdk.MonoToStereo(dst2, src) })
		for k := range dst2 {
			if k < 2*n && dst2[k] != src[k/2] || k >= 2*n && dst2[k] != 12345 {
				c.Fail("shape-stereo", "sample %d of %v is %d", k, src, dst2[k])
			}
		}
		if !equal(src, orig) {
			c.Fail("shape-src", "source is modified")
		}
		if n >= 2 {
			if kit.Panics(func() { msdk.StereoToMono(make(msdk.PCM16Sample, n/2-1), src) }) == nil {
				c.Fail("small-mono", "no panic for a small destination")
			}
			if kit.Panics(func() { msdk.MonoToStereo(make(msdk.PCM16Sample, 2*n-1-rnd.Intn(n)), src) }) == nil {
				c.Fail("small-stereo", "no panic for a small destination")
			}
		}
		c.Distinct("shape", n, extra)
	}
	// Silence of all lengths.
	for n := 0; n <= 2000; n++ {
		c.Eval("clear %d", n)
		buf := make(msdk.PCM16Sample, n+8)
		for k := range buf {
			buf[k] = int16(k%65535 - 32768)
		}
		exp := append(msdk.PCM16Sample{}, buf...)
		clear(exp[4 : n+4])
		buf[4 : n+4].Clear()
		if !equal(buf, exp) {
			c.Fail("clear", "clearing of %d samples: sample %d is %d", n, firstDiff(buf, exp)-4, buf[firstDiff(buf, exp)])
		}
	}
	c.Sample("pairs", "65536 left values with right=%v...", rights[:6])
}

func checkPlay(c *kit.C) {
	for i := 0; i < c.N(500, 8000); i++ {
		rnd := c.Rand("play", i)
		errInjected := someError(rnd, "injected")
		c.Eval("play %d", i)
		c.Bubble("play", func() {
			dur := time.Duration(1+rnd.Intn(60)) * time.Millisecond
			n := rnd.Intn(40)
			frames := make([]msdk.PCM16Sample, n)
			for k := range frames {
				frames[k] = randPCM(rnd, rnd.Intn(20))
			}
			mode := rnd.Intn(4)
			out := newPCMSink(8000)
			failAt := -1
			slow := time.Duration(0)
			cancelAt := time.Duration(-1)
			var expErr error
			switch mode {
			case 1:
				failAt = rnd.Intn(n + 1)
			case 2:
				cancelAt = time.Duration(rnd.Intn(n+2))*dur + dur/2 + 1
			case 3:
				slow = dur * time.Duration(1+rnd.Intn(3)) / 4
			}
			ctx, cancel, ctxErr := endAfter(rnd, cancelAt)
			defer cancel()
			out.hook = func(k int, _ msdk.PCM16Sample) error {
				if k == failAt {
					return errInjected
				}
				time.Sleep(slow)
				return nil
			}
			start := time.Now()
			err := msdk.PlayAudio[msdk.PCM16Sample](ctx, out, dur, frames)
			took := time.Since(start)
			exp := n
			expTook := time.Duration(n) * dur
			if failAt >= 0 && failAt < n {
				exp, expErr = failAt+1, errInjected
				expTook = time.Duration(exp) * dur
			}
			if cancelAt >= 0 && int(cancelAt/dur) < n {
				exp, expErr = int(cancelAt/dur), ctxErr
				expTook = cancelAt
			}
			if n > 0 && expErr == nil {
				expTook += slow
			}
			desc := fmt.Sprintf("dur=%v n=%d mode=%d fail=%d cancel=%v slow=%v", dur, n, mode, failAt, cancelAt, slow)
			if err != expErr {
				c.Fail("error", "%s: returned %v, expected %v", desc, err, expErr)
			}
			if took != expTook {
				c.Fail("duration", "%s: took %v, expected %v", desc, took, expTook)
			}
			time.Sleep(3 * dur)
			recs := out.snapshot()
			if len(recs) != exp {
				c.Fail("count", "%s: %d frames, expected %d", desc, len(recs), exp)
			}
			for k, r := range recs {
				if k < n && !equal(r.copy, frames[k]) {
					c.Fail("order", "%s: frame %d differs", desc, k)
				}
				if at := r.at.Sub(start); at != time.Duration(k+1)*dur {
					c.Fail("pace", "%s: frame %d is written at %v, expected %v", desc, k, at, time.Duration(k+1)*dur)
				}
			}
			c.Count("frames_played", len(recs))
			c.Distinct("play", desc)
			c.Sample(fmt.Sprint("mode", mode), "%s: %d frames in %v, %v", desc, len(recs), took, err)
		})
	}
	// Cancellation at the instant of a tick and during slow writes: there either is one more frame or not,
	// but success is reported only if all frames are written.
	for i := 0; i < c.N(400, 6000); i++ {
		rnd := c.Rand("play-cancel", i)
		c.Eval("play-cancel %d", i)
		c.Bubble("play-cancel", func() {
			dur := time.Duration(1+rnd.Intn(60)) * time.Millisecond
			n := 1 + rnd.Intn(8)
			frames := make([]msdk.PCM16Sample, n)
			for k := range frames {
				frames[k] = randPCM(rnd, 1+rnd.Intn(20))
			}
			var slow time.Duration
			if rnd.Intn(2) == 0 {
				slow = dur * time.Duration(rnd.Intn(12)) / 4
			}
			// Step of the loop: a tick with a write that could be longer.
			at := dur * time.Duration(1+rnd.Intn(n+1))
			if rnd.Intn(3) == 0 {
				at += dur * time.Duration(rnd.Intn(4)) / 4
			}
			inWrite := -1
			if rnd.Intn(2) == 0 {
				inWrite = rnd.Intn(n)
			}
			before := rnd.Intn(10) == 0
			if before {
				inWrite = -1
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			out := newPCMSink(8000)
			out.hook = func(k int, _ msdk.PCM16Sample) error {
				if k == inWrite {
					cancel()
				}
				time.Sleep(slow)
				return nil
			}
			if before {
				cancel()
			} else if inWrite < 0 {
				time.AfterFunc(at, cancel)
			}
			desc := fmt.Sprintf("dur=%v n=%d slow=%v cancel at %v, in write %d, before=%v", dur, n, slow, at, inWrite, before)
			start := time.Now()
			err := msdk.PlayAudio[msdk.PCM16Sample](ctx, out, dur, frames)
			took := time.Since(start)
			recs := out.snapshot()
			switch {
			case err == nil && len(recs) != n:
				c.Fail("cancel-success", "%s: no error, but %d frames are written", desc, len(recs))
			case err != nil && err != context.Canceled:
				c.Fail("cancel-error", "%s: returned %v", desc, err)
			case err != nil && len(recs) == n:
				c.Fail("cancel-late", "%s: returned %v, but all frames are written", desc, err)
			case err != nil && ctx.Err() == nil:
				c.Fail("cancel-early", "%s: returned %v before it's cancelled", desc, err)
			case before && (took != 0 || len(recs) != 0 || err == nil):
				c.Fail("cancel-before", "%s: returned %v after %v and %d frames", desc, err, took, len(recs))
			case slow < dur && inWrite >= 0 && len(recs) != inWrite+1:
				c.Fail("cancel-in-write", "%s: %d frames are written", desc, len(recs))
			}
			for k, r := range recs {
				if k < n && !equal(r.copy, frames[k]) {
					c.Fail("order", "%s: frame %d differs", desc, k)
				}
				if g := r.at.Sub(start); g < time.Duration(k+1)*dur || slow <= dur && g != time.Duration(k+1)*dur {
					c.Fail("pace", "%s: frame %d is written at %v", desc, k, g)
				}
			}
			time.Sleep(3 * dur)
			if out.count() != len(recs) {
				c.Fail("after", "%s: written after the return", desc)
			}
			c.Count(fmt.Sprintf("cancelled: %v", err != nil), 1)
			c.Distinct("play-cancel", desc)
		})
	}
	// Tones
	for i := 0; i < c.N(300, 4000); i++ {
		rnd := c.Rand("tones", i)
		errInjected := someError(rnd, "injected")
		c.Eval("tones %d", i)
		c.Bubble("tones", func() {
			rate := []int{8000, 16000, 48000, 11025, 22050, 44100, 32000, 12000}[rnd.Intn(8)]
			var list []tones.Tone
			for len(list) < 1+rnd.Intn(4) {
				t := tones.Tone{Dur: time.Duration(1+rnd.Intn(12)) * 20 * time.Millisecond}
				if rnd.Intn(4) == 0 {
					t.Dur += time.Duration(rnd.Intn(20)) * time.Millisecond
				}
				for len(t.Freq) < 1+rnd.Intn(3) {
					t.Freq = append(t.Freq, tones.Hz(350+rnd.Intn(1500)))
				}
				if rnd.Intn(2) == 0 {
					t.Silence = time.Duration(1+rnd.Intn(10)) * 20 * time.Millisecond
				}
				list = append(list, t)
			}
			switch rnd.Intn(8) {
			case 0:
				list = tones.ETSIDial
			case 1:
				list = tones.ETSIBusy
			case 2:
				list = tones.ETSIRinging
			}
			vol := int16(1000 + rnd.Intn(31767))
			nframes := 10 + rnd.Intn(200)
			failAt := -1
			if rnd.Intn(4) == 0 {
				failAt = rnd.Intn(nframes)
			}
			out := newPCMSink(rate)
			out.hook = func(k int, _ msdk.PCM16Sample) error {
				if k == failAt {
					return errInjected
				}
				return nil
			}
			start := time.Now()
			cancelAt := time.Duration(nframes)*20*time.Millisecond + 3*time.Millisecond
			ctx, cancel, ctxErr := endAfter(rnd, cancelAt)
			defer cancel()
			err := tones.Play(ctx, out, vol, list)
			took := time.Since(start)
			exp, expErr, expTook := nframes, ctxErr, cancelAt
			if failAt >= 0 {
				exp, expErr, expTook = failAt+1, errInjected, time.Duration(failAt+1)*20*time.Millisecond
			}
			synctest.Wait()
			time.Sleep(cancelAt)
			desc := fmt.Sprintf("rate=%d vol=%d tones=%v n=%d fail=%d", rate, vol, list, nframes, failAt)
			if err != expErr || took != expTook || out.count() != exp {
				c.Fail("tones-outcome", "%s: returned %v after %v with %d frames, expected %v after %v with %d", desc, err, took, out.count(), expErr, expTook, exp)
			}
			// Expected sequence of tone and silence frames.
			var seq []bool
			for len(seq) < nframes {
				for _, t := range list {
					k := max(1, int((t.Dur+20*time.Millisecond-1)/(20*time.Millisecond)))
					for ; k > 0; k-- {
						seq = append(seq, true)
					}
					for k = int((t.Silence + 20*time.Millisecond - 1) / (20 * time.Millisecond)); k > 0; k-- {
						seq = append(seq, false)
					}
				}
			}
			for k, r := range out.snapshot() {
				if at := r.at.Sub(start); at != time.Duration(k+1)*20*time.Millisecond {
					c.Fail("tones-pace", "%s: frame %d is written at %v", desc, k, at)
				}
				if len(r.copy) != rate/50 {
					c.Fail("tones-size", "%s: frame of %d samples", desc, len(r.copy))
				}
				peak := 0
				for _, v := range r.copy {
					peak = max(peak, int(v), -int(v))
				}
				if seq[k] != (peak > 0) {
					c.Fail("tones-schedule", "%s: frame %d has peak %d, expected a tone: %v", desc, k, peak, seq[k])
				}
				if peak > int(vol) {
					c.Fail("tones-volume", "%s: frame %d has peak %d", desc, k, peak)
				}
			}
			c.Count("tone_frames", out.count())
			c.Distinct("tones", desc)
			c.Sample(fmt.Sprint("tones", failAt >= 0), "%s", strings.ReplaceAll(desc, "\n", " "))
		})
	}
}
