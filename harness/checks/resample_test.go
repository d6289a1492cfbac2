package checks

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	msdk "github.com/livekit/media-sdk"

	"verif/harness/kit"
	"verif/harness/native"
)

func init() {
	kit.Register("R01", kit.Check{
		Rule: "Random pairs of rates, signals and splits of the input to writes (including single samples); total output size and the effect of the split are checked " +
			"against the exact ratio and the one-shot conversion. Distinct: (rates, sizes of writes).",
		Floor: 300,
		Run:   checkResampleCount,
	})
	kit.Register("R02", kit.Check{
		Rule: "Tones, sums of tones, constants, clipping signals and out of band tones through random pairs of rates and splits of the input; the output is compared with " +
			"the ideal signal sampled at the destination rate. Distinct: (rates, signal).",
		Floor: 150,
		Run:   checkResampleFidelity,
	})
	kit.Register("R03", kit.Check{
		Rule: "Random lifetimes of converters (closed, closed twice, used after close, abandoned to the garbage collector, closed concurrently with writes, failing native " +
			"calls, invalid rates) while a preloaded library tracks each native handle. Distinct: (lifetime kind, rates, writes).",
		Floor: 150,
		Run:   checkResampleHandles,
	})
}

var allRates = []int{8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 96000}

func ratePair(rnd *rand.Rand) (int, int) {
	if rnd.Intn(8) == 0 { // extreme ratios
		low, high := []int{8000, 8000, 11025}[rnd.Intn(3)], 96000
		if rnd.Intn(2) == 0 {
			return low, high
		}
		return high, low
	}
	src := allRates[rnd.Intn(len(allRates))]
	dst := allRates[rnd.Intn(len(allRates))]
	if rnd.Intn(8) != 0 {
		for dst == src {
			dst = allRates[rnd.Intn(len(allRates))]
		}
	}
	return src, dst
}

// splitter splits the input to writes.
func splitter(rnd *rand.Rand, rate int) (string, func() int) {
	switch rnd.Intn(6) {
	case 5:
		return "all", func() int { return math.MaxInt }
	case 0:
		return "20ms", func() int { return rate / 50 }
	case 1:
		return "1", func() int { return 1 }
	case 2:
		m := 1 + rnd.Intn(2000)
		return fmt.Sprint("1..", m), func() int { return 1 + rnd.Intn(m) }
	case 3:
		return "mixed", func() int {
			if rnd.Intn(2) == 0 {
				return rate / 50
			}
			return 1 + rnd.Intn(5)
		}
	default:
		n := 1 + rnd.Intn(rate/10)
		return fmt.Sprint(n), func() int { return n }
	}
}

func resampleVia(c *kit.C, rnd *rand.Rand, src, dst int, in msdk.PCM16Sample, sizes *[]int) (msdk.PCM16Sample, *pcmSink) {
	out := newPCMSink(dst)
	w := msdk.ResampleWriter(out, src)
	if w.SampleRate() != src {
		c.Fail("rate", "writer expects %d, must be %d", w.SampleRate(), src)
	}
	_, next := splitter(rnd, src)
	for left := in; len(left) > 0; {
		n := min(next(), len(left))
		*sizes = append(*sizes, n)
		if err := w.WriteSample(left[:n]); err != nil {
			c.Fail("write", "%d -> %d: %v", src, dst, err)
			break
		}
		left = left[n:]
		if rnd.Intn(20) == 0 {
			if err := w.WriteSample(nil); err != nil {
				c.Fail("write-empty", "%v", err)
			}
		}
	}
	if err := w.Close(); err != nil {
		c.Fail("close", "%d -> %d: %v", src, dst, err)
	}
	if out.closed != 1 {
		c.Fail("close-count", "destination is closed %d times", out.closed)
	}
	if out.after != 0 {
		c.Fail("write-after-close", "written to a closed destination")
	}
	return out.all(), out
}

func checkResampleCount(c *kit.C) {
	for i := 0; i < c.N(700, 12000); i++ {
		rnd := c.Rand("count", i)
		src, dst := ratePair(rnd)
		n := []int{0, 1, 2, 3, 7, rnd.Intn(50), rnd.Intn(500), src / 50, rnd.Intn(4000), rnd.Intn(src)}[rnd.Intn(10)]
		if i%25 == 0 {
			n = rnd.Intn(10 * src)
		}
		c.Eval("count %d: %d -> %d, %d samples", i, src, dst, n)
		in := randPCM(rnd, n)
		keep := append(msdk.PCM16Sample{}, in...)
		var sizes []int
		got, out := resampleVia(c, rnd, src, dst, in, &sizes)
		exp := int(int64(n) * int64(dst) / int64(src))
		if d := len(got) - exp; d != 0 {
			c.Fail("count", "%d samples at %d -> %d at %d, expected %d; writes %v", n, src, len(got), dst, exp, sizes[:min(len(sizes), 20)])
		}
		if !equal(in, keep) {
			c.Fail("input", "input is modified")
		}
		if src == dst && !equal(got, in) {
			c.Fail("same-rate", "samples are changed with the same rate")
		}
		// The one-shot conversion appends to the given samples.
		pre := randPCM(rnd, rnd.Intn(5))
		one := msdk.Resample(append(msdk.PCM16Sample{}, pre...), dst, in, src)
		if len(one) < len(pre) || !equal(one[:len(pre)], pre) {
			c.Fail("prefix", "existing destination samples are lost")
		} else if src == dst && !equal(one[len(pre):], in) {
			c.Fail("same-rate", "samples are changed by the one-shot conversion to the same rate")
		} else if k := farDiff(one[len(pre):], got, 2); k >= 0 {
			one = one[len(pre):]
			c.Fail("split", "%d -> %d: %d samples written as %v differ from one-shot (%d vs %d samples) at %d", src, dst, n, sizes[:min(len(sizes), 20)], len(got), len(one), k)
		}
		// All output of a stream must be delivered shortly after the input, i.e. it's not accumulated.
		_ = out
		c.Count("samples_in", n)
		c.Count("samples_out", len(got))
		c.Distinct(src, dst, sizes)
		c.Sample(fmt.Sprint(src > dst, n < 10), "%d -> %d: %d samples in %d writes -> %d samples", src, dst, n, len(sizes), len(got))
	}
	// Long streams: the delay is bounded, and the input isn't accumulated.
	for i := 0; i < c.N(24, 400); i++ {
		rnd := c.Rand("long", i)
		src, dst := ratePair(rnd)
		sec := c.N(8, 60)
		c.Eval("long %d: %d -> %d", i, src, dst)
		out := newPCMSink(dst)
		total := 0
		out.hook = func(int, msdk.PCM16Sample) error { return nil }
		w := msdk.ResampleWriter(out, src)
		sz := src / 50
		if i%3 == 1 {
			sz = 1 + rnd.Intn(src/25)
		}
		in := randPCM(rnd, sz)
		seen, got := 0, 0
		maxLag := 0.0
		for total < src*sec {
			_ = w.WriteSample(in)
			total += len(in)
			recs := out.recs
			for ; seen < len(recs); seen++ {
				got += len(recs[seen].copy)
			}
			lag := float64(total)/float64(src) - float64(got)/float64(dst)
			maxLag = max(maxLag, lag)
			if lag < -0.002 {
				c.Fail("ahead", "%d -> %d: output is ahead of the input by %v s", src, dst, -lag)
				break
			}
		}
		// Frames in the resampler and its output buffer.
		if limit := 0.090 + float64(sz)/float64(src); maxLag > limit {
			c.Fail("lag", "%d -> %d: output lags by %v s with frames of %v s", src, dst, maxLag, float64(sz)/float64(src))
		}
		_ = w.Close()
		got = len(out.all())
		if sz*dst%src == 0 {
			for k, r := range out.recs[:len(out.recs)-1] {
				if n := len(r.copy); n != sz*dst/src {
					c.Fail("frame-size", "%d -> %d: frames of %d samples are resampled to a frame %d of %d samples, expected %d", src, dst, sz, k, n, sz*dst/src)
					break
				}
			}
			c.Count("frames_of_whole_duration", len(out.recs))
		}
		if d := got - int(int64(total)*int64(dst)/int64(src)); d != 0 {
			c.Fail("long-count", "%d samples at %d -> %d at %d", total, src, got, dst)
		}
		c.Max("max_lag_us", int(maxLag*1e6))
		c.Distinct("long", src, dst, sz)
	}
	// Very long streams, for their counters: a stream of 48 kHz has 2^22 samples in a minute and a half.
	for i := 0; i < c.N(2, 16); i++ {
		rnd := c.Rand("huge", i)
		src, dst := ratePair(rnd)
		for src == dst {
			src, dst = ratePair(rnd)
		}
		total := int64(1)<<22 + rnd.Int63n(1<<20)
		if c.N(0, 1) == 1 {
			total <<= rnd.Intn(4)
			if i == 0 {
				src, dst, total = 8000, 12000, 1<<31+rnd.Int63n(1<<16)
			}
		}
		c.Eval("huge %d: %d -> %d, %d samples", i, src, dst, total)
		c.Distinct("huge", src, dst)
		out := &countSink{rate: dst}
		w := msdk.ResampleWriter(out, src)
		in := randPCM(rnd, src/50*(1+rnd.Intn(50)))
		sent := int64(0)
		for sent < total {
			if err := w.WriteSample(in); err != nil {
				c.Fail("huge-write", "%d -> %d: %v after %d samples", src, dst, err, sent)
				break
			}
			sent += int64(len(in))
			if lag := float64(sent)/float64(src) - float64(out.n)/float64(dst); lag < -0.002 || lag > 0.090+float64(len(in))/float64(src) {
				c.Fail("huge-lag", "%d -> %d: output lags by %v s after %d samples", src, dst, lag, sent)
				break
			}
		}
		if err := w.Close(); err != nil {
			c.Fail("huge-close", "%v", err)
		}
		if exp := sent * int64(dst) / int64(src); out.n != exp {
			c.Fail("huge-count", "%d samples at %d -> %d at %d, expected %d", sent, src, out.n, dst, exp)
		}
		c.Count("samples_in", int(sent))
		c.Count("samples_out", int(out.n))
	}
	// Errors of the destination are returned from some write, and don't break the count of later samples.
	for i := 0; i < c.N(40, 400); i++ {
		rnd := c.Rand("err", i)
		src, dst := ratePair(rnd)
		c.Eval("errors %d: %d -> %d", i, src, dst)
		out := newPCMSink(dst)
		errInjected := someError(rnd, "injected")
		failAt, failures := rnd.Intn(10), 0
		switch rnd.Intn(4) {
		case 0: // one of the last frames, which are only written on close
			failAt = 17 + rnd.Intn(5)
		case 1: // from some frame on
			failAt = -1 - rnd.Intn(21)
		}
		out.hook = func(k int, s msdk.PCM16Sample) error {
			if k == failAt || failAt < 0 && k >= -1-failAt {
				failures++
				return errInjected
			}
			return nil
		}
		w := msdk.ResampleWriter(out, src)
		errs := 0
		in := randPCM(rnd, src/50)
		const frames = 20
		for k := 0; k < frames; k++ {
			before := failures
			err := w.WriteSample(in)
			if (err != nil) != (failures > before) {
				c.Fail("err-write", "%d -> %d: write returned %v, %d writes to the destination failed in it", src, dst, err, failures-before)
			}
			if err != nil {
				errs++
				if err != errInjected {
					c.Fail("err-value", "write returned %v", err)
				}
			}
		}
		out.closeErr = []error{nil, errClose}[rnd.Intn(2)]
		before := failures
		err := w.Close()
		switch {
		case out.closeErr != nil && errors.Is(err, out.closeErr):
		case failures > before && errors.Is(err, errInjected):
		case out.closeErr == nil && failures == before && err == nil:
		default:
			c.Fail("close-error", "%d -> %d: close returned %v, close of the destination failed with %v, and %d writes during it", src, dst, err, out.closeErr, failures-before)
		}
		if failures > before {
			c.Count("errors on close", 1)
		}
		_ = errs
		if d := len(out.all()) - frames*len(in)*dst/src; d != 0 {
			c.Fail("err-samples", "%d -> %d: %d samples off after an error of the destination", src, dst, d)
		}
		c.Distinct("err", src, dst, failAt)
	}
}

// countSink counts samples.
type countSink struct {
	rate int
	n    int64
}

func (s *countSink) String() string                        { return "count" }
func (s *countSink) SampleRate() int                       { return s.rate }
func (s *countSink) Close() error                          { return nil }
func (s *countSink) WriteSample(in msdk.PCM16Sample) error { s.n += int64(len(in)); return nil }

// farDiff finds a first position where samples differ more than the dither.
func farDiff(a, b msdk.PCM16Sample, lim int) int {
	for i := range min(len(a), len(b)) {
		if d := int(a[i]) - int(b[i]); d < -lim || d > lim {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}

func checkResampleFidelity(c *kit.C) {
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("fidelity", i)
		src, dst := ratePair(rnd)
		band := float64(min(src, dst)) / 2
		kind := []string{"tone", "sum", "const", "silence", "clip", "stop", "step"}[rnd.Intn(7)]
		amp := float64(500 + rnd.Intn(28000))
		f1 := band * (0.02 + 0.53*rnd.Float64())
		f2 := band * (0.02 + 0.53*rnd.Float64())
		ph := rnd.Float64() * 2 * math.Pi
		var sig func(t float64) float64
		switch kind {
		case "tone":
			sig = func(t float64) float64 { return amp * math.Sin(2*math.Pi*f1*t+ph) }
		case "sum":
			sig = func(t float64) float64 { return amp / 2 * (math.Sin(2*math.Pi*f1*t+ph) + math.Cos(2*math.Pi*f2*t)) }
		case "const":
			sig = func(float64) float64 { return amp }
		case "silence":
			sig = func(float64) float64 { return 0 }
		case "clip":
			sig = func(t float64) float64 {
				if math.Sin(2*math.Pi*band/20*t+ph) >= 0 {
					return 32767
				}
				return -32768
			}
		case "stop":
			// Above the destination band; must be removed.
			if float64(src)/2 < band*1.4 {
				kind, sig = "silence", func(float64) float64 { return 0 }
				break
			}
			f1 = band*1.3 + (float64(src)/2-band*1.3)*rnd.Float64()*0.98
			sig = func(t float64) float64 { return amp * math.Sin(2*math.Pi*f1*t+ph) }
		case "step":
			sig = func(t float64) float64 {
				if int(t*10)%2 == 0 {
					return amp
				}
				return -amp
			}
		}
		c.Eval("fidelity %d: %s %d -> %d f=%.0f,%.0f amp=%.0f", i, kind, src, dst, f1, f2, amp)
		n := src/4 + rnd.Intn(src/4)
		in := make(msdk.PCM16Sample, n)
		for k := range in {
			in[k] = int16(math.Round(sig(float64(k) / float64(src))))
		}
		var sizes []int
		got, _ := resampleVia(c, rnd, src, dst, in, &sizes)
		// Edges are affected by the filter.
		edge := dst / 50
		var es, ss float64
		worst := 0.0
		for k := edge; k < len(got)-edge; k++ {
			t := float64(k) / float64(dst)
			exp := sig(t)
			if kind == "stop" && src != dst {
				exp = 0
			}
			if kind == "clip" {
				// Only the sign is compared far enough from the edges of the square.
				x := math.Mod(t*band/20+ph/(2*math.Pi), 0.5)
				if x < 0.1 || x > 0.4 {
					continue
				}
				if exp*float64(got[k]) < 0 || math.Abs(float64(got[k])) < 25000 {
					c.Fail("wrap", "%d -> %d: sample %d is %d, expected about %v", src, dst, k, got[k], exp)
					break
				}
				continue
			}
			if kind == "step" {
				if x := math.Mod(t*10, 1); x < 0.2 || x > 0.8 {
					continue
				}
			}
			d := float64(got[k]) - exp
			worst = max(worst, math.Abs(d))
			es += d * d
			ss += exp * exp
		}
		m := float64(len(got))
		rms := math.Sqrt(es / m)
		switch kind {
		case "tone", "sum":
			// The error is limited by the quality of the filter, and by rounding.
			if limit := 2 + amp*0.012; rms > limit {
				c.Fail("distortion", "%d -> %d: %s of %.0f, %.0f Hz (amplitude %.0f): error %.1f RMS, limit %.1f; writes %v", src, dst, kind, f1, f2, amp, rms, limit, sizes[:min(8, len(sizes))])
			}
			c.Max("distortion_rms_ppm_of_amplitude", int(max(0, rms-1)/amp*1e6))
		case "const", "step":
			if limit := 2 + amp*0.002; worst > limit {
				c.Fail("level", "%d -> %d: %s of %.0f: error %.1f", src, dst, kind, amp, worst)
			}
			c.Max("level_error", int(worst))
		case "silence":
			if worst > 1 {
				c.Fail("silence", "%d -> %d: silence becomes %v", src, dst, worst)
			}
		case "stop":
			if src != dst {
				if limit := 2 + amp*0.02; rms > limit {
					c.Fail("alias", "%d -> %d: out of band tone of %.0f Hz (amplitude %.0f) leaks as %.1f RMS", src, dst, f1, amp, rms)
				}
				c.Max("alias_rms_ppm_of_amplitude", int(max(0, rms-1)/amp*1e6))
			}
		}
		c.Count("signal_"+kind, 1)
		c.Count("samples_compared", len(got))
		c.Distinct(kind, src, dst, int(f1))
		c.Sample(kind, "%d -> %d f=%.0f amp=%.0f: error %.2f RMS", src, dst, f1, amp, rms)
	}
}

func checkResampleHandles(c *kit.C) {
	if os.Getenv("VERIF_PRELOAD") == "" {
		c.T.Fatal("monitor is not preloaded")
	}
	st, ok := native.Soxr()
	if !ok {
		c.T.Fatal("monitor is not loaded")
	}
	misuse := func(what string) {
		if s := native.SoxrError(); s != "" {
			c.Fail("misuse: "+strings.Split(s, " (")[0], "%s: %s", what, s)
		}
	}
	// collect waits until all abandoned handles are released.
	collect := func(what string) {
		var last native.Counts
		for k := 0; k < 400; k++ {
			runtime.GC()
			last, _ = native.Soxr()
			if last.Live == 0 {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		if last.Live != 0 {
			c.Fail("leak", "%s: %d native handles are not released (created %d, deleted %d)", what, last.Live, last.Created, last.Deleted)
		}
		misuse(what)
		c.Tick()
	}
	collect("startup")
	kinds := []string{"close", "close twice", "use after close", "abandon", "one-shot", "concurrent", "native failure", "create failure", "switch", "gc pressure", "close vs close"}
	for i := 0; i < c.N(330, 6000); i++ {
		rnd := c.Rand("handle", i)
		kind := kinds[i%len(kinds)]
		src, dst := ratePair(rnd)
		for src == dst {
			src, dst = ratePair(rnd)
		}
		writes := rnd.Intn(8)
		c.Eval("handle %d: %s %d -> %d, %d writes", i, kind, src, dst, writes)
		before, _ := native.Soxr()
		lifetime(c, rnd, kind, src, dst, writes)
		native.SoxrFault(0, 0)
		misuse(kind)
		after, _ := native.Soxr()
		switch kind {
		case "close", "close twice", "use after close", "concurrent", "close vs close", "one-shot":
			// Closed explicitly: it must be released without a help of GC. Handles abandoned before may be released too.
			if n := after.Live - before.Live; n > 0 {
				c.Fail("not-released", "%s: %d native handles are live after Close", kind, n)
			}
		}
		c.Count("lifetime_"+strings.ReplaceAll(kind, " ", "_"), 1)
		c.Distinct(kind, src, dst, writes)
		if i%20 == 19 {
			collect(kind)
		}
	}
	collect("end")
	end, _ := native.Soxr()
	c.Count("native_created", end.Created-st.Created)
	c.Count("native_deleted", end.Deleted-st.Deleted)
	c.Count("native_process_calls", end.Process)
	c.Sample("totals", "%+v", end)

	// Invalid rates: an error visible to Go (panic), not a crash.
	for _, r := range [][2]int{{0, 8000}, {8000, 0}, {-1, 8000}, {8000, -8000}} {
		c.Eval("invalid rate %v", r)
		v := kit.Panics(func() {
			w := msdk.ResampleWriter(newPCMSink(r[1]), r[0])
			_ = w.WriteSample(make(msdk.PCM16Sample, 160))
			_ = w.Close()
		})
		if v == nil {
			c.Fail("invalid-rate", "rates %v are accepted", r)
		}
		c.Distinct("invalid", r)
	}
	collect("invalid rates")
}

func lifetime(c *kit.C, rnd *rand.Rand, kind string, src, dst, writes int) {
	write := func(w msdk.PCM16Writer) (errs int) {
		for k := 0; k < writes; k++ {
			if err := w.WriteSample(randPCM(rnd, 1+rnd.Intn(src/25))); err != nil {
				errs++
			}
		}
		return errs
	}
	out := newPCMSink(dst)
	switch kind {
	case "close", "close twice", "use after close":
		w := msdk.ResampleWriter(out, src)
		if write(w) != 0 {
			c.Fail("write", "write failed")
		}
		if err := w.Close(); err != nil {
			c.Fail("close", "%v", err)
		}
		n := out.count()
		switch kind {
		case "close twice":
			for k := 0; k < 3; k++ {
				_ = w.Close()
			}
		case "use after close":
			if err := w.WriteSample(randPCM(rnd, 500)); err == nil {
				c.Fail("write-after-close", "write succeeds after Close")
			}
			if rnd.Intn(2) == 0 {
				_ = w.Close()
			}
		}
		if out.count() != n {
			c.Fail("output-after-close", "destination got %d frames after Close", out.count()-n)
		}
		if out.closed != 1 {
			c.Fail("closed", "destination is closed %d times", out.closed)
		}
	case "abandon":
		_ = write(msdk.ResampleWriter(out, src))
	case "one-shot":
		for k := 0; k < 1+writes; k++ {
			_ = msdk.Resample(nil, dst, randPCM(rnd, rnd.Intn(2000)), src)
		}
	case "concurrent", "close vs close":
		w := msdk.ResampleWriter(out, src)
		var wg sync.WaitGroup
		var closed atomic.Bool
		for g := 0; g < 3; g++ {
			seed := rnd.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				for k := 0; k < 30; k++ {
					was := closed.Load()
					err := w.WriteSample(randPCM(rnd, 1+rnd.Intn(400)))
					if was && err == nil {
						c.Fail("write-after-close", "write succeeds after Close")
					}
				}
				if kind == "close vs close" {
					_ = w.Close()
				}
			}()
		}
		time.Sleep(time.Duration(rnd.Intn(300)) * time.Microsecond)
		_ = w.Close()
		closed.Store(true)
		wg.Wait()
		if out.after != 0 {
			c.Fail("output-after-close", "destination got %d frames after it was closed", out.after)
		}
	case "native failure":
		w := msdk.ResampleWriter(out, src)
		writes++
		native.SoxrFault(0, 1+rnd.Intn(writes))
		if write(w) != 1 {
			c.Fail("native-error", "error of the native call is not returned")
		}
		native.SoxrFault(0, 0)
		_ = w.Close()
	case "create failure":
		native.SoxrFault(1, 0)
		if v := kit.Panics(func() { _ = msdk.ResampleWriter(out, src) }); v == nil {
			c.Fail("create-error", "error of the native constructor is ignored")
		}
	case "switch":
		s := msdk.NewSwitchWriter(src)
		_ = s.Swap(out)
		_ = write(s)
		if old := s.Swap(newPCMSink(src)); old != nil {
			_ = old.Close()
		}
		_ = s.Close()
	case "gc pressure":
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			seed := rnd.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				for k := 0; k < 6; k++ {
					w := msdk.ResampleWriter(newPCMSink(dst), src)
					_ = w.WriteSample(randPCM(rnd, 1+rnd.Intn(3000)))
					if rnd.Intn(2) == 0 {
						runtime.GC()
					}
					_ = w.WriteSample(randPCM(rnd, 1+rnd.Intn(3000)))
					if rnd.Intn(2) == 0 {
						_ = w.Close()
					}
					_ = make([]byte, 1<<16)
				}
			}()
		}
		wg.Wait()
	}
}
