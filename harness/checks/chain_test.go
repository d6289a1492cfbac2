package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sync"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"

	"verif/harness/kit"
)

func init() {
	kit.Register("X03", kit.Check{
		Rule: "Random chains of 1-6 writers of all kinds (frames, resampler, fan-out, switch, codecs, RTP with mux and jitter buffer, pipe, file) that get a tone at the announced rate; what comes " +
			"out at the end and of each branch is analyzed, with failing destinations in some of them. Distinct: kinds and rates of the stages.",
		Floor: 150,
		Run:   checkChains,
	})
}

// chainFile is a file in memory.
type chainFile struct {
	data   []byte
	closed int
}

func (f *chainFile) Write(p []byte) (int, error) { f.data = append(f.data, p...); return len(p), nil }
func (f *chainFile) Close() error                { f.closed++; return nil }

// loopback passes RTP packets to a handler.
type loopback struct {
	h    rtp.Handler
	next uint16
	n    int
	gap  bool
}

func (l *loopback) String() string { return "loopback" }
func (l *loopback) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	if l.n++; l.n > 1 && h.SequenceNumber != l.next {
		l.gap = true
	}
	l.next = h.SequenceNumber + 1
	hdr := h.Clone()
	buf := append([]byte(nil), payload...)
	err := l.h.HandleRTP(&hdr, buf)
	clear(buf)
	if err != nil {
		return 0, err
	}
	return len(payload), nil
}

// endPoint is an end of a branch of a chain.
type endPoint struct {
	name  string
	rate  int
	all   func() msdk.PCM16Sample
	state func() (closed, after int)
}

// chain is built from the end.
type chain struct {
	c       *kit.C
	rnd     *rand.Rand
	desc    string
	key     string
	w       msdk.PCM16Writer // first writer
	rate    int              // its rate
	closers []func() error   // from the first writer to the last
	ends    []endPoint
	loops   []*loopback

	lag     time.Duration // could be missing at the end
	delay   time.Duration // of codecs
	noise   float64       // allowed part of the amplitude
	async   bool          // errors are reported later, or not at all
	partial bool          // a short frame at the end may be rejected
	opus    bool
}

var chainRates = []int{8000, 12000, 16000, 24000, 32000, 44100, 48000}

func (b *chain) add(desc string, w msdk.PCM16Writer, rate int) {
	if w == nil {
		b.c.Fail("nil", "%s: no writer", desc)
		return
	}
	b.desc = desc + " > " + b.desc
	if got := w.SampleRate(); got != rate {
		b.c.Fail("rate", "%s: announced rate is %d, expected %d", b.desc, got, rate)
	}
	if w.String() == "" {
		b.c.Fail("string", "%s: no description", b.desc)
	}
	b.w, b.rate = w, rate
}

// detach remembers to close the current writer, since the next stage won't do it.
func (b *chain) detach() {
	w := b.w
	b.closers = append([]func() error{w.Close}, b.closers...)
}

func (b *chain) sink(name string) *pcmSink {
	s := newPCMSink(b.rate)
	b.ends = append(b.ends, endPoint{name: name, rate: b.rate, all: s.all, state: func() (int, int) {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.closed, s.after
	}})
	return s
}

func (b *chain) resample(rate int) {
	if rate != b.rate {
		b.add(fmt.Sprintf("resample(%d)", rate), msdk.ResampleWriter(b.w, rate), rate)
	}
}

func (b *chain) frames(n int) {
	b.add(fmt.Sprintf("frames(%d)", n), msdk.FullFrames(b.w, n), b.rate)
}

func (b *chain) stage() {
	c, rnd := b.c, b.rnd
	switch rnd.Intn(13) {
	case 0:
		b.frames([]int{1 + rnd.Intn(2000), b.rate / 50, b.rate / 100, 1}[rnd.Intn(4)])
	case 1, 2:
		b.resample(chainRates[rnd.Intn(len(chainRates))])
	case 3:
		b.detach()
		b.add("nop", msdk.NopCloser[msdk.PCM16Sample](b.w), b.rate)
	case 4:
		rate := chainRates[rnd.Intn(len(chainRates))]
		s := msdk.NewSwitchWriter(rate)
		if rnd.Intn(2) == 0 {
			s = msdk.NewSwitchWriter(-1)
			s.SetSampleRate(rate)
		}
		if old := s.Swap(b.w); old != nil {
			c.Fail("swap", "%s: a new switch returned %v", b.desc, old)
		}
		b.add(fmt.Sprintf("switch(%d)", rate), s, rate)
	case 5:
		ws := msdk.MultiWriter[msdk.PCM16Sample]{b.w, b.sink("branch")}
		if rnd.Intn(2) == 0 {
			ws[0], ws[1] = ws[1], ws[0]
		}
		b.add("multi", ws, b.rate)
	case 6:
		f := &chainFile{}
		ws := msdk.MultiWriter[msdk.PCM16Sample]{b.w, msdk.NewFileWriter[msdk.PCM16Sample](f, b.rate)}
		b.ends = append(b.ends, endPoint{name: "file", rate: b.rate, all: func() msdk.PCM16Sample {
			out := make(msdk.PCM16Sample, len(f.data)/2)
			for i := range out {
				out[i] = int16(uint16(f.data[2*i]) | uint16(f.data[2*i+1])<<8)
			}
			return out
		}, state: func() (int, int) { return f.closed, 0 }})
		b.add("multi+file", ws, b.rate)
	case 7:
		if rnd.Intn(2) == 0 {
			b.add("ulaw", g711.EncodeULaw(g711.DecodeULaw(b.w)), 8000)
		} else {
			b.add("alaw", g711.EncodeALaw(g711.DecodeALaw(b.w)), 8000)
		}
		b.noise += 0.03
	case 8:
		rate := 16000
		if b.rate == 8000 {
			rate = 8000
		}
		b.add("g722", g722.Encode(g722.Decode(b.w)), rate)
		b.delay += 6 * time.Millisecond
		b.noise += 0.06
	case 9:
		if b.noise >= 0.3 {
			return // quality of more than one isn't known
		}
		if !validOpus(b.rate) {
			b.resample(opusRates[rnd.Intn(len(opusRates))])
		}
		dec, err := opus.Decode(b.w, 1, logger.GetLogger())
		if err != nil {
			c.Fail("opus", "%v", err)
			return
		}
		enc, err := opus.Encode(dec, 1, logger.GetLogger())
		if err != nil {
			c.Fail("opus", "%v", err)
			return
		}
		b.add("opus", enc, b.rate)
		b.frames(b.rate / 50)
		b.opus = true
		b.delay += 10 * time.Millisecond
		b.noise += 0.3
	case 10, 11:
		name := []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}[rnd.Intn(3)]
		codec := sdp.CodecByName(name).(rtp.AudioCodec)
		info := codec.Info()
		b.detach()
		if b.rate != info.SampleRate {
			// The resampler inside of the handler is never closed.
			b.lag += 120 * time.Millisecond
			b.partial = b.partial || b.opus // the last frame is incomplete
		}
		var h rtp.Handler = codec.DecodeRTP(b.w, info.RTPDefType)
		desc := "rtp(" + name
		if rnd.Intn(2) == 0 {
			mux := rtp.NewMux(nil)
			mux.Register(info.RTPDefType, h)
			h = mux
			desc += ",mux"
		}
		if rnd.Intn(2) == 0 {
			jh := rtp.HandleJitter(rtp.NewNopCloser(h))
			b.closers = append([]func() error{func() error { jh.Close(); return nil }}, b.closers...)
			h = jh
			desc += ",jitter"
		}
		l := &loopback{h: h}
		b.loops = append(b.loops, l)
		b.add(desc+")", codec.EncodeRTP(rtp.NewSeqWriter(l).NewStream(info.RTPDefType, info.RTPClockRate)), info.SampleRate)
		b.frames(b.rate / 50) // packets are limited, and so is the lag
		if name == g722.SDPName {
			b.delay += 6 * time.Millisecond
			b.noise += 0.06
		} else {
			b.noise += 0.03
		}
	case 12:
		r, w := msdk.Pipe[msdk.PCM16Sample, int16](b.rate)
		dst := b.w
		b.detach()
		size := 1 + rnd.Intn(3000)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				buf := make(msdk.PCM16Sample, size)
				n, err := r.ReadSample(buf)
				if n > 0 {
					if err := dst.WriteSample(buf[:n]); err != nil {
						_ = r.CloseWithError(err)
						return
					}
				}
				if err != nil {
					if err != io.EOF {
						c.Fail("pipe", "read: %v", err)
					}
					return
				}
			}
		}()
		b.closers = append([]func() error{func() error { wg.Wait(); return nil }}, b.closers...)
		b.async = true
		b.add(fmt.Sprintf("pipe(%d)", size), w, b.rate)
	}
}

func validOpus(rate int) bool {
	for _, r := range opusRates {
		if r == rate {
			return true
		}
	}
	return false
}

// chainTone returns an amplitude of the tone, and of the rest of the signal.
func chainTone(s msdk.PCM16Sample, rate int, freq float64) (amp, rest float64) {
	var ss, cc, sc, ys, yc float64
	for i, v := range s {
		sn, cs := math.Sincos(2 * math.Pi * freq * float64(i) / float64(rate))
		ss += sn * sn
		cc += cs * cs
		sc += sn * cs
		ys += float64(v) * sn
		yc += float64(v) * cs
	}
	det := ss*cc - sc*sc
	if len(s) == 0 || det == 0 {
		return 0, 0
	}
	a, q := (ys*cc-yc*sc)/det, (yc*ss-ys*sc)/det
	var sum float64
	for i, v := range s {
		sn, cs := math.Sincos(2 * math.Pi * freq * float64(i) / float64(rate))
		d := float64(v) - a*sn - q*cs
		sum += d * d
	}
	return math.Hypot(a, q), math.Sqrt(2 * sum / float64(len(s)))
}

func checkChains(c *kit.C) {
	for i := 0; i < c.N(1500, 20000); i++ {
		runChain(c, c.Rand("chain", i), i)
	}
}

func runChain(c *kit.C, rnd *rand.Rand, i int) {
	b := &chain{c: c, rnd: rnd, rate: chainRates[rnd.Intn(len(chainRates))], noise: 0.02}
	s := b.sink("end")
	b.desc = s.String()
	b.w = s
	for k := 1 + rnd.Intn(6); k > 0; k-- {
		b.stage()
	}
	fail := error(nil)
	failFrom, failCall, call := -1, -1, 0
	freq := 300 + rnd.Float64()*1200
	amp := 3000 + rnd.Float64()*15000
	total := b.rate / 50 * (15 + rnd.Intn(30))
	if rnd.Intn(4) == 0 {
		fail = someError(rnd, "injected")
		failFrom = rnd.Intn(10)
		s.hook = func(k int, _ msdk.PCM16Sample) error {
			if k < failFrom {
				return nil
			}
			if failCall < 0 {
				failCall = call
			}
			return fail
		}
		if b.async {
			s.hook = nil // the call is in another goroutine
			fail = nil
		}
	}
	c.Eval("chain %d: %s, %.0f Hz, %d samples, fails from %d", i, b.desc, freq, total, failFrom)
	if w := b.w.String(); w == "" {
		c.Fail("string", "no description of %s", b.desc)
	}
	var errs []error
	for at := 0; at < total; call++ {
		n := b.rate / 50
		switch rnd.Intn(4) {
		case 0:
			n = 1 + rnd.Intn(2*n)
		case 1:
			n = 1 + rnd.Intn(n)
		}
		n = min(n, total-at)
		f := make(msdk.PCM16Sample, n)
		for k := range f {
			f[k] = int16(math.Round(amp * math.Sin(2*math.Pi*freq*float64(at+k)/float64(b.rate))))
		}
		keep := append(msdk.PCM16Sample(nil), f...)
		if err := b.w.WriteSample(f); err != nil {
			errs = append(errs, err)
		}
		if !equal(keep, f) {
			c.Fail("modified", "%s: a frame is modified by the write", b.desc)
		}
		for k := range f {
			f[k] = -0x7000
		}
		at += n
	}
	calls := call
	b.detach() // close the first one, too
	for _, fnc := range b.closers {
		call++
		if err := fnc(); err != nil && !b.partial {
			errs = append(errs, err)
		}
	}
	if fail == nil {
		for _, err := range errs {
			c.Fail("error", "%s: %v", b.desc, err)
			break
		}
	} else {
		found := 0
		for _, err := range errs {
			if errors.Is(err, fail) {
				found++
			} else if !b.partial && len(b.loops) == 0 { // a failed packet has the number of the next one, which is late then
				c.Fail("other-error", "%s: %v", b.desc, err)
			}
		}
		if found == 0 && failCall >= 0 && failCall < calls {
			c.Fail("error-lost", "%s: an error of the destination in write %d of %d isn't returned", b.desc, failCall, calls)
		}
	}
	for _, l := range b.loops {
		if l.gap && fail == nil {
			c.Fail("sequence", "%s: gaps of sequence numbers", b.desc)
		}
	}
	dur := float64(total) / float64(b.rate)
	for k, e := range b.ends {
		closed, after := e.state()
		if closed != 1 {
			c.Fail("closed", "%s: %s %d is closed %d times", b.desc, e.name, k, closed)
		}
		if after != 0 {
			c.Fail("after", "%s: %d writes to %s %d after it is closed", b.desc, after, e.name, k)
		}
		if fail != nil {
			continue // following stages could stop
		}
		out := e.all()
		got := float64(len(out)) / float64(e.rate)
		slack := 8 / float64(e.rate)
		low := dur - slack - b.lag.Seconds()
		if b.partial {
			low -= 0.02
		}
		if got > dur+slack+b.delay.Seconds() || got < low {
			c.Fail("duration", "%s: %s %d got %d samples, %.4f s instead of %.4f s", b.desc, e.name, k, len(out), got, dur)
			continue
		}
		skip := e.rate / 20
		if len(out) < 3*skip {
			continue
		}
		part := out[skip : len(out)-skip]
		a, rest := chainTone(part, e.rate, freq)
		if d := math.Abs(a-amp) / amp; d > 0.04+b.noise {
			c.Fail("level", "%s: tone of %.0f Hz at %s %d has amplitude %.0f instead of %.0f", b.desc, freq, e.name, k, a, amp)
		} else if rest > amp*b.noise+50 {
			c.Fail("noise", "%s: tone of %.0f Hz with amplitude %.0f at %s %d has noise of %.0f (limit %.0f)", b.desc, freq, amp, e.name, k, rest, amp*b.noise+50)
		}
		c.Count("ends analyzed", 1)
	}
	c.Count("packets", func() (n int) {
		for _, l := range b.loops {
			n += l.n
		}
		return
	}())
	c.Count("stages", len(b.ends))
	c.Distinct(b.desc)
}
