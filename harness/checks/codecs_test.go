package checks

import (
	"fmt"
	"math"
	"math/rand"
	"slices"
	"strings"

	"github.com/go-logr/logr"
	xg722 "github.com/gotranspile/g722"
	hopus "gopkg.in/hraban/opus.v2"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"

	"verif/harness/kit"
)

func init() {
	kit.Register("C01", kit.Check{
		Rule: "All 65536 samples and all 256 codes of both laws against the formulas of the standard, then random streams of frames through the encoder and decoder " +
			"writers with failing destinations and other sample rates. Distinct: codes and samples, (law, frame sizes).",
		Floor: 300,
		Run:   checkG711,
	})
	kit.Register("C02", kit.Check{
		Rule: "Random signals in random splits to frames (even, odd, empty) at 8 and 16 kHz, compared with a single run of the reference codec over the whole stream; " +
			"interleaved and concurrent streams; tones must survive the round trip. Distinct: (rate, frame sizes).",
		Floor: 200,
		Run:   checkG722,
	})
	kit.Register("C03", kit.Check{
		Rule: "Random sequences of valid packets (all durations, mono and stereo, switching in the middle), corrupt and random packets, for each rate and channel count; " +
			"compared with the reference decoder. Distinct: (rate, channels, sequence of packet kinds).",
		Floor: 150,
		Run:   checkOpus,
	})
	kit.Register("C04", kit.Check{
		Rule: "Random sequences of registrations, enabling and disabling by names in any case, and lookups, compared with a model of the registry. " +
			"Distinct: sequences of operations.",
		Floor: 200,
		Run:   checkRegistry,
	})
}

// Formulas of G.711, as published. Output is scaled to 16 bits.
func refULaw(c byte) int {
	c = ^c
	sign, exp, man := c&0x80, int(c>>4)&7, int(c&15)
	v := ((man<<3)+0x84)<<exp - 0x84
	if sign != 0 {
		return -v
	}
	return v
}

func refALaw(c byte) int {
	c ^= 0x55
	sign, exp, man := c&0x80, int(c>>4)&7, int(c&15)
	v := man<<4 + 8
	if exp > 0 {
		v = (v + 0x100) << (exp - 1)
	}
	if sign == 0 {
		return -v
	}
	return v
}

// lawCodec wraps a law, which have different types in the API.
type lawCodec struct {
	name    string
	ref     func(c byte) int
	enc     func(out []byte, in []int16)
	dec     func(out []int16, in []byte)
	encS    func(in msdk.PCM16Sample) []byte
	decS    func(in []byte) msdk.PCM16Sample
	encoder func(s *sink[byteSample, byte]) msdk.PCM16Writer
	decoder func(w msdk.PCM16Writer) msdk.WriteCloser[byteSample]
}

// castWriter adapts a writer of one bytes type to another.
type castWriter[A, B ~[]byte] struct{ w msdk.WriteCloser[A] }

func (c castWriter[A, B]) String() string        { return c.w.String() }
func (c castWriter[A, B]) SampleRate() int       { return c.w.SampleRate() }
func (c castWriter[A, B]) Close() error          { return c.w.Close() }
func (c castWriter[A, B]) WriteSample(v B) error { return c.w.WriteSample(A(v)) }

func laws() []lawCodec {
	return []lawCodec{
		{
			"ulaw", refULaw, g711.EncodeULawTo, g711.DecodeULawTo,
			func(in msdk.PCM16Sample) []byte { var s g711.ULawSample; s.Encode(in); return s },
			func(in []byte) msdk.PCM16Sample { return g711.ULawSample(in).Decode() },
			func(s *sink[byteSample, byte]) msdk.PCM16Writer {
				return g711.EncodeULaw(castWriter[byteSample, g711.ULawSample]{s})
			},
			func(w msdk.PCM16Writer) msdk.WriteCloser[byteSample] {
				return castWriter[g711.ULawSample, byteSample]{g711.DecodeULaw(w)}
			},
		},
		{
			"alaw", refALaw, g711.EncodeALawTo, g711.DecodeALawTo,
			func(in msdk.PCM16Sample) []byte { var s g711.ALawSample; s.Encode(in); return s },
			func(in []byte) msdk.PCM16Sample { return g711.ALawSample(in).Decode() },
			func(s *sink[byteSample, byte]) msdk.PCM16Writer {
				return g711.EncodeALaw(castWriter[byteSample, g711.ALawSample]{s})
			},
			func(w msdk.PCM16Writer) msdk.WriteCloser[byteSample] {
				return castWriter[g711.ALawSample, byteSample]{g711.DecodeALaw(w)}
			},
		},
	}
}

func abs[T int | int16](v T) T {
	if v < 0 {
		return -v
	}
	return v
}

func checkG711(c *kit.C) {
	for _, l := range laws() {
		c.Eval("%s decode", l.name)
		codes := make([]byte, 256)
		for i := range codes {
			codes[i] = byte(i)
		}
		lin := make([]int16, 256)
		l.dec(lin, codes)
		for i, v := range lin {
			if int(v) != l.ref(byte(i)) {
				c.Fail(l.name+"-decode", "code %#x decodes to %d, expected %d", i, v, l.ref(byte(i)))
			}
			c.Distinct(l.name, "code", i)
		}
		c.Eval("%s encode", l.name)
		all := make([]int16, 65536)
		for i := range all {
			all[i] = int16(i - 32768)
		}
		enc := make([]byte, 65536)
		l.enc(enc, all)
		prev := math.MinInt32
		worst := 0
		for i, v := range all {
			// The nearest level, within the 14 bit precision of the input.
			d := l.ref(enc[i])
			best := math.MaxInt32
			for k := 0; k < 256; k++ {
				best = min(best, abs(int(v)-l.ref(byte(k))))
			}
			e := abs(int(v) - d)
			worst = max(worst, e-best)
			if e-best > 8 {
				c.Fail(l.name+"-encode", "%d encodes to %#x, which is %d, error %d; the best is %d", v, enc[i], d, e, best)
			}
			if d < prev {
				c.Fail(l.name+"-monotonic", "%d encodes to %#x, which is %d, but the previous one is %d", v, enc[i], d, prev)
			}
			prev = d
			if i%16 == 0 {
				c.Distinct(l.name, "lin", v)
			}
		}
		c.Max(l.name+"_excess_error", worst)
		// Transcoding is stable: a decoded signal isn't changed by further round trips.
		back := make([]byte, 256)
		l.enc(back, lin)
		for i, b := range back {
			if l.ref(b) != l.ref(byte(i)) {
				c.Fail(l.name+"-stable", "code %#x becomes %#x after a round trip (%d -> %d)", i, b, l.ref(byte(i)), l.ref(b))
			}
		}
		c.Sample(l.name, "%d samples, %d codes; max error above the optimum %d", len(all), len(codes), worst)

		for i := 0; i < c.N(400, 8000); i++ {
			rnd := c.Rand(l.name, i)
			errInjected := someError(rnd, "injected")
			rate := 8000
			if rnd.Intn(4) == 0 {
				rate = allRates[rnd.Intn(len(allRates))]
			}
			fail := -1
			if rnd.Intn(3) == 0 && rate == 8000 {
				fail = rnd.Intn(10)
			}
			c.Eval("%s stream %d: rate %d, error %d", l.name, i, rate, fail)
			hook := func(k int) error {
				if k == fail {
					return errInjected
				}
				return nil
			}
			es := newSink[byteSample, byte](8000)
			es.hook = func(k int, _ byteSample) error { return hook(k) }
			ds := newPCMSink(rate)
			ds.hook = func(k int, _ msdk.PCM16Sample) error { return hook(k) }
			ew, dw := l.encoder(es), l.decoder(ds)
			if ew.SampleRate() != 8000 || dw.SampleRate() != 8000 {
				c.Fail(l.name+"-rate", "encoder accepts %d, decoder accepts %d", ew.SampleRate(), dw.SampleRate())
			}
			var total msdk.PCM16Sample
			var sizes []int
			var kept []func() bool // results that the caller keeps must not change later
			for k := 0; k < 10; k++ {
				in := randPCM(rnd, rnd.Intn([]int{2, 170, 400}[rnd.Intn(3)]))
				if i%20 == 7 {
					in = randPCM(rnd, rnd.Intn(20000))
				}
				sizes = append(sizes, len(in))
				exp := make([]byte, len(in))
				for j, v := range in {
					exp[j] = enc[int(v)+32768]
				}
				expLin := make(msdk.PCM16Sample, len(in))
				for j, b := range exp {
					expLin[j] = lin[b]
				}
				gotS, gotL := l.encS(in), l.decS(exp)
				if !equal(gotS, exp) {
					c.Fail(l.name+"-sample", "encoded frame differs")
				}
				if !equal(gotL, expLin) {
					c.Fail(l.name+"-sample", "decoded frame differs")
				}
				kept = append(kept, func() bool { return equal(gotS, exp) && equal(gotL, expLin) })
				given := slices.Clone(in)
				err, want := ew.WriteSample(given), hook(k)
				if !equal(given, in) {
					c.Fail(l.name+"-input", "encoder changed its input of %d samples", len(in))
				}
				if err != want {
					c.Fail(l.name+"-error", "write %d returned %v, destination %v", k, err, want)
				}
				if es.count() != k+1 || !equal([]byte(es.recs[k].copy), exp) {
					c.Fail(l.name+"-frame", "frame %d of %d samples is encoded incorrectly", k, len(in))
				}
				cp := append(byteSample{}, exp...)
				err = dw.WriteSample(cp)
				if !equal([]byte(cp), exp) {
					c.Fail(l.name+"-input", "decoder changed its input")
				}
				total = append(total, expLin...)
				if rate == 8000 {
					if err != want {
						c.Fail(l.name+"-error", "write %d returned %v, destination %v", k, err, want)
					}
					if ds.count() != k+1 || !equal(ds.recs[k].copy, expLin) {
						c.Fail(l.name+"-frame", "frame %d of %d codes is decoded incorrectly", k, len(exp))
					}
				} else if err != nil {
					c.Fail(l.name+"-resample", "%v", err)
				}
			}
			for k, same := range kept {
				if !same() {
					c.Fail(l.name+"-kept", "the result of frame %d was changed by later calls", k)
				}
			}
			closeInto(c, rnd, l.name+"-close", ew, es)
			closeInto(c, rnd, l.name+"-close", dw, ds)
			if rate != 8000 {
				if k := farDiff(ds.all(), msdk.Resample(nil, rate, total, 8000), 2); k >= 0 {
					c.Fail(l.name+"-resample", "decoding to %d differs from resampled audio at %d", rate, k)
				}
			}
			c.Count("frames", 20)
			c.Distinct(l.name, rate, fail, sizes)
		}
		// Encoders only accept the rate of the codec.
		c.Eval("%s encoder rate", l.name)
		if kit.Panics(func() { l.encoder(newSink[byteSample, byte](16000)) }) == nil {
			c.Fail(l.name+"-encoder-rate", "encoder to 16000 is created")
		}
	}
}

func checkG722(c *kit.C) {
	type stream struct {
		rate  int
		flags xg722.Flags
		in    msdk.PCM16Sample
		left  msdk.PCM16Sample
		sizes []int
		es    *sink[g722.Sample, byte]
		ew    msdk.PCM16Writer
		ds    *pcmSink
		dw    g722.Writer
		n     int // encoded frames fed to the decoder

		encErr, decErr func(sig string, before int, err error)
	}
	for i := 0; i < c.N(350, 8000); i++ {
		rnd := c.Rand("g722", i)
		c.Eval("g722 %d", i)
		var streams []*stream
		for k := 0; k < 1+rnd.Intn(3); k++ {
			s := &stream{rate: 16000}
			if rnd.Intn(3) == 0 {
				s.rate, s.flags = 8000, xg722.FlagSampleRate8000
			}
			s.in = randPCM(rnd, 1+rnd.Intn(6000))
			if i%20 == 0 {
				s.in = randPCM(rnd, 20000+rnd.Intn(50000))
			}
			if rnd.Intn(2) == 0 {
				f, a := 200+float64(rnd.Intn(2800)), float64(1000+rnd.Intn(20000))
				for j := range s.in {
					s.in[j] = int16(a * math.Sin(2*math.Pi*f*float64(j)/float64(s.rate)))
				}
			}
			s.left = s.in
			s.es = newSink[g722.Sample, byte](s.rate)
			s.ew = g722.Encode(s.es)
			s.ds = newPCMSink(s.rate)
			s.dw = g722.Decode(s.ds)
			if s.ew.SampleRate() != s.rate || s.dw.SampleRate() != s.rate {
				c.Fail("rate", "encoder accepts %d, decoder accepts %d, expected %d", s.ew.SampleRate(), s.dw.SampleRate(), s.rate)
			}
			fail := []int{0, 0, 20, 100}[rnd.Intn(4)]
			s.encErr, s.decErr = s.es.failAt(c, rnd, fail), s.ds.failAt(c, rnd, fail)
			streams = append(streams, s)
		}
		odd := rnd.Intn(3) == 0
		maxSz := []int{3, 50, 320, 1000}[rnd.Intn(4)]
		if i%20 == 0 {
			maxSz = []int{20000, 70000}[rnd.Intn(2)]
		}
		// Interleave the streams: they must not affect each other.
		for busy := true; busy; {
			busy = false
			for _, s := range streams {
				if len(s.left) == 0 {
					continue
				}
				busy = true
				n := rnd.Intn(maxSz + 1)
				if !odd {
					n = (n + 1) &^ 1
				}
				n = min(n, len(s.left))
				cnt := s.es.count()
				s.encErr("write", cnt, s.ew.WriteSample(s.left[:n:n]))
				s.sizes = append(s.sizes, n)
				s.left = s.left[n:]
				for ; s.n < len(s.es.recs); s.n++ {
					cnt := s.ds.count()
					s.decErr("decode", cnt, s.dw.WriteSample(s.es.recs[s.n].copy))
				}
			}
		}
		for _, s := range streams {
			closeInto(c, rnd, "close", s.ew, s.es)
			closeInto(c, rnd, "close", s.dw, s.ds)
			div := 2
			if s.rate == 8000 {
				div = 1
			}
			src := s.in[:len(s.in)/div*div]
			exp := make([]byte, len(src)/div+1)
			exp = exp[:xg722.NewEncoder(xg722.Rate64000, s.flags).Encode(exp, src)]
			got := s.es.all()
			if !equal([]byte(got), exp) {
				c.Fail("encoded", "stream of %d samples at %d in frames of %v: %d bytes, expected %d; differs at %d", len(s.in), s.rate, s.sizes[:min(20, len(s.sizes))], len(got), len(exp), firstDiff([]byte(got), exp))
			}
			expPCM := make([]int16, len(exp)*div)
			expPCM = expPCM[:xg722.NewDecoder(xg722.Rate64000, s.flags).Decode(expPCM, exp)]
			pcm := s.ds.all()
			if !equal(pcm, expPCM) || len(pcm) != len(src) {
				c.Fail("decoded", "stream of %d bytes at %d: %d samples, expected %d; differs at %d", len(exp), s.rate, len(pcm), len(src), firstDiff(pcm, expPCM))
			}
			for k, r := range s.es.recs {
				if k < len(s.ds.recs) && len(s.ds.recs[k].copy) != len(r.copy)*div {
					c.Fail("frame", "frame %d of %d bytes is decoded to %d samples", k, len(r.copy), len(s.ds.recs[k].copy))
				}
			}
			c.Count("samples", len(s.in))
			c.Distinct(s.rate, s.sizes)
			c.Sample(fmt.Sprint(s.rate, odd), "rate %d: %d samples in %d frames (odd sizes: %v) -> %d bytes", s.rate, len(s.in), len(s.sizes), odd, len(got))
		}
	}
	// Round trip of tones.
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("tone", i)
		rate := []int{8000, 16000}[i%2]
		f := 150 + rnd.Float64()*(float64(rate)*0.2)
		a := 500 + rnd.Float64()*20000
		c.Eval("g722 tone %d: rate %d, %.0f Hz", i, rate, f)
		var pcm msdk.PCM16Sample
		ds := msdk.NewPCM16BufferWriter(&pcm, rate)
		var dw msdk.WriteCloser[g722.Sample] = g722.Decode(ds)
		w := g722.Encode(dw)
		n := rate / 2
		in := make(msdk.PCM16Sample, n)
		for k := range in {
			in[k] = int16(a * math.Sin(2*math.Pi*f*float64(k)/float64(rate)))
		}
		for k := 0; k < n; k += rate / 50 {
			_ = w.WriteSample(in[k : k+rate/50])
		}
		_ = w.Close()
		if len(pcm) != n {
			c.Fail("tone-size", "%d samples, expected %d", len(pcm), n)
			continue
		}
		snr := fitTone(pcm[n/4:], f/float64(rate), a)
		if snr < 15 {
			c.Fail("tone", "tone of %.0f Hz (amplitude %.0f) at %d: SNR %.1f dB after the round trip", f, a, rate, snr)
		}
		c.Distinct("tone", rate, int(f))
	}
	// Other rates are resampled.
	for i := 0; i < c.N(30, 300); i++ {
		rnd := c.Rand("rates", i)
		rate := allRates[rnd.Intn(len(allRates))]
		if rate == 8000 {
			continue
		}
		c.Eval("g722 rates %d: %d", i, rate)
		ds := newPCMSink(rate)
		dw := g722.Decode(ds)
		if dw.SampleRate() != 16000 {
			c.Fail("rates", "decoder to %d expects %d", rate, dw.SampleRate())
		}
		data := make(g722.Sample, 160*10)
		rnd.Read(data)
		for k := 0; k < len(data); k += 160 {
			_ = dw.WriteSample(data[k : k+160])
		}
		_ = dw.Close()
		exp := make(msdk.PCM16Sample, 2*len(data))
		exp = exp[:xg722.NewDecoder(xg722.Rate64000, 0).Decode(exp, data)]
		if k := farDiff(ds.all(), msdk.Resample(nil, rate, exp, 16000), 2); k >= 0 {
			c.Fail("rates", "decoding to %d differs from resampled audio at %d", rate, k)
		}
		c.Distinct("rates", rate, i)
	}
	c.Eval("g722 encoder rate")
	if kit.Panics(func() { g722.Encode(newSink[g722.Sample, byte](48000)) }) == nil {
		c.Fail("encoder-rate", "encoder to 48000 is created")
	}
}

// fitTone returns SNR of a tone with a given relative frequency, for any phase.
func fitTone(s msdk.PCM16Sample, f, amp float64) float64 {
	var a, b float64
	n := float64(len(s))
	for k, v := range s {
		ph := 2 * math.Pi * f * float64(k)
		a += float64(v) * math.Sin(ph) * 2 / n
		b += float64(v) * math.Cos(ph) * 2 / n
	}
	var e float64
	for k, v := range s {
		ph := 2 * math.Pi * f * float64(k)
		d := float64(v) - a*math.Sin(ph) - b*math.Cos(ph)
		e += d * d
	}
	got := math.Hypot(a, b)
	if got < amp/2 || got > amp*1.5 {
		return -100
	}
	return 10 * math.Log10(got*got/2/(e/n+1e-9))
}

var opusRates = []int{8000, 12000, 16000, 24000, 48000}

// opusPacket is a packet with a known duration at 48 kHz.
type opusPacket struct {
	kind string
	data []byte
	ch   int
	dur  int // in samples at 48 kHz; 0 for corrupt
}

// opusTOC is a duration of a frame in the packet at 48 kHz.
func opusTOC(toc byte) int {
	cfg := int(toc >> 3)
	switch {
	case cfg < 12:
		return []int{480, 960, 1920, 2880}[cfg&3]
	case cfg < 16:
		return []int{480, 960}[cfg&1]
	default:
		return []int{120, 240, 480, 960}[cfg&3]
	}
}

func checkOpus(c *kit.C) {
	log := logger.LogRLogger(logr.Discard())
	// Encoders are reused: the state of encoder only affects the data.
	type encKey struct{ rate, ch, durUS int }
	encs := make(map[encKey]*hopus.Encoder)
	encode := func(rnd *rand.Rand, ch, dur int) []byte {
		rate := opusRates[rnd.Intn(len(opusRates))]
		k := encKey{rate, ch, 0}
		e := encs[k]
		if e == nil {
			var err error
			e, err = hopus.NewEncoder(rate, ch, hopus.AppVoIP)
			if err != nil {
				c.T.Fatal(err)
			}
			encs[k] = e
		}
		n := dur * rate / 48000
		pcm := make([]int16, n*ch)
		f := 100 + float64(rnd.Intn(1000))
		for j := range pcm {
			pcm[j] = int16(8000*math.Sin(2*math.Pi*f*float64(j/ch)/float64(rate))) + int16(rnd.Intn(200))
		}
		buf := make([]byte, 4000)
		m, err := e.Encode(pcm, buf)
		if err != nil {
			c.T.Fatal(err)
		}
		return buf[:m]
	}
	// concat makes longer packets of several frames (code 3).
	long := func(rnd *rand.Rand, ch int) ([]byte, int) {
		p := encode(rnd, ch, 960)
		if p[0]&3 != 0 {
			return p, 960
		}
		n := 2 + rnd.Intn(5)
		d := opusTOC(p[0])
		for n*d > 5760 {
			n--
		}
		// VBR with the same frame repeated.
		out := []byte{p[0] | 3, byte(n) | 0x80}
		body := p[1:]
		for k := 0; k < n-1; k++ {
			if len(body) < 252 {
				out = append(out, byte(len(body)))
			} else {
				x := len(body) - 252
				out = append(out, byte(252+x%4), byte(x/4))
			}
		}
		for k := 0; k < n; k++ {
			out = append(out, body...)
		}
		return out, n * d
	}
	gen := func(rnd *rand.Rand, ch int) opusPacket {
		switch rnd.Intn(12) {
		case 0, 1, 2, 3, 4:
			d := []int{120, 240, 480, 960, 960, 960, 1920, 2880}[rnd.Intn(8)]
			return opusPacket{"frame" + fmt.Sprint(d), encode(rnd, ch, d), ch, d}
		case 5, 6:
			data, d := long(rnd, ch)
			return opusPacket{"long" + fmt.Sprint(d), data, ch, d}
		case 7, 8:
			toc := byte(rnd.Intn(64)) << 2
			if ch == 2 {
				toc |= 4
			} else {
				toc &^= 4
			}
			// No frames in a packet with a count, or the count is too large.
			if rnd.Intn(2) == 0 {
				return opusPacket{"corrupt", []byte{toc | 3}, ch, 0}
			}
			return opusPacket{"corrupt", []byte{toc | 3, 0}, ch, 0}
		case 9:
			return opusPacket{"empty", nil, ch, 0}
		case 10:
			// Only a header: concealment of lost audio.
			toc := byte(rnd.Intn(32))<<3 | byte(ch-1)<<2
			return opusPacket{"dtx", []byte{toc}, ch, opusTOC(toc)}
		default:
			data := make([]byte, 1+rnd.Intn(60))
			rnd.Read(data)
			data[0] = data[0]&^4 | byte(ch-1)<<2
			return opusPacket{"random", data, ch, -1}
		}
	}
	for i := 0; i < c.N(450, 8000); i++ {
		rnd := c.Rand("opus", i)
		errInjected := someError(rnd, "injected")
		rate := opusRates[rnd.Intn(len(opusRates))]
		target := 1 + rnd.Intn(2)
		mode := rnd.Intn(4)
		c.Eval("opus %d: rate %d, channels %d, mode %d", i, rate, target, mode)
		out := newPCMSink(rate)
		failAt := -1
		if rnd.Intn(4) == 0 {
			failAt = rnd.Intn(6)
		}
		out.hook = func(k int, _ msdk.PCM16Sample) error {
			if k == failAt {
				return errInjected
			}
			return nil
		}
		w, err := opus.Decode(out, target, log)
		if err != nil {
			c.Fail("decoder", "%v", err)
			continue
		}
		if w.SampleRate() != rate {
			c.Fail("rate", "decoder rate is %d", w.SampleRate())
		}
		var ref *hopus.Decoder
		refCh, bad := 0, 0
		var hist []string
		ch := 1 + rnd.Intn(2)
		for k := 0; k < 25; k++ {
			if mode > 0 && rnd.Intn(6) == 0 {
				ch = 3 - ch
			}
			p := gen(rnd, ch)
			// An encoder may code stereo as mono.
			fix := func() {
				if len(p.data) != 0 {
					p.ch = 1 + int(p.data[0]>>2&1)
				}
			}
			fix()
			if mode == 2 && rnd.Intn(2) == 0 {
				for p.kind != "corrupt" {
					p = gen(rnd, ch)
				}
				fix()
			}
			if mode == 3 && (p.kind == "random" || p.kind == "corrupt") {
				continue
			}
			hist = append(hist, fmt.Sprint(p.kind, "/", p.ch))
			if len(p.data) != 0 && (ref == nil || refCh != p.ch) {
				ref, err = hopus.NewDecoder(rate, p.ch)
				if err != nil {
					c.T.Fatal(err)
				}
				refCh = p.ch
			}
			var exp msdk.PCM16Sample
			var refErr error
			if len(p.data) != 0 {
				buf := make([]int16, rate*120/1000*p.ch)
				n, err := ref.Decode(p.data, buf)
				refErr = err
				if err == nil {
					exp = conv(buf[:n*p.ch], p.ch, target)
				}
			}
			cnt := out.count()
			in := append(opus.Sample{}, p.data...)
			if rnd.Intn(2) == 0 {
				in = in[:len(in):len(in)]
			}
			err := w.WriteSample(in)
			if !equal(in, p.data) {
				c.Fail("input", "decoder changed its input")
			}
			got := out.count() - cnt
			switch {
			case len(p.data) == 0:
				if err != nil || got != 0 {
					c.Fail("empty", "empty packet: %v, %d frames", err, got)
				}
			case refErr != nil:
				// Only a few of consecutive corrupt packets are tolerated.
				if got != 0 {
					c.Fail("corrupt-output", "corrupt packet produced audio")
				}
				if refErr == hopus.ErrInvalidPacket {
					bad++
					if bad <= 5 && err != nil {
						c.Fail("corrupt-tolerated", "history %v: corrupt packet %d in a row returned %v", hist, bad, err)
					} else if bad > 5 && err == nil {
						c.Fail("corrupt-reported", "history %v: corrupt packet %d in a row is silently ignored", hist, bad)
					}
				} else if err == nil {
					c.Fail("error", "decoding failed with %v, but it's not returned", refErr)
				}
				c.Count("corrupt", 1)
			default:
				bad = 0
				if got != 1 {
					c.Fail("frames", "history %v: packet produced %d frames, error %v", hist, got, err)
					break
				}
				if want := out.hook(cnt, nil); err != want {
					c.Fail("write-error", "write returned %v, destination %v", err, want)
				}
				r := out.recs[cnt].copy
				if !equal(r, exp) {
					k := firstDiff(r, exp)
					c.Fail("audio", "history %v: %d samples, expected %d, differ at %d: %v, expected %v", hist, len(r), len(exp), k, r[k:min(k+10, len(r))], exp[k:min(k+10, len(exp))])
				}
				if p.dur > 0 && len(r) != p.dur*rate/48000*target {
					c.Fail("duration", "packet of %d (at 48 kHz) produced %d samples at %d with %d channels", p.dur, len(r), rate, target)
				}
				c.Count("decoded", 1)
				c.Count("samples", len(r))
			}
		}
		closeInto(c, rnd, "close", w, out)
		c.Distinct(rate, target, hist)
		c.Sample(fmt.Sprint(mode), "rate %d -> %d channels: %v", rate, target, hist[:min(12, len(hist))])
	}
	// Arbitrary bytes must not crash the decoder.
	for i := 0; i < c.N(200, 5000); i++ {
		rnd := c.Rand("fuzz", i)
		rate := opusRates[rnd.Intn(len(opusRates))]
		c.Eval("opus fuzz %d", i)
		out := newPCMSink(rate)
		w, err := opus.Decode(out, 1+i%2, log)
		if err != nil {
			c.Fail("decoder", "%v", err)
			continue
		}
		for k := 0; k < 40; k++ {
			var data []byte
			switch rnd.Intn(3) {
			case 0:
				data = make([]byte, rnd.Intn(1500))
				rnd.Read(data)
			case 1:
				data = append([]byte{}, encode(rnd, 1+rnd.Intn(2), 960)...)
				for m := 0; m < 1+rnd.Intn(4); m++ {
					data[rnd.Intn(len(data))] ^= byte(1 << rnd.Intn(8))
				}
			case 2:
				data = append([]byte{}, encode(rnd, 1+rnd.Intn(2), 960)...)
				data = data[:rnd.Intn(len(data)+1)]
			}
			_ = w.WriteSample(data)
		}
		for _, r := range out.recs {
			if len(r.copy) == 0 || len(r.copy) > rate*120/1000*2 || len(r.copy)%(1+i%2) != 0 {
				c.Fail("fuzz-size", "decoded frame of %d samples at %d", len(r.copy), rate)
			}
		}
		_ = w.Close()
		c.Distinct("fuzz", out.count(), len(out.all()))
	}
	// Round trip through the encoder.
	for i := 0; i < c.N(80, 1000); i++ {
		rnd := c.Rand("encoder", i)
		rate := opusRates[rnd.Intn(len(opusRates))]
		ch := 1 + rnd.Intn(2)
		durUS := []int{2500, 5000, 10000, 20000, 20000, 40000, 60000}[rnd.Intn(7)]
		c.Eval("opus encoder %d: rate %d, channels %d, %d us", i, rate, ch, durUS)
		var pcm msdk.PCM16Sample
		dw, err := opus.Decode(msdk.NewPCM16BufferWriter(&pcm, rate), ch, log)
		if err != nil {
			c.Fail("decoder", "%v", err)
			continue
		}
		es := newSink[opus.Sample, byte](rate)
		encErr := es.failAt(c, rnd, []int{0, 20, 100}[rnd.Intn(3)])
		w, err := opus.Encode(es, ch, log)
		if err != nil {
			c.Fail("encoder", "%v", err)
			continue
		}
		if w.SampleRate() != rate {
			c.Fail("rate", "encoder rate is %d", w.SampleRate())
		}
		frame := rate * durUS / 1000000
		f := 200 + rnd.Float64()*1000
		a := 4000 + rnd.Float64()*10000
		frames := 800000 / durUS
		for k := 0; k < frames; k++ {
			in := make(msdk.PCM16Sample, frame*ch)
			for j := range in {
				in[j] = int16(a * math.Sin(2*math.Pi*f*float64(k*frame+j/ch)/float64(rate)))
			}
			encErr("encode", k, w.WriteSample(in))
			if es.count() != k+1 {
				c.Fail("encode-count", "%d packets for %d frames", es.count(), k+1)
				break
			}
			if err := dw.WriteSample(es.recs[k].copy); err != nil {
				c.Fail("decode", "%v", err)
				break
			}
			if len(pcm) != (k+1)*frame*ch {
				c.Fail("round-trip-size", "%d samples for %d frames of %d with %d channels", len(pcm), k+1, frame, ch)
				break
			}
		}
		// Frames of a wrong size are rejected, and don't produce packets.
		n := es.count()
		if err := w.WriteSample(make(msdk.PCM16Sample, frame*ch+ch)); err == nil {
			c.Fail("encode-size", "frame of an invalid size is accepted")
		} else if es.count() != n {
			c.Fail("encode-size", "frame of an invalid size produced a packet")
		}
		closeInto(c, rnd, "encoder-close", w, es)
		mono := conv(pcm, ch, 1)
		if len(mono) > rate/2 && durUS >= 10000 { // quality of shorter frames is low
			snr := fitTone(mono[rate/4:], f/float64(rate), a)
			if snr < 8 {
				c.Fail("tone", "tone of %.0f Hz (amplitude %.0f) at %d with %d channels in %d us frames: SNR %.1f dB", f, a, rate, ch, durUS, snr)
			}
			c.Count("round_trips", 1)
		}
		c.Distinct("encoder", rate, ch, durUS)
	}
	c.Eval("opus arguments")
	for _, n := range []int{0, 3, -1} {
		if _, err := opus.Decode(newPCMSink(48000), n, log); err == nil {
			c.Fail("channels", "decoder with %d channels is created", n)
		}
		if _, err := opus.Encode(newSink[opus.Sample, byte](48000), n, log); err == nil {
			c.Fail("channels", "encoder with %d channels is created", n)
		}
	}
	if _, err := opus.Encode(newSink[opus.Sample, byte](44100), 1, log); err == nil {
		c.Fail("encoder-rate", "encoder at 44100 is created")
	}
	for ch := 1; ch <= 2; ch++ {
		enc, err := hopus.NewEncoder(48000, ch, hopus.AppVoIP)
		if err != nil {
			c.Fail("harness", "%v", err)
			return
		}
		buf := make([]byte, 1000)
		n, err := enc.Encode(make([]int16, 960*ch), buf)
		if err != nil {
			c.Fail("harness", "%v", err)
			return
		}
		for _, rate := range []int{44100, 22050, 0, -48000, 96000} {
			for target := 1; target <= 2; target++ {
				out := newPCMSink(rate)
				w, err := opus.Decode(out, target, log)
				if err != nil {
					continue
				}
				c.Eval("opus decoder to %d", rate)
				for k := 0; k < 3; k++ {
					if r := kit.Panics(func() { err = w.WriteSample(opus.Sample(buf[:n])) }); r != nil {
						c.Fail("decoder-rate", "decoding to %d Hz panics: %v", rate, r)
					} else if err == nil {
						c.Fail("decoder-rate", "a packet is decoded to unsupported rate of %d Hz without an error", rate)
					}
				}
				if out.count() != 0 {
					c.Fail("decoder-rate", "audio is produced at unsupported rate of %d Hz", rate)
				}
				c.Check(w.Close() == nil && out.closed == 1, "decoder-rate", "close fails or isn't passed on")
				c.Count("unsupported_rates", 1)
			}
		}
	}
}

// conv converts channels.
func conv(in msdk.PCM16Sample, ch, target int) msdk.PCM16Sample {
	var out msdk.PCM16Sample
	switch {
	case ch == target:
		return append(out, in...)
	case ch == 1:
		for _, v := range in {
			out = append(out, v, v)
		}
	default:
		for k := 0; k+1 < len(in); k += 2 {
			out = append(out, int16((int(in[k])+int(in[k+1]))/2))
		}
	}
	return out
}

func checkRegistry(c *kit.C) {
	type regModel struct {
		all      []msdk.Codec
		disabled map[string]bool
		static   [256]msdk.Codec
		byName   map[string]msdk.Codec
	}
	m := &regModel{disabled: make(map[string]bool), byName: make(map[string]msdk.Codec)}
	add := func(cc msdk.Codec) {
		m.all = append(m.all, cc)
		info := cc.Info()
		if info.RTPIsStatic {
			m.static[info.RTPDefType] = cc
		}
		if info.SDPName != "" {
			n := strings.ToLower(info.SDPName)
			m.byName[n] = cc
			if strings.Count(n, "/") == 1 {
				m.byName[n+"/1"] = cc
			}
		}
	}
	// Codecs registered by the packages.
	names := map[string]bool{}
	for _, cc := range msdk.Codecs() {
		add(cc)
		names[cc.Info().SDPName] = true
	}
	c.Eval("builtin")
	for _, n := range []string{g711.ALawSDPName, g711.ULawSDPName, g722.SDPName, dtmf.SDPName} {
		if !names[n] {
			c.Fail("builtin", "codec %q is not registered", n)
		}
	}
	// Payload types and clock rates of RFC 3551: 8000 for G.722 too. The wideband codec is preferred.
	for typ, e := range map[byte]struct {
		name string
		rate int
	}{0: {"PCMU/8000", 8000}, 8: {"PCMA/8000", 8000}, 9: {"G722/8000", 16000}} {
		cc := sdp.CodecByName(e.name)
		if cc == nil {
			c.Fail("builtin", "%s isn't found", e.name)
			continue
		}
		info := cc.Info()
		if info.RTPDefType != typ || !info.RTPIsStatic || info.RTPClockRate != 8000 || info.SampleRate != e.rate || info.SDPName != e.name || info.Disabled {
			c.Fail("builtin", "unexpected information of %s: %+v", e.name, info)
		}
		for _, o := range msdk.Codecs() {
			if o.Info().SDPName == dtmf.SDPName && o.Info().Priority >= info.Priority || o.Info().SDPName == "G722/8000" && o.Info().Priority <= info.Priority && typ != 9 {
				c.Fail("builtin", "priority of %s is %d, of %s is %d", e.name, info.Priority, o.Info().SDPName, o.Info().Priority)
			}
		}
	}
	type listener struct{ got []msdk.Codec }
	var listeners []*listener
	pool := []string{"A/8000", "b/16000", "C/48000/2", "PCMU/8000", "opus/48000/2", "X/1", ""}
	vary := func(rnd *rand.Rand, s string) string {
		b := []byte(s)
		for i := range b {
			if rnd.Intn(2) == 0 {
				b[i] = []byte(strings.ToUpper(string(b[i])))[0]
			} else {
				b[i] = []byte(strings.ToLower(string(b[i])))[0]
			}
		}
		return string(b)
	}
	steps := c.N(400, 3000)
	var hist []string
	for i := 0; i < steps; i++ {
		rnd := c.Rand("reg", i)
		c.Eval("registry %d", i)
		op := rnd.Intn(8)
		if len(m.all) > 60 && op == 0 {
			op = 1
		}
		switch op {
		case 0:
			info := msdk.CodecInfo{
				SDPName: pool[rnd.Intn(len(pool))], SampleRate: 8000 * (1 + rnd.Intn(6)), RTPDefType: byte(rnd.Intn(256)), RTPIsStatic: rnd.Intn(2) == 0,
				Priority: rnd.Intn(20) - 10, Disabled: rnd.Intn(4) == 0,
			}
			if rnd.Intn(2) == 0 {
				info.RTPClockRate = 8000
			}
			var cc msdk.Codec
			if rnd.Intn(2) == 0 {
				cc = msdk.NewCodec(info)
			} else {
				cc = rtp.NewAudioCodec(info, g722.Decode, g722.Encode)
			}
			exp := info
			if exp.RTPClockRate == 0 {
				exp.RTPClockRate = exp.SampleRate
			}
			if cc.Info() != exp {
				c.Fail("info", "codec info is %+v, expected %+v", cc.Info(), exp)
			}
			msdk.RegisterCodec(cc)
			add(cc)
			for _, l := range listeners {
				if n := len(l.got); n != len(m.all) || l.got[n-1] != cc {
					c.Fail("listener", "listener has %d codecs of %d after a registration", n, len(m.all))
				}
			}
			if info.Disabled {
				m.disabled[strings.ToLower(info.SDPName)] = true
			}
			hist = append(hist, fmt.Sprintf("register %q static=%v/%d", info.SDPName, info.RTPIsStatic, info.RTPDefType))
		case 1, 2:
			name, on := pool[rnd.Intn(len(pool))], rnd.Intn(2) == 0
			msdk.CodecSetEnabled(vary(rnd, name), on)
			m.disabled[strings.ToLower(name)] = !on
			hist = append(hist, fmt.Sprintf("enable %q %v", name, on))
		case 3:
			set := make(map[string]bool)
			for k := rnd.Intn(len(pool) + 1); k > 0; k-- {
				name := pool[rnd.Intn(len(pool))]
				on := rnd.Intn(2) == 0
				key := strings.ToLower(name)
				if rnd.Intn(2) == 0 {
					key = strings.ToUpper(name)
				}
				if _, ok := set[strings.ToLower(name)]; ok {
					continue
				}
				if _, ok := set[strings.ToUpper(name)]; ok {
					continue
				}
				set[key] = on
				m.disabled[strings.ToLower(name)] = !on
			}
			msdk.CodecsSetEnabled(set)
			hist = append(hist, fmt.Sprint("enable ", set))
		case 4:
			if len(listeners) < 5 {
				l := &listener{}
				listeners = append(listeners, l)
				msdk.OnRegister(func(cc msdk.Codec) { l.got = append(l.got, cc) })
			}
		case 5:
			// The returned list is a copy.
			l := msdk.Codecs()
			for k := range l {
				l[k] = nil
			}
			_ = append(l, nil)
			l = msdk.EnabledCodecs()
			for k := range l {
				l[k] = nil
			}
		}
		if got := msdk.Codecs(); !equal(got, m.all) {
			c.Fail("codecs", "%d codecs in the list, expected %d", len(got), len(m.all))
		}
		var en []msdk.Codec
		for _, cc := range m.all {
			on := !m.disabled[strings.ToLower(cc.Info().SDPName)]
			if on {
				en = append(en, cc)
			}
			if msdk.CodecEnabled(cc) != on {
				c.Fail("enabled", "codec %q enabled=%v, expected %v", cc.Info().SDPName, !on, on)
			}
		}
		if got := msdk.EnabledCodecs(); !equal(got, en) {
			c.Fail("enabled-codecs", "%d enabled codecs, expected %d", len(got), len(en))
		}
		for _, l := range listeners {
			if !equal(l.got, m.all) {
				c.Fail("listener", "listener has %d codecs, expected %d", len(l.got), len(m.all))
			}
		}
		for t := 0; t < 256; t++ {
			if rtp.CodecByPayloadType(byte(t)) != m.static[t] {
				c.Fail("payload-type", "wrong codec for the payload type %d", t)
			}
		}
		for _, base := range append(pool, "unknown/8000", g722.SDPName, dtmf.SDPName) {
			for _, name := range []string{base, base + "/1", base + "/2", " " + base, base + " ", base + "/", "/" + base, base + "/1/1", strings.TrimSuffix(base, "0"), "x" + base} {
				var exp msdk.Codec
				if cc := m.byName[strings.ToLower(name)]; cc != nil && !m.disabled[strings.ToLower(cc.Info().SDPName)] {
					exp = cc
				}
				if got := sdp.CodecByName(vary(rnd, name)); got != exp {
					c.Fail("by-name", "wrong codec for the name %q", name)
				}
			}
			if on := msdk.CodecEnabledByName(vary(rnd, base)); on == m.disabled[strings.ToLower(base)] {
				c.Fail("enabled-name", "%q is enabled=%v", base, on)
			}
		}
		c.Distinct(strings.Join(tailN(hist, 6), ";"), len(m.all))
		c.Count("lookups", 256+3*9)
	}
	if msdk.CodecEnabled(nil) {
		c.Fail("enabled-nil", "nil codec is enabled")
	}
	for _, r := range []int{0, -1} {
		c.Eval("invalid rate")
		if kit.Panics(func() { msdk.NewCodec(msdk.CodecInfo{SampleRate: r}) }) == nil {
			c.Fail("invalid", "codec with the rate %d is created", r)
		}
	}
	c.Sample("history", "%s", strings.Join(tailN(hist, 10), "; "))
}

func tailN(s []string, n int) []string { return s[max(0, len(s)-n):] }
