package checks

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"strings"
	"time"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/tones"

	"verif/harness/kit"
)

func init() {
	kit.Register("D01", kit.Check{
		Rule: "Random digit strings, sample rates, start timestamps, slow and failing outputs and cancellations in virtual time; each audio frame and each event packet " +
			"is compared with a reference, and frequencies are measured by a least squares fit over the whole tone. Distinct: (digits, outputs, fault).",
		Floor: 100,
		Run:   checkDTMFWrite,
	})
	kit.Register("D02", kit.Check{
		Rule: "All event codes, flags, volumes and a sweep of durations, digits of all byte values, buffers of all lengths around the limit, random payloads. Distinct: " +
			"(code, flags, length).",
		Floor: 1000,
		Run:   checkDTMFCodec,
	})
	kit.Register("D03", kit.Check{
		Rule: "Random frequencies, volumes, frame sizes, sample rates and start times up to several days against a reference with exact phase; random cadences played in " +
			"virtual time. Distinct: (frequencies, frame split) and cadences.",
		Floor: 150,
		Run:   checkTones,
	})
}

const dtmfDigits = "0123456789*#abcd"

// dtmfFreqs is the keypad of ITU-T Q.23.
var dtmfFreqs = map[byte][2]float64{
	'1': {697, 1209}, '2': {697, 1336}, '3': {697, 1477}, 'a': {697, 1633},
	'4': {770, 1209}, '5': {770, 1336}, '6': {770, 1477}, 'b': {770, 1633},
	'7': {852, 1209}, '8': {852, 1336}, '9': {852, 1477}, 'c': {852, 1633},
	'*': {941, 1209}, '0': {941, 1336}, '#': {941, 1477}, 'd': {941, 1633},
}

// fitTones finds amplitudes of the frequencies in the signal and the maximal residual.
func fitTones(s msdk.PCM16Sample, rate int, freq []float64) (amps []float64, maxRes float64) {
	n := 2 * len(freq)
	basis := func(i int, out []float64) {
		for k, f := range freq {
			ph := 2 * math.Pi * f * float64(i) / float64(rate)
			out[2*k], out[2*k+1] = math.Sin(ph), math.Cos(ph)
		}
	}
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n+1)
	}
	row := make([]float64, n)
	for i, v := range s {
		basis(i, row)
		for x := 0; x < n; x++ {
			for y := 0; y < n; y++ {
				a[x][y] += row[x] * row[y]
			}
			a[x][n] += row[x] * float64(v)
		}
	}
	for x := 0; x < n; x++ { // Gauss-Jordan
		p := x
		for y := x + 1; y < n; y++ {
			if math.Abs(a[y][x]) > math.Abs(a[p][x]) {
				p = y
			}
		}
		a[x], a[p] = a[p], a[x]
		for y := 0; y < n; y++ {
			if y == x {
				continue
			}
			m := a[y][x] / a[x][x]
			for k := x; k <= n; k++ {
				a[y][k] -= m * a[x][k]
			}
		}
	}
	co := make([]float64, n)
	for x := range co {
		co[x] = a[x][n] / a[x][x]
	}
	for k := range freq {
		amps = append(amps, math.Hypot(co[2*k], co[2*k+1]))
	}
	for i, v := range s {
		basis(i, row)
		sum := 0.0
		for x := range row {
			sum += row[x] * co[x]
		}
		maxRes = max(maxRes, math.Abs(sum-float64(v)))
	}
	return
}

type dtmfSeg struct {
	digit  byte // 0 for silence
	frames int
}

func dtmfPlan(digits string) (out []dtmfSeg) {
	for _, b := range []byte(digits) {
		switch {
		case b == 'w':
			out = append(out, dtmfSeg{0, 25})
		case strings.IndexByte(dtmfDigits, b) >= 0:
			out = append(out, dtmfSeg{b, 13}, dtmfSeg{0, 13})
		default: // unsupported
			out = append(out, dtmfSeg{0, 13}, dtmfSeg{0, 13})
		}
	}
	return
}

func randDigits(rnd *rand.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		switch rnd.Intn(12) {
		case 0, 1:
			b.WriteByte('w')
		case 2:
			b.WriteByte("xX -WABCD\x00\xff"[rnd.Intn(11)])
		case 3: // repeated
			d := dtmfDigits[rnd.Intn(16)]
			b.WriteByte(d)
			b.WriteByte(d)
		default:
			b.WriteByte(dtmfDigits[rnd.Intn(16)])
		}
	}
	return b.String()
}

func checkDTMFWrite(c *kit.C) {
	for i := 0; i < c.N(600, 8000); i++ {
		rnd := c.Rand("write", i)
		digits := randDigits(rnd, rnd.Intn(7))
		if i == 0 {
			digits = dtmfDigits
		}
		if i%40 == 1 {
			digits = randDigits(rnd, 20+rnd.Intn(200))
			c.Count("long strings", 1)
		}
		rate := []int{8000, 12000, 16000, 24000, 44100, 48000}[rnd.Intn(6)]
		withAudio, withEvents := rnd.Intn(6) != 0, rnd.Intn(6) != 0
		fault := []string{"", "", "", "slow", "audio", "events", "cancel", "shared"}[rnd.Intn(8)]
		startTs := uint32(rnd.Intn(1 << 28))
		switch rnd.Intn(8) {
		case 0, 1:
			startTs = 0
		case 2:
			startTs = -uint32(1 + rnd.Intn(20000)) // wraps around
		case 3:
			startTs = rnd.Uint32()
		}
		c.Eval("digits %q rate=%d audio=%v events=%v fault=%s start=%d", digits, rate, withAudio, withEvents, fault, startTs)
		c.Distinct(digits, rate, withAudio, withEvents, fault)
		c.Bubble("dtmf", func() { dtmfWriteCase(c, rnd, digits, rate, withAudio, withEvents, fault, startTs) })
	}
	if !c.Failed() {
		c.Sample("string", "all 16 digits, each one tone of 260 ms, 13+2 event packets with one timestamp")
	}
}

func dtmfWriteCase(c *kit.C, rnd *rand.Rand, digits string, rate int, withAudio, withEvents bool, fault string, startTs uint32) {
	errInjected := someError(rnd, "injected")
	plan := dtmfPlan(digits)
	total := 0
	for _, s := range plan {
		total += s.frames
	}
	w := &wire{}
	sw := rtp.NewSeqWriter(w)
	typ := byte(96 + rnd.Intn(32))
	var (
		audio  msdk.Writer[msdk.PCM16Sample]
		events *rtp.Stream
	)
	snk := newPCMSink(rate)
	if withAudio {
		audio = snk
	}
	if withEvents {
		events = sw.NewStream(typ, dtmf.SampleRate)
		if rnd.Intn(2) == 0 {
			events.ResetTimestamp(rnd.Uint32() >> 4) // must have no effect
		}
	}
	var pktAt []time.Time
	failAt := -1
	t0 := time.Now()
	cancelAt := time.Duration(-1)
	switch fault {
	case "audio":
		failAt = rnd.Intn(total + 1)
	case "events":
		failAt = rnd.Intn(15*len(digits) + 1)
	case "cancel":
		cancelAt = time.Duration(rnd.Intn(total+1))*20*time.Millisecond + time.Duration(1+rnd.Intn(19))*time.Millisecond
	}
	ctx, cancel, ctxErr := endAfter(rnd, cancelAt)
	defer cancel()
	shared := sw.NewStream(0, 8000)
	if fault == "shared" { // audio of the same call is sent through the same writer
		shared.ResetTimestamp(startTs)
	}
	snk.hook = func(k int, _ msdk.PCM16Sample) error {
		switch fault {
		case "slow":
			time.Sleep(time.Duration(rnd.Intn(18)) * time.Millisecond)
		case "audio":
			if k == failAt {
				return errInjected
			}
		case "shared":
			return shared.WritePayload(make([]byte, 160), false)
		}
		return nil
	}
	w.hook = func(n int, h *prtp.Header, _ []byte) error {
		if fault == "events" && n == failAt {
			return errInjected
		}
		if h.PayloadType == typ {
			pktAt = append(pktAt, time.Now())
		}
		return nil
	}
	err := dtmf.Write(ctx, audio, events, startTs, digits)
	took := time.Since(t0)

	recs := snk.snapshot()
	faultHit := false
	switch fault {
	case "audio":
		faultHit = withAudio && failAt < total
	case "events":
		nev := 0
		for _, s := range plan {
			if s.digit != 0 {
				nev += 15
			}
		}
		faultHit = withEvents && failAt < nev
	case "cancel":
		faultHit = cancelAt < time.Duration(total+1)*20*time.Millisecond
	}
	if faultHit {
		want := errInjected
		if fault == "cancel" {
			want = ctxErr
			if lim := cancelAt + 20*time.Millisecond; took > lim {
				c.Fail("cancel-late", "canceled after %v, returned after %v", cancelAt, took)
			}
		}
		if !errors.Is(err, want) {
			c.Fail("error-lost", "%s fault: got error %v", fault, err)
		}
		c.Count("faults", 1)
	} else if err != nil {
		c.Fail("error", "unexpected error %v", err)
	} else {
		if withAudio && len(recs) != total {
			c.Fail("audio-frames", "%d frames of audio, expected %d", len(recs), total)
		}
		if fault != "slow" && took != time.Duration(total+1)*20*time.Millisecond {
			c.Fail("duration", "took %v for %d frames", took, total)
		}
		c.Count("complete strings", 1)
	}
	if len(recs) > total {
		c.Fail("audio-extra", "%d frames of audio, expected %d", len(recs), total)
		return
	}

	// Audio: one frame each 20 ms, exact silence or the two tones.
	for k, r := range recs {
		if len(r.copy) != rate/50 {
			c.Fail("frame-size", "frame %d has %d samples at %d Hz", k, len(r.copy), rate)
			return
		}
		if at := r.at.Sub(t0); fault != "slow" && at != time.Duration(k+1)*20*time.Millisecond {
			c.Fail("frame-time", "frame %d written at %v", k, at)
			return
		}
	}
	pos := 0
	for si, s := range plan {
		var sig msdk.PCM16Sample
		for k := 0; k < s.frames && pos < len(recs); k++ {
			sig = append(sig, recs[pos].copy...)
			pos++
		}
		if len(sig) == 0 {
			break
		}
		if s.digit == 0 {
			for _, v := range sig {
				if v != 0 {
					c.Fail("silence", "segment %d of %q must be silent, got sample %d", si, digits, v)
					return
				}
			}
			c.Count("silent frames", len(sig)/(rate/50))
			continue
		}
		if len(sig) < rate/10 {
			continue // too short to measure
		}
		f := dtmfFreqs[s.digit]
		amps, res := fitTones(sig, rate, f[:])
		if res > 40 {
			c.Fail("tone", "digit %q: residual %v after removing %v Hz (amplitudes %v)", s.digit, res, f, amps)
			return
		}
		for _, a := range amps {
			if a < 7800 || a > 8600 {
				c.Fail("tone-volume", "digit %q: amplitudes %v", s.digit, amps)
				return
			}
		}
		c.Count("tones measured", 1)
	}

	// Events.
	var evs []wirePkt
	for _, p := range w.pkts {
		if p.h.PayloadType == typ {
			evs = append(evs, p)
		}
	}
	if !withEvents {
		c.Check(len(evs) == 0, "events-without-stream", "%d events", len(evs))
		return
	}
	var exp []wirePkt
	var expAt []time.Duration
	ts, frame := startTs, 0
	resync := 0 // unsupported digits make events late, and then they may catch up with the audio
	var sent strings.Builder
	for k := 0; k < len(digits); k++ {
		b := digits[k]
		if b == 'w' {
			ts += 4000
			frame += 25
			continue
		}
		code := strings.IndexByte(dtmfDigits, b)
		if code < 0 { // no events and no time of the tone itself
			ts += 2000
			frame += 26
			if fault == "shared" {
				resync++
			}
			continue
		}
		sent.WriteByte(b)
		for n := 0; n < 13; n++ {
			pl := []byte{byte(code), 10, 0, 0}
			binary.BigEndian.PutUint16(pl[2:], uint16((n+1)*160))
			rep := 1
			if n == 12 {
				pl[1] |= 0x80
				rep = 3
			}
			for ; rep > 0; rep-- {
				exp = append(exp, wirePkt{prtp.Header{Marker: n == 0, Timestamp: ts}, pl})
				expAt = append(expAt, time.Duration(frame+n+1)*20*time.Millisecond)
			}
		}
		ts += 4000
		frame += 26
	}
	if err == nil && len(evs) != len(exp) {
		c.Fail("events-count", "%d event packets, expected %d", len(evs), len(exp))
		return
	}
	for k, p := range evs {
		if k >= len(exp) {
			c.Fail("events-extra", "%d event packets, expected %d", len(evs), len(exp))
			return
		}
		e := exp[k]
		if string(p.payload) != string(e.payload) || p.h.Marker != e.h.Marker {
			c.Fail("event", "event packet %d of %q: %x marker=%v, expected %x marker=%v", k, digits, p.payload, p.h.Marker, e.payload, e.h.Marker)
			return
		}
		if resync > 0 {
			if d := int32(p.h.Timestamp - e.h.Timestamp); d < 0 || d > int32(resync)*2320+int32(len(digits))*160 || !e.h.Marker && p.h.Timestamp != evs[k-1].h.Timestamp {
				c.Fail("event-ts", "event packet %d of %q: timestamp %d, expected %d or later", k, digits, p.h.Timestamp-startTs, e.h.Timestamp-startTs)
				return
			}
		} else if p.h.Timestamp != e.h.Timestamp {
			c.Fail("event-ts", "event packet %d of %q: timestamp %d, expected %d", k, digits, p.h.Timestamp-startTs, e.h.Timestamp-startTs)
			return
		}
		if fault != "slow" {
			if at := pktAt[k].Sub(t0); at != expAt[k] {
				c.Fail("event-time", "event packet %d sent at %v, expected %v", k, at, expAt[k])
				return
			}
		}
		c.Count("event packets", 1)
	}
	if err == nil && resync == 0 && fault != "shared" {
		// Whatever is sent next, follows the last tone and its pause.
		if got := events.GetCurrentTimestamp(); got != ts {
			c.Fail("events-end", "timestamp after %q is %d, expected %d", digits, got-startTs, ts-startTs)
			return
		}
	}
	if fault == "audio" && faultHit && withEvents {
		return
	}
	// What the receiver makes out of it.
	var got strings.Builder
	for _, p := range evs {
		if ev, ok := dtmf.DecodeRTP(&p.h, p.payload); ok {
			got.WriteByte(ev.Digit)
		}
	}
	if err == nil && got.String() != sent.String() || !strings.HasPrefix(sent.String(), got.String()) {
		c.Fail("digits", "sent %q, received %q", sent.String(), got.String())
	}
}

func checkDTMFCodec(c *kit.C) {
	rnd := c.Rand("codec")
	// All codes and flags.
	for code := 0; code < 256; code++ {
		for flags := 0; flags < 256; flags++ {
			dur := uint16(rnd.Intn(1 << 16))
			if rnd.Intn(4) == 0 {
				dur = []uint16{0, 1, 255, 256, 65535, 65280}[rnd.Intn(6)]
			}
			c.Eval("code %d flags %x dur %d", code, flags, dur)
			c.Distinct(code, flags)
			data := []byte{byte(code), byte(flags), byte(dur >> 8), byte(dur)}
			extra := rnd.Intn(4)
			data = append(data, make([]byte, extra)...)
			rnd.Read(data[4:])
			orig := string(data)
			ev, err := dtmf.Decode(data)
			exp := dtmf.Event{Code: byte(code), Volume: byte(flags & 0x3f), End: flags&0x80 != 0, Dur: dur}
			if code < 16 {
				exp.Digit = dtmfDigits[code]
			}
			if err != nil || ev != exp {
				c.Fail("decode", "%x: got %+v, %v, expected %+v", data, ev, err, exp)
				return
			}
			if string(data) != orig {
				c.Fail("modified", "payload was modified")
				return
			}
			marker := rnd.Intn(2) == 0
			ev2, ok := dtmf.DecodeRTP(&prtp.Header{Marker: marker, PayloadType: byte(rnd.Intn(128)), Timestamp: rnd.Uint32()}, data)
			if ok != marker || (ok && ev2 != exp) {
				c.Fail("decode-rtp", "%x marker=%v: got %+v, %v", data, marker, ev2, ok)
				return
			}
			// Encode back, by the code and by the digit.
			for _, by := range []string{"code", "digit", "both"} {
				in := exp
				switch by {
				case "code":
					in.Digit = 0
				case "digit":
					if exp.Digit == 0 {
						continue
					}
					in.Code = byte(rnd.Intn(256))
				}
				out := make([]byte, 4+rnd.Intn(3))
				rnd.Read(out)
				tail := string(out[4:])
				in.Volume |= byte(rnd.Intn(4)) << 6 // upper bits are not a part of the volume
				n, err := dtmf.Encode(out, in)
				back, err2 := dtmf.Decode(out)
				if err != nil || n != 4 || err2 != nil || back != exp || out[1] != byte(flags&0xbf) || string(out[4:]) != tail {
					c.Fail("round-trip", "%+v by %s: %d, %v, %x -> %+v, %v", in, by, n, err, out, back, err2)
					return
				}
			}
			c.Count("events", 1)
		}
	}
	// All digits.
	for b := 1; b < 256; b++ {
		c.Eval("digit %q", byte(b))
		code := strings.IndexByte(dtmfDigits, byte(b))
		out := []byte{1, 2, 3, 4}
		n, err := dtmf.Encode(out, dtmf.Event{Digit: byte(b), Code: 7})
		tc, freq := dtmf.Tone(byte(b))
		if code < 0 {
			c.Check(err != nil && n == 0, "unsupported-digit", "digit %q: %d, %v, %x", byte(b), n, err, out)
			c.Check(len(freq) == 0, "unsupported-tone", "digit %q: %v", byte(b), freq)
		} else {
			c.Check(err == nil && n == 4 && int(out[0]) == code, "digit", "digit %q: %d, %v, %x", byte(b), n, err, out)
			f := dtmfFreqs[byte(b)]
			c.Check(int(tc) == code && len(freq) == 2 && float64(freq[0]) == f[0] && float64(freq[1]) == f[1], "tone", "digit %q: code %d, %v, expected %v", byte(b), tc, freq, f)
		}
	}
	// The caller can't damage the table of frequencies.
	for _, b := range []byte(dtmfDigits) {
		_, freq := dtmf.Tone(b)
		freq[0], freq[1] = 1, 2
		_, again := dtmf.Tone(b)
		f := dtmfFreqs[b]
		c.Check(float64(again[0]) == f[0] && float64(again[1]) == f[1], "tone-shared", "digit %q: %v after a caller changed its copy", b, again)
	}
	// Short buffers and payloads.
	for n := 0; n < 4; n++ {
		c.Eval("short %d", n)
		ev, err := dtmf.Decode(make([]byte, n))
		c.Check(errors.Is(err, io.ErrUnexpectedEOF) && ev == dtmf.Event{}, "short-decode", "%d bytes: %+v, %v", n, ev, err)
		_, ok := dtmf.DecodeRTP(&prtp.Header{Marker: true}, make([]byte, n))
		c.Check(!ok, "short-decode", "%d bytes are accepted", n)
		buf := make([]byte, 4)
		k, err := dtmf.Encode(buf[:n], dtmf.Event{Code: 255, Volume: 63, Dur: 65535, End: true})
		c.Check(errors.Is(err, io.ErrShortBuffer) && k == 0 && string(buf) == "\x00\x00\x00\x00", "short-encode", "%d bytes: %d, %v, %x", n, k, err, buf)
	}
	_, ok := dtmf.DecodeRTP(&prtp.Header{Marker: true}, nil)
	c.Check(!ok, "short-decode", "nil is accepted")
}

// refTone is a sample of the tones at the exact time.
func refTone(ns float64, amp int16, freq []tones.Hz) float64 {
	sum := 0.0
	for _, f := range freq {
		whole := math.Floor(ns / 1e9)
		fr := (ns - whole*1e9) / 1e9
		_, turns := math.Modf(fr * float64(f))
		sum += math.Sin(2 * math.Pi * turns)
	}
	if len(freq) == 0 {
		return 0
	}
	return float64(amp) * sum / float64(len(freq))
}

func checkTones(c *kit.C) {
	for i := 0; i < c.N(1500, 20000); i++ {
		rnd := c.Rand("gen", i)
		rate := []int{8000, 16000, 24000, 44100, 48000}[rnd.Intn(5)]
		var freq []tones.Hz
		for k := 0; k < rnd.Intn(5); k++ {
			freq = append(freq, tones.Hz(20+rnd.Intn(3400)))
		}
		amp := int16(rnd.Intn(32768))
		if rnd.Intn(5) == 0 {
			amp = 32767
		}
		ts := time.Duration(rnd.Int63n(int64(4*24*time.Hour) / 1000))
		if rnd.Intn(2) == 0 {
			ts = time.Duration(rnd.Int63n(int64(4 * 24 * time.Hour)))
		}
		n := 1 + rnd.Intn(rate/10)
		dur := time.Duration(n) * time.Second / time.Duration(rate)
		c.Eval("generate rate=%d freq=%v amp=%d ts=%v n=%d", rate, freq, amp, ts, n)
		c.Distinct(freq, n, amp)
		buf := randPCM(rnd, n)
		end := tones.Generate(buf, ts, dur, amp, freq)
		if end != ts+dur {
			c.Fail("end", "returned %v for %v + %v", end, ts, dur)
		}
		maxf := 0.0
		for _, f := range freq {
			maxf = max(maxf, float64(f))
		}
		tol := 1.5 + float64(amp)*2*math.Pi*maxf*2e-9 // sample times are rounded to a nanosecond
		for k, v := range buf {
			exp := refTone(float64(ts)+float64(dur)*float64(k)/float64(n), amp, freq)
			if math.Abs(exp-float64(v)) > tol {
				c.Fail("sample", "sample %d/%d is %d, expected %.1f", k, n, v, exp)
				return
			}
			if v > amp || v < -amp {
				c.Fail("amplitude", "sample %d exceeds %d", v, amp)
				return
			}
		}
		// Independent of the split to frames.
		if n > 1 {
			cut := 1 + rnd.Intn(n-1)
			buf2 := randPCM(rnd, n)
			d1 := dur * time.Duration(cut) / time.Duration(n)
			mid := tones.Generate(buf2[:cut], ts, d1, amp, freq)
			tones.Generate(buf2[cut:], mid, dur-d1, amp, freq)
			for k := range buf {
				if d := int(buf[k]) - int(buf2[k]); d > int(2*tol) || d < -int(2*tol) {
					c.Fail("split", "sample %d/%d: %d in one frame, %d when split at %d", k, n, buf[k], buf2[k], cut)
					return
				}
			}
		}
		c.Count("samples", n)
	}
	c.Check(tones.Generate(nil, 5, 7, 100, []tones.Hz{440}) == 12, "empty", "empty frame")

	// Tones of ETSI: 425 Hz; 1 s of ringing and 4 s of silence; half a second of busy tone and of silence.
	c.Eval("ETSI tones")
	for name, l := range map[string][2][]tones.Tone{
		"dial":    {tones.ETSIDial, {{Freq: []tones.Hz{425}}}},
		"ringing": {tones.ETSIRinging, {{Freq: []tones.Hz{425}, Dur: time.Second, Silence: 4 * time.Second}}},
		"busy":    {tones.ETSIBusy, {{Freq: []tones.Hz{425}, Dur: 500 * time.Millisecond, Silence: 500 * time.Millisecond}}},
	} {
		if !reflect.DeepEqual(l[0], l[1]) {
			c.Fail("etsi", "%s tone is %+v, expected %+v", name, l[0], l[1])
		}
	}
	for i := 0; i < c.N(150, 2000); i++ {
		rnd := c.Rand("play", i)
		rate := []int{8000, 16000, 48000}[rnd.Intn(3)]
		var list []tones.Tone
		name := ""
		switch rnd.Intn(6) {
		case 0:
			list, name = tones.ETSIDial, "dial"
		case 1:
			list, name = tones.ETSIRinging, "ringing"
		case 2:
			list, name = tones.ETSIBusy, "busy"
		default:
			for k := 0; k < 1+rnd.Intn(4); k++ {
				t := tones.Tone{Dur: time.Duration(1+rnd.Intn(600)) * time.Millisecond}
				for j := 0; j < 1+rnd.Intn(3); j++ {
					t.Freq = append(t.Freq, tones.Hz(200+rnd.Intn(3)*300+rnd.Intn(100)+1000*j))
				}
				if rnd.Intn(2) == 0 {
					t.Silence = time.Duration(1+rnd.Intn(600)) * time.Millisecond
				}
				list = append(list, t)
			}
			name = fmt.Sprint(list)
		}
		vol := int16(1000 + rnd.Intn(31000))
		stop := time.Duration(1+rnd.Intn(9000))*time.Millisecond + time.Microsecond
		if i%10 == 7 { // for minutes
			stop = time.Duration(30000+rnd.Intn(150000))*time.Millisecond + time.Microsecond
			rate = 8000
			for k := range list {
				if rnd.Intn(3) == 0 {
					list = slices.Clone(list)
					list[k].Dur *= time.Duration(1 + rnd.Intn(60))
				}
			}
			c.Count("long plays", 1)
		}
		c.Eval("play %s rate=%d vol=%d stop=%v", name, rate, vol, stop)
		c.Distinct(name, rate, stop)
		failAt := -1
		if rnd.Intn(5) == 0 {
			failAt = rnd.Intn(100)
		}
		fault := someError(rnd, "injected")
		c.Bubble("play", func() { playCase(c, list, rate, vol, stop, failAt, fault) })
	}
}

func frames(d time.Duration) int {
	return int((d + 20*time.Millisecond - 1) / (20 * time.Millisecond))
}

func playCase(c *kit.C, list []tones.Tone, rate int, vol int16, stop time.Duration, failAt int, errInjected error) {
	ctx, cancel := context.WithTimeout(context.Background(), stop)
	defer cancel()
	snk := newPCMSink(rate)
	snk.hook = func(n int, _ msdk.PCM16Sample) error {
		if n == failAt {
			return errInjected
		}
		return nil
	}
	t0 := time.Now()
	err := tones.Play(ctx, snk, vol, list)
	took := time.Since(t0)
	recs := snk.snapshot()
	exp := int(stop / (20 * time.Millisecond))
	if failAt >= 0 && failAt < exp {
		c.Check(errors.Is(err, errInjected), "play-error", "got %v", err)
		exp = failAt + 1
	} else {
		c.Check(errors.Is(err, context.DeadlineExceeded) && took == stop, "play-stop", "got %v after %v, expected %v", err, took, stop)
	}
	if !c.Check(len(recs) == exp, "play-frames", "%d frames, expected %d", len(recs), exp) {
		return
	}
	for k, r := range recs {
		if len(r.copy) != rate/50 || r.at.Sub(t0) != time.Duration(k+1)*20*time.Millisecond {
			c.Fail("play-frame", "frame %d has %d samples at %v", k, len(r.copy), r.at.Sub(t0))
			return
		}
	}
	pos := 0
	take := func(n int) (sig msdk.PCM16Sample) {
		for ; n > 0 && pos < len(recs); n-- {
			sig = append(sig, recs[pos].copy...)
			pos++
		}
		return
	}
	for pos < len(recs) {
		for _, t := range list {
			n := frames(t.Dur)
			if t.Dur == 0 {
				n = len(recs)
			}
			sig := take(n)
			var fr []float64
			for _, f := range t.Freq {
				fr = append(fr, float64(f))
			}
			if len(sig) >= rate/10 {
				amps, res := fitTones(sig, rate, fr)
				want := float64(vol) / float64(len(fr))
				if res > 60 {
					c.Fail("play-tone", "tone %v: residual %v, amplitudes %v", t, res, amps)
					return
				}
				for _, a := range amps {
					if math.Abs(a-want) > want*0.02+20 {
						c.Fail("play-volume", "tone %v: amplitudes %v, expected %v", t, amps, want)
						return
					}
				}
				c.Count("tones measured", 1)
			}
			for _, v := range take(frames(t.Silence)) {
				if v != 0 {
					c.Fail("play-silence", "tone %v: no silence after it", t)
					return
				}
			}
		}
	}
	c.Count("frames played", len(recs))
}
