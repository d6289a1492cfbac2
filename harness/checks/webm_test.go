package checks

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"slices"
	"sync"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/webm"

	"verif/harness/kit"
)

func init() {
	kit.Register("W01", kit.Check{
		Rule: "Random sample rates, channels, codecs, frame durations and sizes (short recordings, and recordings across the boundaries of clusters), and a failure of the " +
			"file at every kind of offset and at close, under the race detector; files are read back by an independent EBML parser. Distinct: (codec, duration, frames, fault).",
		Floor: 100,
		Run:   checkWebm,
	})
}

// ebmlID reads an element ID with its marker.
func ebmlVint(b []byte, keepMarker bool) (v uint64, n int, unknown bool) {
	if len(b) == 0 || b[0] == 0 {
		return 0, 0, false
	}
	n = 1
	for m := byte(0x80); b[0]&m == 0; m >>= 1 {
		n++
	}
	if len(b) < n {
		return 0, 0, false
	}
	v = uint64(b[0])
	if !keepMarker {
		v &= 1<<(8-n) - 1
	}
	ones := v == 1<<(8-n)-1
	for _, x := range b[1:n] {
		v = v<<8 | uint64(x)
		ones = ones && x == 0xff
	}
	return v, n, ones && !keepMarker
}

type webmBlock struct {
	track uint64
	ms    int64
	key   bool
	data  []byte
}

type webmFile struct {
	docType  string
	segments int
	scale    uint64
	codec    string
	track    uint64
	typ      uint64
	defDur   uint64
	rate     float64
	channels uint64
	clusters int
	blocks   []webmBlock
	rest     int // bytes of the incomplete element at the end
	cluster  int64
}

func ebmlUint(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

// parseWebm reads the file, and stops at the first incomplete element.
func parseWebm(b []byte) (*webmFile, error) {
	f := &webmFile{scale: 1000000}
	err := f.parse(b)
	return f, err
}

var errEBML = errors.New("invalid EBML")

func (f *webmFile) parse(b []byte) error {
	for len(b) > 0 {
		id, n, _ := ebmlVint(b, true)
		if n == 0 {
			f.rest += len(b)
			return nil
		}
		size, m, unknown := ebmlVint(b[n:], false)
		if m == 0 {
			f.rest += len(b)
			return nil
		}
		switch id {
		case 0x18538067: // Segment
			f.segments++
			if !unknown {
				return fmt.Errorf("%w: segment of known size", errEBML)
			}
			b = b[n+m:]
			continue
		case 0x1F43B675: // Cluster
			f.clusters++
			f.cluster = 0
			if unknown {
				b = b[n+m:] // elements follow inline
				continue
			}
		}
		if unknown {
			return fmt.Errorf("%w: unknown size of %x", errEBML, id)
		}
		if uint64(len(b)-n-m) < size {
			f.rest += len(b)
			return nil
		}
		body := b[n+m : n+m+int(size)]
		b = b[n+m+int(size):]
		switch id {
		case 0x1A45DFA3, 0x1549A966, 0x1654AE6B, 0xAE, 0xE1, 0x1F43B675: // EBML, Info, Tracks, TrackEntry, Audio, Cluster
			if err := f.parse(body); err != nil {
				return err
			}
		case 0x4282:
			f.docType = string(body)
		case 0x2AD7B1:
			f.scale = ebmlUint(body)
		case 0x86:
			f.codec = string(body)
		case 0xD7:
			f.track = ebmlUint(body)
		case 0x83:
			f.typ = ebmlUint(body)
		case 0x23E383:
			f.defDur = ebmlUint(body)
		case 0xB5:
			switch len(body) {
			case 4:
				f.rate = float64(math.Float32frombits(uint32(ebmlUint(body))))
			case 8:
				f.rate = math.Float64frombits(ebmlUint(body))
			}
		case 0x9F:
			f.channels = ebmlUint(body)
		case 0xE7:
			f.cluster = int64(ebmlUint(body))
		case 0xA3:
			tr, k, _ := ebmlVint(body, false)
			if k == 0 || len(body) < k+3 {
				return fmt.Errorf("%w: short block", errEBML)
			}
			if body[k+2]&0x06 != 0 {
				return fmt.Errorf("%w: unexpected lacing", errEBML)
			}
			f.blocks = append(f.blocks, webmBlock{track: tr, ms: f.cluster + int64(int16(ebmlUint(body[k:k+2]))), key: body[k+2]&0x80 != 0, data: body[k+3:]})
		}
	}
	return nil
}

func checkWebm(c *kit.C) {
	for i := 0; i < c.N(350, 6000); i++ {
		rnd := c.Rand("webm", i)
		durs := []time.Duration{20 * time.Millisecond, 10 * time.Millisecond, 2500 * time.Microsecond, time.Second * 1024 / 44100, 60 * time.Millisecond, 333333333, time.Millisecond,
			40 * time.Millisecond, 5 * time.Second, 33 * time.Second, 13*time.Hour + time.Millisecond}
		dur := durs[rnd.Intn(len(durs))]
		rate := someRate(rnd)
		ch := []int{1, 1, 2, 2, 2, 6, 8, 1 + rnd.Intn(16)}[rnd.Intn(8)]
		n := rnd.Intn(40)
		if i%7 == 0 { // across clusters
			n = int(70*time.Second/dur) + rnd.Intn(10)
			n = min(n, c.N(8000, 80000))
		}
		if dur > time.Hour { // more than 32 bits of milliseconds
			n = 40 + rnd.Intn(60)
		}
		fault := "none"
		if rnd.Intn(2) == 0 {
			fault = []string{"write", "write", "close", "both", "short"}[rnd.Intn(5)]
		}
		kind := []string{"pcm", "pcm", "ulaw", "opus"}[rnd.Intn(4)]
		c.Eval("webm %s rate=%d ch=%d dur=%v n=%d fault=%s", kind, rate, ch, dur, n, fault)
		c.Distinct(kind, rate, ch, dur, n, fault)
		ok := c.Within("webm", time.Minute, func() {
			switch kind {
			case "pcm":
				webmCase(c, rnd, kind, "A_PCM/INT/LIT", rate, ch, dur, n, fault, func(f *memFile) msdk.WriteCloser[msdk.PCM16Sample] {
					return webm.NewPCM16Writer(f, rate, ch, dur)
				}, func(sz int) msdk.PCM16Sample { return randPCM(rnd, sz) })
			case "ulaw":
				webmCase(c, rnd, kind, "A_TEST", rate, ch, dur, n, fault, func(f *memFile) msdk.WriteCloser[g711.ULawSample] {
					return webm.NewWriter[g711.ULawSample](f, "A_TEST", ch, rate, dur)
				}, func(sz int) g711.ULawSample { b := make([]byte, sz); rnd.Read(b); return b })
			case "opus":
				webmCase(c, rnd, kind, "A_OPUS", rate, ch, dur, n, fault, func(f *memFile) msdk.WriteCloser[opus.Sample] {
					return opus.NewWebmWriter(f, rate, ch, dur)
				}, func(sz int) opus.Sample { b := make([]byte, sz); rnd.Read(b); return b })
			}
		})
		if !ok {
			return
		}
		if i%10 == 0 {
			c.Eval("webm with bad frames %d", i)
			c.Within("webm", time.Minute, func() { webmBadFrames(c, rnd) })
		}
		if i%3 == 0 {
			c.Eval("webm closed during writes %d", i)
			if !c.Within("webm close", time.Minute, func() { webmCloseRace(c, rnd) }) {
				return
			}
		}
	}
}

// webmCloseRace closes the recording while it's being written: it has all samples which were accepted, and others are reported.
func webmCloseRace(c *kit.C, rnd *rand.Rand) {
	f := &memFile{failAfter: -1}
	dur := 20 * time.Millisecond
	w := webm.NewWriter[g711.ULawSample](f, "A_TEST", 1, 8000, dur)
	closers := 1 + rnd.Intn(2)
	at := rnd.Intn(60)
	started := make(chan struct{})
	var wg sync.WaitGroup
	for k := range closers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-started
			for range k * 3 {
				runtime.Gosched()
			}
			_ = w.Close()
		}()
	}
	var exp [][]byte
	rejected := 0
	for k := 0; k < at+50 && rejected < 3; k++ {
		if k == at {
			close(started)
		}
		s := g711.ULawSample{byte(k), byte(k >> 8), byte(rnd.Intn(256))}
		if err := w.WriteSample(s); err != nil {
			rejected++
			continue
		}
		if rejected > 0 {
			c.Fail("write-closed", "a write succeeds after one failed on a closed recording")
		}
		exp = append(exp, slices.Clone(s))
	}
	wg.Wait()
	if w.WriteSample(g711.ULawSample{1}) == nil {
		c.Fail("write-closed", "a write after Close succeeds")
	}
	if f.closed != 1 || f.late != 0 {
		c.Fail("file-close", "%d closers: the file is closed %d times, %d writes after that", closers, f.closed, f.late)
	}
	img, err := parseWebm(f.Bytes())
	if err != nil || img.rest != 0 || len(img.blocks) != len(exp) {
		c.Fail("close-race", "%v, %d blocks, %d samples were accepted", err, len(img.blocks), len(exp))
		return
	}
	for i, b := range img.blocks {
		if string(b.data) != string(exp[i]) || b.ms != (time.Duration(i)*dur).Milliseconds() {
			c.Fail("close-race", "block %d at %d ms has different data or time", i, b.ms)
		}
	}
	c.Count("closed during writes", 1)
	if rejected > 0 && len(exp) > at {
		c.Count("writes accepted and rejected around close", 1)
	}
	c.Distinct("close race", at, len(exp)-at, closers)
}

// webmBadFrames writes frames, some of which can't be copied: they are reported, and left out of the file.
func webmBadFrames(c *kit.C, rnd *rand.Rand) {
	f := &memFile{failAfter: -1}
	w := webm.NewWriter[badFrame](f, "A_TEST", 1, 8000, 20*time.Millisecond)
	var exp [][]byte
	for i := 0; i < 20; i++ {
		s := make(badFrame, 1+rnd.Intn(300))
		rnd.Read(s)
		s[0] = 0
		if rnd.Intn(4) == 0 {
			s[0] = byte(1 + rnd.Intn(255))
			c.Count("frames_not_copied", 1)
		} else {
			exp = append(exp, s)
		}
		if err := w.WriteSample(s); !errors.Is(err, s.failure()) {
			c.Fail("bad-frame", "write of a frame which fails to be copied with %v returns %v", s.failure(), err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fail("bad-frame", "close fails: %v", err)
	}
	img, err := parseWebm(f.Bytes())
	if err != nil || len(img.blocks) != len(exp) {
		c.Fail("bad-frame", "%v, %d blocks, expected %d", err, len(img.blocks), len(exp))
		return
	}
	for i, b := range img.blocks {
		if string(b.data) != string(exp[i]) {
			c.Fail("bad-frame", "block %d has different data", i)
		}
	}
}

func webmCase[T msdk.Frame](c *kit.C, rnd *rand.Rand, kind, codec string, rate, ch int, dur time.Duration, n int, fault string, open func(f *memFile) msdk.WriteCloser[T], gen func(sz int) T) {
	sizes := func() int {
		if n > 100 {
			return rnd.Intn(20)
		}
		if rnd.Intn(20) == 0 {
			return []int{32767, 32768, 65535, 65536, rnd.Intn(600000)}[rnd.Intn(5)]
		}
		return []int{0, 1, 2, rnd.Intn(130), 160, 960, rnd.Intn(20000)}[rnd.Intn(7)]
	}
	f := &memFile{failAfter: -1, err: someError(rnd, "injected")}
	if fault == "write" || fault == "both" {
		// anywhere: in the header, at blocks, or beyond the file
		f.failAfter = []int{0, rnd.Intn(300), rnd.Intn(2000), rnd.Intn(100000)}[rnd.Intn(4)]
	}
	if fault == "short" {
		f.failAfter, f.short = []int{rnd.Intn(300), rnd.Intn(2000), rnd.Intn(100000)}[rnd.Intn(3)], true
	}
	f.failClose = fault == "close" || fault == "both"
	w := open(f)
	if got := w.SampleRate(); got != rate {
		c.Fail("rate", "sample rate %d, expected %d", got, rate)
	}
	var exp [][]byte
	var werr error
	for i := 0; i < n; i++ {
		s := gen(sizes())
		data := make([]byte, s.Size())
		_, _ = s.CopyTo(data)
		if err := w.WriteSample(s); err != nil {
			werr = err
			break
		}
		exp = append(exp, data)
	}
	err := w.Close()
	if rnd.Intn(2) == 0 {
		// The file is complete: nothing is added to it, and it's reported.
		if rnd.Intn(2) == 0 {
			_ = w.Close()
		}
		if w.WriteSample(gen(10)) == nil {
			c.Fail("write-closed", "a write after Close succeeds")
		}
		if rnd.Intn(2) == 0 {
			_ = w.Close()
		}
		c.Count("used after close", 1)
	}
	if f.closed != 1 {
		c.Fail("file-close", "the file was closed %d times", f.closed)
	}
	if f.late != 0 {
		c.Fail("write-after-close", "%d writes to the file after it was closed", f.late)
	}
	failed := f.failAfter >= 0 && f.Len() >= f.failAfter && f.errs > 0
	img, perr := parseWebm(f.Bytes())
	if perr != nil {
		c.Fail("format", "%s: %v", kind, perr)
		return
	}
	switch {
	case fault == "none":
		if werr != nil || err != nil {
			c.Fail("error", "unexpected errors %v, %v", werr, err)
			return
		}
	case fault == "close":
		if werr != nil || !errors.Is(err, f.err) {
			c.Fail("close-error-lost", "got errors %v, %v", werr, err)
		}
	case fault == "short":
		if f.errs > 0 && werr == nil && err == nil {
			c.Fail("error-lost", "a part of the data was written to the file, no error is reported")
		}
		failed = f.errs > 0
	default:
		if !errors.Is(werr, f.err) && !errors.Is(err, f.err) && f.errs > 0 {
			c.Fail("error-lost", "file failed after %d bytes (%d written), got errors %v, %v", f.failAfter, f.Len(), werr, err)
		}
		if werr != nil && !errors.Is(werr, f.err) || err != nil && !errors.Is(err, f.err) {
			c.Fail("wrong-error", "got errors %v, %v", werr, err)
		}
		if failed {
			c.Count("file failures", 1)
		}
	}
	if !failed {
		if img.rest != 0 {
			c.Fail("format", "%d bytes of an incomplete element at the end", img.rest)
		}
		if len(img.blocks) != len(exp) {
			c.Fail("blocks", "%d blocks for %d samples", len(img.blocks), len(exp))
			return
		}
		if img.docType != "webm" || img.segments != 1 || img.scale != 1000000 {
			c.Fail("header", "type %q, %d segments, scale %d", img.docType, img.segments, img.scale)
		}
		if img.codec != codec || img.typ != 2 || img.rate != float64(rate) || img.channels != uint64(ch) || img.defDur != uint64(dur.Nanoseconds()) {
			c.Fail("track", "codec %q type %d rate %v channels %d duration %d; expected %q %d Hz %d %v", img.codec, img.typ, img.rate, img.channels, img.defDur, codec, rate, ch, dur)
		}
	}
	if len(img.blocks) > len(exp) && !failed {
		c.Fail("blocks", "%d blocks for %d samples", len(img.blocks), len(exp))
		return
	}
	for i, b := range img.blocks {
		if i >= len(exp) {
			break // the sample which reported the error of an earlier one
		}
		if b.track != img.track {
			c.Fail("block-track", "block %d has track %d, not %d", i, b.track, img.track)
			return
		}
		if ms := (time.Duration(i) * dur).Milliseconds(); b.ms != ms {
			c.Fail("block-time", "block %d of %v is at %d ms, expected %d", i, dur, b.ms, ms)
			return
		}
		if string(b.data) != string(exp[i]) {
			c.Fail("block-data", "block %d has different data: %d bytes, expected %d", i, len(b.data), len(exp[i]))
			return
		}
		if !b.key {
			c.Fail("block-key", "block %d of audio isn't a key frame", i)
			return
		}
	}
	c.Count("blocks", len(img.blocks))
	c.Count("clusters", img.clusters)
	if img.clusters > 3 {
		c.Count("files across clusters", 1)
		c.Sample("clusters", "%s, %d blocks of %v in %d clusters", kind, len(img.blocks), dur, img.clusters)
	}
}
