package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/webm"

	"verif/harness/kit"
)

func init() {
	kit.Register("F06", kit.Check{
		Rule: "Each kind of writer, and random chains of them, is run twice on the same random frames: with a fresh buffer for each write, and with one buffer that is " +
			"overwritten after each write and has guard values around the data. Distinct: (chain, frame sizes).",
		Floor: 300,
		Run:   checkBuffers,
	})
}

// bufStage is a writer under test: open returns its input and a function that closes it and returns what came out.
type bufStage[E any] struct {
	name string
	size int // fixed frame size, if any
	tol  int
	open func() (write func([]E) error, finish func() []int16)
}

// twin runs the stage with fresh and with reused buffers, and compares the output.
func twin[E int16 | byte](c *kit.C, rnd *rand.Rand, st bufStage[E], frames [][]E) {
	c.Distinct(st.name, len(frames), frames)
	var errs1, errs2 []bool
	write, finish := st.open()
	for _, f := range frames {
		errs1 = append(errs1, write(append([]E{}, f...)) != nil)
	}
	exp := finish()

	const guard = 64
	var big []E
	write, finish = st.open()
	for i, f := range frames {
		// One buffer for all writes, which has more capacity than the frame.
		if cap(big) < len(f)+2*guard || rnd.Intn(20) == 0 {
			big = make([]E, len(f)+2*guard+rnd.Intn(50))
		}
		for k := range big {
			big[k] = E(rnd.Int())
		}
		off := rnd.Intn(guard)
		buf := big[off : off+len(f)]
		if rnd.Intn(3) == 0 {
			buf = big[off : off+len(f) : off+len(f)]
		}
		copy(buf, f)
		before := append([]E{}, big...)
		errs2 = append(errs2, write(buf) != nil)
		if d := firstDiff(before, big); d < len(big) {
			where := "in the frame"
			if d < off || d >= off+len(f) {
				where = "around the frame"
			}
			c.Fail("modified/"+st.name, "write %d of %s changed the buffer of the caller %s (position %d of %d)", i, st.name, where, d-off, len(f))
			return
		}
		for k := range big {
			big[k] = E(rnd.Int())
		}
	}
	got := finish()
	if !equal(errs1, errs2) {
		c.Fail("errors/"+st.name, "%s: different errors with reused buffers", st.name)
		return
	}
	if len(exp) != len(got) {
		c.Fail("retained/"+st.name, "%s: output of %d values with reused buffers, %d with fresh ones", st.name, len(got), len(exp))
		return
	}
	for i := range exp {
		if d := int(exp[i]) - int(got[i]); d > st.tol || d < -st.tol {
			c.Fail("retained/"+st.name, "%s: output %d/%d is %d with reused buffers, %d with fresh ones", st.name, i, len(exp), got[i], exp[i])
			return
		}
	}
	c.Count("writes", len(frames))
	c.Count("output values", len(exp))
	if len(exp) == 0 && len(frames) > 3 {
		c.Count("runs without output", 1)
	}
}

func bytesAsPCM(b []byte) []int16 {
	out := make([]int16, len(b))
	for i, v := range b {
		out[i] = int16(v)
	}
	return out
}

// frameSink records frames with their boundaries.
type frameSink[T ~[]E, E int16 | byte] struct {
	rate int
	out  []int16
}

func (s *frameSink[T, E]) String() string  { return "frames" }
func (s *frameSink[T, E]) SampleRate() int { return s.rate }
func (s *frameSink[T, E]) Close() error    { return nil }
func (s *frameSink[T, E]) WriteSample(v T) error {
	s.out = append(s.out, int16(len(v)))
	for _, x := range v {
		s.out = append(s.out, int16(x))
	}
	return nil
}

// pcmTerminal is the end of a chain.
func pcmTerminal(c *kit.C, kind string, rate int, dir string) (msdk.PCM16Writer, func() []int16) {
	switch kind {
	case "frames":
		var out []msdk.PCM16Sample
		return msdk.NewPCM16FrameWriter(&out, rate), func() (r []int16) {
			for _, f := range out {
				r = append(r, int16(len(f)))
				r = append(r, f...)
			}
			return
		}
	case "buffer":
		var out msdk.PCM16Sample
		return msdk.NewPCM16BufferWriter(&out, rate), func() []int16 { return out }
	case "file":
		f := &memFile{failAfter: -1}
		return msdk.NewFileWriter[msdk.PCM16Sample](f, rate), func() []int16 { return bytesAsPCM(f.Bytes()) }
	case "webm":
		f := &memFile{failAfter: -1}
		return webm.NewPCM16Writer(f, rate, 1, 20*time.Millisecond), func() (r []int16) {
			img, err := parseWebm(f.Bytes())
			if err != nil {
				c.Fail("webm", "%v", err)
			}
			for _, b := range img.blocks {
				r = append(r, int16(len(b.data)))
				r = append(r, bytesAsPCM(b.data)...)
			}
			return
		}
	case "dump":
		name := filepath.Join(dir, "dump")
		snk := &frameSink[msdk.PCM16Sample, int16]{rate: rate}
		return msdk.DumpWriterPCM16(name, snk), func() []int16 {
			file := fmt.Sprintf("%s_ar%d.s16le", name, rate)
			data, err := os.ReadFile(file)
			if err != nil {
				c.Fail("dump", "%v", err)
			}
			_ = os.Remove(file)
			return append(snk.out, bytesAsPCM(data)...)
		}
	case "alaw", "ulaw", "g722", "opus":
		s := &sampleSink{}
		fin := func() (r []int16) {
			for _, v := range s.got {
				r = append(r, int16(len(v.Data)))
				r = append(r, bytesAsPCM(v.Data)...)
			}
			return
		}
		dur := 20 * time.Millisecond
		switch kind {
		case "alaw":
			return g711.EncodeALaw(msdk.FromSampleWriter[g711.ALawSample](s, rate, dur)), fin
		case "ulaw":
			return g711.EncodeULaw(msdk.FromSampleWriter[g711.ULawSample](s, rate, dur)), fin
		case "g722":
			return g722.Encode(msdk.FromSampleWriter[g722.Sample](s, rate, dur)), fin
		default:
			w, err := opus.Encode(msdk.FromSampleWriter[opus.Sample](s, rate, dur), 1, logger.GetLogger())
			if err != nil {
				panic(err)
			}
			return w, fin
		}
	case "rtp":
		w := &wire{}
		st := rtp.NewSeqWriter(w).NewStream(0, 8000)
		enc := g711.EncodeULaw(msdk.NopCloser[g711.ULawSample](rtp.NewMediaStreamOut[g711.ULawSample](st, rate)))
		return enc, func() (r []int16) {
			for _, p := range w.pkts {
				r = append(r, int16(p.h.SequenceNumber), int16(p.h.Timestamp), int16(len(p.payload)))
				r = append(r, bytesAsPCM(p.payload)...)
			}
			return
		}
	case "rtpbuf":
		var w rtp.Buffer
		st := rtp.NewSeqWriter(&w).NewStream(0, 8000)
		enc := g711.EncodeULaw(msdk.NopCloser[g711.ULawSample](rtp.NewMediaStreamOut[g711.ULawSample](st, rate)))
		return enc, func() (r []int16) {
			for _, p := range w {
				r = append(r, int16(p.SequenceNumber), int16(p.Timestamp), int16(len(p.Payload)))
				r = append(r, bytesAsPCM(p.Payload)...)
			}
			return
		}
	case "law loop": // to G.711 and back
		snk := &frameSink[msdk.PCM16Sample, int16]{rate: rate}
		return g711.EncodeALaw(g711.DecodeALaw(snk)), func() []int16 { return snk.out }
	}
	panic(kind)
}

func checkBuffers(c *kit.C) {
	dir, err := os.MkdirTemp("", "buffers")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)

	terms := []string{"frames", "buffer", "file", "webm", "dump", "alaw", "ulaw", "g722", "opus", "rtp", "rtpbuf", "law loop"}
	for i := 0; i < c.N(600, 12000); i++ {
		rnd := c.Rand("chain", i)
		term := terms[i%len(terms)]
		rate := 8000
		if term == "g722" {
			rate = []int{8000, 16000}[rnd.Intn(2)]
		} else if term == "opus" {
			rate = 48000
		}
		size := 0
		if term == "opus" || rnd.Intn(3) == 0 {
			size = rate / 50
		}
		stages := rnd.Intn(3)
		type stage struct {
			kind string
			arg  int
		}
		var list []stage
		name := term
		tol := 0
		for k := 0; k < stages; k++ {
			s := stage{kind: []string{"full", "multi", "switch", "resample"}[rnd.Intn(4)]}
			switch s.kind {
			case "full":
				s.arg = 1 + rnd.Intn(400)
				if term == "opus" {
					s.arg = rate / 50
				}
			case "resample":
				if term != "frames" && term != "buffer" || tol != 0 {
					s.kind = "multi"
				} else {
					s.arg = []int{16000, 48000, 11025}[rnd.Intn(3)]
					tol = 3
					size = 1 + rnd.Intn(1000)
				}
			}
			list = append(list, s)
			name = fmt.Sprintf("%s(%d)->%s", s.kind, s.arg, name)
		}
		open := func() (func([]int16) error, func() []int16) {
			w, fin := pcmTerminal(c, term, rate, dir)
			if term == "frames" && tol != 0 {
				var out msdk.PCM16Sample // boundaries of resampled frames are its own business
				w, fin = msdk.NewPCM16BufferWriter(&out, rate), func() []int16 { return out }
			}
			for _, s := range list {
				switch s.kind {
				case "full":
					w = msdk.FullFrames[msdk.PCM16Sample, int16](w, s.arg)
				case "multi":
					w = msdk.MultiWriter[msdk.PCM16Sample]{w, newPCMSink(w.SampleRate())}
				case "switch":
					sw := msdk.NewSwitchWriter(w.SampleRate())
					sw.Swap(w)
					w = sw
				case "resample":
					w = msdk.ResampleWriter(w, s.arg)
				}
			}
			return func(s []int16) error { return w.WriteSample(s) }, func() []int16 {
				if err := w.Close(); err != nil {
					c.Fail("close", "%s: %v", name, err)
				}
				return fin()
			}
		}
		var frames [][]int16
		long := rnd.Intn(5) == 0
		for k := 0; k < 1+rnd.Intn(25); k++ {
			n := size
			if n == 0 {
				n = rnd.Intn(500)
				if long && rnd.Intn(3) == 0 {
					n = rnd.Intn(20000)
				}
				if term == "g722" {
					n = n / 2 * 2
				}
			}
			frames = append(frames, randPCM(rnd, n))
		}
		c.Eval("chain %s rate=%d size=%d frames=%d", name, rate, size, len(frames))
		c.Sample(term, "%s, %d frames", name, len(frames))
		c.Try("chain", func() { twin(c, rnd, bufStage[int16]{name: name, tol: tol, open: open}, frames) })
	}

	// Decoders, directly and as RTP handlers.
	for i := 0; i < c.N(300, 5000); i++ {
		rnd := c.Rand("decode", i)
		kind := []string{"alaw", "ulaw", "g722", "g722/16", "opus"}[i%5]
		via := []string{"", "mux", "jitter"}[rnd.Intn(3)]
		var frames [][]byte
		if kind == "opus" {
			frames = opusPackets(rnd, 2+rnd.Intn(12))
		} else {
			long := rnd.Intn(5) == 0
			for k := 0; k < 1+rnd.Intn(20); k++ {
				b := make([]byte, rnd.Intn(300))
				if long && rnd.Intn(3) == 0 {
					b = make([]byte, rnd.Intn(20000))
				}
				rnd.Read(b)
				frames = append(frames, b)
			}
		}
		name := "decode " + kind + " " + via
		open := func() (func([]byte) error, func() []int16) {
			snk := &frameSink[msdk.PCM16Sample, int16]{rate: 8000}
			var h rtp.Handler
			var wr func([]byte) error
			switch kind {
			case "alaw":
				w := g711.DecodeALaw(snk)
				wr, h = func(b []byte) error { return w.WriteSample(b) }, rtp.NewMediaStreamIn[g711.ALawSample](w)
			case "ulaw":
				w := g711.DecodeULaw(snk)
				wr, h = func(b []byte) error { return w.WriteSample(b) }, rtp.NewMediaStreamIn[g711.ULawSample](w)
			case "g722", "g722/16":
				if kind == "g722/16" {
					snk.rate = 16000
				}
				w := g722.Decode(snk)
				wr, h = func(b []byte) error { return w.WriteSample(b) }, rtp.NewMediaStreamIn[g722.Sample](w)
			case "opus":
				snk.rate = 48000
				w, err := opus.Decode(snk, 1, logger.GetLogger())
				if err != nil {
					panic(err)
				}
				wr, h = func(b []byte) error { return w.WriteSample(b) }, rtp.NewMediaStreamIn[opus.Sample](w)
			}
			fin := func() []int16 { return snk.out }
			seq := uint16(65530)
			switch via {
			case "mux":
				m := rtp.NewMux(nil)
				m.Register(5, h)
				wr = func(b []byte) error {
					seq++
					return m.HandleRTP(&prtp.Header{Version: 2, PayloadType: 5, SequenceNumber: seq}, b)
				}
			case "jitter":
				j := rtp.HandleJitter(rtp.NewNopCloser(h))
				k := 0
				wr = func(b []byte) error {
					// the order of pairs is swapped, so packets are held in the buffer
					sn := uint16(65530 + k)
					if k > 0 {
						sn = uint16(65530 + (k - 1) ^ 1 + 1)
					}
					k++
					if len(b) == 0 {
						b = []byte{1} // the buffer takes empty packets for padding
					}
					return j.HandleRTP(&prtp.Header{Version: 2, Marker: k == 1, SequenceNumber: sn, Timestamp: uint32(sn) * 160}, b)
				}
				fin = func() []int16 { j.Close(); return snk.out }
			}
			return wr, fin
		}
		c.Eval("%s frames=%d", name, len(frames))
		c.Sample(name, "%d frames", len(frames))
		c.Try("decode", func() { twin(c, rnd, bufStage[byte]{name: name, open: open}, frames) })
	}

	// Byte frames to files.
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("bytes", i)
		kind := []string{"file", "webm", "sample", "pipe"}[i%4]
		var frames [][]byte
		for k := 0; k < 1+rnd.Intn(20); k++ {
			b := make([]byte, 1+rnd.Intn(300))
			if rnd.Intn(20) == 0 {
				b = make([]byte, 1+rnd.Intn(100000))
			}
			rnd.Read(b)
			frames = append(frames, b)
		}
		c.Eval("bytes %s frames=%d", kind, len(frames))
		twin(c, rnd, bufStage[byte]{name: "bytes " + kind, open: func() (func([]byte) error, func() []int16) {
			f := &memFile{failAfter: -1}
			switch kind {
			case "file":
				w := msdk.NewFileWriter[opus.Sample](f, 48000)
				return func(b []byte) error { return w.WriteSample(b) }, func() []int16 { _ = w.Close(); return bytesAsPCM(f.Bytes()) }
			case "webm":
				w := opus.NewWebmWriter(f, 48000, 2, 20*time.Millisecond)
				return func(b []byte) error { return w.WriteSample(b) }, func() (r []int16) {
					_ = w.Close()
					img, _ := parseWebm(f.Bytes())
					for _, b := range img.blocks {
						r = append(r, bytesAsPCM(b.data)...)
					}
					return
				}
			case "sample":
				s := &sampleSink{}
				w := msdk.FromSampleWriter[opus.Sample](s, 48000, time.Second)
				return func(b []byte) error { return w.WriteSample(b) }, func() (r []int16) {
					for _, v := range s.got {
						r = append(r, bytesAsPCM(v.Data)...)
					}
					return
				}
			default: // pipe with a reader of its own buffer
				r, w := msdk.Pipe[opus.Sample](48000)
				var out []byte
				done := make(chan struct{})
				go func() {
					defer close(done)
					buf := make(opus.Sample, 70)
					for {
						n, err := r.ReadSample(buf)
						out = append(out, buf[:n]...)
						if err != nil {
							return
						}
					}
				}()
				return func(b []byte) error { return w.WriteSample(b) }, func() []int16 {
					_ = w.Close()
					<-done
					return bytesAsPCM(out)
				}
			}
		}}, frames)
	}

	// Mixer inputs.
	for i := 0; i < c.N(40, 800); i++ {
		rnd := c.Rand("mixer", i)
		var frames [][]int16
		for k := 0; k < 5+rnd.Intn(30); k++ {
			frames = append(frames, randPCM(rnd, []int{160, 80, 320, rnd.Intn(400)}[rnd.Intn(4)]))
		}
		c.Eval("mixer frames=%d", len(frames))
		c.Bubble("mixer", func() {
			twin(c, rnd, bufStage[int16]{name: "mixer", open: func() (func([]int16) error, func() []int16) {
				var out []msdk.PCM16Sample
				m, err := mixer.NewMixer(msdk.NewPCM16FrameWriter(&out, 8000), 20*time.Millisecond, 1)
				if err != nil {
					panic(err)
				}
				in := m.NewInput()
				time.Sleep(7 * time.Millisecond) // not at the time of the mixing
				return func(s []int16) error {
						err := in.WriteSample(s)
						time.Sleep(20 * time.Millisecond)
						return err
					}, func() (r []int16) {
						time.Sleep(210 * time.Millisecond)
						m.Stop()
						time.Sleep(50 * time.Millisecond)
						for _, f := range out {
							r = append(r, f...)
						}
						return
					}
			}}, frames)
		})
	}

	// Sources neither: playback and digits leave frames of the caller as they are.
	for i := 0; i < c.N(20, 200); i++ {
		rnd := c.Rand("play", i)
		var frames []msdk.PCM16Sample
		for k := 0; k < 1+rnd.Intn(5); k++ {
			frames = append(frames, randPCM(rnd, 1+rnd.Intn(100)))
		}
		var orig []int16
		for _, f := range frames {
			orig = append(orig, f...)
		}
		list := append([]msdk.PCM16Sample{}, frames...)
		c.Eval("play %d", i)
		c.Bubble("play", func() {
			_ = msdk.PlayAudio[msdk.PCM16Sample](context.Background(), newPCMSink(8000), 20*time.Millisecond, frames)
		})
		var now []int16
		for k, f := range list {
			if len(frames[k]) != len(f) {
				c.Fail("play-modified", "list of frames was changed by the playback")
				return
			}
			now = append(now, f...)
		}
		c.Check(equal(orig, now), "play-modified", "frames were changed by the playback")
	}

	// Recorded packets are clones: headers with sources and extensions are reused too.
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("recorded", i)
		c.Eval("recorded %d", i)
		var got rtp.Buffer
		var exp [][]byte
		var h prtp.Header
		buf := make([]byte, 200)
		for k := 0; k < 1+rnd.Intn(8); k++ {
			p := randPacket(rnd, rnd.Uint32(), uint16(k), rnd.Intn(200))
			exp = append(exp, marshal(p))
			h.Version, h.Marker, h.SSRC, h.SequenceNumber, h.Timestamp, h.PayloadType = p.Version, p.Marker, p.SSRC, p.SequenceNumber, p.Timestamp, p.PayloadType
			h.CSRC = append(h.CSRC[:0], p.CSRC...)
			h.Extension, h.ExtensionProfile = p.Extension, p.ExtensionProfile
			h.Extensions = append(h.Extensions[:0], p.Extensions...)
			n := copy(buf, p.Payload)
			if _, err := got.WriteRTP(&h, buf[:n]); err != nil {
				c.Fail("record-error", "%v", err)
			}
			rnd.Read(buf)
			for j := range h.CSRC {
				h.CSRC[j] = rnd.Uint32()
			}
			c.Distinct("recorded", len(h.CSRC), len(h.Extensions), n)
		}
		for k, p := range got {
			if b := marshal(p); string(b) != string(exp[k]) {
				c.Fail("record", "recorded packet %d of %d is changed when the next ones are written: %x, expected %x", k, len(exp), b, exp[k])
			}
		}
		c.Check(len(got) == len(exp), "record-count", "%d packets are recorded, expected %d", len(got), len(exp))
	}

	// Packets behind a jitter buffer: the header is reused while they are held.
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("held", i)
		c.Eval("held %d", i)
		var got rtp.Buffer
		j := rtp.HandleJitter(rtp.NewNopCloser(rtp.HandlerFunc(func(h *rtp.Header, payload []byte) error {
			_, err := got.WriteRTP(h, payload)
			return err
		})))
		const n = 12
		exp := make([][]byte, n)
		var h prtp.Header
		buf := make([]byte, 200)
		for k := range n {
			id := k
			if k > 0 {
				id = min((k-1)^1+1, n-1) // pairs are swapped
			}
			p := randPacket(rnd, 5, uint16(65530+id), 1+rnd.Intn(200))
			exp[id] = marshal(p)
			h.Version, h.Marker, h.SSRC, h.SequenceNumber, h.Timestamp, h.PayloadType = p.Version, p.Marker, p.SSRC, p.SequenceNumber, p.Timestamp, p.PayloadType
			h.CSRC = append(h.CSRC[:0], p.CSRC...)
			h.Extension, h.ExtensionProfile = p.Extension, p.ExtensionProfile
			h.Extensions = append(h.Extensions[:0], p.Extensions...)
			m := copy(buf, p.Payload)
			if err := j.HandleRTP(&h, buf[:m]); err != nil {
				c.Fail("held-error", "%v", err)
			}
			rnd.Read(buf)
			h = prtp.Header{CSRC: h.CSRC, Extensions: h.Extensions}
			for j := range h.CSRC {
				h.CSRC[j] = rnd.Uint32()
			}
			clear(h.Extensions)
			c.Distinct("held", len(h.CSRC), len(h.Extensions), m)
		}
		j.Close()
		for k, p := range got {
			if b := marshal(p); string(b) != string(exp[k]) {
				c.Fail("held", "packet %d of %d is changed when the next ones are received: %x, expected %x", k, len(exp), b, exp[k])
			}
		}
		c.Check(len(got) == n, "held-count", "%d packets are delivered, expected %d", len(got), n)
	}

	// Packets: header and payload of events.
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("events", i)
		c.Eval("events %d", i)
		h := prtp.Header{Version: 2, Marker: true, PayloadType: 101, SequenceNumber: uint16(rnd.Intn(65536)), CSRC: []uint32{1, 2}}
		_ = h.SetExtension(1, []byte{1, 2, 3})
		pl := make([]byte, 4, 8)
		binary.BigEndian.PutUint32(pl, rnd.Uint32())
		before, bh := string(pl[:8]), h.Clone()
		m := rtp.NewMux(nil)
		m.Register(101, rtp.HandlerFunc(func(h *rtp.Header, payload []byte) error {
			dtmf.DecodeRTP(h, payload)
			return nil
		}))
		_ = m.HandleRTP(&h, pl)
		a, _ := h.Marshal()
		b, _ := bh.Marshal()
		c.Check(before == string(pl[:8]) && string(a) == string(b), "packet-modified", "packet was changed by handlers")
	}
}

// opusPackets encodes a few frames of noise and tone.
func opusPackets(rnd *rand.Rand, n int) (out [][]byte) {
	s := &sampleSink{}
	w, err := opus.Encode(msdk.FromSampleWriter[opus.Sample](s, 48000, 20*time.Millisecond), 1, logger.GetLogger())
	if err != nil {
		panic(err)
	}
	for i := 0; i < n; i++ {
		if err := w.WriteSample(randPCM(rnd, 960)); err != nil {
			panic(err)
		}
	}
	for _, v := range s.got {
		out = append(out, v.Data)
	}
	return
}
