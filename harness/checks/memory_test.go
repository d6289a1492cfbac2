package checks

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/go-logr/logr"
	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/ring"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/webm"
	"github.com/livekit/protocol/logger"

	pmedia "github.com/pion/webrtc/v4/pkg/media"

	"verif/harness/kit"
	"verif/harness/native"
)

func init() {
	kit.Register("P01", kit.Check{
		Rule: "Long streams through each component, and many short lives of each component; after every few thousand steps the live Go heap, live native heap, goroutines and open " +
			"files are measured after a collection. They must not grow in all periods of a run. Distinct: (component, kind of life, period).",
		Floor: 80,
		Run:   checkMemory,
	})
}

// null is a writer that keeps nothing.
type null[T any] struct {
	rate int
	n    atomic.Int64
}

func (w *null[T]) String() string       { return "null" }
func (w *null[T]) SampleRate() int      { return w.rate }
func (w *null[T]) WriteSample(T) error  { w.n.Add(1); return nil }
func (w *null[T]) Close() error         { return nil }
func nullPCM(rate int) msdk.PCM16Writer { return &null[msdk.PCM16Sample]{rate: rate} }

type nullFile struct{}

func (nullFile) Write(p []byte) (int, error) { return len(p), nil }
func (nullFile) Close() error                { return nil }

type nullMedia struct{}

func (nullMedia) WriteSample(pmedia.Sample) error { return nil }

type nullRTP struct{}

func (nullRTP) String() string                                 { return "null" }
func (nullRTP) WriteRTP(h *prtp.Header, p []byte) (int, error) { return len(p), nil }
func (nullRTP) HandleRTP(h *prtp.Header, p []byte) error       { return nil }
func (nullRTP) Close()                                         {}

// failing is a writer that never works.
type failing struct{ rate int }

func (w *failing) String() string                     { return "failing" }
func (w *failing) SampleRate() int                    { return w.rate }
func (w *failing) WriteSample(msdk.PCM16Sample) error { return errInjected }
func (w *failing) Close() error                       { return errInjected }

type ignoreErrors struct{ msdk.PCM16Writer }

func (w *ignoreErrors) WriteSample(in msdk.PCM16Sample) error {
	_ = w.PCM16Writer.WriteSample(in)
	return nil
}

// fatHandler takes some memory.
type fatHandler struct {
	nullRTP
	_ [64]byte
}

// loopConn is a connection that keeps only the packets that aren't read yet.
type loopConn struct {
	*memConn
	peer *loopConn
}

func (l *loopConn) Write(b []byte) (int, error) {
	p := append([]byte{}, b...)
	select {
	case l.peer.in <- p:
	case <-l.done:
		return 0, net.ErrClosed
	case <-l.peer.done:
	}
	return len(b), nil
}

func loopLink() (*loopConn, *loopConn) {
	a, b := &loopConn{memConn: newMemConn()}, &loopConn{memConn: newMemConn()}
	a.peer, b.peer = b, a
	return a, b
}

type usage struct{ heap, native, goroutines, files int }

func measure() (u usage) {
	for k := 0; k < 3; k++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond) // cleanups run in background
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	ents, _ := os.ReadDir("/proc/self/fd")
	return usage{int(m.HeapAlloc), native.HeapUsed(), runtime.NumGoroutine(), len(ents)}
}

type memCase struct {
	name   string
	steps  int // per period
	bubble bool
	// open creates what lives during the test, and returns a function for each step and for the end of the test.
	open func(c *kit.C, rnd *rand.Rand) (step func(k int), done func())
}

// frames returns frames of different contents which are allocated in advance.
func somePCM(rnd *rand.Rand, n int) (out []msdk.PCM16Sample) {
	for k := 0; k < 16; k++ {
		out = append(out, randPCM(rnd, n))
	}
	return out
}

func memCases() (cases []memCase) {
	add := func(name string, steps int, open func(c *kit.C, rnd *rand.Rand) (func(k int), func())) {
		cases = append(cases, memCase{name, steps, false, open})
	}
	bubble := func(name string, steps int, open func(c *kit.C, rnd *rand.Rand) (func(k int), func())) {
		cases = append(cases, memCase{name, steps, true, open})
	}
	log := logger.LogRLogger(logr.Discard())
	// stream is a case for a writer of audio: a long stream, and many short ones.
	stream := func(name string, rate int, steps int, create func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer) {
		for _, kind := range []string{"long", "mixed sizes"} {
			add(name+" "+kind, steps, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
				w := create(c, rnd)
				in := somePCM(rnd, rate/50)
				return func(k int) {
					f := in[k%len(in)]
					if kind == "mixed sizes" {
						f = f[:1+rnd.Intn(len(f))]
					}
					if err := w.WriteSample(f); err != nil {
						c.Fail("write", "%s: %v", name, err)
					}
				}, func() { _ = w.Close() }
			})
		}
		add(name+" short lives", max(steps/10, 100), func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
			in := somePCM(rnd, rate/50)
			return func(k int) {
				w := create(c, rnd)
				for j := 0; j < 3; j++ {
					_ = w.WriteSample(in[(k+j)%len(in)])
				}
				_ = w.String()
				_ = w.Close()
			}, func() {}
		})
	}
	stream("re-framing, failing destination", 16000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return &ignoreErrors{msdk.FullFrames(&failing{16000}, 71)}
	})
	stream("resampling, failing destination", 16000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return &ignoreErrors{msdk.ResampleWriter(&failing{8000}, 16000)}
	})
	stream("re-framing", 16000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return msdk.FullFrames(nullPCM(16000), 317)
	})
	stream("resampling up", 8000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer { return msdk.ResampleWriter(nullPCM(48000), 8000) })
	stream("resampling down", 48000, 2000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer { return msdk.ResampleWriter(nullPCM(11025), 48000) })
	stream("file", 16000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return msdk.NewFileWriter[msdk.PCM16Sample](nullFile{}, 16000)
	})
	stream("fan-out", 16000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return msdk.MultiWriter[msdk.PCM16Sample]{nullPCM(16000), msdk.ResampleWriter(nullPCM(8000), 16000)}
	})
	stream("dump", 16000, 1500, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer { return msdk.DumpWriterPCM16("memory", nullPCM(16000)) })
	stream("WebM", 16000, 3000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return webm.NewPCM16Writer(nullFile{}, 16000, 1, 20*time.Millisecond)
	})
	stream("A-law", 8000, 4000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return g711.EncodeALaw(g711.DecodeALaw(nullPCM(8000)))
	})
	stream("u-law", 16000, 2000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
		return g711.EncodeULaw(g711.DecodeULaw(nullPCM(16000)))
	})
	stream("G.722", 16000, 1500, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer { return g722.Encode(g722.Decode(nullPCM(16000))) })
	stream("G.722 resampled", 8000, 1000, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer { return g722.Encode(g722.Decode(nullPCM(48000))) })
	for _, name := range []string{"PCMU/8000", "PCMA/8000", "G722/8000"} {
		stream("RTP "+name, 16000, 1500, func(c *kit.C, rnd *rand.Rand) msdk.PCM16Writer {
			codec := sdp.CodecByName(name).(rtp.AudioCodec)
			h := codec.DecodeRTP(nullPCM(16000), codec.Info().RTPDefType)
			w := codec.EncodeRTP(rtp.NewSeqWriter(handlerWriter{h}).NewStream(codec.Info().RTPDefType, codec.Info().RTPClockRate))
			if w.SampleRate() != 16000 {
				w = msdk.ResampleWriter(w, 16000)
			}
			return w
		})
	}
	add("media samples", 5000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		w := msdk.FromSampleWriter[opus.Sample](nullMedia{}, 48000, 20*time.Millisecond)
		p := make(opus.Sample, 200)
		return func(k int) { _ = w.WriteSample(p[:1+k%200]) }, func() { _ = w.Close() }
	})
	add("re-framing bytes", 5000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		in := make(msdk.PCM16Sample, 1000)
		w := msdk.FullFrames[msdk.PCM16Sample, int16](nullPCM(8000), 1)
		return func(k int) { _ = w.WriteSample(in[:k%1000]) }, func() { _ = w.Close() }
	})
	add("Opus", 300, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		dec, err := opus.Decode(nullPCM(48000), 2, log)
		if err != nil {
			c.T.Fatal(err)
		}
		var w [2]msdk.PCM16Writer
		for i := range w {
			if w[i], err = opus.Encode(dec, 1+i, log); err != nil {
				c.T.Fatal(err)
			}
		}
		in := somePCM(rnd, 1920)
		return func(k int) {
			// The number of channels changes often.
			n := k / 3 % 2
			if err := w[n].WriteSample(in[k%16][:960*(n+1)]); err != nil {
				c.Fail("write", "opus: %v", err)
			}
			if k%50 == 0 {
				_ = dec.WriteSample(opus.Sample{3, 0})
			}
		}, func() { _ = dec.Close() }
	})
	add("Opus short lives", 100, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		in := somePCM(rnd, 480)
		return func(k int) {
			dec, err := opus.Decode(nullPCM(24000), 1, log)
			if err != nil {
				c.T.Fatal(err)
			}
			w, err := opus.Encode(dec, 1, log)
			if err != nil {
				c.T.Fatal(err)
			}
			for j := 0; j < 3; j++ {
				_ = w.WriteSample(in[(k+j)%16])
			}
			_ = w.Close()
		}, func() {}
	})
	add("one-shot resampling", 400, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		in := somePCM(rnd, 441)
		var buf msdk.PCM16Sample
		return func(k int) { buf = msdk.Resample(buf[:0], allRates[k%len(allRates)], in[k%16], 22050) }, func() {}
	})
	add("switch", 400, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		s := msdk.NewSwitchWriter(8000)
		in := somePCM(rnd, 160)
		return func(k int) {
			if old := s.Swap(nullPCM([]int{8000, 16000, 48000}[k%3])); old != nil {
				_ = old.Close()
			}
			_ = s.WriteSample(in[k%16])
		}, func() { _ = s.Close() }
	})
	add("switch, abandoned writers", 400, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		s := msdk.NewSwitchWriter(8000)
		in := somePCM(rnd, 160)
		return func(k int) {
			_ = s.Swap(nullPCM([]int{8000, 16000, 48000}[k%3]))
			_ = s.WriteSample(in[k%16])
		}, func() { _ = s.Close() }
	})
	add("ring buffer", 5000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		b := ring.NewBuffer[*[64]byte](37)
		out := make([]*[64]byte, 40)
		return func(k int) {
			if k%5 == 4 {
				_, _ = b.Read(out[:k%40])
				clear(out)
				return
			}
			_, _ = b.Write([]*[64]byte{new([64]byte), new([64]byte)})
			_ = b.TryPush(new([64]byte))
		}, func() {}
	})
	add("pipe", 3000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		r, w := msdk.Pipe[msdk.PCM16Sample, int16](8000)
		in := somePCM(rnd, 160)
		done := make(chan struct{})
		go func() {
			defer close(done)
			buf := make(msdk.PCM16Sample, 97)
			for {
				if _, err := r.ReadSample(buf); err != nil {
					return
				}
			}
		}()
		return func(k int) { _ = w.WriteSample(in[k%16]) }, func() { _ = w.Close(); <-done }
	})
	add("pipe short lives", 500, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		in := somePCM(rnd, 160)
		return func(k int) {
			r, w := msdk.Pipe[msdk.PCM16Sample, int16](8000)
			done := make(chan struct{})
			go func() {
				defer close(done)
				_ = w.WriteSample(in[k%16])
				_ = w.Close()
			}()
			buf := make(msdk.PCM16Sample, 100)
			_, _ = r.ReadSample(buf)
			if k%2 == 0 {
				_ = r.Close()
			}
			for {
				if _, err := r.ReadSample(buf); err != nil {
					break
				}
			}
			<-done
		}, func() {}
	})
	for _, async := range []bool{false, true} {
		bubble(fmt.Sprintf("mixer, output channel %v", async), 1500, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
			var opts []mixer.MixerOptions
			if async {
				opts = append(opts, mixer.WithOutputChannelSize(4))
			}
			m, err := mixer.NewMixer(nullPCM(8000), 20*time.Millisecond, 1, opts...)
			if err != nil {
				c.T.Fatal(err)
			}
			in := somePCM(rnd, 160)
			var inputs []*mixer.Input
			return func(k int) {
				if k%4 == 0 {
					inputs = append(inputs, m.NewInput())
				}
				for _, i := range inputs {
					_ = i.WriteSample(in[k%16][:160-k%3])
				}
				if len(inputs) > 3 {
					_ = inputs[0].Close()
					inputs = append([]*mixer.Input{}, inputs[1:]...)
				}
				if k%200 == 0 {
					time.Sleep(500 * time.Millisecond)
				}
				time.Sleep(20 * time.Millisecond)
			}, m.Stop
		})
	}
	bubble("mixer short lives", 300, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		in := somePCM(rnd, 160)
		return func(k int) {
			m, err := mixer.NewMixer(nullPCM(8000), 20*time.Millisecond, 1, mixer.WithOutputChannel())
			if err != nil {
				c.T.Fatal(err)
			}
			i := m.NewInput()
			for j := 0; j < 4; j++ {
				_ = i.WriteSample(in[j])
				time.Sleep(20 * time.Millisecond)
			}
			m.Stop()
			_ = i.WriteSample(in[0])
			time.Sleep(20 * time.Millisecond)
		}, func() {}
	})
	add("mixer inputs come and go", 500, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		m, err := mixer.NewMixer(nullPCM(8000), 20*time.Millisecond, 1)
		if err != nil {
			c.T.Fatal(err)
		}
		in := somePCM(rnd, 160)
		return func(k int) {
			var ins []*mixer.Input
			for j := 0; j < 30; j++ {
				ins = append(ins, m.NewInput())
			}
			_ = ins[k%30].WriteSample(in[k%len(in)])
			for len(ins) > 0 {
				j := rnd.Intn(len(ins))
				if j%2 == 0 {
					m.RemoveInput(ins[j])
				}
				_ = ins[j].Close()
				ins = append(ins[:j], ins[j+1:]...)
			}
		}, m.Stop
	})
	// network is a stream with losses, duplicates, padding, reordering and jumps.
	network := func(rnd *rand.Rand, push func(p *prtp.Packet)) func(k int) {
		sn, ts := uint16(rnd.Intn(65536)), rnd.Uint32()
		var late *prtp.Packet
		return func(k int) {
			sn++
			ts += 160
			if k%1000 == 999 {
				sn += 10000
			}
			p := &prtp.Packet{Header: prtp.Header{Version: 2, Marker: k%3 == 0, SequenceNumber: sn, Timestamp: ts}, Payload: make([]byte, 160)}
			switch rnd.Intn(12) {
			case 0: // lost
			case 1, 2:
				push(p)
				push(p)
			case 3:
				if late == nil {
					late = p
				}
			case 4, 5:
				p.Payload, p.Padding, p.PaddingSize = nil, true, 10
				push(p)
			default:
				push(p)
			}
			if late != nil && k%5 == 0 {
				push(late)
				late = nil
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	bubble("jitter buffer", 4000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		b := jitter.NewBuffer(jitterDepack{}, 60*time.Millisecond, func([]jitter.ExtPacket) {})
		step := network(rnd, b.Push)
		return func(k int) {
			step(k)
			if k%700 == 0 {
				b.Flush()
			}
			_ = b.Stats()
		}, b.Close
	})
	bubble("jitter buffer of incomplete frames", 4000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		b := jitter.NewBuffer(jitterDepack{}, 60*time.Millisecond, func([]jitter.ExtPacket) {})
		sn := uint16(0)
		return func(k int) {
			sn += 2
			b.Push(&prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: sn}, Payload: make([]byte, 160)})
			time.Sleep(20 * time.Millisecond)
		}, b.Close
	})
	bubble("jitter handler", 4000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		h := rtp.HandleJitter(nullRTP{})
		return network(rnd, func(p *prtp.Packet) { _ = h.HandleRTP(&p.Header, p.Payload) }), h.Close
	})
	bubble("jitter handler short lives", 500, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		return func(k int) {
			h := rtp.HandleJitter(nullRTP{})
			step := network(rnd, func(p *prtp.Packet) { _ = h.HandleRTP(&p.Header, p.Payload) })
			for j := 0; j < 5; j++ {
				step(j)
			}
			h.Close()
		}, func() {}
	})
	add("RTP streams", 3000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		w := rtp.NewSeqWriter(nullRTP{})
		st := w.NewStream(0, 8000)
		p := make([]byte, 160)
		return func(k int) {
			_ = st.WritePayload(p, false)
			x := w.NewStream(101, 8000)
			_ = x.WritePayloadAtCurrent(p[:4], true)
			x.Delay(1000)
			_ = x.WritePayload(p[:4], false)
		}, func() {}
	})
	add("RTP mux", 3000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		m := rtp.NewMux(nil)
		return func(k int) {
			typ := byte(k)
			m.Register(typ, &fatHandler{})
			_ = m.HandleRTP(&prtp.Header{PayloadType: typ}, nil)
			if k%2 == 0 {
				m.SetDefault(&fatHandler{})
			}
			m.Register(typ, nil)
		}, func() {}
	})
	session := func(name string, steps int, open func(a, b net.Conn, rnd *rand.Rand) (rtp.Session, rtp.Session)) {
		add(name, steps, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
			ca, cb := loopLink()
			a, b := open(ca, cb, rnd)
			w, err := a.OpenWriteStream()
			if err != nil {
				c.T.Fatal(err)
			}
			got := make(chan struct{}, 1)
			end := make(chan struct{}, 8)
			readers := 1
			go func() {
				defer func() { end <- struct{}{} }()
				for {
					r, _, err := b.AcceptStream()
					if err != nil {
						return
					}
					readers++
					go func() {
						defer func() { end <- struct{}{} }()
						var h prtp.Header
						buf := make([]byte, 1500)
						for {
							if _, err := r.ReadRTP(&h, buf); err != nil {
								return
							}
							select {
							case got <- struct{}{}:
							default:
							}
						}
					}()
				}
			}()
			sn := uint16(0)
			return func(k int) {
					for j := 0; j < 4; j++ {
						sn++
						h := &prtp.Header{Version: 2, SSRC: uint32(1 + j%2), SequenceNumber: sn}
						p := make([]byte, 1+rnd.Intn(200))
						if j == 3 {
							_, _ = ca.Write(p) // malformed
							continue
						}
						_, _ = w.WriteRTP(h, p)
					}
					select {
					case <-got:
					case <-time.After(time.Second):
					}
					c.Tick()
				}, func() {
					_ = a.Close()
					_ = b.Close()
					for ; readers > 0; readers-- {
						<-end
					}
				}
		})
		add(name+" short lives", 300, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
			return func(k int) {
				ca, cb := loopLink()
				a, b := open(ca, cb, rnd)
				w, err := a.OpenWriteStream()
				if err != nil {
					c.T.Fatal(err)
				}
				done := make(chan struct{})
				go func() {
					defer close(done)
					if r, _, err := b.AcceptStream(); err == nil {
						_, _ = r.ReadRTP(&prtp.Header{}, make([]byte, 1500))
					}
					for {
						if _, _, err := b.AcceptStream(); err != nil {
							return
						}
					}
				}()
				_, _ = w.WriteRTP(&prtp.Header{Version: 2, SSRC: rnd.Uint32(), SequenceNumber: 1}, make([]byte, 100))
				_, _ = w.WriteRTP(&prtp.Header{Version: 2, SSRC: rnd.Uint32(), SequenceNumber: 1}, make([]byte, 100))
				_ = a.Close()
				if k%2 == 0 {
					time.Sleep(100 * time.Microsecond)
				}
				_ = b.Close()
				<-done
			}, func() {}
		})
	}
	session("RTP session", 2000, func(a, b net.Conn, rnd *rand.Rand) (rtp.Session, rtp.Session) {
		return rtp.NewSession(log, a), rtp.NewSession(log, b)
	})
	session("SRTP session", 1500, func(a, b net.Conn, rnd *rand.Rand) (rtp.Session, rtp.Session) {
		ka, kb := srtpPair(rnd, rnd.Intn(len(srtpProfiles)), nil)
		x, err := srtp.NewSession(log, a, ka)
		if err != nil {
			panic(err)
		}
		y, err := srtp.NewSession(log, b, kb)
		if err != nil {
			panic(err)
		}
		return x, y
	})
	add("ports", 300, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		ip := netip.MustParseAddr("127.0.0.1")
		return func(k int) {
			var conn *net.UDPConn
			var err error
			if k%2 == 0 {
				conn, err = rtp.ListenUDPPortRange(30000, 30010, ip)
			} else {
				conn, err = rtp.ListenUDPPortRangeWithConfig(30000, 30010, ip, &net.ListenConfig{})
			}
			if err == nil {
				_ = conn.Close()
			}
		}, func() {}
	})
	bubble("tones", 60, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		return func(k int) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			defer cancel()
			_ = tones.Play(ctx, nullPCM(8000), 1000, []tones.Tone{{Freq: []tones.Hz{440, 480}, Dur: 200 * time.Millisecond}, {Dur: 100 * time.Millisecond}})
		}, func() {}
	})
	bubble("DTMF", 60, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		w := rtp.NewSeqWriter(nullRTP{})
		st := w.NewStream(101, 8000)
		return func(k int) {
			if err := dtmf.Write(context.Background(), nullPCM(8000), st, st.GetCurrentTimestamp(), "1w#"); err != nil {
				c.Fail("dtmf", "%v", err)
			}
		}, func() {}
	})
	add("SDP calls", 250, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		ip := netip.MustParseAddr("10.0.0.1")
		return func(k int) {
			enc := sdp.Encryption(k % 3)
			o, err := sdp.NewOffer(ip, 5000+2*k%1000, enc)
			if err != nil {
				c.Fail("offer", "%v", err)
				return
			}
			data, _ := o.SDP.Marshal()
			o2, err := sdp.ParseOffer(data)
			if err != nil {
				c.Fail("offer", "%v", err)
				return
			}
			a, _, err := o2.Answer(ip, 6000, enc)
			if err != nil {
				c.Fail("answer", "%v", err)
				return
			}
			data, _ = a.SDP.Marshal()
			a2, err := sdp.ParseAnswer(data)
			if err == nil {
				_, err = a2.Apply(o, enc)
			}
			if err != nil {
				c.Fail("apply", "%v", err)
			}
			// Different texts, some of them are invalid.
			_, _ = sdp.Parse([]byte(mutate(rnd, string(data), []string{"a=rtpmap:", "PCMU", "9"})))
		}, func() {}
	})
	add("codec registry", 3000, func(c *kit.C, rnd *rand.Rand) (func(k int), func()) {
		return func(k int) {
			name := []string{"PCMU/8000", "pcma/8000", "g722/8000"}[k%3]
			msdk.CodecSetEnabled(name, false)
			_ = msdk.EnabledCodecs()
			_ = sdp.OfferCodecs()
			msdk.CodecSetEnabled(name, true)
		}, func() {}
	})
	return cases
}

// handlerWriter passes sent packets to a handler.
type handlerWriter struct{ h rtp.Handler }

func (w handlerWriter) String() string { return "handler" }
func (w handlerWriter) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	return len(p), w.h.HandleRTP(h, p)
}

// jitterDepack has frames of up to three packets, which end with a marker.
type jitterDepack struct{}

func (jitterDepack) Unmarshal(p []byte) ([]byte, error)         { return p, nil }
func (jitterDepack) IsPartitionHead(p []byte) bool              { return true }
func (jitterDepack) IsPartitionTail(marker bool, _ []byte) bool { return marker }

const memPeriods = 3

func checkMemory(c *kit.C) {
	var _ io.Writer = nullFile{}
	for i, mc := range memCases() {
		rnd := c.Rand("mem", i)
		steps := mc.steps * c.N(1, 20)
		var us []usage
		run := func() {
			step, done := mc.open(c, rnd)
			k := 0
			// The first period fills buffers and pools.
			for p := 0; p <= memPeriods; p++ {
				c.Eval("%s: %d steps, period %d", mc.name, steps, p)
				for j := 0; j < steps; j++ {
					step(k)
					if k++; k%100 == 0 {
						c.Tick()
					}
				}
				if mc.bubble {
					synctest.Wait()
				}
				us = append(us, measure())
				c.Distinct(mc.name, p)
			}
			done()
		}
		if mc.bubble {
			c.Bubble("memory", run)
		} else {
			run()
		}
		if len(us) != memPeriods+1 {
			continue
		}
		c.Count("steps", steps*(memPeriods+1))
		c.Sample(mc.name, "%d steps per period: %+v", steps, us)
		grows := func(what string, limit int, get func(u usage) int) {
			worst := 1 << 60
			for p := 1; p < len(us); p++ {
				worst = min(worst, get(us[p])-get(us[p-1]))
			}
			c.Max("max_min_growth_"+what, max(worst, 0))
			if worst > limit {
				c.Fail("growth: "+what, "%s: %s grows by at least %d with each %d steps: %+v", mc.name, what, worst, steps, us)
			}
		}
		// The base covers background noise of the runtime, and caches of the native allocator.
		grows("heap", 24<<10+steps, func(u usage) int { return u.heap })
		grows("native heap", 48<<10+4*steps, func(u usage) int { return u.native })
		grows("goroutines", 1, func(u usage) int { return u.goroutines })
		grows("files", 1, func(u usage) int { return u.files })
	}
}
