package checks

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/rand"
	"net"
	"net/netip"
	"strings"
	"sync"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"

	"verif/harness/kit"
)

func init() {
	kit.Register("X01", kit.Check{
		Rule: "Conferences of 2-4 participants with random codecs and encryption, negotiated by SDP, over simulated networks (delay, reordering, loss), with DTMF, " +
			"participants which leave and return, and concurrent observers, in virtual time under the race detector. Distinct: (participants, codecs, encryption, network).",
		Floor: 15,
		Run:   checkCalls,
	})
}

// simConn is one end of a simulated network link.
type simConn struct {
	*memConn
	peer  *simConn
	mu    sync.Mutex
	delay func() time.Duration // negative to lose the packet
}

func (s *simConn) Write(b []byte) (int, error) {
	select {
	case <-s.done:
		return 0, net.ErrClosed
	default:
	}
	s.mu.Lock()
	d := s.delay()
	s.mu.Unlock()
	if d < 0 {
		return len(b), nil
	}
	p := bytes.Clone(b)
	time.AfterFunc(d, func() {
		select {
		case s.peer.in <- p:
		case <-s.peer.done:
		}
	})
	return len(b), nil
}

func simLink(a, b func() time.Duration) (*simConn, *simConn) {
	x, y := &simConn{memConn: newMemConn(), delay: a}, &simConn{memConn: newMemConn(), delay: b}
	x.peer, y.peer = y, x
	return x, y
}

// leg is a participant with both sides of its connection.
type leg struct {
	id               int
	freq             float64
	digits           string
	cconf, sconf     *sdp.MediaConfig
	csess, ssess     rtp.Session
	cseq             *rtp.SeqWriter
	cenc, senc       msdk.PCM16Writer
	cst              *rtp.Stream
	heard            *pcmSink
	sw               *msdk.SwitchWriter
	mix              *mixer.Mixer
	smux, cmux       *rtp.Mux
	mu               sync.Mutex
	got              strings.Builder
	away             bool
	inputs           map[int]*mixer.Input // by the participant who speaks
	firstGot, closed bool
}

func checkCalls(c *kit.C) {
	log := logger.GetLogger()
	for i := 0; i < c.N(24, 400); i++ {
		rnd := c.Rand("call", i)
		hostile := i%3 == 2
		c.Eval("call %d hostile=%v", i, hostile)
		c.Bubble("call", func() { runCall(c, rnd, log, hostile) })
		if c.Failed() {
			return
		}
	}
}

func newSession(log logger.Logger, conn net.Conn, conf *sdp.MediaConfig) (rtp.Session, error) {
	if conf.Crypto != nil {
		return srtp.NewSession(log, conn, conf.Crypto)
	}
	return rtp.NewSession(log, conn), nil
}

func runCall(c *kit.C, rnd *rand.Rand, log logger.Logger, hostile bool) {
	freqs := []float64{400, 700, 1100, 1500}
	names := []string{"PCMU/8000", "PCMA/8000", "G722/8000"}
	n := 2 + rnd.Intn(3)
	var legs []*leg
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	desc := ""

	// What a side does with received packets.
	receive := func(sess rtp.Session, mux *rtp.Mux) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r, _, err := sess.AcceptStream()
				if err != nil {
					return
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					h := rtp.HandleJitter(rtp.NewNopCloser(mux))
					defer h.Close()
					buf := make([]byte, rtp.MTUSize)
					var hdr prtp.Header
					for {
						n, err := r.ReadRTP(&hdr, buf)
						if err != nil {
							return
						}
						if err := h.HandleRTP(&hdr, buf[:n]); err != nil {
							c.Fail("handler", "%v", err)
							return
						}
					}
				}()
			}
		}()
	}

	for k := 0; k < n; k++ {
		l := &leg{id: k, freq: freqs[k], inputs: make(map[int]*mixer.Input)}
		on := map[string]bool{dtmf.SDPName: true}
		name := names[rnd.Intn(3)]
		on[strings.ToLower(name)] = true
		for _, x := range sdpCodecs {
			msdk.CodecSetEnabled(x.name, on[strings.ToLower(x.name)])
		}
		encC, encS := sdp.Encryption(rnd.Intn(3)), sdp.EncryptionAllow
		off, err := sdp.NewOffer(netip.MustParseAddr("10.0.0.1"), 1000+k, encC)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		text, _ := off.SDP.Marshal()
		for _, x := range sdpCodecs {
			msdk.CodecSetEnabled(x.name, true)
		}
		p, err := sdp.ParseOffer(text)
		if err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		ans, sconf, err := p.Answer(netip.MustParseAddr("10.0.0.2"), 2000+k, encS)
		if err != nil {
			c.Fail("answer", "%v", err)
			return
		}
		text, _ = ans.SDP.Marshal()
		pa, err := sdp.ParseAnswer(text)
		if err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		l.cconf, err = pa.Apply(off, encC)
		if err != nil {
			c.Fail("apply", "%v", err)
			return
		}
		l.sconf = sconf
		desc += fmt.Sprintf("%s enc=%d; ", name, encC)
		base := time.Duration(rnd.Intn(80)) * time.Millisecond
		net := func() func() time.Duration {
			r := rand.New(rand.NewSource(rnd.Int63()))
			return func() time.Duration {
				if !hostile {
					return base
				}
				if r.Intn(20) == 0 {
					return -1
				}
				return base + time.Duration(r.Intn(35))*time.Millisecond
			}
		}
		cc, sc := simLink(net(), net())
		if l.csess, err = newSession(log, cc, l.cconf); err != nil {
			c.Fail("session", "%v", err)
			return
		}
		if l.ssess, err = newSession(log, sc, l.sconf); err != nil {
			c.Fail("session", "%v", err)
			return
		}
		legs = append(legs, l)
	}
	c.Distinct(desc, hostile)
	c.Sample(fmt.Sprint("call hostile=", hostile), "%s", desc)

	for _, l := range legs {
		// Participant.
		w, _ := l.csess.OpenWriteStream()
		l.cseq = rtp.NewSeqWriter(w)
		codec := l.cconf.Audio.Codec
		l.cst = l.cseq.NewStream(l.cconf.Audio.Type, codec.Info().RTPClockRate)
		l.cenc = codec.EncodeRTP(l.cst)
		l.heard = newPCMSink([]int{8000, 16000, 48000}[rnd.Intn(3)])
		l.cmux = rtp.NewMux(nil)
		l.cmux.Register(l.cconf.Audio.Type, codec.DecodeRTP(l.heard, l.cconf.Audio.Type))
		// Server.
		w, _ = l.ssess.OpenWriteStream()
		scodec := l.sconf.Audio.Codec
		l.senc = scodec.EncodeRTP(rtp.NewSeqWriter(w).NewStream(l.sconf.Audio.Type, scodec.Info().RTPClockRate))
		var err error
		l.mix, err = mixer.NewMixer(l.senc, 20*time.Millisecond, 1)
		if err != nil {
			c.Fail("mixer", "%v", err)
			return
		}
		l.sw = msdk.NewSwitchWriter([]int{8000, 16000, 48000}[rnd.Intn(3)])
		l.smux = rtp.NewMux(nil)
		l.smux.Register(l.sconf.Audio.Type, scodec.DecodeRTP(l.sw, l.sconf.Audio.Type))
		l := l
		l.smux.Register(l.sconf.Audio.DTMFType, rtp.HandlerFunc(func(h *rtp.Header, payload []byte) error {
			if ev, ok := dtmf.DecodeRTP(h, payload); ok {
				l.mu.Lock()
				l.got.WriteByte(ev.Digit)
				l.mu.Unlock()
			}
			return nil
		}))
	}
	// Connect everybody to everybody else.
	connect := func(from *leg) msdk.PCM16Writer {
		var outs msdk.MultiWriter[msdk.PCM16Sample]
		for _, to := range legs {
			if to == from {
				continue
			}
			in := to.mix.NewInput()
			if in == nil {
				continue
			}
			outs = append(outs, msdk.ResampleWriter(in, from.sw.SampleRate()))
		}
		return outs
	}
	for _, l := range legs {
		l.sw.Swap(connect(l))
	}
	for _, l := range legs {
		receive(l.csess, l.cmux)
		receive(l.ssess, l.smux)
	}
	dur := 3200 * time.Millisecond
	leaver := -1
	if rnd.Intn(2) == 0 {
		leaver = rnd.Intn(n)
	}
	const leave, back = 1000 * time.Millisecond, 1600 * time.Millisecond
	for _, l := range legs {
		// Speaker.
		wg.Add(1)
		start := time.Duration(rnd.Intn(20)) * time.Millisecond
		go func() {
			defer wg.Done()
			time.Sleep(start)
			tick := time.NewTicker(20 * time.Millisecond)
			defer tick.Stop()
			rate := l.cenc.SampleRate()
			buf := make(msdk.PCM16Sample, rate/50)
			pos := 0
			for {
				select {
				case <-ctx.Done():
					return
				case <-tick.C:
				}
				for i := range buf {
					buf[i] = int16(6000 * math.Sin(2*math.Pi*l.freq*float64(pos)/float64(rate)))
					pos++
				}
				if err := l.cenc.WriteSample(buf); err != nil {
					if ctx.Err() == nil {
						c.Fail("speak", "%v", err)
					}
					return
				}
				for i := range buf {
					buf[i] = 32767
				}
			}
		}()
		// Digits.
		l.digits = ""
		for k := rnd.Intn(5); k > 0; k-- {
			l.digits += string(dtmfDigits[rnd.Intn(16)])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(start + 400*time.Millisecond)
			st := l.cseq.NewStream(l.cconf.Audio.DTMFType, dtmf.SampleRate)
			if err := dtmf.Write(ctx, nil, st, l.cst.GetCurrentTimestamp(), l.digits); err != nil && ctx.Err() == nil {
				c.Fail("dtmf", "%v", err)
			}
		}()
		// Observer.
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ctx.Err() == nil {
				for _, s := range []fmt.Stringer{l.smux, l.cmux, l.mix, l.sw, l.cseq, l.cenc, l.senc} {
					if s.String() == "" {
						c.Fail("string", "empty description of %T", s)
					}
				}
				_ = l.mix.SampleRate() + l.sw.SampleRate()
				_ = l.cst.GetCurrentTimestamp()
				time.Sleep(7 * time.Millisecond)
			}
		}()
		// One of the participants leaves and returns.
		if l.id == leaver {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(leave)
				if w := l.sw.Swap(nil); w != nil {
					_ = w.Close()
				}
				time.Sleep(back - leave)
				l.sw.Swap(connect(l))
			}()
		}
	}
	time.Sleep(dur)
	var heard []msdk.PCM16Sample
	for _, l := range legs {
		heard = append(heard, l.heard.all())
	}
	// Close in a random order, with everything running.
	cancel()
	for _, k := range rnd.Perm(n) {
		l := legs[k]
		ops := []func(){l.mix.Stop, func() { _ = l.csess.Close() }, func() { _ = l.ssess.Close() }, func() {
			if w := l.sw.Swap(nil); w != nil {
				_ = w.Close()
			}
		}}
		for _, j := range rnd.Perm(len(ops)) {
			ops[j]()
			if rnd.Intn(2) == 0 {
				time.Sleep(time.Duration(rnd.Intn(30)) * time.Millisecond)
			}
		}
	}
	wg.Wait()

	for _, l := range legs {
		rate := l.heard.SampleRate()
		s := heard[l.id]
		if exp := int(dur.Seconds() * float64(rate)); len(s) > exp+rate/20 || len(s) < exp-rate/2 {
			c.Fail("heard-length", "participant %d heard %d samples at %d Hz in %v", l.id, len(s), rate, dur)
			return
		}
		var fr []float64
		for _, o := range legs {
			fr = append(fr, o.freq)
		}
		win := rate / 5
		clean := 0
		for pos := 0; pos+win <= len(s); pos += win {
			amps, _ := fitTones(s[pos:pos+win], rate, fr)
			if amps[l.id] > 450 {
				c.Fail("echo", "participant %d hears itself at %d ms: %v", l.id, pos*1000/rate, amps)
				return
			}
			at := time.Duration(pos) * time.Second / time.Duration(rate)
			if hostile || at < 800*time.Millisecond {
				continue
			}
			for _, o := range legs {
				if o == l {
					continue
				}
				if o.id == leaver && at > leave-300*time.Millisecond && at < back+500*time.Millisecond {
					if mid := leave + 350*time.Millisecond; at >= mid && at+200*time.Millisecond <= back-50*time.Millisecond && amps[o.id] > 450 {
						c.Fail("gone", "participant %d hears %d at %v, which left at %v: %v", l.id, o.id, at, leave, amps)
						return
					}
					continue
				}
				if amps[o.id] < 5100 || amps[o.id] > 6700 {
					c.Fail("heard", "participant %d hears %d at %v with amplitude %.0f instead of 6000 (%.0f, %s)", l.id, o.id, at, amps[o.id], amps, desc)
					return
				}
				clean++
			}
		}
		c.Count("tones heard", clean)
		l.mu.Lock()
		got := l.got.String()
		l.mu.Unlock()
		if !hostile && got != l.digits {
			c.Fail("digits", "participant %d dialed %q, received %q", l.id, l.digits, got)
			return
		}
		k := 0
		for _, d := range []byte(got) { // in order, none invented
			for k < len(l.digits) && l.digits[k] != d {
				k++
			}
			if k >= len(l.digits) {
				c.Fail("digits", "participant %d dialed %q, received %q", l.id, l.digits, got)
				return
			}
			k++
		}
		c.Count("digits", len(got))
	}
	c.Count("participants", n)
}
