package checks

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/rtp"

	"verif/harness/kit"
)

func init() {
	kit.Register("T01", kit.Check{
		Rule: "Random interleavings of several streams over one writer with failing writes and sequence number wrap-around, then concurrent streams under the race " +
			"detector; sequence numbers are checked on what reached the transport. Distinct: interleavings of (stream, operation, outcome).",
		Floor: 100,
		Run:   checkSeq,
	})
	kit.Register("T02", kit.Check{
		Rule: "Random sequences of writes, repeated writes, delays, resets and failures on streams with different frame durations against a reference model; concurrent " +
			"writes of one stream are checked for consecutive timestamps, concurrent streams are checked for order and for the lag limit. Distinct: histories.",
		Floor: 200,
		Run:   checkTimestamps,
	})
	kit.Register("T03", kit.Check{
		Rule: "Random sequences of registrations and packets of all payload types against a map, handlers that reconfigure the mux, and concurrent histories decided " +
			"by a linearizability checker. Distinct: histories.",
		Floor: 200,
		Run:   checkMux,
	})
	kit.Register("T06", kit.Check{
		Rule: "Random networks (loss, duplication, delays within and beyond the latency) with reused packet buffers and failing handlers in virtual time. Distinct: " +
			"delivery histories.",
		Floor: 150,
		Run:   checkHandleJitter,
	})
	kit.Register("T08", kit.Check{
		Rule: "Random audio through each codec to packets and back with random frame sizes and failures; receive loops over random packet sequences with errors of " +
			"the reader and the handler. Distinct: (codec, frames, failures).",
		Floor: 200,
		Run:   checkCodecRTP,
	})
}

// wirePkt is a packet that reached the transport.
type wirePkt struct {
	h       prtp.Header
	payload []byte
}

// wire is a recording RTP writer with injected errors.
type wire struct {
	mu   sync.Mutex
	pkts []wirePkt
	hook func(n int, h *prtp.Header, payload []byte) error
	n    int
	busy atomic.Int32
	over atomic.Int32
}

func (w *wire) String() string { return "wire" }
func (w *wire) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	if w.busy.Add(1) != 1 {
		w.over.Add(1)
	}
	defer w.busy.Add(-1)
	w.mu.Lock()
	defer w.mu.Unlock()
	i := w.n
	w.n++
	if w.hook != nil {
		if err := w.hook(i, h, payload); err != nil {
			return 0, err
		}
	}
	w.pkts = append(w.pkts, wirePkt{h.Clone(), append([]byte{}, payload...)})
	return len(payload), nil
}

func checkSeq(c *kit.C) {
	for i := 0; i < c.N(300, 6000); i++ {
		rnd := c.Rand("seq", i)
		errInjected := someError(rnd, "injected")
		c.Eval("seq %d", i)
		w := &wire{}
		failProb := []int{0, 5, 50}[rnd.Intn(3)]
		failed := false
		w.hook = func(n int, h *prtp.Header, _ []byte) error {
			failed = rnd.Intn(100) < failProb
			if failed {
				return errInjected
			}
			return nil
		}
		s := rtp.NewSeqWriter(w)
		var streams []*rtp.Stream
		var types []byte
		for k := 0; k < 1+rnd.Intn(4); k++ {
			typ := byte(rnd.Intn(128))
			types = append(types, typ)
			if rnd.Intn(2) == 0 {
				streams = append(streams, s.NewStream(typ, 8000*(1+rnd.Intn(6))))
			} else {
				streams = append(streams, s.NewStreamWithDur(typ, uint32(rnd.Intn(1000))))
			}
		}
		n := 50
		if i%60 == 0 {
			n = 66000
			if c.Thorough() {
				n = 140000
			}
		}
		var exp []wirePkt
		var hist strings.Builder
		for k := 0; k < n; k++ {
			payload := make([]byte, rnd.Intn(8))
			rnd.Read(payload)
			marker := rnd.Intn(3) == 0
			st := rnd.Intn(len(streams) + 1)
			var err error
			typ := byte(rnd.Intn(128))
			op := rnd.Intn(2)
			if st == len(streams) {
				err = s.WriteEvent(&rtp.Event{Type: typ, Timestamp: uint32(k), Payload: payload, Marker: marker})
			} else {
				typ = types[st]
				if op == 0 {
					err = streams[st].WritePayload(payload, marker)
				} else {
					err = streams[st].WritePayloadAtCurrent(payload, marker)
				}
			}
			if n <= 50 {
				fmt.Fprint(&hist, st, op, failed, ",")
			}
			if failed {
				if err != errInjected {
					c.Fail("error", "failed write returned %v", err)
				}
				c.Count("failed_writes", 1)
				continue
			}
			if err != nil {
				c.Fail("error", "write returned %v", err)
			}
			exp = append(exp, wirePkt{prtp.Header{PayloadType: typ, Marker: marker}, payload})
		}
		checkWire(c, w.pkts)
		if len(w.pkts) != len(exp) {
			c.Fail("count", "%d packets written, expected %d", len(w.pkts), len(exp))
		}
		for k := range min(len(exp), len(w.pkts)) {
			g, e := w.pkts[k], exp[k]
			if g.h.PayloadType != e.h.PayloadType || g.h.Marker != e.h.Marker || !equal(g.payload, e.payload) {
				c.Fail("content", "packet %d: type %d marker %v, expected type %d marker %v", k, g.h.PayloadType, g.h.Marker, e.h.PayloadType, e.h.Marker)
				break
			}
		}
		c.Count("packets", len(w.pkts))
		c.Max("longest_stream", len(w.pkts))
		c.Distinct(hist.String(), n)
		c.Sample(fmt.Sprint(failProb), "%d streams, %d packets, %d%% failures, last SN %d", len(streams), len(w.pkts), failProb, w.pkts[max(0, len(w.pkts)-1)].h.SequenceNumber)
	}
	// Concurrent streams.
	for i := 0; i < c.N(60, 1500); i++ {
		c.Eval("concurrent %d", i)
		w := &wire{}
		hr := c.Rand("conc-hook", i)
		w.hook = func(int, *prtp.Header, []byte) error {
			if hr.Intn(20) == 0 {
				return errInjected
			}
			return nil
		}
		s := rtp.NewSeqWriter(w)
		var ok [6]int
		c.Within("concurrent", 60*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				wg.Add(1)
				rnd := c.Rand("conc", i, g)
				go func() {
					defer wg.Done()
					st := s.NewStream(byte(g), 8000)
					buf := make([]byte, 3)
					for k := 0; k < 150; k++ {
						buf[0], buf[1], buf[2] = byte(g), byte(ok[g]), byte(ok[g]>>8)
						var err error
						switch rnd.Intn(4) {
						case 0:
							err = st.WritePayloadAtCurrent(buf, g%2 == 0)
						case 1:
							err = s.WriteEvent(&rtp.Event{Type: byte(g), Payload: buf, Marker: g%2 == 0, Timestamp: uint32(k) * 160})
						default:
							err = st.WritePayload(buf, g%2 == 0)
						}
						if err == nil {
							ok[g]++
						}
						_ = s.String()
					}
				}()
			}
			wg.Wait()
		})
		if w.over.Load() != 0 {
			c.Fail("overlap", "transport is used by two writes at once")
		}
		checkWire(c, w.pkts)
		var next [6]int
		order := make([]byte, 0, len(w.pkts))
		for k, p := range w.pkts {
			g := int(p.h.PayloadType)
			if g >= 6 || len(p.payload) != 3 || int(p.payload[0]) != g || p.h.Marker != (g%2 == 0) {
				c.Fail("mixed", "packet %d mixes fields of different streams: type %d payload %v marker %v", k, g, p.payload, p.h.Marker)
				break
			}
			if n := int(p.payload[1]) | int(p.payload[2])<<8; n != next[g] {
				c.Fail("order", "stream %d: packet %d, expected %d", g, n, next[g])
				break
			}
			next[g]++
			order = append(order, byte(g))
		}
		if next != ok {
			c.Fail("conc-count", "%v packets on the wire, %v writes succeeded", next, ok)
		}
		c.Count("concurrent_packets", len(w.pkts))
		c.Distinct("conc", order)
	}
	// SSRC is random.
	seen := make(map[uint32]bool)
	for i := 0; i < 200; i++ {
		c.Eval("ssrc %d", i)
		w := &wire{}
		_ = rtp.NewSeqWriter(w).WriteEvent(&rtp.Event{})
		seen[w.pkts[0].h.SSRC] = true
	}
	if len(seen) < 198 {
		c.Fail("ssrc", "only %d different SSRC of 200", len(seen))
	}
}

func checkWire(c *kit.C, pkts []wirePkt) {
	for k, p := range pkts {
		if p.h.Version != 2 {
			c.Fail("version", "packet %d has version %d", k, p.h.Version)
			return
		}
		if k == 0 {
			continue
		}
		prev := pkts[k-1].h
		if p.h.SequenceNumber != prev.SequenceNumber+1 {
			c.Fail("seq", "packet %d has sequence number %d after %d", k, p.h.SequenceNumber, prev.SequenceNumber)
			return
		}
		if p.h.SSRC != prev.SSRC {
			c.Fail("ssrc-changed", "packet %d has SSRC %x after %x", k, p.h.SSRC, prev.SSRC)
			return
		}
	}
}

// tsModel models a stream.
type tsModel struct {
	ts, dur uint32
	follow  bool
}

func checkTimestamps(c *kit.C) {
	const limit = 25 // frames
	for i := 0; i < c.N(2500, 40000); i++ {
		rnd := c.Rand("ts", i)
		errInjected := someError(rnd, "injected")
		c.Eval("ts %d", i)
		w := &wire{}
		fail := false
		w.hook = func(int, *prtp.Header, []byte) error {
			if fail {
				return errInjected
			}
			return nil
		}
		s := rtp.NewSeqWriter(w)
		base := uint32(0)
		if i%3 == 0 {
			base = -uint32(1 + rnd.Intn(100000)) // wraps around
			if rnd.Intn(2) == 0 {
				base = -uint32(960 * (1 + rnd.Intn(20))) // through zero
			}
		} else if i%30 == 1 {
			base = rnd.Uint32()
		}
		var maxTS uint32
		set := false
		cur := func(m *tsModel) {
			switch d := int32(maxTS - m.ts); { // timestamps wrap around
			case !set || d < 0:
				maxTS, set = m.ts, true
			case d > int32(limit*m.dur):
				m.ts = maxTS
			}
		}
		var streams []*rtp.Stream
		var models []*tsModel
		for k := 0; k < 1+rnd.Intn(3); k++ {
			if rnd.Intn(2) == 0 {
				rate := []int{8000, 16000, 48000, 11025, 22050, 44100, 90000, 12000}[rnd.Intn(8)]
				streams = append(streams, s.NewStream(byte(k), rate))
				models = append(models, &tsModel{dur: uint32(rate / 50)})
			} else {
				d := uint32(1 + rnd.Intn(2000))
				streams = append(streams, s.NewStreamWithDur(byte(k), d))
				models = append(models, &tsModel{dur: d})
			}
			if base != 0 {
				streams[k].ResetTimestamp(base)
				models[k].ts = base
			}
		}
		hist := []string{fmt.Sprintf("base(%d)", base)}
		wraps := false
		bias := rnd.Intn(3)
		for k := 0; k < 60; k++ {
			st := rnd.Intn(len(streams))
			if bias == 0 && rnd.Intn(10) != 0 {
				st = 0
			}
			m, x := models[st], streams[st]
			n := len(w.pkts)
			fail = rnd.Intn(15) == 0
			op := rnd.Intn(10)
			switch {
			case op < 5, op < 7:
				if !m.follow {
					cur(m)
				}
				exp := m.ts
				var err error
				data := make([]byte, rnd.Intn(3))
				if op < 5 {
					err = x.WritePayload(data, false)
				} else {
					err = x.WritePayloadAtCurrent(data, true)
				}
				hist = append(hist, fmt.Sprintf("%d:write(inc=%v,fail=%v)", st, op < 5, fail))
				if fail {
					if err != errInjected || len(w.pkts) != n {
						c.Fail("fail", "%v: %v", hist, err)
					}
					break
				}
				if err != nil || len(w.pkts) != n+1 {
					c.Fail("write", "%v: %v", hist, err)
					break
				}
				if got := w.pkts[n].h.Timestamp; got != exp {
					c.Fail("timestamp", "%v: stream %d (duration %d) timestamp %d, expected %d", tail(hist, 20), st, m.dur, got, exp)
				}
				m.follow = op >= 5
				if op < 5 {
					m.ts += m.dur
				}
			case op < 8:
				if rnd.Intn(2) == 0 {
					d := uint32(rnd.Intn(5000))
					if rnd.Intn(20) == 0 {
						d = uint32(rnd.Intn(1 << 22)) // a long pause
					}
					m.ts += d
					hist = append(hist, fmt.Sprintf("%d:delay(%d)", st, d))
					x.Delay(d)
				} else {
					f := rnd.Intn(40)
					m.ts += uint32(f) * m.dur
					hist = append(hist, fmt.Sprintf("%d:delayN(%d)", st, f))
					x.DelayN(f)
				}
				cur(m)
				m.follow = false
			case op < 9:
				if rnd.Intn(4) == 0 {
					ts := base + uint32(rnd.Intn(200000))
					x.ResetTimestamp(ts)
					m.ts, m.follow = ts, false
					hist = append(hist, fmt.Sprintf("%d:reset(%d)", st, ts))
				}
			}
			fail = false
			wraps = wraps || base > 1<<31 && m.ts < 1<<31
			if got := x.GetCurrentTimestamp(); got != m.ts {
				c.Fail("current", "%v: stream %d current timestamp %d, expected %d", tail(hist, 20), st, got, m.ts)
				break
			}
		}
		if v := kit.Panics(func() { streams[0].DelayN(-1) }); v == nil {
			c.Fail("negative", "negative delay is accepted")
		}
		c.Count("packets", len(w.pkts))
		if wraps {
			c.Count("wrapped_histories", 1)
		}
		c.Distinct(hist)
		c.Sample(fmt.Sprint(bias), "%v", tail(hist, 8))
	}
	// The last timestamp of all streams never goes back, whoever updates it at the same time.
	c.Eval("concurrent updates of the last timestamp")
	c.Within("max-ts", 120*time.Second, func() {
		rnd := c.Rand("max")
		for i := 0; i < c.N(40000, 1000000); i++ {
			s := rtp.NewSeqWriter(&wire{})
			var wg sync.WaitGroup
			var top uint32
			for g := 0; g < 3; g++ {
				ts := uint32(1 + rnd.Intn(20)*160)
				top = max(top, ts)
				wg.Add(1)
				go func() {
					defer wg.Done()
					if got := s.CurTS(ts, 160); got != ts {
						c.Fail("max-ts", "timestamp %d is adjusted to %d, which is within the limit", ts, got)
					}
				}()
			}
			wg.Wait()
			if got := s.CurTS(0, 0); got != top {
				c.Fail("max-ts", "the last timestamp is %d after concurrent updates, expected %d", got, top)
			}
		}
		c.Count("concurrent_updates", c.N(40000, 1000000)*3)
	})
	// Frames of one stream come from several goroutines, over a transport that takes a while: each has its own time.
	for i := 0; i < c.N(40, 1000); i++ {
		c.Eval("shared stream frames %d", i)
		rnd := c.Rand("frames", i)
		w := &wire{}
		w.hook = func(n int, _ *prtp.Header, _ []byte) error {
			if n%16 == i%16 {
				time.Sleep(time.Duration(20+i) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
			return nil
		}
		start, dur := rnd.Uint32(), uint32(1+rnd.Intn(2000))
		st := rtp.NewSeqWriter(w).NewStreamWithDur(1, dur)
		st.ResetTimestamp(start)
		c.Within("frames", 60*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 2+i%4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 50; k++ {
						if err := st.WritePayload([]byte{byte(g), byte(k)}, false); err != nil {
							c.Fail("frames", "%v", err)
						}
					}
				}()
			}
			wg.Wait()
		})
		for k, p := range w.pkts {
			if exp := start + uint32(k)*dur; p.h.Timestamp != exp {
				c.Fail("frames-ts", "frame %d of a shared stream (duration %d) has timestamp %d, expected %d", k, dur, p.h.Timestamp, exp)
				break
			}
		}
		if end := start + uint32(len(w.pkts))*dur; st.GetCurrentTimestamp() != end {
			c.Fail("frames-ts", "shared stream is at %d after %d frames, expected %d", st.GetCurrentTimestamp(), len(w.pkts), end)
		}
		c.Count("shared_frames", len(w.pkts))
	}
	// One stream is used by several goroutines: timestamps are those that were set, with frames and delays after them.
	for i := 0; i < c.N(60, 1500); i++ {
		c.Eval("shared stream %d", i)
		w := &wire{}
		s := rtp.NewSeqWriter(w)
		const dur, step = 160, 1 << 24
		st := s.NewStreamWithDur(1, dur)
		st.ResetTimestamp(step)
		ok := func(ts uint32) bool { return ts%step%dur == 0 && ts%step < 10000*dur && ts >= step }
		c.Within("shared", 60*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				rnd := c.Rand("shared", i, g)
				go func() {
					defer wg.Done()
					for k := 0; k < 200; k++ {
						switch rnd.Intn(8) {
						case 0:
							st.ResetTimestamp(uint32(1+rnd.Intn(100)) * step)
						case 1:
							st.Delay(dur)
						case 2:
							st.DelayN(rnd.Intn(3))
						case 3:
							_ = st.WritePayloadAtCurrent([]byte{byte(k)}, true)
						case 4, 5:
							if ts := st.GetCurrentTimestamp(); !ok(ts) {
								c.Fail("shared-current", "timestamp of the stream is %#x", ts)
							}
						default:
							_ = st.WritePayload([]byte{byte(k)}, false)
						}
					}
				}()
			}
			wg.Wait()
		})
		for _, p := range w.pkts {
			if !ok(p.h.Timestamp) {
				c.Fail("shared-ts", "timestamp of a packet is %#x", p.h.Timestamp)
				break
			}
		}
		c.Count("shared_packets", len(w.pkts))
	}
	for i := 0; i < c.N(80, 2000); i++ {
		c.Eval("concurrent %d", i)
		base := uint32(0)
		if i%2 == 0 {
			base = -uint32(1 + c.Rand("base", i).Intn(40000)) // wraps around
			if i%4 == 0 {
				base = -(160 + -base/160*160) // through zero
			}
		}
		var sent atomic.Uint32 // max timestamp that was already sent
		sent.Store(base)
		w := &wire{}
		w.hook = func(_ int, h *prtp.Header, _ []byte) error {
			for {
				o := sent.Load()
				if int32(h.Timestamp-o) <= 0 || sent.CompareAndSwap(o, h.Timestamp) {
					return nil
				}
			}
		}
		s := rtp.NewSeqWriter(w)
		c.Within("concurrent", 60*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				rnd := c.Rand("conc", i, g)
				go func() {
					defer wg.Done()
					const dur = 160
					st := s.NewStreamWithDur(byte(g), dur)
					st.ResetTimestamp(base)
					for k := 0; k < 200; k++ {
						before := sent.Load()
						if rnd.Intn(30) == 0 {
							st.DelayN(rnd.Intn(60))
						}
						cnt := 1
						if rnd.Intn(4) == 0 {
							_ = st.WritePayloadAtCurrent([]byte{byte(k), 1}, true)
							cnt = 2
						}
						_ = st.WritePayload([]byte{byte(k), byte(cnt)}, false)
						if next := st.GetCurrentTimestamp(); int32(before-(next-dur+limit*dur)) > 0 {
							c.Fail("lag", "stream %d writes at %d, another one was already at %d", g, next-dur, before)
						}
						if rnd.Intn(8) == 0 {
							time.Sleep(time.Microsecond)
						}
					}
				}()
			}
			wg.Wait()
		})
		last := make(map[byte]prtp.Header)
		lastPl := make(map[byte][]byte)
		jumps := 0
		for k, p := range w.pkts {
			t := p.h.PayloadType
			if l, ok := last[t]; ok {
				same := lastPl[t][0] == p.payload[0]
				if same && l.Timestamp != p.h.Timestamp {
					c.Fail("same-ts", "packet %d of one event has timestamp %d after %d", k, p.h.Timestamp, l.Timestamp)
				}
				if !same && int32(p.h.Timestamp-(l.Timestamp+160)) < 0 {
					c.Fail("ts-order", "stream %d: timestamp %d after %d", t, p.h.Timestamp, l.Timestamp)
				}
				if !same && int32(p.h.Timestamp-(l.Timestamp+160)) > 0 {
					jumps++
				}
			}
			last[t], lastPl[t] = p.h, p.payload
		}
		c.Count("concurrent_jumps", jumps)
		c.Count("concurrent_packets", len(w.pkts))
		c.Distinct("conc", jumps, i)
	}
}

// idHandler is an RTP handler with an identity.
type idHandler struct {
	id  int
	on  func(id int, h *prtp.Header, payload []byte) error
	cls atomic.Int32
}

func (h *idHandler) String() string { return fmt.Sprintf("H%d", h.id) }
func (h *idHandler) HandleRTP(hd *prtp.Header, p []byte) error {
	return h.on(h.id, hd, p)
}
func (h *idHandler) Close() { h.cls.Add(1) }

// slowClose takes a while to close.
type slowClose struct{ *idHandler }

func (h slowClose) Close() {
	h.idHandler.Close()
	time.Sleep(200 * time.Millisecond)
}

func checkMux(c *kit.C) {
	c.Eval("nil mux")
	c.Try("nil-mux", func() {
		var m *rtp.Mux
		if err := m.HandleRTP(&prtp.Header{}, nil); err != nil {
			c.Fail("nil-mux", "%v", err)
		}
	})
	for i := 0; i < c.N(1500, 25000); i++ {
		rnd := c.Rand("mux", i)
		errInjected := someError(rnd, "injected")
		c.Eval("mux %d", i)
		var got []int
		var gotH *prtp.Header
		var gotP []byte
		var ret error
		id := 0
		var m *rtp.Mux
		var model [256]int
		def := 0
		newH := func() *idHandler {
			id++
			return &idHandler{id: id, on: func(id int, h *prtp.Header, p []byte) error {
				got, gotH, gotP = append(got, id), h, p
				return ret
			}}
		}
		if rnd.Intn(2) == 0 {
			m = rtp.NewMux(nil)
		} else {
			m = rtp.NewMux(newH())
			def = id
		}
		var hist []string
		types := []int{0, 1, 95, 96, 97, 127, 34, 35, 101, 128, 255}
		for k := 0; k < 80; k++ {
			typ := types[rnd.Intn(len(types))]
			if rnd.Intn(4) == 0 {
				typ = rnd.Intn(256)
			}
			switch rnd.Intn(6) {
			case 0, 1:
				if rnd.Intn(3) == 0 {
					m.Register(byte(typ), nil)
					model[typ] = 0
				} else {
					m.Register(byte(typ), newH())
					model[typ] = id
				}
				hist = append(hist, fmt.Sprintf("reg(%d,%d)", typ, model[typ]))
			case 2:
				if rnd.Intn(3) == 0 {
					m.SetDefault(nil)
					def = 0
				} else {
					m.SetDefault(newH())
					def = id
				}
				hist = append(hist, fmt.Sprintf("def(%d)", def))
			default:
				ret = nil
				if rnd.Intn(3) == 0 {
					ret = errInjected
				}
				got = nil
				h := &prtp.Header{PayloadType: byte(typ), SequenceNumber: uint16(k)}
				p := []byte{byte(k)}
				err := m.HandleRTP(h, p)
				exp := model[typ]
				if exp == 0 {
					exp = def
				}
				hist = append(hist, fmt.Sprintf("pkt(%d)=%v", typ, got))
				switch {
				case exp == 0:
					if len(got) != 0 || err != nil {
						c.Fail("unhandled", "%v: packet of type %d: handlers %v, error %v", tail(hist, 10), typ, got, err)
					}
				case len(got) != 1 || got[0] != exp:
					c.Fail("handler", "%v: packet of type %d went to %v, expected %d", tail(hist, 10), typ, got, exp)
				case err != ret:
					c.Fail("error", "handler returned %v, mux %v", ret, err)
				case gotH != h && fmt.Sprint(*gotH) != fmt.Sprint(*h) || !equal(gotP, p):
					c.Fail("packet", "handler got another packet")
				}
			}
			if rnd.Intn(20) == 0 {
				s := m.String()
				for t, x := range model {
					if x != 0 && !strings.Contains(s, fmt.Sprintf("(T=%d -> H%d)", t, x)) {
						c.Fail("string", "handler of type %d is not listed in %q", t, s)
					}
				}
			}
		}
		c.Count("operations", len(hist))
		c.Distinct(hist)
		c.Sample("history", "%s", tail(hist, 10))
	}
	// Handlers may reconfigure the mux.
	for i := 0; i < c.N(50, 500); i++ {
		c.Eval("reentrant %d", i)
		c.Within("reentrant", 60*time.Second, func() {
			m := rtp.NewMux(nil)
			typ := byte([]int{0, 96, 120}[i%3])
			calls := 0
			second := &idHandler{id: 2, on: func(int, *prtp.Header, []byte) error { calls += 10; return nil }}
			m.Register(typ, &idHandler{id: 1, on: func(int, *prtp.Header, []byte) error {
				calls++
				m.Register(typ, second)
				m.SetDefault(second)
				_ = m.String()
				return nil
			}})
			_ = m.HandleRTP(&prtp.Header{PayloadType: typ}, nil)
			_ = m.HandleRTP(&prtp.Header{PayloadType: typ}, nil)
			if calls != 11 {
				c.Fail("reentrant", "handler calls: %d", calls)
			}
		})
		c.Distinct("reentrant", i%3)
	}
	for i := 0; i < c.N(250, 5000); i++ {
		c.Eval("concurrent %d", i)
		muxHistory(c, i)
	}
}

type muxIn struct {
	op  string // reg, def, pkt
	typ int
	id  int
}

func muxHistory(c *kit.C, i int) {
	var mu sync.Mutex
	var ops []porcupine.Operation
	m := rtp.NewMux(nil)
	types := []byte{0, 100}
	start := time.Now()
	type ctxKey struct{ got int }
	var ids atomic.Int32
	c.Within("concurrent", 60*time.Second, func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			rnd := c.Rand("conc", i, g)
			go func() {
				defer wg.Done()
				for k := 0; k < 8; k++ {
					ti := rnd.Intn(2)
					in := muxIn{typ: ti}
					out := 0
					t0 := time.Since(start)
					switch rnd.Intn(5) {
					case 0, 1:
						in.op, in.id = "reg", int(ids.Add(1))
						if rnd.Intn(3) == 0 {
							in.id = 0
							m.Register(types[ti], nil)
							break
						}
						m.Register(types[ti], &idHandler{id: in.id, on: muxNote})
					case 2:
						in.op, in.id = "def", int(ids.Add(1))
						m.SetDefault(&idHandler{id: in.id, on: muxNote})
					default:
						in.op = "pkt"
						res := &muxRes{}
						err := m.HandleRTP(&prtp.Header{PayloadType: types[ti], Timestamp: uint32(g)}, muxPayload(res))
						out = int(res.id.Load())
						if n := res.n.Load(); n > 1 || err != nil {
							c.Fail("conc-calls", "packet is handled %d times, error %v", n, err)
						}
						muxDone(res)
					}
					t1 := time.Since(start)
					mu.Lock()
					ops = append(ops, porcupine.Operation{ClientId: g, Input: in, Call: t0.Nanoseconds(), Output: out, Return: t1.Nanoseconds()})
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	})
	model := porcupine.Model{
		Init: func() any { return [3]int{} },
		Step: func(st, in, out any) (bool, any) {
			s, op := st.([3]int), in.(muxIn)
			switch op.op {
			case "reg":
				s[op.typ] = op.id
				return true, s
			case "def":
				s[2] = op.id
				return true, s
			}
			exp := s[op.typ]
			if exp == 0 {
				exp = s[2]
			}
			return out.(int) == exp, s
		},
		DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Fail("linearizable", "history is not linearizable: %+v", ops)
	case porcupine.Ok:
		c.Count("linearizable_histories", 1)
	}
	c.Count("concurrent_ops", len(ops))
	var d []any
	for _, o := range ops {
		d = append(d, o.ClientId, o.Input, o.Output)
	}
	c.Distinct(d...)
}

// muxRes is a result of one packet, which is found by its payload.
type muxRes struct{ id, n atomic.Int32 }

var muxResults sync.Map

func muxPayload(r *muxRes) []byte {
	b := make([]byte, 1)
	muxResults.Store(&b[0], r)
	r2 := b
	muxResults.Store(r, &r2[0])
	return b
}

func muxDone(r *muxRes) {
	if k, ok := muxResults.LoadAndDelete(r); ok {
		muxResults.Delete(k)
	}
}

func muxNote(id int, _ *prtp.Header, p []byte) error {
	if v, ok := muxResults.Load(&p[0]); ok {
		r := v.(*muxRes)
		r.id.Store(int32(id))
		r.n.Add(1)
	}
	return nil
}

func checkHandleJitter(c *kit.C) {
	for i := 0; i < c.N(500, 10000); i++ {
		rnd := c.Rand("hj", i)
		c.Eval("jitter handler %d", i)
		c.Bubble("jitter-handler", func() { runHandleJitter(c, rnd, i) })
	}
	for i := 0; i < c.N(200, 3000); i++ {
		rnd := c.Rand("hj-slow", i)
		c.Eval("slow handler %d", i)
		c.Bubble("jitter-handler-slow", func() { runSlowJitter(c, rnd) })
	}
}

// runSlowJitter closes the jitter buffer while it passes expired packets to a handler that is slow.
func runSlowJitter(c *kit.C, rnd *rand.Rand) {
	const latency = 60 * time.Millisecond
	slow := time.Duration(2+2*rnd.Intn(30)) * time.Millisecond
	n := 1 + rnd.Intn(10)
	at := rnd.Intn(n)
	base := uint16(rnd.Intn(65536))
	h := &idHandler{id: 1}
	var calls, bad atomic.Int32
	var sleep atomic.Int64
	h.on = func(_ int, hd *prtp.Header, p []byte) error {
		if h.cls.Load() != 0 {
			bad.Add(1)
		}
		calls.Add(1)
		time.Sleep(time.Duration(sleep.Load()))
		return nil
	}
	jh := rtp.HandleJitter(h)
	push := func(k int) {
		if err := jh.HandleRTP(&prtp.Header{Version: 2, SequenceNumber: base + uint16(k)}, []byte{byte(k)}); err != nil {
			c.Fail("slow-error", "%v", err)
		}
	}
	push(0)
	k := 1
	for j := 0; j < n; j++ {
		k += 1 + rnd.Intn(2)
		if j == 0 {
			k++ // there is a hole, so everything waits for the deadline
		}
		push(k)
	}
	sleep.Store(int64(slow))
	time.Sleep(latency + time.Duration(at)*slow + slow/2)
	synctest.Wait()
	before := calls.Load()
	if before != int32(at)+2 {
		c.Fail("slow-late", "%d packets are handled %v after the deadline, each in %v, expected %d", before-1, time.Duration(at)*slow+slow/2, slow, at+1)
	}
	jh.Close()
	time.Sleep(time.Hour)
	if bad.Load() != 0 || calls.Load() != before {
		c.Fail("slow-closed", "%d of %d packets are handled after the next handler was closed (%d before)", calls.Load()-before, n, before)
	}
	if h.cls.Load() != 1 {
		c.Fail("slow-close", "next handler is closed %d times", h.cls.Load())
	}
	c.Count("closed during delivery", 1)
	c.Distinct("slow", n, at)
}

func runHandleJitter(c *kit.C, rnd *rand.Rand, id int) {
	errInjected := someError(rnd, "injected")
	const latency = 60 * time.Millisecond
	start := time.Now()
	type delivery struct {
		at time.Duration
		sn uint16
	}
	var out []delivery
	failProb := []int{0, 0, 0, 10, 10, 70, 100}[rnd.Intn(7)]
	spacing := []time.Duration{20, 20, 20, 4, 1}[rnd.Intn(5)] * time.Millisecond
	errsOut := 0
	unreported := false // set by calls of the handler, which are serialized by the buffer
	type sent struct {
		h       prtp.Header
		payload []byte
		first   time.Duration
	}
	base := uint16(rnd.Intn(65536))
	sentBy := make(map[uint16]*sent)
	seen := make(map[uint16]bool)
	h := &idHandler{id: 1}
	h.on = func(_ int, hd *prtp.Header, p []byte) error {
		sn := hd.SequenceNumber
		s := sentBy[sn]
		if h.cls.Load() != 0 {
			c.Fail("closed", "packet %d is handled after the next handler was closed", sn)
		}
		if s == nil {
			c.Fail("unknown", "packet %d was never received", sn)
			return nil
		}
		if seen[sn] {
			c.Fail("twice", "packet %d is delivered twice", sn)
		}
		seen[sn] = true
		if fmt.Sprint(*hd) != fmt.Sprint(s.h) || !equal(p, s.payload) {
			c.Fail("changed", "packet %d is changed: %+v %v, expected %+v %v", sn, *hd, p, s.h, s.payload)
		}
		out = append(out, delivery{time.Since(start), sn})
		if rnd.Intn(100) < failProb {
			errsOut++
			unreported = true
			return errInjected
		}
		return nil
	}
	var lost, dropped uint64
	jh := rtp.HandleJitter(slowClose{h}, jitter.WithPacketLossHandler(func(l, d uint64) { lost, dropped = l, d }))
	_ = jh.String()
	n := 30 + rnd.Intn(100)
	loss := []int{0, 0, 3, 15}[rnd.Intn(4)]
	dup := []int{0, 0, 10}[rnd.Intn(3)]
	maxDelay := []time.Duration{0, 10 * time.Millisecond, 30 * time.Millisecond, 59 * time.Millisecond, 150 * time.Millisecond}[rnd.Intn(5)]
	type ev struct {
		at time.Duration
		k  int
	}
	var evs []ev
	lossy := 0
	for k := 0; k < n; k++ {
		if k > 0 && rnd.Intn(100) < loss {
			lossy++
			continue
		}
		for m := 0; m == 0 || m < 3 && rnd.Intn(100) < dup; m++ {
			at := time.Duration(k) * spacing
			if k > 0 && maxDelay > 0 {
				at += time.Duration(rnd.Int63n(int64(maxDelay)))
			}
			if m > 0 {
				at += time.Duration(rnd.Int63n(int64(latency)))
			}
			evs = append(evs, ev{at, k})
		}
	}
	for a := 1; a < len(evs); a++ {
		for b := a; b > 0 && evs[b].at < evs[b-1].at; b-- {
			evs[b], evs[b-1] = evs[b-1], evs[b]
		}
	}
	// Receive buffers are reused for all packets, as in a receive loop.
	var hd prtp.Header
	// Most packets are small, but some fill an Ethernet frame, or more.
	maxSize := []int{60, 60, 400, 1500, 9000}[rnd.Intn(5)]
	buf := make([]byte, maxSize)
	csrc := make([]uint32, 2)
	ext := make([]byte, 4)
	errsIn := 0
	for _, e := range evs {
		time.Sleep(e.at - time.Since(start))
		synctest.Wait()
		sn := base + uint16(e.k)
		pr := rand.New(rand.NewSource(int64(e.k)))
		hd = prtp.Header{Version: 2, SequenceNumber: sn, Timestamp: uint32(e.k) * 160, SSRC: 5, PayloadType: 0, Marker: e.k == 0}
		csrc[0], csrc[1] = uint32(e.k), pr.Uint32()
		hd.CSRC = csrc
		pr.Read(ext)
		_ = hd.SetExtension(1, ext)
		p := buf[:1+pr.Intn(maxSize)]
		pr.Read(p)
		if sentBy[sn] == nil {
			sentBy[sn] = &sent{h: hd.Clone(), payload: append([]byte{}, p...), first: time.Since(start)}
		}
		pending := unreported
		err := jh.HandleRTP(&hd, p)
		if err == nil && pending {
			c.Fail("errors", "an error of the handler isn't returned by the next call")
		}
		if err != nil {
			unreported = false
			errsIn++
			if err != errInjected {
				c.Fail("error", "handler returned %v", err)
			}
		}
		// Scribble over everything.
		for j := range buf {
			buf[j] = 0xAA
		}
		for j := range ext {
			ext[j] = 0xBB
		}
		csrc[0], csrc[1] = 1, 2
		hd.SequenceNumber, hd.Timestamp, hd.Marker = 1, 2, !hd.Marker
	}
	early := rnd.Intn(4) == 0 // packets are still buffered
	if !early {
		time.Sleep(latency + time.Millisecond)
		synctest.Wait()
	}
	last := -1
	// A packet is only held until those that precede it are out, and each of them is given up on after the latency.
	bound := make([]time.Duration, n)
	for k := range bound {
		if k > 0 {
			bound[k] = bound[k-1]
		}
		if s := sentBy[base+uint16(k)]; s != nil {
			bound[k] = max(bound[k], s.first)
		}
	}
	for _, d := range out {
		k := int(d.sn - base)
		if k <= last {
			c.Fail("order", "packet %d is delivered after %d", k, last)
		}
		last = k
		if lat := d.at - bound[k]; lat > latency {
			c.Fail("latency", "packet %d waited for %v", k, lat)
		}
	}
	// Packets that come within the latency are never lost.
	if maxDelay < latency && len(seen) != n-lossy && !early {
		c.Fail("lost", "%d packets delivered of %d, max delay %v", len(seen), n-lossy, maxDelay)
	}
	if errsIn > errsOut {
		c.Fail("errors", "handler failed %d times, %d errors returned", errsOut, errsIn)
	}
	if loss == 0 && maxDelay < latency && lost != 0 {
		c.Fail("loss-stat", "%d lost packets reported, dropped %d", lost, dropped)
	}
	jh.Close()
	time.Sleep(2 * latency)
	synctest.Wait()
	if h.cls.Load() != 1 {
		c.Fail("close", "next handler is closed %d times", h.cls.Load())
	}
	c.Count("received", len(evs))
	c.Count("delivered", len(out))
	c.Count("handler_errors", errsOut)
	c.Distinct(fmt.Sprint(out))
	if id < 4 {
		c.Sample(fmt.Sprint(id), "%d packets each %v, loss %d%%, dup %d%%, delay %v, errors %d%%: %d received, %d delivered", n, spacing, loss, dup, maxDelay, failProb, len(evs), len(out))
	}
}

// loopReader returns packets, then an error.
type loopReader struct {
	pkts []*prtp.Packet
	err  error
}

func (r *loopReader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	if len(r.pkts) == 0 {
		return nil, nil, r.err
	}
	p := r.pkts[0]
	r.pkts = r.pkts[1:]
	return p, nil, nil
}

// checkCodecStreams compares streams of a registered codec with those of its package.
func checkCodecStreams[S byteFrame](c *kit.C, rnd *rand.Rand, ac rtp.AudioCodec, dec func(msdk.PCM16Writer) msdk.WriteCloser[S], enc func(msdk.WriteCloser[S]) msdk.PCM16Writer) {
	name, rate := ac.Info().SDPName, ac.Info().SampleRate
	ae, ok := ac.(rtp.AudioEncoder[S])
	if !ok {
		c.Fail("encoder", "%s has no encoder of %T", name, S(nil))
		return
	}
	to := []int{rate, 8000, 16000, 48000}[rnd.Intn(4)]
	encA, encB := newSink[S](rate), newSink[S](rate)
	decA, decB := newPCMSink(to), newPCMSink(to)
	wA, wB := ae.Encode(encA), enc(encB)
	rA, rB := ae.Decode(decA), dec(decB)
	if wA.SampleRate() != wB.SampleRate() || rA.SampleRate() != rB.SampleRate() {
		c.Fail("encoder-rate", "%s: rates %d and %d, expected %d and %d", name, wA.SampleRate(), rA.SampleRate(), wB.SampleRate(), rB.SampleRate())
	}
	for k := 0; k < 10; k++ {
		f := randPCM(rnd, 2*rnd.Intn(300))
		errA, errB := wA.WriteSample(f), wB.WriteSample(f)
		if errA != nil || errB != nil {
			c.Fail("encoder-error", "%s: %v, %v", name, errA, errB)
		}
		p := make(S, rnd.Intn(300))
		rnd.Read(p)
		errA, errB = rA.WriteSample(p), rB.WriteSample(p)
		if errA != nil || errB != nil {
			c.Fail("decoder-error", "%s: %v, %v", name, errA, errB)
		}
	}
	for _, err := range []error{wA.Close(), wB.Close(), rA.Close(), rB.Close()} {
		if err != nil {
			c.Fail("encoder-close", "%s: %v", name, err)
		}
	}
	if encA.closed != 1 || decA.closed != 1 {
		c.Fail("encoder-closed", "%s: destinations are closed %d and %d times", name, encA.closed, decA.closed)
	}
	if !equal(encA.all(), encB.all()) || encA.count() != encB.count() {
		c.Fail("encoder-data", "%s: %d encoded bytes in %d frames, expected %d in %d", name, len(encA.all()), encA.count(), len(encB.all()), encB.count())
	}
	a, b := decA.all(), decB.all()
	same := len(a) == len(b) && decA.count() == decB.count()
	for k := 0; same && k < len(a); k++ {
		d := int(a[k]) - int(b[k])
		same = d == 0 || rate != to && d >= -3 && d <= 3 // the resampler adds dither
	}
	if !same {
		c.Fail("decoder-data", "%s to %d: %d decoded samples in %d frames, expected %d in %d", name, to, len(a), decA.count(), len(b), decB.count())
	}
}

func checkCodecRTP(c *kit.C) {
	names := []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}
	codecs := make(map[string]rtp.AudioCodec)
	for _, cc := range msdk.Codecs() {
		if ac, ok := cc.(rtp.AudioCodec); ok {
			codecs[cc.Info().SDPName] = ac
		}
	}
	static := map[string]byte{g711.ULawSDPName: 0, g711.ALawSDPName: 8, g722.SDPName: 9}
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("codec", i)
		errInjected := someError(rnd, "injected")
		name := names[rnd.Intn(len(names))]
		ac := codecs[name]
		if ac == nil {
			c.Fail("codec", "codec %q is not registered", name)
			return
		}
		info := ac.Info()
		c.Eval("codec %d: %s", i, name)
		if info.RTPClockRate != 8000 || info.RTPDefType != static[name] || !info.RTPIsStatic || rtp.CodecByPayloadType(static[name]) != msdk.Codec(ac) {
			c.Fail("info", "%s: %+v", name, info)
		}
		w := &wire{}
		failAt := -1
		if rnd.Intn(3) == 0 {
			failAt = rnd.Intn(12)
		}
		w.hook = func(n int, _ *prtp.Header, _ []byte) error {
			if n == failAt {
				return errInjected
			}
			return nil
		}
		typ := byte(rnd.Intn(128))
		aw := ac.EncodeRTP(rtp.NewSeqWriter(w).NewStream(typ, info.RTPClockRate))
		if aw.SampleRate() != info.SampleRate {
			c.Fail("enc-rate", "%s: encoder rate %d", name, aw.SampleRate())
		}
		frame := info.SampleRate / 50
		var in msdk.PCM16Sample
		const frames = 12
		tone := 200 + rnd.Float64()*1000
		for k := 0; k < frames; k++ {
			pcm := make(msdk.PCM16Sample, frame)
			for j := range pcm {
				pcm[j] = int16(9000 * sin(tone*float64(k*frame+j)/float64(info.SampleRate)))
			}
			in = append(in, pcm...)
			err := aw.WriteSample(pcm)
			if (err != nil) != (k == failAt) {
				c.Fail("enc-error", "%s: frame %d (fail at %d): %v", name, k, failAt, err)
			}
		}
		exp := frames
		if failAt >= 0 {
			exp--
		}
		if len(w.pkts) != exp {
			c.Fail("enc-count", "%s: %d packets for %d frames", name, len(w.pkts), exp)
		}
		checkWire(c, w.pkts)
		for k, p := range w.pkts {
			// 20 ms of audio in each packet: 160 bytes for all these codecs.
			if p.h.PayloadType != typ || len(p.payload) != 160 || p.h.Marker {
				c.Fail("enc-packet", "%s: type %d, %d bytes, marker %v", name, p.h.PayloadType, len(p.payload), p.h.Marker)
			}
			if k > 0 && p.h.Timestamp != w.pkts[k-1].h.Timestamp+160 {
				c.Fail("enc-ts", "%s: timestamp %d after %d", name, p.h.Timestamp, w.pkts[k-1].h.Timestamp)
			}
		}
		// Receive loop: packets are decoded in order until an error.
		rate := info.SampleRate
		if rnd.Intn(3) == 0 {
			rate = []int{8000, 16000, 48000}[rnd.Intn(3)]
		}
		ds := newPCMSink(rate)
		decFail := -1
		if rnd.Intn(3) == 0 && rate == info.SampleRate {
			decFail = rnd.Intn(10)
		}
		ds.hook = func(k int, _ msdk.PCM16Sample) error {
			if k == decFail {
				return errInjected
			}
			return nil
		}
		h := ac.DecodeRTP(ds, typ)
		readErr := errors.New("read error")
		if rnd.Intn(2) == 0 {
			readErr = io.EOF
		}
		r := &loopReader{err: readErr}
		for k := range w.pkts {
			r.pkts = append(r.pkts, &prtp.Packet{Header: w.pkts[k].h, Payload: append([]byte{}, w.pkts[k].payload...)})
		}
		ch := &idHandler{id: 1, on: func(_ int, hd *prtp.Header, p []byte) error { return h.HandleRTP(hd, p) }}
		err := rtp.HandleLoop(r, ch)
		if ch.cls.Load() != 1 {
			c.Fail("loop-close", "handler is closed %d times", ch.cls.Load())
		}
		handled := len(w.pkts)
		if decFail >= 0 && decFail < len(w.pkts) {
			handled = decFail + 1
			if err != errInjected {
				c.Fail("loop-error", "%s: loop returned %v after a handler error", name, err)
			}
		} else if err != readErr {
			c.Fail("loop-error", "%s: loop returned %v, reader %v", name, err, readErr)
		}
		if n := len(w.pkts) - len(r.pkts); n != handled {
			c.Fail("loop-count", "%s: %d packets handled, expected %d", name, n, handled)
		}
		if rate == info.SampleRate {
			if ds.count() != handled {
				c.Fail("dec-count", "%s: %d frames decoded of %d packets", name, ds.count(), handled)
			}
			for _, x := range ds.recs {
				if len(x.copy) != frame {
					c.Fail("dec-frame", "%s: frame of %d samples", name, len(x.copy))
				}
			}
			if failAt < 0 && decFail < 0 {
				got := ds.all()
				if snr := fitTone(got[frame*2:], tone/float64(rate), 9000); snr < 15 {
					c.Fail("dec-audio", "%s: tone of %.0f Hz: SNR %.1f dB", name, tone, snr)
				}
			}
		}
		if ds.closed != 0 {
			c.Fail("dec-close", "destination of the decoder is closed")
		}
		c.Count("packets", len(w.pkts))
		c.Distinct(name, failAt, decFail, rate, int(tone))
		switch name {
		case g711.ULawSDPName:
			checkCodecStreams(c, rnd, ac, g711.DecodeULaw, g711.EncodeULaw)
		case g711.ALawSDPName:
			checkCodecStreams(c, rnd, ac, g711.DecodeALaw, g711.EncodeALaw)
		case g722.SDPName:
			checkCodecStreams(c, rnd, ac, g722.Decode, g722.Encode)
		}
		c.Sample(name, "%d packets, send error at %d, decode error at %d, rate %d", len(w.pkts), failAt, decFail, rate)
	}
	// Building blocks.
	for i := 0; i < c.N(200, 2000); i++ {
		rnd := c.Rand("blocks", i)
		c.Eval("blocks %d", i)
		var b rtp.Buffer
		buf := make([]byte, 40)
		var exp []wirePkt
		for k := 0; k < 10; k++ {
			p := buf[:rnd.Intn(40)]
			rnd.Read(p)
			h := prtp.Header{Version: 2, SequenceNumber: uint16(rnd.Intn(65536)), Timestamp: rnd.Uint32(), SSRC: rnd.Uint32(), PayloadType: byte(k)}
			exp = append(exp, wirePkt{h, append([]byte{}, p...)})
			if n, err := b.WriteRTP(&h, p); n != len(p) || err != nil {
				c.Fail("buffer", "write returned %d, %v", n, err)
			}
		}
		for k := range buf {
			buf[k] = 0
		}
		if len(b) != len(exp) {
			c.Fail("buffer", "%d packets", len(b))
			continue
		}
		for k, p := range b {
			if fmt.Sprint(p.Header) != fmt.Sprint(exp[k].h) || !equal(p.Payload, exp[k].payload) {
				c.Fail("buffer", "packet %d is changed", k)
			}
		}
		if err := rtp.HandlerFunc(nil).HandleRTP(&prtp.Header{}, nil); err != nil {
			c.Fail("nil-func", "%v", err)
		}
		errInjected := someError(rnd, "injected")
		hh, hp, hn := &prtp.Header{SequenceNumber: uint16(i)}, make([]byte, i%3), 0
		if err := rtp.HandlerFunc(func(h *prtp.Header, p []byte) error {
			hn++
			if h != hh || !equal(p, hp) {
				c.Fail("func-args", "function got other arguments")
			}
			return errInjected
		}).HandleRTP(hh, hp); err != errInjected || hn != 1 {
			c.Fail("func", "function was called %d times, error %v", hn, err)
		}
		sunk := newSink[g711.ULawSample](8000)
		sunk.hook = func(int, g711.ULawSample) error { return errInjected }
		if err := rtp.NewMediaStreamIn[g711.ULawSample](sunk).HandleRTP(hh, hp); err != errInjected || sunk.count() != 1 {
			c.Fail("in-error", "%v, %d frames", err, sunk.count())
		}
		// A frame is a packet, of any size.
		sizes := []int{0, 1, rnd.Intn(200), 0, rnd.Intn(3000)}
		sw := &wire{}
		out := rtp.NewMediaStreamOut[g711.ULawSample](rtp.NewSeqWriter(sw).NewStream(5, 8000), 8000)
		ins := newSink[g711.ULawSample](8000)
		in := rtp.NewMediaStreamIn[g711.ULawSample](ins)
		for k, sz := range sizes {
			f := make(g711.ULawSample, sz)
			rnd.Read(f)
			if err := out.WriteSample(f); err != nil {
				c.Fail("frame-write", "%v", err)
			}
			if n := len(sw.pkts); n != k+1 || sw.pkts[k].h.Marker || sw.pkts[k].h.PayloadType != 5 || !equal(sw.pkts[k].payload, []byte(f)) {
				c.Fail("frame-packet", "frame %d of %d bytes: %d packets, last %+v", k, sz, n, sw.pkts[n-1].h)
				break
			}
			if err := in.HandleRTP(&sw.pkts[k].h, sw.pkts[k].payload); err != nil || ins.count() != k+1 || !equal(ins.recs[k].copy, f) {
				c.Fail("packet-frame", "packet %d of %d bytes: %v, %d frames", k, sz, err, ins.count())
				break
			}
		}
		if err := out.Close(); err != nil {
			c.Fail("frame-close", "%v", err)
		}
		nc := &idHandler{id: 1, on: func(int, *prtp.Header, []byte) error { return errInjected }}
		hc := rtp.NewNopCloser(nc)
		hc.Close()
		if err := hc.HandleRTP(&prtp.Header{}, nil); err != errInjected || nc.cls.Load() != 0 {
			c.Fail("nop-closer", "%v, closed %d", err, nc.cls.Load())
		}
		c.Distinct("blocks", i)
	}
}
