package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"

	"verif/harness/kit"
)

func init() {
	kit.Register("M01", kit.Check{
		Rule: "Random schedules of input creation, writes of random sizes, closes and output stalls in virtual time, for random frame sizes, buffer limits and " +
			"output modes. Each output frame is compared with a reference mix driven by the observed mix times. Distinct: contents of non-silent output frames.",
		Floor: 50,
		Run:   checkMixerData,
	})
	kit.Register("M02", kit.Check{
		Rule: "Random sequences of output stalls (sub-period to far above the buffer limit) in virtual time; number and time of output frames are compared " +
			"with the elapsed periods. Distinct: (limit, mode, stall length in 1/8 of a period).",
		Floor: 50,
		Run:   checkMixerCadence,
	})
	kit.Register("M03", kit.Check{
		Rule: "Random schedules as for mixing, with failing output and concurrent writers; counters are compared with what was observed at the boundary " +
			"and with a reference model. Distinct: vectors of final counters.",
		Floor: 50,
		Run:   checkMixerStats,
	})
	kit.Register("M04", kit.Check{
		Rule: "Life cycle sequences in virtual time (a leaked goroutine or a blocked call is a deadlock of the bubble), and concurrent use in real time under the " +
			"race detector. Distinct: (mode, stop position, sequence of operations).",
		Floor: 40,
		Run:   checkMixerLife,
	})
}

// mixModelInput is a reference for a single mixer input.
type mixModelInput struct {
	q         []int16
	buffering bool
}

type mixModel struct {
	frame, frames int // frame size; max buffered frames
	inputs        []*mixModelInput

	inFrames, inSamples, dropFrames, dropSamples uint64
	mixFrames, mixSamples, restarts              uint64
}

func (m *mixModel) write(in *mixModelInput, s []int16) {
	m.inFrames++
	m.inSamples += uint64(len(s))
	in.q = append(in.q, s...)
	if d := len(in.q) - m.frame*m.frames; d > 0 {
		in.q = in.q[d:]
		m.dropFrames++
		m.dropSamples += uint64(d)
	}
}

func (m *mixModel) remove(in *mixModelInput) {
	for i, v := range m.inputs {
		if v == in {
			m.inputs = append(m.inputs[:i:i], m.inputs[i+1:]...)
			return
		}
	}
}

func (m *mixModel) mix() []int16 {
	sum := make([]int, m.frame)
	for _, in := range m.inputs {
		if in.buffering && len(in.q) < (m.frames/2+1)*m.frame {
			continue
		}
		in.buffering = false
		n := min(m.frame, len(in.q))
		if n == 0 {
			in.buffering = true
			m.restarts++
			continue
		}
		m.mixFrames++
		m.mixSamples += uint64(n)
		for i, v := range in.q[:n] {
			sum[i] += int(v)
		}
		in.q = in.q[n:]
	}
	out := make([]int16, m.frame)
	for i, v := range sum {
		out[i] = int16(max(-0x7fff, min(0x7fff, v)))
	}
	return out
}

// mixOp is an operation on the inputs, recorded with its virtual time.
type mixOp struct {
	at   time.Time
	kind string // new, write, close
	inp  int
	data []int16
}

type mixConf struct {
	rate   int
	dur    time.Duration
	frames int
	ch     int // output channel size, 0 for direct
	crowd  int // number of inputs to start with
}

func (c mixConf) String() string {
	return fmt.Sprintf("rate=%d dur=%v frames=%d ch=%d crowd=%d", c.rate, c.dur, c.frames, c.ch, c.crowd)
}

func (c mixConf) size() int { return int(time.Duration(c.rate) * c.dur / time.Second) }

func randMixConf(rnd *rand.Rand) mixConf {
	conf := mixConf{
		rate:   []int{1000, 8000, 16000}[rnd.Intn(3)],
		dur:    []time.Duration{5 * time.Millisecond, 10 * time.Millisecond, 20 * time.Millisecond}[rnd.Intn(3)],
		frames: 1 + rnd.Intn(8),
	}
	if rnd.Intn(2) == 0 {
		conf.frames = mixer.DefaultInputBufferFrames
	}
	if rnd.Intn(3) == 0 {
		conf.ch = 1 + rnd.Intn(4)
	}
	return conf
}

func (c mixConf) create(rnd *rand.Rand, out msdk.Writer[msdk.PCM16Sample], stats *mixer.Stats) *mixer.Mixer {
	var opts []mixer.MixerOptions
	if c.frames != mixer.DefaultInputBufferFrames || rnd.Intn(2) == 0 {
		opts = append(opts, mixer.WithInputBufferFrames(c.frames))
	} else if rnd.Intn(2) == 0 {
		opts = append(opts, mixer.WithInputBufferFrames(-rnd.Intn(2)))
	}
	if c.ch == 1 && rnd.Intn(2) == 0 {
		opts = append(opts, mixer.WithOutputChannel())
	} else if c.ch == 1 && rnd.Intn(2) == 0 {
		opts = append(opts, mixer.WithOutputChannelSize(-rnd.Intn(2)))
	} else if c.ch > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(c.ch))
	}
	if stats != nil {
		opts = append(opts, mixer.WithStats(stats))
	}
	m, err := mixer.NewMixer(out, c.dur, 1, opts...)
	if err != nil {
		panic(err)
	}
	return m
}

// runMixOps executes a random schedule and returns recorded operations. It must be run in a bubble.
func runMixOps(c *kit.C, rnd *rand.Rand, conf mixConf, m *mixer.Mixer, periods int) (ops []mixOp, inputs []*mixer.Input) {
	size := conf.size()
	start := time.Now()
	var live []int
	rates := make([]int, 0, 8) // writes per mille for an input
	add := func() {
		inp := m.NewInput()
		if inp == nil {
			c.Fail("new-input", "nil input from a running mixer")
			return
		}
		c.Check(inp.SampleRate() == conf.rate, "rate", "input rate %d, output %d", inp.SampleRate(), conf.rate)
		inputs = append(inputs, inp)
		live = append(live, len(inputs)-1)
		rates = append(rates, []int{1000, 1000, 950, 1200, 500, 100}[rnd.Intn(6)])
		ops = append(ops, mixOp{at: time.Now(), kind: "new", inp: len(inputs) - 1})
	}
	for len(inputs) < conf.crowd {
		add()
	}
	for k := 0; k < periods; k++ {
		// Random time in a period, which never matches ticks or stalls.
		at := start.Add(time.Duration(k)*conf.dur + conf.dur/8 + time.Duration(rnd.Int63n(int64(conf.dur/2)))/1000*1000 + 7)
		time.Sleep(time.Until(at))
		if len(live) == 0 || (len(live) < max(6, conf.crowd) && rnd.Intn(25) == 0) {
			add()
		}
		if len(live) > 0 && rnd.Intn(80) == 0 {
			j := rnd.Intn(len(live))
			i := live[j]
			live = append(live[:j:j], live[j+1:]...)
			if rnd.Intn(2) == 0 {
				_ = inputs[i].Close()
			} else {
				m.RemoveInput(inputs[i])
			}
			ops = append(ops, mixOp{at: time.Now(), kind: "close", inp: i})
		}
		for _, i := range live {
			for r := rates[i]; r > 0; r -= 1000 {
				if rnd.Intn(1000) >= r {
					continue
				}
				n := size
				switch rnd.Intn(12) {
				case 0:
					n = rnd.Intn(2*size + 1)
				case 1:
					n = rnd.Intn(size * (conf.frames + 3))
				case 2:
					n = 0
				}
				s := randPCM(rnd, n)
				ops = append(ops, mixOp{at: time.Now(), kind: "write", inp: i, data: append([]int16{}, s...)})
				if err := inputs[i].WriteSample(s); err != nil {
					c.Fail("write-error", "input write failed: %v", err)
				}
				for j := range s { // the caller reuses its buffer
					s[j] = 0x5a5a
				}
			}
		}
	}
	return ops, inputs
}

// replayMix runs the model with mixes at the given times.
func replayMix(conf mixConf, ops []mixOp, mixes []time.Time) (*mixModel, [][]int16) {
	m := &mixModel{frame: conf.size(), frames: conf.frames}
	inputs := make(map[int]*mixModelInput)
	apply := func(op mixOp) {
		switch op.kind {
		case "new":
			in := &mixModelInput{buffering: true}
			inputs[op.inp] = in
			m.inputs = append(m.inputs, in)
		case "close":
			m.remove(inputs[op.inp])
		case "write":
			m.write(inputs[op.inp], op.data)
		}
	}
	var out [][]int16
	for _, at := range mixes {
		for len(ops) > 0 && ops[0].at.Before(at) {
			apply(ops[0])
			ops = ops[1:]
		}
		out = append(out, m.mix())
	}
	for _, op := range ops {
		apply(op)
	}
	return m, out
}

func checkMixerData(c *kit.C) {
	for i := 0; i < c.N(400, 6000); i++ {
		rnd := c.Rand("mix", i)
		errInjected := someError(rnd, "injected")
		conf := randMixConf(rnd)
		stalls := conf.ch == 0 && rnd.Intn(3) == 0
		if i%50 == 0 {
			conf.rate, conf.crowd = 1000, 50+rnd.Intn(300)
		}
		c.Eval("schedule %d: %v stalls=%v", i, conf, stalls)
		c.Bubble("mix", func() {
			out := newPCMSink(conf.rate)
			srnd := c.Rand("stalls", i)
			var stopped atomic.Bool // no new stalls, so that everything ends in a known time
			out.hook = func(int, msdk.PCM16Sample) error {
				if srnd.Intn(15) == 0 && stalls && !stopped.Load() {
					time.Sleep(time.Duration(srnd.Int63n(int64(conf.dur)*int64(conf.frames+2)))/1000*1000 + 3)
				}
				if srnd.Intn(40) == 0 {
					return errInjected
				}
				return nil
			}
			m := conf.create(rnd, out, nil)
			c.Check(m.SampleRate() == conf.rate, "rate", "mixer rate %d", m.SampleRate())
			ops, _ := runMixOps(c, rnd, conf, m, 60)
			time.Sleep(conf.dur * time.Duration(2*conf.frames+6))
			stopped.Store(true)
			m.Stop()
			time.Sleep(conf.dur * time.Duration(2*conf.frames+6))
			recs := out.snapshot()
			var mixes []time.Time
			for _, r := range recs {
				mixes = append(mixes, r.at)
			}
			_, exp := replayMix(conf, ops, mixes)
			audible := 0
			for j, r := range recs {
				if len(r.copy) != conf.size() {
					c.Fail("frame-size", "%v: frame %d has %d samples, expected %d", conf, j, len(r.copy), conf.size())
				} else if !equal(r.copy, exp[j]) {
					d := firstDiff(r.copy, exp[j])
					c.Fail("mix", "%v: frame %d differs at sample %d: got %d, expected %d", conf, j, d, r.copy[d], exp[j][d])
				}
				if !equal(r.data, r.copy) {
					c.Fail("frame-modified", "%v: frame %d was modified after it was written", conf, j)
				}
				silent := true
				for _, v := range r.copy {
					silent = silent && v == 0
				}
				if !silent {
					audible++
					c.Distinct(r.copy)
				}
			}
			c.Count("frames_compared", len(recs))
			c.Count("frames_audible", audible)
			c.Count("input_ops", len(ops))
			c.Sample(fmt.Sprint("mode", conf.ch > 0), "%v: %d input operations, %d frames (%d audible)", conf, len(ops), len(recs), audible)
			if len(recs) < 60 && !stalls || len(recs) < 15 { // stalls may drop mixes, see M02
				c.Fail("frames", "%v: only %d frames in more than 60 periods", conf, len(recs))
			}
		})
	}
}

func checkMixerCadence(c *kit.C) {
	checkMixerLong(c)
	for i := 0; i < c.N(300, 4000); i++ {
		rnd := c.Rand("cadence", i)
		conf := randMixConf(rnd)
		c.Eval("run %d: %v", i, conf)
		c.Bubble("cadence", func() {
			out := newPCMSink(conf.rate)
			var pending atomic.Int64 // stall of the next write
			out.hook = func(int, msdk.PCM16Sample) error {
				if d := pending.Swap(0); d != 0 {
					time.Sleep(time.Duration(d))
				}
				return nil
			}
			start := time.Now()
			m := conf.create(rnd, out, nil)
			tick := 0
			// to moves right after the given tick.
			to := func(n int) {
				tick = n
				time.Sleep(time.Until(start.Add(time.Duration(n)*conf.dur + conf.dur/16)))
			}
			lost := 0 // frames that will never be produced
			fuzzy := 0
			var hist []string
			for s := 0; s < 8; s++ {
				// Without stalls: exactly one frame per period.
				n0 := out.count()
				t0 := tick
				for k := 0; k < 3+rnd.Intn(5); k++ {
					to(tick + 1)
					if got := out.count() - n0; got != tick-t0 {
						c.Fail("steady", "%v %v: %d frames in %d periods without stalls", conf, hist, got, tick-t0)
					}
				}
				if got := out.count(); got > tick-lost+fuzzy || got < tick-lost-fuzzy {
					c.Fail("total", "%v %v: %d frames after %d periods (expected to miss %d±%d)", conf, hist, got, tick, lost, fuzzy)
				}
				// Stall
				eighths := 1 + rnd.Intn(8*(conf.frames+3))
				if rnd.Intn(4) == 0 {
					eighths = 8*conf.frames + rnd.Intn(8)
				}
				stall := conf.dur*time.Duration(eighths)/8 + time.Duration(1+rnd.Intn(1000))
				hist = append(hist, fmt.Sprintf("stall %d/8", eighths))
				n1 := out.count()
				pending.Store(int64(stall))
				to(tick + 1) // the write at this tick stalls
				begin := start.Add(time.Duration(tick) * conf.dur)
				if conf.ch > 0 {
					// The ticker goroutine only blocks when the channel is full; the writer catches up after the stall.
					need := int(stall / conf.dur)
					room := conf.ch + 1 // one more is held by the blocked mix
					if need > room-1 {
						// The ticker goroutine blocks for a part of the stall.
						over := need - room + 1
						if over >= conf.frames {
							lost += 0
							fuzzy += over + 2
						}
					}
					to(tick + int(stall/conf.dur) + conf.frames + 6)
					c.Distinct(conf.frames, conf.ch, eighths)
					c.Count("stalls_channel", 1)
					continue
				}
				due := int((stall + conf.dur/4) / conf.dur) // periods that ended during the stall, with 1/4 of a period tolerance
				to(tick + int(stall/conf.dur) + 1)
				recs := out.snapshot()[n1:]
				// Frames written right at the end of the stall.
				burst := 0
				for _, r := range recs {
					if r.at.Equal(begin.Add(stall)) {
						burst++
					}
				}
				exp := min(due, conf.frames)
				// After a capped stall, the mixing is not aligned with periods anymore.
				slack := min(fuzzy, 1)
				if stall >= conf.dur && (burst > min(exp+slack, conf.frames) || burst < exp-slack) {
					c.Fail("burst", "%v %v: %d frames right after the stall, expected %d", conf, hist, burst, exp)
				}
				if due > conf.frames {
					lost += due - conf.frames
					fuzzy += 1
					c.Count("stalls_capped", 1)
				} else {
					if slack > 0 && due+1 > conf.frames {
						fuzzy++
					}
					c.Count("stalls_recovered", 1)
				}
				to(tick + 3)
				c.Distinct(conf.frames, 0, eighths)
			}
			for _, r := range out.snapshot() {
				if len(r.copy) != conf.size() {
					c.Fail("frame-size", "%v: %d samples, expected %d", conf, len(r.copy), conf.size())
				}
			}
			c.Count("frames", out.count())
			c.Count("periods", tick)
			c.Sample(fmt.Sprint("mode", conf.ch > 0), "%v: %v; %d frames in %d periods", conf, hist, out.count(), tick)
			m.Stop()
		})
	}
}

// checkMixerLong runs a mixer for a long time with late writes, which are always caught up.
func checkMixerLong(c *kit.C) {
	for i := 0; i < c.N(4, 40); i++ {
		rnd := c.Rand("long", i)
		conf := randMixConf(rnd)
		conf.rate, conf.ch, conf.frames = 1000, 0, 30
		periods := c.N(20000, 200000)
		c.Eval("long run %d: %v, %d periods", i, conf, periods)
		c.Bubble("long", func() {
			var st mixer.Stats
			var late atomic.Bool
			var n atomic.Int64
			srnd := c.Rand("late", i)
			out := countWriter{rate: conf.rate, fnc: func() {
				n.Add(1)
				if late.Load() && srnd.Intn(4) == 0 {
					time.Sleep(conf.dur*time.Duration(srnd.Intn(200))/100 + time.Duration(1+srnd.Intn(1000)))
				}
			}}
			start := time.Now()
			m := conf.create(rnd, out, &st)
			defer m.Stop()
			for tick := 0; tick < periods; {
				late.Store(true)
				tick += 20 + rnd.Intn(150)
				time.Sleep(time.Until(start.Add(time.Duration(tick)*conf.dur + conf.dur/16)))
				late.Store(false)
				tick += 8
				time.Sleep(time.Until(start.Add(time.Duration(tick)*conf.dur + conf.dur/16)))
				if st.TimingResets.Load() != 0 {
					c.Count("long runs with a reset", 1)
					return
				}
				if n.Load() != int64(tick) {
					c.Fail("long", "%v: %d frames in %d periods, all delays of the output were short", conf, n.Load(), tick)
					return
				}
			}
			c.Count("periods of long runs", periods)
			c.Distinct("long", i)
		})
	}
}

// countWriter calls a function for each frame.
type countWriter struct {
	rate int
	fnc  func()
}

func (w countWriter) String() string                       { return "count" }
func (w countWriter) SampleRate() int                      { return w.rate }
func (w countWriter) WriteSample(_ msdk.PCM16Sample) error { w.fnc(); return nil }

func checkMixerStats(c *kit.C) {
	for i := 0; i < c.N(300, 4000); i++ {
		rnd := c.Rand("stats", i)
		errInjected := someError(rnd, "injected")
		conf := randMixConf(rnd)
		stalls := conf.ch == 0 && rnd.Intn(3) == 0
		if i%50 == 0 {
			conf.rate, conf.crowd = 1000, 50+rnd.Intn(300)
		}
		c.Eval("schedule %d: %v stalls=%v", i, conf, stalls)
		c.Bubble("stats", func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			srnd := c.Rand("stalls", i)
			var stopped atomic.Bool // no new stalls, so that everything ends in a known time
			failed := 0
			out.hook = func(int, msdk.PCM16Sample) error {
				if srnd.Intn(12) == 0 && stalls && !stopped.Load() {
					time.Sleep(time.Duration(srnd.Int63n(int64(conf.dur)*int64(conf.frames)))/1000*1000 + 3)
				}
				if srnd.Intn(5) == 0 || i%30 == 7 {
					failed++
					return errInjected
				}
				return nil
			}
			m := conf.create(rnd, out, &st)
			periods := 60
			if i%30 == 7 {
				periods = 600 // and all writes fail
			}
			ops, inputs := runMixOps(c, rnd, conf, m, periods)
			time.Sleep(conf.dur * time.Duration(2*conf.frames+6))
			stopped.Store(true)
			m.Stop()
			time.Sleep(conf.dur * time.Duration(2*conf.frames+6))
			recs := out.snapshot()
			var mixes []time.Time
			for _, r := range recs {
				mixes = append(mixes, r.at)
			}
			model, _ := replayMix(conf, ops, mixes)
			var exp, got [16]uint64
			names := []string{"Mixes", "OutputFrames", "OutputSamples", "WriteErrors", "InputFrames", "InputSamples", "InputFramesDropped",
				"InputSamplesDropped", "MixedFrames", "MixedSamples", "Restarts", "Tracks", "TracksTotal"}
			n := uint64(len(recs))
			copy(exp[:], []uint64{n, n, n * uint64(conf.size()), uint64(failed), model.inFrames, model.inSamples, model.dropFrames,
				model.dropSamples, model.mixFrames, model.mixSamples, model.restarts, uint64(len(model.inputs)), uint64(len(inputs))})
			copy(got[:], []uint64{st.Mixes.Load(), st.OutputFrames.Load(), st.OutputSamples.Load(), st.WriteErrors.Load(), st.InputFrames.Load(),
				st.InputSamples.Load(), st.InputFramesDropped.Load(), st.InputSamplesDropped.Load(), st.MixedFrames.Load(), st.MixedSamples.Load(),
				st.Restarts.Load(), uint64(st.Tracks.Load()), st.TracksTotal.Load()})
			for j, name := range names {
				if exp[j] != got[j] {
					c.Fail("counter-"+name, "%v: %s is %d, expected %d", conf, name, got[j], exp[j])
				}
			}
			left := uint64(0)
			for _, in := range model.inputs {
				left += uint64(len(in.q))
			}
			c.Distinct(got)
			c.Count("input_samples", int(model.inSamples))
			c.Count("dropped_samples", int(model.dropSamples))
			c.Count("mixed_samples", int(model.mixSamples))
			c.Count("left_in_live_inputs", int(left))
			c.Count("restarts", int(model.restarts))
			c.Count("write_errors", failed)
			c.Sample(fmt.Sprint("mode", conf.ch > 0), "%v: %v=%v", conf, names, got[:len(names)])
		})
	}
	// Kinds of mixes: one tick per period, with stalls of the output that are caught up completely.
	for i := 0; i < c.N(150, 2000); i++ {
		rnd := c.Rand("kinds", i)
		conf := randMixConf(rnd)
		conf.ch = 0
		c.Eval("kinds %d: %v", i, conf)
		c.Bubble("stats-kinds", func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			var pending atomic.Int64
			out.hook = func(int, msdk.PCM16Sample) error {
				if d := pending.Swap(0); d != 0 {
					time.Sleep(time.Duration(d))
				}
				return nil
			}
			start := time.Now()
			m := conf.create(rnd, out, &st)
			tick := 0
			to := func(n int) {
				tick = n
				time.Sleep(time.Until(start.Add(time.Duration(n)*conf.dur + conf.dur/16)))
			}
			var timed, jumps, early uint64
			var hist []int
			kind := func(name string, got, exp uint64) {
				if got != exp {
					c.Fail("kind-"+name, "%v stalls %v/8: %s is %d, expected %d", conf, hist, name, got, exp)
				}
			}
			for s := 0; s < 6; s++ {
				for k := rnd.Intn(5); k >= 0; k-- {
					to(tick + 1)
					timed++
				}
				// No more than the limit is due at the end of the stall, so that nothing is reset.
				eighths := 1 + rnd.Intn(8*conf.frames+5)
				hist = append(hist, eighths)
				stall := conf.dur*time.Duration(eighths)/8 + time.Duration(1+rnd.Intn(1000))
				pending.Store(int64(stall))
				to(tick + 1)
				timed++ // it has stalled
				to(tick + eighths/8 + 1)
				if eighths >= 8 {
					switch n := (eighths + 2) / 8; n {
					case 1:
						timed++
					default:
						jumps += uint64(n)
					}
					if eighths%8 >= 6 {
						early++ // the next tick was already mixed at the end of the stall
					} else {
						timed++
					}
				} else {
					timed++
				}
			}
			m.Stop()
			synctest.Wait()
			kind("TimedMixes", st.TimedMixes.Load(), timed)
			kind("JumpMixes", st.JumpMixes.Load(), jumps)
			kind("NegativeMixes+ZeroMixes", st.NegativeMixes.Load()+st.ZeroMixes.Load(), early)
			kind("TimingResets", st.TimingResets.Load(), 0)
			kind("BlockedMixes", st.BlockedMixes.Load(), 0)
			kind("Mixes", st.Mixes.Load(), timed+jumps)
			c.Count("timed_mixes", int(timed))
			c.Count("jump_mixes", int(jumps))
			c.Count("early_ticks", int(early))
			c.Distinct("kinds", conf.frames, hist)
		})
	}
	// A full output channel.
	for i := 0; i < c.N(40, 200); i++ {
		rnd := c.Rand("blocked", i)
		conf := randMixConf(rnd)
		conf.ch = 1 + i%5
		c.Eval("blocked %d: %v", i, conf)
		c.Bubble("stats-blocked", func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			block := make(chan struct{})
			out.hook = func(int, msdk.PCM16Sample) error { <-block; return nil }
			m := conf.create(rnd, out, &st)
			time.Sleep(conf.dur*time.Duration(conf.ch+1) + conf.dur/2)
			if n := st.BlockedMixes.Load(); n != 0 {
				c.Fail("blocked-early", "%v: %d blocked mixes after %d periods", conf, n, conf.ch+1)
			}
			time.Sleep(conf.dur * 20)
			// One frame is held by the output, some are in the channel, and one doesn't fit.
			if n, b := st.Mixes.Load(), st.BlockedMixes.Load(); n != uint64(conf.ch)+2 || b != 1 {
				c.Fail("blocked", "%v: %d mixes with a blocked output, of which %d blocked; expected %d and 1", conf, n, b, conf.ch+2)
			}
			if st.TimingResets.Load() != 0 {
				c.Fail("blocked-resets", "%v: resets before the output was unblocked", conf)
			}
			// The output works again: the mixer has overslept.
			frames := uint64(conf.frames)
			late := uint64(20 - 1)
			close(block)
			synctest.Wait()
			if n := st.Mixes.Load() - uint64(conf.ch) - 2; n != min(frames, late) {
				c.Fail("blocked-burst", "%v: %d mixes right after the output is unblocked, expected %d", conf, n, min(frames, late))
			}
			if frames < late && st.TimingResets.Load() == 0 {
				c.Fail("blocked-resets", "%v: no reset after %d missed periods", conf, late)
			}
			m.Stop()
			synctest.Wait()
			if a, b := st.Mixes.Load(), uint64(out.count()); a < b || a > b+uint64(conf.ch)+1 {
				c.Fail("blocked-lost", "%v: %d mixes, %d frames written", conf, a, b)
			}
			c.Count("blocked_outputs", 1)
			c.Distinct("blocked", conf.frames, conf.ch)
		})
	}
	// Concurrent writers: totals are conserved.
	for i := 0; i < c.N(40, 400); i++ {
		rnd := c.Rand("conc", i)
		conf := randMixConf(rnd)
		c.Eval("concurrent %d: %v", i, conf)
		c.Bubble("stats-conc", func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			m := conf.create(rnd, out, &st)
			var wg sync.WaitGroup
			var frames, samples, tracks, closed atomic.Int64
			for g := 0; g < 6; g++ {
				wg.Add(1)
				grnd := c.Rand("conc", i, g)
				go func() {
					defer wg.Done()
					for k := 0; k < 5; k++ {
						inp := m.NewInput()
						tracks.Add(1)
						for w := 0; w < 20; w++ {
							n := grnd.Intn(2 * conf.size())
							if err := inp.WriteSample(make(msdk.PCM16Sample, n)); err != nil {
								c.Fail("write-error", "%v", err)
							}
							frames.Add(1)
							samples.Add(int64(n))
							if grnd.Intn(3) == 0 {
								time.Sleep(conf.dur)
							}
						}
						if grnd.Intn(2) == 0 {
							_ = inp.Close()
							closed.Add(1)
							_ = inp.Close()
						}
					}
				}()
			}
			wg.Wait()
			time.Sleep(conf.dur / 2) // let the last frame out
			m.Stop()
			time.Sleep(conf.dur * 10)
			if a, b := st.InputFrames.Load(), uint64(frames.Load()); a != b {
				c.Fail("conc-frames", "%d input frames counted, %d written", a, b)
			}
			if a, b := st.InputSamples.Load(), uint64(samples.Load()); a != b {
				c.Fail("conc-samples", "%d input samples counted, %d written", a, b)
			}
			if a, b := st.Tracks.Load(), tracks.Load()-closed.Load(); a != b {
				c.Fail("conc-tracks", "%d tracks counted, %d live", a, b)
			}
			if a, b := st.TracksTotal.Load(), uint64(tracks.Load()); a != b {
				c.Fail("conc-tracks-total", "%d total tracks counted, %d created", a, b)
			}
			if a, b := st.OutputFrames.Load(), uint64(out.count()); a != b {
				c.Fail("conc-out", "%d output frames counted, %d written", a, b)
			}
			if a, b, d := st.MixedSamples.Load(), st.InputSamples.Load(), st.InputSamplesDropped.Load(); a+d > b {
				c.Fail("conc-conservation", "mixed %d + dropped %d > input %d", a, d, b)
			}
			c.Distinct("conc", frames.Load(), samples.Load(), closed.Load(), st.MixedSamples.Load())
		})
	}
}

func newSilentMixer() *mixer.Mixer {
	m, err := mixer.NewMixer(newPCMSink(8000), 20*time.Millisecond, 1)
	if err != nil {
		panic(err)
	}
	return m
}

func checkMixerLife(c *kit.C) {
	// Argument checks.
	c.Eval("arguments")
	for ch := -1; ch < 5; ch++ {
		if ch == 1 {
			continue
		}
		m, err := mixer.NewMixer(newPCMSink(8000), 20*time.Millisecond, ch)
		if err == nil || m != nil {
			c.Fail("channels", "mixer with %d channels was created: %v", ch, err)
		}
	}
	c.Try("nil", func() {
		var m *mixer.Mixer
		inp := m.NewInput()
		c.Check(inp == nil, "nil", "input from a nil mixer")
		m.RemoveInput(inp)
		c.Check(inp.Close() == nil, "nil", "close of a nil input fails")
		m2 := newSilentMixer()
		inp2 := m2.NewInput()
		m.RemoveInput(inp2)
		m2.RemoveInput(nil)
		c.Check(inp2.Close() == nil, "nil", "close of an input fails")
		m2.Stop()
	})
	for i := 0; i < c.N(300, 3000); i++ {
		rnd := c.Rand("life", i)
		conf := randMixConf(rnd)
		stall := time.Duration(0)
		if rnd.Intn(3) == 0 {
			stall = conf.dur * time.Duration(1+rnd.Intn(12*8)) / 8
		}
		c.Eval("sequence %d: %v stall=%v", i, conf, stall)
		c.Bubble("life", func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			var stalled atomic.Bool
			at := rnd.Intn(12)
			out.hook = func(j int, _ msdk.PCM16Sample) error {
				if j == at && stall > 0 {
					stalled.Store(true)
					time.Sleep(stall)
					stalled.Store(false)
				}
				return nil
			}
			m := conf.create(rnd, out, &st)
			other := conf.create(rnd, newPCMSink(conf.rate), nil)
			foreign := other.NewInput()
			time.Sleep(conf.dur / 3)
			var inputs []*mixer.Input
			live := 0
			var seq []string
			removed := make(map[*mixer.Input]bool)
			stopAt := 2 + rnd.Intn(30)
			for k := 0; k < stopAt; k++ {
				time.Sleep(conf.dur / 2)
				op := rnd.Intn(6)
				seq = append(seq, fmt.Sprint(op))
				switch op {
				case 0, 1:
					inp := m.NewInput()
					if inp == nil {
						c.Fail("new-input", "nil input from a running mixer")
						continue
					}
					inputs = append(inputs, inp)
					live++
				case 2, 3:
					if len(inputs) == 0 {
						continue
					}
					inp := inputs[rnd.Intn(len(inputs))]
					if op == 2 {
						c.Check(inp.Close() == nil, "close", "close fails")
					} else {
						m.RemoveInput(inp)
					}
					if !removed[inp] {
						removed[inp] = true
						live--
					}
				case 4:
					m.RemoveInput(foreign) // belongs to another mixer
					m.RemoveInput(nil)
				case 5:
					for _, inp := range inputs {
						_ = inp.WriteSample(randPCM(rnd, conf.size()))
					}
				}
				if got := st.Tracks.Load(); got != int64(live) {
					c.Fail("tracks", "%v %v: %d tracks, expected %d", conf, seq, got, live)
				}
				_ = m.String()
			}
			// The inputs which were removed do not contribute anymore, even if written.
			if rnd.Intn(3) == 0 && stall == 0 {
				for _, inp := range inputs {
					_ = inp.Close()
					_ = inp.WriteSample(randPCM(rnd, conf.size()*conf.frames))
				}
				n0 := out.count()
				time.Sleep(conf.dur * 3)
				for _, r := range out.snapshot()[n0:] {
					for _, v := range r.copy {
						if v != 0 {
							c.Fail("removed", "%v: audio of a removed input is mixed", conf)
							break
						}
					}
				}
				c.Count("removed_inputs_silent", len(inputs))
			}
			m.Stop()
			inStall := stalled.Load()
			if rnd.Intn(2) == 0 {
				m.Stop()
			}
			n1 := out.count()
			if inp := m.NewInput(); inp != nil {
				c.Fail("input-after-stop", "%v %v: input created after Stop", conf, seq)
			}
			for _, inp := range inputs {
				_ = inp.WriteSample(randPCM(rnd, conf.size())) // must not block or panic
				_ = inp.Close()
			}
			time.Sleep(stall + conf.dur*20)
			extra := out.count() - n1
			if !inStall {
				// Frames already sent to the output channel may still be in flight.
				if extra > conf.ch+1 || (conf.ch == 0 && extra > 0) {
					c.Fail("output-after-stop", "%v %v: %d frames written after Stop", conf, seq, extra)
				}
			} else if extra > conf.frames+conf.ch+2 {
				c.Fail("output-after-stop", "%v %v: %d frames written after Stop during a stall", conf, seq, extra)
			}
			n2 := out.count()
			time.Sleep(conf.dur * 50)
			if out.count() != n2 {
				c.Fail("output-long-after-stop", "%v %v: frames written long after Stop", conf, seq)
			}
			other.Stop()
			c.Count("stopped", 1)
			if inStall {
				c.Count("stopped_during_stall", 1)
			}
			c.Distinct(conf.ch, conf.frames, stopAt, inStall, seq)
			c.Sample(fmt.Sprint("mode", conf.ch > 0, inStall), "%v: ops %v, stop (in stall: %v), %d frames", conf, seq, inStall, n2)
		})
	}
	// Mixer blocked on a full output channel when it's stopped.
	for ch := 1; ch <= 4; ch++ {
		c.Eval("stop with a full output channel of %d", ch)
		c.Bubble("full-channel", func() {
			out := newPCMSink(8000)
			block := make(chan struct{})
			out.hook = func(int, msdk.PCM16Sample) error { <-block; return nil }
			m := mixConf{rate: 8000, dur: 20 * time.Millisecond, frames: 5, ch: ch}.create(c.Rand(ch), out, nil)
			time.Sleep(time.Second)
			m.Stop()
			close(block)
			synctest.Wait()
			c.Count("stopped_blocked", 1)
			c.Distinct("full", ch)
		})
	}
	// Concurrent use in real time, under the race detector.
	for i := 0; i < c.N(6, 60); i++ {
		rnd := c.Rand("race", i)
		conf := mixConf{rate: 8000, dur: time.Millisecond, frames: 1 + rnd.Intn(5), ch: rnd.Intn(3)}
		c.Eval("concurrent %d: %v", i, conf)
		c.Within("concurrent", 60*time.Second, func() {
			var st mixer.Stats
			out := newPCMSink(conf.rate)
			m := conf.create(rnd, out, &st)
			var wg sync.WaitGroup
			var created, closed atomic.Int64
			for g := 0; g < 8; g++ {
				wg.Add(1)
				grnd := c.Rand("race", i, g)
				go func() {
					defer wg.Done()
					for k := 0; k < 40; k++ {
						inp := m.NewInput()
						if inp == nil {
							continue // stopped
						}
						created.Add(1)
						for w := 0; w < 10; w++ {
							_ = inp.WriteSample(make(msdk.PCM16Sample, conf.size()))
							if w == 3 {
								_ = inp.String()
							}
							if grnd.Intn(8) == 0 {
								time.Sleep(time.Duration(grnd.Intn(400)) * time.Microsecond)
							}
						}
						if grnd.Intn(4) != 0 {
							closed.Add(1)
							var wg2 sync.WaitGroup
							wg2.Add(1)
							go func() { defer wg2.Done(); _ = inp.Close() }()
							m.RemoveInput(inp)
							wg2.Wait()
						}
						if g == 0 && k == 35 {
							go m.Stop()
							m.Stop()
						}
					}
				}()
			}
			wg.Wait()
			if inp := m.NewInput(); inp != nil {
				c.Fail("input-after-stop", "input created after concurrent Stop")
			}
			if got, exp := st.Tracks.Load(), created.Load()-closed.Load(); got != exp {
				c.Fail("tracks", "%d tracks after concurrent use, expected %d", got, exp)
			}
			c.Count("concurrent_inputs", int(created.Load()))
			c.Distinct("race", created.Load(), closed.Load())
		})
	}
}
