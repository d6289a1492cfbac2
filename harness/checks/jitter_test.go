package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"

	"verif/harness/kit"
)

func init() {
	kit.Register("J01", kit.Check{
		Rule: "Random streams (frame structure, padding, wrap-around) through random networks (loss, duplication, reordering), and hostile sequence numbers; " +
			"delivered samples are checked for order, uniqueness, integrity. Distinct: delivery histories.",
		Floor: 100,
		Run:   func(c *kit.C) { runJitter(c, jitOrder); runJitterLong(c); runJitterHostile(c) },
	})
	kit.Register("J02", kit.Check{
		Rule: "Random streams and networks in virtual time; the exact time of each delivery is compared with a reference model, including latency updates " +
			"and flushes. Distinct: delivery histories with times.",
		Floor: 100,
		Run:   func(c *kit.C) { runJitter(c, jitTiming); runJitterJumps(c); runJitterJumpFrame(c) },
	})
	kit.Register("J03", kit.Check{
		Rule: "Random streams and networks; counters and loss callbacks are compared with the reference model and with conservation equations. " +
			"Distinct: vectors of counters.",
		Floor: 100,
		Run:   func(c *kit.C) { runJitter(c, jitStats); runJitterJumps(c); runJitterJumpFrame(c); runJitterHostile(c) },
	})
}

const (
	jitOrder = iota
	jitTiming
	jitStats
)

// testDepack marks heads and tails in the first byte of a payload.
type testDepack struct{ useMarker bool }

func (testDepack) Unmarshal(p []byte) ([]byte, error) { return p, nil }
func (testDepack) IsPartitionHead(p []byte) bool      { return len(p) > 0 && p[0]&1 != 0 }
func (d testDepack) IsPartitionTail(marker bool, p []byte) bool {
	if d.useMarker {
		return marker
	}
	return len(p) > 0 && p[0]&2 != 0
}

// jitPkt is a packet of a generated stream.
type jitPkt struct {
	id         int // position in the stream
	ext        int // unwrapped sequence number
	start, end bool
	padding    bool
	payload    []byte
	pbit       bool
}

func (p *jitPkt) packet() *rtp.Packet {
	return &rtp.Packet{
		Header: rtp.Header{
			Version: 2, SequenceNumber: uint16(p.ext), Timestamp: uint32(p.id) * 160, SSRC: 77, PayloadType: 96,
			Marker: p.end, Padding: p.padding || p.pbit,
		},
		Payload: append([]byte{}, p.payload...),
	}
}

// jitOp is a step of a schedule.
type jitOp struct {
	at    time.Duration
	kind  string // push, latency, flush
	pkt   *jitPkt
	age   time.Duration // how long ago it was received
	lat   time.Duration
	batch bool
}

type jitConf struct {
	latency   time.Duration
	useMarker bool
	ops       []jitOp
	pkts      []*jitPkt
	jumps     bool
	desc      string
}

func genJitter(rnd *rand.Rand) *jitConf {
	conf := &jitConf{
		latency:   []time.Duration{5, 20, 60, 200}[rnd.Intn(4)] * time.Millisecond,
		useMarker: rnd.Intn(2) == 0,
	}
	n := 20 + rnd.Intn(150)
	maxFrame := []int{1, 1, 2, 3, 5}[rnd.Intn(5)]
	padding := []int{0, 0, 10, 40}[rnd.Intn(4)]
	pbit := rnd.Intn(3) == 0
	loss := []int{0, 0, 2, 10, 30}[rnd.Intn(5)]
	dup := []int{0, 0, 5, 30}[rnd.Intn(4)]
	conf.jumps = rnd.Intn(5) == 0
	interval := []time.Duration{1, 5, 20}[rnd.Intn(3)] * time.Millisecond
	maxDelay := []time.Duration{0, interval / 2, 3 * interval, conf.latency / 2, conf.latency, 2 * conf.latency}[rnd.Intn(6)]
	ctl := rnd.Intn(4) // 0: latency updates, 1: flushes, 2: both
	if conf.jumps {
		maxDelay, ctl = 0, 1+2*rnd.Intn(2)
	}
	base := rnd.Intn(65536)
	if rnd.Intn(2) == 0 {
		base = 65536 - rnd.Intn(n)
	}
	conf.desc = fmt.Sprintf("latency=%v n=%d base=%d maxFrame=%d padding=%d%% loss=%d%% dup=%d%% delay=%v interval=%v jumps=%v ctl=%d",
		conf.latency, n, base, maxFrame, padding, loss, dup, maxDelay, interval, conf.jumps, ctl)
	ext := base
	left := 0
	for i := 0; i < n; i++ {
		p := &jitPkt{id: i, ext: ext}
		ext++
		switch {
		case rnd.Intn(100) < padding && (left == 0 || rnd.Intn(4) == 0):
			p.padding = true
			p.end = conf.useMarker && rnd.Intn(2) == 0 // has no meaning
		default:
			if left == 0 {
				left = 1 + rnd.Intn(maxFrame)
				p.start = true
			}
			left--
			p.end = left == 0
			p.pbit = pbit && rnd.Intn(4) == 0
			fl := byte(0)
			if p.start {
				fl |= 1
			}
			if p.end {
				fl |= 2
			}
			p.payload = append([]byte{fl}, make([]byte, 8+rnd.Intn(20))...)
			binary.BigEndian.PutUint64(p.payload[1:], uint64(i)<<20|uint64(rnd.Intn(1<<20)))
			if !p.start && (!p.end || conf.useMarker) && rnd.Intn(8) == 0 {
				p.payload, p.pbit = nil, false // empty, but not padding
			}
		}
		conf.pkts = append(conf.pkts, p)
		// The stream never goes more than a half of the sequence number space ahead.
		if conf.jumps && left == 0 && rnd.Intn(15) == 0 && ext < base+20000 {
			ext += 3000 + rnd.Intn(9000)
		}
	}
	// Start in the middle of a frame sometimes.
	skip := 0
	if rnd.Intn(3) == 0 {
		skip = rnd.Intn(maxFrame + 1)
	}
	uniq := 1
	stamp := func(d time.Duration) time.Duration {
		// Every operation has its own nanosecond part, so that it never coincides with a deadline.
		uniq++
		return d/1000*1000 + time.Duration(uniq)
	}
	for i, p := range conf.pkts {
		if i < skip || rnd.Intn(100) < loss {
			continue
		}
		copies := 1
		for rnd.Intn(100) < dup && copies < 3 {
			copies++
		}
		for k := 0; k < copies; k++ {
			at := time.Duration(i) * interval
			if maxDelay > 0 {
				at += time.Duration(rnd.Int63n(int64(maxDelay)))
			}
			if k > 0 && !conf.jumps {
				at += time.Duration(rnd.Int63n(int64(2 * conf.latency)))
			}
			op := jitOp{at: stamp(at), kind: "push", pkt: p, batch: rnd.Intn(3) == 0}
			if rnd.Intn(12) == 0 {
				op.age = time.Duration(rnd.Int63n(int64(conf.latency))) / 2 / 1000 * 1000
				if rnd.Intn(3) == 0 {
					op.age *= 5 // may be older than the latency
				}
			}
			conf.ops = append(conf.ops, op)
		}
	}
	for k := 0; k < 4; k++ {
		at := stamp(time.Duration(rnd.Int63n(int64(time.Duration(n) * interval))))
		if (ctl == 0 || ctl == 2) && rnd.Intn(2) == 0 {
			conf.ops = append(conf.ops, jitOp{at: at, kind: "latency", lat: time.Duration(1+rnd.Intn(150)) * time.Millisecond})
		}
		at = stamp(time.Duration(rnd.Int63n(int64(time.Duration(n) * interval))))
		if (ctl == 1 || ctl == 2) && rnd.Intn(2) == 0 {
			conf.ops = append(conf.ops, jitOp{at: at, kind: "flush"})
		}
	}
	sort.SliceStable(conf.ops, func(i, j int) bool { return conf.ops[i].at < conf.ops[j].at })
	return conf
}

// jitDelivery is a delivered sample.
type jitDelivery struct {
	at  time.Duration
	ids []int
}

func (d jitDelivery) String() string { return fmt.Sprintf("%v:%v", d.at, d.ids) }

// jitModel is a reference model.
type jitModel struct {
	latency time.Duration
	list    []*jitModelPkt
	prev    int
	init    bool

	pushed, padding, lost, dropped, popped, samples, ignored, padPops int
	out                                                               []jitDelivery
	lossChanged                                                       bool
}

type jitModelPkt struct {
	*jitPkt
	recv    time.Duration
	discont bool
}

func (m *jitModel) complete(n int) int {
	h := m.list[0]
	if h.padding {
		return 1
	}
	if !h.start {
		return 0
	}
	for i, p := range m.list {
		if i > 0 && p.ext != m.list[i-1].ext+1 {
			return 0
		}
		if p.end && !p.padding {
			return i + 1
		}
	}
	return 0
}

func (m *jitModel) drop() {
	m.dropped++
	m.lossChanged = true
}

func (m *jitModel) push(p *jitPkt, recv time.Duration) {
	m.pushed++
	if p.padding {
		m.padding++
		if !m.init {
			m.ignored++
			return
		}
	}
	late := m.init && p.ext <= m.prev
	for _, q := range m.list {
		late = late || q.ext == p.ext
	}
	if late {
		if p.padding {
			m.ignored++
		} else {
			m.drop()
		}
		return
	}
	i := sort.Search(len(m.list), func(i int) bool { return m.list[i].ext > p.ext })
	mp := &jitModelPkt{jitPkt: p, recv: recv}
	jump := !m.init || p.ext-m.prev >= 3000
	switch {
	case i == 0:
		mp.discont = jump && p.start
		if len(m.list) > 0 {
			m.list[0].discont = false
		}
	case i == len(m.list):
		mp.discont = p.start && p.ext-m.list[i-1].ext >= 3000
	}
	m.list = append(m.list[:i:i], append([]*jitModelPkt{mp}, m.list[i:]...)...)
}

func (m *jitModel) dropHead() {
	h := m.list[0]
	if m.init && !h.discont {
		m.lost += h.ext - m.prev - 1
	}
	m.prev = h.ext
	m.list = m.list[1:]
	m.drop()
}

func (m *jitModel) pop(now time.Duration, n int) {
	d := jitDelivery{at: now}
	for _, p := range m.list[:n] {
		if !p.padding {
			d.ids = append(d.ids, p.id)
		}
		m.prev = p.ext
	}
	m.popped += n
	m.list = m.list[n:]
	m.init = true
	if len(d.ids) > 0 {
		m.samples++
		m.out = append(m.out, d)
	} else {
		m.padPops++
	}
}

func (m *jitModel) process(now time.Duration) { m.processBut(now, false) }

// processBut may leave an expired head after delivered frames: if it's completed at the same instant, it's not late yet.
func (m *jitModel) processBut(now time.Duration, leave bool) {
	popped := false
	for len(m.list) > 0 {
		h := m.list[0]
		expired := now-h.recv >= m.latency
		n := m.complete(0)
		if n > 0 {
			popped = true
		}
		switch {
		case n == 0 && expired && leave && popped:
			return
		case n == 0 && expired:
			m.dropHead()
		case n > 0 && (!m.init || h.ext == m.prev+1 || h.discont):
			m.pop(now, n)
		case n > 0 && expired:
			m.lost += h.ext - m.prev - 1
			m.lossChanged = true
			m.pop(now, n)
		default:
			return
		}
	}
}

func (m *jitModel) flush(now time.Duration) {
	for len(m.list) > 0 {
		n := m.complete(0)
		if n == 0 {
			m.dropHead()
			continue
		}
		if h := m.list[0]; m.init && h.ext != m.prev+1 && !h.discont {
			m.lost += h.ext - m.prev - 1
			m.lossChanged = true
		}
		m.pop(now, n)
	}
}

// until runs timers up to the given time.
func (m *jitModel) until(now time.Duration) {
	for len(m.list) > 0 {
		dl := m.list[0].recv + m.latency
		if dl > now {
			return
		}
		m.process(dl)
	}
}

type lossCall struct{ lost, dropped uint64 }

func runJitter(c *kit.C, mode int) {
	for i := 0; i < c.N(2000, 40000); i++ {
		rnd := c.Rand("stream", i)
		conf := genJitter(rnd)
		c.Eval("stream %d: %s", i, conf.desc)
		c.Bubble("jitter", func() { runJitterStream(c, mode, conf) })
	}
}

func runJitterStream(c *kit.C, mode int, conf *jitConf) {
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	var (
		out   []jitDelivery
		got   []jitter.ExtPacket
		whole [][]jitter.ExtPacket
		loss  []lossCall
	)
	byPtr := make(map[*rtp.Packet]*jitPkt)
	recvAt := make(map[*rtp.Packet]time.Time)
	b := jitter.NewBuffer(testDepack{conf.useMarker}, conf.latency, func(pkts []jitter.ExtPacket) {
		d := jitDelivery{at: now()}
		for _, p := range pkts {
			jp := byPtr[p.Packet]
			if jp == nil {
				c.Fail("unknown", "%s: delivered packet was never pushed", conf.desc)
				continue
			}
			if !p.ReceivedAt.Equal(recvAt[p.Packet]) {
				c.Fail("received-at", "%s: packet %d: received at %v, expected %v", conf.desc, jp.id, p.ReceivedAt, recvAt[p.Packet])
			}
			d.ids = append(d.ids, jp.id)
		}
		got = append(got, pkts...)
		whole = append(whole, append([]jitter.ExtPacket{}, pkts...))
		out = append(out, d)
	}, jitter.WithPacketLossHandler(func(lost, dropped uint64) {
		loss = append(loss, lossCall{lost, dropped})
	}))
	m := &jitModel{latency: conf.latency}
	var hist []string
	settle := func() {
		synctest.Wait()
		switch mode {
		case jitTiming:
			if a, e := fmt.Sprint(out), fmt.Sprint(m.out); a != e {
				k := 0
				for k < min(len(out), len(m.out)) && fmt.Sprint(out[k]) == fmt.Sprint(m.out[k]) {
					k++
				}
				c.Fail("timing", "%s\nops: %s\nat %v: delivery %d: got %v, expected %v", conf.desc, tail(hist, 25), now(), k, out[k:min(len(out), k+2)], m.out[k:min(len(m.out), k+2)])
				panic(stopCase{})
			}
			if b.Size() != len(m.list) {
				c.Fail("size", "%s\nops: %s\nat %v: %d packets in the buffer, expected %d", conf.desc, tail(hist, 25), now(), b.Size(), len(m.list))
				panic(stopCase{})
			}
		case jitStats:
			st := b.Stats()
			a := []int{int(st.PacketsPushed), int(st.PaddingPushed), int(st.PacketsLost), int(st.PacketsDropped), int(st.PacketsPopped), b.Size()}
			e := []int{m.pushed, m.padding, m.lost, m.dropped, m.popped, len(m.list)}
			if !equal(a, e) {
				c.Fail("counters", "%s\nops: %s\nat %v: pushed,padding,lost,dropped,popped,size = %v, expected %v", conf.desc, tail(hist, 25), now(), a, e)
				panic(stopCase{})
			}
			if n := int(st.SamplesPopped); n != m.samples && n != m.samples+m.padPops {
				c.Fail("counters-samples", "%s: %d samples popped, delivered %d", conf.desc, n, m.samples)
			}
			if st.PacketsPushed > 0 {
				if e := float64(m.dropped) / float64(m.pushed); st.PacketLoss() != e {
					c.Fail("ratio", "%s: loss ratio %v, expected %v", conf.desc, st.PacketLoss(), e)
				}
			} else if st.PacketLoss() != 0 {
				c.Fail("ratio", "%s: loss ratio %v without packets", conf.desc, st.PacketLoss())
			}
			if m.lossChanged {
				m.lossChanged = false
				if len(loss) == 0 {
					c.Fail("loss-callback", "%s\nops: %s: losses were not reported", conf.desc, tail(hist, 25))
				} else if l := loss[len(loss)-1]; l.lost != st.PacketsLost || l.dropped != st.PacketsDropped {
					c.Fail("loss-callback", "%s\nops: %s: last reported %v, counters %+v", conf.desc, tail(hist, 25), l, *st)
				}
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); !ok {
				panic(r)
			}
		}
		b.Close()
	}()
	push := func(ops []jitOp) {
		var batch []jitter.ExtPacket
		for _, op := range ops {
			pkt := op.pkt.packet()
			byPtr[pkt] = op.pkt
			recv := now() - op.age
			if len(ops) > 1 {
				recv = op.at - op.age // waited for the rest of the batch
			}
			rt := start.Add(recv)
			recvAt[pkt] = rt
			hist = append(hist, fmt.Sprintf("%v push %d(sn=%d s=%v e=%v p=%v recv=%v)", now(), op.pkt.id, pkt.SequenceNumber, op.pkt.start, op.pkt.end, op.pkt.padding, recv))
			m.push(op.pkt, recv)
			m.processBut(now(), len(ops) > 1)
			batch = append(batch, jitter.ExtPacket{ReceivedAt: rt, Packet: pkt})
		}
		m.process(now())
		op, rt, pkt := ops[0], batch[0].ReceivedAt, batch[0].Packet
		switch {
		case op.batch:
			b.PushExtPacketBatch(batch)
			c.Count("batches", 1)
			c.Max("largest batch", len(batch))
		case op.age == 0 && op.pkt.id%2 == 0:
			b.PushAt(pkt, rt)
		case op.age == 0 && op.pkt.id%3 == 0:
			recvAt[pkt] = time.Now()
			b.Push(pkt)
		default:
			b.PushExtPacket(batch[0])
		}
	}
	for k := 0; k < len(conf.ops); k++ {
		op := conf.ops[k]
		ops := []jitOp{op}
		if op.kind == "push" && op.batch {
			// The next few packets wait to be pushed together.
			for len(ops) < 1+op.pkt.id%5 && k+1 < len(conf.ops) && conf.ops[k+1].kind == "push" && conf.ops[k+1].at-op.at < m.latency/3 {
				k++
				ops = append(ops, conf.ops[k])
			}
		}
		time.Sleep(ops[len(ops)-1].at - now())
		m.until(now())
		switch op.kind {
		case "push":
			push(ops)
		case "latency":
			hist = append(hist, fmt.Sprintf("%v latency %v", now(), op.lat))
			m.latency = op.lat
			b.UpdateLatency(op.lat)
			m.process(now())
		case "flush":
			hist = append(hist, fmt.Sprintf("%v flush", now()))
			m.flush(now())
			b.Flush()
		}
		settle()
	}
	// All packets must leave once the max latency passes.
	time.Sleep(m.latency + time.Microsecond)
	m.until(now())
	settle()
	if n := b.Size(); n != 0 {
		c.Fail("stuck", "%s: %d packets stuck in the buffer", conf.desc, n)
	}
	// Order, uniqueness and integrity.
	if mode == jitOrder {
		checkJitterOrder(c, conf, whole, byPtr)
	}
	if mode == jitStats {
		var pl, pd uint64
		for _, l := range loss {
			if l.lost < pl || l.dropped < pd {
				c.Fail("loss-monotonic", "%s: reported losses go back: %v", conf.desc, loss)
			} else if l.lost == pl && l.dropped == pd {
				c.Fail("loss-repeated", "%s: losses are reported again without a change: %v", conf.desc, loss)
			}
			pl, pd = l.lost, l.dropped
		}
		st := b.Stats()
		if in, o := int(st.PacketsPushed), int(st.PacketsPopped)+int(st.PacketsDropped)+m.ignored+b.Size(); in != o {
			c.Fail("conservation", "%s: pushed %d, accounted for %d", conf.desc, in, o)
		}
		c.Distinct(*st)
		c.Count("loss_callbacks", len(loss))
	} else {
		c.Distinct(out)
	}
	c.Count("packets_pushed", m.pushed)
	c.Count("packets_delivered", len(got))
	c.Count("samples_delivered", len(out))
	c.Count("packets_lost", m.lost)
	c.Count("packets_dropped", m.dropped)
	c.Count("padding_pushed", m.padding)
	c.Sample(fmt.Sprint(mode, conf.jumps, m.lost > 0), "%s: pushed=%d delivered=%d lost=%d dropped=%d; first deliveries %v", conf.desc, m.pushed, len(got), m.lost, m.dropped, out[:min(len(out), 3)])
}

// stopCase aborts a case that's already reported.
type stopCase struct{}

func tail(s []string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.Join(s, "; ")
}

func checkJitterOrder(c *kit.C, conf *jitConf, samples [][]jitter.ExtPacket, byPtr map[*rtp.Packet]*jitPkt) {
	last := -1
	for k, s := range samples {
		if len(s) == 0 {
			c.Fail("empty", "%s: empty sample", conf.desc)
			continue
		}
		first := byPtr[s[0].Packet]
		end := byPtr[s[len(s)-1].Packet]
		if !first.start || !end.end {
			c.Fail("partial", "%s: sample %d is not whole: packets %d..%d", conf.desc, k, first.id, end.id)
		}
		for j, p := range s {
			jp := byPtr[p.Packet]
			if jp.padding {
				c.Fail("padding", "%s: padding packet %d is delivered", conf.desc, jp.id)
			}
			if jp.id <= last {
				c.Fail("order", "%s: packet %d is delivered after %d", conf.desc, jp.id, last)
			}
			for j > 0 && last+1 < jp.id && conf.pkts[last+1].padding {
				last++ // padding may be inside of frames
			}
			if j > 0 && jp.id != last+1 {
				c.Fail("hole", "%s: packet %d follows %d in one sample", conf.desc, jp.id, last)
			}
			if j > 0 && jp.start || j < len(s)-1 && jp.end {
				c.Fail("merged", "%s: sample %d has a boundary inside", conf.desc, k)
			}
			last = jp.id
			e := jp.packet()
			if fmt.Sprint(e.Header) != fmt.Sprint(p.Header) || string(e.Payload) != string(p.Payload) {
				c.Fail("modified", "%s: packet %d was modified", conf.desc, jp.id)
			}
		}
	}
}

// runJitterJumps pushes packets of a stream that jumps to another sequence number, with reordering after the jump, while packets
// from before it are missing.
func runJitterJumps(c *kit.C) {
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("jumps", i)
		latency := time.Duration(10+rnd.Intn(100)) * time.Millisecond
		sn := rnd.Intn(65536)
		init := rnd.Intn(4) != 0
		var all []*jitPkt
		add := func(frames, maxFrame int) (first, last int) {
			first = len(all)
			for f := 0; f < frames; f++ {
				n := 1 + rnd.Intn(maxFrame)
				for k := 0; k < n; k++ {
					p := &jitPkt{id: len(all), ext: sn, start: k == 0, end: k == n-1, payload: []byte{0, byte(len(all))}}
					if p.start {
						p.payload[0] |= 1
					}
					if p.end {
						p.payload[0] |= 2
					}
					all = append(all, p)
					sn++
				}
			}
			return first, len(all)
		}
		// The first part is delivered at once, something is missing after it, then there are a few frames that wait for it.
		maxFrame := 1 + rnd.Intn(3)
		var order []*jitPkt
		if init {
			_, l := add(1+rnd.Intn(3), maxFrame)
			order = append(order, all[:l]...)
		}
		ready := len(order)
		m0, m1 := add(1+rnd.Intn(2), 1)
		missing := m1 - m0
		if !init {
			all, missing = all[:0], 0 // nothing is missing before the first frame
		}
		w0, w1 := add(1, 3)
		if !init {
			// The first frame must wait for its last packet.
			for w1-w0 < 2 {
				all = all[:w0]
				w0, w1 = add(1, 3)
			}
			order = append(order, all[w0:w1-1]...)
		} else {
			order = append(order, all[w0:w1]...)
		}
		sn += 3000 + rnd.Intn(20000)
		j0, j1 := add(1+rnd.Intn(4), maxFrame)
		tail := append([]*jitPkt{}, all[j0:j1]...)
		rnd.Shuffle(len(tail), func(a, b int) { tail[a], tail[b] = tail[b], tail[a] })
		order = append(order, tail...)
		comes := rnd.Intn(2) == 0 // what was missing comes at last
		var late []*jitPkt
		switch {
		case !init:
			comes = true
			late = append(late, all[w1-1])
		case comes:
			late = append(late, all[m0:m1]...)
			rnd.Shuffle(len(late), func(a, b int) { late[a], late[b] = late[b], late[a] })
		}
		desc := fmt.Sprintf("jump %d: latency=%v init=%v comes=%v", i, latency, init, comes)
		for _, p := range append(order[:len(order):len(order)], late...) {
			desc += fmt.Sprintf(" %d(sn=%d s=%v e=%v)", p.id, uint16(p.ext), p.start, p.end)
		}
		c.Eval("%s", desc)
		c.Bubble("jump", func() {
			start := time.Now()
			var got []int
			var at []time.Duration
			var calls []lossCall
			byPtr := make(map[*rtp.Packet]int)
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) {
				for _, p := range pkts {
					got = append(got, byPtr[p.Packet])
					at = append(at, time.Since(start))
				}
			}, jitter.WithPacketLossHandler(func(lost, dropped uint64) { calls = append(calls, lossCall{lost, dropped}) }))
			defer b.Close()
			push := func(p *jitPkt) {
				pkt := p.packet()
				byPtr[pkt] = p.id
				b.Push(pkt)
			}
			var wait time.Duration // arrival of the first packet that waits
			for k, p := range order {
				if k == ready {
					wait = time.Since(start)
				}
				push(p)
				time.Sleep(latency / time.Duration(4*len(all)))
			}
			if len(got) != ready {
				c.Fail("jump-early", "%s: %v are delivered, expected the first %d", desc, got, ready)
				return
			}
			end := wait + latency
			if comes {
				for _, p := range late {
					push(p)
					end = time.Since(start)
				}
			}
			time.Sleep(2 * latency)
			var exp []int
			for _, p := range all {
				if comes || p.id < m0 || p.id >= m1 || !init {
					exp = append(exp, p.id)
				}
			}
			if !equal(got, exp) {
				c.Fail("jump-order", "%s: delivered %v, expected %v", desc, got, exp)
				return
			}
			for k := ready; k < len(at); k++ {
				if at[k] != end {
					c.Fail("jump-time", "%s: packet %d is delivered at %v, expected %v", desc, got[k], at[k], end)
					return
				}
			}
			lost := missing
			if comes {
				lost = 0
			}
			if st := b.Stats(); int(st.PacketsLost) != lost || st.PacketsDropped != 0 || int(st.PacketsPopped) != len(exp) || b.Size() != 0 {
				c.Fail("jump-stats", "%s: counters %+v, expected %d lost packets", desc, *st, lost)
			}
			if n := len(calls); n > 1 || (n == 1) != (lost > 0) || n == 1 && (calls[0].lost != uint64(lost) || calls[0].dropped != 0) {
				c.Fail("jump-callback", "%s: reported %v, expected %d lost packets", desc, calls, lost)
			}
		})
		c.Count("jumps with reordering", 1)
	}
}

// runJitterJumpFrame pushes packets of the first frame after a jump in any order.
func runJitterJumpFrame(c *kit.C) {
	for i := 0; i < c.N(200, 4000); i++ {
		rnd := c.Rand("jump-frame", i)
		latency := time.Duration(10+rnd.Intn(100)) * time.Millisecond
		sn := rnd.Intn(65536)
		before := 1 + rnd.Intn(3)
		jump := 3000 + rnd.Intn(20000)
		n := 2 + rnd.Intn(4)
		headless := rnd.Intn(3) == 0
		var pkts []*jitPkt
		for k := 0; k < before+n; k++ {
			p := &jitPkt{id: k, ext: sn + k, start: k <= before, end: k < before || k == before+n-1, payload: []byte{0, byte(k)}}
			if k >= before {
				p.ext += jump
			}
			if p.start {
				p.payload[0] |= 1
			}
			if p.end {
				p.payload[0] |= 2
			}
			pkts = append(pkts, p)
		}
		if headless {
			pkts = append(pkts[:before], pkts[before+1:]...)
		}
		rnd.Shuffle(len(pkts)-before, func(a, b int) { pkts[before+a], pkts[before+b] = pkts[before+b], pkts[before+a] })
		desc := fmt.Sprintf("frame after a jump %d: latency=%v headless=%v", i, latency, headless)
		for _, p := range pkts {
			desc += fmt.Sprintf(" %d(sn=%d s=%v e=%v)", p.id, uint16(p.ext), p.start, p.end)
		}
		c.Eval("%s", desc)
		c.Bubble("jump", func() {
			var got []int
			byPtr := make(map[*rtp.Packet]int)
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) {
				for _, p := range pkts {
					got = append(got, byPtr[p.Packet])
				}
			})
			defer b.Close()
			for k, p := range pkts {
				pkt := p.packet()
				byPtr[pkt] = p.id
				b.Push(pkt)
				if k < before && len(got) != k+1 {
					c.Fail("jump-order", "%s: delivered %v after packet %d", desc, got, k)
					return
				}
				time.Sleep(latency / time.Duration(4*len(pkts)))
			}
			var exp []int
			for k := 0; k < before || !headless && k < before+n; k++ {
				exp = append(exp, k)
			}
			if !equal(got, exp) { // at once
				c.Fail("jump-time", "%s: delivered %v, expected %v", desc, got, exp)
				return
			}
			time.Sleep(2 * latency)
			lost, dropped := 0, 0
			if headless {
				lost, dropped = jump+1, n-1
			}
			if st := b.Stats(); int(st.PacketsLost) != lost || int(st.PacketsDropped) != dropped || int(st.PacketsPopped) != len(exp) || len(got) != len(exp) || b.Size() != 0 {
				c.Fail("jump-stats", "%s: counters %+v, expected %d lost and %d dropped packets", desc, *st, lost, dropped)
			}
		})
		c.Count("jumps to a shuffled frame", 1)
	}
}

// runJitterHostile pushes packets with arbitrary sequence numbers.
func runJitterHostile(c *kit.C) {
	for i := 0; i < c.N(300, 5000); i++ {
		rnd := c.Rand("hostile", i)
		c.Eval("hostile %d", i)
		c.Bubble("hostile", func() {
			latency := 20 * time.Millisecond
			delivered := make(map[*rtp.Packet]int)
			pushed := make(map[*rtp.Packet]bool)
			var nout int
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) {
				for j, p := range pkts {
					nout++
					delivered[p.Packet]++
					if !pushed[p.Packet] {
						c.Fail("hostile-unknown", "delivered packet was not pushed")
					}
					if delivered[p.Packet] > 1 {
						c.Fail("hostile-twice", "packet sn=%d is delivered twice", p.SequenceNumber)
					}
					if p.Padding && len(p.Payload) == 0 {
						c.Fail("hostile-padding", "padding is delivered")
					}
					if j > 0 && p.SequenceNumber-pkts[j-1].SequenceNumber > 3 {
						// padding may be skipped
						c.Fail("hostile-hole", "sn=%d follows sn=%d in one sample", p.SequenceNumber, pkts[j-1].SequenceNumber)
					}
				}
				if f, l := pkts[0].Payload[0], pkts[len(pkts)-1].Payload[0]; f&1 == 0 || l&2 == 0 {
					c.Fail("hostile-partial", "partial sample")
				}
			})
			sn := uint16(rnd.Intn(65536))
			mode := rnd.Intn(4)
			ignored := 0
			for k := 0; k < 150; k++ {
				switch mode {
				case 0:
					sn = uint16(rnd.Intn(65536))
				case 1:
					sn += uint16(rnd.Intn(5) - 1)
					if rnd.Intn(20) == 0 {
						sn += uint16(rnd.Intn(65536))
					}
				case 2:
					sn += []uint16{1, 1, 1, 2999, 3000, 3001, 32767, 32768, 32769, 0xffff}[rnd.Intn(10)]
				case 3:
					sn = []uint16{0, 1, 2, 0xffff, 0xfffe, 0x7fff, 0x8000, 0x8001, 3000, 2999}[rnd.Intn(10)]
				}
				fl := byte(rnd.Intn(4))
				if rnd.Intn(2) == 0 {
					fl = 3
				}
				pkt := &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: sn, Marker: fl&2 != 0}, Payload: []byte{fl, byte(k)}}
				if rnd.Intn(12) == 0 {
					pkt.Padding, pkt.Payload = true, nil
				}
				pushed[pkt] = true
				st0, s0 := b.Stats(), b.Size()
				b.Push(pkt)
				st1, s1 := b.Stats(), b.Size()
				// Padding may be ignored without a trace.
				if st1.PacketsPushed != st0.PacketsPushed+1 {
					c.Fail("hostile-pushed", "pushed counter is %d after %d", st1.PacketsPushed, st0.PacketsPushed)
				}
				moved := int(st1.PacketsPopped-st0.PacketsPopped) + int(st1.PacketsDropped-st0.PacketsDropped) + s1 - s0
				if moved != 1 {
					if pkt.Padding && moved == 0 {
						ignored++
					} else {
						c.Fail("hostile-conservation", "one packet pushed, %d accounted for (%+v -> %+v, size %d -> %d)", moved, *st0, *st1, s0, s1)
					}
				}
				if rnd.Intn(3) == 0 {
					time.Sleep(time.Duration(rnd.Intn(15)) * time.Millisecond)
					synctest.Wait()
				}
				if rnd.Intn(40) == 0 {
					b.Flush()
					if n := b.Size(); n != 0 {
						c.Fail("hostile-flush", "%d packets after a flush", n)
					}
				}
			}
			time.Sleep(latency + time.Millisecond)
			synctest.Wait()
			st := b.Stats()
			if n := b.Size(); n != 0 {
				c.Fail("hostile-stuck", "%d packets stuck", n)
			}
			if in, o := int(st.PacketsPushed), int(st.PacketsPopped)+int(st.PacketsDropped)+ignored; in != o {
				c.Fail("hostile-total", "%d packets pushed, %d accounted for", in, o)
			}
			c.Count("hostile_pushed", len(pushed))
			c.Count("hostile_delivered", nout)
			c.Distinct("hostile", mode, *st)
			b.Close()
		})
	}
}

// runJitterLong sends frames of hundreds of packets in a random order.
func runJitterLong(c *kit.C) {
	for i := 0; i < c.N(25, 400); i++ {
		rnd := c.Rand("long", i)
		latency := time.Duration(50+rnd.Intn(200)) * time.Millisecond
		sn := rnd.Intn(65536)
		var sizes []int
		var flags []byte
		first := make(map[int]bool)
		for len(sizes) < 2+rnd.Intn(3) {
			n := 200 + rnd.Intn(900)
			if rnd.Intn(3) == 0 {
				n = []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047}[rnd.Intn(10)]
			}
			first[len(flags)] = true
			for k := range n {
				var f byte
				if k == 0 {
					f |= 1
				}
				if k == n-1 {
					f |= 2
				}
				flags = append(flags, f)
			}
			sizes = append(sizes, n)
		}
		window := []int{1, 2, 10, 100, len(flags)}[rnd.Intn(5)]
		order := make([]int, len(flags))
		for k := range order {
			order[k] = k
		}
		for k := range order {
			if k > 0 { // the first packet starts the stream
				j := k + rnd.Intn(min(window, len(order)-k))
				order[k], order[j] = order[j], order[k]
			}
		}
		desc := fmt.Sprintf("long %d: latency=%v sn=%d frames=%v window=%d", i, latency, sn, sizes, window)
		c.Eval("%s", desc)
		c.Bubble("long", func() {
			var ids, got []int
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) {
				got = append(got, len(pkts))
				for _, p := range pkts {
					ids = append(ids, int(p.Payload[1])|int(p.Payload[2])<<8)
				}
			})
			defer b.Close()
			for _, k := range order {
				b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(sn + k)}, Payload: []byte{flags[k], byte(k), byte(k >> 8)}})
				time.Sleep(latency / time.Duration(2*len(order)))
			}
			if !equal(got, sizes) {
				c.Fail("long-frames", "%s: samples of %v packets", desc, got)
			}
			for k, id := range ids {
				if k != id {
					c.Fail("long-order", "%s: packet %d is delivered at %d", desc, id, k)
					break
				}
			}
			if st := b.Stats(); int(st.PacketsPopped) != len(flags) || int(st.SamplesPopped) != len(sizes) || st.PacketsDropped+st.PacketsLost != 0 {
				c.Fail("long-stats", "%s: %+v", desc, *st)
			}
		})
		c.Distinct("long", desc)
		c.Count("packets of long frames", len(flags))
	}
}
