package checks

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"

	"verif/harness/kit"
)

func init() {
	kit.Register("J04", kit.Check{
		Rule: "A stream with losses is pushed by several goroutines in parallel (as shares, or as redundant copies) while others change the latency, flush, " +
			"read statistics and close the buffer, in virtual time under the race detector; callbacks, snapshots of counters and goroutines are checked. " +
			"Distinct: delivery histories.",
		Floor: 100,
		Run:   checkJitterConcurrent,
	})
}

// checkJitterClose closes buffers that wait for missing packets.
func checkJitterClose(c *kit.C) {
	for i := 0; i < c.N(300, 4000); i++ {
		rnd := c.Rand("close", i)
		latency := time.Duration(1+rnd.Intn(100)) * time.Millisecond
		base := uint16(rnd.Intn(65536))
		n := 1 + rnd.Intn(20)
		c.Eval("close %d: latency=%v base=%d n=%d", i, latency, base, n)
		c.Bubble("close", func() {
			calls := 0
			b := jitter.NewBuffer(testDepack{}, latency, func([]jitter.ExtPacket) { calls++ },
				jitter.WithPacketLossHandler(func(uint64, uint64) { calls++ }))
			push := func(sn int, flags byte) {
				b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: base + uint16(sn)}, Payload: []byte{flags, byte(sn)}})
			}
			if rnd.Intn(4) > 0 {
				push(0, 3)
			}
			for k := 2; k < 2+n; k++ {
				if rnd.Intn(4) > 0 {
					push(k, []byte{3, 3, 3, 1, 2, 0}[rnd.Intn(6)])
				}
			}
			if rnd.Intn(2) == 0 {
				time.Sleep(time.Duration(rnd.Int63n(int64(latency))))
			}
			synctest.Wait()
			st, size, before := *b.Stats(), b.Size(), calls
			start := time.Now()
			b.Close()
			if took := time.Since(start); took != 0 {
				c.Fail("close-slow", "Close takes %v", took)
			}
			for k := 0; k < 3; k++ {
				if calls != before || *b.Stats() != st {
					c.Fail("close-delivers", "%d packets are buffered: %d callbacks in or after Close, counters before %+v, after %+v", size, calls-before, st, *b.Stats())
					break
				}
				time.Sleep(latency)
				if k == 1 {
					b.Close()
				}
			}
			c.Distinct("close", size, st)
			c.Count("closed with packets", min(size, 1))
		})
	}
}

// checkJitterSlowClose closes buffers while timers deliver frames to a slow handler.
func checkJitterSlowClose(c *kit.C) {
	for i := 0; i < c.N(150, 2000); i++ {
		rnd := c.Rand("slow", i)
		latency := time.Duration(1+rnd.Intn(100)) * time.Millisecond
		slow := time.Duration(2+2*rnd.Intn(20)) * time.Millisecond
		n := 1 + rnd.Intn(10)
		at := rnd.Intn(n)
		c.Eval("slow %d: latency=%v handler=%v n=%d at=%d", i, latency, slow, n, at)
		c.Bubble("slow-close", func() {
			var calls atomic.Int32
			var sleep atomic.Int64
			handle := func() {
				calls.Add(1)
				time.Sleep(time.Duration(sleep.Load()))
			}
			b := jitter.NewBuffer(testDepack{}, latency, func([]jitter.ExtPacket) { handle() },
				jitter.WithPacketLossHandler(func(uint64, uint64) { handle() }))
			push := func(sn int, flags byte) {
				b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(sn)}, Payload: []byte{flags, byte(sn)}})
			}
			push(0, 3)
			for k := 0; k < n; k++ {
				push(2+k+rnd.Intn(2)*100, []byte{3, 3, 3, 1}[rnd.Intn(4)])
			}
			sleep.Store(int64(slow))
			time.Sleep(latency + time.Duration(at)*slow + slow/2)
			synctest.Wait()
			b.Close()
			before := calls.Load()
			time.Sleep(time.Hour)
			if after := calls.Load(); after != before {
				c.Fail("close-slow-handler", "latency %v: timers call the handler %d times before Close, and %d times after it", latency, before, after-before)
			}
			c.Count("closed during delivery", 1)
			c.Distinct("slow", n, at, before)
		})
	}
}

// checkJitterContention calls everything that doesn't deliver packets all the time, in real time: packets must expire anyway.
func checkJitterContention(c *kit.C) {
	for i := 0; i < c.N(25, 200) && !c.Failed(); i++ {
		c.Eval("contention %d", i)
		done := make(chan int, 10)
		b := jitter.NewBuffer(testDepack{}, 3*time.Millisecond, func(pkts []jitter.ExtPacket) { done <- len(pkts) })
		push := func(sn int) {
			b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(sn)}, Payload: []byte{3, byte(sn)}})
		}
		push(0)
		<-done
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := k; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					if n%2 == 0 {
						_ = b.Size()
					} else {
						_ = b.Stats()
					}
				}
			}()
		}
		push(2) // the packet before it never arrives
		select {
		case n := <-done:
			c.Count("expired in contention", n)
		case <-time.After(30 * time.Second):
			c.Fail("contention", "a packet didn't expire in 30 seconds while statistics were being read")
		}
		close(stop)
		wg.Wait()
		b.Close()
	}
}

// checkJitterReaders reads statistics at the very time when frames expire: it must not delay them.
func checkJitterReaders(c *kit.C) {
	for i := 0; i < c.N(60, 1000); i++ {
		rnd := c.Rand("readers", i)
		latency := time.Duration(1+rnd.Intn(100)) * time.Millisecond
		readers := 2 + rnd.Intn(5)
		c.Eval("readers %d: latency=%v readers=%d", i, latency, readers)
		c.Bubble("readers", func() {
			var got atomic.Int32
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) { got.Add(int32(len(pkts))) })
			defer b.Close()
			push := func(sn int, flags byte) {
				b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(sn)}, Payload: []byte{flags, byte(sn)}})
			}
			push(0, 3)
			for k := 0; k < 20; k++ {
				// A packet is missing before the next one.
				sn := 2 + 2*k
				push(sn, 3)
				end := time.Now().Add(latency)
				var wg sync.WaitGroup
				for j := 0; j < readers; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(time.Until(end))
						for x := 0; x < 40; x++ {
							switch (x + j) % 3 {
							case 0:
								_ = b.Stats()
							case 1:
								_ = b.Size()
							case 2:
								b.UpdateLatency(latency)
							}
						}
					}()
				}
				time.Sleep(latency)
				synctest.Wait()
				wg.Wait()
				if n := int(got.Load()); n != k+2 || b.Size() != 0 {
					c.Fail("readers-delay", "latency %v: after %d losses %d packets are delivered, %d are buffered", latency, k+1, n, b.Size())
					return
				}
			}
			c.Count("expired during reads", 20)
		})
	}
}

func checkJitterConcurrent(c *kit.C) {
	checkJitterClose(c)
	checkJitterSlowClose(c)
	checkJitterReaders(c)
	checkJitterContention(c)
	for i := 0; i < c.N(250, 4000); i++ {
		rnd := c.Rand("conc", i)
		latency := []time.Duration{5, 20, 60}[rnd.Intn(3)] * time.Millisecond
		n := 40 + rnd.Intn(100)
		pushers := 1 + rnd.Intn(4)
		redundant := rnd.Intn(2) == 0
		base := uint16(rnd.Intn(65536))
		if rnd.Intn(2) == 0 {
			base = uint16(65536 - rnd.Intn(n))
		}
		interval := []time.Duration{0, 1, 5}[rnd.Intn(3)] * time.Millisecond
		closeAt := time.Duration(-1)
		if rnd.Intn(2) == 0 {
			closeAt = time.Duration(rnd.Int63n(int64(time.Duration(n)*interval + 2*latency)))
		}
		control := rnd.Intn(3) > 0
		maxFrame := 1 + rnd.Intn(3)
		var flags []byte
		for left := 0; len(flags) < n; {
			fl := byte(0)
			if left == 0 {
				left, fl = 1+rnd.Intn(maxFrame), 1
			}
			left--
			if left == 0 {
				fl |= 2
			}
			flags = append(flags, fl)
		}
		desc := fmt.Sprintf("latency=%v n=%d pushers=%d redundant=%v base=%d interval=%v close=%v control=%v frame=%d", latency, n, pushers, redundant, base, interval, closeAt, control, maxFrame)
		c.Eval("concurrent %d: %s", i, desc)
		c.Bubble("conc", func() {
			var (
				busy   atomic.Int32
				closed atomic.Bool
				out    [][]int
				lost   []lossCall
				last   = -1
				pushed atomic.Int64
				wg     sync.WaitGroup
				stop   = make(chan struct{})
			)
			enter := func(what string) func() {
				if busy.Add(1) != 1 {
					c.Fail("parallel-callbacks", "%s: %s runs in parallel to another callback", desc, what)
				}
				return func() { busy.Add(-1) }
			}
			b := jitter.NewBuffer(testDepack{}, latency, func(pkts []jitter.ExtPacket) {
				defer enter("delivery")()
				var ids []int
				for j, p := range pkts {
					id := int(p.SequenceNumber - base)
					if string(p.Payload) != string([]byte{flags[id], byte(id)}) {
						c.Fail("modified", "%s: packet %d has payload %x", desc, id, p.Payload)
					}
					if id <= last {
						c.Fail("order", "%s: packet %d is delivered after %d", desc, id, last)
					}
					if j > 0 && id != last+1 {
						c.Fail("hole", "%s: packet %d follows %d in a sample", desc, id, last)
					}
					if (j == 0) != (flags[id]&1 != 0) || (j == len(pkts)-1) != (flags[id]&2 != 0) {
						c.Fail("partial", "%s: sample of %d packets has flags %d at %d", desc, len(pkts), flags[id], j)
					}
					last = id
					ids = append(ids, id)
				}
				out = append(out, ids)
			}, jitter.WithPacketLossHandler(func(l, d uint64) {
				defer enter("loss callback")()
				lost = append(lost, lossCall{l, d})
			}))
			for g := 0; g < pushers; g++ {
				wg.Add(1)
				grnd := c.Rand("conc", i, g)
				go func() {
					defer wg.Done()
					for id := 0; id < n; id++ {
						if interval > 0 {
							time.Sleep(interval/2 + time.Duration(grnd.Int63n(int64(interval))))
						}
						if grnd.Intn(10) == 0 || !redundant && id%pushers != g {
							continue
						}
						pkt := &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: base + uint16(id)}, Payload: []byte{flags[id], byte(id)}}
						pushed.Add(1)
						switch grnd.Intn(3) {
						case 0:
							b.Push(pkt)
						case 1:
							b.PushAt(pkt, time.Now())
						case 2:
							b.PushExtPacketBatch([]jitter.ExtPacket{{ReceivedAt: time.Now(), Packet: pkt}})
						}
					}
				}()
			}
			other := func(g int, fnc func(rnd func(int) int)) {
				wg.Add(1)
				grnd := c.Rand("conc", i, "other", g)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						case <-time.After(time.Duration(1+grnd.Intn(3000)) * time.Microsecond):
						}
						fnc(grnd.Intn)
					}
				}()
			}
			var prev jitter.BufferStats
			snaps := 0
			other(0, func(func(int) int) {
				st := *b.Stats()
				if st.PacketsPushed < prev.PacketsPushed || st.PacketsPopped < prev.PacketsPopped || st.PacketsDropped < prev.PacketsDropped ||
					st.PacketsLost < prev.PacketsLost || st.SamplesPopped < prev.SamplesPopped {
					c.Fail("stats-back", "%s: counters go back: %+v, %+v", desc, prev, st)
				}
				if st.PacketsPopped+st.PacketsDropped > st.PacketsPushed || st.SamplesPopped > st.PacketsPopped || st.PacketsPushed > uint64(pushed.Load()) {
					c.Fail("stats-snapshot", "%s: inconsistent counters %+v, %d pushed", desc, st, pushed.Load())
				}
				if s := b.Size(); s < 0 || s > n {
					c.Fail("size", "%s: size %d", desc, s)
				}
				_ = st.PacketLoss()
				prev = st
				snaps++
			})
			if control {
				other(1, func(rnd func(int) int) {
					if rnd(4) == 0 {
						b.Flush()
					} else {
						b.UpdateLatency(time.Duration(1+rnd(60)) * time.Millisecond)
					}
				})
			}
			if closeAt >= 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(closeAt)
					b.Close()
					closed.Store(true)
					if i%2 == 0 {
						b.Close()
					}
				}()
			}
			time.Sleep(time.Duration(n)*interval*3/2 + latency)
			close(stop)
			wg.Wait()
			if closeAt >= 0 {
				synctest.Wait()
				k := len(out)
				time.Sleep(time.Second)
				if len(out) != k {
					c.Fail("after-close", "%s: delivery long after Close", desc)
				}
				c.Count("closed while in use", 1)
			} else {
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
				if s := b.Size(); s != 0 {
					c.Fail("stuck", "%s: %d packets are stuck", desc, s)
				}
			}
			st := b.Stats()
			total := 0
			for _, s := range out {
				total += len(s)
			}
			if int64(st.PacketsPushed) != pushed.Load() || int(st.PacketsPopped) != total || int(st.SamplesPopped) != len(out) ||
				int(st.PacketsPopped+st.PacketsDropped)+b.Size() != int(st.PacketsPushed) {
				c.Fail("stats-total", "%s: %+v after %d pushed, %d delivered in %d samples, size %d", desc, *st, pushed.Load(), total, len(out), b.Size())
			}
			if len(lost) > 0 {
				if l := lost[len(lost)-1]; l.dropped != st.PacketsDropped || l.lost != st.PacketsLost {
					c.Fail("loss-callback", "%s: reported %+v, counters %+v", desc, l, *st)
				}
			} else if st.PacketsLost+st.PacketsDropped != 0 {
				c.Fail("loss-callback", "%s: not reported, counters %+v", desc, *st)
			}
			b.Close()
			c.Distinct(out, *st)
			c.Count("packets pushed", int(st.PacketsPushed))
			c.Count("packets delivered", total)
			c.Count("snapshots of counters", snaps)
			c.Sample(fmt.Sprint(closeAt >= 0, control), "%s: %d pushed, %d samples delivered, %d dropped", desc, st.PacketsPushed, len(out), st.PacketsDropped)
		})
	}
}
