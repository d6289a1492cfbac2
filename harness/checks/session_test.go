package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/protocol/logger"

	"verif/harness/kit"
)

func init() {
	kit.Register("T04", kit.Check{
		Rule: "Random packet schedules (sources, junk, oversized packets, slow and multiple readers, Close at random points) over an in-memory connection in virtual time, " +
			"real-time stress with the race detector, concurrent writers and UDP sockets. Distinct: delivery histories.",
		Floor: 200,
		Run:   checkSession,
	})
	kit.Register("T05", kit.Check{
		Rule: "Pairs of SRTP sessions for all profiles, with and without MKI, over a network that drops, reorders, replays, flips bits and forges packets with other " +
			"keys. Distinct: (profile, network history).",
		Floor: 100,
		Run:   checkSRTP,
	})
	kit.Register("T07", kit.Check{
		Rule: "Random port ranges on private loopback addresses with busy ports and injected bind errors, opened until exhaustion, sequentially and concurrently. " +
			"Distinct: (range, busy set, order of ports).",
		Floor: 100,
		Run:   checkPorts,
	})
}

// memConn is an in-memory packet connection.
type memConn struct {
	in     chan []byte
	done   chan struct{}
	once   sync.Once
	mu     sync.Mutex
	out    [][]byte
	hook   func(b []byte) error
	busy   atomic.Int32
	over   atomic.Int32
	closes atomic.Int32
}

func newMemConn() *memConn {
	return &memConn{in: make(chan []byte, 1000), done: make(chan struct{})}
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func (m *memConn) Read(b []byte) (int, error) {
	select {
	case <-m.done:
		return 0, net.ErrClosed
	default:
	}
	select {
	case p := <-m.in:
		return copy(b, p), nil
	case <-m.done:
		return 0, net.ErrClosed
	}
}

func (m *memConn) Write(b []byte) (int, error) {
	if m.busy.Add(1) != 1 {
		m.over.Add(1)
	}
	defer m.busy.Add(-1)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.hook != nil {
		if err := m.hook(b); err != nil {
			return 0, err
		}
	}
	m.out = append(m.out, bytes.Clone(b))
	return len(b), nil
}

func (m *memConn) Close() error {
	m.closes.Add(1)
	m.once.Do(func() { close(m.done) })
	return nil
}
func (m *memConn) LocalAddr() net.Addr                { return memAddr("local") }
func (m *memConn) RemoteAddr() net.Addr               { return memAddr("remote") }
func (m *memConn) SetDeadline(t time.Time) error      { return nil }
func (m *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (m *memConn) SetWriteDeadline(t time.Time) error { return nil }

func (m *memConn) written() [][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([][]byte{}, m.out...)
}

// randPacket generates a packet. Its payload identifies the source and the number of the packet.
func randPacket(rnd *rand.Rand, ssrc uint32, sn uint16, size int) *prtp.Packet {
	p := &prtp.Packet{Header: prtp.Header{
		Version: 2, Marker: rnd.Intn(2) == 0, PayloadType: uint8(rnd.Intn(128)), SequenceNumber: sn, Timestamp: rnd.Uint32(), SSRC: ssrc,
	}}
	many := rnd.Intn(10) == 0
	n := rnd.Intn(4) - 1
	if many {
		n = rnd.Intn(16)
	}
	for k := n; k > 0; k-- {
		p.CSRC = append(p.CSRC, rnd.Uint32())
	}
	n = rnd.Intn(4) - 1
	if many {
		n = rnd.Intn(9)
	}
	for k := n; k > 0; k-- {
		ext := make([]byte, 1+rnd.Intn(15))
		rnd.Read(ext)
		if err := p.SetExtension(uint8(k), ext); err != nil {
			panic(err)
		}
	}
	p.Payload = make([]byte, size)
	rnd.Read(p.Payload)
	return p
}

func marshal(p *prtp.Packet) []byte {
	b, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// samePacket compares all fields that are sent over the network.
func samePacket(h *prtp.Header, payload []byte, e *prtp.Packet) bool {
	b, err := h.Marshal()
	if err != nil {
		return false
	}
	eb, _ := e.Header.Marshal()
	return bytes.Equal(b, eb) && bytes.Equal(payload, e.Payload)
}

// parsable reports if the RTP library can parse the packet: it rejects some packets without a payload, which have extensions.
func parsable(p *prtp.Packet) bool {
	var p2 prtp.Packet
	return p2.Unmarshal(marshal(p)) == nil
}

func checkSession(c *kit.C) {
	log := logger.GetLogger()
	for i := 0; i < c.N(500, 10000); i++ {
		rnd := c.Rand("sess", i)
		c.Eval("session %d", i)
		c.Bubble("session", func() { runSession(c, rnd, log, i) })
		if c.Failed() {
			return
		}
	}
	for i := 0; i < c.N(40, 1500); i++ {
		c.Eval("stress %d", i)
		stressSession(c, log, i)
	}
	for i := 0; i < c.N(60, 1500); i++ {
		c.Eval("writers %d", i)
		sessionWriters(c, log, i)
	}
	for i := 0; i < c.N(100, 1500); i++ {
		rnd := c.Rand("late", i)
		c.Eval("late %d", i)
		c.Bubble("late", func() { sessionLate(c, rnd, log) })
	}
	for i := 0; i < c.N(10, 200); i++ {
		c.Eval("udp %d", i)
		sessionUDP(c, log, i)
	}
	for i := 0; i < c.N(6, 60); i++ {
		rnd := c.Rand("crowd", i)
		c.Eval("crowd %d", i)
		c.Bubble("crowd", func() { sessionCrowd(c, rnd, log) })
	}
}

// sessionCrowd receives packets of many sources at once, in any order.
func sessionCrowd(c *kit.C, rnd *rand.Rand, log logger.Logger) {
	n := []int{20, 70, 150, 300, 600, 1200, 5000}[rnd.Intn(7)]
	per := 1 + rnd.Intn(9)
	conn := newMemConn()
	s := rtp.NewSession(log, conn)
	sent := make(map[uint32][]*prtp.Packet, n)
	var ids []uint32
	if rnd.Intn(2) == 0 {
		for base := rnd.Uint32(); len(ids) < n; base += 1 << uint(len(ids)%2) {
			ids = append(ids, base)
		}
	} else {
		step := uint32(1 + rnd.Intn(2)<<10)
		for _, k := range rnd.Perm(n) {
			ids = append(ids, uint32(k-n/2)*step) // 0 is included
		}
	}
	var mu sync.Mutex
	got := make(map[uint32]int)
	accepted := make(map[uint32]bool)
	ended := 0
	go func() {
		for {
			r, v, err := s.AcceptStream()
			mu.Lock()
			if err != nil {
				ended++
				mu.Unlock()
				return
			}
			if accepted[v] {
				c.Fail("crowd-accept", "source %x of %d is accepted twice", v, n)
			}
			accepted[v] = true
			mu.Unlock()
			go func() {
				buf := make([]byte, rtp.MTUSize)
				for {
					var h prtp.Header
					sz, err := r.ReadRTP(&h, buf)
					mu.Lock()
					if err != nil {
						ended++
						mu.Unlock()
						return
					}
					if x := got[v]; h.SSRC != v || x >= len(sent[v]) || !samePacket(&h, buf[:sz], sent[v][x]) {
						c.Fail("crowd-packet", "source %x of %d: got %+v instead of packet %d", v, n, h, x)
					}
					got[v]++
					mu.Unlock()
				}
			}()
		}
	}()
	for x := 0; x < per; x++ {
		for k, j := range rnd.Perm(len(ids)) {
			v := ids[j]
			p := randPacket(rnd, v, uint16(x), 1+rnd.Intn(100))
			mu.Lock()
			sent[v] = append(sent[v], p)
			mu.Unlock()
			conn.in <- marshal(p)
			if k%256 == 255 {
				synctest.Wait()
			}
		}
	}
	synctest.Wait()
	mu.Lock()
	for _, v := range ids {
		if !accepted[v] || got[v] != len(sent[v]) {
			c.Fail("crowd-lost", "source %x of %d: accepted %v, %d of %d packets are read", v, n, accepted[v], got[v], len(sent[v]))
			break
		}
	}
	mu.Unlock()
	if err := s.Close(); err != nil {
		c.Fail("crowd-close", "%v", err)
	}
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	if ended != len(accepted)+1 {
		c.Fail("crowd-end", "%d of %d readers end after Close", ended-1, len(accepted))
	}
	c.Max("sources", n)
	c.Count("crowd_packets", n*per)
}

func runSession(c *kit.C, rnd *rand.Rand, log logger.Logger, id int) {
	const queue = 10
	conn := newMemConn()
	s := rtp.NewSession(log, conn)
	n := 1 + rnd.Intn(4)
	ssrc := make([]uint32, n)
	for k := range ssrc {
		ssrc[k] = rnd.Uint32()
	}
	if rnd.Intn(3) == 0 {
		ssrc[rnd.Intn(n)] = []uint32{0, 1, math.MaxUint32, 1 << 31, math.MaxInt32}[rnd.Intn(5)]
	}
	var mu sync.Mutex
	sent := make([][]*prtp.Packet, n)
	must := make([][]int, n) // packets that must be delivered
	last := make([]int, n)
	dropped := make([]int, n)
	eof := 0
	readers := 0
	delivered := 0
	var hist []int
	for k := range last {
		last[k] = -1
	}
	multi := rnd.Intn(6) == 0 // several readers per stream
	slow := rnd.Intn(3) == 0
	index := func(v uint32) int {
		for k, x := range ssrc {
			if x == v {
				return k
			}
		}
		return -1
	}
	got := func(k int, h *prtp.Header, p []byte) {
		mu.Lock()
		defer mu.Unlock()
		delivered++
		x := int(h.SequenceNumber)
		if h.SSRC != ssrc[k] || x >= len(sent[k]) || !samePacket(h, p, sent[k][x]) {
			c.Fail("packet", "stream %d: got packet %+v with %d bytes", k, *h, len(p))
			return
		}
		hist = append(hist, k<<16|x)
		if multi {
			for j, m := range must[k] {
				if m == x {
					must[k] = append(must[k][:j:j], must[k][j+1:]...)
					return
				}
			}
			if dropped[k] == 0 {
				c.Fail("twice", "stream %d: packet %d is delivered twice", k, x)
			}
			return
		}
		if x <= last[k] {
			c.Fail("order", "stream %d: packet %d after %d", k, x, last[k])
		}
		last[k] = x
		for len(must[k]) > 0 && must[k][0] <= x {
			if must[k][0] < x {
				c.Fail("lost", "stream %d: packet %d is lost, got %d; %d packets waiting", k, must[k][0], x, len(must[k]))
			}
			must[k] = must[k][1:]
		}
	}
	stop := make(chan struct{})
	reader := func(k int, r rtp.ReadStream, rs *rand.Rand) {
		buf := make([]byte, rtp.MTUSize)
		var h prtp.Header
		for {
			select {
			case <-stop:
			default:
				if slow && rs.Intn(8) == 0 {
					time.Sleep(time.Duration(rs.Intn(100)) * time.Millisecond)
				} else if rs.Intn(3) == 0 {
					time.Sleep(time.Duration(rs.Intn(10)) * time.Millisecond)
				}
			}
			rs.Read(buf[:100])
			h = prtp.Header{PayloadType: 1, CSRC: []uint32{1}, Extension: true}
			n, err := r.ReadRTP(&h, buf)
			if err != nil {
				mu.Lock()
				eof++
				mu.Unlock()
				if err != io.EOF {
					c.Fail("eof", "read on a closed session: %v", err)
				}
				return
			}
			got(k, &h, buf[:n])
		}
	}
	accepted := make(map[uint32]bool)
	var streams []rtp.ReadStream
	go func() {
		for {
			r, v, err := s.AcceptStream()
			if err != nil {
				if !errors.Is(err, net.ErrClosed) {
					c.Fail("accept-error", "%v", err)
				}
				mu.Lock()
				eof++
				mu.Unlock()
				return
			}
			k := index(v)
			mu.Lock()
			if k < 0 || accepted[v] || len(sent[k]) == 0 {
				c.Fail("accept", "unexpected stream %x", v)
			}
			accepted[v] = true
			streams = append(streams, r)
			cnt := 1
			if multi {
				cnt = 3
			}
			readers += cnt
			mu.Unlock()
			for j := 0; j < cnt; j++ {
				go reader(k, r, rand.New(rand.NewSource(int64(id*100+k*10+j))))
			}
		}
	}()
	cnt := 40 + rnd.Intn(150)
	burst := rnd.Intn(3)
	for k := 0; k < cnt; k++ {
		if burst == 0 || rnd.Intn(20) == 0 {
			time.Sleep(time.Duration(rnd.Intn(12)) * time.Millisecond)
		}
		synctest.Wait()
		switch rnd.Intn(12) {
		case 0:
			// Junk.
			b := make([]byte, rnd.Intn(12))
			rnd.Read(b)
			if rnd.Intn(3) == 0 {
				b = make([]byte, 12+rnd.Intn(8))
				rnd.Read(b)
				b[0] = 0x80 | 0x0f // 15 CSRCs
			} else if rnd.Intn(3) == 0 {
				b = marshal(randPacket(rnd, ssrc[0], 60000, 10))
				b[0] |= 0x20 // padding
				b[len(b)-1] = 200
			}
			conn.in <- b
			c.Count("junk", 1)
		case 1:
			v := ssrc[rnd.Intn(n)]
			if rnd.Intn(3) == 0 {
				v = rnd.Uint32()
			}
			p := randPacket(rnd, v, 60000, 1600+rnd.Intn(500))
			conn.in <- marshal(p)
			c.Count("oversized", 1)
		default:
			st := rnd.Intn(n)
			size := rnd.Intn(200)
			x := len(sent[st])
			p := randPacket(rnd, ssrc[st], uint16(x), size)
			if rnd.Intn(6) == 0 {
				p.Padding, p.PaddingSize = true, byte(1+rnd.Intn(255))
				c.Count("padded", 1)
			}
			if sz := p.MarshalSize(); rnd.Intn(10) == 0 {
				// Around the limit.
				more := rtp.MTUSize - sz + rnd.Intn(3) - 1
				p.Payload = append(p.Payload, make([]byte, more)...)
			}
			mu.Lock()
			if p.MarshalSize() > rtp.MTUSize {
				c.Count("oversized", 1)
			} else if !parsable(p) {
				c.Count("junk", 1)
			} else {
				sent[st] = append(sent[st], p)
				if len(must[st]) < queue {
					must[st] = append(must[st], x)
				} else {
					dropped[st]++
				}
			}
			c.Max("longest_queue", len(must[st]))
			mu.Unlock()
			conn.in <- marshal(p)
		}
		synctest.Wait()
	}
	early := rnd.Intn(3) == 0
	close(stop)
	drained := func(when string) {
		// Everything that is queued can be read.
		time.Sleep(time.Second)
		synctest.Wait()
		for k := range must {
			if len(must[k]) != 0 {
				c.Fail("lost-end", "stream %d: packets %v are not delivered %s Close (%d were sent, last delivered is %d)", k, must[k], when, len(sent[k]), last[k])
			}
			if accepted[ssrc[k]] != (len(sent[k]) > 0) {
				c.Fail("not-accepted", "stream %d with %d packets: accepted %v", k, len(sent[k]), accepted[ssrc[k]])
			}
		}
	}
	if !early {
		drained("before")
	}
	if err := s.Close(); err != nil {
		c.Fail("close", "%v", err)
	}
	_ = s.Close()
	drained("after")
	mu.Lock()
	defer mu.Unlock()
	if eof != readers+1 {
		c.Fail("close-unblock", "%d of %d readers and the accept loop ended after Close", eof, readers)
	}
	if conn.closes.Load() == 0 {
		c.Fail("close-conn", "connection is not closed")
	}
	if _, _, err := s.AcceptStream(); err == nil {
		c.Fail("accept-closed", "accepted a stream on a closed session")
	}
	drop := 0
	for k := range dropped {
		drop += dropped[k]
	}
	c.Count("delivered", delivered)
	c.Count("sent_over_queue_limit", drop)
	c.Count("readers_ended", eof)
	c.Distinct(fmt.Sprint(hist))
	c.Sample(fmt.Sprint(multi, slow), "%d sources, %d packets, delivered %d, over the queue limit %d, multiple readers %v, early close %v", n, cnt, delivered, drop, multi, early)
	// Reading after close doesn't block forever.
	for _, r := range streams {
		for k := 0; ; k++ {
			var h prtp.Header
			if _, err := r.ReadRTP(&h, make([]byte, rtp.MTUSize)); err != nil {
				break
			}
			if k > 2*queue {
				c.Fail("read-closed", "too many packets after close")
				break
			}
		}
	}
}

// stressSession feeds packets as fast as possible, readers compete with the accept loop on every packet.
func stressSession(c *kit.C, log logger.Logger, i int) {
	conn := newMemConn()
	s := rtp.NewSession(log, conn)
	const n, per = 3, 400
	var consumed [n]atomic.Int64
	var seen [n][per]atomic.Bool
	lossless := i%2 == 0
	readers := 1 // per stream
	if i%4 >= 2 {
		readers = 2 + i/4%3
	}
	var sent [n][]*prtp.Packet
	rnd := c.Rand("stress", i)
	for k := 0; k < n; k++ {
		for x := 0; x < per; x++ {
			sent[k] = append(sent[k], randPacket(rnd, uint32(k+1), uint16(x), 1+rnd.Intn(60)))
		}
	}
	var direct atomic.Int64
	c.Within("stress", 90*time.Second, func() {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r, v, err := s.AcceptStream()
				if err != nil {
					return
				}
				for id := 0; id < readers; id++ {
					wg.Add(1)
					rs := c.Rand("reader", i, v, id)
					go func() {
						defer wg.Done()
						k := int(v - 1)
						buf := make([]byte, rtp.MTUSize)
						var h prtp.Header
						last := -1
						for {
							n, err := r.ReadRTP(&h, buf)
							if err != nil {
								if lossless && readers == 1 && last != per-1 {
									c.Fail("stress-end", "stream %d ended at %d", k, last)
								}
								return
							}
							x := int(h.SequenceNumber)
							if x <= last || lossless && readers == 1 && x != last+1 {
								c.Fail("stress-order", "stream %d: packet %d after %d", k, x, last)
							}
							last = x
							if x >= per || !samePacket(&h, buf[:n], sent[k][x]) {
								c.Fail("stress-packet", "stream %d: packet %d is corrupted", k, x)
							} else if !seen[k][x].CompareAndSwap(false, true) {
								c.Fail("stress-twice", "stream %d: packet %d is delivered to several readers", k, x)
							}
							consumed[k].Add(1)
							direct.Add(1)
							// The reader owns the buffers until the next read.
							for j := range buf[:n] {
								buf[j] = 0xEE
							}
							h.Timestamp, h.SSRC = 1, 99
							switch rs.Intn(5) {
							case 0:
								runtime.Gosched()
							case 1:
								for j := 0; j < rs.Intn(2000); j++ {
									h.Timestamp += uint32(j)
								}
							}
							for j := range buf[:n] {
								if buf[j] != 0xEE {
									c.Fail("stress-buffer", "stream %d: buffer of a reader is written after its read of packet %d", k, x)
									break
								}
							}
						}
					}()
				}
			}
		}()
		for x := 0; x < per; x++ {
			for k := 0; k < n; k++ {
				for lossless && int64(x)-consumed[k].Load() >= 9 {
					runtime.Gosched()
				}
				conn.in <- marshal(sent[k][x])
			}
		}
		for lossless && consumed[0].Load()+consumed[1].Load()+consumed[2].Load() < n*per {
			time.Sleep(time.Millisecond)
		}
		if !lossless {
			// Close in the middle of the processing.
			time.Sleep(time.Duration(rnd.Intn(500)) * time.Microsecond)
		}
		_ = s.Close()
		wg.Wait()
	})
	c.Count("stress_packets", int(direct.Load()))
	if readers > 1 {
		c.Count("stress_shared_packets", int(direct.Load()))
	}
	c.Distinct("stress", i, direct.Load())
}

// lateConn returns packets even after it was closed: they were received before that.
type lateConn struct {
	*memConn
	rnd  *rand.Rand
	late int
}

func (l *lateConn) Read(b []byte) (int, error) {
	n, err := l.memConn.Read(b)
	if err != nil && l.late > 0 {
		l.late--
		for k := l.rnd.Intn(100); k > 0; k-- {
			runtime.Gosched() // not a sleep: the session is closed under a lock
		}
		return copy(b, marshal(randPacket(l.rnd, 1+uint32(l.rnd.Intn(2)), 5000, 1+l.rnd.Intn(100)))), nil
	}
	return n, err
}

// sessionLate closes a session while packets are received: everything ends, and buffers of readers are theirs after that.
func sessionLate(c *kit.C, rnd *rand.Rand, log logger.Logger) {
	conn := &lateConn{memConn: newMemConn(), rnd: rand.New(rand.NewSource(rnd.Int63())), late: rnd.Intn(4)}
	s := rtp.NewSession(log, conn)
	var wg sync.WaitGroup
	wg.Add(1)
	var late atomic.Int32
	go func() {
		defer wg.Done()
		for {
			r, _, err := s.AcceptStream()
			if err != nil {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var h prtp.Header
				buf := make([]byte, rtp.MTUSize)
				for {
					n, err := r.ReadRTP(&h, buf)
					if err != nil {
						break
					}
					if h.SequenceNumber == 5000 {
						late.Add(1)
					} else if n != 10 {
						c.Fail("late-size", "read %d bytes of a packet of 10", n)
					}
				}
				h = prtp.Header{SequenceNumber: 7}
				clear(buf)
				time.Sleep(20 * time.Millisecond)
				if h.SequenceNumber != 7 || bytes.Count(buf, []byte{0}) != len(buf) {
					c.Fail("late-buffer", "buffer or header of a reader is written after the end of its stream")
				}
				if _, err := r.ReadRTP(&h, buf); err == nil {
					c.Fail("late-read", "stream continues after its end")
				}
			}()
		}
	}()
	for k := 0; k < rnd.Intn(6); k++ {
		conn.in <- marshal(&prtp.Packet{Header: prtp.Header{Version: 2, SSRC: 1 + uint32(rnd.Intn(2)), SequenceNumber: uint16(k)}, Payload: make([]byte, 10)})
		if rnd.Intn(2) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	if rnd.Intn(3) != 0 {
		time.Sleep(5 * time.Millisecond)
	}
	for k := 0; k < 1+rnd.Intn(2); k++ {
		if err := s.Close(); err != nil {
			c.Fail("late-close", "%v", err)
		}
	}
	wg.Wait()
	conn.late = 3
	for k := 0; k < 2; k++ {
		if r, v, err := s.AcceptStream(); err == nil || r != nil {
			c.Fail("late-accept", "stream %x is accepted after Close and the end of the accept loop", v)
		}
	}
	if n := conn.closes.Load(); n != 1 {
		c.Fail("late-closes", "connection is closed %d times", n)
	}
	c.Count("late_packets", int(late.Load()))
	c.Distinct("late", late.Load(), conn.late)
}

func sessionWriters(c *kit.C, log logger.Logger, i int) {
	conn := newMemConn()
	fails := c.Rand("writer-fail", i)
	errInjected := someError(fails, "injected")
	conn.hook = func([]byte) error {
		if fails.Intn(30) == 0 {
			return errInjected
		}
		return nil
	}
	s := rtp.NewSession(log, conn)
	const g, per = 4, 60
	var ok [g][]*prtp.Packet
	c.Within("writers", 60*time.Second, func() {
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			rnd := c.Rand("writers", i, k)
			go func() {
				defer wg.Done()
				w, err := s.OpenWriteStream()
				if err != nil {
					c.Fail("open", "%v", err)
					return
				}
				_ = w.String()
				buf := make([]byte, rtp.MTUSize)
				for x := 0; x < per; x++ {
					p := randPacket(rnd, uint32(k), uint16(x), 1+rnd.Intn(1300))
					if rnd.Intn(12) == 0 {
						// A header that can't be written: an extension of RFC 3550 that isn't a multiple of 32 bits.
						bad := prtp.Header{Version: 2, SSRC: uint32(k), Extension: true, ExtensionProfile: 0x1234}
						if err := bad.SetExtension(0, make([]byte, 1+rnd.Intn(3))); err != nil {
							panic(err)
						}
						if n, err := w.WriteRTP(&bad, buf[:rnd.Intn(100)]); err == nil {
							c.Fail("write-header", "write of an invalid header returned %d, no error", n)
						}
						continue
					}
					e := p.Clone()
					payload := buf[:len(p.Payload)]
					copy(payload, p.Payload)
					n, err := w.WriteRTP(&p.Header, payload)
					if err == nil && n != e.MarshalSize() {
						c.Fail("write-size", "write of a packet of %d bytes returned %d", e.MarshalSize(), n)
					}
					if !samePacket(&p.Header, payload, e) {
						c.Fail("write-args", "arguments of the write are modified")
					}
					if err != nil {
						if err != errInjected {
							c.Fail("write-error", "%v", err)
						}
						continue
					}
					ok[k] = append(ok[k], e)
					for j := range payload {
						payload[j] = 0xCC
					}
				}
			}()
		}
		wg.Wait()
	})
	var next [g]int
	for _, b := range conn.written() {
		var p prtp.Packet
		if err := p.Unmarshal(b); err != nil {
			c.Fail("wire", "%v", err)
			continue
		}
		k := int(p.SSRC)
		if k >= g || next[k] >= len(ok[k]) || !bytes.Equal(b, marshal(ok[k][next[k]])) {
			c.Fail("wire-packet", "writer %d: packet %d is corrupted or reordered", k, p.SequenceNumber)
			break
		}
		next[k]++
	}
	for k := range next {
		if next[k] != len(ok[k]) {
			c.Fail("wire-count", "writer %d: %d packets on the wire, %d writes succeeded", k, next[k], len(ok[k]))
		}
	}
	if conn.over.Load() != 0 {
		c.Fail("wire-overlap", "concurrent writes to the connection")
	}
	c.Count("written", len(conn.out))
	c.Distinct("writers", i, len(conn.out))
}

func udpPair() (*net.UDPConn, *net.UDPConn, error) {
	l := func() (*net.UDPConn, error) { return net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}) }
	t1, err := l()
	if err != nil {
		return nil, nil, err
	}
	t2, err := l()
	if err != nil {
		return nil, nil, err
	}
	a1, a2 := t1.LocalAddr().(*net.UDPAddr), t2.LocalAddr().(*net.UDPAddr)
	_, _ = t1.Close(), t2.Close()
	c1, err := net.DialUDP("udp", a1, a2)
	if err != nil {
		return nil, nil, err
	}
	c2, err := net.DialUDP("udp", a2, a1)
	return c1, c2, err
}

func sessionUDP(c *kit.C, log logger.Logger, i int) {
	c1, c2, err := udpPair()
	if err != nil {
		c.Count("udp_skipped", 1)
		return
	}
	rnd := c.Rand("udp", i)
	a, b := rtp.NewSession(log, c1), rtp.NewSession(log, c2)
	c.Within("udp", 60*time.Second, func() {
		var wg sync.WaitGroup
		var got atomic.Int64
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r, ssrc, err := b.AcceptStream()
				if err != nil {
					return
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					buf := make([]byte, rtp.MTUSize)
					var h prtp.Header
					last := -1
					for {
						n, err := r.ReadRTP(&h, buf)
						if err != nil {
							return
						}
						if h.SSRC != ssrc || int(h.SequenceNumber) <= last || n != 1+int(h.SequenceNumber)%100 {
							c.Fail("udp-packet", "stream %x: %+v, %d bytes after %d", ssrc, h, n, last)
						}
						last = int(h.SequenceNumber)
						got.Add(1)
					}
				}()
			}
		}()
		w, _ := a.OpenWriteStream()
		for k := 0; k < 300; k++ {
			p := randPacket(rnd, uint32(5+k%2), uint16(k), 1+k%100)
			if _, err := w.WriteRTP(&p.Header, p.Payload); err != nil {
				c.Fail("udp-write", "%v", err)
			}
			if k%5 == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		time.Sleep(time.Duration(rnd.Intn(3)) * time.Millisecond)
		_ = b.Close()
		wg.Wait()
		_ = a.Close()
		c.Count("udp_packets", int(got.Load()))
		c.Distinct("udp", i, got.Load())
	})
}

var srtpProfiles = []struct {
	name           srtp.ProtectionProfile
	key, salt, tag int
}{
	{"AES_CM_128_HMAC_SHA1_80", 16, 14, 10},
	{"AES_CM_128_HMAC_SHA1_32", 16, 14, 4},
	{"AES_256_CM_HMAC_SHA1_80", 32, 14, 10},
	{"AES_256_CM_HMAC_SHA1_32", 32, 14, 4},
}

func checkSRTP(c *kit.C) {
	log := logger.GetLogger()
	// Offered profiles.
	keys := make(map[string]bool)
	for i := 0; i < c.N(50, 500); i++ {
		c.Eval("profiles %d", i)
		ps, err := srtp.DefaultProfiles()
		if err != nil || len(ps) != len(srtpProfiles) {
			c.Fail("profiles", "%v, %v", ps, err)
			return
		}
		idx := make(map[int]bool)
		names := make(map[srtp.ProtectionProfile]bool)
		for _, p := range ps {
			names[p.Profile] = true
			if idx[p.Index] || p.Index < 1 {
				c.Fail("profile-index", "index %d", p.Index)
			}
			idx[p.Index] = true
			if keys[string(p.Key)] || keys[string(p.Salt)] {
				c.Fail("profile-key", "key or salt is repeated")
			}
			keys[string(p.Key)], keys[string(p.Salt)] = true, true
			for _, e := range srtpProfiles {
				if e.name == p.Profile && (len(p.Key) != e.key || len(p.Salt) != e.salt) {
					c.Fail("profile-len", "%s: key %d, salt %d", p.Profile, len(p.Key), len(p.Salt))
				}
			}
		}
		for _, e := range srtpProfiles {
			if !names[e.name] {
				c.Fail("profile-missing", "%s", e.name)
			}
		}
	}
	if len(keys) != c.N(50, 500)*8 {
		c.Fail("profile-random", "%d different keys", len(keys))
	}
	// Sessions are not made of keys with other sizes.
	for i := range srtpProfiles {
		rnd := c.Rand("bad-keys", i)
		for k := 0; k < 4; k++ {
			c.Eval("bad keys %d", i)
			conf, _ := srtpPair(rnd, i, nil)
			f := []*[]byte{&conf.Keys.LocalMasterKey, &conf.Keys.LocalMasterSalt, &conf.Keys.RemoteMasterKey, &conf.Keys.RemoteMasterSalt}[k]
			*f = (*f)[:rnd.Intn(len(*f))]
			conn := newMemConn()
			if s, err := srtp.NewSession(log, conn, conf); err == nil {
				c.Fail("bad-keys", "session is made with a key or salt of %d bytes for %s", len(*f), srtpProfiles[i].name)
				if s != nil {
					_ = s.Close()
				}
			} else if s != nil {
				c.Fail("bad-keys", "both a session and an error: %v", err)
			}
			_ = conn.Close()
		}
	}
	for _, name := range []srtp.ProtectionProfile{"", "NULL", "aes", "F8_128_HMAC_SHA1_80"} {
		if _, err := name.Parse(); err == nil {
			c.Fail("parse", "profile %q is accepted", name)
		}
	}
	for i := 0; i < c.N(240, 6000); i++ {
		rnd := c.Rand("srtp", i)
		c.Eval("srtp %d", i)
		c.Bubble("srtp", func() { runSRTP(c, rnd, log, i) })
		if c.Failed() {
			return
		}
	}
	for i := 0; i < c.N(20, 500); i++ {
		c.Eval("srtp concurrent %d", i)
		stressSRTP(c, log, i)
	}
}

// srtpPair creates configs of two sides.
func srtpPair(rnd *rand.Rand, prof int, mki []byte) (*srtp.Config, *srtp.Config) {
	e := srtpProfiles[prof]
	gen := func(n int) []byte {
		b := make([]byte, n)
		rnd.Read(b)
		return b
	}
	id, err := e.name.Parse()
	if err != nil {
		panic(err)
	}
	k := srtp.SessionKeys{LocalMasterKey: gen(e.key), LocalMasterSalt: gen(e.salt), RemoteMasterKey: gen(e.key), RemoteMasterSalt: gen(e.salt)}
	a := &srtp.Config{Profile: id, Keys: k}
	b := &srtp.Config{Profile: id, Keys: srtp.SessionKeys{
		LocalMasterKey: k.RemoteMasterKey, LocalMasterSalt: k.RemoteMasterSalt, RemoteMasterKey: k.LocalMasterKey, RemoteMasterSalt: k.LocalMasterSalt,
	}}
	if len(mki) != 0 {
		for _, x := range []*srtp.Config{a, b} {
			x.LocalOptions = append(x.LocalOptions, srtp.MasterKeyIndicator(mki))
			x.RemoteOptions = append(x.RemoteOptions, srtp.MasterKeyIndicator(mki))
		}
	}
	return a, b
}

func runSRTP(c *kit.C, rnd *rand.Rand, log logger.Logger, id int) {
	prof := id % len(srtpProfiles)
	e := srtpProfiles[prof]
	var mki []byte
	if rnd.Intn(3) == 0 {
		mki = make([]byte, []int{1, 4, 8, 128}[rnd.Intn(4)])
		rnd.Read(mki)
	}
	ca, cb := srtpPair(rnd, prof, mki)
	connA, connB := newMemConn(), newMemConn()
	a, err := srtp.NewSession(log, connA, ca)
	if err != nil {
		c.Fail("new", "%s: %v", e.name, err)
		return
	}
	b, err := srtp.NewSession(log, connB, cb)
	if err != nil {
		c.Fail("new", "%s: %v", e.name, err)
		return
	}
	// Sender with other keys.
	fprof := prof
	if rnd.Intn(2) == 0 {
		fprof = rnd.Intn(len(srtpProfiles))
	}
	cf, _ := srtpPair(rnd, fprof, mki)
	connF := newMemConn()
	forger, err := srtp.NewSession(log, connF, cf)
	if err != nil {
		c.Fail("new", "%v", err)
		return
	}
	n := 1 + rnd.Intn(3)
	ssrc := make([]uint32, n)
	next := make([]uint16, n)
	sent := make(map[uint64]*prtp.Packet)
	for k := range ssrc {
		ssrc[k] = rnd.Uint32()
		if rnd.Intn(8) == 0 {
			ssrc[k] = []uint32{0, math.MaxUint32, 1 << 31}[k]
		}
		next[k] = uint16(rnd.Intn(65536))
		if rnd.Intn(2) == 0 {
			next[k] = 65530
		}
	}
	key := func(ssrc uint32, sn uint16) uint64 { return uint64(ssrc)<<16 | uint64(sn) }
	var mu sync.Mutex
	got := make(map[uint64]int)
	ended, readers := 0, 0
	var readErr error
	accepting := rnd.Intn(5) != 0 // otherwise, nobody accepts
	exact := -1
	if rnd.Intn(4) == 0 {
		exact = 1 + rnd.Intn(400) // frames of one size, and buffers which have space for nothing else
		c.Count("buffers of the payload size", 1)
	}
	stopAccept := rnd.Intn(6) == 0
	acceptLoop := func() {
		for k := 0; !stopAccept || k < n; k++ {
			r, v, err := b.AcceptStream()
			if err != nil {
				mu.Lock()
				ended++
				mu.Unlock()
				return
			}
			mu.Lock()
			readers++
			mu.Unlock()
			go func() {
				full := make([]byte, 8192)
				if exact >= 0 {
					full = full[:exact:exact]
				}
				var h, prevH prtp.Header
				var prev *prtp.Packet // nil or the packet of prevH
				for {
					buf := full
					for j := range buf {
						buf[j] = 0xDD
					}
					h = prtp.Header{CSRC: []uint32{1}, Extension: true}
					n, err := r.ReadRTP(&h, buf)
					if prev != nil && !samePacket(&prevH, prev.Payload, prev) {
						c.Fail("header-kept", "%s: header of a packet changed by the next read: %+v, sent %+v", e.name, prevH, prev.Header)
					}
					if err != nil {
						mu.Lock()
						ended++
						readErr = err
						mu.Unlock()
						return
					}
					mu.Lock()
					p := sent[key(h.SSRC, h.SequenceNumber)]
					if p == nil || h.SSRC != v {
						c.Fail("unknown", "%s: packet %+v was never sent", e.name, h)
					} else if !samePacket(&h, buf[:n], p) {
						c.Fail("changed", "%s: packet is changed: %+v (%d bytes), sent %+v (%d bytes)", e.name, h, n, p.Header, len(p.Payload))
					}
					prevH, prev = h, p
					got[key(h.SSRC, h.SequenceNumber)]++
					mu.Unlock()
				}
			}()
		}
		mu.Lock()
		ended++
		mu.Unlock()
	}
	if accepting {
		go acceptLoop()
	}
	w, _ := a.OpenWriteStream()
	fw, _ := forger.OpenWriteStream()
	_ = w.String()
	want := make(map[uint64]bool)
	attacks := 0
	seen := make([]bool, n)
	var hist []int
	var old [][]byte
	var held [][]byte // reordered
	heldFor := 0
	cnt := 30 + rnd.Intn(60)
	for k := 0; k < cnt; k++ {
		st := rnd.Intn(n)
		x := next[st]
		next[st]++
		size := rnd.Intn(300)
		if rnd.Intn(10) == 0 {
			size = 1000 + rnd.Intn(400)
		}
		if exact >= 0 {
			size = exact
		}
		p := randPacket(rnd, ssrc[st], x, size)
		payload := bytes.Clone(p.Payload)
		if rnd.Intn(6) == 0 {
			// Padding is a part of the payload here, and isn't delivered.
			p.Padding, p.PaddingSize = true, byte(1+rnd.Intn(255))
			payload = append(payload, make([]byte, p.PaddingSize)...)
			payload[len(payload)-1] = p.PaddingSize
			c.Count("padded", 1)
		}
		mu.Lock()
		sent[key(ssrc[st], x)] = p.Clone()
		mu.Unlock()
		if _, err := w.WriteRTP(&p.Header, payload); err != nil {
			c.Fail("write", "%v", err)
		}
		if !samePacket(&p.Header, payload[:len(p.Payload)], sent[key(ssrc[st], x)]) {
			c.Fail("write-args", "arguments of the write are modified")
		}
		out := connA.written()
		if len(out) != k+1 {
			c.Fail("wire-count", "%d packets on the wire after %d writes", len(out), k+1)
			return
		}
		enc := out[k]
		if exp := p.MarshalSize() + e.tag + len(mki); len(enc) != exp {
			c.Fail("wire-len", "%s: encrypted packet of %d bytes, expected %d", e.name, len(enc), exp)
		}
		if size >= 16 && bytes.Contains(enc, p.Payload[:16]) || size >= 32 && bytes.Contains(enc, p.Payload[size-16:]) {
			c.Fail("plaintext", "%s: payload is sent in clear", e.name)
		}
		// Network.
		act := rnd.Intn(12)
		if !seen[st] {
			// Receiver has to see the first packets, otherwise it can't know if the sequence number was wrapped.
			seen[st], act = true, 11
		}
		hist = append(hist, st<<8|act)
		switch act {
		case 0: // lost
			c.Count("lost", 1)
		case 1: // flipped bits
			bad := bytes.Clone(enc)
			for f := 0; f <= rnd.Intn(3); f++ {
				bit := rnd.Intn(len(bad) * 8)
				bad[bit/8] ^= 1 << (bit % 8)
			}
			if !bytes.Equal(bad, enc) {
				connB.in <- bad
				attacks++
			}
			if rnd.Intn(2) == 0 {
				connB.in <- enc
				want[key(ssrc[st], x)] = true
			}
		case 2: // replay
			connB.in <- enc
			want[key(ssrc[st], x)] = true
			for r := 0; r <= rnd.Intn(3); r++ {
				if len(old) > 0 {
					connB.in <- old[rnd.Intn(len(old))]
				}
				connB.in <- enc
			}
			attacks++
		case 3: // forged with another key
			f := randPacket(rnd, ssrc[st], x+uint16(rnd.Intn(3)), rnd.Intn(100))
			_, _ = fw.WriteRTP(&f.Header, f.Payload)
			fo := connF.written()
			connB.in <- fo[len(fo)-1]
			connB.in <- enc
			want[key(ssrc[st], x)] = true
			attacks++
		case 4: // truncated, extended, plaintext, junk
			switch rnd.Intn(4) {
			case 0:
				connB.in <- enc[:rnd.Intn(len(enc))]
			case 1:
				connB.in <- append(bytes.Clone(enc), byte(rnd.Intn(256)))
			case 2:
				connB.in <- marshal(p)
			case 3:
				j := make([]byte, rnd.Intn(100))
				rnd.Read(j)
				connB.in <- j
			}
			attacks++
		case 5: // reordered
			held = append(held, enc)
			want[key(ssrc[st], x)] = true
		default:
			connB.in <- enc
			want[key(ssrc[st], x)] = true
		}
		if !parsable(p) {
			// Must not affect other packets.
			delete(want, key(ssrc[st], x))
			c.Count("malformed", 1)
		}
		old = append(old, enc)
		if len(held) > 0 {
			if heldFor++; heldFor > 5 {
				for len(held) > 0 {
					connB.in <- held[len(held)-1]
					held = held[:len(held)-1]
				}
				heldFor = 0
			}
		}
		if rnd.Intn(4) == 0 {
			synctest.Wait()
		}
	}
	for len(held) > 0 {
		connB.in <- held[len(held)-1]
		held = held[:len(held)-1]
	}
	synctest.Wait()
	if accepting && !stopAccept {
		mu.Lock()
		for x := range want {
			if got[x] == 0 {
				c.Fail("lost", "%s: packet %x is not delivered, SNs %v, history %x, sent %+v, readers %d, ended %d (%v)", e.name, x, next, hist, sent[x], readers, ended, readErr)
				break
			}
		}
		mu.Unlock()
	}
	// Traffic in the other direction uses other keys.
	back, _ := b.OpenWriteStream()
	p := randPacket(rnd, ssrc[0], next[0]-1, 50)
	_, _ = back.WriteRTP(&p.Header, p.Payload)
	if bo := connB.written(); len(bo) == 1 {
		go func() { connA.in <- bo[0] }()
		r, v, err := a.AcceptStream()
		var h prtp.Header
		buf := make([]byte, 2000)
		if err != nil || v != ssrc[0] {
			c.Fail("back", "%v", err)
		} else if n, err := r.ReadRTP(&h, buf); err != nil || !samePacket(&h, buf[:n], p) {
			c.Fail("back", "%v, %+v", err, h)
		}
	} else {
		c.Fail("back-count", "%d packets", len(bo))
	}
	for _, s := range []rtp.Session{a, b, forger} {
		if err := s.Close(); err != nil {
			c.Fail("close", "%v", err)
		}
		if rnd.Intn(3) == 0 {
			_ = s.Close() // returns
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	if accepting && ended != readers+1 {
		c.Fail("close-unblock", "%d of %d readers and the accept loop ended after Close", ended, readers)
	}
	if _, _, err := b.AcceptStream(); err == nil {
		c.Fail("accept-closed", "accepted a stream on a closed session")
	}
	for _, x := range []*memConn{connA, connB, connF} {
		if x.closes.Load() == 0 {
			c.Fail("close-conn", "connection is not closed")
		}
	}
	for x, m := range got {
		if m > 1 {
			c.Fail("replay", "%s: packet %x is delivered %d times", e.name, x, m)
		}
	}
	c.Count("delivered", len(got))
	c.Count("attacks", attacks)
	c.Count("readers_ended", ended)
	c.Distinct(prof, len(mki), fmt.Sprint(hist))
	c.Sample(fmt.Sprint(e.name), "MKI %d bytes, %d packets, %d attacks, %d delivered of %d, accepting %v", len(mki), cnt, attacks, len(got), len(want), accepting)
}

func stressSRTP(c *kit.C, log logger.Logger, i int) {
	rnd := c.Rand("srtp-stress", i)
	ca, cb := srtpPair(rnd, i%len(srtpProfiles), nil)
	connA, connB := newMemConn(), newMemConn()
	a, err := srtp.NewSession(log, connA, ca)
	if err != nil {
		c.Fail("new", "%v", err)
		return
	}
	b, err := srtp.NewSession(log, connB, cb)
	if err != nil {
		c.Fail("new", "%v", err)
		return
	}
	connA.hook = func(p []byte) error {
		connB.in <- bytes.Clone(p)
		return nil
	}
	const g, per = 4, 100
	var got atomic.Int64
	c.Within("srtp-stress", 60*time.Second, func() {
		var rg, wg sync.WaitGroup
		rg.Add(1)
		go func() {
			defer rg.Done()
			for {
				r, v, err := b.AcceptStream()
				if err != nil {
					return
				}
				rg.Add(1)
				go func() {
					defer rg.Done()
					buf := make([]byte, 2000)
					var h prtp.Header
					for k := 0; ; k++ {
						n, err := r.ReadRTP(&h, buf)
						if err != nil {
							if k != per {
								c.Fail("stress-count", "stream %d ended after %d packets: %v", v, k, err)
							}
							return
						}
						if h.SSRC != v || int(h.SequenceNumber) != k || n != k+1 || buf[0] != byte(v) || buf[n-1] != byte(v) {
							c.Fail("stress-packet", "stream %d: packet %d: %+v, %d bytes", v, k, h, n)
						}
						got.Add(1)
					}
				}()
			}
		}()
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w, _ := a.OpenWriteStream()
				for x := 0; x < per; x++ {
					pl := bytes.Repeat([]byte{byte(k)}, x+1)
					h := prtp.Header{Version: 2, SSRC: uint32(k), SequenceNumber: uint16(x)}
					if _, err := w.WriteRTP(&h, pl); err != nil {
						c.Fail("stress-write", "%v", err)
					}
				}
			}()
		}
		wg.Wait()
		for k := 0; k < 2000 && got.Load() < g*per; k++ {
			time.Sleep(time.Millisecond)
		}
		_ = b.Close()
		_ = a.Close()
		rg.Wait()
	})
	c.Count("stress_packets", int(got.Load()))
	c.Distinct("stress", i)
}

func checkPorts(c *kit.C) {
	// Each case works on its own loopback address, so all ports are free.
	addr := func(rnd *rand.Rand) netip.Addr {
		return netip.AddrFrom4([4]byte{127, byte(50 + rnd.Intn(150)), byte(rnd.Intn(256)), byte(1 + rnd.Intn(250))})
	}
	type listenFunc func(lo, hi int, ip netip.Addr) (*net.UDPConn, error)
	withConfig := func(ctl func(port int) error) listenFunc {
		return func(lo, hi int, ip netip.Addr) (*net.UDPConn, error) {
			lc := &net.ListenConfig{}
			if ctl != nil {
				lc.Control = func(network, address string, _ syscall.RawConn) error {
					ap, err := netip.ParseAddrPort(address)
					if err != nil || ap.Addr() != ip {
						c.Fail("control", "listening on %q, expected %v", address, ip)
					}
					return ctl(int(ap.Port()))
				}
			}
			return rtp.ListenUDPPortRangeWithConfig(lo, hi, ip, lc)
		}
	}
	local := func(conn *net.UDPConn) (netip.Addr, int) {
		ap := conn.LocalAddr().(*net.UDPAddr).AddrPort()
		return ap.Addr().Unmap(), int(ap.Port())
	}
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("ports", i)
		c.Eval("ports %d", i)
		ip := addr(rnd)
		listen := rtp.ListenUDPPortRange
		name := "plain"
		if rnd.Intn(2) == 0 {
			listen, name = withConfig(nil), "config"
			if rnd.Intn(2) == 0 {
				listen, name = withConfig(func(int) error { return nil }), "control"
			}
		}
		size := 1 + rnd.Intn(30)
		lo := 1025 + rnd.Intn(60000)
		switch rnd.Intn(8) {
		case 0:
			lo = 65536 - size
		case 1:
			lo = 1
		}
		hi := lo + size - 1
		argLo, argHi := lo, hi
		if lo == 1 && rnd.Intn(2) == 0 {
			argLo = -rnd.Intn(2)
		}
		if hi == 65535 && rnd.Intn(2) == 0 {
			argHi = []int{0, -1, 65536, 100000}[rnd.Intn(4)]
		}
		if argLo <= 0 && argHi <= 0 || argLo == argHi && argLo != lo {
			argLo, argHi = lo, hi
		}
		used := make(map[int]*net.UDPConn)
		busy := 0
		for p := lo; p <= hi; p++ {
			if rnd.Intn(3) == 0 {
				conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip.AsSlice(), Port: p})
				if err != nil {
					c.Count("skipped", 1)
					continue
				}
				used[p] = conn
				busy++
			}
		}
		var order []int
		for {
			conn, err := listen(argLo, argHi, ip)
			if err != nil {
				if conn != nil {
					c.Fail("conn-and-error", "connection is returned with an error")
				}
				if argLo == argHi {
					if !errors.Is(err, syscall.EADDRINUSE) {
						c.Fail("exhausted", "%s [%d,%d]: %v", name, argLo, argHi, err)
					}
				} else if !errors.Is(err, rtp.ErrListenFailed) {
					c.Fail("exhausted", "%s [%d,%d]: %v", name, argLo, argHi, err)
				}
				if len(used) != size {
					c.Fail("not-exhausted", "%s: %d ports of [%d,%d] (%d) in use, %d were busy, error: %v", name, len(used), argLo, argHi, size, busy, err)
				}
				break
			}
			a, p := local(conn)
			if a != ip || p < lo || p > hi || used[p] != nil {
				c.Fail("port", "%s [%d,%d] on %v: listening on %v port %d", name, argLo, argHi, ip, a, p)
				_ = conn.Close()
				break
			}
			used[p] = conn
			order = append(order, p-lo)
			// Release some and take it again.
			if rnd.Intn(10) == 0 {
				_ = conn.Close()
				delete(used, p)
				if len(order) > 200 {
					break
				}
			}
		}
		for _, x := range used {
			_ = x.Close()
		}
		c.Count("bound", len(order))
		c.Distinct(name, size, fmt.Sprint(order))
		c.Sample(name, "range [%d,%d] on %v, %d busy: bound %v", argLo, argHi, ip, busy, order[:min(12, len(order))])
	}
	// Injected errors.
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("inject", i)
		c.Eval("inject %d", i)
		ip := addr(rnd)
		size := 2 + rnd.Intn(40)
		lo := 2000 + rnd.Intn(60000)
		hi := lo + size - 1
		plan := make([]error, size)
		free := 0
		fatal := syscall.Errno(0)
		for k := range plan {
			switch rnd.Intn(12) {
			case 0:
				free++
			case 1:
				if rnd.Intn(3) == 0 {
					fatal = []syscall.Errno{syscall.EACCES, syscall.EPERM, syscall.EADDRNOTAVAIL, syscall.EMFILE, syscall.EINVAL}[rnd.Intn(5)]
					plan[k] = fatal
					break
				}
				fallthrough
			default:
				plan[k] = syscall.EADDRINUSE
			}
		}
		tried := make(map[int]int)
		var order []int
		conn, err := withConfig(func(p int) error {
			if p < lo || p > hi {
				c.Fail("inject-port", "port %d is not in [%d,%d]", p, lo, hi)
				return syscall.EINVAL
			}
			tried[p]++
			order = append(order, p-lo)
			return plan[p-lo]
		})(lo, hi, ip)
		for p, m := range tried {
			if m > 1 {
				c.Fail("inject-twice", "port %d is tried %d times", p, m)
			}
		}
		if len(order) == 0 {
			c.Fail("inject-none", "no ports are tried: %v", err)
			continue
		}
		lastRes := plan[order[len(order)-1]]
		for _, p := range order[:len(order)-1] {
			if plan[p] != syscall.EADDRINUSE {
				c.Fail("inject-continue", "ports are tried after %v", plan[p])
			}
		}
		switch {
		case err == nil:
			_, p := local(conn)
			if lastRes != nil || p != order[len(order)-1]+lo {
				c.Fail("inject-ok", "port %d, last tried %d (%v)", p, order[len(order)-1]+lo, lastRes)
			}
			_ = conn.Close()
			c.Count("inject_bound", 1)
		case lastRes == nil:
			c.Fail("inject-error", "%v after a successful bind", err)
		case lastRes != syscall.EADDRINUSE:
			if !errors.Is(err, lastRes) || conn != nil {
				c.Fail("inject-fatal", "%v, expected %v", err, lastRes)
			}
			c.Count("inject_fatal", 1)
		default:
			if !errors.Is(err, rtp.ErrListenFailed) || len(tried) != size || free != 0 || fatal != 0 {
				c.Fail("inject-exhausted", "%v: tried %d of %d ports, %d free", err, len(tried), size, free)
			}
			c.Count("inject_exhausted", 1)
		}
		c.Distinct("inject", fmt.Sprint(order), size)
	}
	// Large ranges where almost all ports are busy.
	for i := 0; i < c.N(12, 200); i++ {
		rnd := c.Rand("large", i)
		ip := addr(rnd)
		lo := 1 + rnd.Intn(60000)
		hi := lo + rnd.Intn(65536-lo)
		if i%4 == 0 {
			lo, hi = 1, 65535
		}
		free := max(lo, 1025) + rnd.Intn(max(hi-max(lo, 1025)+1, 1))
		if i%3 == 0 || free > hi {
			free = -1
		}
		argLo, argHi := lo, hi
		if lo == 1 && rnd.Intn(2) == 0 {
			argLo = 0
		} else if hi == 65535 && rnd.Intn(2) == 0 {
			argHi = 0
		}
		c.Eval("large range [%d,%d], %d is free", argLo, argHi, free)
		tried := make(map[int]int)
		conn, err := withConfig(func(p int) error {
			tried[p]++
			if p == free {
				return nil
			}
			return syscall.EADDRINUSE
		})(argLo, argHi, ip)
		for p, m := range tried {
			if m > 1 || p < lo || p > hi {
				c.Fail("large-port", "range [%d,%d]: port %d is tried %d times", argLo, argHi, p, m)
				break
			}
		}
		c.Count("ports tried in large ranges", len(tried))
		c.Distinct("large", lo, hi, free)
		switch {
		case lo == hi:
			if conn != nil {
				_ = conn.Close()
			}
		case free < 0:
			if !errors.Is(err, rtp.ErrListenFailed) || len(tried) != hi-lo+1 {
				c.Fail("large-busy", "range [%d,%d] is busy: %v after %d ports", argLo, argHi, err, len(tried))
			}
		case err != nil:
			c.Fail("large-free", "range [%d,%d]: %v after %d ports, but %d is free", argLo, argHi, err, len(tried), free)
		default:
			if _, p := local(conn); p != free {
				c.Fail("large-port", "range [%d,%d]: bound %d", argLo, argHi, p)
			}
		}
		if conn != nil {
			_ = conn.Close()
		}
	}
	// Concurrent.
	for i := 0; i < c.N(40, 800); i++ {
		rnd := c.Rand("conc", i)
		c.Eval("concurrent %d", i)
		ip := addr(rnd)
		size := 4 + rnd.Intn(30)
		lo := 2000 + rnd.Intn(60000)
		var mu sync.Mutex
		used := make(map[int]int)
		var conns []*net.UDPConn
		failed := 0
		var wg sync.WaitGroup
		for g := 0; g < size+3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				listen := rtp.ListenUDPPortRange
				if g%2 == 0 {
					listen = withConfig(nil)
				}
				conn, err := listen(lo, lo+size-1, ip)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					failed++
					return
				}
				_, p := local(conn)
				used[p]++
				conns = append(conns, conn)
			}()
		}
		wg.Wait()
		if failed != 3 || len(used) != size || len(conns) != size {
			c.Fail("concurrent", "%d ports of %d, %d connections, %d failures of %d", len(used), size, len(conns), failed, size+3)
		}
		for _, x := range conns {
			_ = x.Close()
		}
		c.Distinct("conc", size, lo)
	}
	// Any port, other kinds of addresses and invalid ranges.
	v6 := false
	if conn, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback}); err == nil {
		v6 = true
		_ = conn.Close()
	}
	var lc net.ListenConfig
	if conn, err := lc.ListenPacket(context.Background(), "udp", "[::1]:0"); err == nil {
		_ = conn.Close()
	}
	ephLo, ephHi := 1024, 65535
	if b, err := os.ReadFile("/proc/sys/net/ipv4/ip_local_port_range"); err == nil {
		if _, err := fmt.Sscan(string(b), &ephLo, &ephHi); err != nil {
			ephLo, ephHi = 1024, 65535
		}
	}
	ips := []string{"127.0.0.1", "0.0.0.0", "127.1.2.3"}
	if v6 {
		ips = append(ips, "::1", "::")
	} else {
		c.Count("no_ipv6", 1)
	}
	for _, s := range ips {
		for k, listen := range []listenFunc{rtp.ListenUDPPortRange, withConfig(nil)} {
			ip := netip.MustParseAddr(s)
			var conns []*net.UDPConn
			for _, rg := range [][2]int{{0, 0}, {-1, 0}, {0, -5}, {-7, -7}, {0, 0}, {-1, 0}} {
				c.Eval("any %s %d %v", s, k, rg)
				conn, err := listen(rg[0], rg[1], ip)
				if err != nil {
					c.Fail("any", "%s %v: %v", s, rg, err)
					continue
				}
				a, p := local(conn)
				if p == 0 || !ip.IsUnspecified() && a != ip || ip.IsUnspecified() && !a.IsUnspecified() {
					c.Fail("any-addr", "%s: listening on %v:%d", s, a, p)
				}
				// The system chooses the port.
				if p < ephLo || p > ephHi {
					c.Fail("any-port", "%s %v: port %d, the system allocates [%d,%d]", s, rg, p, ephLo, ephHi)
				}
				conns = append(conns, conn)
				if len(conns)%3 == 0 {
					_ = conn.Close()
				}
				c.Distinct("any", s, k, rg)
			}
			for _, conn := range conns {
				_ = conn.Close()
			}
			for _, rg := range [][2]int{{20000, 19999}, {65535, 1}, {70000, 0}, {65536, 70000}} {
				c.Eval("invalid %s %d %v", s, k, rg)
				if conn, err := listen(rg[0], rg[1], ip); !errors.Is(err, rtp.ErrListenFailed) || conn != nil {
					c.Fail("invalid", "%v: %v %v", rg, conn, err)
				}
				c.Distinct("invalid", s, k, rg)
			}
			// Range is used for these addresses as well.
			c.Eval("range %s %d", s, k)
			base := 30000 + k*200 + int(c.Seed%50)*400
			for try := 0; try < 3; try++ {
				conn, err := listen(base, base+100, ip)
				if err != nil {
					c.Fail("range", "%s: %v", s, err)
					continue
				}
				if _, p := local(conn); p < base || p > base+100 {
					c.Fail("range-port", "%s: port %d", s, p)
				}
				_ = conn.Close()
			}
		}
	}
}
