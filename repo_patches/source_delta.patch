From cc3145bf8aac0f2ce58701cb25755f0194f1a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 01/44] fix: avoid int16 overflow when downmixing stereo to
 mono

Loud samples of the same sign wrapped around and flipped the sign of the result.
---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From 9a78bdb17aac8e53f4067da409ddf06c94ac7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 02/44] fix: CodecByPayloadType panics on payload type 255

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From bdf6b8cdfaac184a00404e8630a332e1cd9bba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 03/44] fix: ignore out of range payload types in SDP

They were truncated to 8 bits, so that e.g. format 256 was negotiated as type 0,
which the offer never listed.
---
 sdp/offer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..6dc4a27 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -510,6 +510,12 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	}, nil
 }
 
+// parsePayloadType parses an RTP payload type, which is a 7 bit number.
+func parsePayloadType(s string) (byte, error) {
+	typ, err := strconv.ParseUint(s, 10, 7)
+	return byte(typ), err
+}
+
 func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 	var out MediaDesc
 	for _, m := range d.Attributes {
@@ -519,18 +525,18 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := parsePayloadType(sub[0])
 			if err != nil {
 				continue
 			}
 			name := sub[1]
 			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
-				out.DTMFType = byte(typ)
+				out.DTMFType = typ
 				continue
 			}
 			codec, _ := CodecByName(name).(rtp.AudioCodec)
 			out.Codecs = append(out.Codecs, CodecInfo{
-				Type:  byte(typ),
+				Type:  typ,
 				Codec: codec,
 			})
 		case "crypto":
@@ -544,16 +550,16 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := parsePayloadType(f)
 		if err != nil {
 			continue
 		}
-		codec, _ := rtp.CodecByPayloadType(byte(typ)).(rtp.AudioCodec)
+		codec, _ := rtp.CodecByPayloadType(typ).(rtp.AudioCodec)
 		if !media.CodecEnabled(codec) {
 			codec = nil
 		}
 		out.Codecs = append(out.Codecs, CodecInfo{
-			Type:  byte(typ),
+			Type:  typ,
 			Codec: codec,
 		})
 	}
-- 
2.43.0


From e7a326deb374decc38fa5536e361a1820021c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 04/44] fix: validate SRTP key length in SDP crypto attribute

A key shorter than the crypto suite requires caused a panic. See RFC 4568, section 6.1.
---
 sdp/offer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 6dc4a27..37ebb50 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,13 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		saltLen, err := sp.SaltLen()
+		if err != nil {
+			return nil, err
+		}
+		if len(keys) != keyLen+saltLen {
+			return nil, fmt.Errorf("invalid crypto key length for %s: expected %d, got %d", prof, keyLen+saltLen, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 9e35c7255e7808b802a0acf83d091d0faa334dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 05/44] fix: accept 8 byte long MKI in SDP

The limit overflowed to zero, thus any 8 byte MKI was rejected.
---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 37ebb50..d60fe7b 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From 893cf7722b3a9752c428b5c0b7505e3516d50391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 06/44] fix: panic on SDP connection info without an address

---
 sdp/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..a1890f1 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -44,7 +44,7 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 		ci = s.ConnectionInformation
 	}
 	var addr string
-	if ci != nil && ci.NetworkType == "IN" {
+	if ci != nil && ci.NetworkType == "IN" && ci.Address != nil {
 		addr = ci.Address.Address
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
-- 
2.43.0


From 1fbf82044254cc7f74c0350968ce525498d1d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 07/44] fix: reset discontinuity flag on reused jitter buffer
 packets

A pooled packet kept the flag from its previous use, so the buffer released it
without waiting for the packets missing before it, and then dropped those.
---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From 81679b8733f7b2871a5b9dd6670fc7911b7198ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 08/44] fix: drop duplicates of packets buffered in the jitter
 buffer

Duplicates were delivered twice, blocked the following packets until they expire,
and increased the lost packets counter by 65535.
---
 jitter/buffer.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..e6d4946 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -212,6 +212,17 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		return
 	}
 
+	if b.contains(pkt.SequenceNumber) {
+		// duplicate of a packet that is still buffered
+		if !pkt.Padding {
+			b.stats.PacketsDropped++
+			if b.onPacketLoss != nil {
+				b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
+			}
+		}
+		return
+	}
+
 	p := b.newPacket(pkt, receivedAt)
 
 	discont := !b.initialized || !withinRange(pkt.SequenceNumber, b.prevSN)
@@ -280,6 +291,16 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// contains checks if a packet with a given sequence number is already buffered
+func (b *Buffer) contains(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From 64d16dd430fa3a08379fe3cc50344b4da64df4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 09/44] fix: drop incomplete packets once they reach max
 latency

The timer fires exactly at the deadline, but the packets were only dropped strictly
after it. Until the clock advances, the timer was re-armed with zero delay in a loop.
Complete packets already expire at the deadline.
---
 jitter/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index e6d4946..8a91ae6 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -349,7 +349,7 @@ func (b *Buffer) dropIncompleteExpired(expiry time.Time) {
 func (b *Buffer) dropIncomplete(expiry time.Time, force bool) bool {
 	dropped := false
 
-	for b.head != nil && !b.head.isComplete() && (force || b.head.extPacket.ReceivedAt.Before(expiry)) {
+	for b.head != nil && !b.head.isComplete() && (force || !expiry.Before(b.head.extPacket.ReceivedAt)) {
 		if b.initialized && !b.head.discont {
 			b.stats.PacketsLost += uint64(b.head.extPacket.SequenceNumber - b.prevSN - 1)
 		}
-- 
2.43.0


From bbd6c121b8e664bf26f4541950aeefc6faa7959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 10/44] fix: RTP session read stream reordering, corruption and
 deadlock

With zero-copy reads, a reader registered its buffer while packets were still
queued, and the packets were written to it outside the lock. Depending on the
timing, packets were reordered, written to a buffer the reader already got
back, or AcceptStream and Close blocked forever. Header extensions also
referenced the connection's read buffer.
---
 rtp/session.go | 53 +++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..7836654 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -87,10 +87,10 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			return nil, 0, err
 		}
 		if n > MTUSize {
-			overflow = true
 			if !overflow {
 				s.log.Errorw("RTP packet is larger than MTU limit", nil)
 			}
+			overflow = true
 			continue // ignore partial messages
 		}
 		buf := s.rbuf[:n]
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -163,30 +163,26 @@ type readStream struct {
 	recv    chan *rtp.Packet
 	copied  chan int
 	mu      sync.Mutex
+	direct  bool // there is a reader that waits on copied
 	hdr     *rtp.Header
 	payload []byte
 }
 
 func (r *readStream) write(p *rtp.Packet) {
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	// Both the reader's buffer and the queue are only accessed under the lock: it keeps the order of packets
+	// and guarantees that the reader won't return while we copy the data to its buffer.
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if enableZeroCopy && r.hdr != nil {
+		// zero copy
+		*r.hdr = p.Header.Clone() // extensions reference the connection's read buffer
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n // never blocks: one token per registered reader
+		return
 	}
-	p.Payload = slices.Clone(p.Payload)
 	select {
-	case r.recv <- p:
+	case r.recv <- p.Clone():
 	default:
 	}
 }
@@ -195,7 +191,9 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
 	if enableZeroCopy {
 		r.mu.Lock()
-		if r.hdr == nil {
+		// Queued packets must be read first.
+		if !r.direct && len(r.recv) == 0 {
+			r.direct = true
 			r.hdr = h
 			r.payload = payload
 			direct = true
@@ -215,18 +213,21 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	defer func() {
 		r.mu.Lock()
 		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
+		r.direct = false
 	}()
 	select {
 	case n := <-r.copied:
 		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
-		return n, nil
 	case <-r.closed:
 	}
+	r.mu.Lock()
+	r.hdr, r.payload = nil, nil
+	r.mu.Unlock()
+	// The packet may have been copied right before closing.
+	select {
+	case n := <-r.copied:
+		return n, nil
+	default:
+	}
 	return 0, io.EOF
 }
-- 
2.43.0


From ea2948207e62425c0500f646a1ffb02a99a0c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 11/44] fix: SRTP header extensions are overwritten by the
 payload

---
 srtp/srtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..046ec6f 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -166,7 +166,7 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	*h = p.Header.Clone() // extensions reference the payload buffer, which is overwritten below
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From d2752e496aa8acdfd040d4430373e40c33c31857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 12/44] fix: RTP jitter handler retains caller's buffers

---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..e1f91f4 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -64,7 +65,8 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	// The packet may stay in the buffer after this call, so it must not reference caller's buffers.
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0


From 163d7ed6d5d63c4faa945659e8167196ba938b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 13/44] fix: panic in DTMF writer without an events stream

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From 1d72d67a157f1b21045ef40da0c6ce16300eb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 14/44] fix: listening on IPv6 addresses with a custom config

---
 rtp/listen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..fb617b7 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -73,7 +73,7 @@ func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.L
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
 	ipStr := ip.String()
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 47f4d75d7f627dd89297dcea05a51dfcc7b2a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 15/44] fix: data races in String methods of RTP mux and mixer

---
 mixer/mixer.go | 5 ++++-
 rtp/mux.go     | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..52d2fbe 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -343,7 +343,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	inputs := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", inputs, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 50a887df7a6de3c93b86d4df4894abfe6a8c07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 16/44] fix: mixer goroutine blocked on the output channel
 after Stop

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 52d2fbe..02dbf5f 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch(): // nobody reads the channel anymore
+			}
 		}
 	}
 }
-- 
2.43.0


From 69016b936a8a658db4eaf028f8caeee5d76411a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 17/44] fix: crash on resampler errors, which are static
 strings

---
 resample_soxr.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..ac34cc3 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -169,7 +169,6 @@ func soxrErr(e C.soxr_error_t) error {
 	if e == nil {
 		return nil
 	}
-	defer C.free(unsafe.Pointer(e))
 	estr := C.GoString(e)
 	switch estr {
 	case "", "0":
-- 
2.43.0


From b60b0184a02126537f9b5ae385244df85cc697fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 18/44] fix: resampler dropping input and the tail of the
 output

When the output chunk was filled first, the rest of the input was dropped.
Flush on close was limited to one chunk and dropped the rest.
---
 resample_soxr.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index ac34cc3..40a1b7a 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -162,6 +162,7 @@ type soxrResampler struct {
 	srcRate int
 	dstRate int
 	maxIn   int
+	in, out int64 // total number of input and output samples
 	done    *atomic.Bool
 }
 
@@ -220,25 +221,30 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 	if r.ptr == nil || r.done.Load() {
 		return out, 0, errors.New("resampler is closed")
 	}
+	flush := len(in) == 0
 	r.maxIn = max(r.maxIn, len(in))
+	r.in += int64(len(in))
 	dstN := (len(in) * r.dstRate) / r.srcRate
-	if dstN == 0 {
+	if flush {
 		dstN = max(
 			(r.maxIn*r.dstRate)/r.srcRate,
 			cap(out)-len(out),
 			1024,
 		)
+	} else if (len(in)*r.dstRate)%r.srcRate != 0 {
+		// Account for a fraction of a sample, or the resampler will accumulate the output.
+		dstN++
 	}
-	// Make sure output has space for new samples. Length is still unchanged.
-	out = slices.Grow(out, dstN)
-	// Slice for the unused capacity, which we will write into.
-	dst := out[len(out) : len(out)+dstN]
 	total := 0
-	// Always call at least once (for flush to work), thus not considering len(in) here.
-	for len(dst) > 0 {
+	// Repeat until the input is consumed, or until there's nothing left to flush.
+	for {
+		// Make sure output has space for new samples. Length is still unchanged.
+		out = slices.Grow(out, dstN)
+		// Slice for the unused capacity, which we will write into.
+		dst := out[len(out) : len(out)+dstN]
 		var read, done C.size_t
 		var e C.soxr_error_t
-		if len(in) != 0 {
+		if !flush {
 			e = C.soxr_process(r.ptr, C.soxr_in_t(unsafe.Pointer(&in[0])), C.size_t(len(in)), &read, C.soxr_out_t(unsafe.Pointer(&dst[0])), C.size_t(len(dst)), &done)
 		} else {
 			// Flush, no input.
@@ -249,14 +255,21 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 		if err != nil {
 			return out, 0, err
 		}
-		total += int(done)
-		dst = dst[done:]
+		last := len(in) == int(read)
+		n := int(done)
+		if flush {
+			last = n < len(dst)
+			// The resampler rounds the total up, but we don't emit a sample that's only partially covered by the input.
+			n = min(n, int(max(0, r.in*int64(r.dstRate)/int64(r.srcRate)-r.out)))
+		}
+		// Adjust the length to cover written data.
+		out = out[:len(out)+n]
+		r.out += int64(n)
+		total += n
 		in = in[read:]
-		if len(in) == 0 {
+		if last {
 			break
 		}
 	}
-	// Finally adjust the length to cover written data.
-	out = out[:len(out)+total]
 	return out, total, nil
 }
-- 
2.43.0


From 82627b48286535863dbe06dc497101fee6b82e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 19/44] fix: decode Opus packets longer than 20 ms

---
 opus/opus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opus/opus.go b/opus/opus.go
index b0dfb0a..9cdd51e 100644
--- a/opus/opus.go
+++ b/opus/opus.go
@@ -150,7 +150,8 @@ func (d *decoder) resetForSample(in Sample) (int, error) {
 		}
 		d.dec = dec
 
-		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*channels)
+		// A packet may contain up to 120 ms of audio.
+		d.buf = make([]int16, d.w.SampleRate()*120/1000*channels)
 		d.lastChannels = channels
 	}
 
-- 
2.43.0


From 8f9896cd1364ffec12f44037787282ce15883d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 20/44] fix: WebM timestamps drift for fractional frame
 durations

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From b8b97d259814d08ebdda3d9c41e4279c02271e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 21/44] fix: SDP address type for IPv6 addresses

---
 sdp/offer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index d60fe7b..8046364 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -212,6 +212,13 @@ type Offer Description
 
 type Answer Description
 
+func addressType(ip netip.Addr) string {
+	if ip.Is6() {
+		return "IP6"
+	}
+	return "IP4"
+}
+
 func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*Offer, error) {
 	sessId := rand.Uint64() // TODO: do we need to track these?
 
@@ -226,13 +233,13 @@ func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*
 			SessionID:      sessId,
 			SessionVersion: sessId,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
@@ -284,13 +291,13 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 			SessionID:      d.SDP.Origin.SessionID,
 			SessionVersion: d.SDP.Origin.SessionID + 2,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
-- 
2.43.0


From 4c9bd7435202904466e1e5b28e83f9d90af4e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 22/44] fix: G722 encoder panics on odd number of samples

---
 g722/g722.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..a726b2c 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"slices"
 	"sync/atomic"
 
 	"github.com/gotranspile/g722"
@@ -135,6 +136,7 @@ func Decode(w media.PCM16Writer) (w2 Writer) {
 type Encoder struct {
 	f   g722.Flags
 	e   *g722.Encoder
+	odd media.PCM16Sample // sample left from the last write, see WriteSample
 	buf Sample
 	w   Writer
 }
@@ -152,6 +154,16 @@ func (e *Encoder) Close() error {
 }
 
 func (e *Encoder) WriteSample(in media.PCM16Sample) error {
+	if e.f&g722.FlagSampleRate8000 == 0 && (len(e.odd) != 0 || len(in)%2 != 0) {
+		// Each byte encodes two samples, so keep the odd one until the next write.
+		in = append(e.odd, in...)
+		last := len(in) &^ 1
+		e.odd = slices.Clone(in[last:])
+		in = in[:last]
+		if last == 0 {
+			return nil
+		}
+	}
 	sz := encodeSize(e.f, len(in))
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
-- 
2.43.0


From a31428c33bb9e9c4a90b0b76678240cc378ca60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 23/44] fix: jitter buffer not waiting for packets missing
 before an early packet

A packet buffered before the first sample was complete kept the discontinuity
flag after an earlier packet was inserted in front of it. It was then released
without waiting for the packets missing between the two.
---
 jitter/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 8a91ae6..b4e4a39 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -243,6 +243,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	case beforeHead && withinHeadRange:
 		// prepend
 		p.discont = discont && p.start
+		b.head.discont = false // follows the new head now
 		b.head.prev = p
 		p.next = b.head
 		b.head = p
-- 
2.43.0


From d79e4cb420f71585f7c2fb5bee6d07fb20a59a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 24/44] fix: jitter buffer dropping media packets with padding

---
 jitter/buffer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index b4e4a39..54a9594 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -194,7 +194,7 @@ func (b *Buffer) Close() {
 // push adds a packet to the buffer
 func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	b.stats.PacketsPushed++
-	if pkt.Padding {
+	if isPadding(pkt) {
 		b.stats.PaddingPushed++
 		if !b.initialized {
 			return
@@ -203,7 +203,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 
 	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
 		// packet expired
-		if !pkt.Padding {
+		if !isPadding(pkt) {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
 				b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
@@ -214,7 +214,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 
 	if b.contains(pkt.SequenceNumber) {
 		// duplicate of a packet that is still buffered
-		if !pkt.Padding {
+		if !isPadding(pkt) {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
 				b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
@@ -403,7 +403,7 @@ func (b *Buffer) popSample() []ExtPacket {
 		c := b.popHead()
 		end = c.end
 
-		if !c.extPacket.Padding {
+		if !isPadding(c.extPacket.Packet) {
 			sample = append(sample, c.extPacket)
 		}
 
@@ -436,3 +436,8 @@ func before(a, b uint16) bool {
 func withinRange(a, b uint16) bool {
 	return a-b < 3000 || b-a < 3000
 }
+
+// isPadding checks if the packet consists only of padding. Media packets may be padded as well.
+func isPadding(pkt *rtp.Packet) bool {
+	return pkt.Padding && len(pkt.Payload) == 0
+}
-- 
2.43.0


From 67d17e4d05a98d3919f4f6a19f46f707568c2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 25/44] fix: padding packets stall the jitter buffer

Depacketizers do not consider padding packets to be a head of a partition, so
they blocked the buffer for the max latency and were counted as dropped.
---
 jitter/buffer.go | 3 ++-
 jitter/packet.go | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 54a9594..5955da6 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -398,10 +398,11 @@ func (b *Buffer) Flush() {
 
 func (b *Buffer) popSample() []ExtPacket {
 	sample := make([]ExtPacket, 0, b.size)
+	padding := b.head.padding
 	end := false
 	for !end {
 		c := b.popHead()
-		end = c.end
+		end = c.end || padding
 
 		if !isPadding(c.extPacket.Packet) {
 			sample = append(sample, c.extPacket)
diff --git a/jitter/packet.go b/jitter/packet.go
index 60aee32..23406a5 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -24,6 +24,7 @@ type packet struct {
 	extPacket  ExtPacket
 	prev, next *packet
 	start, end bool
+	padding    bool
 	discont    bool
 }
 
@@ -39,8 +40,9 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 	p.prev = nil
 	p.next = nil
 	p.discont = false
+	p.padding = isPadding(pkt)
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
-	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
+	p.end = !p.padding && b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
 
 	return p
@@ -48,6 +50,9 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 // isComplete checks if the packet is the start of a complete sample
 func (p *packet) isComplete() bool {
+	if p.padding {
+		return true // not a part of any sample, unless it's in the middle of one
+	}
 	if !p.start {
 		return false
 	}
-- 
2.43.0


From ab77e6e8f8a524459e8100516293f31719fd9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 26/44] fix: SRTP session Close deadlocks on new streams and
 leaves readers blocked

---
 srtp/srtp.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 046ec6f..f226627 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -18,6 +18,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"net"
+	"sync"
 
 	prtp "github.com/pion/rtp"
 	"github.com/pion/srtp/v3"
@@ -118,6 +119,10 @@ func NewSession(log logger.Logger, conn net.Conn, conf *Config) (rtp.Session, er
 type session struct {
 	log logger.Logger
 	s   *srtp.SessionSRTP
+
+	mu      sync.Mutex
+	closed  bool
+	streams []*srtp.ReadStreamSRTP
 }
 
 func (s *session) OpenWriteStream() (rtp.WriteStream, error) {
@@ -133,11 +138,36 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		_ = r.Close()
+	} else {
+		s.streams = append(s.streams, r)
+	}
 	return readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
-	return s.s.Close()
+	// The session waits for its read loop on close, which may be blocked on a new stream that nobody accepts.
+	go func() {
+		for {
+			if _, _, err := s.s.AcceptStream(); err != nil {
+				return
+			}
+		}
+	}()
+	err := s.s.Close()
+
+	// The session doesn't close its streams, so readers would be blocked forever.
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.closed = true
+	for _, r := range s.streams {
+		_ = r.Close()
+	}
+	s.streams = nil
+	return err
 }
 
 type writeStream struct {
-- 
2.43.0


From b87e4e4434708b21d731ec593d893429bdb0e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 27/44] fix: malformed packets end SRTP read streams

---
 srtp/srtp.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index f226627..ff916d5 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -188,15 +188,17 @@ type readStream struct {
 
 func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	buf := payload
-	n, err := r.r.Read(buf)
-	if err != nil {
-		return 0, err
-	}
-	var p rtp.Packet
-	if err = p.Unmarshal(buf[:n]); err != nil {
-		return 0, err
+	for {
+		n, err := r.r.Read(buf)
+		if err != nil {
+			return 0, err
+		}
+		var p rtp.Packet
+		if err = p.Unmarshal(buf[:n]); err != nil {
+			continue // ignore, as for unencrypted streams
+		}
+		*h = p.Header.Clone() // extensions reference the payload buffer, which is overwritten below
+		n = copy(payload, p.Payload)
+		return n, nil
 	}
-	*h = p.Header.Clone() // extensions reference the payload buffer, which is overwritten below
-	n = copy(payload, p.Payload)
-	return n, nil
 }
-- 
2.43.0


From 8cd7f4871442c4647793edc032f439fd3367aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 28/44] fix: WebM writer crashes the process on file errors

---
 webm/writer.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index 32835ee..4b93f1b 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math/rand"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/at-wat/ebml-go/webm"
@@ -31,7 +32,8 @@ func NewPCM16Writer(w io.WriteCloser, sampleRate int, channels int, sampleDur ti
 }
 
 func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRate int, sampleDur time.Duration) media.WriteCloser[T] {
-	ws, err := webm.NewSimpleBlockWriter(w, []webm.TrackEntry{
+	ew := &errWriter{w: w}
+	ws, err := webm.NewSimpleBlockWriter(ew, []webm.TrackEntry{
 		{
 			Name:            "Audio",
 			TrackNumber:     1,
@@ -48,11 +50,12 @@ func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRa
 	if err != nil {
 		panic(err)
 	}
-	return &writer[T]{codec: codec, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+	return &writer[T]{codec: codec, w: ew, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
 }
 
 type writer[T media.Frame] struct {
 	codec      string
+	w          *errWriter
 	ws         webm.BlockWriteCloser
 	channels   int
 	sampleRate int
@@ -70,6 +73,9 @@ func (w *writer[T]) SampleRate() int {
 }
 
 func (w *writer[T]) WriteSample(sample T) error {
+	if err := w.w.Err(); err != nil {
+		return err
+	}
 	if sz := sample.Size(); cap(w.buf) < sz {
 		w.buf = make([]byte, sz)
 	} else {
@@ -85,5 +91,53 @@ func (w *writer[T]) WriteSample(sample T) error {
 }
 
 func (w *writer[T]) Close() error {
-	return w.ws.Close()
+	err := w.ws.Close()
+	if err2 := w.w.Err(); err2 != nil {
+		return err2
+	}
+	return err
+}
+
+// errWriter hides errors of the underlying writer from the block writer, which panics on them in a background goroutine.
+// The first error is stored and must be checked by the caller.
+type errWriter struct {
+	w io.WriteCloser
+
+	mu  sync.Mutex
+	err error
+}
+
+func (w *errWriter) Err() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	return w.err
+}
+
+func (w *errWriter) setErr(err error) {
+	if err == nil {
+		return
+	}
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if w.err == nil {
+		w.err = err
+	}
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.Err() != nil {
+		return len(p), nil // discard
+	}
+	n, err := w.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	w.setErr(err)
+	return len(p), nil
+}
+
+func (w *errWriter) Close() error {
+	err := w.w.Close()
+	w.setErr(err)
+	return err
 }
-- 
2.43.0


From e0923dec8964770f8f9463c01d3d97843a3f39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 29/44] fix: unsupported DTMF digits are encoded as 0

---
 dtmf/dtmf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index 2b7849e..d15799a 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -17,6 +17,7 @@ package dtmf
 import (
 	"context"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"math"
 	"time"
@@ -177,7 +178,11 @@ func Encode(out []byte, ev Event) (int, error) {
 		return 0, io.ErrShortBuffer
 	}
 	if ev.Digit != 0 {
-		ev.Code = charToEvent[ev.Digit]
+		code, ok := charToEvent[ev.Digit]
+		if !ok {
+			return 0, fmt.Errorf("unsupported DTMF digit: %q", ev.Digit)
+		}
+		ev.Code = code
 	}
 	out[0] = ev.Code
 	out[1] = ev.Volume & 0x3f
-- 
2.43.0


From d554710b44d9df0f1abb9da358378d226c6f79e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 30/44] fix: telephone-event name in SDP is matched
 case-sensitively

---
 sdp/offer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 8046364..df612aa 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -543,7 +543,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 				continue
 			}
 			name := sub[1]
-			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
+			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
 				out.DTMFType = typ
 				continue
 			}
-- 
2.43.0


From 7425d4606106de6d2909ca1c8eb28ffd23288f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 31/44] fix: SDP crypto attribute with an MKI and no lifetime
 is rejected

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index df612aa..374d391 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -472,6 +472,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
+	if len(parts) == 2 && strings.Contains(parts[1], ":") {
+		parts = []string{parts[0], "", parts[1]} // lifetime is optional, and may be omitted before the MKI
+	}
 
 	keys, err := base64.RawStdEncoding.DecodeString(keyMaterial)
 	if err != nil {
-- 
2.43.0


From f28bbcd3a21ca4cbb0cc48194a402be1cdc3bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 32/44] fix: DTMF is negotiated when its codec is disabled

---
 sdp/offer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 374d391..daed653 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -547,7 +547,9 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			}
 			name := sub[1]
 			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
-				out.DTMFType = typ
+				if media.CodecEnabledByName(dtmf.SDPName) {
+					out.DTMFType = typ
+				}
 				continue
 			}
 			codec, _ := CodecByName(name).(rtp.AudioCodec)
-- 
2.43.0


From 0668aba3d53865040cff215beeb7884f6f5a1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 33/44] fix: full frames accumulate in the buffer while their
 destination fails

---
 buffers.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/buffers.go b/buffers.go
index 604842a..afc2ec1 100644
--- a/buffers.go
+++ b/buffers.go
@@ -53,20 +53,22 @@ func (b *frameBuffer[T, S]) flush(force bool) error {
 			b.buf = slices.Delete(b.buf, 0, dn)
 		}
 	}()
+	// An error must not stop the following frames, or they will accumulate in the buffer.
+	var last error
 	for len(it)/b.frameSize > 0 {
 		frame := it[:b.frameSize]
 		it = it[len(frame):]
 		if err := b.w.WriteSample(frame); err != nil {
-			return err
+			last = err
 		}
 	}
 	if force && len(it) > 0 {
 		if err := b.w.WriteSample(it); err != nil {
-			return err
+			last = err
 		}
 		it = nil
 	}
-	return nil
+	return last
 }
 
 func (b *frameBuffer[T, S]) Close() error {
-- 
2.43.0


From 273d02ee148cdb457a8d1d37e150f949e81bc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 34/44] fix: frames of the resampler have a wrong duration if
 one rate isn't a multiple of the other

---
 resample_soxr.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 40a1b7a..01fc120 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -34,14 +34,8 @@ import (
 )
 
 func resampleSize(dstSampleRate, srcSampleRate int, srcSize int) int {
-	if dstSampleRate < srcSampleRate {
-		div := srcSampleRate / dstSampleRate
-		sz := srcSize / div
-		return sz
-	}
-	mul := dstSampleRate / srcSampleRate
-	sz := srcSize * mul
-	return sz
+	// One rate isn't necessarily a multiple of the other.
+	return srcSize * dstSampleRate / srcSampleRate
 }
 
 func resampleBuffer(dst PCM16Sample, dstSampleRate int, src PCM16Sample, srcSampleRate int) PCM16Sample {
-- 
2.43.0


From 35e85849a22bab52351a9a575beed1493e1b2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 35/44] fix: RTP buffer shares sources and extensions with the
 caller's header

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..ad2ab41 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -100,7 +100,7 @@ func (b *Buffer) String() string {
 
 func (b *Buffer) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 	*b = append(*b, &rtp.Packet{
-		Header:  *h,
+		Header:  h.Clone(),
 		Payload: slices.Clone(payload),
 	})
 	return len(payload), nil
-- 
2.43.0


From 1b9a8e8e823748dc1786a0b038f245a2999c38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 36/44] fix: accepting a stream of a closed RTP session panics
 if a packet is received

---
 rtp/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/session.go b/rtp/session.go
index 7836654..46773f7 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -80,6 +80,9 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 
 	s.rmu.Lock()
 	defer s.rmu.Unlock()
+	if s.bySSRC == nil {
+		return nil, 0, net.ErrClosed // the connection may still have received packets
+	}
 	overflow := false
 	for {
 		n, err := s.conn.Read(s.rbuf[:])
-- 
2.43.0


From 982c096dc0967d3572a1bd790ce47e7979da466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 37/44] fix: RTP timestamps of a stream stop when they wrap
 around

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index ad2ab41..03f403d 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -143,13 +143,14 @@ func (s *SeqWriter) String() string {
 func (s *SeqWriter) CurTS(ts, inc uint32) uint32 {
 	for {
 		cur := s.maxTS.Load()
-		// TODO: Handle wrap-around. Not a concern for now, because all streams start at TS=0.
-		if cur > ts+rtpStreamTSResetFrames*inc {
+		// Timestamps wrap around, so only the difference can be compared. Zero means that it's not set yet.
+		behind := int32(cur - ts)
+		if cur != 0 && behind > int32(rtpStreamTSResetFrames*inc) {
 			// Previous timestamp on the stream was too long ago.
 			// Force a timestamp reset to the one from a more recent stream.
 			return cur
 		}
-		if cur >= ts {
+		if cur != 0 && behind >= 0 {
 			// Timestamp is withing allowed range.
 			return ts
 		}
-- 
2.43.0


From ac0b2c0a983754157dae46447e30de1ca1979d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 38/44] fix: WebM writer blocks on a write after Close and
 panics on a second one

---
 webm/writer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index 4b93f1b..68a253f 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -60,8 +60,11 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         time.Duration
-	buf        []byte
+
+	mu     sync.Mutex
+	closed bool
+	ts     time.Duration
+	buf    []byte
 }
 
 func (w *writer[T]) String() string {
@@ -73,9 +76,14 @@ func (w *writer[T]) SampleRate() int {
 }
 
 func (w *writer[T]) WriteSample(sample T) error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	if err := w.w.Err(); err != nil {
 		return err
 	}
+	if w.closed {
+		return io.ErrClosedPipe // the block writer would block forever
+	}
 	if sz := sample.Size(); cap(w.buf) < sz {
 		w.buf = make([]byte, sz)
 	} else {
@@ -91,6 +99,12 @@ func (w *writer[T]) WriteSample(sample T) error {
 }
 
 func (w *writer[T]) Close() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if w.closed {
+		return nil
+	}
+	w.closed = true
 	err := w.ws.Close()
 	if err2 := w.w.Err(); err2 != nil {
 		return err2
-- 
2.43.0


From ad300b08e9544d3857ea358e287374dc674ca8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 39/44] fix: queued RTP packets are lost or read after EOF when
 the session is closed

---
 rtp/session.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 46773f7..2efcf97 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -204,14 +204,20 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		r.mu.Unlock()
 	}
 	if !direct {
+		var p *rtp.Packet
 		select {
-		case p := <-r.recv:
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			return n, nil
+		case p = <-r.recv:
 		case <-r.closed:
+			// Packets received before closing must be read first, there should be nothing after EOF.
+			select {
+			case p = <-r.recv:
+			default:
+				return 0, io.EOF
+			}
 		}
-		return 0, io.EOF
+		*h = p.Header
+		n := copy(payload, p.Payload)
+		return n, nil
 	}
 	defer func() {
 		r.mu.Lock()
-- 
2.43.0


From 39fddcb10f3c1e3a483340fad9cfe4ed5fe2fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 40/44] fix: errors of the last frames are lost when a
 resampler is closed

---
 resample_soxr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 01fc120..227696d 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -100,7 +100,7 @@ func (w *resampleWriter) Close() error {
 	// Close soxr resampler.
 	_ = w.r.Close()
 	// Flush our own PCM frame buffer to the underlying writer.
-	_ = w.flush(0)
+	err = w.flush(0)
 	err2 := w.w.Close()
 	if err2 != nil {
 		err = err2
-- 
2.43.0


From 3c20c846ac0fc24d64e95bfc449145a74025377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:30 +0000
Subject: [PATCH 41/44] fix: SRTP streams can't be read with buffers which only
 have space for the payload

---
 srtp/srtp.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index ff916d5..a53a6ec 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -145,7 +145,7 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	} else {
 		s.streams = append(s.streams, r)
 	}
-	return readStream{r: r}, ssrc, nil
+	return &readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
@@ -182,22 +182,32 @@ func (w writeStream) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
 	return w.w.WriteRTP(h, payload)
 }
 
+// readBufferSize is the maximal size of packets that are received by srtp.SessionSRTP.
+const readBufferSize = 8192
+
 type readStream struct {
 	r *srtp.ReadStreamSRTP
+
+	mu  sync.Mutex
+	buf []byte // whole packet; the buffer of the caller may only have space for the payload
 }
 
-func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
-	buf := payload
+func (r *readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.buf == nil {
+		r.buf = make([]byte, readBufferSize)
+	}
 	for {
-		n, err := r.r.Read(buf)
+		n, err := r.r.Read(r.buf)
 		if err != nil {
 			return 0, err
 		}
 		var p rtp.Packet
-		if err = p.Unmarshal(buf[:n]); err != nil {
+		if err = p.Unmarshal(r.buf[:n]); err != nil {
 			continue // ignore, as for unencrypted streams
 		}
-		*h = p.Header.Clone() // extensions reference the payload buffer, which is overwritten below
+		*h = p.Header.Clone() // extensions reference the buffer, which is overwritten by the next packet
 		n = copy(payload, p.Payload)
 		return n, nil
 	}
-- 
2.43.0


From 2437d8948496d6b5ceba5bf23fe5a284a4f4a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 42/44] fix: jitter buffer timers deliver more packets after
 the buffer is closed

---
 jitter/buffer.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 5955da6..ac980e0 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -93,7 +93,7 @@ func NewBuffer(
 			select {
 			case <-b.timer.C:
 				b.mu.Lock()
-				b.popReady()
+				b.popReady(b.closed.IsBroken)
 				b.mu.Unlock()
 			case <-b.closed.Watch():
 				return
@@ -154,7 +154,7 @@ func (b *Buffer) PushAt(pkt *rtp.Packet, receivedAt time.Time) {
 		return
 	}
 
-	b.popReady()
+	b.popReady(func() bool { return false })
 }
 
 func (b *Buffer) Size() int {
@@ -302,15 +302,19 @@ func (b *Buffer) contains(sn uint16) bool {
 	return false
 }
 
-// popReady pushes all ready samples to the out channel
-func (b *Buffer) popReady() {
+// popReady pushes all ready samples to the out channel, until the stop function returns true
+func (b *Buffer) popReady(stop func() bool) {
+	if stop() {
+		return
+	}
 	expiry := time.Now().Add(-b.latency)
 
 	b.dropIncompleteExpired(expiry)
 
 	loss := false
 	for b.head != nil &&
-		b.head.isComplete() {
+		b.head.isComplete() &&
+		!stop() {
 
 		if b.head.extPacket.SequenceNumber == b.prevSN+1 || b.head.discont || !b.initialized {
 			// normal
@@ -327,6 +331,11 @@ func (b *Buffer) popReady() {
 		}
 	}
 
+	if stop() {
+		// closed while the samples were handled
+		return
+	}
+
 	if loss && b.onPacketLoss != nil {
 		b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
 	}
-- 
2.43.0


From 6f054841d6291e3dab6dd0e6343feb33af4c40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:14 +0000
Subject: [PATCH 43/44] fix: SDP crypto attribute with session parameters
 rejects the whole description

---
 sdp/offer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index daed653..4d3a412 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -468,6 +468,16 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	if !ok {
 		return nil, nil // ignore
 	}
+	skey, params, _ := strings.Cut(skey, " ")
+	for _, p := range strings.Fields(params) {
+		// See RFC4568, section 6.3. Other parameters are mandatory, so the attribute can't be used if we don't support them.
+		if !strings.HasPrefix(p, "-") && !strings.HasPrefix(p, "WSH=") {
+			return nil, nil // ignore
+		}
+	}
+	if strings.Contains(skey, ";") {
+		return nil, nil // multiple keys are not supported, ignore
+	}
 
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
-- 
2.43.0


From c8b770250aa78714370bd51e4a79f0357796673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:29 +0000
Subject: [PATCH 44/44] fix: RTP timestamps go back when the last one wraps
 around to zero

---
 rtp/rtp.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 03f403d..b4e1b16 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -127,8 +127,11 @@ type Event struct {
 	Marker    bool
 }
 
+// maxTSSet marks that SeqWriter.maxTS is set, since zero is a valid timestamp after a wrap-around.
+const maxTSSet = 1 << 32
+
 type SeqWriter struct {
-	maxTS atomic.Uint32
+	maxTS atomic.Uint64 // 32 bit timestamp and maxTSSet
 	mu    sync.Mutex
 	w     Writer
 	h     Header
@@ -143,19 +146,20 @@ func (s *SeqWriter) String() string {
 func (s *SeqWriter) CurTS(ts, inc uint32) uint32 {
 	for {
 		cur := s.maxTS.Load()
-		// Timestamps wrap around, so only the difference can be compared. Zero means that it's not set yet.
-		behind := int32(cur - ts)
-		if cur != 0 && behind > int32(rtpStreamTSResetFrames*inc) {
+		set := cur&maxTSSet != 0
+		// Timestamps wrap around, so only the difference can be compared.
+		behind := int32(uint32(cur) - ts)
+		if set && behind > int32(rtpStreamTSResetFrames*inc) {
 			// Previous timestamp on the stream was too long ago.
 			// Force a timestamp reset to the one from a more recent stream.
-			return cur
+			return uint32(cur)
 		}
-		if cur != 0 && behind >= 0 {
+		if set && behind >= 0 {
 			// Timestamp is withing allowed range.
 			return ts
 		}
 		// Adjust the max timestamp, make sure other stream didn't update it before us.
-		if s.maxTS.CompareAndSwap(cur, ts) {
+		if s.maxTS.CompareAndSwap(cur, uint64(ts)|maxTSSet) {
 			return ts
 		}
 	}
-- 
2.43.0

