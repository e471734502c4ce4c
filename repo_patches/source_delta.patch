From 197f06bcfec6b6738b9a0d0e3295899416f4d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 01/28] fix: mixer goroutine must not block on the output
 channel after Stop

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..b7a82d9 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch(): // the writer may be gone already
+			}
 		}
 	}
 }
-- 
2.43.0


From fc84b1fc4973756355387cd823fc6f4debcc778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 02/28] fix: jitter buffer must not accept a duplicate of a
 packet it still holds

---
 jitter/buffer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..f9b49cb 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,8 +201,8 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
-		// packet expired
+	if (b.initialized && before(pkt.SequenceNumber, b.prevSN)) || b.contains(pkt.SequenceNumber) {
+		// packet expired, or a duplicate of a packet still in the buffer
 		if !pkt.Padding {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
@@ -280,6 +280,16 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// contains checks if a packet with this sequence number is in the buffer
+func (b *Buffer) contains(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From dae90aed69ada3f5cb4727116b27920b103603c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 03/28] fix: jitter buffer packets taken from the pool must not
 keep an old discontinuity mark

---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From bb78dae937dcbbdcaa6b84f8e89d2859e80e6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 04/28] fix: soxr resampler must consume its whole input and
 flush all of it on close

---
 resample_soxr.go | 53 +++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..9c38ab9 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -158,11 +158,12 @@ func (w *resampleWriter) WriteSample(data PCM16Sample) error {
 }
 
 type soxrResampler struct {
-	ptr     C.soxr_t
-	srcRate int
-	dstRate int
-	maxIn   int
-	done    *atomic.Bool
+	ptr      C.soxr_t
+	srcRate  int
+	dstRate  int
+	totalIn  int // samples consumed
+	totalOut int // samples produced
+	done     *atomic.Bool
 }
 
 func soxrErr(e C.soxr_error_t) error {
@@ -221,25 +222,27 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 	if r.ptr == nil || r.done.Load() {
 		return out, 0, errors.New("resampler is closed")
 	}
-	r.maxIn = max(r.maxIn, len(in))
-	dstN := (len(in) * r.dstRate) / r.srcRate
-	if dstN == 0 {
-		dstN = max(
-			(r.maxIn*r.dstRate)/r.srcRate,
-			cap(out)-len(out),
-			1024,
-		)
-	}
-	// Make sure output has space for new samples. Length is still unchanged.
-	out = slices.Grow(out, dstN)
-	// Slice for the unused capacity, which we will write into.
-	dst := out[len(out) : len(out)+dstN]
+	flush := len(in) == 0
+	r.totalIn += len(in)
 	total := 0
-	// Always call at least once (for flush to work), thus not considering len(in) here.
-	for len(dst) > 0 {
+	for {
+		var dstN int
+		if flush {
+			// Flush what the whole input is worth, except the part that was already produced.
+			dstN = (r.totalIn*r.dstRate)/r.srcRate - r.totalOut
+			if dstN <= 0 {
+				break
+			}
+		} else {
+			dstN = max(1, (len(in)*r.dstRate)/r.srcRate)
+		}
+		// Make sure output has space for new samples. Length is still unchanged.
+		out = slices.Grow(out, dstN)
+		// Slice for the unused capacity, which we will write into.
+		dst := out[len(out) : len(out)+dstN]
 		var read, done C.size_t
 		var e C.soxr_error_t
-		if len(in) != 0 {
+		if !flush {
 			e = C.soxr_process(r.ptr, C.soxr_in_t(unsafe.Pointer(&in[0])), C.size_t(len(in)), &read, C.soxr_out_t(unsafe.Pointer(&dst[0])), C.size_t(len(dst)), &done)
 		} else {
 			// Flush, no input.
@@ -250,14 +253,14 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 		if err != nil {
 			return out, 0, err
 		}
+		// Adjust the length to cover written data.
+		out = out[:len(out)+int(done)]
 		total += int(done)
-		dst = dst[done:]
+		r.totalOut += int(done)
 		in = in[read:]
-		if len(in) == 0 {
+		if (!flush && len(in) == 0) || (read == 0 && done == 0) {
 			break
 		}
 	}
-	// Finally adjust the length to cover written data.
-	out = out[:len(out)+total]
 	return out, total, nil
 }
-- 
2.43.0


From f74202cfa4e7d6c680a887a761091af88560ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 05/28] fix: copy RTP header extensions out of the session
 receive buffer

The header handed to a reader kept pointing to the session buffer that
the next packet is received into, so its extensions changed later.
---
 rtp/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..673aedd 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -168,6 +168,7 @@ type readStream struct {
 }
 
 func (r *readStream) write(p *rtp.Packet) {
+	p.Header = p.Header.Clone() // extensions point to the receive buffer
 	if enableZeroCopy {
 		r.mu.Lock()
 		h, payload := r.hdr, r.payload
-- 
2.43.0


From 95abaaa098adb8b29360a46b39911c72c1c718ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 06/28] fix: RTP session must not lose, mix up or block on
 packets handed to a waiting reader

A reader registered for zero copy could take an older packet from the
queue while the receiver was already filling its buffers: the packet was
overwritten, the receiver blocked until the next read (or for ever, with
Close blocked behind it), and that read returned a stale length.
---
 rtp/session.go | 76 ++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 673aedd..d0eea3c 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -163,27 +163,22 @@ type readStream struct {
 	recv    chan *rtp.Packet
 	copied  chan int
 	mu      sync.Mutex
+	direct  bool // a reader waits for zero copy, or has not taken the result yet
 	hdr     *rtp.Header
 	payload []byte
 }
 
 func (r *readStream) write(p *rtp.Packet) {
 	p.Header = p.Header.Clone() // extensions point to the receive buffer
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if h := r.hdr; h != nil {
+		// zero copy
+		*h = p.Header
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n // there's only one direct reader, so it never blocks
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -193,16 +188,22 @@ func (r *readStream) write(p *rtp.Packet) {
 }
 
 func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
-	direct := false
-	if enableZeroCopy {
-		r.mu.Lock()
-		if r.hdr == nil {
-			r.hdr = h
-			r.payload = payload
-			direct = true
-		}
+	r.mu.Lock()
+	// Packets that are already received go first.
+	select {
+	case p := <-r.recv:
 		r.mu.Unlock()
+		*h = p.Header
+		n := copy(payload, p.Payload)
+		return n, nil
+	default:
+	}
+	direct := enableZeroCopy && !r.direct
+	if direct {
+		r.direct = true
+		r.hdr, r.payload = h, payload
 	}
+	r.mu.Unlock()
 	if !direct {
 		select {
 		case p := <-r.recv:
@@ -213,21 +214,22 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		}
 		return 0, io.EOF
 	}
-	defer func() {
-		r.mu.Lock()
-		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
-	}()
+	n, ok := 0, false
 	select {
-	case n := <-r.copied:
-		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
-		return n, nil
+	case n = <-r.copied:
+		ok = true
 	case <-r.closed:
 	}
-	return 0, io.EOF
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if !ok && r.hdr == nil {
+		// closed, but the packet was already copied
+		n, ok = <-r.copied, true
+	}
+	r.direct = false
+	r.hdr, r.payload = nil, nil
+	if !ok {
+		return 0, io.EOF
+	}
+	return n, nil
 }
-- 
2.43.0


From d5a3a22c153dd21c3a7c78ff059d0deda5b1a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 07/28] fix: jitter handler must copy packets it may keep

HandleRTP returns while the packet may still wait in the buffer, so the
payload and header extensions must not share memory with the caller, who
reads the next packet into it.
---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..a26cb67 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -63,8 +64,9 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 }
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
+	// The buffer may keep the packet for later, while the caller may reuse the memory.
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0


From 1ae7c939acecb13b161bb89c4aefec91350b24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 08/28] fix: SDP must recognize telephone-event in any case

---
 sdp/offer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..c034e9b 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -524,7 +524,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 				continue
 			}
 			name := sub[1]
-			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
+			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
 				out.DTMFType = byte(typ)
 				continue
 			}
-- 
2.43.0


From b14ebb6c1e198238988051f09da466e4ada0acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 09/28] fix: SDP payload types above 127 must not be truncated

---
 sdp/offer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index c034e9b..1a675ff 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -519,7 +519,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := strconv.ParseUint(sub[0], 10, 7)
 			if err != nil {
 				continue
 			}
@@ -544,7 +544,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := strconv.ParseUint(f, 10, 7)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From cdaa7f5b8622e077bbf770a6ffd9c016b13e44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 10/28] fix: SDP crypto key of a wrong length must be an error

---
 sdp/offer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 1a675ff..d212388 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,13 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		saltLen, err := sp.SaltLen()
+		if err != nil {
+			return nil, err
+		}
+		if len(keys) != keyLen+saltLen {
+			return nil, fmt.Errorf("invalid key length for %s: %d", prof, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 28d245ed6c354ce9f939367d89eec3d686cb7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 11/28] fix: SDP must accept MKIs of 8 bytes

---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index d212388..55cd1c0 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From c0342916553b5c5320bce1bbbd2d6e83ec0a9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 12/28] fix: SDP must accept an MKI without a lifetime

---
 sdp/offer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 55cd1c0..79f26ca 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -474,6 +474,11 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		}
 	}
 
+	// The lifetime is optional, the MKI may follow the key directly
+	if len(parts) == 2 && strings.Contains(parts[1], ":") {
+		parts = []string{parts[0], "", parts[1]}
+	}
+
 	// Parse optional lifetime parameter (if present)
 	lifetime := uint64(0)
 	if len(parts) > 1 && parts[1] != "" {
-- 
2.43.0


From 9aa94673371051cff566bc9a5f291f0b83793460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 13/28] fix: SDP answer must list the crypto profile it
 accepted

---
 sdp/offer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 79f26ca..7064d84 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -276,6 +276,11 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 		return nil, nil, ErrNoCommonCrypto
 	}
 
+	var profiles []srtp.Profile
+	if sprof != nil {
+		profiles = []srtp.Profile{*sprof}
+	}
+
 	mediaDesc := AnswerMedia(rtpListenerPort, audio, sprof)
 	answer := sdp.SessionDescription{
 		Version: 0,
@@ -311,7 +316,8 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 				Codecs: []CodecInfo{
 					{Type: audio.Type, Codec: audio.Codec},
 				},
-				DTMFType: audio.DTMFType,
+				DTMFType:       audio.DTMFType,
+				CryptoProfiles: profiles,
 			},
 		}, &MediaConfig{
 			Local:  src,
-- 
2.43.0


From 01efda4394357b1ffafa6171fb0b5425ffc90321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 14/28] fix: SDP connection line without an address must be an
 error

---
 sdp/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..f199b48 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -45,7 +45,9 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 	}
 	var addr string
 	if ci != nil && ci.NetworkType == "IN" {
-		addr = ci.Address.Address
+		if ci.Address != nil {
+			addr = ci.Address.Address
+		}
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
 	}
-- 
2.43.0


From f2ee069a3a8ef0288bb6e43542ca5dbea3468fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 15/28] fix: DTMF sender must accept a nil event stream

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From b81be8cf98e3857ac083718a40ede3fec85f14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 16/28] fix: codec lookup by payload type must not panic for
 255

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From 0f66d13b54c991986c5f119639ef9c58366a251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 17/28] fix: stereo to mono conversion must not overflow

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From a4989ee20dd859acf2b780ccefe11da5e1043c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 18/28] fix: listening on a port range with a config must work
 for IPv6

---
 rtp/listen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..fb617b7 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -73,7 +73,7 @@ func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.L
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
 	ipStr := ip.String()
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7f6b8014fac3fdcef86ef95a39ae1698df4a4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 19/28] fix: WebM time stamps must not drift with fractional
 frame durations

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From 47b202933df8416f063faa43f3a49678efdebdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 20/28] fix: WebM writer must report errors of the file instead
 of crashing

---
 webm/writer.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index 32835ee..70878fe 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math/rand"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/at-wat/ebml-go/webm"
@@ -31,7 +32,8 @@ func NewPCM16Writer(w io.WriteCloser, sampleRate int, channels int, sampleDur ti
 }
 
 func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRate int, sampleDur time.Duration) media.WriteCloser[T] {
-	ws, err := webm.NewSimpleBlockWriter(w, []webm.TrackEntry{
+	f := &file{w: w}
+	ws, err := webm.NewSimpleBlockWriter(f, []webm.TrackEntry{
 		{
 			Name:            "Audio",
 			TrackNumber:     1,
@@ -48,11 +50,48 @@ func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRa
 	if err != nil {
 		panic(err)
 	}
-	return &writer[T]{codec: codec, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+	return &writer[T]{codec: codec, f: f, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+}
+
+// file remembers the first error of the underlying writer and discards everything after it.
+// The errors are kept from the block writer, because it writes in the background and panics on them.
+type file struct {
+	w   io.WriteCloser
+	mu  sync.Mutex
+	err error
+}
+
+func (f *file) Err() error {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	return f.err
+}
+
+func (f *file) Write(p []byte) (int, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if f.err == nil {
+		n, err := f.w.Write(p)
+		if err == nil && n < len(p) {
+			err = io.ErrShortWrite
+		}
+		f.err = err
+	}
+	return len(p), nil
+}
+
+func (f *file) Close() error {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if err := f.w.Close(); f.err == nil {
+		f.err = err
+	}
+	return nil
 }
 
 type writer[T media.Frame] struct {
 	codec      string
+	f          *file
 	ws         webm.BlockWriteCloser
 	channels   int
 	sampleRate int
@@ -70,6 +109,9 @@ func (w *writer[T]) SampleRate() int {
 }
 
 func (w *writer[T]) WriteSample(sample T) error {
+	if err := w.f.Err(); err != nil {
+		return err
+	}
 	if sz := sample.Size(); cap(w.buf) < sz {
 		w.buf = make([]byte, sz)
 	} else {
@@ -85,5 +127,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 }
 
 func (w *writer[T]) Close() error {
-	return w.ws.Close()
+	if err := w.ws.Close(); err != nil {
+		return err
+	}
+	return w.f.Err()
 }
-- 
2.43.0


From 00cffe84f1ef038f5979c225048d17857aa81c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 21/28] fix: SRTP packets must not share memory with the read
 buffer nor need room for their header in it

---
 srtp/srtp.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..d77603c 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -18,6 +18,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"net"
+	"sync"
 
 	prtp "github.com/pion/rtp"
 	"github.com/pion/srtp/v3"
@@ -156,9 +157,20 @@ type readStream struct {
 	r *srtp.ReadStreamSRTP
 }
 
+// maxPacketSize is the size of the largest packet that the underlying session receives.
+const maxPacketSize = 8192
+
+var packetPool = sync.Pool{
+	New: func() any {
+		return new([maxPacketSize]byte)
+	},
+}
+
 func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
-	buf := payload
-	n, err := r.r.Read(buf)
+	// The packet needs more space than its payload, and its header refers to the buffer.
+	buf := packetPool.Get().(*[maxPacketSize]byte)
+	defer packetPool.Put(buf)
+	n, err := r.r.Read(buf[:])
 	if err != nil {
 		return 0, err
 	}
@@ -166,7 +178,7 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	*h = p.Header.Clone()
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From f8afa419e11f3f5c9fa44d8ee6a12ace7de3efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 22/28] fix: closing an SRTP session must end pending reads and
 not wait for streams to be accepted

---
 srtp/srtp.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index d77603c..98b17cd 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -119,6 +119,10 @@ func NewSession(log logger.Logger, conn net.Conn, conf *Config) (rtp.Session, er
 type session struct {
 	log logger.Logger
 	s   *srtp.SessionSRTP
+
+	mu      sync.Mutex
+	closed  bool
+	streams []*srtp.ReadStreamSRTP
 }
 
 func (s *session) OpenWriteStream() (rtp.WriteStream, error) {
@@ -134,11 +138,35 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		_ = r.Close()
+	} else {
+		s.streams = append(s.streams, r)
+	}
 	return readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
-	return s.s.Close()
+	// The session may be waiting for a stream to be accepted.
+	go func() {
+		for {
+			if _, _, err := s.AcceptStream(); err != nil {
+				return
+			}
+		}
+	}()
+	err := s.s.Close()
+	// It doesn't end pending reads.
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.closed = true
+	for _, r := range s.streams {
+		_ = r.Close()
+	}
+	s.streams = nil
+	return err
 }
 
 type writeStream struct {
-- 
2.43.0


From 437c1152300dee0bff2fc22622bb9dfc3e420b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 23/28] fix: Mux.String reads the handlers without the lock

---
 rtp/mux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 8b4e46381faa53e580d836343857c4ad821e7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 24/28] fix: Mixer.String reads the inputs without the lock

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index b7a82d9..185344f 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -346,7 +346,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	n := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", n, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
-- 
2.43.0


From cb1d5326dd1d5f00d3a67a9ebdf271e5ad560f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 25/28] fix: G.722 encoder crashed on a frame with an odd
 number of samples

---
 g722/g722.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/g722/g722.go b/g722/g722.go
index 0030fc7..ddb1509 100644
--- a/g722/g722.go
+++ b/g722/g722.go
@@ -156,6 +156,10 @@ func (e *Encoder) WriteSample(in media.PCM16Sample) error {
 	if cap(e.buf) < sz {
 		e.buf = make(Sample, sz)
 	}
+	if e.f&g722.FlagSampleRate8000 == 0 && len(in)%2 != 0 {
+		// Samples are encoded in pairs. Complete the last one, without writing to the caller's memory.
+		in = append(in[:len(in):len(in)], in[len(in)-1])
+	}
 	n := e.e.Encode(e.buf, in)
 	return e.w.WriteSample(e.buf[:n])
 }
-- 
2.43.0


From 2f348dfadaf082f72592c5b277a212ebda98050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 26/28] fix: frames of stereo recordings were half as long as
 those of mono ones

---
 res/embed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/res/embed.go b/res/embed.go
index 7701362..2d2b03d 100644
--- a/res/embed.go
+++ b/res/embed.go
@@ -37,7 +37,7 @@ var WrongPinOgg []byte
 const SampleRate = 48000
 
 func ReadOggAudioFile(data []byte, sampleRate int, channels int) []media.PCM16Sample {
-	perFrame := sampleRate / media.DefFramesPerSec
+	perFrame := sampleRate / media.DefFramesPerSec * channels
 	r, err := oggvorbis.NewReader(bytes.NewReader(data))
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 6f3d8fbe7e701ed56515de5244be55d721567c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 27/28] fix: decode Opus packets of up to 120 ms

The decoder's buffer held a single 20 ms frame, so that packets of 40, 60, 80,
100 or 120 ms, all valid by RFC 6716, were refused with 'buffer too small'.
---
 opus/opus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opus/opus.go b/opus/opus.go
index b0dfb0a..24d57e4 100644
--- a/opus/opus.go
+++ b/opus/opus.go
@@ -77,6 +77,9 @@ func Encode(w Writer, channels int, logger logger.Logger) (media.PCM16Writer, er
 	}, nil
 }
 
+// maxPacketMs is the longest duration of a single Opus packet (RFC 6716, Section 2.1.4).
+const maxPacketMs = 120
+
 type decoder struct {
 	w      media.PCM16Writer
 	dec    *opus.Decoder
@@ -150,7 +153,7 @@ func (d *decoder) resetForSample(in Sample) (int, error) {
 		}
 		d.dec = dec
 
-		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*channels)
+		d.buf = make([]int16, d.w.SampleRate()*maxPacketMs/1000*channels)
 		d.lastChannels = channels
 	}
 
-- 
2.43.0


From 4a3878079d6b93aa9b22fdd5f8dae76bf703cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 28/28] fix: state IPv6 addresses as IP6 in offers and answers

The origin and connection lines said 'IN IP4' whatever the address, which
a peer following RFC 4566 has to reject for an IPv6 address.
---
 sdp/offer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 7064d84..8a54af6 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -212,6 +212,14 @@ type Offer Description
 
 type Answer Description
 
+// addressType returns the SDP address type of an IP address.
+func addressType(ip netip.Addr) string {
+	if ip.Is6() {
+		return "IP6"
+	}
+	return "IP4"
+}
+
 func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*Offer, error) {
 	sessId := rand.Uint64() // TODO: do we need to track these?
 
@@ -226,13 +234,13 @@ func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*
 			SessionID:      sessId,
 			SessionVersion: sessId,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
@@ -289,13 +297,13 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 			SessionID:      d.SDP.Origin.SessionID,
 			SessionVersion: d.SDP.Origin.SessionID + 2,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
-- 
2.43.0

