From 4b917fff27225f6c35503af87ea6ee65028587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 01/43] fix: do not take sequence number 0 for an empty jitter
 buffer

A stream whose first packet has sequence number 0 lost it: the zero start
position was read as "no packet yet" and moved to the second packet.
---
 internal/webrtc/utils/jitter_buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..8b1c237 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -8,6 +8,7 @@ import (
 )
 
 type JitterBuffer struct {
+	started              bool
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -49,9 +50,10 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
+		s.started = true
 		s.nextStart = seq
 	}
 
-- 
2.43.0


From a652661b1416038e9d7b22be504f236ca8bb887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 02/43] fix: ignore packets older than the receive log

Their bit is shared with a newer packet, which was then taken for received
and never requested again.
---
 internal/webrtc/utils/receive_log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..bc54882 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -65,6 +65,10 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// older than the log: its bit belongs to a newer packet
+			return
+		}
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
-- 
2.43.0


From c2b1a4c48f446250d601d21b3d52cc3e33cc3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 03/43] fix: do not crash on VP8 packets that are cut short

---
 internal/webrtc/recorder/webm.go | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..698feee 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -2,6 +2,7 @@ package recorder
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -24,6 +25,34 @@ const (
 	secondToNanoseconds = 1000000000
 )
 
+var errShortVP8Packet = errors.New("VP8 packet is too short")
+
+// vp8Packet is a codecs.VP8Packet that rejects packets whose descriptor is cut
+// short (codecs.VP8Packet reads past the end of some of those) and packets
+// without any data after the descriptor.
+type vp8Packet struct {
+	codecs.VP8Packet
+}
+
+func (p *vp8Packet) Unmarshal(payload []byte) ([]byte, error) {
+	// Extended descriptor ending in the middle of a 16-bit PictureID
+	if len(payload) == 3 && payload[0]&payload[1]&payload[2]&0x80 != 0 {
+		return nil, errShortVP8Packet
+	}
+
+	data, err := p.VP8Packet.Unmarshal(payload)
+
+	if err != nil {
+		return nil, err
+	}
+
+	if len(data) == 0 {
+		return nil, errShortVP8Packet
+	}
+
+	return data, nil
+}
+
 type VP8PartitionTracker struct {
 	partitionsStarted    int
 	partitionsComplete   int
@@ -115,7 +144,7 @@ func NewWebmRecorder(
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
 		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
+		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Packet{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -451,7 +480,7 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 		return false
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet := vp8Packet{}
 
 	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
 		return false
@@ -465,13 +494,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet := vp8Packet{}
 
 	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S != 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -527,7 +556,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet := vp8Packet{}
 
 	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
 		log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 62faba69ca9c052f5ccbbd07e2b856096f8df5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 04/43] fix: discard the frame in progress on any sequence
 discontinuity

---
 internal/webrtc/recorder/webm.go | 41 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 698feee..0860da5 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -116,6 +116,8 @@ type WebmRecorder struct {
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
+	// expectedNextSeq is only meaningful once a packet was received
+	hasExpectedSeq bool
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -519,11 +521,21 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if len(p.Payload) == 0 {
+		// Padding only: nothing to record, but it does take a sequence number
+		if r.hasExpectedSeq && p.SequenceNumber == r.expectedNextSeq {
+			r.expectedNextSeq++
+			r.lastProcessedSeq = p.SequenceNumber
+		}
+
+		return
+	}
+
+	if r.hasExpectedSeq && p.SequenceNumber != r.expectedNextSeq {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
@@ -534,26 +546,29 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
 					p.SequenceNumber, r.lastSkippedSeq)
+		}
 
-			// Force treating this as a new frame start for safety
-			if r.currentFrame != nil {
-				var logMsgPkts = 0
-
-				if r.currentFrameInfo != nil {
-					logMsgPkts = len(r.currentFrameInfo.packets)
-				}
+		// Packets are missing, so the frame in progress can't be completed
+		if r.currentFrame != nil {
+			var logMsgPkts = 0
 
-				log.WithField("session", r.ctx.Value("session")).
-					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
-				r.currentFrame = nil
-				r.currentFrameInfo = nil
+			if r.currentFrameInfo != nil {
+				logMsgPkts = len(r.currentFrameInfo.packets)
 			}
+
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding partial frame after sequence discontinuity: pkts=%v", logMsgPkts)
+			r.currentFrame = nil
+			r.currentFrameInfo = nil
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
 		}
 
 		r.skipSignaled = false
 	}
 
 	r.expectedNextSeq = p.SequenceNumber + 1
+	r.hasExpectedSeq = true
 	r.lastProcessedSeq = p.SequenceNumber
 
 	vp8Packet := vp8Packet{}
-- 
2.43.0


From a584bfaf9a95db1d2bb52ddfb5a9dcf896c352ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 05/43] fix: treat later VP8 partitions as part of the frame in
 progress

---
 internal/webrtc/recorder/webm.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 0860da5..efcad7d 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -583,6 +583,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 	// Lifted from LK
 	isKeyFrame := vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
+	// A frame starts with its first partition
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
 	pictureID := vp8Packet.PictureID
 
 	log.WithField("session", r.ctx.Value("session")).
@@ -590,21 +592,15 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			p.SequenceNumber, p.Timestamp, p.Marker, vp8Packet.S == 1,
 			pictureID, isKeyFrame, len(vp8Packet.Payload), vp8Packet.PID)
 
-	// I don't fully get this: when testing with some extreme network scenarios,
-	// I got packets with S=1 and PID > 0. I have not had the time to investigate
-	// further, so try and make it work but log it - prlanzarin
+	// Packets with S=1 and PID > 0 start a later partition of the frame in
+	// progress (RFC 7741#4.2)
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
-			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
+			Tracef("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
 	}
 
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -666,7 +662,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					r.currentFrameInfo = nil
 				}
 
-				if isKeyFrame && vp8Packet.S == 1 {
+				if isKeyFrame {
 					// This is a new keyframe after discontinuity - ACCEPT IT
 					log.WithField("session", r.ctx.Value("session")).
 						Debugf("Accepting keyframe despite PictureID discontinuity: new picID=%d, seq=%d",
@@ -739,7 +735,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
-- 
2.43.0


From 0a13b71818dbc2dacac9e68a0820885f4b86a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 06/43] fix: flag key frames of several packets as key frames

---
 internal/webrtc/recorder/webm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index efcad7d..0848047 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -846,6 +846,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 	}
 
+	// From here on this is about the whole frame, not only its last packet
+	if r.currentFrameInfo != nil {
+		isKeyFrame = r.currentFrameInfo.isKeyFrame
+	}
+
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
-- 
2.43.0


From 68aff7e65819615a954829b2c0d0e986041e2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 07/43] fix: detect missing frames after picture ID 0 as well

---
 internal/webrtc/recorder/webm.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 0848047..b67f475 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -66,6 +66,7 @@ type VP8FrameInfo struct {
 	packets       []uint16 // seqnums packets making up this frame
 	startTime     time.Time
 	pictureID     uint16
+	hasPictureID  bool
 	isKeyFrame    bool
 	timestamp     uint32
 	size          int
@@ -112,6 +113,7 @@ type WebmRecorder struct {
 
 	// Last PictureID received in any VP8 packet, not necessarily written
 	lastPictureID    uint16
+	hasLastPictureID bool
 	lastSkippedSeq   uint16
 	skipSignaled     bool
 	lastProcessedSeq uint16
@@ -631,6 +633,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrameInfo = &VP8FrameInfo{
 			startSequence: p.SequenceNumber,
 			pictureID:     pictureID,
+			hasPictureID:  vp8Packet.I == 1,
 			isKeyFrame:    isKeyFrame,
 			timestamp:     p.Timestamp,
 			startTime:     r.frameStartTime,
@@ -638,7 +641,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		// Check for PictureID discontinuity
-		if r.lastPictureID > 0 {
+		if r.hasLastPictureID && vp8Packet.I == 1 {
 			// Picture ID should ++ and wrap around at 15 bits
 			expectedID := (r.lastPictureID + 1) & 0x7FFF
 			pidDiff := (pictureID - r.lastPictureID) & 0x7FFF
@@ -678,6 +681,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					}
 				} else {
 					// For non-keyframes with discontinuity, reject and request keyframe
+					r.currentFrameInfo = nil
 					r.hasKeyFrame = false
 					r.RequestKeyframe()
 					return
@@ -798,6 +802,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.currentFrameInfo.endSequence = p.SequenceNumber
 			r.currentFrameInfo.size = len(r.currentFrame)
 			r.lastPictureID = r.currentFrameInfo.pictureID
+			r.hasLastPictureID = r.currentFrameInfo.hasPictureID
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame complete: seq=[%d-%d], ts=%d, packets=%d, size=%d, elapsed=%v, keyframe=%v",
@@ -837,7 +842,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 	if r.currentFrameInfo != nil {
 		// PictureID continuity
-		if r.lastPictureID > 0 &&
+		if r.hasLastPictureID && vp8Packet.I == 1 &&
 			pictureID != ((r.lastPictureID+1)&0x7FFF) &&
 			r.currentFrameInfo.pictureID != pictureID {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From acf3dcdb2fc1c4ebc549d0bfeabf914bdb979646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 08/43] fix: keep requesting a key frame while waiting for one

---
 internal/webrtc/recorder/webm.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index b67f475..eae6ec0 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -674,11 +674,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					// Continue processing this keyframe
 					r.hasKeyFrame = true
 					r.lastKeyFrameTime = time.Now()
-
-					// Still update request state to avoid unnecessary PLIs
-					if r.lastKeyframeRequestTime.IsZero() {
-						r.lastKeyframeRequestTime = time.Now()
-					}
 				} else {
 					// For non-keyframes with discontinuity, reject and request keyframe
 					r.currentFrameInfo = nil
@@ -732,9 +727,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	case !r.hasKeyFrame && !isKeyFrame:
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Waiting for keyframe, dropping non-keyframe: seq=%d", p.SequenceNumber)
-		if !r.seenKeyFrame {
-			r.RequestKeyframe()
-		}
+		r.RequestKeyframe()
 
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
-- 
2.43.0


From 1d09e2f77dd92e039615bd1b561e7328f6def178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 09/43] fix: write the first video frame at time 0

---
 internal/webrtc/recorder/webm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index eae6ec0..9cd6a59 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -747,7 +747,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 				Infof("First keyframe received: seq=%d, timestamp=%d, picID=%d",
 					p.SequenceNumber, p.Timestamp, pictureID)
 			r.seenKeyFrame = true
-			r.packetTimestamp = p.Timestamp
 		}
 
 		r.lastKeyFrameTime = time.Now()
@@ -857,6 +856,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
+	// The recording starts with the first frame written
+	if !r.hasValidVideo {
+		r.packetTimestamp = p.Timestamp
+	}
+
 	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
 	newVideoTs := r.videoTimestamp + duration
 	newPts := int64(newVideoTs / time.Millisecond)
-- 
2.43.0


From 22abecbc7af8d0902cafc7f30c0b8d3419a88337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 10/43] fix: do not truncate the recording again until audio
 arrives

---
 internal/webrtc/recorder/webm.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9cd6a59..8013da8 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -351,9 +351,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			isKf = ts == r.currKeyFrame.Timestamp
 		}
 
-		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+		if isKf && r.needsWriter() {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
@@ -872,11 +870,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	// Initialize writer if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
-
+	// The picture dimensions are those of the key frame it starts with.
+	if isKeyFrame && r.needsWriter() {
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
 		height := int((raw >> 16) & 0x3FFF)
@@ -986,6 +981,11 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 	}
 }
 
+// needsWriter tells whether a track that is present can't be written yet
+func (r *WebmRecorder) needsWriter() bool {
+	return (r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 60e87356cc915221579e447b232ffffdc5e9bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 11/43] fix: do not crash when the recording file cannot be
 opened, written or closed

---
 internal/webrtc/recorder/webm.go | 79 ++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 8013da8..0e1aa9c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -272,16 +272,8 @@ func (r *WebmRecorder) close() time.Duration {
 	}
 	r.closed = true
 
-	if r.audioWriter != nil {
-		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
-	if r.videoWriter != nil {
-		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
+	r.closeWriters()
+
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
 			Infof("webm writer closed: %s", r.file)
@@ -305,6 +297,27 @@ func (r *WebmRecorder) close() time.Duration {
 	return r.videoTimestamp
 }
 
+// Locked
+func (r *WebmRecorder) closeWriters() {
+	if r.audioWriter != nil {
+		if err := r.audioWriter.Close(); err != nil {
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
+		}
+
+		r.audioWriter = nil
+	}
+
+	if r.videoWriter != nil {
+		if err := r.videoWriter.Close(); err != nil {
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
+		}
+
+		r.videoWriter = nil
+	}
+}
+
 func (r *WebmRecorder) Close() time.Duration {
 	r.m.Lock()
 	ts := r.close()
@@ -364,7 +377,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -406,7 +420,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		if r.audioWriter != nil {
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -937,6 +952,25 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.currentFrameInfo = nil
 }
 
+// recordingFile is the file the muxer writes to. Write errors are logged, but
+// not reported: the muxer ends its goroutine (and by default the whole process)
+// on those, with the track writers waiting for it forever.
+type recordingFile struct {
+	*os.File
+	ctx    context.Context
+	failed bool
+}
+
+func (f *recordingFile) Write(b []byte) (int, error) {
+	if _, err := f.File.Write(b); err != nil && !f.failed {
+		f.failed = true
+		log.WithField("session", f.ctx.Value("session")).
+			Errorf("Error writing recording file: %v", err)
+	}
+
+	return len(b), nil
+}
+
 func (r *WebmRecorder) startIVFWriter() error {
 	if r.ivfWriter == nil {
 		ivf, err := NewIVFWriter(r.file)
@@ -993,10 +1027,15 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	// A track that shows up late starts the recording over
+	r.closeWriters()
+
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot open recording file: %v", err)
+		return
 	}
 
 	info := &webm.Info{
@@ -1051,20 +1090,24 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot create block sorter: %v", err)
+		w.Close()
+		return
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
-		w,
+		&recordingFile{File: w, ctx: r.ctx},
 		tracks,
 		mkvcore.WithSegmentInfo(info),
 		mkvcore.WithBlockInterceptor(interceptor),
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot create webm writers: %v", err)
+		w.Close()
+		return
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 1f33e7ffc5c62c0a9b9ba3408532163b3691d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 12/43] fix: take dimensions and IVF copy from the frame itself
 with the builtin sampler

---
 internal/webrtc/recorder/webm.go | 49 ++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 0e1aa9c..86332cb 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -365,7 +365,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		}
 
 		if isKf && r.needsWriter() {
-			width, height := GetVP8KFDimension(packet)
+			width, height := vp8FrameDimensions(sample.Data)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -374,7 +374,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-			r.videoTimestamp += sample.Duration
+			// The recording starts with the first frame written
+			if r.hasValidVideo {
+				r.videoTimestamp += sample.Duration
+			}
+
+			r.hasValidVideo = true
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
@@ -383,10 +388,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			if r.writeIVFCopy {
+				r.pushToIVFWriter(sample.Data, ts, isKf)
+			}
 		}
 	}
 }
@@ -528,6 +533,17 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 	return width, height
 }
 
+// vp8FrameDimensions returns the dimensions of a key frame (RFC 6386#9.1)
+func vp8FrameDimensions(frame []byte) (int, int) {
+	if len(frame) < 10 {
+		return 0, 0
+	}
+
+	raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
+
+	return int(raw & 0x3FFF), int((raw >> 16) & 0x3FFF)
+}
+
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if !r.hasVideo {
 		return
@@ -942,7 +958,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 
 		r.hasValidVideo = true
@@ -988,25 +1004,14 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
-			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
-			width := uint16(raw & 0x3FFF)
-			height := uint16((raw >> 16) & 0x3FFF)
-
-			r.ivfWriter.UpdateDimensions(width, height)
+			width, height := vp8FrameDimensions(frame)
+			r.ivfWriter.UpdateDimensions(uint16(width), uint16(height))
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 91f97c876b822921ed137360e4280cd204771525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 13/43] fix: do not let frames overwrite the IVF header

---
 internal/webrtc/recorder/ivfwriter.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..5b47ac2 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -88,13 +88,9 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 	// tb
 	binary.LittleEndian.PutUint32(header[20:24], 1)
 
+	// Leave the file position after the header, that's where frames go
 	_, err := writer.file.Write(header)
 
-	if err != nil {
-		return err
-	}
-
-	_, err = writer.file.Seek(0, io.SeekStart)
 	return err
 }
 
-- 
2.43.0


From 21bb5e7daace8d521d66a7b689bbc6fee036598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 14/43] fix: do not create /dev/null.ivf

---
 internal/webrtc/recorder/ivfwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index 5b47ac2..63380e7 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -27,7 +27,7 @@ type RTPPacketWithMeta struct {
 
 // VP8 only for now
 func NewIVFWriter(basePath string) (*IVFWriter, error) {
-	if basePath == "" {
+	if basePath == "" || basePath == os.DevNull {
 		return &IVFWriter{enabled: false}, nil
 	}
 
-- 
2.43.0


From 154e8dc6ca52f0f40d652e67fc6e39d8b7793afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/43] fix: create the IVF copy with the configured file mode

---
 internal/webrtc/recorder/ivfwriter.go | 4 ++--
 internal/webrtc/recorder/webm.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index 63380e7..154610c 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -26,7 +26,7 @@ type RTPPacketWithMeta struct {
 }
 
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" || basePath == os.DevNull {
 		return &IVFWriter{enabled: false}, nil
 	}
@@ -34,7 +34,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ext := filepath.Ext(basePath)
 	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, fileMode)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 86332cb..6055d0e 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -989,7 +989,7 @@ func (f *recordingFile) Write(b []byte) (int, error) {
 
 func (r *WebmRecorder) startIVFWriter() error {
 	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
-- 
2.43.0


From 730df67c933180dd493bd3f89db3637c89d8f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 16/43] fix: do not crash when a gap exceeds the sample buffer

---
 internal/webrtc/recorder/samplebuffer.go | 86 ++++++++++++++++++++++++
 internal/webrtc/recorder/webm.go         |  9 ++-
 2 files changed, 90 insertions(+), 5 deletions(-)
 create mode 100644 internal/webrtc/recorder/samplebuffer.go

diff --git a/internal/webrtc/recorder/samplebuffer.go b/internal/webrtc/recorder/samplebuffer.go
new file mode 100644
index 0000000..6417699
--- /dev/null
+++ b/internal/webrtc/recorder/samplebuffer.go
@@ -0,0 +1,86 @@
+package recorder
+
+import (
+	"time"
+
+	"github.com/jech/samplebuilder"
+	"github.com/pion/rtp"
+	"github.com/pion/webrtc/v3/pkg/media"
+)
+
+// sampleBuffer is a samplebuilder.SampleBuilder that copes with any gap in the
+// sequence numbers.
+//
+// When a packet is so far ahead that a samplebuilder has to drop everything it
+// holds to make room for it, that leaves the samplebuilder in an invalid state
+// and the next Pop panics. To avoid that, packets which do not fit go to a new
+// samplebuilder.
+type sampleBuffer struct {
+	builder      *samplebuilder.SampleBuilder
+	maxLate      uint16
+	depacketizer rtp.Depacketizer
+	sampleRate   uint32
+
+	// Newest sequence number in the builder, if that isn't empty
+	newest uint16
+
+	// RTP timestamp of the last sample, if there was one
+	lastTimestamp    uint32
+	hasLastTimestamp bool
+}
+
+func newSampleBuffer(maxLate uint16, depacketizer rtp.Depacketizer, sampleRate uint32) *sampleBuffer {
+	// These are the limits samplebuilder applies
+	if maxLate < 2 {
+		maxLate = 2
+	}
+
+	if maxLate > 0x7FFF {
+		maxLate = 0x7FFF
+	}
+
+	return &sampleBuffer{
+		builder:      samplebuilder.New(maxLate, depacketizer, sampleRate),
+		maxLate:      maxLate,
+		depacketizer: depacketizer,
+		sampleRate:   sampleRate,
+	}
+}
+
+func (b *sampleBuffer) Push(p *rtp.Packet) {
+	length := b.builder.Len()
+	ahead := p.SequenceNumber - b.newest
+	isNewest := length == 0 || (ahead != 0 && ahead < 0x8000)
+
+	if length > 0 && isNewest && ahead > 1 && length+int(ahead) >= 2*int(b.maxLate) {
+		b.builder = samplebuilder.New(b.maxLate, b.depacketizer, b.sampleRate)
+	}
+
+	b.builder.Push(p)
+
+	if isNewest {
+		b.newest = p.SequenceNumber
+	}
+}
+
+// PopWithTimestamp returns the next complete sample, if any. Its duration is
+// the time since the previous one.
+func (b *sampleBuffer) PopWithTimestamp() (*media.Sample, uint32) {
+	sample, ts := b.builder.PopWithTimestamp()
+
+	if sample == nil {
+		return nil, 0
+	}
+
+	sample.Duration = 0
+
+	if b.hasLastTimestamp {
+		samples := ts - b.lastTimestamp
+		sample.Duration = time.Duration(float64(samples) / float64(b.sampleRate) * float64(time.Second))
+	}
+
+	b.lastTimestamp = ts
+	b.hasLastTimestamp = true
+
+	return sample, ts
+}
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 6055d0e..6f1d19d 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -11,7 +11,6 @@ import (
 	"github.com/at-wat/ebml-go/mkvcore"
 	"github.com/at-wat/ebml-go/webm"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal"
-	"github.com/jech/samplebuilder"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
 	log "github.com/sirupsen/logrus"
@@ -89,7 +88,7 @@ type WebmRecorder struct {
 	hasValidVideo bool
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
-	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
+	audioBuilder, videoBuilder     *sampleBuffer
 	audioTimestamp, videoTimestamp time.Duration
 
 	started bool
@@ -147,8 +146,8 @@ func NewWebmRecorder(
 		audioPacketQueueSize:  audioPacketQueueSize,
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
-		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Packet{}, vp8SampleRate),
+		audioBuilder:          newSampleBuffer(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
+		videoBuilder:          newSampleBuffer(videoPacketQueueSize, &vp8Packet{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -411,7 +410,7 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 	r.audioBuilder.Push(p)
 
 	for {
-		sample := r.audioBuilder.Pop()
+		sample, _ := r.audioBuilder.PopWithTimestamp()
 		if sample == nil {
 			return
 		}
-- 
2.43.0


From c112994124c013663d7faa56f4d5ff8173f90a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 17/43] fix: refuse recording files outside of the recording
 directory

---
 internal/webrtc/recorder/recorder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..16feefe 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -42,6 +43,12 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 
 	if !cfg.WriteToDevNull {
 		file = path.Clean(dir + string(os.PathSeparator) + file)
+
+		rel, err := filepath.Rel(dir, file)
+		if err != nil || rel == "." || rel == ".." || strings.HasPrefix(rel, ".."+string(os.PathSeparator)) {
+			return "", 0, fmt.Errorf("file is outside of the recording directory %s", file)
+		}
+
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
-- 
2.43.0


From f347cf26abc2fb25780b1825811eb5a30fae553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 18/43] fix: ignore messages that are not events

---
 internal/pubsub/events/events.go | 2 +-
 internal/server/http.go          | 3 +++
 internal/server/server.go        | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..4f77f20 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,7 +44,7 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..82e19cf 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -41,6 +41,9 @@ func (s *HTTPServer) Serve() {
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
+			if !event.IsValid() {
+				return
+			}
 			if e := event.StartRecordingResponse(); e != nil {
 				if e.SDP != nil {
 					*answerChannels[e.SessionId] <- *e.SDP
diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..0fb8098 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -39,7 +39,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
-- 
2.43.0


From b44adeed47b165c62f53a2f78b8d1f79812b5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 19/43] fix: let the WebRTC setters take effect

---
 internal/webrtc/webrtc.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..750d290 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,11 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From f622b2f1428f9e29c89290fbf0ec76a3ea623fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 20/43] fix: end each session exactly once, also when its start
 fails

---
 internal/server/server.go  |  58 ++++++-------
 internal/server/session.go | 161 +++++++++++++++++++++++++++++--------
 2 files changed, 153 insertions(+), 66 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 0fb8098..c553770 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
@@ -44,8 +43,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
-		_, ok := s.sessions.Load(e.SessionId)
-		if ok {
+		// A session may be ending still, but that was reported already
+		if sess, ok := s.sessions.Load(e.SessionId); ok && !sess.(*Session).Ended() {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
 			s.PublishPubSub(e.Fail(err))
@@ -80,13 +79,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			sess := NewSession(e.SessionId, s, nil, wrtc, rec)
 			s.sessions.Store(e.SessionId, sess)
 
-			if _, err := sess.StartRecording(e); err != nil {
-				log.WithField("session", ctx.Value("session")).Error(err)
-				s.PublishPubSub(e.Fail(err))
-				return
-			}
-
-			s.PublishPubSub(e.Success("", rec.GetFilePath()))
+			s.startSession(sess, e)
 
 		case "mediasoup", "":
 			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
@@ -97,25 +90,10 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
-			var sdp string
-			func() {
-				defer func() {
-					if r := recover(); r != nil {
-						err = fmt.Errorf("%v", r)
-					}
-				}()
-
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
-				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
-			}()
-
-			if err != nil {
-				log.WithField("session", ctx.Value("session")).Error(err)
-				s.PublishPubSub(e.Fail(err))
-			}
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+			s.sessions.Store(e.SessionId, sess)
+			s.startSession(sess, e)
 
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
@@ -132,9 +110,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess.(*Session).Stop()
 		}
 
 	case "getRecorderStatus":
@@ -153,6 +129,20 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) startSession(sess *Session, e *events.StartRecording) {
+	sdp, err := sess.StartRecording(e)
+
+	if err != nil {
+		log.WithField("session", e.SessionId).Error(err)
+		s.PublishPubSub(e.Fail(err))
+		return
+	}
+
+	s.PublishPubSub(e.Success(sdp, sess.recorder.GetFilePath()))
+	sess.Started()
+}
+
+// CloseSession forgets a session, unless its id is in use by another one
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..c9443d8 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"fmt"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -10,6 +12,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
 	pwebrtc "github.com/pion/webrtc/v3"
+	log "github.com/sirupsen/logrus"
 )
 
 type Session struct {
@@ -18,7 +21,16 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
-	stopped  bool
+
+	// m guards the fields below. It is also held while events are published,
+	// so that none is published after recordingStopped.
+	m       sync.Mutex
+	started bool
+	stopped bool
+	// Whether the end of the session was reported
+	reported bool
+	// What ended the session before it was started
+	endedEarly func()
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -31,31 +43,31 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 	}
 }
 
-func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
+// StartRecording sets up the recording. When that fails, nothing is left of the
+// session.
+func (s *Session) StartRecording(e *events.StartRecording) (sdp string, err error) {
 	prometheus.Sessions.Inc()
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+
+		if err != nil {
+			s.abort()
+		}
+	}()
+
 	// Only initialize WebRTC if we're using mediasoup
 	if s.webrtc != nil {
 		offer := pwebrtc.SessionDescription{}
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
-			}
-		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
+				s.end(state.String(), nil)
 			}
-			s.server.PublishPubSub(message)
 		})
+		s.webrtc.SetFlowCallback(s.onFlow)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +80,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.onFlow)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +90,105 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
+// Started is called once the start of the session was reported
+func (s *Session) Started() {
+	s.m.Lock()
+	s.started = true
+	end := s.endedEarly
+	s.m.Unlock()
+
+	if end != nil {
+		end()
+	}
+}
+
+// Stop ends the session on request
+func (s *Session) Stop() {
+	s.end("stopped", nil)
+}
+
+// Ended tells whether the end of the session was reported
+func (s *Session) Ended() bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.reported
+}
+
+func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
+	if closed {
+		s.end("closed", &timestamp)
+		return
+	}
+
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+	}
+}
+
+// end ends the session, the first time it is called: closes the recording,
+// releases the media connection and reports it, with the given timestamp or
+// else that of the recording.
+func (s *Session) end(reason string, timestamp *time.Duration) {
+	s.m.Lock()
+
+	if !s.started {
+		if s.endedEarly == nil {
+			s.endedEarly = func() { s.end(reason, timestamp) }
+		}
+	}
+
+	if !s.started || s.stopped {
+		s.m.Unlock()
+		return
+	}
+
+	s.stopped = true
+	s.m.Unlock()
+
+	ts := s.release()
+
+	if timestamp != nil {
+		ts = *timestamp
+	}
+
+	s.m.Lock()
+	s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
+	s.reported = true
+	s.m.Unlock()
+
+	s.server.CloseSession(s)
+}
+
+// abort drops a session that failed to start
+func (s *Session) abort() {
+	s.m.Lock()
+	s.stopped = true
+	s.m.Unlock()
+
+	s.release()
+	s.server.CloseSession(s)
+}
+
+// release closes the recording and the media connection
+func (s *Session) release() time.Duration {
+	prometheus.Sessions.Dec()
+	ts := s.recorder.Close()
+
+	var err error
+
+	if s.webrtc != nil {
+		err = s.webrtc.Close()
+	} else if s.livekit != nil {
+		err = s.livekit.Close()
 	}
-	return 0
+
+	if err != nil {
+		log.WithField("session", s.id).Error(err)
+	}
+
+	return ts
 }
-- 
2.43.0


From 331ebd61bf49084bd0a10cc5d698b057fb38e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 21/43] fix: refuse to record to a file of another session

---
 internal/server/server.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index c553770..6443b2e 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"os"
 	"sync"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -62,7 +63,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		switch e.Adapter {
 		case "livekit":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = s.newRecorder(ctx, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -82,7 +83,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			s.startSession(sess, e)
 
 		case "mediasoup", "":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = s.newRecorder(ctx, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -129,6 +130,39 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
+// newRecorder refuses files other sessions are recording to: those are only
+// created once media arrives.
+func (s *Server) newRecorder(ctx context.Context, fileName string) (recorder.Recorder, error) {
+	rec, err := recorder.NewRecorder(ctx, s.cfg.Recorder, fileName)
+
+	if err != nil {
+		return nil, err
+	}
+
+	file := rec.GetFilePath()
+
+	if file == os.DevNull {
+		return rec, nil
+	}
+
+	s.sessions.Range(func(_, value any) bool {
+		sess := value.(*Session)
+
+		if sess.recorder.GetFilePath() == file && !sess.Ended() {
+			err = fmt.Errorf("file is being recorded by session %s: %s", sess.id, file)
+		}
+
+		return err == nil
+	})
+
+	if err != nil {
+		rec.Close()
+		return nil, err
+	}
+
+	return rec, nil
+}
+
 func (s *Server) startSession(sess *Session, e *events.StartRecording) {
 	sdp, err := sess.StartRecording(e)
 
-- 
2.43.0


From db59d6282b56edd5cd4fd4e48359ae385572afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 22/43] fix: validate requests without an adapter as mediasoup
 requests

---
 internal/pubsub/events/events.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index 4f77f20..a297c41 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -108,7 +108,8 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
+		// Without an adapter, it's a mediasoup call
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
@@ -120,13 +121,6 @@ func (e *StartRecording) Validate() error {
 
 		return fmt.Errorf("mediasoup adapter requires SDP")
 	default:
-		// Now, if an SDP is present, we assume it's a legacy mediasoup call
-		// and we don't need to validate the adapter.
-		// TODO remove legacy SDP field later on - prlanzarin
-		if e.SDP != "" {
-			return nil
-		}
-
 		return fmt.Errorf("unsupported adapter: %s", e.Adapter)
 	}
 
-- 
2.43.0


From 696e62e4ff0b48f800985951249c67747d50f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 23/43] fix: report the position of recordings stopped at 0

---
 internal/pubsub/events/events.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index a297c41..fdc9fc3 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -284,8 +284,8 @@ type RecordingStopped struct {
 	Id           string        `json:"id,omitempty"`
 	SessionId    string        `json:"recordingSessionId,omitempty"`
 	Reason       string        `json:"reason,omitempty"`
-	TimestampUTC time.Time     `json:"timestampUTC,omitempty"`
-	TimestampHR  time.Duration `json:"timestampHR,omitempty"`
+	TimestampUTC time.Time     `json:"timestampUTC"`
+	TimestampHR  time.Duration `json:"timestampHR"`
 }
 
 func NewRecordingStopped(id, reason string, ts time.Duration) *RecordingStopped {
-- 
2.43.0


From b1533b857f77b5bd3b1ec3d95f4af15484d475ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 24/43] fix: report the audio position when audio-only
 recordings stop

---
 internal/webrtc/recorder/webm.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 6f1d19d..21e048c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -267,7 +267,7 @@ func isSequenceInRange(seq, start, end uint16) bool {
 // Locked
 func (r *WebmRecorder) close() time.Duration {
 	if r.closed {
-		return r.videoTimestamp
+		return r.position()
 	}
 	r.closed = true
 
@@ -293,6 +293,17 @@ func (r *WebmRecorder) close() time.Duration {
 		r.ivfWriter = nil
 	}
 
+	return r.position()
+}
+
+// Locked
+//
+// position is the last position written: of the video, if there is any
+func (r *WebmRecorder) position() time.Duration {
+	if !r.hasValidVideo {
+		return r.audioTimestamp
+	}
+
 	return r.videoTimestamp
 }
 
-- 
2.43.0


From 0ce56b60a0914503b18cfecc375f7db6c91ca594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 25/43] fix: tell the recorder of every skipped packet

A skip was not reported when it only became visible with a later packet,
or when the jitter buffer's window moved past missing packets.
---
 internal/webrtc/utils/jitter_buffer.go |  1 +
 internal/webrtc/webrtc.go              | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 8b1c237..d9cf4b7 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -82,6 +82,7 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Jitter buffer sli_wi: old_start=%d, new_start=%d, dropped=%d packets",
 				oldStart, s.nextStart, s.nextStart-oldStart)
+		s.lastSkippedSeq = s.nextStart - 1
 	}
 
 	s.packets[seq%s.size] = packet
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 750d290..0374023 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -397,7 +397,7 @@ func (w *WebRTC) Init(
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, skipped := jb.NextPackets()
+			packets, _ := jb.NextPackets()
 
 			if packets == nil {
 				continue
@@ -408,13 +408,11 @@ func (w *WebRTC) Init(
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
+			skippedSeq, ok := jb.GetAndClearLastSkipped()
+			if ok {
+				if rec != nil {
+					rec.NotifySkippedPacket(uint16(skippedSeq))
+					log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
 				}
 			}
 
-- 
2.43.0


From d41dc18abc7221d179f326f60ca054167023a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 26/43] fix: give up lost packets also after the sequence
 numbers wrapped

---
 internal/webrtc/webrtc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 0374023..fb9a18b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -255,7 +255,10 @@ func (w *WebRTC) Init(
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer uses unwrapped sequence numbers
+								if next := jb.GetNextStart(); uint16(next) == seq {
+									jb.SkipPacket(next)
+								}
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
-- 
2.43.0


From 27fc89757c217f0158dc1e3c2c8eaae5d37a65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 27/43] fix: re-request packets that reuse the number of a
 packet re-requested before

---
 internal/webrtc/webrtc.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index fb9a18b..06d5e7b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -237,6 +237,13 @@ func (w *WebRTC) Init(
 						filteredMissing := make([]uint16, 0)
 						now := time.Now()
 
+						// Forget old packets first, their sequence numbers may be in use again
+						for seq, tracker := range nackedPackets {
+							if now.Sub(tracker.timestamp) > time.Second*5 {
+								delete(nackedPackets, seq)
+							}
+						}
+
 						for _, seq := range missing {
 							tracker, exists := nackedPackets[seq]
 
@@ -263,12 +270,6 @@ func (w *WebRTC) Init(
 							}
 						}
 
-						for seq, tracker := range nackedPackets {
-							if now.Sub(tracker.timestamp) > time.Second*5 {
-								delete(nackedPackets, seq)
-							}
-						}
-
 						if len(missing) > 5 {
 							log.WithField("session", w.ctx.Value("session")).
 								Warnf("Large packet gap detected for SSRC %d: %d packets", senderSSRC, len(missing))
-- 
2.43.0


From 7d166f597b522976f96e876a02660b930a956266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 28/43] fix: report the flow of a track that starts with
 sequence number 0

---
 internal/webrtc/webrtc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 06d5e7b..fe0a4e6 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -296,7 +296,7 @@ func (w *WebRTC) Init(
 			}()
 		}
 
-		var s1, s2 uint16
+		var s1, s2 uint64 // packets handed to the recorder
 		var lastTimestamp time.Duration
 
 		if true {
@@ -421,7 +421,7 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2 = p.SequenceNumber
+				s2++
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-- 
2.43.0


From 55ad82eca3ff9382cd41f313ef7a39ef2ab19a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 29/43] fix: synchronise the goroutines of a track

---
 internal/webrtc/webrtc.go | 54 +++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index fe0a4e6..69479c8 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,8 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +36,7 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
+	m                   sync.Mutex // protects videoTrackSSRCs and pliStats
 	videoTrackSSRCs     []uint32
 	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
@@ -172,8 +175,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -211,6 +216,8 @@ func (w *WebRTC) Init(
 			w.ctx,
 		)
 
+		var m sync.Mutex // protects rl and jb
+
 		if true {
 			senderSSRC := rand.Uint32()
 			sentNACKs := 0
@@ -229,7 +236,9 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						m.Lock()
 						missing := rl.MissingSeqNumbers(10)
+						m.Unlock()
 						if missing == nil || len(missing) == 0 {
 							continue
 						}
@@ -261,11 +270,13 @@ func (w *WebRTC) Init(
 								log.WithField("session", w.ctx.Value("session")).
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
+								m.Lock()
 								rl.IgnoreSeqNum(seq)
 								// The jitter buffer uses unwrapped sequence numbers
 								if next := jb.GetNextStart(); uint16(next) == seq {
 									jb.SkipPacket(next)
 								}
+								m.Unlock()
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -296,8 +307,8 @@ func (w *WebRTC) Init(
 			}()
 		}
 
-		var s1, s2 uint64 // packets handed to the recorder
-		var lastTimestamp time.Duration
+		var s2 atomic.Uint64 // packets handed to the recorder
+		var lastTimestamp atomic.Int64
 
 		if true {
 			done := make(chan bool)
@@ -306,13 +317,14 @@ func (w *WebRTC) Init(
 			}()
 			go func() {
 				ticker := time.NewTicker(time.Millisecond * 100)
+				var s1 uint64
 				var wasFlowing, isFlowing bool
 				for {
 					select {
 					case <-done:
 						ticker.Stop()
 
-						ts := lastTimestamp
+						ts := time.Duration(lastTimestamp.Load())
 
 						// Use the most recent timestamp from video or audio since
 						// we can't differentiate them in status events right now.
@@ -328,14 +340,15 @@ func (w *WebRTC) Init(
 						w.flowCallback(false, ts, true)
 						return
 					case <-ticker.C:
-						if s1 == s2 {
+						pushed := s2.Load()
+						if s1 == pushed {
 							isFlowing = false
 						} else {
 							isFlowing = true
 						}
-						s1 = s2
+						s1 = pushed
 						if isFlowing != wasFlowing {
-							ts := lastTimestamp
+							ts := time.Duration(lastTimestamp.Load())
 
 							// FIXME see comment above
 							if ts == 0 {
@@ -389,6 +402,7 @@ func (w *WebRTC) Init(
 
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
+			m.Lock()
 			if !jb.Add(seq, rtp) {
 				log.WithField("session", w.ctx.Value("session")).
 					Warnf("Failed to add packet to jitter buffer: seq=%d, timestamp=%d",
@@ -397,12 +411,18 @@ func (w *WebRTC) Init(
 
 			rl.Add(rtp.SequenceNumber)
 
+			packets, _ := jb.NextPackets()
+			var skippedSeq int64
+			var skipped bool
+			if packets != nil {
+				skippedSeq, skipped = jb.GetAndClearLastSkipped()
+			}
+			m.Unlock()
+
 			log.WithField("session", w.ctx.Value("session")).
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, _ := jb.NextPackets()
-
 			if packets == nil {
 				continue
 			}
@@ -412,8 +432,7 @@ func (w *WebRTC) Init(
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			skippedSeq, ok := jb.GetAndClearLastSkipped()
-			if ok {
+			if skipped {
 				if rec != nil {
 					rec.NotifySkippedPacket(uint16(skippedSeq))
 					log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
@@ -421,14 +440,14 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2++
+				s2.Add(1)
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-					lastTimestamp = rec.AudioTimestamp()
+					lastTimestamp.Store(int64(rec.AudioTimestamp()))
 				case isVideo:
 					rec.PushVideo(p)
-					lastTimestamp = rec.VideoTimestamp()
+					lastTimestamp.Store(int64(rec.VideoTimestamp()))
 				}
 			}
 		}
@@ -483,7 +502,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := append([]uint32(nil), w.videoTrackSSRCs...)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -496,6 +519,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From 7a5ceb8cd8b43f00c804afab787cf5393e467cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 30/43] fix: synchronise the recorder's state

---
 internal/webrtc/recorder/webm.go | 34 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 21e048c..7657d5d 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -172,18 +172,26 @@ func (r *WebmRecorder) WithContext(ctx context.Context) {
 }
 
 func (r *WebmRecorder) SetHasAudio(hasAudio bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasAudio = hasAudio
 }
 
 func (r *WebmRecorder) GetHasAudio() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasAudio
 }
 
 func (r *WebmRecorder) SetHasVideo(hasVideo bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.hasVideo = hasVideo
 }
 
 func (r *WebmRecorder) GetHasVideo() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.hasVideo
 }
 
@@ -195,15 +203,19 @@ func (r *WebmRecorder) SetKeyframeRequester(requester KeyframeRequester) {
 }
 
 func (r *WebmRecorder) VideoTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.videoTimestamp
 }
 
 func (r *WebmRecorder) AudioTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
 	return r.audioTimestamp
 }
 
 func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
-	if !r.hasVideo {
+	if !r.GetHasVideo() {
 		return
 	}
 
@@ -215,7 +227,7 @@ func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
 }
 
 func (r *WebmRecorder) PushAudio(p *rtp.Packet) {
-	if !r.hasAudio {
+	if !r.GetHasAudio() {
 		return
 	}
 
@@ -337,13 +349,13 @@ func (r *WebmRecorder) Close() time.Duration {
 }
 
 func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(packet.Payload) == 0 || r.closed {
 		return
 	}
@@ -407,13 +419,13 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 }
 
 func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasAudio {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(p.Payload) == 0 || r.closed {
 		return
 	}
@@ -555,13 +567,13 @@ func vp8FrameDimensions(frame []byte) (int, int) {
 }
 
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if r.closed {
 		return
 	}
-- 
2.43.0


From 9a72df04fe691aa809bb72cd2c3123b6a527e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:45 +0000
Subject: [PATCH 31/43] fix: announce all media of a LiveKit recording before
 subscribing

---
 internal/webrtc/livekit/livekit.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..7b82c85 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -153,6 +153,7 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
 	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
+	// Tell the recorder about all kinds of media before any of it arrives
 	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
@@ -166,19 +167,24 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 					w.handler.SetHasAudio(true)
 				}
 
-				if err := w.subscribe(trackPublication); err != nil {
-					log.WithField("session", w.ctx.Value("session")).
-						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
-					return nil, err
-				}
-
 				subscribedTracks = append(subscribedTracks, trackPublication)
 				remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
 			}
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
+	for _, trackPublication := range subscribedTracks {
+		if err := w.subscribe(trackPublication); err != nil {
+			log.WithField("session", w.ctx.Value("session")).
+				Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
+			return nil, err
+		}
+	}
+
 	return subscribedTracks, nil
 }
 
-- 
2.43.0


From 7d15b1620c994badaf73e176dbb085eb99d40ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:45 +0000
Subject: [PATCH 32/43] fix: do not deadlock when a second LiveKit video track
 starts

---
 internal/webrtc/livekit/livekit.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 7b82c85..5884ad4 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -324,18 +324,21 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
-	w.m.Lock()
-	w.jitterBuffers[trackID] = buffer
-
 	if isVideo {
-		ssrc := uint32(track.SSRC())
-		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
-
+		// Not under w.m: the recorder requests key frames with its own lock held
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
 		}); ok {
 			kfr.SetKeyframeRequester(w)
 		}
+	}
+
+	w.m.Lock()
+	w.jitterBuffers[trackID] = buffer
+
+	if isVideo {
+		ssrc := uint32(track.SSRC())
+		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-- 
2.43.0


From 136caedb939f2d6713d365f21e2c008f64199af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 33/43] fix: watch LiveKit tracks as long as they last

---
 internal/webrtc/livekit/livekit.go | 72 ++++++++++++++++--------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 5884ad4..5d3a4d0 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -39,7 +39,7 @@ type PLITracker struct {
 }
 
 type TrackFlowState struct {
-	lastSeqNum    uint16
+	packets       uint64
 	lastTimestamp time.Duration
 	isFlowing     bool
 }
@@ -217,11 +217,19 @@ func (w *LiveKitWebRTC) RequestKeyframe() {
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
 	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+		w.requestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	w.requestKeyframeForSSRC(ssrc)
+}
+
+// requestKeyframeForSSRC is called with w.m held
+func (w *LiveKitWebRTC) requestKeyframeForSSRC(ssrc uint32) {
 	if w.room == nil {
 		return
 	}
@@ -246,27 +254,26 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	}
 }
 
-func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
+func (w *LiveKitWebRTC) updateFlowState(trackID string, timestamp time.Duration) {
 	w.m.Lock()
 	defer w.m.Unlock()
 
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{}
 		w.flowState[trackID] = state
-
-		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
-	state.lastSeqNum = seqNum
+	state.packets++
 	state.lastTimestamp = timestamp
+	w.setFlowing(trackID, state, true)
+}
+
+// setFlowing is called with w.m held
+func (w *LiveKitWebRTC) setFlowing(trackID string, state *TrackFlowState, isFlowing bool) {
+	wasFlowing := state.isFlowing
+	state.isFlowing = isFlowing
 
 	if state.isFlowing != wasFlowing && w.flowCallback != nil {
 		var latestTimestamp time.Duration
@@ -333,6 +340,8 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		}
 	}
 
+	done := make(chan struct{}) // closed when the track ends
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
 
@@ -342,10 +351,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
 			for {
@@ -361,40 +366,40 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}
 	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
+		var lastPackets uint64
 		for {
 			select {
-			case <-flowCheckDone:
+			case <-done:
 				ticker.Stop()
 				return
 			case <-ticker.C:
 				w.m.Lock()
 				state, exists := w.flowState[trackID]
 
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
-				}
+				if exists {
+					if state.packets == lastPackets {
+						// No new packets received == not flowing
+						w.setFlowing(trackID, state, false)
+					}
 
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
-				}
+					if state.isFlowing {
+						ticker.Reset(time.Millisecond * 1000)
+					} else {
+						ticker.Reset(time.Millisecond * 100)
+					}
 
-				lastSeqNum = state.lastSeqNum
+					lastPackets = state.packets
+				}
 				w.m.Unlock()
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -414,7 +419,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			for _, p := range packets {
 				w.updateFlowState(
 					trackID,
-					p.SequenceNumber,
 					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
 				)
 
-- 
2.43.0


From 8db80c3abdd9b4378528faddb2733f3823a88554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 34/43] fix: report the position in LiveKit recordings

---
 internal/webrtc/livekit/livekit.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 5d3a4d0..9a88d87 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -417,17 +417,18 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
+				var timestamp time.Duration
 
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
+					timestamp = w.handler.VideoTimestamp()
 				case TrackKindAudio:
 					w.handler.PushAudio(p)
+					timestamp = w.handler.AudioTimestamp()
 				}
+
+				w.updateFlowState(trackID, timestamp)
 			}
 		}
 	}()
-- 
2.43.0


From 85538979a803fef3b014a22742fd39e7728b8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:10 +0000
Subject: [PATCH 35/43] fix: survive the jitter buffer of LiveKit dropping all
 packets

---
 internal/webrtc/livekit/livekit.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 9a88d87..8a1b678 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -410,7 +410,7 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 
 			buffer.Push(packet)
-			packets := buffer.Pop(false)
+			packets := w.popPackets(buffer, isVideo)
 
 			if len(packets) == 0 {
 				continue
@@ -434,6 +434,24 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}()
 }
 
+// popPackets returns the packets that can be recorded now. The jitter buffer
+// panics when it drops all of its packets because the start of their frames was
+// lost; it is empty then and can be used further.
+func (w *LiveKitWebRTC) popPackets(buffer *jitter.Buffer, isVideo bool) (packets []*rtp.Packet) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.WithField("session", w.ctx.Value("session")).
+				Warnf("Jitter buffer dropped all packets: %v", r)
+
+			if isVideo {
+				w.RequestKeyframe()
+			}
+		}
+	}()
+
+	return buffer.Pop(false)
+}
+
 func (w *LiveKitWebRTC) onTrackUnsubscribed(
 	track *webrtc.TrackRemote,
 	pub *lksdk.RemoteTrackPublication,
-- 
2.43.0


From 8106b556e1914d09e389d46939c5d6ad3c7982aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:02 +0000
Subject: [PATCH 36/43] fix: report that a LiveKit track no longer flows when
 it ends

---
 internal/webrtc/livekit/livekit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 8a1b678..d7ce473 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -373,6 +373,11 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			select {
 			case <-done:
 				ticker.Stop()
+				w.m.Lock()
+				if state, exists := w.flowState[trackID]; exists {
+					w.setFlowing(trackID, state, false)
+				}
+				w.m.Unlock()
 				return
 			case <-ticker.C:
 				w.m.Lock()
-- 
2.43.0


From 3d305bddfbea4f3622f4ad3ac001345c899e2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 37/43] fix: publish the flow of a recording only once it
 started

---
 internal/server/session.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/server/session.go b/internal/server/session.go
index c9443d8..5147e40 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -31,6 +31,8 @@ type Session struct {
 	reported bool
 	// What ended the session before it was started
 	endedEarly func()
+	// Events from before the session was started, to be published then
+	early []*events.RecordingRtpStatusChanged
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -95,6 +97,12 @@ func (s *Session) Started() {
 	s.m.Lock()
 	s.started = true
 	end := s.endedEarly
+
+	for _, e := range s.early {
+		s.server.PublishPubSub(e)
+	}
+
+	s.early = nil
 	s.m.Unlock()
 
 	if end != nil {
@@ -124,8 +132,12 @@ func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
 	s.m.Lock()
 	defer s.m.Unlock()
 
-	if !s.stopped {
-		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+	e := events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
+
+	if !s.started {
+		s.early = append(s.early, e)
+	} else if !s.stopped {
+		s.server.PublishPubSub(e)
 	}
 }
 
-- 
2.43.0


From 93a504249cbdf0cdb3c5946b88b8d30ea50ffd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 38/43] fix: route the answers of the HTTP endpoint to their
 requesters

---
 internal/server/http.go | 64 +++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 82e19cf..7dde7f0 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,18 +3,21 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -37,7 +40,10 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	// The requests that wait for an answer, by session
+	var m sync.Mutex
+	pending := make(map[string]chan *events.StartRecordingResponse)
+
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
@@ -45,8 +51,13 @@ func (s *HTTPServer) Serve() {
 				return
 			}
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				answer, ok := pending[e.SessionId]
+				delete(pending, e.SessionId)
+				m.Unlock()
+
+				if ok {
+					answer <- e
 				}
 			}
 		},
@@ -54,15 +65,24 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
-		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+	go s.serve(func(ctx context.Context, sdp string) (string, error) {
+		sessId := fmt.Sprintf("%s-%s", time.Now().Format("20060102150405"), uuid.New())
+		answer := make(chan *events.StartRecordingResponse, 1)
+
+		m.Lock()
+		pending[sessId] = answer
+		m.Unlock()
+
+		defer func() {
+			m.Lock()
+			delete(pending, sessId)
+			m.Unlock()
+		}()
+
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -72,13 +92,23 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		select {
+		case a := <-answer:
+			if a.SDP != nil {
+				return *a.SDP, nil
+			}
+			if a.Error != nil {
+				return "", errors.New(*a.Error)
+			}
+			return "", errors.New("no SDP answer")
+		case <-ctx.Done():
+			return "", ctx.Err()
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(context.Context, string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -87,8 +117,12 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(r.Context(), string(body))
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusInternalServerError)
+			return
+		}
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From f7dfffb8563e2686f61d0a9fcec1d9f35ae356f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 39/43] fix: keep the Redis options that a configuration source
 does not give

---
 internal/config/loader.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..0be6740 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -3,6 +3,7 @@ package config
 import (
 	"fmt"
 	"github.com/crazy-max/gonfig"
+	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"path"
@@ -27,6 +28,9 @@ func (cfg *Config) Load(app App, configFile string) {
 			Extensions: []string{"yaml", "yml"},
 		},
 	})
+	redis := &Redis{}
+	cfg.mergeRedis(redis)
+
 	if found, err := fileLoader.Load(cfg); err != nil {
 		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
 	} else if !found {
@@ -35,6 +39,8 @@ func (cfg *Config) Load(app App, configFile string) {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
 	}
 
+	cfg.mergeRedis(redis)
+
 	// Load from environment variables
 	envPrefix := "BBBRECORDER_"
 	envLoader := gonfig.NewEnvLoader(gonfig.EnvLoaderConfig{
@@ -49,5 +55,21 @@ func (cfg *Config) Load(app App, configFile string) {
 		log.Printf("configuration loaded from %d environment variables", len(envLoader.GetVars()))
 	}
 
+	cfg.mergeRedis(redis)
+
 	cfg.App = app
 }
+
+// mergeRedis adds the options of the Redis adapter to those of the sources
+// before: a source which gives any of them replaces the adapter as a whole.
+func (cfg *Config) mergeRedis(redis *Redis) {
+	if cfg.PubSub.Adapters["redis"] == nil {
+		return
+	}
+
+	if err := mapstructure.Decode(cfg.PubSub.Adapters["redis"], redis); err != nil {
+		log.Fatal(errors.Wrap(err, "failed to decode redis pubsub configuration"))
+	}
+
+	cfg.PubSub.Adapters["redis"] = redis
+}
-- 
2.43.0


From afb431a84c29154f0d33e518ff15b97eb7039340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:22 +0000
Subject: [PATCH 40/43] fix: load the credentials of ICE servers

---
 internal/config/config.go | 34 +++++++++++++++++++++++++++++-----
 internal/webrtc/webrtc.go |  5 ++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..fcb542c 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -107,11 +107,35 @@ type Channels struct {
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+}
+
+// ICEServer is a webrtc.ICEServer whose credential can be loaded: the loaders
+// leave fields of interface types alone.
+type ICEServer struct {
+	URLs           []string                 `yaml:"urls"`
+	Username       string                   `yaml:"username"`
+	Credential     string                   `yaml:"credential"`
+	CredentialType webrtc.ICECredentialType `yaml:"credentialtype"`
+}
+
+// WebRTC gives the server in the form the WebRTC library takes it.
+func (s ICEServer) WebRTC() webrtc.ICEServer {
+	server := webrtc.ICEServer{
+		URLs:           s.URLs,
+		Username:       s.Username,
+		CredentialType: s.CredentialType,
+	}
+
+	if s.Credential != "" {
+		server.Credential = s.Credential
+	}
+
+	return server
 }
 
 type HTTP struct {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 69479c8..ae305b0 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -90,10 +90,13 @@ func (w *WebRTC) Init(
 	}
 
 	cfg := webrtc.Configuration{
-		ICEServers:   w.cfg.ICEServers,
 		SDPSemantics: webrtc.SDPSemanticsUnifiedPlanWithFallback,
 	}
 
+	for _, server := range w.cfg.ICEServers {
+		cfg.ICEServers = append(cfg.ICEServers, server.WebRTC())
+	}
+
 	// Create a MediaEngine object to configure the supported codec
 	m := &webrtc.MediaEngine{}
 
-- 
2.43.0


From d86cb75fcf61b22f0c5c9896ef68e05b143a6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 41/43] fix: guard the configuration while it is reloaded

---
 internal/app/app.go       | 14 ++++++++------
 internal/app/config.go    |  2 +-
 internal/config/config.go | 18 ++++++++++++++++++
 internal/server/http.go   | 10 ++++++----
 internal/server/server.go | 16 +++++++++-------
 5 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..a74e8df 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -73,19 +73,21 @@ func Init() {
 }
 
 func Run() {
-	if cfg.Prometheus.Enable {
+	current := cfg.Current()
+
+	if current.Prometheus.Enable {
 		prometheus.Init()
-		prometheus.ServePromMetrics(cfg.Prometheus)
+		prometheus.ServePromMetrics(current.Prometheus)
 	}
 
-	if cfg.HTTP.Enable {
-		ps := pubsub.NewPubSub(cfg.PubSub)
+	if current.HTTP.Enable {
+		ps := pubsub.NewPubSub(current.PubSub)
 		h := server.NewHTTPServer(cfg, ps)
 		h.Serve()
 	}
-	ps := pubsub.NewPubSub(cfg.PubSub)
+	ps := pubsub.NewPubSub(current.PubSub)
 	s := server.NewServer(cfg, ps)
-	ps.Subscribe(cfg.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
+	ps.Subscribe(current.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
 }
 
 func sighupHandler() {
diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..09c7292 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -17,7 +17,7 @@ func initConfig() *config.Config {
 func loadConfig() {
 	newCfg := initConfig()
 	newCfg.Load(app, flags.config)
-	*cfg = *newCfg
+	cfg.Replace(newCfg)
 }
 
 func dumpConfig() {
diff --git a/internal/config/config.go b/internal/config/config.go
index fcb542c..adf0c46 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"os"
+	"sync"
 
 	"github.com/pion/webrtc/v3"
 	log "github.com/sirupsen/logrus"
@@ -26,6 +27,23 @@ type Config struct {
 	Log        LogConfig  `yaml:"log"`
 }
 
+// mutex guards the configuration in use, which may be reloaded at any time.
+var mutex sync.RWMutex
+
+// Current gives the configuration in use.
+func (cfg *Config) Current() Config {
+	mutex.RLock()
+	defer mutex.RUnlock()
+	return *cfg
+}
+
+// Replace replaces the configuration in use.
+func (cfg *Config) Replace(newCfg *Config) {
+	mutex.Lock()
+	defer mutex.Unlock()
+	*cfg = *newCfg
+}
+
 func (cfg *Config) GetDefaults() *Config {
 	cfg.SetDefaults()
 	return cfg
diff --git a/internal/server/http.go b/internal/server/http.go
index 7dde7f0..ad5f84d 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -30,10 +30,12 @@ type HTTPServer struct {
 }
 
 func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
+	current := cfg.Current()
+
 	return &HTTPServer{
 		cfg:       cfg,
-		port:      cfg.HTTP.Port,
-		mediaRoot: path.Clean(cfg.Recorder.Directory),
+		port:      current.HTTP.Port,
+		mediaRoot: path.Clean(current.Recorder.Directory),
 		publicFS:  web.PublicEmbedFS,
 		pubsub:    ps,
 	}
@@ -44,7 +46,7 @@ func (s *HTTPServer) Serve() {
 	var m sync.Mutex
 	pending := make(map[string]chan *events.StartRecordingResponse)
 
-	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
+	go s.pubsub.Subscribe(s.cfg.Current().PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if !event.IsValid() {
@@ -91,7 +93,7 @@ func (s *HTTPServer) Serve() {
 			},
 		}
 		j, _ := json.Marshal(e)
-		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
+		s.pubsub.Publish(s.cfg.Current().PubSub.Channels.Subscribe, j)
 
 		select {
 		case a := <-answer:
diff --git a/internal/server/server.go b/internal/server/server.go
index 6443b2e..660f4da 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -73,7 +73,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			wrtc := livekit.NewLiveKitWebRTC(
 				ctx,
-				s.cfg.LiveKit,
+				s.cfg.Current().LiveKit,
 				e.AdapterOptions.LiveKit.Room,
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
@@ -91,7 +91,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
-			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.Current().WebRTC)
 			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
 			s.sessions.Store(e.SessionId, sess)
 			s.startSession(sess, e)
@@ -115,25 +115,27 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 	case "getRecorderStatus":
-		s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+		app := s.cfg.Current().App
+		s.PublishPubSub(events.NewRecorderStatus(app.Version, app.InstanceId))
 	}
 }
 
 func (s *Server) PublishPubSub(msg interface{}) {
 	j, _ := json.Marshal(msg)
-	s.pubsub.Publish(s.cfg.PubSub.Channels.Publish, j)
+	s.pubsub.Publish(s.cfg.Current().PubSub.Channels.Publish, j)
 }
 
 func (s *Server) OnStart() error {
-	log.Info("Application started. Version=", s.cfg.App.Version, " InstanceId=", s.cfg.App.InstanceId)
-	s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+	app := s.cfg.Current().App
+	log.Info("Application started. Version=", app.Version, " InstanceId=", app.InstanceId)
+	s.PublishPubSub(events.NewRecorderStatus(app.Version, app.InstanceId))
 	return nil
 }
 
 // newRecorder refuses files other sessions are recording to: those are only
 // created once media arrives.
 func (s *Server) newRecorder(ctx context.Context, fileName string) (recorder.Recorder, error) {
-	rec, err := recorder.NewRecorder(ctx, s.cfg.Recorder, fileName)
+	rec, err := recorder.NewRecorder(ctx, s.cfg.Current().Recorder, fileName)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 230688ec7b501c0ee74bbec4a3e32edaff8f6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:40 +0000
Subject: [PATCH 42/43] fix: dump the LiveKit settings under their names

---
 internal/config/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index adf0c46..8cf5b81 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -167,9 +167,9 @@ type Prometheus struct {
 }
 
 type LiveKit struct {
-	Host      string `mapstructure:"host"`
-	APIKey    string `mapstructure:"api_key"`
-	APISecret string `mapstructure:"api_secret"`
+	Host      string `yaml:"host" mapstructure:"host"`
+	APIKey    string `yaml:"apiKey" mapstructure:"api_key"`
+	APISecret string `yaml:"apiSecret" mapstructure:"api_secret"`
 }
 
 type LogConfig struct {
-- 
2.43.0


From c6d045adf97f4b97fbffe32af8868aebcf3d4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:32 +0000
Subject: [PATCH 43/43] fix: refuse negative indexes of --dump

---
 internal/app/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/config.go b/internal/app/config.go
index 09c7292..7ec1987 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -32,7 +32,7 @@ func dumpConfig() {
 			}
 			switch v.(type) {
 			case []interface{}:
-				if i == nil || len(v.([]interface{})) < *i+1 {
+				if i == nil || *i < 0 || len(v.([]interface{})) < *i+1 {
 					v = nil
 					goto _break
 				}
-- 
2.43.0

