package recorderh

import (
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/pion/rtp"
)

// CheckLongStream: streams of many frames or of frames of many packets, as they are in
// practice. The shape of the stream is one of a few; its sequence numbers, timestamps
// and headers are any.
func CheckLongStream() {
	m := newMedia(false)
	m.plain = true
	m.pids = sym.Choose("pids", 2) == 1
	if m.pids {
		m.pid = []uint16{0, 0x7ff0}[sym.Choose("pid", 2)]
	}
	frames, packets, size := 0, 1, 0
	switch sym.Choose("shape", 3) {
	case 0:
		frames = sym.Param("frames", 70)
	case 1:
		frames, packets, size = 3, 140, 1200
	case 2:
		frames, packets, size = 3, 2, 33000
	}
	extra := make([]byte, size)
	for i := range extra {
		extra[i] = byte(i * 7)
	}
	step := []uint32{3000, 3003, 1501, 1}[sym.Choose("step", 4)]
	loss := -1
	if sym.Choose("loss", 2) == 1 {
		loss = frames / 2
	}
	for i := 0; i < frames; i++ {
		for j := 0; j < packets; j++ {
			p := packet{start: j == 0, marker: j == packets-1, extra: extra, pidInc: 1}
			p.key = i == 0 || i == loss+frames/3
			if i == loss && j == packets/2 {
				p.gap = 1
				if m.pids {
					p.pidInc = 2
				}
			}
			m.push(p)
		}
		m.ts += step
		sym.Advance(33 * time.Millisecond)
	}
	m.finish()
}

// CheckDimensions: key frames of every plausible size.
func CheckDimensions() {
	m := newMedia(false)
	w, h := sym.Int("w", 16, 8192), sym.Int("h", 16, 8192)
	for i := 0; i < 2; i++ {
		m.push(packet{start: true, key: true, marker: true, w: w, h: h})
		m.ts += 3000
	}
	m.finish()
	t := videoTrack()
	sym.Assert(t != nil && t.entry.Video != nil, "C17: the video track is declared")
	if t != nil && t.entry.Video != nil {
		sym.Assert(sym.And(t.entry.Video.PixelWidth == uint64(w), t.entry.Video.PixelHeight == uint64(h)), "C17: with the picture size of the first key frame")
	}
}

// CheckLongClock: recordings of many frames, whose roundings must not add up, and with long pauses.
func CheckLongClock() {
	m := newMix(false)
	m.has(1 + sym.Choose("tracks", 3))
	n := sym.Param("frames", 150)
	steps := [][2]uint32{{3000, 960}, {3003, 120}, {1501, 2880}, {45, 25}, {90 * 61000, 48 * 61000}}[sym.Choose("step", 5)]
	burst := []int{1, 3}[sym.Choose("burst", 2)]
	for i := 0; i < n; i++ {
		if m.kinds&1 != 0 && (m.kinds&2 == 0 || i/burst%2 == 0) {
			m.pushVideo(i == 0 || i%50 == 49, 0, steps[0])
		} else {
			m.pushAudio(steps[1])
		}
	}
	m.close()
	m.check(false)
}

// CheckFirstFrame: a recording starts with a key frame, whatever is lost or reordered before.
func CheckFirstFrame() {
	m := newMix(false)
	m.has(1 + 2*sym.Choose("audio", 2))
	n := sym.Param("N", 4)
	var held *rtp.Packet
	push := func(data []byte, first, last bool) {
		d := byte(0)
		if first {
			d = 0x10
		}
		m.vseq++
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: m.vseq, Timestamp: m.vts, Marker: last}, Payload: append([]byte{d}, data...)}
		switch sym.Choose("fate", 3) {
		case 0:
			m.r.PushVideo(p)
			if held != nil && !m.custom {
				m.r.PushVideo(held)
				sym.Cover("packets out of order")
			}
			held = nil
		case 1:
			sym.Cover("lost packet")
			if m.custom {
				m.r.NotifySkippedPacket(m.vseq)
			}
		case 2:
			sym.Assume(held == nil && !m.custom)
			held = p
		}
	}
	for i := 0; i < n; i++ {
		key := sym.Choose("key", 2) == 1
		m.vts += 3000
		data := sym.Bytes("video", 12)
		data[0] &= 0xfe
		if !key {
			data[0] |= 1
		}
		data[6], data[7], data[8], data[9] = 0x80, 2, 0xe0, 1
		if sym.Choose("split", 2) == 1 {
			push(data[:10], true, false)
			push(data[10:], false, true)
		} else {
			push(data, true, true)
		}
	}
	m.r.Close()
	// the builtin sampler may cut frames (a defect of samplebuilder), but not at their start
	if v := blocksOf(1); len(v) > 0 {
		sym.Assert(v[0].key && len(v[0].data) > 0 && v[0].data[0]&1 == 0, "C14: the first video frame written is a key frame")
		sym.Cover("recording started")
	}
	sym.Observe("blocks", len(blocksOf(1)))
}
