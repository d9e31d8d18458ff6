package recorderh

import (
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

type sent struct {
	data []byte
	ts   uint32
	pos  int64 // of ts, unwrapped
	key  bool
	w, h int
}

// mix records audio and video and remembers what has to be in the file.
type mix struct {
	r            *recorder.WebmRecorder
	custom       bool
	kinds        int // 1 video, 2 audio
	vseq, aseq   uint16
	vts, ats     uint32
	video, audio []sent // that have to be in the file
	keyed        bool
	closed       bool
	mode         uint32
	vpos, apos   int64
	scale        byte // upscaling hints next to the picture size of key frames
}

func newMix(ivf bool) *mix {
	resetEnv()
	m := &mix{}
	m.custom = sym.Choose("sampler", 2) == 1
	m.mode = 0640
	m.r = recorder.NewWebmRecorder("/rec/a.webm", 0640, 8, 4, m.custom, ivf)
	m.scale = sym.U8("scale") & 0x80
	m.vseq, m.aseq, m.vts, m.ats = sym.U16("vseq"), sym.U16("aseq"), sym.U32("vts"), sym.U32("ats")
	return m
}

func (m *mix) has(kinds int) {
	m.kinds |= kinds
	m.r.SetHasVideo(m.kinds&1 != 0)
	m.r.SetHasAudio(m.kinds&2 != 0)
}

func (m *mix) pushVideo(key bool, size int, step uint32) {
	m.pushVideoAround(key, size, step, nil)
}

// pushVideoAround pushes a frame in two packets, with something in between,
// or in one.
func (m *mix) pushVideoAround(key bool, size int, step uint32, between func()) {
	m.vseq++
	m.vts += step
	m.vpos += int64(step)
	w, h := 640, 480
	if size == 1 {
		w, h = 1280, 720
	}
	data := sym.Bytes("video", 11)
	data[0] &= 0xfe
	if !key {
		data[0] |= 1
	}
	data[6], data[7], data[8], data[9] = byte(w), byte(w>>8)|m.scale, byte(h), byte(h>>8)|m.scale>>1
	if between == nil {
		m.r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: m.vseq, Timestamp: m.vts, Marker: true}, Payload: append([]byte{0x10}, data...)})
	} else {
		data = append(data, sym.Bytes("video", 2)...)
		m.r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: m.vseq, Timestamp: m.vts}, Payload: append([]byte{0x10}, data[:11]...)})
		between()
		m.vseq++
		m.r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: m.vseq, Timestamp: m.vts, Marker: true}, Payload: append([]byte{0}, data[11:]...)})
	}
	if m.closed || m.kinds&1 == 0 {
		return
	}
	m.keyed = m.keyed || key
	if m.keyed {
		m.video = append(m.video, sent{data, m.vts, m.vpos, key, w, h})
	}
}

func (m *mix) pushAudio(step uint32) {
	m.aseq++
	m.ats += step
	m.apos += int64(step)
	data := sym.Bytes("audio", 2)
	m.r.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: m.aseq, Timestamp: m.ats, Marker: true}, Payload: append([]byte{}, data...)})
	// with video, the recording starts at the first key frame
	if m.closed || m.kinds&2 == 0 || m.kinds&1 != 0 && !m.keyed {
		return
	}
	m.audio = append(m.audio, sent{data: data, ts: m.ats, pos: m.apos})
}

// check compares the simulated file with what was sent.
func (m *mix) check(ivf bool) {
	started := len(m.video) > 0 || len(m.audio) > 0
	n := 0
	for _, f := range files {
		if f.path == "/rec/a.webm" {
			n++
			sym.Assert(uint32(f.mode) == m.mode, "C23: the recording file is opened with the configured mode")
		} else {
			sym.Assert(ivf && f.path == "/rec/a.ivf", "C23: no file but the recording and its IVF copy is opened")
			sym.Assert(uint32(f.mode) == m.mode, "C23: the IVF copy is opened with the configured mode")
		}
	}
	if started {
		sym.Assert(n == 1, "C17: the recording file is opened once")
	} else {
		sym.Assert(n <= 1, "C17: the recording file is opened at most once")
	}
	sym.Assert(opens == n, "C17: the recording file is opened by the muxer only")
	nv, na := 0, 0
	for _, t := range tracks {
		sym.Assert(t.f != nil && t.f.path == "/rec/a.webm", "C17: tracks are written to the recording file")
		switch t.entry.TrackType {
		case 1:
			nv++
			sym.Assert(t.entry.CodecID == "V_VP8", "C17: video is declared as VP8")
			if len(m.video) > 0 && t.entry.Video != nil {
				sym.Assert(int(t.entry.Video.PixelWidth) == m.video[0].w && int(t.entry.Video.PixelHeight) == m.video[0].h, "C17: the picture size is that of the first key frame")
			}
		case 2:
			na++
			sym.Assert(t.entry.CodecID == "A_OPUS", "C17: audio is declared as Opus")
		}
		for _, o := range tracks {
			sym.Assert(o == t || o.entry.TrackNumber != t.entry.TrackNumber, "C17: tracks have different numbers")
		}
	}
	if started {
		sym.Assert(nv == m.kinds&1 && na == m.kinds>>1, "C17: the file declares exactly the tracks that are present")
	}
	v, a := blocksOf(1), blocksOf(2)
	sym.Assert(len(v) == len(m.video), "C17: every video frame since the first key frame goes to the video track")
	for i := 0; i < len(v) && i < len(m.video); i++ {
		sym.Assert(same(v[i].data, m.video[i].data), "C17: video frames are written unaltered and in order")
		// the builtin sampler tells frames apart by their RTP timestamps
		sym.Assert(v[i].key == m.video[i].key || !m.custom && m.sameTime(i), "C17: key frames are flagged")
		sym.Assert(same(v[i].data, v[i].ref), "C17: a written video frame is not modified afterwards")
		adv := m.video[i].pos - m.video[0].pos
		if i == 0 {
			sym.Assert(v[i].ts == 0, "C16: the first video frame is written at time 0")
		} else {
			sym.Assert(v[i].ts*90 <= adv+90 && v[i].ts*90 > adv-180, "C16: a frame is written at the time of its RTP timestamp, relative to the first")
			sym.Assert(v[i].ts >= v[i-1].ts, "C16: video timestamps never decrease")
		}
	}
	sym.Assert(len(a) == len(m.audio), "C17: every audio frame since the start of the recording goes to the audio track")
	for i := 0; i < len(a) && i < len(m.audio); i++ {
		sym.Assert(same(a[i].data, m.audio[i].data), "C17: audio frames are written unaltered and in order")
		adv := m.audio[i].pos - m.audio[0].pos
		d := a[i].ts - a[0].ts
		sym.Assert(a[i].ts >= 0, "C16: audio timestamps are never negative")
		sym.Assert(d*48 <= adv+48 && d*48 > adv-96, "C16: audio advances with the sample durations")
		if i > 0 {
			sym.Assert(a[i].ts >= a[i-1].ts, "C16: audio blocks never go back in time")
		}
	}
	if len(v) > 0 {
		sym.Assert(m.r.VideoTimestamp()/time.Millisecond == time.Duration(v[len(v)-1].ts), "C16: the reported video position is that of the last written frame")
	}
	if len(v) == 0 {
		sym.Assert(m.r.VideoTimestamp() == 0, "C16: the reported video position is 0 before anything is written")
	}
	if len(a) == 0 {
		sym.Assert(m.r.AudioTimestamp() == 0, "C16: the reported audio position is 0 before anything is written")
	}
	if len(a) > 0 {
		sym.Assert(m.r.AudioTimestamp()/time.Millisecond == time.Duration(a[len(a)-1].ts), "C16: the reported audio position is that of the last written block")
	}
	sym.Assert(late == 0, "C17: nothing is written or closed again after closing")
	if m.closed {
		for _, t := range tracks {
			sym.Assert(t.closed == 1, "C17: closing closes each track writer exactly once")
		}
		for _, f := range files {
			if f.path != "/rec/a.webm" {
				sym.Assert(f.closed == 1, "C18: closing closes the IVF copy exactly once")
			}
		}
	}
	if ivf {
		m.checkIVF()
	}
}

func (m *mix) sameTime(i int) bool {
	for j, v := range m.video {
		if j != i && v.pos == m.video[i].pos {
			return true
		}
	}
	return false
}

func (m *mix) close() {
	if !m.closed {
		m.r.Close()
		m.closed = true
	}
	m.r.Close()
}

// CheckLayout records mixes of audio and video, closing at any point.
func CheckLayout() {
	m := newMix(false)
	m.has(1 + sym.Choose("tracks", 3))
	n := sym.Param("N", 4)
	closeAt := sym.Choose("close", n+1)
	for i := 0; i < n; i++ {
		if i == closeAt {
			m.close()
			sym.Cover("pushed after closing")
		}
		switch sym.Choose("what", 5) {
		case 0:
			m.pushVideo(true, 0, 3000)
		case 1:
			m.pushVideo(true, 1, 3000)
		case 2:
			m.pushVideo(false, 0, 3000)
		case 3:
			m.pushAudio(960)
		case 4:
			m.pushVideoAround(true, 1, 3000, func() {
				m.check(false)
				m.pushAudio(960)
				m.check(false)
				sym.Cover("audio within a key frame")
			})
		}
		m.check(false)
	}
	m.close()
	m.check(false)
	if len(m.video) > 0 && len(m.audio) > 0 {
		sym.Cover("audio and video")
	}
	if len(m.video) > 1 {
		sym.Cover("several video frames")
	}
	sym.Observe("blocks", len(m.video), len(m.audio))
}

// CheckClock records with irregular RTP timestamps.
func CheckClock() {
	m := newMix(false)
	m.has(1 + sym.Choose("tracks", 3))
	n := sym.Param("N", 3)
	vsteps := []uint32{3000, 0, 89, 91, 90000, 1 << 31}
	asteps := []uint32{960, 0, 47, 49, 48000, 1 << 31}
	for i := 0; i < n; i++ {
		if m.kinds&2 == 0 || m.kinds&1 != 0 && sym.Choose("what", 2) == 0 {
			key := i == 0 || sym.Choose("key", 2) == 1
			// a delta frame before the first key frame, with the clock advancing
			if i == 0 && sym.Choose("early", 2) == 1 {
				m.pushVideo(false, 0, 3000)
				sym.Cover("video before the first key frame")
			}
			m.pushVideo(key, 0, vsteps[sym.Choose("step", len(vsteps))])
		} else {
			m.pushAudio(asteps[sym.Choose("step", len(asteps))])
		}
		m.check(false)
	}
	m.close()
	m.check(false)
	if len(m.video) > 1 && m.video[len(m.video)-1].ts < m.video[0].ts {
		sym.Cover("the video clock wraps")
	}
	if len(m.audio) > 1 && m.audio[len(m.audio)-1].ts < m.audio[0].ts {
		sym.Cover("the audio clock wraps")
	}
	sym.Observe("blocks", len(m.video), len(m.audio))
}

// CheckLateTrack announces a track after the other one has been recorded.
func CheckLateTrack() {
	m := newMix(false)
	first := 1 + sym.Choose("first", 2)
	m.has(first)
	if first == 1 {
		m.pushVideo(true, 0, 3000)
	} else {
		m.pushAudio(960)
	}
	m.has(3)
	m.pushAudio(960)
	m.pushVideo(true, 0, 3000)
	n := 0
	for _, f := range files {
		if f.path == "/rec/a.webm" {
			n++
		}
	}
	sym.Cover("late track")
	sym.Assert(n == 1, "C17: the recording file is not truncated when a track shows up late")
	m.close()
	for _, t := range tracks {
		sym.Assert(t.closed == 1, "C17: closing closes each track writer exactly once")
	}
	sym.Observe("files", n)
}
