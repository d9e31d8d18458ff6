package recorderh

import (
	"encoding/binary"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
)

// checkIVF parses the IVF copy.
func (m *mix) checkIVF() {
	var f *file
	for _, x := range files {
		if x.path == "/rec/a.ivf" {
			sym.Assert(f == nil, "C18: the IVF copy is opened once")
			f = x
		}
	}
	if len(m.video) == 0 {
		return
	}
	sym.Assert(f != nil, "C18: the IVF copy is created next to the recording")
	if f == nil {
		return
	}
	b := f.data
	sym.Assert(len(b) >= 32, "C18: the IVF copy has a header")
	if len(b) < 32 {
		return
	}
	sym.Assert(string(b[0:4]) == "DKIF", "C18: the IVF signature is intact")
	sym.Assert(binary.LittleEndian.Uint16(b[4:]) == 0 && binary.LittleEndian.Uint16(b[6:]) == 32, "C18: the IVF version and header size are intact")
	sym.Assert(string(b[8:12]) == "VP80", "C18: the IVF codec is VP8")
	var w, h int
	for _, v := range m.video {
		if v.key {
			w, h = v.w, v.h
		}
	}
	sym.Assert(int(binary.LittleEndian.Uint16(b[12:])) == w && int(binary.LittleEndian.Uint16(b[14:])) == h, "C18: the IVF picture size is that of the last key frame")
	sym.Assert(binary.LittleEndian.Uint32(b[16:]) == 90000 && binary.LittleEndian.Uint32(b[20:]) == 1, "C18: the IVF time base is the RTP clock")
	if m.closed {
		sym.Assert(int(binary.LittleEndian.Uint32(b[24:])) == len(m.video), "C18: after closing the IVF header has the number of frames")
	}
	b = b[32:]
	for _, v := range m.video {
		ok := len(b) >= 12+len(v.data)
		sym.Assert(ok, "C18: every written frame is in the IVF copy")
		if !ok {
			return
		}
		sym.Assert(int(binary.LittleEndian.Uint32(b)) == len(v.data), "C18: IVF frames have their exact length")
		sym.Assert(binary.LittleEndian.Uint64(b[4:]) == uint64(v.ts), "C18: IVF frames have their RTP timestamp")
		sym.Assert(same(b[12:12+len(v.data)], v.data), "C18: IVF frames have the bytes of the frame")
		b = b[12+len(v.data):]
	}
	sym.Assert(len(b) == 0, "C18: nothing but the written frames is in the IVF copy")
}

// CheckIVF records video with an IVF copy.
func CheckIVF() {
	m := newMix(true)
	m.has(1 + 2*sym.Choose("audio", 2))
	n := sym.Param("N", 3)
	closeAt := sym.Choose("close", n+1)
	for i := 0; i < n; i++ {
		if i == closeAt {
			m.close()
		}
		switch sym.Choose("what", 4) {
		case 0:
			m.pushVideo(true, 0, 3000)
		case 1:
			m.pushVideo(true, 1, 3000)
			sym.Cover("the picture size changes")
		case 2:
			m.pushVideo(false, 0, 3000)
		case 3:
			m.pushAudio(960)
		}
		m.check(true)
	}
	m.close()
	m.check(true)
	sym.Observe("frames", len(m.video))
}

// CheckIVFLong records enough frames for the header to be rewritten on the way.
func CheckIVFLong() {
	m := newMix(true)
	m.has(1)
	n := 99 + sym.Choose("frames", 4)
	// key frames also move the file position, so none of them is near the update
	for i := 0; i < n; i++ {
		m.pushVideo(i%45 == 0, i/45&1, 3000)
	}
	m.check(true)
	m.close()
	m.check(true)
	sym.Cover("many frames")
	sym.Observe("frames", len(m.video))
}
