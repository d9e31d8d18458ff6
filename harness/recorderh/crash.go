package recorderh

import (
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

// CheckNoCrash pushes arbitrary packets at a recorder in any state. Panics are violations.
func CheckNoCrash() {
	resetEnv()
	custom := sym.Choose("sampler", 2) == 1
	r := recorder.NewWebmRecorder("/rec/a.webm", 0600, 8, 4, custom, true)
	if custom && sym.Choose("requester", 2) == 1 {
		r.SetKeyframeRequester(&requester{})
	}
	tracks := sym.Param("kinds", 3)
	if n := sym.Param("N", 2); n == 1 {
		tracks = 1 + sym.Choose("tracks", 3)
	}
	r.SetHasVideo(tracks&1 != 0)
	r.SetHasAudio(tracks&2 != 0)
	lens := []int{3, 11, 0, 1, 2, 4, 5, 6, 15}
	n := sym.Param("N", 2)
	closeAt := n
	if n == 1 {
		closeAt = sym.Choose("close", n+1)
	}
	for i := 0; i < n; i++ {
		if i == closeAt {
			r.Close()
			sym.Cover("pushed after closing")
		}
		l := lens[sym.Choose("len", sym.Param("lens", len(lens)))]
		p := &rtp.Packet{Payload: sym.Bytes("payload", l)}
		if l == 0 && sym.Choose("nil", 2) == 1 {
			p.Payload = nil
		}
		p.SequenceNumber = sym.U16("seq")
		p.Timestamp = sym.U32("ts")
		p.Marker = sym.Bool("marker")
		if custom && sym.Choose("skip", 2) == 1 {
			r.NotifySkippedPacket(sym.U16("skipped"))
		}
		if kinds := sym.Param("kinds", 3); kinds == 1 || kinds == 3 && sym.Choose("kind", 2) == 0 {
			r.PushVideo(p)
			recorder.IsVP8KeyFrame(p)
			recorder.GetVP8KFDimension(p)
		} else {
			r.PushAudio(p)
		}
	}
	if len(blocksOf(1)) > 0 {
		sym.Cover("video written")
	}
	if len(blocksOf(2)) > 0 {
		sym.Cover("audio written")
	}
	r.Close()
	r.Close()
	sym.Observe("blocks", len(blocksOf(1)), len(blocksOf(2)), late)
}

// CheckDiskErrors records plain media while the disk fails in every way.
func CheckDiskErrors() {
	resetEnv()
	custom := sym.Choose("sampler", 2) == 1
	r := recorder.NewWebmRecorder("/rec/a.webm", 0600, 8, 4, custom, true)
	r.SetKeyframeRequester(&requester{})
	kinds := 1 + sym.Choose("tracks", 3)
	r.SetHasVideo(kinds&1 != 0)
	r.SetHasAudio(kinds&2 != 0)
	n := sym.Param("N", 3)
	var vs, as uint16
	for i := 0; i < n; i++ {
		// any operation may start or stop failing at any time
		failOpen, failMux, failBlk, failCls, failWr = false, false, false, false, false
		switch sym.Choose("failing", 6) {
		case 0:
		case 1:
			failOpen = true
			sym.Cover("cannot open the file")
		case 2:
			failMux = true
		case 3:
			failBlk = true
			sym.Cover("cannot write a block")
		case 4:
			failCls = true
			sym.Cover("cannot close")
		case 5:
			failWr = true
			sym.Cover("cannot write the file")
		}
		if kinds&1 != 0 && sym.Choose("video", 2) == 1 {
			vs++
			r.PushVideo(vp8Frame(vs, uint32(vs)*3000, sym.Choose("key", 2) == 1, 640, 480, 11))
		}
		if kinds&2 != 0 && sym.Choose("audio", 2) == 1 {
			as++
			r.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: as, Timestamp: uint32(as) * 960}, Payload: []byte{1, 2, 3}})
		}
	}
	r.Close()
	r.Close()
	for _, f := range files {
		if f.path != "/rec/a.webm" {
			sym.Assert(f.closed == 1, "C17: the IVF copy is closed once")
		}
	}
	for _, t := range tracks {
		sym.Assert(t.closed == 1, "C17: each track writer is closed exactly once")
	}
	sym.Observe("blocks", len(blocksOf(1)), len(blocksOf(2)), late, len(files))
}

// vp8Frame is a whole frame in one packet, with concrete content.
func vp8Frame(seq uint16, ts uint32, key bool, w, h int, n int) *rtp.Packet {
	b := make([]byte, 1+n)
	b[0] = 0x10
	if !key {
		b[1] = 1
	}
	b[7], b[8] = byte(w), byte(w>>8)
	b[9], b[10] = byte(h), byte(h>>8)
	for i := 11; i < len(b); i++ {
		b[i] = byte(seq) + byte(i)
	}
	return &rtp.Packet{Header: rtp.Header{SequenceNumber: seq, Timestamp: ts, Marker: true}, Payload: b}
}

// CheckSampleBuilder drives the buffers of the builtin sampler with any reordering and loss.
func CheckSampleBuilder() {
	resetEnv()
	q := uint16(sym.Param("queue", 2))
	r := recorder.NewWebmRecorder("/rec/a.webm", 0600, q, q, false, false)
	audio := sym.Choose("audio", 2) == 1
	step := uint32(sym.Choose("step", 2)) * 3000
	r.SetHasAudio(audio)
	r.SetHasVideo(!audio)
	n := sym.Param("N", 4)
	for i := 0; i < n; i++ {
		p := &rtp.Packet{Payload: []byte{0, 0}}
		p.SequenceNumber = sym.U16("seq")
		p.Timestamp = uint32(i) * step
		if !audio {
			p.Marker = sym.Choose("marker", 2) == 1
			if sym.Choose("start", 2) == 1 {
				p.Payload[0] = 0x10
			}
		}
		if audio {
			r.PushAudio(p)
		} else {
			r.PushVideo(p)
		}
	}
	if len(blocksOf(1)) > 0 {
		sym.Cover("video written")
	}
	if len(blocksOf(2)) > 1 {
		sym.Cover("audio written")
	}
	r.Close()
	sym.Observe("blocks", len(blocksOf(1)), len(blocksOf(2)))
}
