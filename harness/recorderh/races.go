package recorderh

import (
	"context"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

// CheckRecorderRaces uses a recorder from all the goroutines of a session.
func CheckRecorderRaces() {
	resetEnv()
	custom := sym.Choose("sampler", 2) == 1
	r := recorder.NewWebmRecorder("/rec/a.webm", 0600, 8, 4, custom, true)
	r.WithContext(context.Background())
	n := 0
	done := make(chan bool)
	run := func(f func()) {
		n++
		go func() {
			f()
			done <- true
		}()
	}
	// what is not part of the scenario came before
	rounds := sym.Param("rounds", 3)
	video := func() {
		r.SetHasVideo(true)
		r.SetKeyframeRequester(&requester{})
		for i := 0; i < rounds; i++ {
			// an interframe, a key frame that starts the writers, and one more
			data := []byte{0x10, 1, 0, 0, 0x9d, 1, 0x2a, 0x80, 2, 0xe0, 1, 0}
			if i == 1 {
				data[1] = 0
			}
			r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(10 + 2*i), Timestamp: uint32(3000 * i), Marker: true}, Payload: data})
			r.NotifySkippedPacket(uint16(11 + 2*i))
			r.VideoTimestamp()
		}
		r.GetHasVideo()
	}
	audio := func() {
		r.SetHasAudio(true)
		for i := 0; i < rounds; i++ {
			r.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(20 + i), Timestamp: uint32(960 * i), Marker: true}, Payload: []byte{1, 2}})
			r.NotifySkippedPacket(uint16(21 + i))
			r.AudioTimestamp()
		}
		r.GetHasAudio()
	}
	scenario := sym.Choose("scenario", 5)
	if scenario == 4 { // a recording under way
		r.SetHasAudio(true)
		r.SetHasVideo(true)
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: 5, Marker: true}, Payload: []byte{0x10, 0, 0, 0, 0x9d, 1, 0x2a, 0x80, 2, 0xe0, 1, 0}})
	}
	sym.Schedules(sym.Param("preemptions", 1))
	switch scenario {
	case 0: // both tracks
		run(video)
		run(audio)
	case 1: // video alone and the timers
		r.SetHasAudio(true)
		run(video)
		run(func() {
			r.VideoTimestamp()
			r.AudioTimestamp()
			r.GetFilePath()
		})
	case 2: // an end in between
		r.SetHasAudio(true)
		run(video)
		run(func() { r.Close() })
		run(func() { r.Close() })
	case 3:
		r.SetHasVideo(true)
		run(audio)
		run(func() { r.VideoTimestamp(); r.AudioTimestamp() })
		run(func() { r.Close() })
	case 4:
		run(audio)
		run(func() { r.VideoTimestamp(); r.AudioTimestamp() })
		run(func() { r.Close() })
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Schedules(0)
	sym.Assert(sym.MutexBlocked() == 0, "C28: nobody hangs")
	r.Close()
	sym.Cover("done")
}
