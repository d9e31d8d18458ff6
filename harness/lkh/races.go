// Package lkh holds the harnesses for internal/webrtc/livekit with a real recorder.
package lkh

import (
	"context"
	"io"
	"time"
	_ "unsafe" // for linkname

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/recorderh"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	lk "github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/livekit"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/livekit/protocol/livekit"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/interceptor"
	"github.com/pion/rtp"
	pwebrtc "github.com/pion/webrtc/v3"
)

// track is a simulated remote track.
type track struct {
	tr    *pwebrtc.TrackRemote
	audio bool
	sid   string
	ssrc  uint32
	in    chan *rtp.Packet
	ended chan struct{}
	ran   chan struct{} // its handler has returned and a read failed
	pub   *lksdk.RemoteTrackPublication
	part  *lksdk.RemoteParticipant
	subs  int
}

var env struct {
	cb     *lksdk.RoomCallback
	tracks []*track
	closed bool
	left   chan *track // tracks whose reading ended
}

//go:linkname newParticipant github.com/livekit/server-sdk-go/v2.newRemoteParticipant
func newParticipant(pi *livekit.ParticipantInfo, cb *lksdk.RoomCallback, client *lksdk.SignalClient, w lksdk.PLIWriter) *lksdk.RemoteParticipant

//go:linkname findPublication github.com/livekit/server-sdk-go/v2.(*RemoteParticipant).getPublication
func findPublication(p *lksdk.RemoteParticipant, sid string) *lksdk.RemoteTrackPublication

//go:linkname setTrack github.com/livekit/server-sdk-go/v2.(*RemoteTrackPublication).setReceiverAndTrack
func setTrack(p *lksdk.RemoteTrackPublication, r *pwebrtc.RTPReceiver, t *pwebrtc.TrackRemote)

//verif:stub github.com/livekit/server-sdk-go/v2.ConnectToRoom
func connectToRoom(url string, info lksdk.ConnectInfo, callback *lksdk.RoomCallback, opts ...lksdk.ConnectOption) (*lksdk.Room, error) {
	env.cb = lksdk.NewRoomCallback()
	env.cb.Merge(callback)
	for i, t := range env.tracks {
		ti := &livekit.TrackInfo{Sid: t.sid, Type: livekit.TrackType_VIDEO}
		if t.audio {
			ti.Type = livekit.TrackType_AUDIO
		}
		t.part = newParticipant(&livekit.ParticipantInfo{Sid: string(rune('p' + i)), Identity: string(rune('p' + i)), Tracks: []*livekit.TrackInfo{ti}}, env.cb, nil, func(ssrc pwebrtc.SSRC) {})
		t.pub = findPublication(t.part, t.sid)
	}
	return &lksdk.Room{}, nil
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.Room).GetRemoteParticipants
func remoteParticipants(r *lksdk.Room) []*lksdk.RemoteParticipant {
	var ps []*lksdk.RemoteParticipant
	for _, t := range env.tracks {
		ps = append(ps, t.part)
	}
	return ps
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.Room).Disconnect
func disconnect(r *lksdk.Room) {
	if !env.closed {
		env.closed = true
		for _, t := range env.tracks {
			close(t.ended)
		}
	}
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.RemoteTrackPublication).SetSubscribed
func setSubscribed(p *lksdk.RemoteTrackPublication, on bool) error {
	for _, t := range env.tracks {
		if t.pub == p {
			setTrack(p, nil, t.tr)
			t := t
			go func() {
				env.cb.OnTrackSubscribed(t.tr, t.pub, t.part)
				t.ran <- struct{}{}
			}()
		}
	}
	return nil
}

func trackOf(t *pwebrtc.TrackRemote) *track {
	for _, x := range env.tracks {
		if x.tr == t {
			return x
		}
	}
	return &track{}
}

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).Codec
func trackCodec(tr *pwebrtc.TrackRemote) pwebrtc.RTPCodecParameters {
	c := pwebrtc.RTPCodecCapability{MimeType: pwebrtc.MimeTypeVP8, ClockRate: 90000}
	if trackOf(tr).audio {
		c = pwebrtc.RTPCodecCapability{MimeType: pwebrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}
	}
	return pwebrtc.RTPCodecParameters{RTPCodecCapability: c}
}

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).SSRC
func trackSSRC(t *pwebrtc.TrackRemote) pwebrtc.SSRC { return pwebrtc.SSRC(trackOf(t).ssrc) }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).ReadRTP
func trackRead(tr *pwebrtc.TrackRemote) (*rtp.Packet, interceptor.Attributes, error) {
	t := trackOf(tr)
	select {
	case p := <-t.in:
		return p, nil, nil
	case <-t.ended:
		env.left <- t
		return nil, nil, io.EOF
	}
}

// CheckLiveKitRaces runs everything a LiveKit recording does at the same time.
func CheckLiveKitRaces() {
	recorderh.Reset()
	env.closed = false
	env.tracks = nil
	kinds := sym.Choose("tracks", 3) // two videos, video and audio, audio and video
	for i := 0; i < 2; i++ {
		env.tracks = append(env.tracks, &track{tr: &pwebrtc.TrackRemote{}, audio: kinds == 2-i, sid: string(rune('a' + i)), ssrc: uint32(i), in: make(chan *rtp.Packet, 64), ended: make(chan struct{}), ran: make(chan struct{}, 4)})
	}
	env.left = make(chan *track, 8)
	r := recorder.NewWebmRecorder("/rec/a.webm", 0600, 8, 4, true, false)
	r.WithContext(context.Background())
	var m chan int = make(chan int, 64)
	w := lk.NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s1"), config.LiveKit{}, "room", []string{"a", "b"})
	w.SetFlowCallback(func(f bool, ts time.Duration, c bool) { m <- 1 })
	send := func(i int, seq uint16, key bool) {
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: seq, Timestamp: 3000 * uint32(seq), Marker: true}, Payload: []byte{0x10, 1, 0, 0, 0x9d, 1, 0x2a, 0x80, 2, 0xe0, 1, 0}}
		if key {
			p.Payload[1] = 0
		}
		env.tracks[i].in <- p
	}
	n := sym.Param("preemptions", 1)
	what := sym.Choose("scenario", 3)
	if what == 0 { // the start
		for i := range env.tracks {
			send(i, 1, false) // a key frame is needed
			send(i, 2, true)
		}
		sym.Schedules(n)
	}
	err := w.Init(r)
	sym.Assert(err == nil, "C27: a LiveKit recording starts")
	sym.Settle()
	if what == 1 { // key frames are requested by the recorder and periodically, the flow changes
		sym.Advance(2950 * time.Millisecond)
		sym.Schedules(n)
		for i := range env.tracks {
			send(i, 3, false)
		}
		sym.Advance(60 * time.Millisecond)
		for i := range env.tracks {
			send(i, 4, true)
		}
		sym.Settle()
	}
	if what == 2 { // the end
		for i := range env.tracks {
			send(i, 3, true)
		}
		sym.Settle()
		for i := range env.tracks {
			send(i, 4, i == 1)
		}
		sym.Schedules(n)
		go w.RequestKeyframe()
		go r.Close()
		go w.Close()
		sym.Settle()
	}
	sym.Schedules(0)
	w.Close()
	r.Close()
	sym.Settle()
	for range env.tracks {
		select {
		case <-env.left:
		default:
			sym.Assert(false, "C28: a LiveKit track that ended does not hang")
		}
	}
	sym.Advance(5 * time.Second)
	sym.Assert(sym.MutexBlocked() == 0, "C28: nobody hangs")
	sym.Cover("done")
}
