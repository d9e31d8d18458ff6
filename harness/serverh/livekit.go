package serverh

import (
	"context"
	"time"
	_ "unsafe" // for linkname

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	lk "github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/livekit"
	"github.com/livekit/protocol/livekit"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/rtp"
	pwebrtc "github.com/pion/webrtc/v3"
)

// pubd is a track published in a LiveKit room.
type pubd struct {
	sid    string
	audio  bool
	with   bool // published by the participant of the track before it
	owner  int
	pub    *lksdk.RemoteTrackPublication
	part   *lksdk.RemoteParticipant
	t      *track
	subs   int
	subbed bool // the room has it subscribed already
	muted  bool
	r      *room
}

// pli is a key frame request that was sent to a participant.
type pli struct {
	owner int
	ssrc  uint32
}

//go:linkname newParticipant github.com/livekit/server-sdk-go/v2.newRemoteParticipant
func newParticipant(pi *livekit.ParticipantInfo, cb *lksdk.RoomCallback, client *lksdk.SignalClient, w lksdk.PLIWriter) *lksdk.RemoteParticipant

//go:linkname updateParticipant github.com/livekit/server-sdk-go/v2.(*RemoteParticipant).updateInfo
func updateParticipant(p *lksdk.RemoteParticipant, pi *livekit.ParticipantInfo)

//go:linkname findPublication github.com/livekit/server-sdk-go/v2.(*RemoteParticipant).getPublication
func findPublication(p *lksdk.RemoteParticipant, sid string) *lksdk.RemoteTrackPublication

//go:linkname setTrack github.com/livekit/server-sdk-go/v2.(*RemoteTrackPublication).setReceiverAndTrack
func setTrack(p *lksdk.RemoteTrackPublication, r *pwebrtc.RTPReceiver, t *pwebrtc.TrackRemote)

func (x *pubd) info() *livekit.TrackInfo {
	if x.audio {
		return &livekit.TrackInfo{Sid: x.sid, Type: livekit.TrackType_AUDIO, Muted: x.muted}
	}
	return &livekit.TrackInfo{Sid: x.sid, Type: livekit.TrackType_VIDEO, Muted: x.muted}
}

// publish puts a track into a room.
func (r *room) publish(x *pubd) {
	kind := pwebrtc.RTPCodecTypeVideo
	if x.audio {
		kind = pwebrtc.RTPCodecTypeAudio
	}
	if x.with && len(r.pubs) > 0 {
		last := r.pubs[len(r.pubs)-1]
		x.owner, x.part = last.owner, last.part
		infos := []*livekit.TrackInfo{x.info()}
		for _, y := range r.pubs {
			if y.owner == x.owner {
				infos = append(infos, y.info())
			}
		}
		updateParticipant(x.part, &livekit.ParticipantInfo{Sid: "p" + itoa(x.owner), Identity: "i" + itoa(x.owner), Tracks: infos})
	} else {
		x.owner = len(r.parts)
		owner := x.owner
		x.part = newParticipant(&livekit.ParticipantInfo{Sid: "p" + itoa(owner), Identity: "i" + itoa(owner), Tracks: []*livekit.TrackInfo{x.info()}}, r.cb, nil,
			func(ssrc pwebrtc.SSRC) { env.plis = append(env.plis, pli{owner, uint32(ssrc)}) })
		r.parts = append(r.parts, x.part)
	}
	x.r = r
	x.pub = findPublication(x.part, x.sid)
	x.t = &track{tr: &pwebrtc.TrackRemote{}, kind: kind, ssrc: uint32(1000 + len(env.tracks)), in: make(chan *rtp.Packet, 64), ended: make(chan struct{})}
	env.tracks = append(env.tracks, x.t)
	r.pubs = append(r.pubs, x)
	if x.subbed {
		setTrack(x.pub, nil, x.t.tr)
	}
}

// start tells the recorder of the track's media.
func (x *pubd) start() {
	setTrack(x.pub, nil, x.t.tr)
	go x.r.cb.OnTrackSubscribed(x.t.tr, x.pub, x.part)
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.RemoteTrackPublication).SetSubscribed
func setSubscribed(p *lksdk.RemoteTrackPublication, on bool) error {
	env.subs++
	if env.subs == env.subFails {
		return errSim
	}
	for _, r := range env.rooms {
		for _, x := range r.pubs {
			if x.pub == p && on {
				x.subs++
				if env.onSub != nil {
					env.onSub(x)
				}
			}
		}
	}
	return nil
}

// media is a packet that is a frame.
func (x *pubd) media(seq uint16, ts uint32) {
	if !x.t.isEnd {
		x.t.in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: seq, Timestamp: ts, Marker: true}, Payload: []byte{0x10, 0x10}}
	}
}

// lkRig is a LiveKit connection with a recorder, without a server.
type lkRig struct {
	w     *lk.LiveKitWebRTC
	r     *room
	rec   *fakeRec
	flows []flow
}

func newLkRig(rec *fakeRec, ids []string) (*lkRig, error) {
	g := &lkRig{rec: rec}
	g.w = lk.NewLiveKitWebRTC(context.WithValue(ctx, "session", "s1"), config.LiveKit{}, "room", ids)
	g.w.SetFlowCallback(func(f bool, ts time.Duration, c bool) {
		g.flows = append(g.flows, flow{f, ts, c, sym.Now(), g.rec.videoTS + g.rec.audioTS})
	})
	err := g.w.Init(g.rec)
	if len(env.rooms) > 0 {
		g.r = env.rooms[0]
	}
	return g, err
}

// CheckLiveKit records from rooms with several tracks.
func CheckLiveKit() {
	reset()
	env.lkFails = sym.Bool("connection fails")
	env.subFails = sym.Choose("failing subscription", 4) // 0: none
	names := []string{"TR_a", "TR_b", "TR_c"}
	ids := []string{"TR_z"} // not published
	n := sym.Param("tracks", 3)
	asked := make([]bool, n)
	var wantAudio, wantVideo bool
	wanted := 0
	for i := 0; i < n; i++ {
		x := &pubd{sid: names[i], audio: sym.Bool("audio"), with: i > 0 && sym.Bool("same participant"), subbed: sym.Bool("subscribed"), muted: sym.Bool("muted")}
		asked[i] = sym.Bool("asked")
		if asked[i] {
			ids = append(ids, x.sid)
			wantAudio = wantAudio || x.audio
			wantVideo = wantVideo || !x.audio
			if !x.subbed {
				wanted++
			}
		}
		env.published = append(env.published, x)
	}
	eager := sym.Bool("media at once")
	env.onSub = func(x *pubd) {
		x.media(1, 0)
		x.start()
		if eager {
			sym.Settle()
		}
	}
	rec := &fakeRec{}
	rec.kinds = func() bool { return rec.hasAudio == wantAudio && rec.hasVideo == wantVideo }
	g, err := newLkRig(rec, ids)
	sym.Settle()
	if env.lkFails {
		sym.Assert(err != nil, "C27: a failed connection fails the start")
		sym.Cover("connection failed")
		return
	}
	sym.Assert(g.r.name == "room", "C27: the requested room is joined")
	failed := env.subFails > 0 && env.subFails <= wanted
	sym.Assert((err != nil) == failed, "C27: the start fails exactly when a subscription fails")
	var live []*pubd
	for i, x := range env.published {
		if !asked[i] || x.subbed {
			sym.Assert(x.subs == 0, "C27: only requested tracks are subscribed to")
		} else {
			sym.Assert(x.subs == 1 || failed && x.subs == 0, "C27: every requested track is subscribed to, once")
		}
		if x.subs > 0 {
			live = append(live, x)
		}
	}
	sym.Assert(!g.rec.early, "C27: the recorder knows which kinds of media are present before it gets any")
	if !failed {
		sym.Assert(g.rec.hasAudio == wantAudio && g.rec.hasVideo == wantVideo, "C27: the recorder is told which kinds of media are present")
		for _, x := range live {
			x.media(2, 900)
		}
		sym.Settle()
		for _, audio := range []bool{false, true} {
			want, got := 0, 0
			for _, x := range live {
				if x.audio == audio {
					want += 2
				}
			}
			for _, x := range g.rec.log {
				if x.audio == audio && x.p != nil {
					got++
				}
			}
			sym.Assert(want == got, "C27: the packets of a track reach the input of its kind")
		}
		if want := len(live) > 0; want {
			sym.Cover("recording")
		}
		video := 0
		for _, x := range live {
			if !x.audio {
				video++
			}
		}
		asksAll := func(what string) {
			for _, x := range live {
				if !x.audio {
					found := false
					for _, p := range env.plis {
						found = found || p.owner == x.owner && p.ssrc == x.t.ssrc
					}
					sym.Assert(found, what)
				}
			}
			env.plis = nil
		}
		if video > 0 {
			sym.Assert(g.rec.requester != nil, "C27: the recorder can request key frames of video")
		}
		if g.rec.requester != nil {
			env.plis = nil
			g.rec.requester.RequestKeyframe()
			asksAll("C27: key frame requests reach every video track that is recorded")
			sym.Cover("key frame requested")
		}
		env.plis = nil
		sym.Advance(3100 * time.Millisecond)
		asksAll("C27: key frames are requested periodically while a track is recorded")
	} else {
		sym.Cover("subscription failed")
	}
	g.w.Close()
	sym.Settle()
	sym.Assert(g.r.closed == 1, "C27: the room is left at the end")
	for _, x := range live {
		sym.Assert(x.t.fails == 1, "C28: a track that ended does not hang")
	}
	env.plis = nil
	sym.Advance(10 * time.Second)
	sym.Assert(len(env.plis) == 0, "C27: no key frames are requested after the end")
	sym.Cover("done")
}

// CheckLiveKitMedia feeds a LiveKit track K packets with losses, duplicates and
// reordering.
func CheckLiveKitMedia() {
	reset()
	k := sym.Param("K", 4)
	x := &pubd{sid: "TR_a", audio: sym.Bool("audio")}
	env.published = []*pubd{x}
	env.onSub = func(x *pubd) { x.start() }
	g, err := newLkRig(&fakeRec{}, []string{"TR_a"})
	sym.Assert(err == nil, "C27: a LiveKit recording starts")
	sym.Settle()
	base := sym.U16("start")
	// the stream that was sent: frames of one or more packets, with a pause
	stream := make([]*rtp.Packet, k+1)
	ts := uint32(0xfffff8f8) // wraps after two frames
	pause := sym.Choose("pause", 3)
	for i := range stream {
		first := i == 0 || x.audio || sym.Bool("new frame")
		if first {
			ts += 900
			if i == pause {
				ts += 90000
			}
		}
		stream[i] = &rtp.Packet{Header: rtp.Header{SequenceNumber: base + uint16(i), Timestamp: ts}, Payload: []byte{0, 0x10}}
		if first {
			stream[i].Payload[0] = 0x10
			if i > 0 {
				stream[i-1].Marker = true
			}
		}
	}
	offsets := map[*rtp.Packet]int{}
	order := true
	for i := 0; i < k; i++ {
		off := sym.Choose("offset", k+1)
		order = order && off == i
		p := *stream[off]
		offsets[&p] = off
		x.t.in <- &p
		sym.Settle()
	}
	last := -1
	for _, y := range g.rec.log {
		if y.p == nil {
			continue
		}
		off, ok := offsets[y.p]
		sym.Assert(ok, "C27: only received packets are recorded")
		sym.Assert(off > last, "C27: the packets of a track are recorded in order, without duplicates")
		sym.Assert(y.audio == x.audio, "C27: the packets of a track reach the input of its kind")
		last = off
	}
	if order && x.audio {
		sym.Cover("all in order")
		sym.Assert(len(g.rec.log) == k, "C27: nothing is lost of a track whose packets arrive in order")
	}
	g.w.Close()
	sym.Settle()
	sym.Cover("done")
}

// CheckLiveKitGarbage feeds a LiveKit track packets of any order, time and
// position within a frame, also contradictory ones.
func CheckLiveKitGarbage() {
	reset()
	k := sym.Param("K", 3)
	x := &pubd{sid: "TR_a", audio: sym.Bool("audio")}
	env.published = []*pubd{x}
	env.onSub = func(x *pubd) { x.start() }
	g, err := newLkRig(&fakeRec{}, []string{"TR_a"})
	sym.Assert(err == nil, "C27: a LiveKit recording starts")
	sym.Settle()
	base := sym.U16("start")
	ts := uint32(0xfffff000)
	for i := 0; i < k; i++ {
		off := uint16(0)
		if i > 0 {
			off = uint16(sym.Choose("offset", k+1))
			if off == uint16(k) {
				off = 4000 // far away
			}
			if sym.Bool("pause") {
				ts += 90000
			}
		}
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: base + off, Timestamp: ts}}
		if kind := sym.Choose("payload", 3); kind > 0 {
			p.Payload = []byte{byte(kind-1) << 4, 0x10}
			if !x.audio {
				p.Marker = sym.Bool("marker")
			}
		}
		x.t.in <- p
		sym.Settle()
	}
	g.w.Close()
	sym.Settle()
	sym.Assert(x.t.fails == 1, "C28: a track that ended does not hang")
	sym.Cover("done")
}

// CheckLiveKitFlow lets packets of a LiveKit track come and stay away.
func CheckLiveKitFlow() {
	const idle, busy = 100 * time.Millisecond, time.Second
	k := sym.Param("K", 3)
	many := sym.Param("many", 0)
	reset()
	x := &pubd{sid: "TR_a", audio: sym.Bool("audio")}
	env.published = []*pubd{x}
	env.onSub = func(x *pubd) { x.start() }
	g, err := newLkRig(&fakeRec{}, []string{"TR_a"})
	sym.Assert(err == nil, "C27: a LiveKit recording starts")
	sym.Settle()
	seq := uint16(65400)
	if many == 0 {
		seq = sym.U16("start")
	}
	ts := uint32(0xfffff000)
	sym.Advance(7 * time.Millisecond)
	seen := 0
	flowing, ended := false, false
	var since time.Duration // of the first packet recorded while not flowing
	look := func() {
		now := sym.Now()
		for ; seen < len(g.flows); seen++ {
			f := g.flows[seen]
			sym.Assert(f.flowing != flowing, "C31: flow reports alternate, starting with flowing")
			sym.Assert(!f.closed, "C31: a LiveKit track does not end the session")
			sym.Assert(f.ts == f.pos, "C31: flow reports carry the position of the recording")
			recent := false
			period := idle
			if flowing {
				period = busy
			}
			for _, y := range g.rec.log {
				recent = recent || y.p != nil && y.at <= f.at && y.at > f.at-period
			}
			if f.flowing {
				sym.Cover("flowing")
				sym.Assert(recent, "C31: flowing is only reported when packets were recorded")
			} else {
				sym.Cover("not flowing")
				sym.Assert(!recent || ended, "C31: not_flowing is only reported after a period without packets")
			}
			flowing = f.flowing
			since = f.at
		}
		last := time.Duration(-1)
		first := time.Duration(-1) // recorded since the last report
		for _, y := range g.rec.log {
			if y.p != nil {
				last = y.at
				if y.at > since && first < 0 {
					first = y.at
				}
			}
		}
		if flowing {
			sym.Assert(now-last < 2*busy, "C31: not_flowing is reported once a period passes without packets")
		} else if first >= 0 && !ended {
			sym.Assert(now-first < idle, "C31: flowing is reported within a period of packets being recorded")
		}
	}
	waits := []time.Duration{30 * time.Millisecond, 110 * time.Millisecond, 1010 * time.Millisecond, 2010 * time.Millisecond}
	sent := 0
	for i := 0; i < k; i++ {
		n := sym.Choose("packets", 2)
		if many > 0 && n == 1 && sym.Bool("many") {
			n = many
		}
		sent += n
		for ; n > 0; n-- {
			x.media(seq, ts)
			seq++
			ts += 900
		}
		sym.Settle()
		look()
		sym.Advance(waits[sym.Choose("time", len(waits))])
		look()
	}
	sym.Assert(len(g.rec.log) == sent, "C27: nothing is lost of a track whose packets arrive in order")
	x.t.end()
	sym.Settle()
	ended = true
	look()
	sym.Assert(!flowing, "C31: a track that ended does not flow")
	n := len(g.flows)
	sym.Advance(5 * time.Second)
	sym.Assert(len(g.flows) == n, "C31: no report follows the end of the track")
	g.w.Close()
	sym.Settle()
	sym.Cover("done")
}

// lkSession starts a LiveKit recording of the tracks t1 and maybe t2, whose
// media may arrive at once.
func lkSession(tracks int) (startMsg, []*pubd) {
	m := startMsg{id: "s1", file: "f.webm", adapter: 2, lk: 3 + tracks - 1}
	var pubs []*pubd
	for i := 0; i < tracks; i++ {
		pubs = append(pubs, &pubd{sid: "t" + itoa(i+1), audio: i == 0})
	}
	env.published = pubs
	seq := uint16(0)
	eager := sym.Bool("media at once")
	env.onSub = func(x *pubd) {
		x.start()
		if eager {
			for i := 0; i < 3; i++ {
				seq++
				x.media(seq, uint32(seq)*900)
			}
			sym.Settle()
		}
	}
	return m, pubs
}

// CheckLiveKitSession goes through a LiveKit session of the server.
func CheckLiveKitSession() {
	reset()
	tracks := 1 + sym.Choose("more tracks", 2)
	env.subFails = sym.Choose("failing subscription", tracks+1)
	m, pubs := lkSession(tracks)
	send(m.text())
	got := env.b.take()
	if env.subFails > 0 {
		sym.Cover("failed")
		checkResponse(got, m, "", false)
		sym.Settle()
		sym.Advance(3 * time.Second)
		sym.Assert(len(env.b.take()) == 0, "C03: nothing is published about a failed start but its response")
		sym.Assert(env.g.n == 0 && env.rooms[0].closed == 1, "C03: a failed start leaves its room")
		sym.Assert(env.recs[0].closed == 1, "C03: a failed start closes its recorder")
		env.subFails, env.published, env.onSub = 0, nil, nil
		send(stopText)
		sym.Assert(len(env.b.take()) == 0, "C03: a failed start leaves no session registered")
		m.file = "g.webm"
		send(m.text())
		checkResponse(env.b.take(), m, "/rec/g.webm", true)
		return
	}
	sym.Assert(len(got) > 0 && got[0]["id"] == `"startRecordingResponse`, "C02: the response precedes everything else about a session")
	checkResponse(got[:1], m, "/rec/f.webm", true)
	got = got[1:]
	flowing := make([]bool, 1)
	look := func(got []message) {
		for _, x := range got {
			sym.Assert(x["id"] == `"recordingRtpStatusChanged` && x["recordingSessionId"] == `"s1`, "C04: nothing else is published")
			sym.Assert(x["status"] == `"flowing` || x["status"] == `"not_flowing`, "C24: the status is flowing or not_flowing")
			flowing[0] = x["status"] == `"flowing`
		}
	}
	look(got)
	stopped := false
	for i := 0; i < sym.Param("K", 2); i++ {
		x := pubs[0]
		if tracks > 1 && sym.Bool("other track") {
			x = pubs[1]
		}
		switch sym.Choose("event", 4) {
		case 0:
			x.media(uint16(100+i), uint32(100+i)*900)
		case 1:
			x.t.end()
		case 2:
			sym.Advance(2100 * time.Millisecond)
		case 3:
			send(stopText)
			sym.Settle()
			got = env.b.take()
			if stopped {
				sym.Assert(len(got) == 0, "C04: nothing is published about an ended session")
			} else {
				n := len(got)
				sym.Assert(count(got, "recordingStopped") == 1 && got[n-1]["id"] == `"recordingStopped` && got[n-1]["reason"] == `"stopped`, "C04: exactly one recordingStopped is published, as the last message of its session")
				look(got[:n-1])
				stopped = true
				sym.Cover("stopped")
			}
		}
		sym.Settle()
		got = env.b.take()
		sym.Assert(!stopped || len(got) == 0, "C04: nothing is published about an ended session")
		look(got)
		if stopped {
			sym.Assert(env.g.n == 0, "C04: the active-session gauge is the number of active sessions")
			endedOnce(0, false)
		} else {
			sym.Assert(env.g.n == 1 && env.recs[0].closed == 0 && env.rooms[0].closed == 0, "C04: an active session is not closed")
		}
	}
	sym.Advance(3 * time.Second)
	got = env.b.take()
	sym.Assert(!stopped || len(got) == 0, "C04: nothing is published about an ended session")
	look(got)
	sym.Cover("done")
}

// CheckLiveKitEndRace stops a LiveKit session while its tracks start, deliver
// media and end.
func CheckLiveKitEndRace() {
	reset()
	m, pubs := lkSession(2)
	early := sym.Bool("early")
	if early {
		sym.Schedules(sym.Param("preemptions", 1))
	}
	send(m.text())
	if !early {
		sym.Settle()
		sym.Schedules(sym.Param("preemptions", 1))
	}
	pubs[1].media(200, 90000)
	switch sym.Choose("event", 3) {
	case 0:
		pubs[0].t.end()
	case 1:
		pubs[0].media(200, 90000)
	}
	send(stopText)
	sym.Settle()
	sym.Schedules(0)
	got := env.b.take()
	sym.Assert(len(got) > 1 && got[0]["id"] == `"startRecordingResponse` && got[0]["status"] == `"ok`, "C02: the response precedes everything else about a session")
	sym.Assert(count(got, "startRecordingResponse") == 1, "C02: a start gets exactly one response")
	sym.Assert(count(got, "recordingStopped") == 1 && got[len(got)-1]["id"] == `"recordingStopped`, "C04: exactly one recordingStopped is published, as the last message of its session")
	sym.Assert(env.g.n == 0, "C04: the active-session gauge drops by exactly one")
	endedOnce(0, false)
	for _, x := range pubs {
		sym.Assert(x.t.fails == 1, "C28: a track that ended does not hang")
	}
	sym.Advance(3 * time.Second)
	sym.Assert(len(env.b.take()) == 0, "C04: nothing is published about an ended session")
}
