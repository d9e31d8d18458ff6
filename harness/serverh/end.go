package serverh

import (
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/pion/rtp"
	pwebrtc "github.com/pion/webrtc/v3"
)

const stopText = `{"id":"stopRecording","recordingSessionId":"s1"}`

func (t *track) push(seq uint16) {
	if !t.isEnd {
		t.in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: seq}, Payload: []byte{1}}
	}
}

// count counts the messages of a kind.
func count(msgs []message, id string) int {
	n := 0
	for _, m := range msgs {
		if m["id"] == `"`+id {
			n++
		}
	}
	return n
}

// endedOnce checks what is left of a session after its end.
func endedOnce(gen int, mediasoup bool) {
	sym.Assert(env.recs[gen].closed == 1, "C04: the recording of an ended session is closed exactly once")
	if mediasoup {
		sym.Assert(env.peers[gen].closed >= 1, "C04: the media connection of an ended session is released")
		for _, t := range env.peers[gen].tracks {
			sym.Assert(t.ran, "C28: the tracks of an ended session are not stuck")
		}
	} else {
		sym.Assert(env.rooms[gen].closed == 1, "C04: the room of an ended session is left")
	}
	sym.Assert(env.recs[gen].late == 0, "C17: nothing is recorded after closing")
}

// CheckEnd ends sessions in any order of events, one settled before the next.
func CheckEnd() {
	reset()
	mediasoup := sym.Bool("mediasoup")
	adapter := 2
	if mediasoup {
		adapter = 1
	}
	start := func(name string) startMsg {
		m := startMsg{id: "s1", file: name, adapter: adapter, sdp: 1, lk: 3, offer: "x"}
		send(m.text())
		return m
	}
	tracks := func(p *peer) {
		if mediasoup {
			p.ice(pwebrtc.ICEConnectionStateConnected)
			p.track(pwebrtc.RTPCodecTypeAudio)
			p.track(pwebrtc.RTPCodecTypeVideo)
		}
		sym.Settle()
	}
	m := start("f0.webm")
	msgs := env.b.take()
	checkResponse(msgs, m, "/rec/f0.webm", true)
	gens, active := 1, true
	if mediasoup {
		tracks(env.peers[0])
	}
	n := sym.Param("K", 4)
	seq := uint16(100)
	for i := 0; i < n; i++ {
		ended, reason := false, ""
		var ended2 string // the other reason that may be reported
		event := 0
		if mediasoup {
			event = sym.Choose("event", 6)
		} else {
			event = sym.Choose("event", 2)
		}
		gen := 0
		if event > 1 {
			gen = gens - 1
			if gens > 1 && sym.Bool("old session") {
				gen = 0
			}
		}
		switch event {
		case 0:
			send(stopText)
			ended, reason = active, "stopped"
		case 1:
			m = start("f" + itoa(gens) + ".webm")
			sym.Settle()
			got := env.b.take()
			checkResponse(got, m, "/rec/f"+itoa(gens)+".webm", !active)
			if !active {
				sym.Cover("started again")
				gens++
				active = true
				if mediasoup {
					tracks(env.peers[gens-1])
				}
			}
		case 2: // reports of the ICE agent may be late
			state := pwebrtc.ICEConnectionState(sym.Int("state", int(pwebrtc.ICEConnectionStateNew), int(pwebrtc.ICEConnectionStateClosed)))
			sym.Assume(state != pwebrtc.ICEConnectionStateCompleted) // pion never reports it
			env.peers[gen].onICE(state)
			if state >= pwebrtc.ICEConnectionStateDisconnected {
				ended, reason = active && gen == gens-1, state.String()
				ended2 = "closed"
			}
		case 3, 4:
			t := env.peers[gen].tracks[event-3]
			if !t.isEnd {
				ended, reason = active && gen == gens-1, "closed"
			}
			t.end()
		case 5:
			seq++
			for _, t := range env.peers[gen].tracks {
				t.push(seq)
			}
			sym.Advance(time.Duration(sym.Choose("wait", 2)) * 120 * time.Millisecond)
		}
		sym.Settle()
		got := env.b.take()
		stopped := count(got, "recordingStopped")
		if ended {
			sym.Cover("ended by event " + itoa(event))
			sym.Assert(stopped == 1, "C04: exactly one recordingStopped is published for a session")
			if stopped == 1 {
				last := got[len(got)-1]
				sym.Assert(last["id"] == `"recordingStopped` && last["recordingSessionId"] == `"s1`, "C04: recordingStopped is the last message of its session")
				sym.Assert(last["reason"] == `"`+reason || ended2 != "" && last["reason"] == `"`+ended2, "C24: recordingStopped tells the reason")
			}
			active = false
		} else {
			sym.Assert(stopped == 0, "C04: nothing but the end of a session is reported as its end")
		}
		if event != 5 {
			sym.Assert(len(got) == stopped, "C04: nothing else is published")
		}
		if !active && !ended {
			sym.Assert(len(got) == 0, "C04: nothing is published about an ended session")
		}
		sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
		want := 0
		if active {
			want = 1
			sym.Assert(env.recs[gens-1].closed == 0, "C04: an active session is not closed")
		}
		sym.Assert(env.g.n == want, "C04: the active-session gauge is the number of active sessions")
		for g := 0; g < gens; g++ {
			if g < gens-1 || !active {
				endedOnce(g, mediasoup)
			}
		}
	}
}

// CheckEndRace lets several things end a session at the same time, also while it starts.
func CheckEndRace() {
	reset()
	preemptions := sym.Param("preemptions", 1)
	var p *peer
	early := sym.Bool("early")
	if early {
		sym.Schedules(preemptions)
		// the connection fails, or a track ends, while the start is being answered
		if sym.Bool("track ends early") {
			env.onLocal = func(x *peer) { x.track(pwebrtc.RTPCodecTypeVideo).end() }
		} else {
			env.onLocal = func(x *peer) { x.ice(pwebrtc.ICEConnectionStateFailed) }
		}
	}
	m := startMsg{id: "s1", file: "f.webm", adapter: 1, sdp: 1, offer: "x"}
	send(m.text())
	p = env.peers[0]
	env.onLocal = nil
	kind := sym.Choose("events", 5)
	n := 0
	if kind > 0 {
		p.track(pwebrtc.RTPCodecTypeAudio)
	}
	if !early {
		sym.Settle()
		sym.Schedules(preemptions)
	}
	if kind == 1 || kind == 2 {
		n++
		p.ice(pwebrtc.ICEConnectionStateFailed)
	}
	if kind == 2 || kind == 3 {
		n++
		p.tracks[0].end()
	}
	if kind == 4 {
		p.tracks[0].push(1)
	}
	if n == 0 || sym.Bool("stop") {
		send(stopText)
	}
	sym.Settle()
	got := env.b.take()
	sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
	sym.Assert(len(got) > 1 && got[0]["id"] == `"startRecordingResponse` && got[0]["status"] == `"ok`, "C02: the response precedes everything else about a session")
	sym.Assert(count(got, "startRecordingResponse") == 1, "C02: a start gets exactly one response")
	sym.Assert(count(got, "recordingStopped") == 1 && got[len(got)-1]["id"] == `"recordingStopped`, "C04: exactly one recordingStopped is published, as the last message of its session")
	sym.Assert(env.g.n == 0, "C04: the active-session gauge drops by exactly one")
	endedOnce(0, true)
	// the id can be used again
	sym.Schedules(0)
	m.file = "g.webm"
	send(m.text())
	sym.Settle()
	got = env.b.take()
	checkResponse(got, m, "/rec/g.webm", true)
	sym.Assert(env.g.n == 1 && env.recs[1].closed == 0, "C04: the id of an ended session can be used again")
}

// CheckRestartRace starts a session again while the one before it is ending.
func CheckRestartRace() {
	reset()
	m := startMsg{id: "s1", file: "f.webm", adapter: 1, sdp: 1, offer: "x"}
	send(m.text())
	p := env.peers[0]
	t := p.track(pwebrtc.RTPCodecTypeAudio)
	sym.Settle()
	env.b.take()
	sym.Schedules(sym.Param("preemptions", 1))
	if sym.Bool("track ends") {
		t.end()
	} else {
		p.ice(pwebrtc.ICEConnectionStateFailed)
	}
	m.file = "g.webm"
	send(m.text())
	sym.Settle()
	sym.Schedules(0)
	got := env.b.take()
	sym.Assert(count(got, "startRecordingResponse") == 1, "C02: a start gets exactly one response")
	sym.Assert(count(got, "recordingStopped") == 1 && len(got) == 2, "C04: exactly one recordingStopped is published for a session")
	endedOnce(0, true)
	for i, x := range got {
		if x["id"] != `"startRecordingResponse` {
			continue
		}
		if x["status"] == `"ok` {
			sym.Cover("started again")
			sym.Assert(i == 1, "C04: an id is not used again before its end was reported")
			sym.Assert(env.g.n == 1 && env.recs[1].closed == 0 && env.peers[1].closed == 0, "C04: late events of an ended session do not affect a newer one")
			send(stopText)
			sym.Settle()
			end := env.b.take()
			sym.Assert(len(end) == 1 && end[0]["id"] == `"recordingStopped` && end[0]["reason"] == `"stopped`, "C04: late events of an ended session do not affect a newer one")
			endedOnce(1, true)
		} else {
			sym.Cover("refused")
			sym.Assert(env.g.n == 0, "C04: the active-session gauge is the number of active sessions")
			m.file = "h.webm"
			send(m.text())
			checkResponse(env.b.take(), m, "/rec/h.webm", true)
		}
	}
	sym.Assert(len(env.recs) <= 2, "C04: nothing else is recorded")
}
