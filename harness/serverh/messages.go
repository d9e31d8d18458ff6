package serverh

import (
	"encoding/json"
	"strconv"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	pwebrtc "github.com/pion/webrtc/v3"
)

// upTo gives a string of up to n arbitrary bytes.
func upTo(name string, n int) string {
	return sym.String(name, sym.Choose("length of "+name, n+1))
}

// CheckValidate compares Validate and GetSDP with their description, for any request.
func CheckValidate() {
	e := &events.StartRecording{SessionId: "s", FileName: "f.webm"}
	switch sym.Choose("adapter", 4) {
	case 1:
		e.Adapter = events.AdapterType(sym.String("adapter", len("livekit")))
	case 2:
		e.Adapter = events.AdapterType(sym.String("adapter", len("mediasoup")))
	case 3:
		e.Adapter = events.AdapterType(sym.String("adapter", 1+sym.Choose("adapter length", 3)))
	}
	room, option, hasLK, hasMS := "", "", false, false
	tracks := 0
	if sym.Bool("options") {
		e.AdapterOptions = &events.AdapterOptions{}
		if hasLK = sym.Bool("livekit"); hasLK {
			room = upTo("room", 2)
			tracks = sym.Choose("tracks", 4)
			e.AdapterOptions.LiveKit = &events.LiveKitConfig{Room: room}
			if sym.Bool("list") {
				e.AdapterOptions.LiveKit.TrackIDs = []string{}
			}
			for i := 0; i < tracks; i++ {
				e.AdapterOptions.LiveKit.TrackIDs = append(e.AdapterOptions.LiveKit.TrackIDs, "t")
			}
		}
		if hasMS = sym.Bool("mediasoup"); hasMS {
			option = upTo("option", 2)
			e.AdapterOptions.Mediasoup = &events.MediasoupConfig{SDP: option}
		}
	}
	legacy := upTo("legacy", 2)
	e.SDP = legacy

	want := false
	switch e.Adapter {
	case "livekit":
		want = hasLK && len(room) > 0 && tracks > 0
	case "mediasoup", "":
		want = len(option) > 0 || len(legacy) > 0
	}
	err := e.Validate()
	sym.Assert((err == nil) == want, "C20: a request is valid exactly when it is complete")
	if want {
		sym.Cover("valid")
	} else {
		sym.Cover("invalid")
		sym.Assert(len(err.Error()) > 0, "C20: a rejection tells why")
	}
	sdp := legacy
	if len(option) > 0 {
		sdp = option
		sym.Cover("option")
	}
	sym.Assert(e.GetSDP() == sdp, "C20: the SDP of the adapter option is used when present, else the legacy one")
}

// num reads a decimal number; ok is false if it is none.
func num(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// only checks that a message has no other fields.
func only(m message, keys ...string) {
	n := 0
	for _, k := range keys {
		if _, ok := m[k]; ok {
			n++
		}
	}
	sym.Assert(n == len(m), "C24: a message has only its documented fields")
}

func checkStopped(m message, id, reason string, ms int64) {
	sym.Assert(m["id"] == `"recordingStopped` && m["recordingSessionId"] == `"`+id, "C24: recordingStopped carries the session id")
	sym.Assert(m["reason"] == `"`+reason, "C24: recordingStopped tells the reason")
	n, ok := num(m["timestampHR"])
	sym.Assert(ok && n == ms, "C24: recordingStopped carries the position in milliseconds")
	sym.Assert(len(m["timestampUTC"]) > 0, "C24: recordingStopped carries the time")
	only(m, "id", "recordingSessionId", "reason", "timestampHR", "timestampUTC")
}

func checkFlow(m message, id, status string, ms int64) {
	sym.Assert(m["id"] == `"recordingRtpStatusChanged` && m["recordingSessionId"] == `"`+id, "C24: recordingRtpStatusChanged carries the session id")
	sym.Assert(m["status"] == `"`+status, "C24: recordingRtpStatusChanged tells the status")
	n, ok := num(m["timestampHR"])
	sym.Assert(ok && n == ms, "C24: recordingRtpStatusChanged carries the position in milliseconds")
	sym.Assert(len(m["timestampUTC"]) > 0, "C24: recordingRtpStatusChanged carries the time")
	only(m, "id", "recordingSessionId", "status", "timestampHR", "timestampUTC")
}

func checkStatus(got []message) {
	sym.Assert(len(got) == 1, "C24: exactly one recorderStatus is published")
	if len(got) == 1 {
		m := got[0]
		sym.Assert(m["id"] == `"recorderStatus` && m["appVersion"] == `"v1.2` && m["instanceId"] == `"i-3`, "C24: recorderStatus carries version and instance")
		n, ok := num(m["timestamp"])
		sym.Assert(ok && n == time.Now().UnixMilli(), "C24: recorderStatus carries the time in milliseconds")
		only(m, "id", "appVersion", "instanceId", "timestamp")
	}
}

// CheckMessages checks the content of everything published over the life of a session.
func CheckMessages() {
	reset()
	sym.Assert(env.s.OnStart() == nil, "C24: the start succeeds")
	checkStatus(env.b.take())
	id := "s" + letter("id", "019azAZ-_ .:/'+=")
	m := startMsg{id: id, file: "f.webm", adapter: 1 + sym.Choose("adapter", 2), sdp: 1, lk: 3, offer: "x"}
	// ids that need escapes in JSON
	if x := sym.Choose("special", 6); x > 0 {
		m.id = []string{`a<b>&c`, `q\"\\`, `\u0001\n`, "é\u2028", `'`}[x-1]
		id = []string{"a<b>&c", "q\"\\", "\x01\n", "é\u2028", "'"}[x-1]
		sym.Cover("id with special characters")
	}
	send(m.text())
	text := m.id
	m.id = id
	got := env.b.take()
	checkResponse(got, m, "/rec/f.webm", true)
	only(got[0], "id", "recordingSessionId", "status", "sdp", "fileName")
	sym.Advance(time.Duration(sym.Choose("wait", 3)*700) * time.Millisecond)
	send(`{"id":"getRecorderStatus"}`)
	checkStatus(env.b.take())
	pos := time.Duration(sym.Int("position", 0, 3_999_999)) // ns
	if sym.Bool("long") {
		pos += 3 * time.Hour
	}
	env.videoTS, env.audioTS = pos, pos
	if m.adapter == 1 {
		p := env.peers[0]
		kind := pwebrtc.RTPCodecTypeAudio
		if sym.Bool("video") {
			kind = pwebrtc.RTPCodecTypeVideo
		}
		step := time.Duration(sym.Choose("step", 2)) * 33 * time.Millisecond
		env.step = step
		t := p.track(kind)
		sym.Settle()
		sym.Assert(len(env.b.take()) == 0, "C21: nothing is reported before there are packets")
		t.push(7)
		sym.Advance(100 * time.Millisecond)
		got = env.b.take()
		sym.Assert(len(got) == 1, "C21: flowing is reported once")
		checkFlow(got[0], id, "flowing", (pos + step).Milliseconds())
		if sym.Bool("silence") {
			sym.Cover("not flowing")
			sym.Advance(2 * time.Second)
			got = env.b.take()
			sym.Assert(len(got) == 1, "C21: not_flowing is reported once")
			checkFlow(got[0], id, "not_flowing", (pos + step).Milliseconds())
		}
		if sym.Bool("track ends") {
			t.end()
			sym.Settle()
			got = env.b.take()
			sym.Assert(len(got) == 1, "C04: exactly one recordingStopped is published for a session")
			checkStopped(got[0], id, "closed", (pos + step).Milliseconds())
			return
		}
	}
	env.videoTS = pos
	send(`{"id":"stopRecording","recordingSessionId":"` + text + `"}`)
	sym.Settle()
	got = env.b.take()
	sym.Assert(len(got) == 1, "C04: exactly one recordingStopped is published for a session")
	checkStopped(got[0], id, "stopped", pos.Milliseconds())
	sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
}

// CheckTime checks that times are numbers, as documented.
func CheckTime() {
	ts := time.Duration(sym.Int("position", 0, 50))
	var b []byte
	if sym.Bool("stopped") {
		b, _ = json.Marshal(events.NewRecordingStopped("s", "stopped", ts))
	} else {
		b, _ = json.Marshal(events.NewRecordingRtpStatusChanged("s", true, ts))
	}
	m, ok := parse(b)
	sym.Assert(ok, "C24: everything published is a JSON object")
	_, ok = num(m["timestampUTC"])
	sym.Assert(ok, "C24: timestampUTC is a number")
}
