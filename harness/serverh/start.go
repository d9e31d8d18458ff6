package serverh

import (
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	pwebrtc "github.com/pion/webrtc/v3"
)

// startMsg is a startRecording command.
type startMsg struct {
	id, file string
	adapter  int // 0 none, 1 mediasoup, 2 livekit, 3 unknown
	sdp      int // 0 none, 1 options, 2 legacy, 3 both
	lk       int // 0 no options, 1 no room, 2 no tracks, 3 complete
	offer    string
}

func (s startMsg) text() string {
	t := `{"id":"startRecording","recordingSessionId":"` + s.id + `","fileName":"` + s.file + `"`
	switch s.adapter {
	case 1:
		t += `,"adapter":"mediasoup"`
	case 2:
		t += `,"adapter":"livekit"`
	case 3:
		t += `,"adapter":"other"`
	}
	if s.adapter == 2 {
		switch s.lk {
		case 1:
			t += `,"adapterOptions":{"livekit":{"trackIds":["t1"]}}`
		case 2:
			t += `,"adapterOptions":{"livekit":{"room":"r"}}`
		case 3:
			t += `,"adapterOptions":{"livekit":{"room":"r","trackIds":["t1"]}}`
		case 4:
			t += `,"adapterOptions":{"livekit":{"room":"r","trackIds":["t1","t2"]}}`
		}
	} else if s.sdp&1 != 0 {
		t += `,"adapterOptions":{"mediasoup":{"sdp":"n` + s.offer + `"}}`
	}
	if s.sdp&2 != 0 {
		t += `,"sdp":"o` + s.offer + `"`
	}
	return t + `}`
}

func (s startMsg) valid() bool {
	switch s.adapter {
	case 0, 1:
		return s.sdp != 0
	case 2:
		return s.lk >= 3
	}
	return false
}

// answer is the SDP answer a mediasoup start gets.
func (s startMsg) answer() string {
	switch {
	case s.adapter == 2:
		return ""
	case s.sdp&1 != 0:
		return "encoded answer to decoded n" + s.offer
	}
	return "encoded answer to decoded o" + s.offer
}

// checkResponse checks the response to a start.
func checkResponse(msgs []message, s startMsg, path string, ok bool) {
	sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
	sym.Assert(len(msgs) == 1, "C02: a start gets exactly one response and nothing else is published")
	if len(msgs) == 0 {
		return
	}
	m := msgs[0]
	sym.Assert(m["id"] == `"startRecordingResponse`, "C02: the answer to a start is a startRecordingResponse")
	sym.Assert(m["recordingSessionId"] == `"`+s.id, "C02: the response carries the session id of the start")
	_, hasErr := m["error"]
	_, hasSDP := m["sdp"]
	_, hasFile := m["fileName"]
	if ok {
		sym.Assert(m["status"] == `"ok`, "C02: the status is ok when the recording was set up")
		sym.Assert(!hasErr, "C02: a successful response has no error")
		sym.Assert(m["fileName"] == `"`+path, "C02: a successful response has the full path of the file")
		if s.adapter != 2 {
			sym.Assert(m["sdp"] == `"`+s.answer(), "C02: a successful response has the SDP answer")
		}
	} else {
		sym.Assert(m["status"] == `"failed`, "C02: the status is failed when the recording was not set up")
		sym.Assert(hasErr && m["error"] != `"`, "C02: a failed response has an error text")
		sym.Assert(!hasSDP && !hasFile, "C02: a failed response has neither SDP nor file")
	}
}

// letter gives a byte that is one of the given ones.
func letter(name, of string) string {
	b := sym.Bytes(name, 1)
	in := false
	for i := 0; i < len(of); i++ {
		in = sym.Or(in, b[0] == of[i])
	}
	sym.Assume(in)
	return string(b)
}

// resolve is where a file name leads to in the directory, and whether inside of it.
func resolve(name string) (string, bool) {
	var parts []string
	part := ""
	for i := 0; i <= len(name); i++ {
		if i < len(name) && name[i] != '/' {
			part += name[i : i+1]
			continue
		}
		switch {
		case part == "..":
			if len(parts) == 0 {
				return "", false
			}
			parts = parts[:len(parts)-1]
		case part != "" && part != ".":
			parts = append(parts, part)
		}
		part = ""
	}
	path := "/rec"
	for _, p := range parts {
		path += "/" + p
	}
	return path, len(parts) > 0
}

// CheckStart starts a recording, maybe next to another one, with anything failing.
func CheckStart() {
	reset()
	first := sym.Choose("first", 3) // none, mediasoup, livekit
	if first > 0 {
		m := startMsg{id: "s1", file: "a.webm", adapter: first, sdp: 1, lk: 3, offer: "x"}
		send(m.text())
		checkResponse(env.b.take(), m, "/rec/a.webm", true)
		sym.Assert(env.g.n == 1, "C04: a session counts once")
	}
	m := startMsg{id: "s" + letter("id", "12z"), offer: letter("offer", "xyz"), adapter: sym.Choose("adapter", 4)}
	if m.adapter == 2 {
		m.lk = sym.Choose("livekit", 4)
		env.lkFails = sym.Bool("connection fails")
	} else {
		m.sdp = sym.Choose("sdp", 4)
		env.stage = sym.Int("stage", 0, stages-1)
	}
	switch sym.Choose("name", 4) {
	case 0:
		m.file = letter("file", "abc") + ".webm"
	case 1:
		m.file = letter("file", "ab./") + letter("file2", "abc./") + ".webm"
	case 2:
		m.file = "a." + letter("file", "mw") + "ebm"
	}
	env.existing["/rec/c.webm"] = true
	env.cfg.Recorder.WriteIVFCopy = sym.Bool("ivf")
	// a connection that cannot be set up may report that first
	env.onNoLocal = func(x *peer) {
		x.ice(pwebrtc.ICEConnectionStateFailed)
		sym.Settle()
	}
	null := sym.Bool("null device")
	env.cfg.Recorder.WriteToDevNull = null
	peers, rooms, recs := len(env.peers), len(env.rooms), len(env.recs)
	send(m.text())
	msgs := env.b.take()
	env.onNoLocal = nil

	path, inside := resolve(m.file)
	ext := len(m.file) > 5 && m.file[len(m.file)-5:] == ".webm"
	exists := path == "/rec/c.webm"
	clash := first > 0 && path == "/rec/a.webm"
	running := first > 0 && m.id == "s1"
	ok := m.valid() && !running && ext && inside
	if null {
		path = "/dev/null"
		if !inside && ext {
			// nothing is recorded to the name: both are fine
			ok = len(msgs) == 1 && msgs[0]["status"] == `"ok`
		}
	} else {
		if clash && ok {
			sym.Cover("file in use")
			sym.Assert(len(msgs) == 1 && msgs[0]["status"] == `"failed`, "C06: a start to the file of an active session is refused")
			sym.Assert(len(env.peers) == peers && len(env.rooms) == rooms, "C06: a start to the file of an active session is refused before connecting")
		}
		if exists && ok {
			sym.Cover("existing file")
			sym.Assert(len(msgs) == 1 && msgs[0]["status"] == `"failed`, "C06: a start to an existing file is refused")
			sym.Assert(len(env.peers) == peers && len(env.rooms) == rooms, "C06: a start to an existing file is refused before connecting")
		}
		if !inside {
			sym.Cover("outside of the directory")
			sym.Assert(len(msgs) == 1 && msgs[0]["status"] == `"failed`, "C05: a start outside of the directory is refused")
		}
		ok = ok && !clash && !exists
	}
	ok = ok && env.stage == okay && !env.lkFails
	checkResponse(msgs, m, path, ok)
	base := 0
	if first > 0 {
		base = 1
	}
	if ok {
		sym.Cover("started")
		sym.Assert(env.g.n == base+1, "C04: a session counts once")
		sym.Assert(len(env.recs) == recs+1 && env.recs[recs].closed == 0, "C02: a started recording is not closed")
		sym.Settle()
		sym.Assert(len(env.b.take()) == 0, "C02: nothing else is published")
		return
	}
	sym.Cover("refused")
	sym.Settle()
	sym.Assert(len(env.b.take()) == 0, "C03: nothing is published about a failed start but its response")
	sym.Assert(env.g.n == base, "C03: a failed start does not change the session gauge")
	for _, p := range env.peers[peers:] {
		sym.Cover("connection released")
		sym.Assert(p.closed >= 1, "C03: a failed start closes its peer connection")
	}
	for _, r := range env.rooms[rooms:] {
		sym.Assert(r.closed >= 1, "C03: a failed start leaves its room")
	}
	for _, r := range env.recs[recs:] {
		sym.Assert(r.closed >= 1, "C03: a failed start closes its recorder")
	}
	// the running session is not disturbed
	if first > 0 {
		sym.Assert(env.recs[0].closed == 0, "C03: a failed start does not disturb a running session")
		if first == 1 {
			sym.Assert(env.peers[0].closed == 0, "C03: a failed start does not disturb a running session")
		} else {
			sym.Assert(env.rooms[0].closed == 0, "C03: a failed start does not disturb a running session")
		}
	}
	env.stage, env.lkFails = okay, false
	env.cfg.Recorder.WriteToDevNull = false
	if !running {
		// the session is not registered
		send(`{"id":"stopRecording","recordingSessionId":"` + m.id + `"}`)
		sym.Settle()
		sym.Assert(len(env.b.take()) == 0, "C03: a failed start leaves no session registered")
		again := startMsg{id: m.id, file: "d.webm", adapter: 1, sdp: 1, offer: "z"}
		send(again.text())
		msgs = env.b.take()
		sym.Assert(len(msgs) == 1 && msgs[0]["status"] == `"ok`, "C03: the id of a failed start can be started again")
	} else {
		sym.Cover("session exists")
		send(`{"id":"stopRecording","recordingSessionId":"s1"}`)
		sym.Settle()
		msgs = env.b.take()
		sym.Assert(len(msgs) == 1 && msgs[0]["id"] == `"recordingStopped`, "C03: the running session can be stopped")
		sym.Assert(env.recs[0].closed == 1, "C03: the running session can be stopped")
	}
}
