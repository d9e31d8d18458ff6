package serverh

import "github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"

// withSession starts a session.
func withSession(id string) {
	reset()
	sid = id
	m := startMsg{id: id, file: "a.webm", adapter: 1, sdp: 1, offer: "x"}
	send(m.text())
	got := env.b.take()
	if id != "" {
		checkResponse(got, m, "/rec/a.webm", true)
	} else {
		sym.Assert(len(got) == 1 && got[0]["id"] == `"startRecordingResponse`, "C02: a start gets exactly one response and nothing else is published")
	}
}

// sid is the id of that session.
var sid string

// untouched checks that only the session is there, and that it is alive.
func untouched() {
	sym.Settle()
	sym.Assert(len(env.b.take()) == 0, "C01: a message that is no well-typed command publishes nothing")
	sym.Assert(env.g.n == 1 && len(env.recs) == 1 && env.recs[0].closed == 0, "C01: a message that is no well-typed command leaves sessions alone")
	sym.Assert(len(env.peers) == 1 && env.peers[0].closed == 0 && len(env.rooms) == 0, "C01: a message that is no well-typed command leaves sessions alone")
	alive()
}

// alive checks that commands are still handled.
func alive() {
	send(`{"id":"stopRecording","recordingSessionId":"` + sid + `"}`)
	sym.Settle()
	got := env.b.take()
	sym.Assert(len(got) == 1 && got[0]["id"] == `"recordingStopped`, "C01: the session can still be stopped")
}

// CheckGarbage handles a message with arbitrary bytes at some place.
func CheckGarbage() {
	withSession("s1")
	n := sym.Param("N", 3)
	switch sym.Choose("place", 8) {
	case 0: // the message
		n = sym.Choose("length", n+1)
		env.s.HandlePubSub(ctx, sym.Bytes("text", n))
		untouched()
	case 1: // the id
		send(`{"id":` + sym.String("text", n) + `}`)
		untouched()
	case 2: // within the id
		c := sym.Bytes("letter", 1)
		send(`{"id":"getRecorderStat` + string(c) + `s"}`)
		if c[0] == 'u' {
			sym.Cover("command")
			got := env.b.take()
			sym.Assert(len(got) == 1 && got[0]["id"] == `"recorderStatus`, "C24: a status request is answered with one recorderStatus")
			alive()
		} else {
			untouched()
		}
	case 3: // the key of the id
		c := sym.Bytes("letter", 1)
		send(`{"i` + string(c) + `":"getRecorderStatus"}`)
		if c[0] == 'd' {
			sym.Assert(len(env.b.take()) == 1, "C24: a status request is answered with one recorderStatus")
			alive()
		} else {
			untouched()
		}
	case 4: // the session of a stop
		c := sym.Bytes("text", 2)
		send(`{"id":"stopRecording","recordingSessionId":"` + string(c) + `"}`)
		if c[0] == 's' && c[1] == '1' {
			sym.Cover("stopped")
			sym.Settle()
			got := env.b.take()
			sym.Assert(len(got) == 1 && got[0]["id"] == `"recordingStopped`, "C04: exactly one recordingStopped is published for a session")
		} else {
			untouched()
		}
	case 5: // after a command
		c := sym.Bytes("text", n)
		send(`{"id":"getRecorderStatus"}` + string(c))
		got := env.b.take()
		sym.Assert(len(got) <= 1, "C24: a status request is answered with one recorderStatus")
		space := true
		for _, x := range c {
			space = sym.And(space, sym.Or(x == ' ', x == '\n', x == '\t', x == '\r'))
		}
		if space {
			sym.Assert(len(got) == 1, "C24: a status request is answered with one recorderStatus")
		}
		if n > 0 && c[0] >= '0' && c[0] <= '}' {
			sym.Assert(len(got) == 0, "C01: a message that is no well-typed command publishes nothing")
		}
		alive()
	case 6: // the options of a start
		send(`{"id":"startRecording","recordingSessionId":"s2","fileName":"b.webm","adapter":"livekit","adapterOptions":{"livekit":` + sym.String("text", n) + `}}`)
		got := env.b.take()
		sym.Assert(len(got) == 0 || len(got) == 1 && got[0]["status"] == `"failed`, "C01: incomplete options start nothing")
		sym.Assert(env.g.n == 1 && len(env.rooms) == 0, "C01: a message that is no well-typed command leaves sessions alone")
		alive()
	case 7: // within a string
		c := sym.Bytes("text", 2)
		send(`{"id":"startRecording","recordingSessionId":"s1` + string(c) + `","sdp":"x","fileName":"b.webm"}`)
		got := env.b.take()
		sym.Assert(len(got) <= 1, "C02: a start gets exactly one response and nothing else is published")
		if c[0] >= 'a' && c[0] <= 'z' && c[1] >= 'a' && c[1] <= 'z' {
			sym.Assert(len(got) == 1 && got[0]["status"] == `"ok` && got[0]["recordingSessionId"] == `"s1`+string(c), "C02: the response carries the session id of the start")
			sym.Assert(env.g.n == 2, "C04: a session counts once")
		}
		send(stopText)
		sym.Settle()
		stopped := env.b.take()
		sym.Assert(len(stopped) == 1 && stopped[0]["id"] == `"recordingStopped` && stopped[0]["recordingSessionId"] == `"s1`, "C01: the session can still be stopped")
	}
	sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
}

// Types of a JSON5 value.
const (
	tString = 1 << iota
	tNumber
	tBool
	tArray
	tObject
	tNull
)

var values = []struct {
	text string
	typ  int
}{
	{``, tNull}, // absent
	{`null`, tNull},
	{`"b"`, tString},
	{`'b'`, tString},
	{`""`, tString},
	{`"\u0000\uD800é"`, tString},
	{`7`, tNumber},
	{`-1.5e3`, tNumber},
	{`1e999`, tNumber},
	{`0x1F`, tNumber},
	{`NaN`, tNumber},
	{`-Infinity`, tNumber},
	{`true`, tBool},
	{`[]`, tArray},
	{`["t",]`, tArray},
	{`[7]`, tArray},
	{`[[[null]]]`, tArray},
	{`{}`, tObject},
	{`{x:{}}`, tObject},
}

// CheckTyped handles commands with one or two of their fields replaced.
func CheckTyped() {
	withSession([]string{"s1", ""}[sym.Choose("session", 2)])
	kind := sym.Choose("command", 9)
	names := []string{"startRecording", "startRecording", "stopRecording", "getRecorderStatus", "startRecordingResponse", "recordingRtpStatusChanged", "unknown", "recorderStatus", "recordingStopped"}
	fields := []string{"id", "recordingSessionId", "fileName", "adapter", "adapterOptions", "sdp", "error"}
	vals := []string{`"` + names[kind] + `"`, `"s2"`, `"b.webm"`, `"mediasoup"`, `{"mediasoup":{"sdp":"x"}}`, `"x"`, ``}
	inner := []string{"livekit", "room", "trackIds", "mediasoup", "sdp"}
	innerVals := []string{`{"room":"r","trackIds":["t"]}`, `"r"`, `["t"]`, `{"sdp":"x"}`, `"x"`}
	typed, idOK := true, true
	n := sym.Param("fields", 1)
	for i := 0; i < n; i++ {
		v := sym.Choose("value", len(values))
		f := sym.Choose("field", len(fields)+len(inner))
		if f < len(fields) {
			vals[f] = values[v].text
			want := tString | tNull
			if f == 4 {
				want = tObject | tNull
			}
			if f == 0 {
				idOK = false
				vals[1] = `"` + sid + `"`
			}
			if values[v].typ&want == 0 {
				// fields the command does not have may be anything
				if kind < 2 && f != 6 || kind == 2 && f < 2 || f == 0 {
					typed = false
				}
			}
			continue
		}
		f -= len(fields)
		innerVals[f] = values[v].text
		member := func(k string, v string) string {
			if v == "" {
				return ""
			}
			return `"` + k + `":` + v
		}
		join := func(a, b string) string {
			if a == "" || b == "" {
				return a + b
			}
			return a + "," + b
		}
		lk := innerVals[0]
		if f == 1 || f == 2 {
			lk = "{" + join(member("room", innerVals[1]), member("trackIds", innerVals[2])) + "}"
		}
		ms := innerVals[3]
		if f == 4 {
			ms = "{" + member("sdp", innerVals[4]) + "}"
		}
		vals[4] = "{" + join(member("livekit", lk), member("mediasoup", ms)) + "}"
		want := tString | tNull
		switch f {
		case 0, 3:
			want = tObject | tNull
		case 2:
			want = tArray | tNull
		}
		if kind < 2 && (values[v].typ&want == 0 || f == 2 && v >= 15 && v <= 16) {
			typed = false
		}
	}
	if kind == 1 && vals[3] == `"mediasoup"` {
		vals[3] = `"livekit"`
	}
	text := ""
	for i, v := range vals {
		if v != "" {
			if text != "" {
				text += ","
			}
			text += `"` + fields[i] + `":` + v
		}
	}
	if kind > 6 { // what recorders publish
		text += `,"appVersion":"v1.2","instanceId":"i-3","timestamp":5,"reason":"stopped","timestampHR":5`
	}
	send("{" + text + "}")
	if !typed || !idOK || kind > 3 {
		sym.Cover("no command")
		untouched()
		return
	}
	sym.Settle()
	got := env.b.take()
	switch kind {
	case 0, 1:
		sym.Cover("start")
		if sid == "" && len(got) == 1 && got[0]["recordingSessionId"] == "" {
			sym.Assert(got[0]["status"] == `"failed`, "C02: an id in use is refused")
		}
		sym.Assert(len(got) == 1 && got[0]["id"] == `"startRecordingResponse`, "C02: a start gets exactly one response and nothing else is published")
	case 2:
		if sid == "" && vals[1] != `"s2"` && vals[1] != `"b"` && vals[1] != `'b'` && vals[1] != `"\u0000\uD800é"` {
			sym.Cover("session without an id")
			sym.Assert(len(got) == 1 && got[0]["id"] == `"recordingStopped`, "C04: exactly one recordingStopped is published for a session")
			return
		}
		sym.Assert(len(got) == 0, "C01: stopping an unknown session publishes nothing")
	case 3:
		sym.Assert(len(got) == 1 && got[0]["id"] == `"recorderStatus`, "C24: a status request is answered with one recorderStatus")
	}
	sym.Assert(env.b.bad == 0, "C24: everything published is a JSON object on the publish channel")
	sym.Assert(env.recs[0].closed == 0 && env.peers[0].closed == 0, "C01: a command leaves other sessions alone")
	alive()
}
