// Package httph holds the harness for the HTTP server of internal/server.
package httph

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/google/uuid"
)

var env struct {
	handlers  map[string]func(http.ResponseWriter, *http.Request)
	uuids     byte
	b         *bus
	listening chan struct{}
}

//verif:stub net/http.HandleFunc
func handleFunc(pattern string, handler func(http.ResponseWriter, *http.Request)) {
	env.handlers[pattern] = handler
}

//verif:stub net/http.Handle
func handle(pattern string, handler http.Handler) {}

//verif:stub net/http.ListenAndServe
func listenAndServe(addr string, handler http.Handler) error {
	close(env.listening)
	select {}
}

//verif:stub github.com/google/uuid.NewRandom
func newRandom() (uuid.UUID, error) {
	env.uuids++
	return uuid.UUID{env.uuids}, nil
}

// bus stands in for the message broker.
type bus struct {
	handler   pubsub.PubSubHandler
	commands  []*events.StartRecording
	bad       int
	onCommand func(e *events.StartRecording)
}

func (b *bus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {
	if channel != "from" {
		b.bad++
	}
	b.handler = handler
	onStart()
}

func (b *bus) Publish(channel string, msg []byte) {
	e := events.Decode(msg)
	if channel != "to" || !e.IsValid() || e.StartRecording() == nil {
		b.bad++
		return
	}
	c := e.StartRecording()
	b.commands = append(b.commands, c)
	if b.onCommand != nil {
		b.onCommand(c)
	}
}

// request is a request and the answer to it.
type request struct {
	header http.Header
	status int
	body   bytes.Buffer
	done   bool
	cancel context.CancelFunc
	sdp    string
	// what was sent on the channel
	session string
	answer  string
	failed  bool
	decided bool
	gone    bool
}

func (r *request) Header() http.Header         { return r.header }
func (r *request) Write(b []byte) (int, error) { return r.body.Write(b) }
func (r *request) WriteHeader(status int)      { r.status = status }

// post sends an offer.
func post(method, sdp string) *request {
	r := &request{header: http.Header{}, status: 200, sdp: sdp}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	q := (&http.Request{Method: method, Body: io.NopCloser(strings.NewReader(sdp))}).WithContext(ctx)
	go func() {
		<-env.listening
		env.handlers["/sdp"](r, q)
		r.done = true
	}()
	return r
}

func letter(name, of string) string {
	b := sym.Bytes(name, 1)
	in := false
	for i := 0; i < len(of); i++ {
		in = sym.Or(in, b[0] == of[i])
	}
	sym.Assume(in)
	return string(b)
}

func serve() {
	env.handlers = map[string]func(http.ResponseWriter, *http.Request){}
	env.uuids = 0
	env.listening = make(chan struct{})
	env.b = &bus{}
	cfg := &config.Config{}
	cfg.PubSub.Channels = config.Channels{Subscribe: "to", Publish: "from"}
	cfg.Recorder.Directory = "/rec"
	server.NewHTTPServer(cfg, env.b).Serve()
	sym.Settle()
}

// text is a response on the channel.
func text(session, rest string) []byte {
	return []byte(`{"id":"startRecordingResponse","recordingSessionId":"` + session + `"` + rest + `}`)
}

func (r *request) check() {
	if r.gone {
		return
	}
	if !r.decided {
		sym.Assert(!r.done, "C29: a request is answered once the session of that request is")
		return
	}
	sym.Assert(r.done, "C29: a request is answered when its session is")
	if r.failed {
		sym.Cover("failed")
		sym.Assert(r.status >= 400, "C29: a failed start is an error")
	} else {
		sym.Cover("answered")
		sym.Assert(r.status == 200 && r.body.String() == r.answer, "C29: a request is answered with the SDP answer for its session")
	}
}

// CheckHTTP sends requests, answers and other messages in any order.
func CheckHTTP() {
	serve()
	sym.Assert(env.b.handler != nil && env.handlers["/sdp"] != nil, "C29: the server listens")
	var reqs []*request
	deliver := func(msg []byte) {
		handled := false
		go func() {
			env.b.handler(context.Background(), msg)
			handled = true
		}()
		sym.Settle()
		sym.Assert(handled, "C29: messages are handled without waiting for anyone")
	}
	for i := 0; i < sym.Param("K", 4); i++ {
		switch sym.Choose("event", 4) {
		case 0:
			n := len(env.b.commands)
			r := post("POST", "v=0%"+letter("sdp", "ds%"))
			sym.Settle()
			sym.Assert(len(env.b.commands) == n+1 && env.b.bad == 0, "C29: an offer becomes one startRecording command")
			if len(env.b.commands) != n+1 {
				return
			}
			c := env.b.commands[n]
			sym.Assert(c.Validate() == nil && c.GetSDP() == r.sdp, "C29: the command has the offer")
			sym.Assert(c.SessionId != "" && c.FileName != "", "C29: the command has a session id and a file name")
			for _, other := range env.b.commands[:n] {
				sym.Assert(c.SessionId != other.SessionId, "C29: every request has its own session id")
				sym.Assert(c.FileName != other.FileName, "C29: every request has its own file")
			}
			r.session = c.SessionId
			reqs = append(reqs, r)
		case 1:
			if len(reqs) == 0 {
				continue
			}
			r := reqs[sym.Choose("request", len(reqs))]
			answer := "a%" + letter("answer", "ds%")
			kind := sym.Choose("response", 3)
			if !r.decided {
				r.decided, r.failed, r.answer = true, kind > 0, answer
			}
			switch kind {
			case 0:
				deliver(text(r.session, `,"status":"ok","fileName":"f","sdp":"`+answer+`"`))
			case 1:
				deliver(text(r.session, `,"status":"failed","error":"e%s"`))
			case 2:
				deliver(text(r.session, `,"status":"ok","fileName":"f"`))
			}
		case 2:
			sym.Cover("other messages")
			switch sym.Choose("message", 7) {
			case 0:
				deliver(text("other", `,"status":"ok","fileName":"f","sdp":"b"`))
			case 1:
				deliver(text("other", `,"status":"failed","error":"e"`))
			case 2:
				deliver([]byte(`{"id":"startRecordingResponse","sdp":"b"}`))
			case 3:
				deliver([]byte(`{"id":"recordingStopped","recordingSessionId":"other","sdp":"b"}`))
			case 4:
				deliver([]byte(`[1`))
			case 5:
				deliver([]byte(`{"id":"startRecordingResponse","recordingSessionId":1,"sdp":{}}`))
			case 6:
				if len(reqs) > 0 {
					deliver([]byte(`{"id":"recordingRtpStatusChanged","recordingSessionId":"` + reqs[0].session + `","sdp":"b"}`))
				}
			}
		case 3:
			n := len(env.b.commands)
			r := post([]string{"GET", "POST", "PUT"}[sym.Choose("method", 3)], "")
			sym.Settle()
			sym.Assert(r.done && r.status >= 400 && len(env.b.commands) == n, "C29: anything but an offer is refused")
		}
		for _, r := range reqs {
			r.check()
		}
	}
	sym.Cover("done")
}

// CheckHTTPAtOnce answers requests at the same time as others are made.
func CheckHTTPAtOnce() {
	serve()
	sym.Schedules(sym.Param("preemptions", 1))
	env.b.onCommand = func(c *events.StartRecording) {
		h := func(msg []byte) { env.b.handler(context.Background(), msg) }
		go h(text(c.SessionId, `,"status":"ok","fileName":"f","sdp":"answer to `+c.GetSDP()+`"`))
	}
	r1 := post("POST", "one")
	r2 := post("POST", "two")
	env.b.handler(context.Background(), text("other", `,"status":"ok","fileName":"f","sdp":"b"`))
	if sym.Bool("gives up") {
		r2.cancel()
		r2.gone = true
	}
	sym.Settle()
	sym.Schedules(0)
	sym.Assert(r1.done && r1.status == 200 && r1.body.String() == "answer to one", "C29: a request is answered with the SDP answer for its session")
	sym.Assert(r2.gone || r2.done && r2.status == 200 && r2.body.String() == "answer to two", "C29: a request is answered with the SDP answer for its session")
}

// CheckHTTPLarge: offers and answers of the sizes that occur in practice and beyond, several in a row.
func CheckHTTPLarge() {
	serve()
	n := []int{1000, 4096, 8192, 10000, 33000}[sym.Choose("size", 5)]
	for i := 0; i < sym.Param("rounds", 3); i++ {
		offer := strings.Repeat("o=%d\r\n", n/6) + "end" + letter("offer", "12")
		r := post("POST", offer)
		sym.Settle()
		sym.Assert(len(env.b.commands) == i+1 && env.b.bad == 0, "C29: an offer becomes one startRecording command")
		if len(env.b.commands) != i+1 {
			return
		}
		c := env.b.commands[i]
		sym.Assert(c.GetSDP() == offer, "C29: the command has the offer")
		sym.Assert(!r.done, "C29: a request is answered once the session of that request is")
		// it takes a while
		sym.Advance([]time.Duration{0, 20 * time.Second}[sym.Choose("time", 2)])
		sym.Settle()
		sym.Assert(!r.done, "C29: a request is answered once the session of that request is")
		r.session, r.decided, r.answer = c.SessionId, true, strings.Repeat("a=%s", n/4)+letter("answer", "34")
		go env.b.handler(context.Background(), text(r.session, `,"status":"ok","fileName":"f","sdp":"`+r.answer+`"`))
		sym.Settle()
		r.check()
	}
	sym.Cover("large")
}
