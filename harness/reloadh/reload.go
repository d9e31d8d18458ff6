// Package reloadh holds the harness that reloads the configuration while commands are handled.
package reloadh

import (
	"context"
	"errors"
	"strings"
	"syscall"
	_ "unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/app"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	. "github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/appenv"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/livekit"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

//verif:manualinit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app

// appInit is what the program does when it is started.
//
//go:linkname appInit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app.vfInit
func appInit()

var _ = app.Init

// used is the configuration a session was started with.
var used struct {
	recorder *config.Recorder
	webrtc   *config.WebRTC
	livekit  *config.LiveKit
	refuse   bool
}

type done struct{}

// rec is a recorder that does nothing.
type rec struct{ recorder.Recorder }

func (rec) GetFilePath() string { return "/dev/null" }

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.NewRecorder
func newRecorder(ctx context.Context, cfg config.Recorder, file string) (recorder.Recorder, error) {
	used.recorder = &cfg
	if used.refuse {
		return nil, errors.New("refused")
	}
	return rec{}, nil
}

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc.NewWebRTC
func newWebRTC(ctx context.Context, cfg config.WebRTC) *webrtc.WebRTC {
	used.webrtc = &cfg
	panic(done{})
}

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/livekit.NewLiveKitWebRTC
func newLiveKit(ctx context.Context, cfg config.LiveKit, roomId string, trackIds []string) *livekit.LiveKitWebRTC {
	used.livekit = &cfg
	panic(done{})
}

// content is the content of the file: a is part of every value.
func content(a string) map[string]any {
	return map[string]any{
		"recorder": map[string]any{"directory": "/" + a, "fileMode": a},
		"livekit":  map[string]any{"apiKey": a, "apiSecret": a},
		"pubsub":   map[string]any{"channels": map[string]any{"publish": a}},
		"webrtc":   map[string]any{"rtcMinPort": 20000 + len(a), "rtcMaxPort": 20000 + len(a)},
	}
}

// CheckReload: SIGHUP arrives while a command is handled. The values of the
// file are strings of different length before and after.
func CheckReload() {
	Setup()
	before, after := "a"+sym.String("before", 1), "b"+sym.String("after", 2)
	Env.Files[Home] = content(before)
	sym.Assert(!Start(appInit), "C30: the recorder starts with a valid configuration")
	Env.Published = nil
	msg := `{"id":"startRecording","recordingSessionId":"s","sdp":"o","fileName":"f","adapter":"ADAPTER"}`
	kind := sym.Choose("command", 4)
	switch kind {
	case 0:
		msg = `{"id":"getRecorderStatus"}`
	case 1:
		used.refuse = true
		fallthrough
	case 2:
		msg = strings.Replace(msg, "ADAPTER", "mediasoup", 1)
	case 3:
		msg = strings.Replace(msg, "ADAPTER", "livekit", 1)
		msg = strings.Replace(msg, `"fileName"`, `"adapterOptions":{"livekit":{"room":"r","trackIds":["t"]}},"fileName"`, 1)
	}
	Env.Files = map[string]map[string]any{Home: content(after)}
	sym.Schedules(sym.Param("preemptions", 1))
	Env.Signals[syscall.SIGHUP] <- syscall.SIGHUP
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(done); !ok {
					panic(r)
				}
			}
		}()
		Env.Handler(context.Background(), []byte(msg))
	}()
	sym.Settle()
	one := func(c ...string) bool {
		old, recent := true, true
		for _, x := range c {
			old = sym.And(old, x == before)
			recent = sym.And(recent, x == after)
		}
		return sym.Or(old, recent)
	}
	if r := used.recorder; r != nil {
		sym.Assert(len(r.Directory) > 0 && one(r.Directory[1:], r.FileMode), "C30: a recording uses the configuration before or after it was reloaded")
		sym.Cover("recorder")
	}
	if w := used.webrtc; w != nil {
		sym.Assert(w.RTCMinPort == w.RTCMaxPort, "C30: a recording uses the configuration before or after it was reloaded")
		sym.Cover("webrtc")
	}
	if l := used.livekit; l != nil {
		sym.Assert(one(l.APIKey, l.APISecret), "C30: a recording uses the configuration before or after it was reloaded")
		sym.Cover("livekit")
	}
	if kind < 2 {
		sym.Assert(len(Env.Published) == 1, "C30: a command is answered while the configuration is reloaded")
		sym.Cover("answered")
	}
	sym.Assert(kind == 0 || used.recorder != nil, "C30: a recording is started while the configuration is reloaded")
}
