property='C01'
edits={'internal/pubsub/events/decode.go':[
("	if err := json5.Unmarshal(message, s); err != nil {\n		log.Error(err, string(message))\n		return nil\n	}\n",
 "	if err := json5.Unmarshal(message, s); err != nil {\n		log.Error(err, string(message))\n		if id != \"stopRecording\" {\n			return nil\n		}\n	}\n")]}
pkg='internal/server'
needs='a stopRecording message with a field of the wrong type, next to a session with an empty id or a valid id'
breaks='the ill-typed command is executed, here ending the session with the empty id'
demo='''
package server

import (
	"context"
	"strings"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
	pwebrtc "github.com/pion/webrtc/v3"
)

type demoBus struct{ msgs []string }

func (b *demoBus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {}
func (b *demoBus) Publish(channel string, msg []byte)                                          { b.msgs = append(b.msgs, string(msg)) }

func TestDemo(t *testing.T) {
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.Recorder.Directory = t.TempDir()
	cfg.Recorder.FileMode, cfg.Recorder.DirFileMode = "0600", "0700"
	cfg.WebRTC.ICEServers = nil
	b := &demoBus{}
	s := NewServer(cfg, b)
	pc, _ := pwebrtc.NewPeerConnection(pwebrtc.Configuration{})
	pc.AddTransceiverFromKind(pwebrtc.RTPCodecTypeAudio)
	o, _ := pc.CreateOffer(nil)
	pc.SetLocalDescription(o)
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","fileName":"a.webm","sdp":"`+signal.Encode(*pc.LocalDescription())+`"}`))
	s.HandlePubSub(context.Background(), []byte(`{"id":"stopRecording","recordingSessionId":{"x":7}}`))
	if len(b.msgs) != 1 || !strings.Contains(b.msgs[0], `"ok"`) {
		t.Fatal(b.msgs)
	}
}
'''
