property='C02'
edits={'internal/webrtc/webrtc.go':[
('''	err = peerConnection.SetRemoteDescription(w.sdpOffer)
	if err != nil {
		log.WithField("session", w.ctx.Value("session")).
			Error(err)
		return webrtc.SessionDescription{}, err
	}
''','''	err = peerConnection.SetRemoteDescription(w.sdpOffer)
	if err != nil && peerConnection.SignalingState() != webrtc.SignalingStateHaveRemoteOffer {
		log.WithField("session", w.ctx.Value("session")).
			Error(err)
		return *peerConnection.RemoteDescription(), nil
	}
'''.replace('*peerConnection.RemoteDescription()','webrtc.SessionDescription{Type: webrtc.SDPTypeAnswer}'))]}
pkg='internal/server'
needs='an offer that parses but is refused by the WebRTC stack, e.g. one without ICE credentials'
breaks='the start is answered "ok" with an empty answer although no recording was set up'
demo='''
package server

import (
	"context"
	"strings"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
	pwebrtc "github.com/pion/webrtc/v3"
)

type demoBus struct{ msgs []string }

func (b *demoBus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {}
func (b *demoBus) Publish(channel string, msg []byte)                                          { b.msgs = append(b.msgs, string(msg)) }

func TestDemo(t *testing.T) {
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.Recorder.Directory = t.TempDir()
	cfg.Recorder.FileMode, cfg.Recorder.DirFileMode = "0600", "0700"
	cfg.WebRTC.ICEServers = nil
	b := &demoBus{}
	s := NewServer(cfg, b)
	pc, _ := pwebrtc.NewPeerConnection(pwebrtc.Configuration{})
	pc.AddTransceiverFromKind(pwebrtc.RTPCodecTypeAudio)
	o, _ := pc.CreateOffer(nil)
	o.SDP = strings.ReplaceAll(o.SDP, "a=ice-ufrag", "a=x-ufrag")
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","recordingSessionId":"s","fileName":"a.webm","sdp":"`+signal.Encode(o)+`"}`))
	if len(b.msgs) != 1 || !strings.Contains(b.msgs[0], `"failed"`) {
		t.Fatal(b.msgs)
	}
}
'''
