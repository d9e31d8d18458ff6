property='C04'
edits={'internal/webrtc/webrtc.go':[
("	return w.pc.Close()\n","	closer := w.pc.Close\n	if w.pc.ICEConnectionState() < webrtc.ICEConnectionStateConnected {\n		// nothing to tear down yet\n		closer = func() error { return nil }\n	}\n\n	return closer()\n")]}
pkg='internal/webrtc'
needs='a session that is stopped before its connection is established'
breaks='its peer connection is not released'
demo='''
package webrtc

import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	pwebrtc "github.com/pion/webrtc/v3"
)

func TestDemo(t *testing.T) {
	pc, _ := pwebrtc.NewPeerConnection(pwebrtc.Configuration{})
	pc.AddTransceiverFromKind(pwebrtc.RTPCodecTypeAudio)
	o, _ := pc.CreateOffer(nil)
	pc.SetLocalDescription(o)
	w := NewWebRTC(context.Background(), config.WebRTC{RTCMinPort: 20000, RTCMaxPort: 30000})
	w.SetConnectionStateCallback(func(pwebrtc.ICEConnectionState) {})
	w.SetFlowCallback(func(bool, time.Duration, bool) {})
	w.SetSDPOffer(o)
	if _, err := w.Init(nil); err != nil {
		t.Fatal(err)
	}
	w.Close()
	if s := w.pc.ConnectionState(); s != pwebrtc.PeerConnectionStateClosed {
		t.Fatal(s)
	}
}
'''
