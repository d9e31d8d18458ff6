property='C03'
edits={'internal/webrtc/webrtc.go':[
("	w.pc = peerConnection\n\n","\n"),
("	// Create an answer\n	answer, err","	w.pc = peerConnection\n\n	// Create an answer\n	answer, err"),
]}
pkg='internal/webrtc'
needs='a start that fails because the offer is refused after the peer connection was made'
breaks='the peer connection of the failed start is never closed'
demo='''
package webrtc

import (
	"context"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	pwebrtc "github.com/pion/webrtc/v3"
)

func TestDemo(t *testing.T) {
	pc, _ := pwebrtc.NewPeerConnection(pwebrtc.Configuration{})
	pc.AddTransceiverFromKind(pwebrtc.RTPCodecTypeAudio)
	o, _ := pc.CreateOffer(nil)
	o.SDP = strings.ReplaceAll(o.SDP, "a=ice-ufrag", "a=x-ufrag")
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		w := NewWebRTC(context.Background(), config.WebRTC{RTCMinPort: 20000, RTCMaxPort: 30000})
		w.SetConnectionStateCallback(func(pwebrtc.ICEConnectionState) {})
		w.SetFlowCallback(func(bool, time.Duration, bool) {})
		w.SetSDPOffer(o)
		if _, err := w.Init(nil); err == nil {
			t.Fatal("no error")
		}
		w.Close()
	}
	time.Sleep(time.Second)
	if m := runtime.NumGoroutine(); m > n+15 {
		t.Fatalf("%d goroutines left", m-n)
	}
}
'''
