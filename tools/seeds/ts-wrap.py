property='C16'
edits={'internal/webrtc/recorder/webm.go':[
("(float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))","((float64(p.Timestamp)-float64(r.packetTimestamp))/float64(vp8SampleRate))")]}
pkg='internal/webrtc/recorder'
needs='the RTP timestamp wraps around during the recording'
breaks='video timestamps jump back by more than 13 hours'
demo='''
package recorder

import (
	"path/filepath"
	"testing"
	"time"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	r := NewWebmRecorder(filepath.Join(t.TempDir(), "a.webm"), 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	for i := 0; i < 3; i++ {
		p := []byte{0x10, 1, 0, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0, 7, 7}
		if i == 0 {
			p[1] = 0
		}
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: 0xFFFFF000 + uint32(i)*9000, Marker: true}, Payload: p})
	}
	if ts := r.Close(); ts < 199*time.Millisecond || ts > 201*time.Millisecond {
		t.Fatalf("position %v", ts)
	}
}
'''
