property='C15'
edits={'internal/webrtc/recorder/webm.go':[
("	minFrameLen := 10\n","	minFrameLen := 8\n"),
("		if len(frame) < 10 {\n			return false, \"keyframe too small\"","		if len(frame) < minFrameLen {\n			return false, \"keyframe too small\""),
]}
pkg='internal/webrtc/recorder'
needs='a key frame of 8 or 9 bytes'
breaks='reading its dimensions panics'
demo='''
package recorder

import (
	"path/filepath"
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	r := NewWebmRecorder(filepath.Join(t.TempDir(), "a.webm"), 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	for n := 1; n < 20; n++ {
		p := make([]byte, 1+n)
		p[0] = 0x10
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(n), Timestamp: 5, Marker: true}, Payload: p})
	}
	r.Close()
}
'''
