property='C17'
edits={'internal/webrtc/recorder/webm.go':[
("		if r.audioWriter == nil && r.hasAudio && !r.hasVideo {","		if r.audioWriter == nil && r.hasAudio && (!r.hasVideo || r.hasValidVideo || r.seenKeyFrame) {")]}
pkg='internal/webrtc/recorder'
needs='audio arrives between the first packet and the last packet of the first key frame'
breaks='the file is opened with default picture dimensions before the key frame is complete'
demo='''
package recorder

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.webm")
	r := NewWebmRecorder(f, 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	r.SetHasAudio(true)
	audio := func(i int) {
		r.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: uint32(960 * i)}, Payload: []byte{0xfc, 1, 2, 3}})
	}
	for i := 0; i < 3; i++ {
		audio(i)
	}
	r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: 1, Timestamp: 5}, Payload: []byte{0x10, 0, 0, 0, 0x9d, 1, 0x2a, 0x39, 1, 0x2b, 1}})
	for i := 3; i < 9; i++ {
		audio(i)
	}
	r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: 2, Timestamp: 5, Marker: true}, Payload: []byte{0, 1, 2, 3}})
	r.Close()
	data, _ := os.ReadFile(f)
	// PixelWidth 313, PixelHeight 299
	if !bytes.Contains(data, []byte{0xb0, 0x82, 0x01, 0x39}) || !bytes.Contains(data, []byte{0xba, 0x82, 0x01, 0x2b}) {
		t.Fatal("picture dimensions of the first key frame not found")
	}
}
'''
