property='C13'
edits={'internal/webrtc/recorder/webm.go':[
("	currentFrame []byte\n","	currentFrame []byte\n	frameBuffer  []byte\n"),
("	r.hasKeyFrame = true\n	r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)\n",
 "	r.hasKeyFrame = true\n	if r.currentFrame == nil {\n		r.currentFrame = r.frameBuffer[:0]\n	}\n	r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)\n	r.frameBuffer = r.currentFrame\n"),
]}
pkg='internal/webrtc/recorder'
needs='frames waiting in the block sorter while later frames arrive'
breaks='frames already handed to the muxer are overwritten by later frames'
demo='''
package recorder

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.webm")
	r := NewWebmRecorder(f, 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	r.SetHasAudio(true)
	frame := func(i int) []byte {
		b := []byte{1, 0, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0}
		if i == 0 {
			b[0] = 0
		}
		for len(b) < 40 {
			b = append(b, byte(0x40+i))
		}
		return b
	}
	for i := 0; i < 8; i++ {
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: uint32(3000 * i), Marker: true},
			Payload: append([]byte{0x10}, frame(i)...)})
	}
	r.Close()
	data, _ := os.ReadFile(f)
	for i := 0; i < 8; i++ {
		if bytes.Count(data, frame(i)) != 1 {
			t.Fatalf("frame %d is there %d times", i, bytes.Count(data, frame(i)))
		}
	}
}
'''
