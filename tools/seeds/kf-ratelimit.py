property='C19'
edits={'internal/webrtc/recorder/webm.go':[
("		r.keyframeRequester.RequestKeyframe()\n		r.lastKeyframeRequestTime = time.Now()\n	}\n","		r.keyframeRequester.RequestKeyframe()\n	}\n\n	r.lastKeyframeRequestTime = time.Now()\n")]}
pkg='internal/webrtc/recorder'
needs='packets that keep arriving less than a second apart while the recorder waits for a key frame'
breaks='after the first request no other key frame is ever requested'
demo='''
package recorder

import (
	"path/filepath"
	"testing"
	"time"

	"github.com/pion/rtp"
)

type demoRequester struct{ n int }

func (d *demoRequester) RequestKeyframe()                    { d.n++ }
func (d *demoRequester) RequestKeyframeForSSRC(ssrc uint32) { d.n++ }

func TestDemo(t *testing.T) {
	r := NewWebmRecorder(filepath.Join(t.TempDir(), "a.webm"), 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	q := &demoRequester{}
	r.SetKeyframeRequester(q)
	for i := 0; i < 14; i++ {
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: uint32(9000 * i), Marker: true},
			Payload: []byte{0x10, 1, 0, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0, 7, 7}})
		time.Sleep(100 * time.Millisecond)
	}
	if q.n < 2 {
		t.Fatalf("%d requests", q.n)
	}
}
'''
