property='C14'
edits={'internal/webrtc/recorder/webm.go':[
("pidDiff := (pictureID - r.lastPictureID) & 0x7FFF","pidDiff := pictureID - r.lastPictureID")]}
pkg='internal/webrtc/recorder'
needs='frames lost where the 15-bit picture id wraps around'
breaks='delta frames after the lost ones are recorded without waiting for a key frame'
demo='''
package recorder

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.webm")
	r := NewWebmRecorder(f, 0600, 256, 32, true, false)
	r.SetHasVideo(true)
	push := func(seq, id uint16, key byte, fill byte) {
		p := []byte{0x90, 0x80, 0x80 | byte(id>>8), byte(id), key, 0, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0}
		for len(p) < 40 {
			p = append(p, fill)
		}
		r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: seq, Timestamp: 3000 * uint32(seq), Marker: true}, Payload: p})
	}
	push(1, 32766, 0, 'A')
	push(2, 32767, 1, 'B')
	push(3, 3, 1, 'C')
	r.Close()
	data, _ := os.ReadFile(f)
	if !bytes.Contains(data, []byte("BBBBBBBB")) {
		t.Fatal("good frame not recorded")
	}
	if bytes.Contains(data, []byte("CCCCCCCC")) {
		t.Fatal("delta frame after lost frames recorded")
	}
}
'''
