property='C18'
edits={'internal/webrtc/recorder/ivfwriter.go':[
("		writer.file.Seek(currentPos, io.SeekStart)\n","		writer.file.Seek(currentPos-int64(len(frameData)), io.SeekStart)\n")]}
pkg='internal/webrtc/recorder'
needs='more than 100 video frames with the IVF copy enabled'
breaks='the frame after every 100th overwrites it'
demo='''
package recorder

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	w, err := NewIVFWriter(filepath.Join(d, "a.webm"), 0600)
	if err != nil {
		t.Fatal(err)
	}
	frame := make([]byte, 50)
	for i := 0; i < 150; i++ {
		w.WriteFrame(frame, uint32(i), false)
	}
	w.Close()
	st, _ := os.Stat(filepath.Join(d, "a.ivf"))
	if st.Size() != 32+150*62 {
		t.Fatalf("%d bytes", st.Size())
	}
}
'''
