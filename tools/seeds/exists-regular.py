property='C06'
edits={'internal/webrtc/recorder/recorder.go':[
("		if _, err := os.Stat(file); !os.IsNotExist(err) {\n","		if info, err := os.Stat(file); err == nil && info.Size() > 0 || err != nil && !os.IsNotExist(err) {\n")]}
pkg='internal/webrtc/recorder'
needs='a target file that exists and is empty'
breaks='the existing file is recorded over'
demo='''
package recorder

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "a.webm"), nil, 0600)
	if _, err := NewRecorder(context.Background(), config.Recorder{Directory: d, FileMode: "0600", DirFileMode: "0700"}, "a.webm"); err == nil {
		t.Fatal("accepted")
	}
}
'''
