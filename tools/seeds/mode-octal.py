property='C23'
edits={'internal/webrtc/recorder/recorder.go':[
("strconv.ParseUint(cfg.DirFileMode, 0, 32)","strconv.ParseUint(cfg.DirFileMode, 8, 32)")]}
pkg='internal/webrtc/recorder'
needs='a directory mode that is not written in octal'
breaks='a hexadecimal or decimal directory mode is refused or misread'
demo='''
package recorder

import (
	"context"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
)

func TestDemo(t *testing.T) {
	syscall.Umask(0)
	d := t.TempDir()
	if _, _, err := ValidateAndPrepareFile(context.Background(), config.Recorder{Directory: d, DirFileMode: "448", FileMode: "0600"}, "x/a.webm"); err != nil {
		t.Fatal(err)
	}
	st, err := os.Stat(filepath.Join(d, "x"))
	if err != nil || st.Mode().Perm() != 0700 {
		t.Fatal(err, st)
	}
}
'''
