property='C30'
edits={'internal/config/loader.go':[
('''	cfg.App = app
''','''	if cfg.WebRTC.JitterBuffer < 8 {
		cfg.WebRTC.JitterBuffer = 512
	}

	cfg.App = app
''')]}
pkg='internal/config'
needs='a jitter buffer of less than 8 packets in the file or the environment'
breaks='the default replaces a value that was given'
demo='''
package config

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	os.Setenv("BBBRECORDER_WEBRTC_JITTERBUFFER", "4")
	c := &Config{}
	c.SetDefaults()
	c.Load(App{Name: "demo-of-no-file"}, "")
	if c.WebRTC.JitterBuffer != 4 {
		t.Fatal(c.WebRTC.JitterBuffer)
	}
}
'''
