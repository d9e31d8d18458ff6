property='C33'
edits={'internal/config/config.go':[
('''	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`''','''	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPacketTimeout,omitempty"`''')]}
pkg='internal/config'
needs='asking for this one setting'
breaks='--dump no longer knows the setting webrtc.jitterBufferPktTimeout'
demo='''
package config

import (
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	c := exec.Command("go", "run", "../../cmd/bbb-webrtc-recorder", "--dump", "webrtc.jitterBufferPktTimeout")
	c.Env = append(c.Environ(), "BBBRECORDER_WEBRTC_JITTERBUFFERPKTTIMEOUT=123")
	out, err := c.Output()
	if err != nil || strings.TrimSpace(string(out)) != "123" {
		t.Fatalf("%q %v", out, err)
	}
}
'''
