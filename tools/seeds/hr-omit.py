property='C24'
edits={'internal/pubsub/events/events.go':[
('''	Status       string        `json:"status,omitempty"`
	TimestampUTC time.Time     `json:"timestampUTC"`
	TimestampHR  time.Duration `json:"timestampHR"`
''','''	Status       string        `json:"status,omitempty"`
	TimestampUTC time.Time     `json:"timestampUTC"`
	TimestampHR  time.Duration `json:"timestampHR,omitempty"`
''')]}
pkg='internal/pubsub/events'
needs='a flow report at position 0'
breaks='the message lacks its timestampHR field'
demo='''
package events

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	b, _ := json.Marshal(NewRecordingRtpStatusChanged("s", true, 0))
	m := map[string]interface{}{}
	json.Unmarshal(b, &m)
	if m["timestampHR"] != 0.0 {
		t.Fatal(string(b))
	}
}
'''
