property='C20'
edits={'internal/pubsub/events/events.go':[
("	if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != \"\" {\n		return e.AdapterOptions.Mediasoup.SDP\n",
 "	if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil {\n		return e.AdapterOptions.Mediasoup.SDP\n")]}
pkg='internal/pubsub/events'
needs='mediasoup options without an SDP next to a legacy SDP'
breaks='the legacy offer is not used, an empty one is'
demo='''
package events

import "testing"

func TestDemo(t *testing.T) {
	e := Decode([]byte(`{"id":"startRecording","recordingSessionId":"s","fileName":"a.webm","sdp":"x","adapterOptions":{"mediasoup":{}}}`)).StartRecording()
	if e.Validate() != nil || e.GetSDP() != "x" {
		t.Fatal(e.GetSDP())
	}
}
'''
