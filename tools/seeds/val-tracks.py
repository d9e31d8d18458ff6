property='C20'
edits={'internal/pubsub/events/events.go':[
("		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {\n","		if e.AdapterOptions.LiveKit.TrackIDs == nil {\n")]}
pkg='internal/pubsub/events'
needs='a livekit request with an empty list of track ids'
breaks='it is accepted although it names no track'
demo='''
package events

import "testing"

func TestDemo(t *testing.T) {
	e := Decode([]byte(`{"id":"startRecording","recordingSessionId":"s","fileName":"a.webm","adapter":"livekit","adapterOptions":{"livekit":{"room":"r","trackIds":[]}}}`))
	if e.StartRecording().Validate() == nil {
		t.Fatal("accepted")
	}
}
'''
