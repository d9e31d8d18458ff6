property='C09'
edits={'internal/webrtc/utils/jitter_buffer.go':[
("			return nil, skippedPacket\n","			return nil, moreSkips\n")]}
pkg='internal/webrtc/utils'
needs='the time-out passes a missing packet and the packet after it is missing as well'
breaks='the drain that skipped the packet does not report a skip'
demo='''
package utils

import (
	"context"
	"testing"
	"time"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	b := NewJitterBuffer(16, 20, context.Background())
	add := func(n uint16) { b.Add(int64(n), &rtp.Packet{Header: rtp.Header{SequenceNumber: n}}) }
	add(10)
	b.NextPackets()
	add(13)
	b.NextPackets()
	time.Sleep(30 * time.Millisecond)
	before := b.GetNextStart()
	if _, skipped := b.NextPackets(); !skipped && b.GetNextStart() != before {
		t.Fatal("a packet was skipped without a report")
	}
}
'''
