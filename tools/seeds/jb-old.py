property='C08'
edits={'internal/webrtc/utils/jitter_buffer.go':[
("	if s.end-seq >= s.size {","	if s.started && seq < s.nextStart-s.size {")]}
pkg='internal/webrtc/utils'
needs='a packet as old as the window arrives while newer packets wait behind a gap'
breaks='it replaces nothing but is handed out later as if it were one of the newest packets'
demo='''
package utils

import (
	"context"
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	b := NewJitterBuffer(4, 1000, context.Background())
	add := func(n uint16) { b.Add(int64(n), &rtp.Packet{Header: rtp.Header{SequenceNumber: n}}) }
	last := -1
	drain := func() {
		p, _ := b.NextPackets()
		for _, x := range p {
			if int(x.SequenceNumber) <= last {
				t.Fatalf("released %d after %d", x.SequenceNumber, last)
			}
			last = int(x.SequenceNumber)
		}
	}
	for n := uint16(100); n < 105; n++ {
		add(n)
		drain()
	}
	add(107)
	add(101)
	add(106)
	drain()
	add(108)
	drain()
}
'''
