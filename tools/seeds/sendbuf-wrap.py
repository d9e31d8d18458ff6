property='C26'
edits={'internal/webrtc/utils/send_buffer.go':[
("		for i := s.lastAdded + 1; i != seq; i++ {","		for i := s.lastAdded + 1; i < seq; i++ {")]}
pkg='internal/webrtc/utils'
needs='a gap in the added packets across the wrap-around'
breaks='packets from one buffer size ago are returned for numbers in the gap'
demo='''
package utils

import (
	"testing"

	"github.com/pion/rtp"
)

func TestDemo(t *testing.T) {
	b, _ := NewSendBuffer(8)
	for _, n := range []uint16{65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 3} {
		b.Add(&rtp.Packet{Header: rtp.Header{SequenceNumber: n}})
	}
	for _, n := range []uint16{65535, 0, 1, 2} {
		if p := b.Get(n); p != nil {
			t.Fatalf("Get(%d) returned %d", n, p.SequenceNumber)
		}
	}
}
'''
