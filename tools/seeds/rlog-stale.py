property='C10'
edits={'internal/webrtc/utils/receive_log.go':[
("		for i := s.end + 1; i != seq; i++ {\n","		for i := s.end + 1; i < seq; i++ {\n")]}
pkg='internal/webrtc/utils'
needs='a gap that spans the wrap-around of the sequence number, a full window after the packets before'
breaks='packets lost across the wrap-around count as received because their bits are not cleared'
demo='''
package utils

import "testing"

func TestDemo(t *testing.T) {
	l, _ := NewReceiveLog(64)
	for i := 0; i < 65530; i++ {
		l.Add(uint16(i))
	}
	l.Add(3)
	got := l.MissingSeqNumbers(0)
	if len(got) != 9 || got[0] != 65530 || got[8] != 2 {
		t.Fatalf("missing: %v", got)
	}
}
'''
