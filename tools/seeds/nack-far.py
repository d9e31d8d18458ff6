property='C11'
edits={'internal/webrtc/utils/nack.go':[
("		if m-nackPair.PacketID > 16 {","		if int16(m-nackPair.PacketID) > 16 {")]}
pkg='internal/webrtc/utils'
needs='two missing packets half the number space or more apart'
breaks='the second one is not requested'
demo='''
package utils

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	in := []uint16{10, 12, 32800, 40000, 40001}
	if out := NackPairsToSequenceNumbers(NackPairs(in)); !reflect.DeepEqual(in, out) {
		t.Fatalf("%v became %v", in, out)
	}
}
'''
