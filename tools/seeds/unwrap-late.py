property='C07'
edits={'internal/webrtc/utils/sequence_unwrapper.go':[
("if sw.wrapArounds-int64(sw.inMax)+int64(n) <= 0 {","if sw.wrapArounds-2*int64(sw.inMax)+int64(n) <= 0 {")]}
pkg='internal/webrtc/utils'
needs='a packet from just before the first wrap-around arrives after it'
breaks='late packets of the first cycle are unwrapped into the following cycle and everything after them is shifted by 65536'
demo='''
package utils

import "testing"

func TestDemo(t *testing.T) {
	u := NewSequenceUnwrapper(16)
	u.Unwrap(65530)
	newest := u.Unwrap(2)
	if got := u.Unwrap(65533); got != newest-5 {
		t.Fatalf("late packet at %d, newest %d", got, newest)
	}
	if got := u.Unwrap(3); got != newest+1 {
		t.Fatalf("next packet at %d, newest %d", got, newest)
	}
}
'''
