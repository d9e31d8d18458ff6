// Package utilsh holds the harnesses for internal/webrtc/utils.
package utilsh

import (
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
)

// CheckUnwrap (C07): every history of N arrivals. The true position of arrival i is
// newest+d with -32768 < d < 32768; the recorder only sees its low 16 bits.
func CheckUnwrap() {
	n := sym.Param("N", 5)
	u := utils.NewSequenceUnwrapper(16)
	laps := sym.Param("laps", 0)
	first := int64(0)
	if laps == 0 {
		first = int64(sym.U16("first"))
	}
	r := u.Unwrap(uint64(first))
	sym.Assert(r == first, "the first packet keeps its number")
	// a long time later
	for i := 0; i < laps; i++ {
		first += 32767
		r = u.Unwrap(uint64(uint16(first)))
	}
	sym.Assert(r == first, "after any number of wrap-arounds, a packet is placed at its true position")
	newest := first  // true position
	newestVal := r   // its unwrapped value
	preStart := false
	for i := 1; i < n; i++ {
		d := int64(sym.Int("d", -32767, 32767))
		t := newest + d
		s := uint16(t)
		r := u.Unwrap(uint64(s))
		sym.Observe("unwrap", i, r)
		sym.Assert(r >= 0, "unwrapped value is never negative")
		sym.Assert(uint16(r) == s, "unwrapped value is congruent to the sequence number")
		if t > newest {
			newest = t
		}
		if t < 0 {
			// older than the first packet and than the number space: only the two guarantees above
			preStart = true
			sym.Cover("pre-start packet")
		} else if !preStart {
			sym.Assert(r == t, "a packet is placed at its true position")
			if t >= 65536 {
				sym.Cover("wrapped")
			}
			if t >= 131072 {
				sym.Cover("wrapped twice")
			}
			if d < 0 && newest >= 65536 && t < 65536 {
				sym.Cover("late packet across a wrap")
			}
		}
		// asking again for the newest packet shows where the unwrapper believes it is
		nv := u.Unwrap(uint64(uint16(newest)))
		sym.Assert(nv >= newestVal, "the newest packet's value never decreases")
		if t >= 0 {
			sym.Assert(nv-r == newest-t, "a packet is placed at its true distance from the newest")
		}
		newestVal = nv
	}
}
