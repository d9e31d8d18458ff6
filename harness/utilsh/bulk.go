package utilsh

import (
	"context"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtp"
)

// The harnesses in this file reach the sizes that occur in practice: the shape of a
// history is one of a few, the sequence numbers it starts with are any.

// CheckNackBulk (C11): long lists.
func CheckNackBulk() {
	shapes := []struct{ n, stride, run int }{
		{400, 1, 1}, {300, 2, 1}, {300, 16, 1}, {300, 17, 1}, {300, 18, 1}, {300, 30, 17}, {300, 40, 18}, {17, 1, 1}, {18, 1, 1}, {300, 200, 1},
	}
	s := shapes[sym.Choose("shape", len(shapes))]
	first := sym.U16("first")
	var offs []uint16
	for at := 0; len(offs) < s.n; at += s.stride {
		for i := 0; i < s.run && len(offs) < s.n; i++ {
			offs = append(offs, uint16(at+i))
		}
	}
	seqs := make([]uint16, len(offs))
	for i, o := range offs {
		seqs[i] = first + o
	}
	pairs := utils.NackPairs(seqs)
	sym.Assert(len(pairs) <= len(seqs), "no more pairs than packets")
	back := utils.NackPairsToSequenceNumbers(pairs)
	sym.Assert(len(back) == len(seqs), "the pairs name as many packets as were asked for")
	ok := true
	for i := range back {
		ok = sym.And(ok, i < len(offs) && back[i]-first == offs[i])
	}
	sym.Assert(ok, "the pairs name exactly the packets asked for, in order")
	sym.Observe("pairs", len(pairs))
}

// lossShapes tell which of the packets after the first are lost.
var lossShapes = []func(i, size int) bool{
	func(i, size int) bool { return i%2 == 1 },
	func(i, size int) bool { return i%7 != 0 },
	func(i, size int) bool { return i >= 5 && i < size-5 }, // one long burst
	func(i, size int) bool { return i >= size/2 && i < size+3 },
	func(i, size int) bool { return i%100 == 50 },
}

// CheckReceiveLogBulk (C10): hundreds of packets, many of them lost.
func CheckReceiveLogBulk() {
	size := []int{128, 512, 1024}[sym.Choose("size", 3)]
	rl, err := utils.NewReceiveLog(uint16(size))
	sym.Assert(err == nil, "the size is allowed")
	block := sym.Int("block", 0, 65536/size-1)
	first := uint16(block*size + []int{0, 63, 100}[sym.Choose("residue", 3)])
	lost := lossShapes[sym.Choose("loss", len(lossShapes))]
	m := &rlModel{rl: rl, size: size, first: first, got: map[int]bool{0: true}}
	rl.Add(first)
	total := size + size/2
	for i := 1; i <= total; i++ {
		if i == total || !lost(i, size) {
			m.add(i)
		}
	}
	m.compare(0)
	m.compare(10)
	// some arrive late, the others are given up
	late := sym.Choose("late", 3)
	for i := total - size + 1; i < total; i++ {
		if m.got[i] || i <= m.prefix {
			continue
		}
		if late == 0 || late == 1 && i%2 == 0 {
			m.add(i)
		} else {
			m.ignore(i)
		}
	}
	m.compare(0)
	sym.Assert(m.prefix == m.newest, "all packets are accounted for")
	m.add(total + 2)
	m.compare(0)
}

// CheckJitterBulk (C08, C09): hundreds of packets, in bursts, reordered, lost and given up.
func CheckJitterBulk() {
	size := 512
	tmo := 50 * time.Millisecond
	jb := utils.NewJitterBuffer(uint16(size), 50, context.Background())
	block := int64(sym.Int("block", 0, 1<<40))
	first := block*int64(size) + int64([]int{0, 1, 300, 511}[sym.Choose("residue", 4)])
	pk := map[int]*rtp.Packet{}
	add := func(i int) {
		p := &rtp.Packet{}
		sym.Assert(jb.Add(first+int64(i), p), "a new packet within the window is accepted")
		pk[i] = p
	}
	next := 0
	// drain checks that exactly the packets up to one are released
	drain := func(to int, skip bool) {
		n := 0
		for {
			pkts, skipped := jb.NextPackets()
			sym.Assert(!skipped || skip, "no skip is reported before the timeout has elapsed")
			if skipped {
				sym.Assert(n == 0, "the first drain after the timeout moves past the missing packet")
			}
			if len(pkts) == 0 {
				break
			}
			sym.Assert(n == 0, "no available packet is held back")
			n++
			for _, p := range pkts {
				for pk[next] == nil && next <= to {
					next++
				}
				sym.Assert(next <= to && p == pk[next], "packets are released in order, without holes, starting with the next one")
				next++
			}
		}
		sym.Assert(next == to+1, "every packet that can be released is")
	}
	add(0)
	drain(0, false)
	burst := []int{2, 33, 100, 400}[sym.Choose("burst", 4)]
	switch sym.Choose("shape", 5) {
	case 0: // in order
		for i := 1; i <= burst; i++ {
			add(i)
		}
		drain(burst, false)
	case 1: // backwards
		for i := burst; i >= 1; i-- {
			add(i)
		}
		drain(burst, false)
	case 2: // a gap, filled later
		for i := 2; i <= burst; i++ {
			add(i)
			drain(0, false)
		}
		add(1)
		drain(burst, false)
		sym.Cover("a gap was filled")
	case 3: // a gap, skipped on timeout
		for i := 2; i <= burst; i++ {
			add(i)
			if i == 2 {
				drain(0, false)
			}
		}
		sym.Advance(tmo - 1)
		drain(0, false)
		sym.Advance(1)
		next = 2
		drain(burst, true)
		s, ok := jb.GetAndClearLastSkipped()
		sym.Assert(ok && s == first+1, "the last skipped number is the one that was skipped")
		sym.Cover("a gap was skipped")
	case 4: // a burst is lost and given up, packet by packet
		add(burst + 1)
		drain(0, false)
		for i := 1; i <= burst; i++ {
			jb.SkipPacket(first + int64(i))
		}
		next = burst + 1
		drain(burst+1, false)
		sym.Cover("a burst was given up")
	}
	// and on, past the size of the buffer
	last := burst + 2
	for i := 0; i < size; i++ {
		if i == 0 && pk[burst+1] == nil {
			add(burst + 1)
		}
		add(last + i)
		if i%100 == 99 {
			drain(last+i, false)
		}
	}
	drain(last+size-1, false)
	sym.Assert(!jb.Add(first+int64(last)-1, &rtp.Packet{}), "a packet older than the window is refused")
	sym.Observe("end", next)
}

// CheckSendBufferBulk (C26): hundreds of packets.
func CheckSendBufferBulk() {
	size := []int{64, 512, 2048}[sym.Choose("size", 3)]
	sb, err := utils.NewSendBuffer(uint16(size))
	sym.Assert(err == nil, "the size is allowed")
	block := sym.Int("block", 0, 65536/size-1)
	first := uint16(block*size + []int{0, 5}[sym.Choose("residue", 2)])
	missing := lossShapes[sym.Choose("loss", len(lossShapes))]
	total := size + size/2
	pk := map[int]*rtp.Packet{}
	for i := 0; i <= total; i++ {
		if i == 0 || i == total || !missing(i, size) {
			pk[i] = &rtp.Packet{Header: rtp.Header{SequenceNumber: first + uint16(i)}}
			sb.Add(pk[i])
		}
	}
	ok := true
	for i := total - size - 3; i <= total+3; i++ {
		want := pk[i]
		if i <= total-size {
			want = nil
		}
		ok = ok && sb.Get(first+uint16(i)) == want
	}
	sym.Assert(ok, "a lookup returns exactly the recent packets")
}
