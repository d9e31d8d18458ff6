package utilsh

import (
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtp"
)

// rlModel is the receive log over true positions.
type rlModel struct {
	rl     *utils.ReceiveLog
	size   int
	first  uint16
	newest int // position of the newest packet, relative to the first
	prefix int // everything up to here was received, given up or left the window
	got    map[int]bool
}

func (m *rlModel) num(pos int) uint16 { return m.first + uint16(pos) }

func (m *rlModel) advance() {
	if m.prefix < m.newest-m.size {
		m.prefix = m.newest - m.size
		sym.Cover("window left missing packets behind")
	}
	for m.prefix < m.newest && m.got[m.prefix+1] {
		m.prefix++
	}
}

func (m *rlModel) add(pos int) {
	m.rl.Add(m.num(pos))
	if pos <= m.newest-m.size {
		sym.Cover("older than the window")
		return
	}
	m.got[pos] = true
	if pos > m.newest {
		m.newest = pos
	}
	m.advance()
}

func (m *rlModel) ignore(pos int) {
	m.rl.IgnoreSeqNum(m.num(pos))
	m.got[pos] = true
	m.advance()
}

func (m *rlModel) compare(skip int) {
	list := m.rl.MissingSeqNumbers(uint16(skip))
	k := 0
	for pos := m.prefix + 1; pos <= m.newest-skip; pos++ {
		if m.got[pos] {
			continue
		}
		sym.Assert(k < len(list), "every missing packet is listed")
		if k < len(list) {
			sym.Assert(list[k] == m.num(pos), "the list names the missing packets in order, and nothing else")
		}
		k++
	}
	sym.Assert(k == len(list), "nothing that was received, given up or left the window is listed")
	if k > 0 {
		sym.Cover("missing packets listed")
	}
	sym.Observe("missing", k)
}

// CheckReceiveLog (C10): arrivals, give-ups and queries in any order.
func CheckReceiveLog() {
	size := sym.Param("size", 64)
	n := sym.Param("K", 3)
	rl, err := utils.NewReceiveLog(uint16(size))
	sym.Assert(err == nil, "the size is allowed")
	// any first number, or (for longer histories) any with one of some residues
	block := sym.Int("block", 0, 65536/size-1)
	residue := 0
	if res := []int{0, 1, 31, 62, 63}; sym.Param("residues", 5) == 5 {
		residue = res[sym.Choose("residue", len(res))]
	} else {
		residue = sym.Choose("residue", size)
	}
	first := uint16(block*size + residue)
	m := &rlModel{rl: rl, size: size, first: first, got: map[int]bool{}}
	rl.Add(m.first)
	m.got[0] = true
	deltas := []int{1, 2, 3, -1, -2, size - 1, size, size + 1, 1 - size, -size, -size - 1, 2*size + 1}
	for i := 0; i < n; i++ {
		if sym.Choose("op", 2) == 1 {
			// give up the oldest missing packet, or the one after it
			pos := m.prefix + 1
			for pos <= m.newest && m.got[pos] {
				pos++
			}
			if sym.Choose("second", 2) == 1 {
				for pos++; pos <= m.newest && m.got[pos]; pos++ {
				}
			}
			sym.Assume(pos < m.newest)
			m.ignore(pos)
			sym.Cover("gave up a packet")
		} else {
			d := deltas[sym.Choose("d", len(deltas))]
			m.add(m.newest + d)
		}
		m.compare(0)
	}
	m.compare(1 + sym.Choose("skip", 2))
	// membership of any number in half the number space around the newest
	q := sym.Int("q", -32767, 32767)
	want := false
	for pos := range m.got {
		want = sym.Or(want, sym.And(q == pos-m.newest, pos > m.newest-m.size, pos <= m.newest))
	}
	got := m.rl.Get(m.first + uint16(m.newest) + uint16(q))
	sym.Assert(got == want, "a query is true exactly for packets recorded and within the window")
}

// CheckReceiveLogSizes (C10): which sizes are accepted.
func CheckReceiveLogSizes() {
	size := sym.U16("size")
	rl, err := utils.NewReceiveLog(size)
	ok := false
	for i := 6; i < 16; i++ {
		ok = sym.Or(ok, size == 1<<i)
	}
	sym.Assert((err == nil) == ok, "only powers of two from 64 to 32768 are accepted as size")
	sym.Assert((rl != nil) == (err == nil), "a log is made exactly when there is no error")
}

// CheckNack (C11): any strictly ascending list modulo 65536.
func CheckNack() {
	max := sym.Param("N", 4)
	n := sym.Choose("len", max+1)
	seqs := make([]uint16, n)
	total := 0
	for i := range seqs {
		if i == 0 {
			seqs[0] = sym.U16("first")
			continue
		}
		d := sym.Int("gap", 1, 65535)
		total += d
		seqs[i] = seqs[i-1] + uint16(d)
	}
	sym.Assume(total < 65536)
	pairs := utils.NackPairs(seqs)
	sym.Assert((len(pairs) == 0) == (n == 0), "an empty list encodes to no pairs, and only an empty list does")
	sym.Assert(len(pairs) <= n, "no more pairs than packets")
	back := utils.NackPairsToSequenceNumbers(pairs)
	sym.Assert(len(back) == n, "the pairs name as many packets as were asked for")
	for i := range back {
		if i < n {
			sym.Assert(back[i] == seqs[i], "the pairs name exactly the packets asked for, in order")
		}
	}
	if n > 1 && len(pairs) == 1 {
		sym.Cover("packed into one pair")
	}
	if n > 1 && len(pairs) == n {
		sym.Cover("one pair each")
	}
	sym.Observe("pairs", len(pairs))
}

// CheckSendBuffer (C26): in-order adds with gaps, then one lookup of any number.
func CheckSendBuffer() {
	size := 1 << sym.Choose("logsize", sym.Param("sizes", 4))
	n := sym.Param("N", 4)
	sb, err := utils.NewSendBuffer(uint16(size))
	sym.Assert(err == nil, "the size is allowed")
	first := sym.U16("first")
	newest := 0
	var pos []int
	var pk []*rtp.Packet

	for i := 0; i < n; i++ {
		if i > 0 {
			gaps := []int{0, 1, 2, 3, size - 1, size, size + 1, 2*size + 1}
			newest += gaps[sym.Choose("gap", len(gaps))]
		}
		p := &rtp.Packet{Header: rtp.Header{SequenceNumber: first + uint16(newest)}}
		dup := false
		for _, x := range pos {
			dup = dup || x == newest
		}
		sb.Add(p)
		if !dup {
			pos, pk = append(pos, newest), append(pk, p)
		} else {
			sym.Cover("duplicate add")
		}
	}
	q := sym.Int("q", -32767, 32767) // distance to the newest
	got := sb.Get(first + uint16(newest) + uint16(q))
	k := -1
	for j, p := range pk {
		if p == got {
			k = j
		}
	}
	if got != nil {
		sym.Assert(k >= 0, "a lookup returns a packet that was added")
		sym.Assert(sym.And(newest+q == pos[k], pos[k] > newest-size), "a lookup returns the packet of that number, within the window")
		sym.Cover("found")
	} else {
		for _, x := range pos {
			sym.Assert(sym.Or(newest+q != x, x <= newest-size), "a recent packet is found")
		}
		sym.Cover("not found")
	}
	sym.Observe("got", k)
}

// CheckSendBufferSizes (C26).
func CheckSendBufferSizes() {
	size := sym.U16("size")
	sb, err := utils.NewSendBuffer(size)
	ok := sym.And(size != 0, size&(size-1) == 0)
	sym.Assert((err == nil) == ok, "only powers of two are accepted as size")
	sym.Assert((sb != nil) == (err == nil), "a buffer is made exactly when there is no error")
}
