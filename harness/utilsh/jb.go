package utilsh

import (
	"context"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtp"
)

const far = int64(1) << 40

type jbModel struct {
	jb      *utils.JitterBuffer
	size    int64
	timeout time.Duration

	started bool
	first   int64
	newest  int64
	next    int64 // lowest sequence number that may still be released
	pk      []*rtp.Packet
	seqs    []int64
	last    int64 // last released
	any     bool

	noticed   bool
	noticedAt time.Duration
	noticedSq int64

	skips   bool
	lastSkp int64
	slid    bool // the window moved past a gap
	slidSkp int64
}

// have tells whether seq was accepted and is still in the window.
func (m *jbModel) have(seq int64) bool {
	r := false
	for _, s := range m.seqs {
		r = sym.Or(r, s == seq)
	}
	return sym.And(r, seq > m.newest-m.size, seq <= m.newest)
}

func (m *jbModel) add(seq int64) {
	p := &rtp.Packet{}
	got := m.jb.Add(seq, p)
	if !m.started {
		sym.Assert(got, "the first packet is accepted")
		m.started = true
		m.first, m.newest, m.next = seq, seq, seq
		m.pk, m.seqs = append(m.pk, p), append(m.seqs, seq)
		return
	}
	tooOld := seq <= m.newest-m.size
	dup := false
	for _, s := range m.seqs {
		dup = sym.Or(dup, s == seq)
	}
	buffered := sym.And(dup, seq >= m.next)
	sym.Assert(sym.Or(sym.Not(tooOld), sym.Not(got)), "a packet older than the window is refused")
	sym.Assert(sym.Or(sym.Not(buffered), sym.Not(got)), "a duplicate of a buffered packet is refused")
	sym.Assert(sym.Or(tooOld, dup, got), "a new packet within the window is accepted")
	if !got {
		sym.Cover("refused")
		return
	}
	m.pk, m.seqs = append(m.pk, p), append(m.seqs, seq)
	if seq-m.newest >= m.size {
		sym.Cover("jump over the window")
	}
	m.newest = sym.IteI64(seq > m.newest, seq, m.newest)
	slide := m.newest - m.size + 1
	if slide > m.next {
		sym.Cover("window moved past a gap")
		m.next = slide
		m.slid, m.slidSkp = true, slide-1
	}
}

func (m *jbModel) drain(now time.Duration) {
	if !m.started {
		p, sk := m.jb.NextPackets()
		sym.Assert(len(p) == 0, "nothing is released before the first packet")
		sym.Assert(!sk, "nothing is skipped before the first packet")
		return
	}
	missing := sym.And(m.next <= m.newest, sym.Not(m.have(m.next)))
	skip := sym.And(missing, m.noticed, m.noticedSq == m.next, now-m.noticedAt >= m.timeout)
	pkts, skipped := m.jb.NextPackets()
	sym.Assert(sym.Or(skip, sym.Not(skipped)), "no skip is reported before the timeout has elapsed")
	sym.Assert(sym.Or(skipped, sym.Not(skip)), "the first drain after the timeout moves past the missing packet")
	if skipped {
		sym.Cover("skipped on timeout")
		// a packet skipped by the window before this is no longer the last
		m.skips, m.slid, m.lastSkp = true, false, m.next
		m.next++
	}
	if missing2 := sym.And(m.next <= m.newest, sym.Not(m.have(m.next))); missing2 {
		if !m.noticed || m.noticedSq != m.next {
			m.noticed, m.noticedSq, m.noticedAt = true, m.next, now
		}
	}
	for i, p := range pkts {
		// which packet is it?
		k := -1
		for j, q := range m.pk {
			if p == q {
				k = j
			}
		}
		sym.Assert(k >= 0, "a released packet is one that was accepted")
		sym.Assert(m.seqs[k] == m.next+int64(i), "packets are released in order, without holes, starting with the next one")
		sym.Assert(!m.any || m.seqs[k] > m.last, "sequence numbers leave in strictly increasing order")
		m.any, m.last = true, m.seqs[k]
	}
	m.next += int64(len(pkts))
	sym.Assert(sym.Or(m.next > m.newest, sym.Not(m.have(m.next))), "no available packet is held back")
	if len(pkts) > 1 {
		sym.Cover("several released at once")
	}
}

// CheckJitterOrder (C08): adds, drains and forced skips without the timeout elapsing.
func CheckJitterOrder() {
	size := sym.Param("size", 4)
	n := sym.Param("K", 4)
	m := &jbModel{jb: utils.NewJitterBuffer(uint16(size), 100, context.Background()), size: int64(size), timeout: 100 * time.Millisecond}
	first := int64(sym.Int("first", 0, 1<<40))
	if sym.Choose("drainFirst", 2) == 1 {
		m.drain(0)
	}
	m.add(first)
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			seq := m.newest + int64(sym.Int("d", -size-1, size+1))
			sym.Assume(seq >= 0)
			m.add(seq)
		case 1:
			m.drain(0)
		case 2:
			// give up a packet that is missing
			seq := m.next + int64(sym.Int("skip", -1, 1))
			sym.Assume(sym.And(seq >= 0, sym.Not(m.have(seq)), seq <= m.newest))
			m.jb.SkipPacket(seq)
			if seq == m.next {
				sym.Cover("gave up the next packet")
				m.next++
			}
		}
	}
	m.drain(0)
	sym.Observe("end", m.jb.GetNextStart())
}

// CheckJitterDelay (C09): adds, drains and passing time.
func CheckJitterDelay() {
	size := sym.Param("size", 4)
	n := sym.Param("K", 4)
	tmo := 50
	m := &jbModel{jb: utils.NewJitterBuffer(uint16(size), uint16(tmo), context.Background()), size: int64(size), timeout: time.Duration(tmo) * time.Millisecond}
	m.add(int64(sym.Int("first", 0, 1<<40)))
	m.drain(sym.Now())
	seldom := sym.Bool("seldom") // the skipped number is asked for after several drains
	for i := 0; i < n; i++ {
		// time passes, then maybe a packet arrives, then the buffer is drained
		sym.Advance(time.Duration(sym.Int("dt", 0, 100_000_000)))
		if sym.Choose("arrive", 2) == 1 {
			seq := m.newest + int64(sym.Int("d", 1-size, size-1))
			sym.Assume(seq >= 0)
			m.add(seq)
		}
		had := m.skips
		m.drain(sym.Now())
		if i < n-1 && seldom {
			continue
		}
		s, ok := m.jb.GetAndClearLastSkipped()
		sym.Assert(ok || !m.skips, "the skipped number is available after a skip")
		sym.Assert(!ok || m.skips || m.slid, "the skipped number is only available after a skip")
		if ok {
			sym.Assert(s == m.lastSkp && m.skips || s == m.slidSkp && m.slid, "the last skipped number is the one that was skipped")
			_, again := m.jb.GetAndClearLastSkipped()
			sym.Assert(!again, "the skipped number is handed out once")
			if had {
				sym.Cover("skipped twice")
			}
		}
		m.skips, m.slid = false, false
		sym.Observe("state", m.jb.GetNextStart(), ok)
	}
}
