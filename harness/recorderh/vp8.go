package recorderh

import (
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

// requester records the key-frame requests.
type requester struct {
	at []time.Duration
}

func (r *requester) RequestKeyframe()                   { r.at = append(r.at, sym.Now()) }
func (r *requester) RequestKeyframeForSSRC(ssrc uint32) { r.RequestKeyframe() }

// media generates VP8 packets and knows what a correct recording of them is.
type media struct {
	rec *recorder.WebmRecorder
	rq  *requester

	pids  bool // packets carry 15-bit picture ids
	marks bool
	plain bool // the payload is not arbitrary
	seq   uint16
	ts    uint32
	pid   uint16
	n     int

	// the last run of consecutive packets that began with the start of a frame
	run    []byte
	runKey bool
	runOK  bool // nothing but the end is missing so far
	pads   int

	// the frame a recorder has to assemble
	open  bool
	begun time.Duration

	waiting    bool // for a key frame
	curPid     uint16
	lastPid    uint16 // of the last frame completed
	lastPidOK  bool
	wrotePid   uint16 // of the last frame written
	wrotePidOK bool

	written []*expect
	dropped bool // by the current packet, or still waiting
}

type expect struct {
	key  bool
	data []byte
	ts   uint32
	w, h int
}

const (
	frameTimeout = 2 * time.Second
)

func newMedia(ivf bool) *media {
	resetEnv()
	m := &media{rq: &requester{}, waiting: true}
	m.rec = recorder.NewWebmRecorder("/rec/a.webm", 0600, 8, 4, true, ivf)
	m.rec.SetKeyframeRequester(m.rq)
	m.rec.SetHasVideo(true)
	m.seq = sym.U16("seq")
	m.ts = sym.U32("ts")
	return m
}

func (m *media) discard() {
	m.open = false
	m.waiting = true
	m.dropped = true
}

// packet describes one VP8 packet to send.
type packet struct {
	gap    int // 0 next in sequence, 1 a packet was lost and signalled, 2 lost without notice, 3 an old packet again
	start  bool
	part   bool // starts a later partition
	key    bool
	marker bool
	bad    int  // 0 fine, 1 too few bytes, 2 bad dimensions
	pad    bool // no payload
	short  bool // nothing but the descriptor
	extra  []byte
	w, h   int // of a key frame, if not 640x480
	pidInc uint16
}

func (m *media) push(p packet) {
	now := sym.Now()
	m.n++
	m.dropped = false
	if m.n > 1 {
		m.seq++
	}
	if p.gap > 0 {
		switch p.gap {
		case 1:
			m.rec.NotifySkippedPacket(m.seq)
			m.seq++
		case 2:
			m.seq++
		case 3:
			m.seq -= 2
		}
		m.runOK = false
		if m.open {
			sym.Cover("loss inside a frame")
			m.discard()
		}
	}
	pkt := &rtp.Packet{Header: rtp.Header{SequenceNumber: m.seq, Timestamp: m.ts, Marker: p.marker}}
	if p.pad {
		before := len(blocksOf(1))
		m.rec.PushVideo(pkt)
		sym.Assert(len(blocksOf(1)) == before, "C13: nothing is written for packets without payload")
		return
	}
	// descriptor
	var buf []byte
	d := byte(0) // reserved and non-reference bits
	if !m.plain {
		d = sym.U8("reserved") & 0x60
	}
	if p.start || p.part {
		d |= 0x10
	}
	if p.part {
		d |= byte(sym.Int("part", 1, 7))
	}
	if p.start && m.pids {
		m.pid = (m.pid + p.pidInc) & 0x7fff
	}
	if m.pids {
		buf = append(buf, d|0x80, 0x80, 0x80|byte(m.pid>>8), byte(m.pid))
	} else {
		buf = append(buf, d)
	}
	// data
	n := 10
	if p.bad == 1 {
		n = 2
	}
	if p.short {
		n = 0
	}
	data := make([]byte, n)
	if !m.plain {
		data = sym.Bytes("data", n)
	}
	if p.start && n > 0 {
		data[0] &= 0xfe
		if !p.key {
			data[0] |= 1
		}
		if n == 10 {
			if p.bad == 2 {
				data[6], data[7] = 15, 0
			} else {
				data[6], data[7] = 0x80, 0x02 // 640
			}
			data[8], data[9] = 0xe0, 0x01 // 480
			if !m.plain && p.bad != 2 {
				data[7] |= sym.U8("hscale") & 0xc0
				data[9] |= sym.U8("vscale") & 0xc0
			}
		}
	}
	if p.w != 0 {
		data[6], data[7], data[8], data[9] = byte(p.w), byte(p.w>>8), byte(p.h), byte(p.h>>8)
	}
	if len(p.extra) > 0 {
		data = append(data, byte(m.n), byte(m.n>>8))
		data = append(data, p.extra...)
	}
	buf = append(buf, data...)
	pkt.Payload = buf

	switch {
	case p.short:
		m.runOK = false
	case p.start:
		m.run, m.runKey, m.runOK = append([]byte(nil), data...), p.key, true
		m.curPid = m.pid
	case m.runOK:
		m.run = append(m.run, data...)
	}

	// what has to happen
	switch {
	case p.short:
		sym.Cover("packet without data")
		m.discard()
	case p.start:
		if m.open {
			sym.Cover("frame without an end")
			m.discard()
		}
		if m.pids && m.lastPidOK && (m.pid-m.lastPid)&0x7fff > 1 && (m.pid-m.lastPid)&0x7fff < 0x7000 {
			sym.Cover("picture ids reveal missing frames")
			m.waiting = true
		}
		if p.key {
			m.waiting = false
		}
		m.dropped = m.dropped || m.waiting
		m.open, m.begun = !m.waiting, now
	case m.open && now-m.begun > frameTimeout:
		sym.Cover("frame took too long")
		m.discard()
	case m.open:
	default:
		// the start of this frame is missing, or a key frame
		sym.Cover("frame without a start")
		m.discard()
	}
	var exp *expect
	if m.open && p.marker {
		ok := len(m.run) >= 10 && !(m.runKey && p.bad == 2 && p.start)
		if m.runKey && len(m.run) >= 10 && !p.start {
			ok = int(m.run[6])|int(m.run[7])<<8&0x3fff >= 16 && int(m.run[8])|int(m.run[9])<<8&0x3fff >= 16
		}
		m.lastPid, m.lastPidOK = m.curPid, m.pids
		if !ok {
			sym.Cover("invalid frame")
			m.discard()
		} else {
			exp = &expect{key: m.runKey, data: m.run, ts: m.ts, w: 640, h: 480}
			m.open = false
		}
	}

	before := len(blocksOf(1))
	m.rec.PushVideo(pkt)
	m.check(exp, before, now, p)
	if p.marker {
		m.runOK = false
	}
}

func (m *media) check(exp *expect, before int, now time.Duration, p packet) {
	got := blocksOf(1)[before:]
	sym.Assert(len(got) <= 1, "C13: a packet completes at most one frame")
	for _, b := range got {
		sym.Assert(m.runOK && p.marker, "C13: only frames with a start, an end and no hole are written")
		if m.runOK && p.marker {
			sym.Assert(same(b.data, m.run), "C13: a frame is written as the concatenation of its packets' payloads")
			sym.Assert(b.key == m.runKey, "C13: the key-frame flag is that of the frame")
		}
		if !b.key {
			sym.Assert(exp != nil || !m.waiting, "C14: after a discarded frame nothing is written until a key frame")
			if m.pids && m.wrotePidOK {
				d := (m.curPid - m.wrotePid) & 0x7fff
				sym.Assert(d <= 1 || d >= 0x7000, "C14: after missing frames nothing is written until a key frame")
			}
		}
		m.wrotePid, m.wrotePidOK = m.curPid, m.pids
	}
	if exp != nil {
		sym.Assert(len(got) == 1, "C13: a complete, valid frame that need not wait for a key frame is written")
		m.written = append(m.written, exp)
		if exp.key {
			sym.Cover("key frame written")
		} else {
			sym.Cover("delta frame written")
		}
		if !p.start {
			sym.Cover("frame of several packets written")
			if exp.key {
				sym.Cover("key frame of several packets written")
			}
		}
	}
	all := blocksOf(1)
	if len(all) > 0 {
		sym.Assert(all[0].key, "C14: the first video frame written is a key frame")
	}
	sym.Observe("blocks", len(all))
	// key-frame requests
	rq := m.rq.at
	if m.dropped {
		sym.Cover("video dropped")
		sym.Assert(len(rq) > 0, "C19: a key frame is requested when video is dropped")
		if len(rq) > 0 {
			sym.Assert(now-rq[len(rq)-1] <= time.Second, "C19: dropping video asks for a key frame unless that was done within the last second")
		}
	}
	if k := len(rq); k > 1 {
		sym.Assert(rq[k-1]-rq[k-2] > time.Second, "C19: requests are more than a second apart")
		sym.Cover("second request")
	}
}

// finish closes the recorder and looks at the recording as a whole.
func (m *media) finish() {
	m.rec.Close()
	m.rec.Close()
	all := blocksOf(1)
	for i, b := range all {
		sym.Assert(same(b.data, b.ref), "C13: a written frame is not modified afterwards")
		if i >= len(m.written) {
			break
		}
		adv := int64(m.written[i].ts - m.written[0].ts) // units of 1/90 ms
		if i == 0 {
			sym.Assert(b.ts == 0, "C16: the first video frame is written at time 0")
		} else {
			sym.Assert(sym.And(b.ts*90 <= adv+90, b.ts*90 > adv-180), "C16: a frame is written at the time of its RTP timestamp, relative to the first")
			sym.Assert(sym.Or(m.written[i].ts < m.written[i-1].ts, b.ts >= all[i-1].ts), "C16: timestamps never decrease")
		}
	}
	if k := len(all); k > 0 {
		sym.Assert(m.rec.VideoTimestamp().Milliseconds() == all[k-1].ts, "C16: the reported position is that of the last written frame")
	}
	sym.Assert(late == 0, "C17: nothing is written or closed again after closing")
	n := 0
	for _, f := range files {
		if f.path == "/rec/a.webm" {
			n++
		}
	}
	sym.Assert(n <= 1, "C17: the recording file is opened at most once")
}

// assemble sends packets of every kind.
func (m *media) assemble(p *packet) {
	switch sym.Choose("kind", 4+sym.Param("odd", 2)) {
	case 0: // continuation
	case 1:
		p.start = true
	case 2:
		p.start, p.key = true, true
	case 3:
		p.part = true
	case 4:
		p.pad = true
		p.marker = sym.Bool("padmarker")
		return
	case 5:
		p.short = true
		p.start = sym.Choose("shortstart", 2) == 1
	}
	p.marker = sym.Choose("marker", 2) == 1
}

// CheckAssembly: streams of packets of every kind, with losses between them.
func CheckAssembly() {
	m := newMedia(false)
	n := sym.Param("N", 4)
	padded := false
	for i := 0; i < n; i++ {
		p := packet{}
		if i == 0 && sym.Param("keyfirst", 1) == 1 {
			p.start, p.key = true, true
			p.marker = sym.Choose("marker", 2) == 1
		} else {
			m.assemble(&p)
		}
		if i > 0 {
			if padded || p.pad {
				p.gap = sym.Choose("gap", 3)
			} else {
				p.gap = sym.Choose("gap", 4)
			}
			padded = p.pad
		}
		if p.start {
			m.ts += 3000
		}
		m.push(p)
	}
	m.finish()
}

// CheckPictureIDs: whole frames with picture ids, some missing or invalid.
func CheckPictureIDs() {
	m := newMedia(false)
	m.pids = true
	base := []uint16{0, 0x7ffe, 126}
	m.pid = base[sym.Choose("pid", len(base))]
	n := sym.Param("N", 4)
	mixed := sym.Param("mixed", 0) == 1 // some frames carry no picture id
	for i := 0; i < n; i++ {
		if mixed {
			m.pids = sym.Choose("pids", 2) == 1
		}
		p := packet{start: true, marker: true, pidInc: 1}
		p.key = i == 0 || sym.Choose("key", 2) == 1
		p.bad = sym.Choose("bad", 3)
		if i == 0 {
			p.pidInc = 0
		} else if sym.Choose("missing", 2) == 1 {
			p.pidInc = uint16(sym.Int("pidInc", 2, 0x6fff))
			p.gap = sym.Choose("gap", 3)
		}
		m.ts += 3000
		m.push(p)
	}
	m.finish()
}

// CheckTiming: frames of one or two packets with time passing, for timestamps, requests and time-outs.
func CheckTiming() {
	m := newMedia(false)
	n := sym.Param("N", 4)
	steps := []uint32{3000, 0, 89, 15 * 90000, 1 << 31}
	for i := 0; i < n; i++ {
		p := packet{start: true, marker: true}
		switch sym.Choose("kind", 4) {
		case 0:
			p.key = true
		case 1:
		case 2:
			p.key, p.bad = true, 2
		case 3:
			p.start = false
		}
		if i > 0 {
			if p.start {
				m.ts += steps[sym.Choose("tsstep", sym.Param("steps", 3))]
			}
			if sym.Param("wait", 1) == 1 {
				sym.Advance(time.Duration(sym.Int("dt", 0, 2500)) * time.Millisecond)
			}
		}
		if p.start && sym.Choose("split", 2) == 1 {
			p.marker = false
		}
		m.push(p)
	}
	m.finish()
}
