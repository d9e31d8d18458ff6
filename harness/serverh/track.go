package serverh

import (
	"context"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	pwebrtc "github.com/pion/webrtc/v3"
)

// taken is something a track handed to the recorder.
type taken struct {
	p     *rtp.Packet // nil: a skip notice
	at    time.Duration
	seq   uint16
	audio bool
}

// fakeRec is a recorder that notes what it is given.
type fakeRec struct {
	log                []taken
	videoTS, audioTS   time.Duration
	hasAudio, hasVideo bool
	requester          recorder.KeyframeRequester
	kinds              func() bool // whether the kinds of media are as expected
	early              bool        // media came before they were
}

func (r *fakeRec) GetFilePath() string { return "/rec/f.webm" }
func (r *fakeRec) PushVideo(p *rtp.Packet) {
	r.log = append(r.log, taken{p: p, seq: p.SequenceNumber, at: sym.Now()})
	r.videoTS += time.Second
	r.early = r.early || r.kinds != nil && !r.kinds()
}
func (r *fakeRec) PushAudio(p *rtp.Packet) {
	r.log = append(r.log, taken{p: p, seq: p.SequenceNumber, at: sym.Now(), audio: true})
	r.audioTS += 2 * time.Second
	r.early = r.early || r.kinds != nil && !r.kinds()
}
func (r *fakeRec) NotifySkippedPacket(seq uint16)                    { r.log = append(r.log, taken{seq: seq}) }
func (r *fakeRec) WithContext(ctx context.Context)                   {}
func (r *fakeRec) VideoTimestamp() time.Duration                     { return r.videoTS }
func (r *fakeRec) AudioTimestamp() time.Duration                     { return r.audioTS }
func (r *fakeRec) SetHasAudio(b bool)                                { r.hasAudio = b }
func (r *fakeRec) SetHasVideo(b bool)                                { r.hasVideo = b }
func (r *fakeRec) SetKeyframeRequester(k recorder.KeyframeRequester) { r.requester = k }
func (r *fakeRec) GetHasAudio() bool                                 { return r.hasAudio }
func (r *fakeRec) GetHasVideo() bool                                 { return r.hasVideo }
func (r *fakeRec) Close() time.Duration                              { return 0 }

// flow is a report of the flow of a track.
type flow struct {
	flowing bool
	ts      time.Duration
	closed  bool
	at      time.Duration
	pos     time.Duration // of the recorder then
}

// rig is a WebRTC connection with a recorder, without a server.
type rig struct {
	w     *webrtc.WebRTC
	p     *peer
	rec   *fakeRec
	flows []flow
}

func newRig(jitter, timeout uint16) *rig {
	reset()
	g := &rig{rec: &fakeRec{}}
	var cfg config.WebRTC
	cfg.RTCMinPort, cfg.RTCMaxPort = 10000, 20000
	cfg.JitterBuffer, cfg.JitterBufferPktTimeout = jitter, timeout
	g.w = webrtc.NewWebRTC(context.WithValue(ctx, "session", "s1"), cfg)
	g.w.SetConnectionStateCallback(func(s pwebrtc.ICEConnectionState) {})
	g.w.SetFlowCallback(func(f bool, ts time.Duration, c bool) {
		g.flows = append(g.flows, flow{f, ts, c, sym.Now(), g.rec.videoTS + g.rec.audioTS})
	})
	g.w.SetSDPOffer(pwebrtc.SessionDescription{Type: pwebrtc.SDPTypeOffer, SDP: "x"})
	if _, err := g.w.Init(g.rec); err != nil {
		sym.Assert(false, "C02: a connection with a working WebRTC stack is set up")
	}
	g.p = env.peers[0]
	return g
}

// header is that of a packet whose other fields can be anything.
func header(seq uint16) rtp.Header {
	return rtp.Header{SequenceNumber: seq, Marker: sym.Bool("marker"), Padding: sym.Bool("padding"), Timestamp: sym.U32("timestamp"), PayloadType: sym.U8("payload type")}
}

// CheckMedia feeds a track K packets in any order, with losses and duplicates,
// and looks at what reaches the recorder.
func CheckMedia() {
	k := sym.Param("K", 4)
	size := sym.Param("size", 4)
	const timeout = 100 * time.Millisecond
	g := newRig(uint16(size), uint16(timeout/time.Millisecond))
	audio := sym.Bool("audio")
	kind := pwebrtc.RTPCodecTypeVideo
	if audio {
		kind = pwebrtc.RTPCodecTypeAudio
	}
	t := g.p.track(kind)
	base := sym.U16("start")
	offsets := map[*rtp.Packet]int{}
	received := make([]bool, k+2) // by offset
	var order []int
	newest, inOrder := 0, true
	for i := 0; i < k; i++ {
		off := 0
		if i > 0 {
			off = sym.Choose("offset", k+1)
			if sym.Bool("wait") {
				sym.Advance(timeout + 10*time.Millisecond)
				inOrder = false
			}
		}
		p := &rtp.Packet{Header: header(base + uint16(off)), Payload: []byte{byte(off)}}
		if !received[off] {
			order = append(order, off)
		}
		received[off] = true
		offsets[p] = off
		if off > newest {
			newest = off
		}
		if newest-off >= size || off >= size {
			inOrder = false
		}
		t.in <- p
		sym.Settle()
	}
	last, told, toldAny := -1, uint16(0), false
	delivered := 0
	for _, x := range g.rec.log {
		if x.p == nil {
			sym.Assert(last >= 0, "C22: nothing is skipped before the first packet")
			told, toldAny = x.seq, true
			continue
		}
		sym.Assert(x.audio == audio, "C22: packets go to the input of their kind")
		off, ours := offsets[x.p]
		sym.Assert(ours && x.p.SequenceNumber == base+uint16(off) && len(x.p.Payload) == 1 && x.p.Payload[0] == byte(off), "C22: packets reach the recorder unchanged")
		sym.Assert(off > last, "C22: packets reach the recorder in order, once")
		if off > last+1 && last >= 0 {
			sym.Cover("skipped")
			sym.Assert(toldAny, "C22: the recorder is told of skipped packets before the packet after the gap")
			sym.Assert(!toldAny || told == base+uint16(off-1), "C22: the recorder is told the last skipped packet")
			if base+uint16(off-1) == 0 {
				sym.Cover("skipped number 0")
			}
		} else {
			sym.Assert(!toldAny, "C22: the recorder is only told of packets that were skipped")
		}
		toldAny = false
		last = off
		delivered++
	}
	sym.Assert(!g.rec.early, "C17: the recorder knows the kind of a track before its media")
	// everything up to the first missing packet arrives
	complete := 0
	for complete < len(received) && received[complete] {
		complete++
	}
	if inOrder {
		if delivered > 2 && order[1] > 1 {
			sym.Cover("reordered")
		}
		sym.Assert(delivered == complete, "C22: reordering within the jitter window loses nothing")
	}
	if last >= 0 && base+uint16(last) < base {
		sym.Cover("wrapped")
	}
	t.end()
	sym.Settle()
	sym.Assert(t.ran, "C28: a track that ended does not hang")
	sym.Observe("log", len(g.rec.log), last)
	sym.Cover("done")
}

// CheckMediaBursts feeds a track runs of packets with gaps between them, which
// may be filled late.
func CheckMediaBursts() {
	const size = 512
	const timeout = 200 * time.Millisecond
	g := newRig(size, uint16(timeout/time.Millisecond))
	audio := sym.Bool("audio")
	kind := pwebrtc.RTPCodecTypeVideo
	if audio {
		kind = pwebrtc.RTPCodecTypeAudio
	}
	t := g.p.track(kind)
	base := []uint16{0, 65500, 30000}[sym.Choose("start", 3)]
	var sent []*rtp.Packet // by offset
	put := func(off int) {
		for len(sent) <= off {
			sent = append(sent, nil)
		}
		p := &rtp.Packet{Header: header(base + uint16(off))}
		if off%3 > 0 {
			p.Payload = []byte{byte(off)}
		}
		sent[off] = p
		t.in <- p
		sym.Settle()
	}
	next := 0
	run := func(n int) {
		for ; n > 0; n-- {
			put(next)
			next++
		}
	}
	lossless := true
	run([]int{1, 70}[sym.Choose("first", 2)])
	rounds := sym.Param("rounds", 2)
	for i := 0; i < rounds; i++ {
		gap := []int{0, 1, 40, 300, 5000, 30000}[sym.Choose("gap", 6)]
		first := next
		next += gap
		run([]int{2, 100}[sym.Choose("run", 2)])
		fill := 0
		if gap > 0 && gap <= 300 {
			fill = sym.Choose("filled", 4)
		} else if gap > 0 {
			lossless = false
		}
		switch fill {
		case 0: // never
			lossless = lossless && gap == 0
		case 1: // in order
			for off := first; off < first+gap; off++ {
				put(off)
			}
		case 2: // the other way round
			for off := first + gap - 1; off >= first; off-- {
				put(off)
			}
		case 3: // too late
			lossless = false
			sym.Advance(timeout + 10*time.Millisecond)
			run(1)
			for off := first; off < first+gap; off++ {
				put(off)
			}
		}
		if sym.Bool("wait") {
			sym.Advance(timeout + 10*time.Millisecond)
			run(1)
		}
	}
	// the end of the stream is without losses
	tail := next
	run(12)
	sym.Advance(700 * time.Millisecond) // all that is missing was given up
	run(2)
	last, told, skip := -1, uint16(0), false
	delivered := 0
	for _, x := range g.rec.log {
		if x.p == nil {
			told, skip = x.seq, true
			continue
		}
		sym.Assert(x.audio == audio, "C22: packets go to the input of their kind")
		off := last + int(x.p.SequenceNumber-base-uint16(last))
		sym.Assert(off > last, "C22: packets reach the recorder in order, once")
		sym.Assert(off < len(sent) && sent[off] == x.p, "C22: packets reach the recorder unchanged")
		sym.Assert(skip == (off > last+1) && (!skip || told == base+uint16(off-1)), "C22: the recorder is told the last skipped packet")
		skip = false
		last = off
		delivered++
		if off >= tail {
			tail++
		}
	}
	sym.Assert(tail == next, "C22: the stream goes on after losses")
	if lossless {
		sym.Cover("lossless")
		sym.Assert(delivered == next, "C22: reordering within the jitter window loses nothing")
	} else {
		sym.Cover("losses")
	}
	t.end()
	sym.Settle()
	sym.Assert(t.ran, "C28: a track that ended does not hang")
	sym.Cover("done")
}

var _ = rtcp.Packet(nil)

// nackCheck looks at the NACKs sent since the last call.
type nackCheck struct {
	t      *track
	counts map[uint16]int
	sender uint32
}

func (c *nackCheck) look(missing func(seq uint16) bool) {
	for _, m := range env.rtcp {
		n, ok := m.(*rtcp.TransportLayerNack)
		if !ok {
			continue
		}
		sym.Cover("nack")
		sym.Assert(n.MediaSSRC == c.t.ssrc, "C12: NACKs are addressed to their track")
		sym.Assert(len(n.Nacks) > 0, "C12: NACKs name packets")
		for _, pair := range n.Nacks {
			for _, seq := range pair.PacketList() {
				sym.Assert(missing(seq), "C12: only missing packets are re-requested")
				c.counts[seq]++
				sym.Assert(c.counts[seq] <= 10, "C12: a packet is re-requested at most ten times")
			}
		}
	}
	env.rtcp = nil
}

// CheckNack loses some of the packets of a track; one of them may come later.
func CheckNack() {
	const tick = 40 * time.Millisecond
	const timeout = 2 * time.Second
	lostMax := sym.Param("lost", 3)
	g := newRig(16, uint16(timeout/time.Millisecond))
	kind := pwebrtc.RTPCodecTypeVideo
	if sym.Param("audio", 0) == 1 {
		kind = pwebrtc.RTPCodecTypeAudio
	}
	other := pwebrtc.RTPCodecTypeVideo + pwebrtc.RTPCodecTypeAudio - kind
	o := g.p.track(other) // a track without losses
	t := g.p.track(kind)
	// where the numbers start within the receive log: around its words and its end
	lows := []uint16{0, 50, 60, 1010, 1021, 1023}
	if sym.Param("lows", 0) == 1 {
		lows = nil
		for i := uint16(0); i < 18; i++ {
			lows = append(lows, 1023-i, 63-i)
		}
	}
	base := sym.U16("start")&^1023 | lows[sym.Choose("start low", len(lows))]
	lost := make([]bool, lostMax+2)
	any := false
	for i := 1; i <= lostMax; i++ {
		lost[i] = sym.Bool("lost")
		any = any || lost[i]
	}
	sym.Assume(any)
	n := lostMax + 12
	put := func(off int) {
		t.in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: base + uint16(off)}, Payload: []byte{byte(off)}}
		sym.Settle()
	}
	for i := 0; i < n; i++ {
		if i > lostMax || !lost[i] {
			put(i)
		}
		o.push(uint16(i))
	}
	// the packets that are missing
	missing := func(seq uint16) bool {
		for i := 1; i <= lostMax; i++ {
			if lost[i] && seq == base+uint16(i) {
				return true
			}
		}
		return false
	}
	// given up packets behind a packet that arrived wait for the jitter time-out
	count := func() (n int) {
		for i := 1; i <= lostMax; i++ {
			if lost[i] && !lost[i-1] {
				n++
			}
		}
		return
	}
	gaps := count()
	late := sym.Choose("late packet", lostMax+1) // 0: none
	sym.Assume(late == 0 || lost[late])
	when := 0
	if late > 0 {
		rounds := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
		if sym.Param("rounds", 13) == 4 {
			rounds = []int{1, 9, 10, 12}
		}
		when = rounds[sym.Choose("late round", len(rounds))]
	}
	c := &nackCheck{t: t, counts: map[uint16]int{}}
	c.look(missing)
	for round := 0; round < 13; round++ {
		if late > 0 && round == when {
			put(late)
			lost[late] = false
			gaps = max(gaps, count())
			if c.counts[base+uint16(late)] == 10 {
				sym.Cover("came after the last attempt")
			}
		}
		sym.Advance(tick)
		c.look(missing)
		if round == 1 {
			for i := 1; i <= lostMax; i++ {
				if lost[i] {
					sym.Assert(c.counts[base+uint16(i)] > 0, "C12: missing packets are re-requested")
				}
			}
		}
	}
	for i := 1; i <= lostMax; i++ {
		if lost[i] && base+uint16(i) < base {
			sym.Cover("gave up a packet after a wrap")
		}
	}
	// the stream moves on
	last := func() uint16 {
		if len(g.rec.log) == 0 {
			return base - 1
		}
		return g.rec.log[len(g.rec.log)-1].seq
	}
	put(n)
	if gaps == 1 {
		sym.Cover("gave up")
		sym.Assert(last() == base+uint16(n), "C12: the stream moves on once the missing packets were given up")
	}
	for i := 0; i < 2*gaps; i++ {
		sym.Advance(timeout)
		n++
		put(n)
	}
	sym.Assert(last() == base+uint16(n), "C12: the stream moves on")
	c.look(func(seq uint16) bool { return false })
	t.end()
	o.end()
	sym.Settle()
	sym.Assert(t.ran && o.ran, "C28: a track that ended does not hang")
	sym.Advance(time.Second)
	sym.Assert(len(env.rtcp) == 0, "C12: nothing is requested from a track that ended")
	sym.Cover("done")
}

// CheckNackBursts loses bursts of packets of two video tracks, some of them come
// late; or one packet after the other.
func CheckNackBursts() {
	const tick = 40 * time.Millisecond
	g := newRig(512, 2000)
	episodes := 1
	gaps := []int{1, 6, 17, 40, 200}
	var gap [2]int
	if sym.Bool("many") {
		episodes = 13
		gap[sym.Choose("track", 2)] = 1
	} else {
		for i := range gap {
			if j := sym.Choose("gap", len(gaps)+1); j > 0 {
				gap[i] = gaps[j-1]
			}
		}
	}
	base := []uint16{0, 1000, 65500}[sym.Choose("start", 3)]
	late := sym.Bool("half comes late")
	var ts [2]*track
	var cs [2]*nackCheck
	var next [2]uint16
	for i := range ts {
		ts[i] = g.p.track(pwebrtc.RTPCodecTypeVideo)
		cs[i] = &nackCheck{t: ts[i], counts: map[uint16]int{}}
		next[i] = base
	}
	put := func(i int, seq uint16) {
		ts[i].in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: seq, SSRC: ts[i].ssrc}}
		sym.Settle()
	}
	more := func(i, n int) {
		for ; n > 0; n-- {
			put(i, next[i])
			next[i]++
		}
	}
	for e := 0; e < episodes; e++ {
		var lost [2]map[uint16]bool
		var first [2]uint16
		for i := range ts {
			more(i, 1)
			lost[i] = map[uint16]bool{}
			first[i] = next[i]
			for j := 0; j < gap[i]; j++ {
				lost[i][next[i]] = true
				next[i]++
			}
			more(i, 12)
		}
		for round := 0; round < 13; round++ {
			if late && round == 3 {
				for i := range ts {
					for j := 0; j < gap[i]/2; j++ {
						put(i, first[i]+uint16(j))
						delete(lost[i], first[i]+uint16(j))
					}
				}
			}
			sym.Advance(tick)
			all := env.rtcp
			for i, c := range cs {
				env.rtcp = nil
				for _, m := range all {
					if n, ok := m.(*rtcp.TransportLayerNack); ok && n.MediaSSRC == ts[i].ssrc {
						env.rtcp = append(env.rtcp, m)
					}
				}
				c.look(func(seq uint16) bool { return lost[i][seq] })
				if round == 1 {
					for seq := range lost[i] {
						sym.Assert(c.counts[seq] > 0, "C12: all missing packets are re-requested")
					}
				}
			}
			for _, m := range all {
				if n, ok := m.(*rtcp.TransportLayerNack); ok {
					sym.Assert(n.MediaSSRC == ts[0].ssrc || n.MediaSSRC == ts[1].ssrc, "C12: NACKs are addressed to their track")
				}
			}
			env.rtcp = nil
		}
		for i := range ts {
			more(i, 1)
			moved := false
			for _, x := range g.rec.log {
				moved = moved || x.p != nil && x.p.SSRC == ts[i].ssrc && x.seq == next[i]-1
			}
			sym.Assert(moved, "C12: the stream moves on once the missing packets were given up")
			cs[i].counts = map[uint16]int{}
		}
		g.rec.log = nil
	}
	for i := range ts {
		ts[i].end()
	}
	sym.Settle()
	sym.Assert(ts[0].ran && ts[1].ran, "C28: a track that ended does not hang")
	sym.Cover("done")
}

// CheckNackReuse loses a packet, gets it late, and loses the packet that has its
// number one cycle of the numbers later.
func CheckNackReuse() {
	const tick = 40 * time.Millisecond
	g := newRig(16, 2000)
	t := g.p.track(pwebrtc.RTPCodecTypeVideo)
	base := uint16(sym.Choose("start", 2)) * 40000
	put := func(off int) {
		t.in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: base + uint16(off)}, Payload: []byte{byte(off)}}
		sym.Settle()
	}
	const x = 1
	put(0)
	for i := 2; i < 14; i++ {
		put(i)
	}
	rounds := sym.Choose("rounds", 13)
	c := &nackCheck{t: t, counts: map[uint16]int{}}
	for i := 0; i < rounds; i++ {
		sym.Advance(tick)
		c.look(func(seq uint16) bool { return seq == base+x })
	}
	put(x)
	sym.Advance(6 * time.Second)
	env.rtcp = nil
	// a whole cycle, the most of it in jumps
	next := 14
	end := 65536 + x
	for next < end-1100 {
		next += 20000
		if next > end-1100 {
			next = end - 1100
		}
		put(next)
	}
	for next++; next < end+14; next++ {
		if next != end {
			put(next)
		}
	}
	c.counts = map[uint16]int{}
	missing := false
	for i := 0; i < 2; i++ {
		sym.Advance(tick)
		c.look(func(seq uint16) bool { return seq == base+x })
	}
	for _, n := range c.counts {
		missing = missing || n > 0
	}
	sym.Assert(missing, "C12: missing packets are re-requested, also a cycle of the numbers later")
	sym.Cover("done")
}

// CheckFlow lets packets come and stay away, and looks at the flow reports.
func CheckFlow() {
	k := sym.Param("K", 5)
	many := sym.Param("many", 0)
	// the polling periods
	const idle, busy = 100 * time.Millisecond, 1000 * time.Millisecond
	g := newRig(16, 50)
	kind := pwebrtc.RTPCodecTypeVideo
	if sym.Bool("audio") {
		kind = pwebrtc.RTPCodecTypeAudio
	}
	var seq uint16
	if many > 0 {
		seq = uint16(sym.Choose("start low", 2)) * 65400
	} else {
		seq = sym.U16("start")&^15 | uint16(sym.Choose("start low", 2))*14
	}
	t := g.p.track(kind)
	sym.Advance(7 * time.Millisecond)
	seen := 0
	flowing := false
	var since time.Duration // of the first packet recorded while not flowing
	look := func() {
		now := sym.Now()
		for ; seen < len(g.flows); seen++ {
			f := g.flows[seen]
			sym.Assert(f.flowing != flowing, "C21: flow reports alternate, starting with flowing")
			sym.Assert(!f.closed, "C21: the final report comes at the end of the track")
			sym.Assert(f.ts == f.pos, "C21: flow reports carry the position of the recording")
			recent := false
			period := idle
			if flowing {
				period = busy
			}
			for _, x := range g.rec.log {
				recent = recent || x.p != nil && x.at <= f.at && x.at > f.at-period
			}
			if f.flowing {
				sym.Cover("flowing")
				sym.Assert(recent, "C21: flowing is only reported when packets were recorded")
			} else {
				sym.Cover("not flowing")
				sym.Assert(!recent, "C21: not_flowing is only reported after a period without packets")
			}
			flowing = f.flowing
			since = f.at
		}
		last := time.Duration(-1)
		first := time.Duration(-1) // recorded since the last report
		for _, x := range g.rec.log {
			if x.p != nil {
				last = x.at
				if x.at > since && first < 0 {
					first = x.at
				}
			}
		}
		if flowing {
			sym.Assert(now-last < 2*busy, "C21: not_flowing is reported once a period passes without packets")
		} else if first >= 0 {
			sym.Assert(now-first < idle, "C21: flowing is reported within a period of packets being recorded")
		}
	}
	waits := []time.Duration{30 * time.Millisecond, 110 * time.Millisecond, 1010 * time.Millisecond, 2010 * time.Millisecond}
	for i := 0; i < k; i++ {
		if what := sym.Choose("packet", 3); what > 0 {
			n := 1
			if many > 0 && what == 2 {
				n = many
			} else {
				seq += uint16(what - 1) // 2: one is missing
			}
			for ; n > 0; n-- {
				t.in <- &rtp.Packet{Header: rtp.Header{SequenceNumber: seq}, Payload: []byte{1}}
				seq++
			}
		}
		sym.Settle()
		look()
		sym.Advance(waits[sym.Choose("time", len(waits))])
		look()
	}
	t.end()
	sym.Settle()
	sym.Assert(t.ran, "C28: a track that ended does not hang")
	sym.Assert(len(g.flows) == seen+1, "C21: one final report is made when a track ends")
	if len(g.flows) == seen+1 {
		f := g.flows[seen]
		sym.Assert(!f.flowing && f.closed, "C21: the final report says that the track has ended")
		sym.Assert(f.ts == f.pos, "C21: the final report carries the last position")
	}
	sym.Advance(5 * time.Second)
	sym.Assert(len(g.flows) == seen+1, "C21: no report follows the final one")
	sym.Cover("done")
}

// quietRec is a recorder without any state.
type quietRec struct{ recorder.Recorder }

func (r quietRec) PushVideo(p *rtp.Packet)                           {}
func (r quietRec) PushAudio(p *rtp.Packet)                           {}
func (r quietRec) NotifySkippedPacket(seq uint16)                    {}
func (r quietRec) VideoTimestamp() time.Duration                     { return 0 }
func (r quietRec) AudioTimestamp() time.Duration                     { return 0 }
func (r quietRec) SetHasAudio(b bool)                                {}
func (r quietRec) SetHasVideo(b bool)                                {}
func (r quietRec) SetKeyframeRequester(k recorder.KeyframeRequester) {}

// CheckTrackRaces runs everything a connection does at the same time.
func CheckTrackRaces() {
	reset()
	var cfg config.WebRTC
	cfg.RTCMinPort, cfg.RTCMaxPort = 10000, 20000
	cfg.JitterBuffer, cfg.JitterBufferPktTimeout = 16, 5000
	w := webrtc.NewWebRTC(context.WithValue(ctx, "session", "s1"), cfg)
	w.SetConnectionStateCallback(func(s pwebrtc.ICEConnectionState) {})
	w.SetFlowCallback(func(f bool, ts time.Duration, c bool) {})
	w.SetSDPOffer(pwebrtc.SessionDescription{Type: pwebrtc.SDPTypeOffer, SDP: "x"})
	_, err := w.Init(quietRec{})
	sym.Assert(err == nil, "C02: a connection with a working WebRTC stack is set up")
	p := env.peers[0]
	p.ice(pwebrtc.ICEConnectionStateConnected)
	tracks := []*track{p.track(pwebrtc.RTPCodecTypeVideo), p.track(pwebrtc.RTPCodecTypeVideo), p.track(pwebrtc.RTPCodecTypeAudio)}
	tracks = tracks[:sym.Param("tracks", 2)]
	put := func(seq uint16) {
		for _, t := range tracks {
			t.push(seq)
		}
	}
	for seq := uint16(0); seq < 14; seq++ {
		if seq != 2 { // it will be given up
			put(seq)
		}
	}
	what := sym.Choose("scenario", 3)
	if what == 0 {
		go w.RequestKeyframe()
		sym.Settle()
		for i := 0; i < 12; i++ {
			if i == 11 {
				put(14)
			}
			sym.Advance(40 * time.Millisecond)
		}
		put(15)
		sym.Settle()
	} else if what == 1 {
		sym.Advance(2900 * time.Millisecond)
		go w.RequestKeyframe()
		sym.Advance(200 * time.Millisecond) // periodic requests
	}
	sym.Schedules(sym.Param("preemptions", 1))
	switch end := sym.Choose("end", 3); end {
	case 0:
		for _, t := range p.tracks {
			t.end()
		}
	case 1:
		p.ice(pwebrtc.ICEConnectionStateFailed)
	case 2:
		go w.Close()
		p.ice(pwebrtc.ICEConnectionStateFailed)
	}
	sym.Settle()
	sym.Schedules(0)
	sym.Advance(10 * time.Second)
	for _, t := range p.tracks {
		sym.Assert(t.ran, "C28: a track that ended does not hang")
	}
	sym.Cover("done")
}
