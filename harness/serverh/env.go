// Package serverh holds the harnesses for internal/server.
package serverh

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"strconv"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/interceptor"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/sdp/v3"
	pwebrtc "github.com/pion/webrtc/v3"
	prom "github.com/prometheus/client_golang/prometheus"
)

var errSim = errors.New("simulated failure")

// gauge stands in for the active-session gauge.
type gauge struct {
	prom.Gauge
	n int
}

func (g *gauge) Inc() { g.n++ }
func (g *gauge) Dec() { g.n-- }

// bus stands in for the message broker.
type bus struct {
	msgs     []message
	bad      int // messages on another channel or that are no JSON objects
	raw      [][]byte
	onAnswer func(m message)
}

type message map[string]string

func (b *bus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {}

func (b *bus) Publish(channel string, msg []byte) {
	m, ok := parse(msg)
	if !ok || channel != "out" {
		b.bad++
	}
	b.raw = append(b.raw, msg)
	b.msgs = append(b.msgs, m)
	if b.onAnswer != nil {
		b.onAnswer(m)
	}
}

// take returns the messages published since the last call.
func (b *bus) take() []message {
	m := b.msgs
	b.msgs = nil
	return m
}

// unescape decodes the escapes of a JSON string.
func unescape(b []byte) (string, bool) {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' {
			out = append(out, b[i])
			continue
		}
		i++
		switch b[i] {
		case '"', '\\', '/':
			out = append(out, b[i])
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'u':
			if i+4 >= len(b) {
				return "", false
			}
			n, err := strconv.ParseUint(string(b[i+1:i+5]), 16, 16)
			if err != nil {
				return "", false
			}
			out = utf8.AppendRune(out, rune(n))
			i += 4
		default:
			return "", false
		}
	}
	return string(out), true
}

// parse reads a flat JSON object. Strings keep a leading quote.
func parse(b []byte) (message, bool) {
	m := message{}
	i := 0
	str := func() (string, bool) {
		if i >= len(b) || b[i] != '"' {
			return "", false
		}
		i++
		start := i
		plain := true
		for i < len(b) && b[i] != '"' {
			if b[i] == '\\' {
				plain = false
				i++
			}
			i++
		}
		if i >= len(b) {
			return "", false
		}
		i++
		if !plain {
			return unescape(b[start : i-1])
		}
		return string(b[start : i-1]), true
	}
	if len(b) == 0 || b[0] != '{' {
		return m, false
	}
	i = 1
	if len(b) == 2 && b[1] == '}' {
		return m, true
	}
	for {
		k, ok := str()
		if !ok || i >= len(b) || b[i] != ':' {
			return m, false
		}
		i++
		var v string
		if i < len(b) && b[i] == '"' {
			if v, ok = str(); !ok {
				return m, false
			}
			v = `"` + v
		} else {
			start := i
			for i < len(b) && b[i] != ',' && b[i] != '}' {
				i++
			}
			v = string(b[start:i])
		}
		if _, dup := m[k]; dup || i >= len(b) {
			return m, false
		}
		m[k] = v
		if b[i] == '}' {
			return m, i == len(b)-1
		}
		i++
	}
}

// Failures of the WebRTC stack, in the order of their use.
const (
	okay = iota
	badBase64
	badSDP
	noInterceptors
	noConnection
	noTransceiver
	badOffer
	noAnswer
	noLocal
	stages
)

// peer is a simulated peer connection.
type peer struct {
	pc      *pwebrtc.PeerConnection
	onTrack func(*pwebrtc.TrackRemote, *pwebrtc.RTPReceiver)
	onICE   func(pwebrtc.ICEConnectionState)
	closed  int
	offer   string
	kinds   []pwebrtc.RTPCodecType
	tracks  []*track
	iceEnd  bool
}

// track is a simulated remote track.
type track struct {
	tr    *pwebrtc.TrackRemote
	kind  pwebrtc.RTPCodecType
	ssrc  uint32
	in    chan *rtp.Packet
	ended chan struct{}
	isEnd bool
	ran   bool // its handler has returned
	mime  string
	fails int // reads that failed
}

// room is a simulated LiveKit room.
type room struct {
	r      *lksdk.Room
	name   string
	closed int
	cb     *lksdk.RoomCallback
	parts  []*lksdk.RemoteParticipant
	pubs   []*pubd
}

// recState is what became of a recorder.
type recState struct {
	r      *recorder.WebmRecorder
	closed int
	video  []*rtp.Packet
	audio  []*rtp.Packet
	log    []event
	late   int // media after closing
}

// event is something that happened to a recorder, in order.
type event struct {
	skip bool
	seq  uint16
}

var (
	env struct {
		b         *bus
		g         *gauge
		s         *server.Server
		cfg       *config.Config
		stage     int // the next WebRTC start fails here
		lkFails   bool
		peers     []*peer
		rooms     []*room
		recs      []*recState
		tracks    []*track
		existing  map[string]bool // files
		decoded   string
		offers    int
		rtcp      []rtcp.Packet
		now       func() time.Duration
		videoTS   time.Duration
		step      time.Duration // a packet lasts
		audioTS   time.Duration
		trackErr  error
		closeErr  bool
		onLocal   func(p *peer) // the local description was set
		onNoLocal func(p *peer) // or not

		published []*pubd // what ConnectToRoom finds in a room
		subFails  int     // the n-th subscription fails
		subs      int
		onSub     func(p *pubd) // a track was subscribed to
		plis      []pli
	}
)

func reset() {
	env.b = &bus{}
	env.g = &gauge{}
	prometheus.Sessions = env.g
	env.cfg = &config.Config{}
	env.cfg.App.Version, env.cfg.App.InstanceId = "v1.2", "i-3"
	env.cfg.Recorder.Directory = "/rec"
	env.cfg.Recorder.FileMode, env.cfg.Recorder.DirFileMode = "0600", "0700"
	env.cfg.Recorder.VideoPacketQueueSize, env.cfg.Recorder.AudioPacketQueueSize = 4, 4
	env.cfg.Recorder.UseCustomSampler = true
	env.cfg.PubSub.Channels.Subscribe, env.cfg.PubSub.Channels.Publish = "in", "out"
	env.cfg.WebRTC.RTCMinPort, env.cfg.WebRTC.RTCMaxPort = 10000, 20000
	env.cfg.WebRTC.JitterBuffer, env.cfg.WebRTC.JitterBufferPktTimeout = 16, 200
	env.s = server.NewServer(env.cfg, env.b)
	env.stage, env.lkFails = 0, false
	env.peers, env.rooms, env.recs, env.tracks = nil, nil, nil, nil
	env.existing = map[string]bool{}
	env.offers = 0
	env.rtcp = nil
	env.step, env.videoTS, env.audioTS = 20*time.Millisecond, 0, 0
	env.trackErr = io.EOF
	env.closeErr, env.onLocal, env.onNoLocal = false, nil, nil
	env.published, env.subFails, env.subs, env.onSub, env.plis = nil, 0, 0, nil, nil
}

var ctx = context.Background()

func send(text string) { env.s.HandlePubSub(ctx, []byte(text)) }

func peerOf(pc *pwebrtc.PeerConnection) *peer {
	for _, p := range env.peers {
		if p.pc == pc {
			return p
		}
	}
	return &peer{}
}

func trackOf(t *pwebrtc.TrackRemote) *track {
	for _, x := range env.tracks {
		if x.tr == t {
			return x
		}
	}
	return &track{}
}

func recOf(r *recorder.WebmRecorder) *recState {
	for _, x := range env.recs {
		if x.r == r {
			return x
		}
	}
	x := &recState{r: r}
	env.recs = append(env.recs, x)
	return x
}

// signaling

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal.Decode
func sigDecode(in string, obj interface{}) {
	if env.stage == badBase64 {
		panic(errSim)
	}
	if d, ok := obj.(*pwebrtc.SessionDescription); ok {
		d.Type = pwebrtc.SDPTypeOffer
		d.SDP = "decoded " + in
	}
}

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal.Encode
func sigEncode(obj interface{}) string {
	if d, ok := obj.(pwebrtc.SessionDescription); ok {
		return "encoded " + d.SDP
	}
	return ""
}

//verif:stub (*github.com/pion/sdp/v3.SessionDescription).Unmarshal
func sdpUnmarshal(s *sdp.SessionDescription, value []byte) error {
	if env.stage == badSDP {
		return errSim
	}
	for _, m := range []string{"audio", "video"} {
		s.MediaDescriptions = append(s.MediaDescriptions, &sdp.MediaDescription{MediaName: sdp.MediaName{Media: m}})
	}
	return nil
}

// the WebRTC stack

//verif:stub (*github.com/pion/webrtc/v3.MediaEngine).RegisterCodec
func registerCodec(m *pwebrtc.MediaEngine, codec pwebrtc.RTPCodecParameters, typ pwebrtc.RTPCodecType) error {
	return nil
}

//verif:stub github.com/pion/webrtc/v3.RegisterDefaultInterceptors
func registerInterceptors(m *pwebrtc.MediaEngine, i *interceptor.Registry) error {
	if env.stage == noInterceptors {
		return errSim
	}
	return nil
}

//verif:stub github.com/pion/webrtc/v3.NewAPI
func newAPI(options ...func(*pwebrtc.API)) *pwebrtc.API { return &pwebrtc.API{} }

//verif:stub (*github.com/pion/webrtc/v3.API).NewPeerConnection
func newPeerConnection(api *pwebrtc.API, c pwebrtc.Configuration) (*pwebrtc.PeerConnection, error) {
	if env.stage == noConnection {
		return nil, errSim
	}
	p := &peer{pc: &pwebrtc.PeerConnection{}}
	env.peers = append(env.peers, p)
	return p.pc, nil
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).AddTransceiverFromKind
func addTransceiver(pc *pwebrtc.PeerConnection, kind pwebrtc.RTPCodecType, init ...pwebrtc.RTPTransceiverInit) (*pwebrtc.RTPTransceiver, error) {
	if env.stage == noTransceiver {
		return nil, errSim
	}
	p := peerOf(pc)
	p.kinds = append(p.kinds, kind)
	return nil, nil
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).OnTrack
func onTrack(pc *pwebrtc.PeerConnection, f func(*pwebrtc.TrackRemote, *pwebrtc.RTPReceiver)) {
	peerOf(pc).onTrack = f
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).OnICEConnectionStateChange
func onICE(pc *pwebrtc.PeerConnection, f func(pwebrtc.ICEConnectionState)) { peerOf(pc).onICE = f }

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).SetRemoteDescription
func setRemote(pc *pwebrtc.PeerConnection, d pwebrtc.SessionDescription) error {
	if env.stage == badOffer {
		return errSim
	}
	peerOf(pc).offer = d.SDP
	return nil
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).CreateAnswer
func createAnswer(pc *pwebrtc.PeerConnection, o *pwebrtc.AnswerOptions) (pwebrtc.SessionDescription, error) {
	if env.stage == noAnswer {
		return pwebrtc.SessionDescription{}, errSim
	}
	return pwebrtc.SessionDescription{Type: pwebrtc.SDPTypeAnswer, SDP: "answer"}, nil
}

//verif:stub github.com/pion/webrtc/v3.GatheringCompletePromise
func gathering(pc *pwebrtc.PeerConnection) <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).SetLocalDescription
func setLocal(pc *pwebrtc.PeerConnection, d pwebrtc.SessionDescription) error {
	if env.stage == noLocal {
		if env.onNoLocal != nil {
			env.onNoLocal(peerOf(pc))
		}
		return errSim
	}
	if env.onLocal != nil {
		env.onLocal(peerOf(pc))
	}
	return nil
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).LocalDescription
func localDescription(pc *pwebrtc.PeerConnection) *pwebrtc.SessionDescription {
	return &pwebrtc.SessionDescription{Type: pwebrtc.SDPTypeAnswer, SDP: "answer to " + peerOf(pc).offer}
}

//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).WriteRTCP
func writeRTCP(pc *pwebrtc.PeerConnection, pkts []rtcp.Packet) error {
	env.rtcp = append(env.rtcp, pkts...)
	return nil
}

// Closing a peer connection ends its tracks and takes the ICE agent to closed.
//
//verif:stub (*github.com/pion/webrtc/v3.PeerConnection).Close
func closePeer(pc *pwebrtc.PeerConnection) error {
	p := peerOf(pc)
	p.closed++
	if p.closed > 1 {
		return nil
	}
	for _, t := range p.tracks {
		t.end()
	}
	p.ice(pwebrtc.ICEConnectionStateClosed)
	if env.closeErr {
		return errSim
	}
	return nil
}

// ice reports a state of the ICE agent, on a goroutine of its own.
func (p *peer) ice(state pwebrtc.ICEConnectionState) {
	if p.onICE != nil && !p.iceEnd {
		p.iceEnd = state == pwebrtc.ICEConnectionStateClosed
		go p.onICE(state)
	}
}

// track starts a remote track.
func (p *peer) track(kind pwebrtc.RTPCodecType) *track {
	t := &track{tr: &pwebrtc.TrackRemote{}, kind: kind, ssrc: uint32(1000 + len(env.tracks)), in: make(chan *rtp.Packet, 64), ended: make(chan struct{})}
	env.tracks = append(env.tracks, t)
	p.tracks = append(p.tracks, t)
	if p.closed > 0 {
		t.end()
	}
	go func() {
		p.onTrack(t.tr, nil)
		t.ran = true
	}()
	return t
}

func (t *track) end() {
	if !t.isEnd {
		t.isEnd = true
		close(t.ended)
	}
}

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).Kind
func trackKind(t *pwebrtc.TrackRemote) pwebrtc.RTPCodecType { return trackOf(t).kind }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).Codec
func trackCodec(tr *pwebrtc.TrackRemote) pwebrtc.RTPCodecParameters {
	c := pwebrtc.RTPCodecCapability{MimeType: pwebrtc.MimeTypeVP8, ClockRate: 90000}
	t := trackOf(tr)
	if t.kind == pwebrtc.RTPCodecTypeAudio {
		c = pwebrtc.RTPCodecCapability{MimeType: pwebrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}
	}
	if t.mime != "" {
		c.MimeType = t.mime
	}
	return pwebrtc.RTPCodecParameters{RTPCodecCapability: c}
}

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).PayloadType
func trackPayloadType(t *pwebrtc.TrackRemote) pwebrtc.PayloadType { return 96 }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).SSRC
func trackSSRC(t *pwebrtc.TrackRemote) pwebrtc.SSRC { return pwebrtc.SSRC(trackOf(t).ssrc) }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).RID
func trackRID(t *pwebrtc.TrackRemote) string { return "" }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).ID
func trackID(t *pwebrtc.TrackRemote) string { return "t" }

//verif:stub (*github.com/pion/webrtc/v3.TrackRemote).ReadRTP
func trackRead(tr *pwebrtc.TrackRemote) (*rtp.Packet, interceptor.Attributes, error) {
	t := trackOf(tr)
	select {
	case p := <-t.in:
		return p, nil, nil
	case <-t.ended:
		t.fails++
		return nil, nil, env.trackErr
	}
}

// the LiveKit SDK

//verif:stub github.com/livekit/server-sdk-go/v2.ConnectToRoom
func connectToRoom(url string, info lksdk.ConnectInfo, callback *lksdk.RoomCallback, opts ...lksdk.ConnectOption) (*lksdk.Room, error) {
	if env.lkFails {
		return nil, errSim
	}
	r := &room{r: &lksdk.Room{}, name: info.RoomName, cb: lksdk.NewRoomCallback()}
	r.cb.Merge(callback)
	env.rooms = append(env.rooms, r)
	for _, x := range env.published {
		r.publish(x)
	}
	return r.r, nil
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.Room).GetRemoteParticipants
func remoteParticipants(r *lksdk.Room) []*lksdk.RemoteParticipant {
	for _, x := range env.rooms {
		if x.r == r {
			return x.parts
		}
	}
	return nil
}

//verif:stub (*github.com/livekit/server-sdk-go/v2.Room).Disconnect
func disconnect(r *lksdk.Room) {
	for _, x := range env.rooms {
		if x.r == r {
			x.closed++
			for _, p := range x.pubs {
				p.t.end()
			}
		}
	}
}

// the recorder: only what reaches it and its closing

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).Close
func recClose(r *recorder.WebmRecorder) time.Duration {
	recOf(r).closed++
	return env.videoTS
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).WithContext
func recWithContext(r *recorder.WebmRecorder, ctx context.Context) { recOf(r) }

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).PushVideo
func recPushVideo(r *recorder.WebmRecorder, p *rtp.Packet) {
	x := recOf(r)
	if x.closed > 0 {
		x.late++
		return
	}
	x.video = append(x.video, p)
	x.log = append(x.log, event{false, p.SequenceNumber})
	env.videoTS += env.step
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).PushAudio
func recPushAudio(r *recorder.WebmRecorder, p *rtp.Packet) {
	x := recOf(r)
	if x.closed > 0 {
		x.late++
		return
	}
	x.audio = append(x.audio, p)
	x.log = append(x.log, event{false, p.SequenceNumber})
	env.audioTS += env.step
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).NotifySkippedPacket
func recNotify(r *recorder.WebmRecorder, seq uint16) {
	x := recOf(r)
	x.log = append(x.log, event{true, seq})
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).VideoTimestamp
func recVideoTS(r *recorder.WebmRecorder) time.Duration { return env.videoTS }

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder.WebmRecorder).AudioTimestamp
func recAudioTS(r *recorder.WebmRecorder) time.Duration { return env.audioTS }

// the file system: /rec exists, and the files in env.existing

type info struct{ name string }

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return 0 }
func (i info) Mode() fs.FileMode  { return 0755 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return true }
func (i info) Sys() any           { return nil }

//verif:stub os.Stat
func osStat(name string) (os.FileInfo, error) {
	if env.existing == nil {
		var st syscall.Stat_t
		if err := syscall.Stat(name, &st); err != nil {
			return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
		}
		return info{name}, nil
	}
	if name == "/rec" {
		return info{name}, nil
	}
	for n := range env.existing {
		if n == name {
			return info{name}, nil
		}
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

//verif:stub os.MkdirAll
func osMkdirAll(path string, perm os.FileMode) error { return nil }

func itoa(n int) string { return strconv.Itoa(n) }
