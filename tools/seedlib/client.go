
// demoBus stands in for Redis.
type demoBus struct {
	m    sync.Mutex
	msgs []map[string]interface{}
}

func (b *demoBus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {}
func (b *demoBus) Publish(channel string, msg []byte) {
	m := map[string]interface{}{}
	json.Unmarshal(msg, &m)
	b.m.Lock()
	b.msgs = append(b.msgs, m)
	b.m.Unlock()
}

// find gives the n-th message with an id, waiting for it.
func (b *demoBus) find(id string, n int, wait time.Duration) map[string]interface{} {
	for end := time.Now().Add(wait); ; time.Sleep(5 * time.Millisecond) {
		b.m.Lock()
		k := 0
		for _, m := range b.msgs {
			if m["id"] == id {
				if k == n {
					b.m.Unlock()
					return m
				}
				k++
			}
		}
		b.m.Unlock()
		if time.Now().After(end) {
			return nil
		}
	}
}

// demoServer is a server that records to dir.
func demoServer(dir string) (*Server, *demoBus) {
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.Recorder.Directory = dir
	cfg.Recorder.FileMode, cfg.Recorder.DirFileMode = "0600", "0700"
	cfg.WebRTC.ICEServers = nil
	b := &demoBus{}
	return NewServer(cfg, b), b
}

// demoClient is a WebRTC client sending one track.
type demoClient struct {
	pc     *pwebrtc.PeerConnection
	track  *pwebrtc.TrackLocalStaticRTP
	sender *pwebrtc.RTPSender
	nacks  func([]uint16)
	rtcp   func(rtcp.Packet)
}

// offer is the base64 offer of a new client.
func newDemoClient(t *testing.T, video bool) (*demoClient, string) {
	se := pwebrtc.SettingEngine{}
	se.SetIncludeLoopbackCandidate(true)
	m := &pwebrtc.MediaEngine{}
	m.RegisterDefaultCodecs()
	pc, err := pwebrtc.NewAPI(pwebrtc.WithSettingEngine(se), pwebrtc.WithMediaEngine(m)).NewPeerConnection(pwebrtc.Configuration{})
	if err != nil {
		t.Fatal(err)
	}
	mime, rate, ch := pwebrtc.MimeTypeOpus, uint32(48000), uint16(2)
	if video {
		mime, rate, ch = pwebrtc.MimeTypeVP8, 90000, 0
	}
	c := &demoClient{pc: pc}
	c.track, err = pwebrtc.NewTrackLocalStaticRTP(pwebrtc.RTPCodecCapability{MimeType: mime, ClockRate: rate, Channels: ch}, "t", "s")
	if err != nil {
		t.Fatal(err)
	}
	if c.sender, err = pc.AddTrack(c.track); err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			ps, _, err := c.sender.ReadRTCP()
			if err != nil {
				return
			}
			for _, p := range ps {
				if c.rtcp != nil {
					c.rtcp(p)
				}
				if n, ok := p.(*rtcp.TransportLayerNack); ok && c.nacks != nil {
					for _, x := range n.Nacks {
						c.nacks(x.PacketList())
					}
				}
			}
		}
	}()
	o, err := pc.CreateOffer(nil)
	if err != nil {
		t.Fatal(err)
	}
	g := pwebrtc.GatheringCompletePromise(pc)
	pc.SetLocalDescription(o)
	<-g
	return c, signal.Encode(*pc.LocalDescription())
}

// connect takes the answer and waits for the connection.
func (c *demoClient) connect(t *testing.T, answer string) {
	d := pwebrtc.SessionDescription{}
	signal.Decode(answer, &d)
	up := make(chan bool, 9)
	c.pc.OnConnectionStateChange(func(s pwebrtc.PeerConnectionState) {
		if s == pwebrtc.PeerConnectionStateConnected {
			up <- true
		}
	})
	if err := c.pc.SetRemoteDescription(d); err != nil {
		t.Fatal(err)
	}
	select {
	case <-up:
	case <-time.After(20 * time.Second):
		t.Fatal("not connected")
	}
}

func (c *demoClient) send(seq uint16, ts uint32) {
	c.track.WriteRTP(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ts, Marker: true}, Payload: []byte{0x10, 0x10, 2, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0, 1, 2, 3, 4}})
}

var imports = []interface{}{fmt.Sprint, context.Background, os.Stat}
