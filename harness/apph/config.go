// Package apph holds the harnesses for internal/app and internal/config: the
// program is started with a configuration file, environment variables and flags.
package apph

import (
	"context"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/app"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	. "github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/appenv"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc"
	"github.com/pion/interceptor"
	"github.com/pion/sdp/v3"
	pwebrtc "github.com/pion/webrtc/v3"
)

//verif:manualinit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app

// appInit is what the program does when it is started.
//
//go:linkname appInit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app.vfInit
func appInit()

var _ = app.Init

var effective *config.Config // as handed to the server

// setting is a documented setting.
type setting struct {
	path []string
	env  string
	kind byte // 's'tring, 'b'ool, 'u'int16, 'i'nt, 'a'dapter
	def  any
	get  func(c *config.Config) any
}

func settings() []setting {
	return []setting{
		{[]string{"recorder", "directory"}, "RECORDER_DIRECTORY", 's', "", func(c *config.Config) any { return c.Recorder.Directory }},
		{[]string{"recorder", "dirFileMode"}, "RECORDER_DIRFILEMODE", 's', "0700", func(c *config.Config) any { return c.Recorder.DirFileMode }},
		{[]string{"recorder", "fileMode"}, "RECORDER_FILEMODE", 's', "0600", func(c *config.Config) any { return c.Recorder.FileMode }},
		{[]string{"recorder", "writeToDevNull"}, "RECORDER_WRITETODEVNULL", 'b', false, func(c *config.Config) any { return c.Recorder.WriteToDevNull }},
		{[]string{"recorder", "writeIVFCopy"}, "RECORDER_WRITEIVFCOPY", 'b', false, func(c *config.Config) any { return c.Recorder.WriteIVFCopy }},
		{[]string{"recorder", "videoPacketQueueSize"}, "RECORDER_VIDEOPACKETQUEUESIZE", 'u', uint64(256), func(c *config.Config) any { return uint64(c.Recorder.VideoPacketQueueSize) }},
		{[]string{"recorder", "audioPacketQueueSize"}, "RECORDER_AUDIOPACKETQUEUESIZE", 'u', uint64(32), func(c *config.Config) any { return uint64(c.Recorder.AudioPacketQueueSize) }},
		{[]string{"recorder", "useCustomSampler"}, "RECORDER_USECUSTOMSAMPLER", 'b', true, func(c *config.Config) any { return c.Recorder.UseCustomSampler }},
		{[]string{"pubsub", "channels", "subscribe"}, "PUBSUB_CHANNELS_SUBSCRIBE", 's', "to-bbb-webrtc-recorder", func(c *config.Config) any { return c.PubSub.Channels.Subscribe }},
		{[]string{"pubsub", "channels", "publish"}, "PUBSUB_CHANNELS_PUBLISH", 's', "from-bbb-webrtc-recorder", func(c *config.Config) any { return c.PubSub.Channels.Publish }},
		{[]string{"pubsub", "adapters", "redis", "address"}, "PUBSUB_ADAPTERS_REDIS_ADDRESS", 's', ":6379", func(c *config.Config) any { return Env.Redis.Address }},
		{[]string{"pubsub", "adapters", "redis", "network"}, "PUBSUB_ADAPTERS_REDIS_NETWORK", 's', "tcp", func(c *config.Config) any { return Env.Redis.Network }},
		{[]string{"pubsub", "adapters", "redis", "password"}, "PUBSUB_ADAPTERS_REDIS_PASSWORD", 's', "", func(c *config.Config) any { return Env.Redis.Password }},
		{[]string{"pubsub", "adapter"}, "PUBSUB_ADAPTER", 'a', "redis", func(c *config.Config) any { return c.PubSub.Adapter }},
		{[]string{"webrtc", "rtcMinPort"}, "WEBRTC_RTCMINPORT", 'u', uint64(24577), func(c *config.Config) any { return uint64(c.WebRTC.RTCMinPort) }},
		{[]string{"webrtc", "rtcMaxPort"}, "WEBRTC_RTCMAXPORT", 'u', uint64(32768), func(c *config.Config) any { return uint64(c.WebRTC.RTCMaxPort) }},
		{[]string{"webrtc", "jitterBuffer"}, "WEBRTC_JITTERBUFFER", 'u', uint64(512), func(c *config.Config) any { return uint64(c.WebRTC.JitterBuffer) }},
		{[]string{"webrtc", "jitterBufferPktTimeout"}, "WEBRTC_JITTERBUFFERPKTTIMEOUT", 'u', uint64(200), func(c *config.Config) any { return uint64(c.WebRTC.JitterBufferPktTimeout) }},
		{[]string{"http", "port"}, "HTTP_PORT", 'i', uint64(8080), func(c *config.Config) any { return uint64(c.HTTP.Port) }},
		{[]string{"http", "enable"}, "HTTP_ENABLE", 'b', false, func(c *config.Config) any { return c.HTTP.Enable }},
		{[]string{"prometheus", "enable"}, "PROMETHEUS_ENABLE", 'b', false, func(c *config.Config) any { return c.Prometheus.Enable }},
		{[]string{"prometheus", "listenAddress"}, "PROMETHEUS_LISTENADDRESS", 's', "127.0.0.1:3200", func(c *config.Config) any { return c.Prometheus.ListenAddress }},
		{[]string{"livekit", "host"}, "LIVEKIT_HOST", 's', "ws://localhost:7880", func(c *config.Config) any { return c.LiveKit.Host }},
		{[]string{"livekit", "apiKey"}, "LIVEKIT_APIKEY", 's', "", func(c *config.Config) any { return c.LiveKit.APIKey }},
		{[]string{"livekit", "apiSecret"}, "LIVEKIT_APISECRET", 's', "", func(c *config.Config) any { return c.LiveKit.APISecret }},
		{[]string{"log", "level"}, "LOG_LEVEL", 's', "", func(c *config.Config) any { return c.Log.Level }},
	}
}

// put sets a value in the content of a file.
func put(m map[string]any, path []string, v any) {
	for ; len(path) > 1; path = path[1:] {
		n, ok := m[path[0]].(map[string]any)
		if !ok {
			n = map[string]any{}
			m[path[0]] = n
		}
		m = n
	}
	m[path[0]] = v
}

// inFile draws a value for a setting as the YAML parser gives it, want is nil for a value that makes no sense.
func inFile(s setting, name string) (raw, want any) {
	switch s.kind {
	case 's':
		v := sym.String(name, 2)
		return v, v
	case 'b':
		v := sym.Bool(name)
		return v, v
	case 'a':
		v := []string{"redis", "x"}[sym.Choose(name, 2)]
		if v == "x" {
			return v, nil
		}
		return v, v
	}
	n := sym.Choose(name, 4)
	v := []int{0, 7, 65535, 65536}[n]
	if n == 3 && s.kind == 'u' {
		return v, nil
	}
	return v, uint64(v)
}

// inEnv draws the value of an environment variable, nil stands for a value that makes no sense.
func inEnv(s setting, name string) (raw string, want any) {
	switch s.kind {
	case 's':
		v := sym.String(name, 2)
		return v, v
	case 'b':
		switch v := []string{"true", "false", "1", "no"}[sym.Choose(name, 4)]; v {
		case "true", "1":
			return v, true
		case "false":
			return v, false
		default:
			return v, nil
		}
	case 'a':
		v := []string{"redis", "x"}[sym.Choose(name, 2)]
		if v == "x" {
			return v, nil
		}
		return v, v
	}
	n := sym.Choose(name, 3)
	if n < 2 {
		raw = []string{"x", "-1"}[n]
		if s.kind == 'i' && n == 1 {
			raw = "1.5"
		}
		return raw, nil
	}
	b := sym.Bytes(name, 2)
	sym.Assume(sym.And(b[0]-'0' < 10, b[1]-'0' < 10))
	return string(b), uint64(b[0]-'0')*10 + uint64(b[1]-'0')
}

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/server.NewServer
func newServer(cfg *config.Config, ps pubsub.PubSub) *server.Server {
	effective = cfg
	return &server.Server{}
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/server.Server).OnStart
func onStart(s *server.Server) error { return nil }

// CheckSettings: K settings are given or not given in the file and in the environment.
func CheckSettings() {
	Setup()
	all := settings()
	K := sym.Param("K", 1)
	want := make([]any, len(all))
	for i, s := range all {
		want[i] = s.def
	}
	file := map[string]any{}
	bad := false
	last := -1
	for k := 0; k < K && last < len(all)-1; k++ {
		i := last + 1 + sym.Choose("setting", len(all)-last-1)
		last = i
		where := sym.Choose("where", 4)
		if where&1 != 0 {
			raw, v := inFile(all[i], "file")
			put(file, all[i].path, raw)
			if v == nil && all[i].kind != 'a' {
				bad = true
			}
			want[i] = v
		}
		if where&2 != 0 {
			raw, v := inEnv(all[i], "env")
			Env.Vars = append(Env.Vars, "BBBRECORDER_"+all[i].env+"="+raw)
			if v == nil && all[i].kind != 'a' {
				bad = true
			}
			want[i] = v
		}
	}
	for _, v := range want {
		if v == nil {
			bad = true
		}
	}
	if len(file) > 0 {
		Env.Files[Home] = file
	}
	ended := Start(appInit)
	if bad {
		sym.Assert(ended, "C30: a value that makes no sense is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(!ended, "C30: the recorder starts with a valid configuration")
	for i, s := range all {
		sym.Assert(s.get(effective) == want[i], "C30: the environment comes before the file, and the file before the default")
	}
	sym.Assert(Env.Channel == effective.PubSub.Channels.Subscribe, "C30: the commands are received on the configured channel")
	sym.Assert(Env.Http == effective.HTTP.Enable, "C30: the HTTP server runs if it is enabled")
	if effective.Prometheus.Enable {
		sym.Assert(Env.PromAddr == effective.Prometheus.ListenAddress, "C30: the metrics are exported on the configured address")
	} else {
		sym.Assert(Env.PromAddr == "", "C30: the metrics are exported if they are enabled")
	}
	sym.Cover("started")
	if sym.Param("reload", 1) == 0 {
		return
	}
	// one of the settings is given anew, the others no longer
	i := last
	if sym.Param("other", 0) == 1 && sym.Bool("other") {
		i = sym.Choose("setting", len(all))
	}
	for j, s := range all {
		want[j] = s.def
	}
	Env.Files, Env.Vars = map[string]map[string]any{}, nil
	switch sym.Choose("where", 3) {
	case 0:
		raw, v := inFile(all[i], "file")
		sym.Assume(v != nil)
		file = map[string]any{}
		put(file, all[i].path, raw)
		Env.Files[Home] = file
		want[i] = v
	case 1:
		raw, v := inEnv(all[i], "env")
		sym.Assume(v != nil)
		Env.Vars = append(Env.Vars, "BBBRECORDER_"+all[i].env+"="+raw)
		want[i] = v
	}
	c := Env.Signals[syscall.SIGHUP]
	sym.Assert(c != nil, "C30: SIGHUP is handled")
	c <- syscall.SIGHUP
	sym.Settle()
	for j, s := range all {
		if s.path[0] == "pubsub" && s.path[1] == "adapters" {
			continue // the connection stays
		}
		sym.Assert(s.get(effective) == want[j], "C30: SIGHUP loads the file and the environment again")
	}
	sym.Cover("reloaded")
	// and once more, with nothing given at all
	Env.Files, Env.Vars = map[string]map[string]any{}, nil
	c = Env.Signals[syscall.SIGHUP]
	sym.Assert(c != nil, "C30: SIGHUP is handled")
	c <- syscall.SIGHUP
	sym.Settle()
	for _, s := range all {
		if s.path[0] == "pubsub" && s.path[1] == "adapters" {
			continue
		}
		sym.Assert(s.get(effective) == s.def, "C30: SIGHUP loads the file and the environment again")
	}
	sym.Cover("reloaded twice")
}

// CheckConfigFile: the file given on the command line and the one in the usual
// place exist or not.
func CheckConfigFile() {
	Setup()
	all := settings()
	given, usual := "/etc/bigbluebutton/x/../g.yml", Home
	if sym.Bool("other place") {
		usual = "/etc/bbb-webrtc-recorder/bbb-webrtc-recorder.yml"
	}
	i := sym.Choose("setting", len(all))
	want := all[i].def
	flag := sym.Bool("flag")
	use := func(path, name string) {
		raw, v := inFile(all[i], name)
		sym.Assume(v != nil)
		want = v
		m := map[string]any{"log": map[string]any{"level": "INFO"}}
		put(m, all[i].path, raw)
		Env.Files[path] = m
	}
	if sym.Bool("usual exists") {
		use(usual, "usual")
		sym.Cover("default")
	}
	if flag {
		switch sym.Choose("form", 3) {
		case 0:
			Env.Args = []string{"-c", given}
		case 1:
			Env.Args = []string{"--config", given}
		case 2:
			Env.Args = []string{"--config=" + given}
		}
		if sym.Bool("given exists") {
			use("/etc/bigbluebutton/g.yml", "given")
			sym.Cover("flag")
		}
	}
	Env.Broken = sym.Bool("broken")
	ended := Start(appInit)
	if Env.Broken && len(Env.Files) > 0 {
		sym.Assert(ended, "C30: a configuration file that cannot be read is refused")
		sym.Cover("broken")
		return
	}
	sym.Assert(!ended, "C30: the recorder starts with a valid configuration")
	for j, s := range all {
		if j == i {
			sym.Assert(s.get(effective) == want, "C30: the file given on the command line comes before the usual one, and that before the default")
		} else if s.path[0] != "log" {
			sym.Assert(s.get(effective) == s.def, "C30: the environment comes before the file, and the file before the default")
		}
	}
}

// str is a string of letters.
func str(name string, n int) string {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i]-'a' < 26)
	}
	return string(b)
}

var conf *pwebrtc.Configuration

//verif:stub (*github.com/pion/webrtc/v3.API).NewPeerConnection
func newPeerConnection(a *pwebrtc.API, c pwebrtc.Configuration) (*pwebrtc.PeerConnection, error) {
	conf = &c
	return nil, ErrSim
}

//verif:stub github.com/pion/webrtc/v3.NewAPI
func newAPI(options ...func(*pwebrtc.API)) *pwebrtc.API { return &pwebrtc.API{} }

//verif:stub github.com/pion/webrtc/v3.RegisterDefaultInterceptors
func registerDefaultInterceptors(m *pwebrtc.MediaEngine, r *interceptor.Registry) error { return nil }

//verif:stub (*github.com/pion/webrtc/v3.MediaEngine).RegisterCodec
func registerCodec(m *pwebrtc.MediaEngine, c pwebrtc.RTPCodecParameters, t pwebrtc.RTPCodecType) error {
	return nil
}

//verif:stub (*github.com/pion/sdp/v3.SessionDescription).Unmarshal
func unmarshalSDP(s *sdp.SessionDescription, value []byte) error { return nil }

// CheckICEServers: N ICE servers are given in the file.
func CheckICEServers() {
	Setup()
	type server struct {
		urls               []string
		username, password string
	}
	var want []server
	var list []any
	n := sym.Choose("servers", sym.Param("N", 2)+1)
	for i := 0; i < n; i++ {
		var s server
		m := map[string]any{}
		urls := []any{}
		for j := sym.Choose("urls", 3); j > 0; j-- {
			u := "turn:" + str("url", 1)
			s.urls = append(s.urls, u)
			urls = append(urls, u)
		}
		m["urls"] = urls
		if sym.Bool("credentials") {
			s.username, s.password = str("username", 2), str("credential", 2)
			m["username"], m["credential"] = s.username, s.password
		}
		want = append(want, s)
		list = append(list, m)
	}
	Env.Files[Home] = map[string]any{"webrtc": map[string]any{"iceServers": list, "jitterBuffer": 512}}
	sym.Assert(!Start(appInit), "C30: the recorder starts with a valid configuration")

	w := webrtc.NewWebRTC(context.Background(), effective.WebRTC)
	w.SetConnectionStateCallback(func(pwebrtc.ICEConnectionState) {})
	w.SetFlowCallback(func(bool, time.Duration, bool) {})
	w.SetSDPOffer(pwebrtc.SessionDescription{SDP: "x"})
	func() {
		defer func() { recover() }()
		w.Init(nil)
	}()
	sym.Assert(conf != nil && len(conf.ICEServers) == len(want), "C30: all the ICE servers of the configuration are used")
	for i, s := range want {
		x := conf.ICEServers[i]
		sym.Assert(len(x.URLs) == len(s.urls), "C30: the URLs of an ICE server are those of the configuration")
		for j, u := range s.urls {
			sym.Assert(x.URLs[j] == u, "C30: the URLs of an ICE server are those of the configuration")
		}
		sym.Assert(x.Username == s.username, "C30: the user of an ICE server is that of the configuration")
		if s.password != "" {
			p, ok := x.Credential.(string)
			sym.Assert(ok && p == s.password, "C30: the credential of an ICE server is that of the configuration")
			sym.Cover("credential")
		} else {
			sym.Assert(x.Credential == nil || x.Credential == "", "C30: the credential of an ICE server is that of the configuration")
		}
	}
	sym.Cover("servers")
}
