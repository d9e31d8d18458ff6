// Package appenv is the world around the program: its flags, configuration
// files and environment variables, signals and the message broker.
package appenv

import (
	"errors"
	"io/fs"
	"os"
	"os/signal"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/google/uuid"
	"github.com/sirupsen/logrus"
	"github.com/spf13/pflag"
	"gopkg.in/yaml.v3"
)

var _ = yaml.Unmarshal
var _ = logrus.Fatal
var _ = signal.Notify

// Home is one of the places of the configuration file.
const Home = "/etc/bigbluebutton/bbb-webrtc-recorder.yml"

var ErrSim = errors.New("simulated failure")

var Env struct {
	Args      []string
	Files     map[string]map[string]any // the content of the configuration files
	Broken    bool                      // the file is not YAML
	Yaml      func(in []byte, out any) bool // reads YAML made by the program
	Read      string                    // the file read last
	Vars      []string
	Loads     int // how often the environment was read
	Signals   map[os.Signal]chan<- os.Signal
	Redis     *config.Redis
	Channel   string
	Http      bool
	PromAddr  string
	Handler   pubsub.PubSubHandler
	Published [][]byte
}

// exit is the end of the process.
type exit struct{}

//verif:stub github.com/spf13/pflag.Parse
func parse() { pflag.CommandLine.Parse(Env.Args) }

type info struct {
	fs.FileInfo
	mode fs.FileMode
}

func (i info) Mode() fs.FileMode { return i.mode }

//verif:stub (*os.File).Stat
func fstat(f *os.File) (os.FileInfo, error) { return info{}, nil }

//verif:stub os.Stat
func stat(name string) (os.FileInfo, error) {
	if _, ok := Env.Files[name]; ok {
		return info{}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

//verif:stub os.ReadFile
func readFile(name string) ([]byte, error) {
	if _, ok := Env.Files[name]; !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	Env.Read = name
	return []byte{}, nil
}

// unmarshal stands for the YAML parser: it gives the content of the file.
//
//verif:stub gopkg.in/yaml.v3.Unmarshal
func unmarshal(in []byte, out any) error {
	if Env.Yaml != nil && Env.Yaml(in, out) {
		return nil
	}
	if Env.Broken {
		return ErrSim
	}
	for k, v := range Env.Files[Env.Read] {
		out.(map[string]any)[k] = clone(v)
	}
	return nil
}

func clone(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = clone(x)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i, x := range v {
			l[i] = clone(x)
		}
		return l
	}
	return v
}

//verif:stub os.Environ
func environ() []string {
	Env.Loads++
	return Env.Vars
}

//verif:stub github.com/google/uuid.NewRandom
func newRandom() (uuid.UUID, error) { return uuid.UUID{1}, nil }

//verif:stub os/signal.Notify
func notify(c chan<- os.Signal, sig ...os.Signal) {
	for _, s := range sig {
		Env.Signals[s] = c
	}
}

//verif:stub os/signal.Stop
func stop(c chan<- os.Signal) {
	for s, d := range Env.Signals {
		if c == d {
			delete(Env.Signals, s)
		}
	}
}

//verif:stub github.com/sirupsen/logrus.Fatal
func fatal(args ...interface{}) { panic(exit{}) }

//verif:stub github.com/sirupsen/logrus.Fatalf
func fatalf(format string, args ...interface{}) { panic(exit{}) }

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub.NewRedis
func newRedis(c config.Redis) *pubsub.Redis {
	Env.Redis = &c
	return &pubsub.Redis{}
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub.Redis).Subscribe
func subscribe(r *pubsub.Redis, channel string, handler pubsub.PubSubHandler, onStart func() error) {
	Env.Channel, Env.Handler = channel, handler
	onStart()
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub.Redis).Publish
func publish(r *pubsub.Redis, channel string, message []byte) {
	Env.Published = append(Env.Published, message)
}

//verif:stub (*github.com/bigbluebutton/bbb-webrtc-recorder/internal/server.HTTPServer).Serve
func serve(s *server.HTTPServer) { Env.Http = true }

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus.Init
func promInit() {}

//verif:stub github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus.ServePromMetrics
func servePromMetrics(cfg config.Prometheus) { Env.PromAddr = cfg.ListenAddress }

// Start starts the program.
func Start(appInit func()) (ended bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(exit); !ok {
				panic(r)
			}
			ended = true
		}
	}()
	appInit()
	return
}

// Setup makes an empty world.
func Setup() {
	Env.Files = map[string]map[string]any{}
	Env.Signals = map[os.Signal]chan<- os.Signal{}
}
