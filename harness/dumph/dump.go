// Package dumph holds the harness that lets the program print its configuration.
package dumph

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	_ "unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/app"
	. "github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/appenv"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"gopkg.in/yaml.v3"
)

//verif:manualinit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app

// appInit is what the program does when it is started.
//
//go:linkname appInit github.com/bigbluebutton/bbb-webrtc-recorder/internal/app.vfInit
func appInit()

var _ = app.Init
var _ = yaml.Marshal
var _ = os.Exit

// prog is what the program does.
var prog struct {
	live   bool
	ended  bool
	code   int
	output string
	trees  []any // the values turned into YAML
}

type ended struct{}

//verif:stub os.Exit
func exit(code int) {
	if !prog.live {
		syscall.Exit(code)
	}
	prog.ended, prog.code = true, code
	panic(ended{})
}

//verif:stub fmt.Print
func print(a ...any) (int, error) {
	if prog.live {
		prog.output += fmt.Sprint(a...)
	}
	return 0, nil
}

//verif:stub fmt.Println
func println(a ...any) (int, error) {
	if prog.live {
		prog.output += fmt.Sprint(a...) + "\n"
	}
	return 0, nil
}

//verif:stub fmt.Printf
func printf(f string, a ...any) (int, error) {
	if prog.live {
		prog.output += fmt.Sprintf(f, a...)
	}
	return 0, nil
}

// marshal stands for the YAML emitter: its output names the tree.
//
//verif:stub gopkg.in/yaml.v3.Marshal
func marshal(in any) ([]byte, error) {
	prog.trees = append(prog.trees, tree(reflect.ValueOf(in)))
	return []byte("@" + strconv.Itoa(len(prog.trees)-1) + "\n"), nil
}

// tree gives the YAML tree of a value.
func tree(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return tree(v.Elem())
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			tag := f.Tag.Get("yaml")
			if tag == "-" {
				continue
			}
			name, opt, _ := strings.Cut(tag, ",")
			if name == "" {
				name = strings.ToLower(f.Name)
			}
			if strings.Contains(opt, "omitempty") && zero(v.Field(i)) {
				continue
			}
			m[name] = tree(v.Field(i))
		}
		return m
	case reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = tree(v.MapIndex(k))
		}
		return m
	case reflect.Slice:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, tree(v.Index(i)))
		}
		return l
	case reflect.Int, reflect.Int64:
		return int(v.Int())
	case reflect.Uint16:
		return int(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	}
	return nil
}

// zero tells whether a value is left out by omitempty.
func zero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !zero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map, reflect.Slice:
		return v.Len() == 0
	case reflect.Int, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint16:
		return v.Uint() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.String:
		return v.String() == ""
	}
	return false
}

// unmarshal reads the output of marshal.
func unmarshal(in []byte, out any) bool {
	s := string(in)
	if !strings.HasPrefix(s, "@") {
		return false
	}
	n, _ := strconv.Atoi(strings.TrimSpace(s[1:]))
	*out.(*any) = prog.trees[n]
	return true
}

// run starts the program.
func run() {
	defer func() {
		prog.live = false
		if r := recover(); r != nil {
			if _, ok := r.(ended); !ok {
				panic(r)
			}
		}
	}()
	prog.live = true
	sym.Assert(!Start(appInit), "C33: a configuration that can be loaded can be printed")
}

// setting is a setting with its default.
type setting struct {
	name string
	def  any // nil: none
	kind any
}

var settings = []setting{
	{"recorder.directory", nil, ""},
	{"recorder.dirFileMode", "0700", ""},
	{"recorder.fileMode", "0600", ""},
	{"recorder.writeToDevNull", nil, true},
	{"recorder.writeIVFCopy", nil, true},
	{"recorder.videoPacketQueueSize", 256, 0},
	{"recorder.audioPacketQueueSize", 32, 0},
	{"recorder.useCustomSampler", true, true},
	{"pubsub.channels.subscribe", "to-bbb-webrtc-recorder", ""},
	{"pubsub.channels.publish", "from-bbb-webrtc-recorder", ""},
	{"pubsub.adapters.redis.address", ":6379", ""},
	{"pubsub.adapters.redis.network", "tcp", ""},
	{"pubsub.adapters.redis.password", nil, ""},
	{"pubsub.adapter", "redis", ""},
	{"webrtc.rtcMinPort", 24577, 0},
	{"webrtc.rtcMaxPort", 32768, 0},
	{"webrtc.jitterBuffer", 512, 0},
	{"webrtc.jitterBufferPktTimeout", 200, 0},
	{"http.port", 8080, 0},
	{"http.enable", nil, true},
	{"prometheus.enable", nil, true},
	{"prometheus.listenAddress", "127.0.0.1:3200", ""},
	{"livekit.host", "ws://localhost:7880", ""},
	{"livekit.apiKey", nil, ""},
	{"livekit.apiSecret", nil, ""},
	{"log.level", nil, ""},
}

// put sets a value in the content of a file.
func put(m map[string]any, path []string, v any) {
	for ; len(path) > 1; path = path[1:] {
		n, ok := m[path[0]].(map[string]any)
		if !ok {
			n = map[string]any{}
			m[path[0]] = n
		}
		m = n
	}
	m[path[0]] = v
}

// at gives the value at a path of a tree.
func at(v any, path []string) any {
	for _, a := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[a]
	}
	return v
}

// CheckDump: a setting is given in the file, in the environment or not at all,
// and the program is asked for it, for a section, for everything or for
// something that does not exist.
func CheckDump() {
	Setup()
	Env.Yaml = unmarshal
	s := settings[sym.Choose("setting", len(settings))]
	path := strings.Split(s.name, ".")
	want := s.def
	given := "/etc/g.yml"
	form := sym.Choose("form", 3)
	if form == 0 {
		Env.Args = []string{"-c", given}
	} else {
		given = Home
	}
	switch sym.Choose("where", 3) {
	case 0:
		switch s.kind.(type) {
		case bool:
			want = sym.Bool("file")
		case int:
			want = []int{1, 4242, 65535}[sym.Choose("file", 3)]
		default:
			v := sym.String("file", 2)
			if s.name == "pubsub.adapter" {
				v = "redis"
			}
			want = v
		}
		m := map[string]any{}
		put(m, path, want)
		Env.Files[given] = m
	case 1:
		raw := ""
		switch s.kind.(type) {
		case bool:
			want = sym.Bool("env")
			raw = map[bool]string{true: "true", false: "false"}[want.(bool)]
		case int:
			b := sym.Bytes("env", 2)
			sym.Assume(sym.And(b[0]-'1' < 9, b[1]-'0' < 10))
			want = int(b[0]-'0')*10 + int(b[1]-'0')
			raw = string(b)
		default:
			raw = sym.String("env", 2)
			if s.name == "pubsub.adapter" {
				raw = "redis"
			}
			want = raw
		}
		Env.Vars = append(Env.Vars, "BBBRECORDER_"+strings.ToUpper(strings.ReplaceAll(s.name, ".", "_"))+"="+raw)
	}
	if want == false {
		want = nil // need not be printed
	}

	depth := sym.Choose("depth", len(path)+2)
	key := "all"
	below := path
	switch {
	case depth > len(path):
		key = s.name + []string{".x", "x", ".0"}[sym.Choose("other", 3)]
	case depth > 0:
		key = strings.Join(path[:depth], ".")
		below = path[depth:]
	}
	if form < 2 {
		Env.Args = append(Env.Args, "--dump", key)
	} else {
		Env.Args = append(Env.Args, "--dump="+key)
	}
	run()

	sym.Assert(prog.ended && Env.Handler == nil && len(Env.Signals) == 0, "C33: with --dump, nothing is recorded")
	if depth > len(path) {
		sym.Assert(prog.code != 0 && prog.output == "", "C33: a setting that does not exist is an error")
		sym.Cover("unknown")
		return
	}
	if want == nil && depth == len(path) {
		if prog.code != 0 {
			sym.Assert(prog.output == "", "C33: a setting without a value has none printed")
			sym.Cover("no value")
			return
		}
	} else {
		sym.Assert(prog.code == 0, "C33: a setting is printed")
	}
	if prog.code != 0 {
		return
	}
	sym.Assert(strings.HasPrefix(prog.output, "@"), "C33: a setting is printed")
	n, err := strconv.Atoi(strings.TrimSpace(prog.output[1:]))
	sym.Assert(err == nil, "C33: a setting is printed once")
	got := at(prog.trees[n], below)
	if want == nil {
		sym.Assert(got == nil || got == "" || got == false, "C33: the value printed for a setting is the one in effect")
	} else {
		sym.Assert(got == want, "C33: the value printed for a setting is the one in effect")
		sym.Cover("printed")
	}
}


// CheckDumpList: up to N ICE servers are given, and the program is asked for
// one of them, or for a part of it.
func CheckDumpList() {
	Setup()
	Env.Yaml = unmarshal
	n := sym.Choose("servers", sym.Param("N", 2)+1)
	var list []any
	for i := 0; i < n; i++ {
		list = append(list, map[string]any{"urls": []any{"stun:" + letters("url", 1), "turn:" + letters("url", 1)},
			"username": letters("username", 2), "credential": letters("credential", 2)})
	}
	Env.Files[Home] = map[string]any{"webrtc": map[string]any{"jitterBuffer": 1, "iceServers": list}}
	i := sym.Choose("index", n+2) - 1
	key := "webrtc.iceServers." + strconv.Itoa(i)
	var want any
	s := map[string]any{}
	if i >= 0 && i < n {
		s = list[i].(map[string]any)
	}
	part := sym.Choose("part", 6)
	switch part {
	case 1, 2:
		key += []string{".username", ".credential"}[part-1]
		want = s[[]string{"username", "credential"}[part-1]]
	case 3, 4, 5:
		key += ".urls." + strconv.Itoa(part-3)
		if u, ok := s["urls"].([]any); ok && part-3 < len(u) {
			want = u[part-3]
		}
	}
	Env.Args = []string{"--dump", key}
	run()
	sym.Assert(prog.ended && Env.Handler == nil && len(Env.Signals) == 0, "C33: with --dump, nothing is recorded")
	if i < 0 || i >= n || part == 5 {
		sym.Assert(prog.code != 0 && prog.output == "", "C33: a setting that does not exist is an error")
		sym.Cover("unknown")
		return
	}
	sym.Assert(prog.code == 0 && strings.HasPrefix(prog.output, "@"), "C33: a setting is printed")
	t, err := strconv.Atoi(strings.TrimSpace(prog.output[1:]))
	sym.Assert(err == nil, "C33: a setting is printed once")
	got := prog.trees[t]
	if part == 0 {
		got, want = at(got, []string{"username"}), s["username"]
	}
	sym.Assert(got == want, "C33: the value printed for a setting is the one in effect")
	sym.Cover("printed")
}

// letters is a string of letters.
func letters(name string, n int) string {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i]-'a' < 26)
	}
	return string(b)
}
