package recorderh

import (
	"context"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

// entry is what the simulated file system knows about a path.
type entry struct {
	path  string
	state int // 0 absent, 1 present, 2 inaccessible
}

type madeDir struct {
	path string
	mode fs.FileMode
}

var (
	simFS    bool
	entries  []*entry
	dirs     []madeDir
	removed  int
	mkFailed int
)

func resetFS() {
	simFS, entries, dirs, removed, mkFailed = true, nil, nil, 0, 0
}

func lookup(p string) *entry {
	for _, e := range entries {
		if e.path == p {
			return e
		}
	}
	e := &entry{path: p, state: sym.Choose("state", 3)}
	entries = append(entries, e)
	return e
}

type info struct{ name string }

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return 0 }
func (i info) Mode() fs.FileMode  { return 0755 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return true }
func (i info) Sys() any           { return nil }

//verif:stub os.Stat
func osStat(name string) (os.FileInfo, error) {
	if !simFS {
		var st syscall.Stat_t
		if err := syscall.Stat(name, &st); err != nil {
			return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
		}
		return info{name}, nil
	}
	switch lookup(name).state {
	case 0:
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	case 1:
		return info{name}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.EACCES}
}

//verif:stub os.Lstat
func osLstat(name string) (os.FileInfo, error) { return osStat(name) }

//verif:stub os.MkdirAll
func osMkdirAll(path string, perm os.FileMode) error {
	e := lookup(path)
	if e.state == 1 {
		return nil
	}
	dirs = append(dirs, madeDir{path, perm})
	if sym.Choose("mkdir fails", 2) == 1 {
		mkFailed++
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.EACCES}
	}
	e.state = 1
	return nil
}

//verif:stub os.Mkdir
func osMkdir(path string, perm os.FileMode) error {
	e := lookup(path)
	if e.state == 1 {
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.EEXIST}
	}
	return osMkdirAll(path, perm)
}

//verif:stub os.Remove
func osRemove(path string) error {
	removed++
	return nil
}

// place is a path resolved lexically: how many levels it leaves the current directory, and the components from there.
type place struct {
	abs   bool
	ups   int
	comps []string
}

func resolve(parts ...string) place {
	var p place
	for i, s := range parts {
		if i == 0 && len(s) > 0 && s[0] == '/' {
			p.abs = true
		}
		from := 0
		for j := 0; j <= len(s); j++ {
			if j < len(s) && s[j] != '/' {
				continue
			}
			c := s[from:j]
			from = j + 1
			switch {
			case c == "" || c == ".":
			case c != "..":
				p.comps = append(p.comps, c)
			case len(p.comps) > 0:
				p.comps = p.comps[:len(p.comps)-1]
			case !p.abs:
				p.ups++
			}
		}
	}
	return p
}

// under tells whether p lies strictly below dir.
func (p place) under(dir place) bool {
	if p.abs != dir.abs || p.ups != dir.ups || len(p.comps) <= len(dir.comps) {
		return false
	}
	for i, c := range dir.comps {
		if p.comps[i] != c {
			return false
		}
	}
	return true
}

func configDir() string {
	return []string{"/r", "/r/", "r", ".", "/", "../r", "/a/../r/./"}[sym.Choose("dir", 7)]
}

func prepareConfig() config.Recorder {
	c := config.Recorder{DirFileMode: "0700", FileMode: "0600", VideoPacketQueueSize: 8, AudioPacketQueueSize: 8, UseCustomSampler: true, WriteIVFCopy: true}
	return c
}

func mode(path string) (fs.FileMode, bool) {
	for _, f := range files {
		if f.path == path {
			return f.mode, true
		}
	}
	return 0, false
}

// record writes one key frame and closes the recorder.
func record(r recorder.Recorder) {
	r.SetHasVideo(true)
	r.PushVideo(&rtp.Packet{Header: rtp.Header{SequenceNumber: 7, Timestamp: 1, Marker: true}, Payload: []byte{0x10, 0, 0, 0, 0, 0, 0, 0x80, 2, 0xe0, 1}})
	r.Close()
}

// CheckPath starts recordings with arbitrary file names.
func CheckPath() {
	resetEnv()
	resetFS()
	c := prepareConfig()
	c.Directory = configDir()
	name := sym.String("name", sym.Choose("length", sym.Param("N", 5)+1)) + []string{"", "x/a.webm", ".webm", "/../b.webm", ".wEbM"}[sym.Choose("rest", 5)]
	dir := resolve(c.Directory)
	target := resolve(c.Directory, name)
	inside := target.under(dir)
	// the configured directory exists, or cannot be accessed
	r, err := recorder.NewRecorder(context.Background(), c, name)
	webm := len(name) >= 5 && name[len(name)-5:] == ".webm"
	if err == nil {
		sym.Assert(inside, "C05: a name that resolves outside of the directory is refused")
		sym.Assert(webm, "C23: only names ending in .webm are accepted")
		sym.Assert(lookup(r.GetFilePath()).state == 0, "C06: an existing file is not recorded to")
		sym.Assert(resolve(r.GetFilePath()).under(dir), "C05: the recording file lies inside the directory")
		record(r)
		found := false
		for _, f := range files {
			found = found || f.path == r.GetFilePath()
		}
		sym.Assert(found, "C05: the recording is written to the reported file")
		sym.Cover("accepted")
	} else if !inside {
		sym.Cover("outside")
	}
	if !inside {
		sym.Assert(len(dirs) == 0 && len(files) == 0, "C05: nothing is created for a name outside of the directory")
	}
	for _, d := range dirs {
		sym.Assert(resolve(d.path).under(dir), "C05: every directory created lies inside the recording directory")
		sym.Cover("directory created")
	}
	for _, f := range files {
		sym.Assert(resolve(f.path).under(dir), "C05: every file created lies inside the recording directory")
	}
	sym.Assert(removed == 0, "C06: nothing is removed")
	refusable := false // by the state of the file system
	for _, e := range entries {
		p := resolve(e.path)
		switch {
		case e.state == 2, len(p.comps) <= len(dir.comps) && e.state != 1:
			refusable = true
		}
	}
	if err != nil && inside && webm && !refusable && mkFailed == 0 {
		// the only reason left is that the file exists
		ok := false
		for _, e := range entries {
			ok = ok || e.state == 1 && len(resolve(e.path).comps) == len(target.comps)
		}
		sym.Assert(ok, "C05: names inside of the directory are accepted")
	}
	sym.Observe("result", err == nil, len(dirs), len(files))
}

// number reads a mode the way it is documented: octal with a leading 0, hexadecimal with 0x, decimal otherwise.
func number(s string) (uint64, bool) {
	base := uint64(10)
	switch {
	case len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'):
		base, s = 16, s[2:]
	case len(s) > 1 && s[0] == '0':
		base, s = 8, s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		var d uint64
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			return 0, false
		}
		if d >= base {
			return 0, false
		}
		n = n*base + d
	}
	return n, n < 1<<32
}

// plain tells whether a mode text is free of Go's other number notations.
func plain(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '_' {
			return false
		}
	}
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'b', 'B', 'o', 'O':
			return false
		}
	}
	return true
}

// CheckModes starts recordings with arbitrary mode texts.
func CheckModes() {
	resetEnv()
	resetFS()
	c := prepareConfig()
	c.Directory = "/r"
	c.WriteIVFCopy = sym.Choose("ivf", 2) == 1
	n := sym.Param("N", 4)
	prefix := []string{"", "42949672", "0xfffffff", "0x1000000"}[sym.Choose("prefix", 4)]
	if prefix != "" {
		n = min(n, 2)
	}
	text := prefix + sym.String("mode", sym.Choose("length", n+1))
	sym.Assume(plain(text))
	which := sym.Choose("which", 2)
	if which == 0 {
		c.FileMode = text
	} else {
		c.DirFileMode = text
	}
	// the directory of the file, or also the one above, may be missing
	sub := sym.Choose("sub", 3)
	entries = []*entry{{"/r", 1}, {"/r/s/t/a.webm", 0}, {"/r/s/t", sub >> 1}, {"/r/s", b2i(sub > 0)}}
	missing := sub < 2
	c.WriteToDevNull = sym.Choose("devnull", 2) == 1
	r, err := recorder.NewRecorder(context.Background(), c, "s/t/a.webm")
	want, ok := number(text)
	needed := which == 0 || missing && !c.WriteToDevNull
	if err == nil {
		sym.Assert(ok || !needed, "C23: a start with an invalid mode text is refused")
		record(r)
		for _, f := range files {
			if which == 0 {
				sym.Assert(uint64(f.mode) == want, "C23: files are opened with the configured mode")
			} else {
				sym.Assert(f.mode == 0600, "C23: files are opened with the configured mode")
			}
			if c.WriteToDevNull {
				sym.Assert(f.path == os.DevNull, "C23: with the null device, no file is created")
			} else {
				sym.Assert(strings.HasPrefix(f.path, "/r/s/t/a."), "C05: every file created lies inside the recording directory")
			}
		}
		if c.WriteToDevNull {
			sym.Assert(len(dirs) == 0, "C23: with the null device, no directory is created")
			sym.Assert(r.GetFilePath() == os.DevNull, "C23: the null device is reported as the file")
			sym.Cover("null device")
		} else {
			sym.Assert(len(files) == 1+b2i(c.WriteIVFCopy), "C23: the recording and, if enabled, its IVF copy are created")
			sym.Assert(len(dirs) > 0 == missing, "C23: missing directories are created")
		}
		if which == 0 && text[0] == '0' && len(text) > 3 {
			sym.Cover("octal or hexadecimal")
		}
	} else {
		failed := mkFailed > 0
		sym.Assert(failed || !ok, "C23: valid mode texts are accepted")
		if !ok {
			sym.Cover("invalid text")
		}
	}
	for _, d := range dirs {
		sym.Assert(d.path == "/r/s/t" || d.path == "/r/s" && sub == 0, "C23: only the missing directory is created")
		if which == 1 {
			sym.Assert(ok && uint64(d.mode) == want, "C23: directories are created with the configured mode")
		} else {
			sym.Assert(d.mode == 0700, "C23: directories are created with the configured mode")
		}
	}
	sym.Observe("result", err == nil, len(dirs), len(files))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
