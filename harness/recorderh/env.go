// Package recorderh holds the harnesses for internal/webrtc/recorder.
package recorderh

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"syscall"

	"github.com/at-wat/ebml-go/mkvcore"
	"github.com/at-wat/ebml-go/webm"
)

// file is an open file of the simulated file system.
type file struct {
	path   string
	flag   int
	mode   fs.FileMode
	data   []byte
	pos    int
	closed int
}

// track is one track writer of a WebM file.
type track struct {
	f      *file
	entry  webm.TrackEntry
	blocks []*block
	closed int
}

type block struct {
	t    *track
	key  bool
	ts   int64
	data []byte // as written
	ref  []byte // the caller's slice: the muxer keeps it until the block is sorted
}

var (
	files    []*file
	handles  map[*os.File]*file
	tracks   []*track
	opens    int // files opened for the muxer
	failOpen bool
	failMux  bool
	failWr   bool // file writes fail
	failBlk  bool // block writes fail
	failCls  bool
	touched  *file // the file written to last
	late     int   // writes to or double closes of closed things
)

// Reset empties the simulated disk.
func Reset() { resetEnv() }

func resetEnv() {
	files, tracks, opens, late = nil, nil, 0, 0
	handles = map[*os.File]*file{}
	touched = nil
	failOpen, failMux, failBlk, failCls, failWr = false, false, false, false, false
}

var errDisk = errors.New("simulated disk error")

//verif:stub os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if failOpen {
		return nil, errDisk
	}
	f := &file{path: name, flag: flag, mode: perm}
	h := new(os.File)
	files = append(files, f)
	if handles == nil {
		handles = map[*os.File]*file{}
	}
	handles[h] = f
	return h, nil
}

//verif:stub (*os.File).Write
func osWrite(h *os.File, b []byte) (int, error) {
	f := handles[h]
	if f == nil {
		return syscall.Write(int(h.Fd()), b)
	}
	touched = f
	if f.closed > 0 {
		late++
		return 0, os.ErrClosed
	}
	if failWr {
		return 0, errDisk
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = len(f.data)
	}
	for len(f.data) < f.pos {
		f.data = append(f.data, 0)
	}
	n := copy(f.data[f.pos:], b)
	f.data = append(f.data, b[n:]...)
	f.pos += len(b)
	return len(b), nil
}

//verif:stub (*os.File).WriteAt
func osWriteAt(h *os.File, b []byte, off int64) (int, error) {
	f := handles[h]
	if f.closed > 0 {
		late++
		return 0, os.ErrClosed
	}
	p := f.pos
	f.pos = int(off)
	n, err := osWrite(h, b)
	f.pos = p
	return n, err
}

//verif:stub (*os.File).Seek
func osSeek(h *os.File, off int64, whence int) (int64, error) {
	f := handles[h]
	if f.closed > 0 {
		return 0, os.ErrClosed
	}
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	case io.SeekEnd:
		f.pos = len(f.data) + int(off)
	}
	return int64(f.pos), nil
}

//verif:stub (*os.File).Close
func osClose(h *os.File) error {
	f := handles[h]
	if f == nil {
		return nil
	}
	f.closed++
	if f.closed > 1 {
		late++
		return os.ErrClosed
	}
	return nil
}

//verif:stub (*os.File).Sync
func osSync(h *os.File) error { return nil }

//verif:stub github.com/at-wat/ebml-go/webm.NewSimpleBlockWriter
func newSimpleBlockWriter(w0 io.WriteCloser, ts []webm.TrackEntry, opts ...mkvcore.BlockWriterOption) ([]webm.BlockWriteCloser, error) {
	opens++
	if failMux {
		return nil, errDisk
	}
	// find the file behind the writer
	touched = nil
	w0.Write([]byte("webm"))
	f := touched
	var out []webm.BlockWriteCloser
	for _, e := range ts {
		t := &track{f: f, entry: e}
		tracks = append(tracks, t)
		out = append(out, t)
	}
	return out, nil
}

func (t *track) Write(key bool, ts int64, b []byte) (int, error) {
	if t.closed > 0 {
		late++
		return 0, os.ErrClosed
	}
	if failBlk {
		return 0, errDisk
	}
	t.blocks = append(t.blocks, &block{t: t, key: key, ts: ts, data: append([]byte(nil), b...), ref: b})
	return len(b), nil
}

func (t *track) Close() error {
	t.closed++
	if t.closed > 1 {
		late++
	}
	if failCls {
		return errDisk
	}
	return nil
}

func videoTrack() *track {
	for i := len(tracks) - 1; i >= 0; i-- {
		if tracks[i].entry.TrackType == 1 {
			return tracks[i]
		}
	}
	return nil
}

func audioTrack() *track {
	for i := len(tracks) - 1; i >= 0; i-- {
		if tracks[i].entry.TrackType == 2 {
			return tracks[i]
		}
	}
	return nil
}

// blocksOf lists every block written to tracks of a kind, in order.
func blocksOf(kind uint64) []*block {
	var out []*block
	for _, t := range tracks {
		if t.entry.TrackType == kind {
			out = append(out, t.blocks...)
		}
	}
	return out
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }
