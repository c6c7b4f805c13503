// Package simos is package os with a simulated file system, standard streams
// and process when a simulation is active.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jchv/cleansheets/verifsim/hook"
)

// FileSpec describes a simulated file.
type FileSpec struct {
	Data []byte

	// OpenErr is the error of opening the file.
	OpenErr error

	// Chunks bounds the sizes of the reads in turn; the last one is repeated.
	Chunks []int

	// ReadErr is the error of reading once ReadOff bytes were read.
	ReadErr error
	ReadOff int

	// CloseErr is the error of closing the file.
	CloseErr error

	// Dir is set for directories.
	Dir bool

	// NoSize is set when stat reports a size of zero (pipes, /proc files).
	NoSize bool

	// Stall is set when opening the file ("open") or reading on at StallOff
	// ("read") takes for ever.
	Stall    string
	StallOff int

	// Grow is data that is appended to the file after its end was reported.
	Grow []byte
}

// OutSpec describes a simulated output stream.
type OutSpec struct {
	// Limit is the number of bytes accepted before Err; negative: no limit.
	Limit int
	Err   error

	// Heal is set when only one write fails.
	Heal bool

	// Signal is set when the process is killed by the failing write.
	Signal bool

	// CloseErr is the error of closing or synchronising the stream.
	CloseErr error
}

// World is a simulated environment.
type World struct {
	Files  map[string]*FileSpec
	Stdout OutSpec
	Stderr OutSpec
	MaxFD  int

	// KillCall is the number of the simulated system call that the process
	// is killed at; KillBytes is the number of bytes of standard output that
	// it is killed after. Zero or less: not.
	KillCall  int
	KillBytes int

	// End is called when the process ends, in any way.
	End func(code int, how string)

	// Observations.
	Out, Err  []byte
	Calls     int
	Open      int
	MaxOpen   int
	Opened    int
	Closed    int
	DoubleCl  int
	ReadAfter int
	Fired     map[string]int
	Trace     []string
	ended     bool
	mu        sync.Mutex
	threads   int // outside of the simulation
}

var world *World

// Activate makes a world the environment.
func Activate(w *World) {
	w.Fired = map[string]int{}
	w.threads = runtime.NumGoroutine()
	world = w
	Stdout.sim, Stderr.sim, Stdin.sim = &handle{out: 1}, &handle{out: 2}, &handle{spec: &FileSpec{}}
}

func (w *World) end(code int, how string) {
	if w.ended {
		runtime.Goexit()
	}
	w.ended = true
	w.End(code, how)
	select {}
}

// stall ends the run once nothing can happen any more, for this thread waits
// for ever.
func (w *World) stall(what string) {
	w.fire("stall: " + what)
	same, last := 0, ""
	for k := 0; k < 500 && same < 5 && runtime.NumGoroutine() > w.threads+1; k++ {
		w.mu.Unlock()
		time.Sleep(10 * time.Millisecond)
		w.mu.Lock()
		same++
		if now := fmt.Sprint(w.Calls, len(w.Out), len(w.Err), hook.Steps()); now != last {
			same, last = 0, now
		}
	}
	w.end(-1, "stalled")
}

func (w *World) fire(kind string) { w.Fired[kind]++ }

// call counts a system call and kills the process if its time has come.
func (w *World) call(what string) {
	if w.ended {
		select {}
	}
	w.Calls++
	if len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, what)
	}
	if w.KillCall > 0 && w.Calls >= w.KillCall {
		w.fire("kill at a system call")
		w.end(-9, "killed at system call "+what)
	}
}

// File is an open file.
type File struct {
	real *os.File
	sim  *handle
	name string
}

type handle struct {
	spec   *FileSpec
	out    int
	pos    int
	reads  int
	closed bool
	failed bool
	eof    bool
}

var (
	Stdin  = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: os.Stderr, name: "/dev/stderr"}
	Args   = os.Args
)

// Exit ends the process.
func Exit(code int) {
	if w := world; w != nil {
		// The parent process gets to know eight bits.
		w.end(code&0xff, "exit")
	}
	os.Exit(code)
}

func pathErr(op, path string, err error) error {
	return &os.PathError{Op: op, Path: path, Err: err}
}

func (w *World) lookup(name string) *FileSpec {
	if s, ok := w.Files[name]; ok {
		return s
	}
	if abs, err := filepath.Abs(name); err == nil {
		for n, s := range w.Files {
			if a, err := filepath.Abs(n); err == nil && a == abs {
				return s
			}
		}
	}
	return nil
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates a file.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := world
	if w == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{real: f, name: name}, nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.call("open " + name)
	switch name {
	case "/dev/stdout":
		return Stdout, nil
	case "/dev/stderr":
		return Stderr, nil
	case "/dev/null":
		w.opened()
		return &File{sim: &handle{spec: &FileSpec{}}, name: name}, nil
	}
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, pathErr("open", name, syscall.EROFS)
	}
	s := w.lookup(name)
	if s == nil {
		w.fire("missing file")
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	if s.OpenErr != nil {
		w.fire("open error: " + s.OpenErr.Error())
		return nil, pathErr("open", name, s.OpenErr)
	}
	if s.Stall == "open" {
		w.stall("open")
	}
	if w.MaxFD > 0 && w.Open >= w.MaxFD {
		w.fire("out of file descriptors")
		return nil, pathErr("open", name, syscall.EMFILE)
	}
	w.opened()
	return &File{sim: &handle{spec: s}, name: name}, nil
}

func (w *World) opened() {
	w.Open++
	w.Opened++
	if w.Open > w.MaxOpen {
		w.MaxOpen = w.Open
	}
}

// Name returns the name of the file.
func (f *File) Name() string { return f.name }

// Fd returns the file descriptor.
func (f *File) Fd() uintptr {
	if f.sim != nil {
		return uintptr(f.sim.out)
	}
	return f.real.Fd()
}

func (f *File) Read(b []byte) (int, error) {
	w := world
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.sim == nil || w == nil {
		return f.real.Read(b)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	h := f.sim
	if h.closed {
		w.ReadAfter++
		return 0, pathErr("read", f.name, os.ErrClosed)
	}
	if h.spec == nil {
		return 0, pathErr("read", f.name, syscall.EBADF)
	}
	w.call("read " + f.name)
	if h.spec.Dir {
		w.fire("read of a directory")
		return 0, pathErr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if c := h.spec.Chunks; len(c) > 0 {
		i := h.reads
		if i >= len(c) {
			i = len(c) - 1
		}
		if c[i] < n && c[i] > 0 {
			n = c[i]
			w.fire("short read")
		}
	}
	h.reads++
	data := h.spec.Data
	if h.eof {
		data = append(append([]byte{}, data...), h.spec.Grow...)
	}
	if e := h.spec.ReadErr; e != nil {
		if h.pos >= h.spec.ReadOff {
			w.fire("read error: " + e.Error())
			return 0, pathErr("read", f.name, e)
		}
		if n > h.spec.ReadOff-h.pos {
			n = h.spec.ReadOff - h.pos
		}
	}
	if h.spec.Stall == "read" {
		if h.pos >= h.spec.StallOff {
			w.stall("read")
		}
		if n > h.spec.StallOff-h.pos {
			n = h.spec.StallOff - h.pos
		}
	}
	if h.pos >= len(data) {
		h.eof = true
		return 0, io.EOF
	}
	n = copy(b[:n], data[h.pos:])
	h.pos += n
	return n, nil
}

// ReadFrom copies from a reader.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(writerOnly{f}, r)
}

// WriteTo copies to a writer.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, readerOnly{f})
}

type writerOnly struct{ io.Writer }
type readerOnly struct{ io.Reader }

// SetDeadline is not supported by files.
func (f *File) SetDeadline(t time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return os.ErrNoDeadline }

// Readdir lists a directory.
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	return nil, pathErr("readdirent", f.name, syscall.ENOTDIR)
}
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	return nil, pathErr("readdirent", f.name, syscall.ENOTDIR)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	return nil, pathErr("readdirent", f.name, syscall.ENOTDIR)
}

// ReadAt reads from a position.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.sim == nil {
		return f.real.ReadAt(b, off)
	}
	if _, err := f.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return io.ReadFull(f, b)
}

// Seek sets the position.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.sim == nil {
		return f.real.Seek(off, whence)
	}
	if f.sim.spec == nil {
		return 0, pathErr("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.sim.pos)
	case io.SeekEnd:
		off += int64(len(f.sim.spec.Data))
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.sim.pos = int(off)
	return off, nil
}

func (f *File) Write(b []byte) (int, error) {
	w := world
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.sim == nil || w == nil {
		return f.real.Write(b)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	h := f.sim
	if h.closed {
		return 0, pathErr("write", f.name, os.ErrClosed)
	}
	var o *OutSpec
	var buf *[]byte
	kill := 0
	switch h.out {
	case 1:
		o, buf, kill = &w.Stdout, &w.Out, w.KillBytes
	case 2:
		o, buf = &w.Stderr, &w.Err
	default:
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	w.call("write " + f.name)
	n := len(b)
	failing := false
	if o.Limit >= 0 && len(*buf)+n > o.Limit && !(o.Heal && h.failed) {
		if n = o.Limit - len(*buf); n < 0 {
			n = 0
		}
		failing = true
	}
	if kill > 0 && len(*buf)+n >= kill {
		n = kill - len(*buf)
		*buf = append(*buf, b[:n]...)
		w.fire("kill in a write")
		w.end(-9, "killed while writing standard output")
	}
	*buf = append(*buf, b[:n]...)
	if failing {
		h.failed = true
		if o.Signal {
			w.fire(f.name + " write error: SIGPIPE")
			w.end(-13, "killed by SIGPIPE")
		}
		w.fire(f.name + " write error: " + o.Err.Error())
		return n, pathErr("write", f.name, o.Err)
	}
	return n, nil
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at a position.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.sim == nil {
		return f.real.WriteAt(b, off)
	}
	return 0, pathErr("write", f.name, syscall.ESPIPE)
}

// Close closes the file.
func (f *File) Close() error {
	w := world
	if f == nil {
		return os.ErrInvalid
	}
	if f.sim == nil || w == nil {
		return f.real.Close()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	h := f.sim
	w.call("close " + f.name)
	if h.closed {
		w.DoubleCl++
		return pathErr("close", f.name, os.ErrClosed)
	}
	h.closed = true
	if h.out == 0 {
		w.Open--
		w.Closed++
		if e := h.spec.CloseErr; e != nil {
			w.fire("close error: " + e.Error())
			return pathErr("close", f.name, e)
		}
		return nil
	}
	o := &w.Stdout
	if h.out == 2 {
		o = &w.Stderr
	}
	if o.CloseErr != nil {
		w.fire(f.name + " close error")
		return pathErr("close", f.name, o.CloseErr)
	}
	return nil
}

// Sync commits the file.
func (f *File) Sync() error {
	w := world
	if f.sim == nil || w == nil {
		return f.real.Sync()
	}
	w.call("fsync " + f.name)
	if f.sim.out == 1 {
		if w.Stdout.CloseErr != nil {
			return pathErr("sync", f.name, w.Stdout.CloseErr)
		}
		return pathErr("sync", f.name, syscall.EINVAL)
	}
	return nil
}

type info struct {
	name string
	spec *FileSpec
}

func (i info) Name() string { return filepath.Base(i.name) }
func (i info) Size() int64 {
	if i.spec == nil || i.spec.NoSize {
		return 0
	}
	return int64(len(i.spec.Data))
}
func (i info) Mode() fs.FileMode {
	if i.spec == nil {
		return 0600 | fs.ModeNamedPipe
	}
	if i.spec.Dir {
		return 0755 | fs.ModeDir
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool        { return i.Mode().IsDir() }
func (i info) Sys() interface{}   { return nil }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	w := world
	if f.sim == nil || w == nil {
		return f.real.Stat()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.call("fstat " + f.name)
	if f.sim.closed {
		return nil, pathErr("stat", f.name, os.ErrClosed)
	}
	return info{f.name, f.sim.spec}, nil
}

// Stat describes a file.
func Stat(name string) (os.FileInfo, error) {
	w := world
	if w == nil {
		return os.Stat(name)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.call("stat " + name)
	s := w.lookup(name)
	if s == nil {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return info{name, s}, nil
}

// Lstat describes a file.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// ReadDir lists a directory.
func ReadDir(name string) ([]os.DirEntry, error) {
	if world == nil {
		return os.ReadDir(name)
	}
	return nil, pathErr("open", name, syscall.ENOENT)
}

func rofs(op, name string) error { return pathErr(op, name, syscall.EROFS) }

// The simulated file system is read-only.

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	return err
}
func CreateTemp(dir, pattern string) (*File, error) {
	return nil, rofs("open", filepath.Join(dir, pattern))
}
func Remove(name string) error                  { return rofs("remove", name) }
func RemoveAll(name string) error               { return rofs("remove", name) }
func Rename(a, b string) error                  { return rofs("rename", a) }
func Mkdir(name string, p os.FileMode) error    { return rofs("mkdir", name) }
func MkdirAll(name string, p os.FileMode) error { return rofs("mkdir", name) }
func Truncate(name string, n int64) error       { return rofs("truncate", name) }
func Chmod(name string, p os.FileMode) error    { return rofs("chmod", name) }

// ErrText returns the text of the innermost error.
func ErrText(err error) string {
	for {
		u := errors.Unwrap(err)
		if u == nil {
			return strings.TrimSpace(err.Error())
		}
		err = u
	}
}
