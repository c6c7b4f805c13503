package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/verifsim/hook"
)

// Delivery says how a stream delivers a text.
type Delivery struct {
	// Kind is strings, bytes, buffer (the standard in-memory readers), bufio
	// (a simulated byte stream through a buffered reader of the given Size) or
	// runes (a simulated rune stream).
	Kind string
	Size int `json:",omitempty"`

	// Chunks are the sizes of the reads of a byte stream, in turn and over
	// again; 0 is an empty read.
	Chunks []int `json:",omitempty"`

	// DataErr is set when the end or failure of a byte stream is reported
	// together with the last data.
	DataErr bool `json:",omitempty"`

	// Pause is set when the stream lets other tasks run at each read.
	Pause bool `json:",omitempty"`
}

func (d Delivery) String() string {
	switch d.Kind {
	case "bufio":
		s := fmt.Sprintf("buffered reader of %d bytes, reads of %v", d.Size, d.Chunks)
		if d.DataErr {
			s += ", end with data"
		}
		return s
	}
	return d.Kind
}

// Fault is what goes wrong with a stream.
type Fault struct {
	// At is the index of the first character that is not delivered, or for
	// the kind unread the ordinal of the pushback that fails.
	At int

	// Kind is stall, error, eof (the stream reports its end and later goes on)
	// or unread.
	Kind string

	// Err names the error.
	Err string `json:",omitempty"`

	// Then is what further reads do: rest (deliver the rest of the text), eof,
	// error or stall.
	Then string `json:",omitempty"`
}

type typedError struct {
	Code int
	tags []string
}

func (e *typedError) Error() string   { return fmt.Sprintf("device error %d", e.Code) }
func (e *typedError) Temporary() bool { return true }
func (e *typedError) Timeout() bool   { return true }

type chainError struct{ inner error }

func (e *chainError) Error() string { return "reading source: " + e.inner.Error() }
func (e *chainError) Unwrap() error { return e.inner }

var streamErrs = []string{"generic", "EIO", "unexpected EOF", "fake EOF", "closed", "timeout", "canceled", "no progress", "chain", "EINTR", "EAGAIN", "negative", "panicky", "file closed", "reset", "typed", "short", "aborted", "message", "foreign", "not exist"}

func streamErr(name string) error {
	switch name {
	case "EIO":
		return &os.PathError{Op: "read", Path: "input.js", Err: syscall.EIO}
	case "unexpected EOF":
		return io.ErrUnexpectedEOF
	case "fake EOF":
		return errors.New("EOF")
	case "closed":
		return io.ErrClosedPipe
	case "timeout":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "no progress":
		return io.ErrNoProgress
	case "chain":
		return &chainError{&chainError{syscall.ECONNRESET}}
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return &os.SyscallError{Syscall: "read", Err: syscall.EAGAIN}
	case "negative":
		return bufio.ErrNegativeCount
	case "panicky":
		return &os.PathError{Op: "read", Path: "", Err: errors.New("invalid UTF-8 sequence")}
	case "file closed":
		return &os.PathError{Op: "read", Path: "input.js", Err: os.ErrClosed}
	case "reset":
		return &chainError{syscall.EPIPE}
	case "typed":
		return &typedError{Code: 5, tags: []string{"temporary"}}
	case "short":
		return io.ErrShortBuffer
	case "aborted":
		return context.DeadlineExceeded
	case "message":
		return &chainError{errors.New("unexpected EOF")}
	case "foreign":
		return &errs.SyntaxError{Err: errors.New("unexpected rune")}
	case "not exist":
		return &os.PathError{Op: "read", Path: "input.js", Err: syscall.ENOENT}
	}
	return errors.New("stream failed")
}

// Stream monitors and disturbs the delivery of a text.
type Stream struct {
	text  []byte
	rs    []runeAt
	d     Delivery
	f     *Fault
	fail  error
	limit int // byte offset that reads do not go beyond before the fault

	at    int // next byte
	ri    int // next character
	reads int

	last     int // size of the last operation's character, 0 if not a successful read
	unreads  int
	fired    bool
	after    int // operations after a failure was reported
	eof      bool
	breach   string
	asked    int // highest character index that was asked for
	released bool
}

// open returns a rune stream that delivers the text.
func open(text []byte, d Delivery, f *Fault) (io.RuneScanner, *Stream) {
	s := &Stream{text: text, d: d, f: f, asked: -1, limit: len(text)}
	if f != nil || d.Kind == "runes" {
		s.rs = runesOf(text)
	}
	if f != nil {
		s.fail = streamErr(f.Err)
		if f.Kind != "unread" && f.At < len(s.rs) {
			s.limit = s.rs[f.At].off
		}
	}
	kind := d.Kind
	if f != nil && kind != "bufio" {
		kind = "runes"
	}
	switch kind {
	case "bufio":
		b := bufio.NewReaderSize((*byteStream)(s), d.Size)
		if f != nil && f.Kind == "unread" {
			return &unreadFault{b, s}, s
		}
		return b, s
	case "runes":
		return (*runeStream)(s), s
	case "bytes":
		return bytes.NewReader(text), s
	case "buffer":
		return bytes.NewBuffer(append([]byte{}, text...)), s
	default:
		return strings.NewReader(string(text)), s
	}
}

// trip is called when the fault's position is reached. It returns the error to
// report, or nil if the stream goes on.
func (s *Stream) trip() error {
	f := s.f
	if !s.fired {
		s.fired = true
		switch f.Kind {
		case "stall":
			stallNow()
		case "eof":
			s.eof = true
			return io.EOF
		default:
			return s.fail
		}
	}
	if f.Kind == "error" {
		s.after++
	}
	switch f.Then {
	case "eof":
		return io.EOF
	case "error":
		return s.fail
	case "stall":
		stallNow()
	}
	return nil
}

type byteStream Stream

func (b *byteStream) Read(p []byte) (int, error) {
	s := (*Stream)(b)
	if s.d.Pause {
		hook.Yield()
	}
	n := len(p)
	if c := s.d.Chunks; len(c) > 0 {
		if k := c[s.reads%len(c)]; k < n {
			n = k
		}
	}
	s.reads++
	if s.f != nil && s.f.Kind != "unread" && s.at >= s.limit && !s.released {
		if err := s.trip(); err != nil {
			return 0, err
		}
		s.released = true
	}
	end := len(s.text)
	if s.f != nil && !s.released && s.limit < end {
		end = s.limit
	}
	if n > end-s.at {
		n = end - s.at
	}
	if n == 0 && s.at >= len(s.text) && len(p) > 0 {
		if s.f != nil && !s.released && s.f.Kind != "unread" {
			if err := s.trip(); err != nil {
				return 0, err
			}
		}
		s.eof = true
		return 0, io.EOF
	}
	copy(p, s.text[s.at:s.at+n])
	s.at += n
	if s.d.DataErr && n > 0 {
		if s.f != nil && s.f.Kind != "unread" && s.f.Kind != "stall" && s.at >= s.limit && !s.released {
			return n, s.trip()
		}
		if s.f == nil && s.at >= len(s.text) {
			s.eof = true
			return n, io.EOF
		}
	}
	return n, nil
}

type runeStream Stream

func (b *runeStream) ReadRune() (rune, int, error) {
	s := (*Stream)(b)
	if s.d.Pause {
		hook.Yield()
	}
	s.last = 0
	if s.ri > s.asked {
		s.asked = s.ri
	}
	if s.fired && s.f.Kind == "unread" {
		s.after++
	}
	if s.f != nil && s.f.Kind != "unread" && s.ri >= s.f.At && !s.released {
		if err := s.trip(); err != nil {
			return s.noRune(), 0, err
		}
		s.released = true
	}
	if s.ri >= len(s.rs) {
		s.eof = true
		return s.noRune(), 0, io.EOF
	}
	r := s.rs[s.ri]
	s.ri++
	s.last = r.size
	return r.r, r.size, nil
}

// noRune is the value that comes with an error; it does not mean anything.
func (s *Stream) noRune() rune {
	return []rune{0, -1, 0xFFFD, 0, 'a', '\n', ';'}[s.ri%7]
}

// Len and Buffered say that nothing has been received in advance, as some
// streams do that receive their text bit by bit. That is not their end.
func (b *runeStream) Len() int      { return 0 }
func (b *runeStream) Buffered() int { return 0 }

func (b *runeStream) UnreadRune() error {
	s := (*Stream)(b)
	if s.fired && (s.f.Kind == "error" || s.f.Kind == "unread") {
		s.after++
	}
	if s.last == 0 {
		if s.breach == "" {
			s.breach = fmt.Sprintf("pushback at character %d although the operation before was not a successful read", s.ri)
		}
		return bufio.ErrInvalidUnreadRune
	}
	s.last = 0
	if s.f != nil && s.f.Kind == "unread" {
		if s.unreads++; s.unreads == s.f.At {
			s.fired = true
			return s.fail
		}
	}
	s.ri--
	return nil
}

// unreadFault fails a pushback of a buffered reader.
type unreadFault struct {
	*bufio.Reader
	s *Stream
}

func (u *unreadFault) ReadRune() (rune, int, error) {
	if u.s.fired {
		u.s.after++
	}
	r, n, err := u.Reader.ReadRune()
	if err == nil {
		u.s.ri++
	}
	return r, n, err
}

func (u *unreadFault) UnreadRune() error {
	if u.s.fired {
		u.s.after++
	}
	if u.s.unreads++; u.s.unreads == u.s.f.At {
		u.s.fired = true
		return u.s.fail
	}
	u.s.ri--
	return u.Reader.UnreadRune()
}

// genDelivery makes up a way of delivering a text.
func genDelivery(r *rng) Delivery {
	switch r.n(10) {
	case 0:
		return Delivery{Kind: "strings"}
	case 1:
		return Delivery{Kind: "bytes"}
	case 2:
		return Delivery{Kind: "buffer"}
	case 3, 4:
		return Delivery{Kind: "runes"}
	}
	return genBuffered(r)
}

// genBuffered makes up a byte stream.
func genBuffered(r *rng) Delivery {
	d := Delivery{Kind: "bufio", DataErr: r.p(3)}
	d.Size = []int{16, 17, 31, 64, 100, 512, 4096, 4096, 65536}[r.n(9)]
	switch r.n(6) {
	case 0:
		d.Chunks = []int{1}
	case 1:
		// As much as fits.
	case 2:
		d.Chunks = []int{r.in(2, 9)}
	case 3:
		for i, n := 0, r.in(2, 8); i < n; i++ {
			d.Chunks = append(d.Chunks, r.in(1, 40))
		}
	case 4:
		for i, n := 0, r.in(2, 12); i < n; i++ {
			if r.p(2) {
				d.Chunks = append(d.Chunks, 0)
			} else {
				d.Chunks = append(d.Chunks, r.in(1, 5))
			}
		}
		d.Chunks = append(d.Chunks, 1)
	case 5:
		d.Chunks = []int{d.Size, 1, d.Size - 1, 2, d.Size + 1, 3}
	}
	return d
}

// genFaulty makes up a stream that faults can be injected into.
func genFaulty(r *rng) Delivery {
	if r.p(2) {
		return Delivery{Kind: "runes"}
	}
	return genBuffered(r)
}
