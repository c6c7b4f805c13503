// Package simlog is package log, writing to the simulated standard error and
// ending the simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"

	os "github.com/jchv/cleansheets/verifsim/simos"
)

// Logger is a logger.
type Logger struct{ *log.Logger }

// New creates a logger.
func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{log.New(w, prefix, flag)}
}

func (l *Logger) Fatal(v ...interface{}) {
	l.Output(2, fmt.Sprint(v...))
	os.Exit(1)
}

func (l *Logger) Fatalf(format string, v ...interface{}) {
	l.Output(2, fmt.Sprintf(format, v...))
	os.Exit(1)
}

func (l *Logger) Fatalln(v ...interface{}) {
	l.Output(2, fmt.Sprintln(v...))
	os.Exit(1)
}

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

var std = New(stderr{}, "", LstdFlags)

// Default returns the standard logger.
func Default() *Logger { return std }

var (
	SetOutput = std.SetOutput
	SetFlags  = std.SetFlags
	SetPrefix = std.SetPrefix
	Flags     = std.Flags
	Prefix    = std.Prefix
	Writer    = std.Writer
	Output    = std.Output
	Print     = std.Print
	Printf    = std.Printf
	Println   = std.Println
	Fatal     = std.Fatal
	Fatalf    = std.Fatalf
	Fatalln   = std.Fatalln
	Panic     = std.Panic
	Panicf    = std.Panicf
	Panicln   = std.Panicln
)
