// Package simfmt is package fmt with simulated standard streams.
package simfmt

import (
	"fmt"

	os "github.com/jchv/cleansheets/verifsim/simos"
)

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(os.Stdout, f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(os.Stdout, a...) }
func Scan(a ...interface{}) (int, error)             { return fmt.Fscan(os.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return fmt.Fscanf(os.Stdin, f, a...) }
func Scanln(a ...interface{}) (int, error)           { return fmt.Fscanln(os.Stdin, a...) }
