// Package simioutil is package io/ioutil with a simulated file system.
package simioutil

import (
	os "github.com/jchv/cleansheets/verifsim/simos"
)

var (
	ReadFile  = os.ReadFile
	WriteFile = os.WriteFile
)
