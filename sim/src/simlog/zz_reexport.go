// Code generated by genshim. DO NOT EDIT.

package simlog

import "log"

const LUTC = log.LUTC
const Ldate = log.Ldate
const Llongfile = log.Llongfile
const Lmicroseconds = log.Lmicroseconds
const Lmsgprefix = log.Lmsgprefix
const Lshortfile = log.Lshortfile
const LstdFlags = log.LstdFlags
const Ltime = log.Ltime
