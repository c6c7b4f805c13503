// Code generated by genshim. DO NOT EDIT.

package simioutil

import "io/ioutil"

var Discard = ioutil.Discard
var NopCloser = ioutil.NopCloser
var ReadAll = ioutil.ReadAll
