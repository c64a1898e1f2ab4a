//go:build go1.22

// Code generated by tools/genalias; DO NOT EDIT.

package ioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
