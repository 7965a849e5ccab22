// Package h holds the harnesses: one function per statement that is checked.
// A harness builds symbolic inputs with package sym, calls the real code and
// asserts what has to hold.
package h

import (
	"strings"

	"verifharness/sym"
)

// character sets for sym.From
const (
	alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	idset = alnum + ".-"
	word  = alnum + "._-+ "
)

var (
	// all ASCII except line ends
	lineSet = ascii("\n\r")
	// all ASCII printable characters and blanks
	textSet = ascii("\r")
)

func ascii(except string) string {
	var b []byte
	for c := 0; c < 128; c++ {
		if strings.IndexByte(except, byte(c)) < 0 {
			b = append(b, byte(c))
		}
	}
	return string(b)
}

// line is an arbitrary text without line breaks.
func line(name string, max int) string { return sym.From(name, lineSet, 0, max) }

// id is an arbitrary non-empty identifier part.
func id(name string, max int) string { return sym.From(name, idset, 1, max) }

// short is a non-empty word over letters and digits.
func short(name string, max int) string { return sym.From(name, alnum, 1, max) }

func has(s, sub string) bool { return strings.Contains(s, sub) }

// tokenSet is all printable ASCII except the blank.
var tokenSet = func() string {
	var b []byte
	for c := 33; c < 127; c++ {
		b = append(b, byte(c))
	}
	return string(b)
}()

func eq(a, b any, msg string) { sym.Assert(sym.Equal(a, b), msg) }

// fileSet is all printable ASCII a file name can have.
var fileSet = strings.ReplaceAll(tokenSet+" ", "/", "")

// yamlSet is all ASCII that YAML text can hold; quoteless leaves out what JSON escapes
var (
	yamlSet   = ascii("\x7f")
	quoteless = ascii("\"\\\x7f" + "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\v\f\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f")
)

// inkSet is all ASCII except white space.
var inkSet = ascii(" \t\n\v\f\r")
