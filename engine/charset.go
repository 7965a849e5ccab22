package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
	"sync"
)

type CharSet [4]uint64

func (c *CharSet) add(b byte)      { c[b>>6] |= 1 << (b & 63) }
func (c *CharSet) del(b byte)      { c[b>>6] &^= 1 << (b & 63) }
func (c *CharSet) has(b byte) bool { return c[b>>6]&(1<<(b&63)) != 0 }
func (c CharSet) first() (byte, bool) {
	for i := 0; i < 256; i++ {
		if c.has(byte(i)) {
			return byte(i), true
		}
	}
	return 0, false
}
func (c CharSet) empty() bool { return c == CharSet{} }
func (c CharSet) inter(d CharSet) CharSet {
	for i := range c {
		c[i] &= d[i]
	}
	return c
}
func (c CharSet) union(d CharSet) CharSet {
	for i := range c {
		c[i] |= d[i]
	}
	return c
}
func (c CharSet) not() CharSet {
	for i := range c {
		c[i] = ^c[i]
	}
	return c
}
func setOf(s string) CharSet {
	var c CharSet
	for i := 0; i < len(s); i++ {
		c.add(s[i])
	}
	return c
}
func setRange(lo, hi byte) CharSet {
	var c CharSet
	for i := int(lo); i <= int(hi); i++ {
		c.add(byte(i))
	}
	return c
}

var allBytes = CharSet{}.not()
var wsSet = setOf(" \t\n\v\f\r")
var upperSet = setRange('A', 'Z')
var lowerSet = setRange('a', 'z')
var digitSet = setRange('0', '9')

func (c CharSet) smt() string {
	var parts []string
	for i := 0; i < 256; {
		if !c.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && c.has(byte(j+1)) {
			j++
		}
		if i == j {
			parts = append(parts, "(str.to_re "+smtStr(string([]byte{byte(i)}))+")")
		} else {
			parts = append(parts, "(re.range "+smtStr(string([]byte{byte(i)}))+" "+smtStr(string([]byte{byte(j)}))+")")
		}
		i = j + 1
	}
	switch len(parts) {
	case 0:
		return "re.none"
	case 1:
		return parts[0]
	}
	return "(re.union " + strings.Join(parts, " ") + ")"
}
func (c CharSet) key() string { return fmt.Sprintf("%x.%x.%x.%x", c[0], c[1], c[2], c[3]) }
func (c CharSet) all(s string) bool {
	for i := 0; i < len(s); i++ {
		if !c.has(s[i]) {
			return false
		}
	}
	return true
}

// reStar: strings all of whose characters are in c
var reStars sync.Map

func reStar(c CharSet) *Re {
	if r, ok := reStars.Load(c); ok {
		return r.(*Re)
	}
	r, _ := reStars.LoadOrStore(c, &Re{name: "star:" + c.key(), smt: "(re.* " + c.smt() + ")", match: func(s string) bool { return c.all(s) }})
	return r.(*Re)
}

// case-insensitive literal
func reFold(lit string) *Re {
	var parts []string
	for i := 0; i < len(lit); i++ {
		l, u := strings.ToLower(lit[i:i+1]), strings.ToUpper(lit[i:i+1])
		if l == u {
			parts = append(parts, "(str.to_re "+smtStr(l)+")")
		} else {
			parts = append(parts, "(re.union (str.to_re "+smtStr(l)+") (str.to_re "+smtStr(u)+"))")
		}
	}
	smt := `(str.to_re "")`
	if len(parts) == 1 {
		smt = parts[0]
	} else if len(parts) > 1 {
		smt = "(re.++ " + strings.Join(parts, " ") + ")"
	}
	return &Re{name: "fold:" + strings.ToLower(lit), smt: smt, match: func(s string) bool { return strings.EqualFold(s, lit) && len(s) == len(lit) }}
}

// optional sign then 1..18 digits
var reSmallInt = &Re{name: "smallint", smt: `(re.++ (re.opt (re.union (str.to_re "+") (str.to_re "-"))) ((_ re.loop 1 18) (re.range "0" "9")))`,
	match: func(s string) bool {
		if s != "" && (s[0] == '+' || s[0] == '-') {
			s = s[1:]
		}
		return len(s) >= 1 && len(s) <= 18 && digitSet.all(s)
	}}

func splitSet(s string, set string) (int, int) { // leading run length, trailing run start
	c := setOf(set)
	i := 0
	for i < len(s) && c.has(s[i]) {
		i++
	}
	j := len(s)
	for j > 0 && c.has(s[j-1]) {
		j--
	}
	return i, j
}

func skolEval(fn string, a []cval) (cval, bool) {
	name, arg := fn, ""
	if k := strings.IndexByte(fn, ':'); k >= 0 {
		name, arg = fn[:k], fn[k+1:]
	}
	str := func(s string) (cval, bool) { return cval{s: s}, true }
	switch name {
	case "before":
		if i := strings.Index(a[0].s, a[1].s); i >= 0 {
			return str(a[0].s[:i])
		}
		return str("")
	case "after":
		if i := strings.Index(a[0].s, a[1].s); i >= 0 {
			return str(a[0].s[i+len(a[1].s):])
		}
		return str("")
	case "lbefore":
		if i := strings.LastIndex(a[0].s, a[1].s); i >= 0 {
			return str(a[0].s[:i])
		}
		return str("")
	case "lafter":
		if i := strings.LastIndex(a[0].s, a[1].s); i >= 0 {
			return str(a[0].s[i+len(a[1].s):])
		}
		return str("")
	case "lead":
		i, _ := splitSet(a[0].s, arg)
		return str(a[0].s[:i])
	case "ltrim":
		i, _ := splitSet(a[0].s, arg)
		return str(a[0].s[i:])
	case "tail":
		_, j := splitSet(a[0].s, arg)
		return str(a[0].s[j:])
	case "rtrim":
		_, j := splitSet(a[0].s, arg)
		return str(a[0].s[:j])
	case "take":
		n := clamp(a[1].i, len(a[0].s))
		return str(a[0].s[:n])
	case "drop":
		n := clamp(a[1].i, len(a[0].s))
		return str(a[0].s[n:])
	case "taker": // all but the last n
		n := clamp(a[1].i, len(a[0].s))
		return str(a[0].s[:len(a[0].s)-n])
	case "dropr": // the last n
		n := clamp(a[1].i, len(a[0].s))
		return str(a[0].s[len(a[0].s)-n:])
	case "char":
		if i := a[1].i; i >= 0 && i < int64(len(a[0].s)) {
			return str(a[0].s[i : i+1])
		}
		return str("?")
	case "first":
		if a[0].s == "" {
			return str("?")
		}
		return str(a[0].s[:1])
	case "last":
		if a[0].s == "" {
			return str("?")
		}
		return str(a[0].s[len(a[0].s)-1:])
	case "lower":
		return str(asciiMap(a[0].s, false))
	case "upper":
		return str(asciiMap(a[0].s, true))
	case "esc":
		return str(jsonEscape(a[0].s, arg == "html"))
	case "quote":
		q := strconv.Quote(a[0].s)
		return str(q[1 : len(q)-1])
	case "hashraw":
		switch arg {
		case "sha1":
			h := sha1.Sum([]byte(a[0].s))
			return str(string(h[:]))
		case "sha256":
			h := sha256.Sum256([]byte(a[0].s))
			return str(string(h[:]))
		case "sha512":
			h := sha512.Sum512([]byte(a[0].s))
			return str(string(h[:]))
		case "md5":
			h := md5.Sum([]byte(a[0].s))
			return str(string(h[:]))
		}
	case "hash":
		switch arg {
		case "sha1":
			h := sha1.Sum([]byte(a[0].s))
			return str(hex.EncodeToString(h[:]))
		case "sha256":
			h := sha256.Sum256([]byte(a[0].s))
			return str(hex.EncodeToString(h[:]))
		case "md5":
			h := md5.Sum([]byte(a[0].s))
			return str(hex.EncodeToString(h[:]))
		case "sha512":
			h := sha512.Sum512([]byte(a[0].s))
			return str(hex.EncodeToString(h[:]))
		}
	}
	return cval{}, false
}

func clamp(n int64, max int) int {
	if n < 0 {
		return 0
	}
	if n > int64(max) {
		return max
	}
	return int(n)
}

func asciiMap(s string, up bool) string {
	b := []byte(s)
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func hashSize(alg string) int {
	switch alg {
	case "sha1":
		return 20
	case "sha256":
		return 32
	case "sha512":
		return 64
	}
	return 16
}
