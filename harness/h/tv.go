package h

import (
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"verifharness/sym"
)

// values of tag-value pairs, with what they stand for

// tvValue is an arbitrary value.
func tvValue(name string) string { return sym.String(name, 24) }

// tvToken is a part of a compound value.
func tvToken(name string) string { return sym.From(name, tokenSet, 1, 12) }

// tvAgent is one of the first n kinds of agents with an arbitrary name.
func tvAgent(name string, n int) (typ, who, line string) {
	typ = []string{"Person", "Organization", "Tool"}[sym.Choice(name+".type", n)]
	who = sym.From(name, lineSet, 0, 20)
	sym.Assume(sym.Eq(strings.TrimSpace(who), who))
	return typ, who, typ + ": " + who
}

func tvSum(algs []common.ChecksumAlgorithm) (common.Checksum, string) {
	c := common.Checksum{Algorithm: algs[sym.Choice("alg", len(algs))], Value: tvToken("Checksum")}
	return c, string(c.Algorithm) + ": " + c.Value
}

func tvCode(c *common.PackageVerificationCode) string {
	c.Value = tvToken("Code")
	sym.Assume(!has(c.Value, "(excludes:"))
	if sym.Choice("excluded", 2) == 0 {
		return c.Value
	}
	x := tvToken("Excluded")
	sym.Assume(!has(x, ")"))
	c.ExcludedFiles = []string{x}
	return c.Value + " (excludes: " + x + ")"
}

// tvElem is an element of this or of another document.
func tvElem(name string) (common.DocElementID, string) {
	e := sym.From(name, idset, 1, 8)
	if sym.Choice(name+".kind", 2) == 0 {
		return common.DocElementID{ElementRefID: common.ElementID(e)}, "SPDXRef-" + e
	}
	d := sym.From(name+".doc", idset, 1, 8)
	return common.DocElementID{DocumentRefID: common.DocumentID(d), ElementRefID: common.ElementID(e)}, "DocumentRef-" + d + ":SPDXRef-" + e
}

func decimal(n int) string { return strconv.Itoa(n) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func hasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }

// malformed compound values

// noColon is an arbitrary text without a colon.
func noColon(name string) string { return sym.From(name, ascii(":"), 0, 24) }

// badKey is an arbitrary key, possibly with white space around it, that is none of keys.
func badKey(keys []string) string {
	k := sym.From("key", ascii(": \t\n\v\f\r"), 0, 16)
	for _, x := range keys {
		sym.Assume(k != x)
	}
	return []string{"", " "}[sym.Choice("blank", 2)] + k
}

func badSum(algs []common.ChecksumAlgorithm) string {
	if sym.Choice("how", 2) == 0 {
		return noColon("value")
	}
	var keys []string
	for _, a := range algs {
		keys = append(keys, string(a))
	}
	return badKey(keys) + ":" + sym.String("value", 20)
}

func badAgent(n int) string {
	if sym.Choice("how", 2) == 0 {
		return noColon("value")
	}
	return badKey([]string{"Person", "Organization", "Tool"}[:n]) + ":" + sym.String("value", 20)
}

// tvParts are n words.
func tvParts(n int) string {
	v := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			v += []string{" ", "  "}[sym.Choice("sep", 2)]
		}
		v += tvToken("part")
	}
	return v
}

// badElementID is an arbitrary text that does not identify an element of this document.
func badElementID() string {
	switch sym.Choice("how", 3) {
	case 0:
		v := sym.String("id", 24)
		sym.Assume(!hasPrefix(v, "SPDXRef-"))
		return v
	case 1:
		return "SPDXRef-"
	}
	return "SPDXRef-" + noColon("a") + ":" + sym.String("b", 12)
}

// badDocElementID is a text without blanks that does not identify an element of any document.
func badDocElementID() string {
	noColonNoBlank := func(name string) string { return sym.From(name, ascii(": \t\n\v\f\r"), 0, 12) }
	el := func() string { return "SPDXRef-" + noColonNoBlank("a") }
	switch sym.Choice("how", 7) {
	case 0:
		v := sym.From("id", inkSet, 1, 24)
		sym.Assume(!hasPrefix(v, "SPDXRef-"))
		sym.Assume(!hasPrefix(v, "DocumentRef-"))
		sym.Assume(v != "NONE" && v != "NOASSERTION")
		return v
	case 1:
		return "SPDXRef-"
	case 2:
		return el() + ":" + sym.From("b", inkSet, 0, 12)
	case 3:
		return "DocumentRef-" + noColonNoBlank("d")
	case 4:
		return "DocumentRef-:" + el()
	case 5:
		v := noColonNoBlank("v")
		sym.Assume(!hasPrefix(v, "SPDXRef-") || v == "SPDXRef-")
		return "DocumentRef-" + noColonNoBlank("d") + ":" + v
	}
	return "DocumentRef-" + noColonNoBlank("d") + ":" + el() + ":" + sym.From("b", inkSet, 0, 12)
}

func badRelationship(special bool) string {
	_, a := tvElem("A")
	_, b := tvElem("B")
	switch sym.Choice("how", 4) {
	case 0:
		n := sym.Choice("parts", 5)
		sym.Assume(n != 3)
		return tvParts(n)
	case 1:
		return badDocElementID() + " " + tvToken("type") + " " + b
	case 2:
		return a + " " + tvToken("type") + " " + badDocElementID()
	}
	// the left side names an element
	return []string{"NONE", "NOASSERTION"}[sym.Choice("special", 2)] + " " + tvToken("type") + " " + b
}

func badDocumentRef() string {
	sum := tvToken("sum")
	switch sym.Choice("how", 5) {
	case 0:
		n := sym.Choice("parts", 6)
		sym.Assume(n != 3 && n != 4)
		return tvParts(n)
	case 1:
		d := tvToken("doc")
		sym.Assume(!hasPrefix(d, "DocumentRef-"))
		return d + " " + tvToken("uri") + " SHA1:" + sum
	case 2:
		return "DocumentRef- " + tvToken("uri") + " SHA1:" + sum
	case 3:
		return "DocumentRef-" + id("doc", 8) + " " + tvToken("uri") + " " + sym.From("alg", ascii(": \t\n\v\f\r"), 1, 12)
	}
	alg := tvToken("alg")
	sym.Assume(!strings.HasSuffix(alg, ":"))
	return "DocumentRef-" + id("doc", 8) + " " + tvToken("uri") + " " + alg + " " + sum
}

func badRange() string {
	good := decimal(sym.Int("good", 0, 1<<31-1))
	bad := sym.From("bad", ascii("0123456789:"), 0, 12)
	switch sym.Choice("how", 4) {
	case 0:
		return noColon("value")
	case 1:
		return bad + ":" + good
	case 2:
		return good + ":" + bad
	}
	return good + ":" + good + ":" + good
}

// anyFor is an arbitrary value for a tag. White space is of interest to the
// parser only in values that are split at blanks.
func anyFor(tag string) string {
	switch tag {
	case "Relationship", "ExternalRef", "ExternalDocumentRef", "PackageVerificationCode":
		return sym.From("value", ascii("\t\n\v\f\r"), 0, 40)
	case "SnippetByteRange", "SnippetLineRange":
		return sym.From("value", inkSet, 0, 17)
	}
	return sym.From("value", inkSet, 0, 24)
}

// plain is a well-formed value for a tag.
func plain(tag string) string {
	switch tag {
	case "SPDXID", "SnippetSPDXID", "SnippetFromFileSPDXID", "SPDXREF":
		return "SPDXRef-plain"
	case "ExternalDocumentRef":
		return "DocumentRef-plain u SHA1: 1"
	case "PackageChecksum", "FileChecksum":
		return "SHA1: 1"
	case "ExternalRef":
		return "a b c"
	case "Relationship":
		return "SPDXRef-a OTHER SPDXRef-b"
	case "SnippetByteRange", "SnippetLineRange":
		return "1:2"
	}
	return "Person: plain"
}
