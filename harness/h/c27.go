package h

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/tagvalue/reader"

	"verifharness/sym"
)

// c27Text is a document that declares version k, in two parts around a name of
// two parts.
func c27Text(format, k int) (front, string, string) {
	version := []string{"", "SPDX-2.1", "SPDX-2.2", "SPDX-2.3"}[k]
	const mark = "\x01"
	switch format {
	case 0, 1:
		t := strings.SplitN(strings.ReplaceAll(jsonDocument(mark, `"`+version+`"`), `"name":"`+mark+`","SPDXID"`, `"name":"p","SPDXID"`), mark, 2)
		t[1] = strings.ReplaceAll(t[1], mark, "f")
		if format == 1 {
			return yamlFront, t[0], t[1] + "\n"
		}
		return jsonFront, t[0], t[1]
	case 2:
		return tvFront, "SPDXVersion: " + version + "\nDocumentName: ", "\nCreated: now\nCreatorComment: <text>a\nb</text>\nPackageName: p\nSPDXID: SPDXRef-p\n"
	}
	t := strings.SplitN(rdfText("n", []string{"<spdx:specVersion>" + version + "</spdx:specVersion>", "<spdx:name>" + mark + "</spdx:name>"}), mark, 2)
	return rdfFront, t[0], t[1]
}

// pieces is a text in pieces, cut at two of its places.
func pieces(pre, a, b, post string) ([]string, int) {
	whole := []string{}
	// all places where it may be cut
	cut := func(s string) {
		if strings.Contains(s, "\n") {
			i := strings.Index(s, "\n")
			whole = append(whole, s[:i], s[i:i+1], s[i+1:])
			return
		}
		whole = append(whole, s[:1], s[1:len(s)/2], s[len(s)/2:])
	}
	cut(pre)
	whole = append(whole, a, b)
	cut(post[:len(post)-1])
	whole = append(whole, post[len(post)-1:])
	return whole, len(whole)
}

var errSource = errors.New("source failed")

// C27_Fails: a source that fails anywhere gives an error.
func C27_Fails() {
	sym.Witness("refused")
	format := sym.Choice("format", 4)
	k := 1 + sym.Choice("version", 3)
	if format == 3 {
		sym.Assume(k != 1)
	}
	f, pre, post := c27Text(format, k)
	whole, n := pieces(pre, sym.From("a", alnum, 0, 8), sym.From("b", alnum, 0, 8), post)
	upto := sym.Choice("upto", n+1)
	if format == 3 {
		// whoever reads XML knows where it ends
		sym.Assume(upto < n-1)
	}
	src := &sym.Source{Parts: whole[:upto:upto], Err: []error{errSource, io.ErrUnexpectedEOF, io.ErrNoProgress, fmt.Errorf("source: %w", io.EOF), io.ErrShortBuffer}[sym.Choice("error", 5)]}
	src.Together = sym.Choice("together", 2) == 1
	var err error
	switch sym.Choice("into", 3) {
	case 0:
		_, err = f.read(src)
	case 1:
		err = f.into(src, model(3))
	case 2:
		if format == 2 {
			_, err = reader.ReadTagValues(src)
		} else {
			err = f.into(src, model(2))
		}
	}
	sym.Assert(err != nil, "the source of the text failed, and reading it succeeded")
	sym.Reach("refused")
}

// C27_Pieces: it does not matter in which pieces a text is delivered.
func C27_Pieces() {
	sym.Witness("read")
	format := sym.Choice("format", 4)
	k := 1 + sym.Choice("version", 3)
	if format == 3 {
		sym.Assume(k != 1)
	}
	f, pre, post := c27Text(format, k)
	a, b := sym.From("a", alnum, 0, 8), sym.From("b", alnum, 0, 8)
	parts, n := pieces(pre, a, b, post)
	// two cuts
	i := sym.Choice("first", n+1)
	j := sym.Choice("second", n+1)
	sym.Assume(i <= j)
	src := &sym.Source{Parts: []string{strings.Join(parts[:i], ""), strings.Join(parts[i:j], ""), strings.Join(parts[j:], "")}}
	src.Together = sym.Choice("together", 2) == 1
	got, err := f.read(src)
	sym.Assert(err == nil, "a document is refused because of the pieces it came in")
	var want *spdx.Document
	want, err = f.read(strings.NewReader(pre + a + b + post))
	sym.Assert(err == nil, "a document is refused")
	sym.Assert(sym.Equal(got, want), "the document read depends on the pieces its text came in")
	sym.Assert(got.DocumentName == a+b, "the document read is not the one of the text")
	sym.Reach("read")
}

// C27_Large: nor does it matter how much text there is.
func C27_Large() {
	sym.Witness("read")
	format := sym.Choice("format", 4)
	k := 2 + sym.Choice("version", 2)
	f, pre, post := c27Text(format, k)
	size := []int{5000, 70000, 1100000}[sym.Choice("size", 3)]
	a, b := sym.From("a", alnum, 0, 8), sym.From("b", alnum, 0, 8)
	fill := strings.Repeat("x", size)
	src := &sym.Source{}
	switch sym.Choice("pieces", 3) {
	case 0:
		src.Parts = []string{pre + a + fill + b + post}
	case 1:
		src.Parts = []string{pre, a + fill[:size/2], fill[size/2:], b + post}
	case 2:
		src.Parts = []string{pre + a}
		for i := 0; i < size; i += size / 20 {
			src.Parts = append(src.Parts, fill[i:i+size/20])
		}
		src.Parts = append(src.Parts, b, post)
	}
	if format < 3 && sym.Choice("fails", 2) == 1 {
		src.Err = errSource
		_, err := f.read(src)
		sym.Assert(err != nil, "the source of the text failed, and reading it succeeded")
		sym.Reach("read")
		return
	}
	got, err := f.read(src)
	sym.Assert(err == nil, "a large document is refused")
	sym.Assert(got.DocumentName == a+fill+b, "the document read is not the one of the text")
	sym.Reach("read")
}
