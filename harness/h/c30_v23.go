// Code generated from tmpl/c30.go.tmpl. DO NOT EDIT.

package h

import (
	rdf "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdx/v2/v2_3/rdf/reader"

	"verifharness/sym"
)

// C30_Graph23: an RDF graph with two of everything gives the same document every time.
func C30_Graph23() {
	sym.Witness("done")
	b := newRDF23()
	b.mode, b.at = rdfPairs, -1
	part := sym.Choice("part", 5)
	if part == 0 {
		b.head()
	} else {
		b.small()
	}
	pair := func(of string) []string { return []string{of + "a" + short("a", 4), of + "b" + short("b", 4)} }
	set := func(n *rdf.Node) {
		for i, op := range []string{"ConjunctiveLicenseSet", "DisjunctiveLicenseSet"} {
			l := b.node("", op)
			b.put(n, []string{"licenseConcluded", "licenseDeclared"}[i], l)
			for _, id := range []string{"MIT", "Zlib", "ISC"} {
				b.put(l, "member", resource(nsLIC+id))
			}
		}
	}
	none := func(*rdf.Node, *spdx.Package) {}
	switch part {
	case 1:
		// two of them, and the licenses of one
		for i, p := range pair("p") {
			n := b.node(nsDoc+"SPDXRef-"+p, "Package")
			b.put(n, "name", literal(p))
			if i == 0 {
				set(n)
			}
			b.put(b.doc, "describesPackage", n)
		}
	case 2:
		b.put(b.doc, "describesPackage", b.pack("p0", none))
	case 3:
		n := b.node(nsDoc+"SPDXRef-p0", "Package")
		b.put(b.doc, "describesPackage", n)
		for _, f := range pair("f") {
			n2 := b.node(nsDoc+"SPDXRef-"+f, "File")
			b.put(n2, "fileName", literal(f))
			b.put(n, "hasFile", n2)
		}
		b.put(n, "hasFile", b.file("f0", &spdx.File{}))
	case 4:
		// unpackaged files and their snippets
		for _, f := range pair("f") {
			n := b.node(nsDoc+"SPDXRef-"+f, "File")
			b.put(n, "fileName", literal(f))
			b.snippet("s"+f, &spdx.File{FileSPDXIdentifier: common.ElementID(f)})
		}
	}
	load := func() *spdx.Document {
		d, err := reader.LoadFromGoRDFParser(b.parser(0))
		sym.Assert(err == nil, "the graph is accepted")
		return d
	}
	first := load()
	sym.Orders(1)
	sym.Assert(sym.Equal(first, load()), "the same graph gives different documents")
	sym.Reach("done")
}
