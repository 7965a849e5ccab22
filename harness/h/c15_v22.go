// Code generated from tmpl/c15.go.tmpl. DO NOT EDIT.

package h

import (
	"strings"

	spdx "github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"

	"verifharness/sym"
)

// C15_Licenses22: a license node is rendered as the expression it denotes.
func C15_Licenses22() {
	sym.Witness("done")
	g := &graph{}
	doc := g.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	p := g.node(nsDoc+"SPDXRef-p0", "Package")
	f := g.node(nsDoc+"SPDXRef-f0", "File")
	g.put(doc, "describesPackage", p)
	g.put(p, "hasFile", f)
	l := &licenses{g: g}
	where := sym.Choice("where", 8)
	depth := 2
	if where > 0 {
		depth = 1
	}
	if sym.Thorough() {
		depth++
	}
	n, texts, plain, _ := l.license(depth, 8)
	switch where {
	case 0:
		g.put(p, "licenseConcluded", n)
	case 1:
		g.put(p, "licenseDeclared", n)
	case 2:
		g.put(f, "licenseConcluded", n)
	case 3:
		g.put(f, "licenseInfoInFile", n)
	case 4:
		g.put(doc, "dataLicense", n)
	case 5, 6:
		s := g.node(nsDoc+"SPDXRef-s0", "Snippet")
		g.put(s, "snippetFromFile", f)
		g.put(s, []string{"licenseConcluded", "licenseInfoInSnippet"}[where-5], n)
	case 7: // the same node used twice
		g.put(p, "licenseConcluded", n)
		g.put(p, "licenseDeclared", n)
	}
	d, err := reader.LoadFromGoRDFParser(g.parser(sym.Choice("order", 2)))
	sym.Assert(err == nil, "the graph is accepted")
	sym.Assert(len(d.Packages) == 1 && len(d.Packages[0].Files) == 1, "the package and its file are there")
	pkg := d.Packages[0]
	got := ""
	switch where {
	case 0:
		got = pkg.PackageLicenseConcluded
	case 1:
		got = pkg.PackageLicenseDeclared
	case 2:
		got = pkg.Files[0].LicenseConcluded
	case 3:
		sym.Assert(len(pkg.Files[0].LicenseInfoInFiles) == 1, "one license")
		got = pkg.Files[0].LicenseInfoInFiles[0]
	case 4:
		got = d.DataLicense
	case 5, 6:
		var s *spdx.Snippet
		for _, x := range pkg.Files[0].Snippets {
			s = x
		}
		sym.Assert(s != nil, "the snippet is there")
		if where == 5 {
			got = s.SnippetLicenseConcluded
		} else {
			sym.Assert(len(s.LicenseInfoInSnippet) == 1, "one license")
			got = s.LicenseInfoInSnippet[0]
		}
	case 7:
		sym.Assert(pkg.PackageLicenseConcluded == pkg.PackageLicenseDeclared, "both uses of a license give the same expression")
		got = pkg.PackageLicenseDeclared
	}
	sym.Assert(oneOf(got, append(plain, texts...)), "the license is rendered as the expression it denotes, but for or-later")
	sym.Known(l.known, l.known != "")
	sym.Assert(oneOf(got, texts), "the license is rendered as the expression it denotes")
	sym.Reach("done")
}

// C15_FromFiles22: the licenses found in the files of a package are named.
func C15_FromFiles22() {
	sym.Witness("done")
	g := &graph{}
	doc := g.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	p := g.node(nsDoc+"SPDXRef-p0", "Package")
	g.put(doc, "describesPackage", p)
	l := &licenses{g: g}
	n, text := l.leaf(8)
	g.put(p, "licenseInfoFromFiles", n)
	d, err := reader.LoadFromGoRDFParser(g.parser(sym.Choice("order", 2)))
	sym.Assert(err == nil, "the graph is accepted")
	sym.Assert(len(d.Packages) == 1, "the package is there")
	eq(d.Packages[0].PackageLicenseInfoFromFiles, []string{text}, "the license is named")
	sym.Reach("done")
}

// C15_Many22: sets of many members and sets inside of sets inside of sets.
func C15_Many22() {
	sym.Witness("done")
	g := &graph{}
	doc := g.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	p := g.node(nsDoc+"SPDXRef-p0", "Package")
	g.put(doc, "describesPackage", p)
	shape := sym.Choice("shape", 3)
	sizes := []int{5, 12, 40}
	if shape > 0 {
		sizes = []int{4, 9, 25}
	}
	n, odd := many(sizes...)
	first := sym.Choice("first", 2)
	set := func(i int) (string, string) {
		if shape == 2 && i%2 == 1-first || shape != 2 && first == 1 {
			return "DisjunctiveLicenseSet", " OR "
		}
		return "ConjunctiveLicenseSet", " AND "
	}
	typ, op := set(0)
	at := g.node("", typ)
	g.put(p, "licenseConcluded", at)
	var leaves []string
	for i := 0; i < n; i++ {
		v := "LicenseRef-" + num(i*7%n)
		if i == odd {
			v = "LicenseRef-x" + id("name", 8)
		}
		leaf := g.node("", "ExtractedLicensingInfo")
		g.put(leaf, "licenseId", literal(v))
		g.put(leaf, "extractedText", literal("é"))
		g.put(at, "member", leaf)
		leaves = append(leaves, v)
		if shape > 0 && i < n-2 {
			typ, _ := set(i + 1)
			next := g.node("", typ)
			g.put(at, "member", next)
			at = next
		}
	}
	d, err := reader.LoadFromGoRDFParser(g.parser(sym.Choice("order", 2)))
	sym.Assert(err == nil, "the graph is accepted")
	sym.Assert(len(d.Packages) == 1, "the package is there")
	got := d.Packages[0].PackageLicenseConcluded
	if shape < 2 {
		// the same operator throughout: parentheses make no difference
		if shape > 0 {
			got = strings.ReplaceAll(strings.ReplaceAll(got, "(", ""), ")", "")
		}
		sym.Assert(bag(strings.Split(got, op), leaves), "the license is rendered as the expression it denotes")
		sym.Reach("done")
		return
	}
	// operators alternate: each set is its leaf and the set inside
	for i := 0; i < n-2; i++ {
		_, op := set(i)
		switch {
		case strings.HasPrefix(got, leaves[i]+op):
			got = got[len(leaves[i]+op):]
		case strings.HasSuffix(got, op+leaves[i]):
			got = got[:len(got)-len(op+leaves[i])]
		default:
			sym.Fail("the license is rendered as the expression it denotes")
		}
		if strings.HasPrefix(got, "(") && strings.HasSuffix(got, ")") {
			got = got[1 : len(got)-1]
		} else {
			sym.Assert(op == " OR ", "a set of alternatives inside a conjunction is in parentheses")
		}
	}
	_, op = set(n - 2)
	sym.Assert(bag(strings.Split(got, op), leaves[n-2:]), "the license is rendered as the expression it denotes")
	sym.Reach("done")
}
