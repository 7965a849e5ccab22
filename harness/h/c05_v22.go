// Code generated from tmpl/c05.go.tmpl. DO NOT EDIT.

package h

import (
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	tv "github.com/spdx/tools-golang/spdx/v2/v2_2/tagvalue/reader"

	"verifharness/sym"
)

// C05_Identifiers22: a document is accepted exactly when every package and
// file section has an identifier, and then each has its own.
func C05_Identifiers22() {
	sym.Witness("accepted")
	sym.Witness("refused")
	s := &sect22{}
	d := &v2_2.Document{}
	s.add("SPDXVersion", v2_2.Version)
	s.add("Created", "t")
	n := 4
	if sym.Thorough() {
		n = 5
	}
	var pkg *v2_2.Package
	var file *v2_2.File
	stage := 0
	complete := true
	for i := 0; i < n; i++ {
		kind := sym.Choice("section", 8)
		if kind == 7 {
			break
		}
		// the section has its identifier at its start, after another field, nowhere, or twice
		at := 0
		var ident common.ElementID
		if kind <= 1 {
			at = sym.Choice("where", 4)
			if at == 2 {
				complete = false
			} else {
				ident = common.ElementID(id("SPDXID", 8))
			}
		}
		put := func(k int) {
			if at == k || at == 3 {
				s.add("SPDXID", "SPDXRef-"+string(ident))
			}
		}
		switch kind {
		case 0:
			sym.Assume(stage == 0)
			file = nil
			pkg = &v2_2.Package{PackageName: tvValue("PackageName"), PackageSPDXIdentifier: ident}
			d.Packages = append(d.Packages, pkg)
			s.add("PackageName", pkg.PackageName)
			put(0)
			s.add("PackageVersion", "1")
			put(1)
		case 1:
			sym.Assume(stage == 0)
			file = &v2_2.File{FileName: tvValue("FileName"), FileSPDXIdentifier: ident}
			if pkg != nil {
				pkg.Files = append(pkg.Files, file)
			} else {
				d.Files = append(d.Files, file)
			}
			s.add("FileName", file.FileName)
			put(0)
			s.add("FileComment", "c")
			put(1)
		case 2:
			sym.Assume(stage == 0 && file != nil)
			s.add("SnippetSPDXID", "SPDXRef-"+id("SnippetID", 8))
		case 3:
			sym.Assume(stage <= 1)
			stage = 1
			s.add("LicenseID", tvValue("LicenseID"))
		case 4:
			s.add("Relationship", "SPDXRef-a OTHER SPDXRef-b")
		case 5:
			s.add("Annotator", "Person: me")
		case 6:
			stage = 2
			s.add("Reviewer", "Person: me")
		}
	}
	got, err := tv.ParseTagValues(s.pairs)
	if !complete {
		sym.Assert(err != nil, "a package or file without identifier is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a document with all identifiers is refused")
	sym.Reach("accepted")
	sameFiles := func(a, b []*v2_2.File) {
		sym.Assert(len(a) == len(b), "a file is lost or added")
		for i := range a {
			sym.Assert(a[i].FileName == b[i].FileName, "a file has the name of another")
			sym.Assert(a[i].FileSPDXIdentifier == b[i].FileSPDXIdentifier, "a file has not the identifier its section gave")
		}
	}
	sameFiles(got.Files, d.Files)
	sym.Assert(len(got.Packages) == len(d.Packages), "a package is lost or added")
	for i, p := range got.Packages {
		sym.Assert(p.PackageName == d.Packages[i].PackageName, "a package has the name of another")
		sym.Assert(p.PackageSPDXIdentifier == d.Packages[i].PackageSPDXIdentifier, "a package has not the identifier its section gave")
		sameFiles(p.Files, d.Packages[i].Files)
	}
}

// C05_Many22: one of many packages or files has no identifier.
func C05_Many22() {
	sym.Witness("accepted")
	sym.Witness("refused")
	n, odd := many(4, 13, 300)
	kind := sym.Choice("kind", 4)
	where := sym.Choice("where", 3)
	s := &sect22{}
	s.add("SPDXVersion", v2_2.Version)
	s.add("Created", "t")
	if kind == 1 {
		s.add("PackageName", "p")
		s.add("SPDXID", "SPDXRef-p")
	}
	var ids []common.ElementID
	for i := 0; i < n; i++ {
		at, v := 0, "e"+num(i)
		if i == odd {
			at, v = where, id("SPDXID", 8)
		}
		if kind == 0 || kind == 3 && i%3 == 0 {
			s.add("PackageName", "p")
		} else {
			s.add("FileName", "f")
		}
		if at == 0 {
			s.add("SPDXID", "SPDXRef-"+v)
		}
		if kind == 0 || kind == 3 && i%3 == 0 {
			s.add("PackageVersion", "1")
		} else {
			s.add("FileComment", "c")
		}
		if at == 1 {
			s.add("SPDXID", "SPDXRef-"+v)
		}
		ids = append(ids, common.ElementID(v))
	}
	// another section afterwards
	if sym.Choice("after", 2) == 1 {
		s.add("LicenseID", "LicenseRef-1")
	}
	d, err := tv.ParseTagValues(s.pairs)
	if where == 2 {
		sym.Assert(err != nil, "a package or file without identifier is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a document with all identifiers is refused")
	sym.Reach("accepted")
	var got []common.ElementID
	for _, f := range d.Files {
		got = append(got, f.FileSPDXIdentifier)
	}
	for _, p := range d.Packages {
		if kind != 1 {
			got = append(got, p.PackageSPDXIdentifier)
		}
		for _, f := range p.Files {
			got = append(got, f.FileSPDXIdentifier)
		}
	}
	eq(got, ids, "each package and file has the identifier its section gave")
}
