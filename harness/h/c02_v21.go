// Code generated from tmpl/c02.go.tmpl. DO NOT EDIT.

package h

import (
	"bytes"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/tagvalue"

	"verifharness/sym"
)

// C02_Full21: writing and reading gives every field of a document back.
func C02_Full21() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	f := &filler{format: tagValue, full: full, max: 1000}
	f.focus = sym.Choice("focus", fields21(tagValue, full))
	d := document21(f)
	var buf bytes.Buffer
	sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_1.Document
	err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc21(&got, d)
}

// C02_Shape21: any selection of sections, with up to two elements of some.
func C02_Shape21() {
	sym.Witness("done")
	f := &filler{format: tagValue, focus: -1, max: 20}
	d := head21(f)
	two := func(name string) int { return sym.Choice(name, 3) }
	for i, n := 0, two("files"); i < n; i++ {
		d.Files = append(d.Files, file21(f, []string{"A", "B"}[i]))
	}
	for i, n := 0, two("packages"); i < n; i++ {
		p := package21(f, []string{"A", "B"}[i])
		if i == 0 {
			for j, n := 0, two("package.files"); j < n; j++ {
				p.Files = append(p.Files, file21(f, []string{"A", "B"}[j]))
			}
		}
		d.Packages = append(d.Packages, p)
	}
	if sym.Choice("snippet", 2) == 1 {
		for _, x := range d.Files {
			s := snippet21(f, "")
			x.Snippets = map[common.ElementID]*v2_1.Snippet{s.SnippetSPDXIdentifier: s}
		}
		for _, p := range d.Packages {
			for _, x := range p.Files {
				s := snippet21(f, "")
				x.Snippets = map[common.ElementID]*v2_1.Snippet{s.SnippetSPDXIdentifier: s}
			}
		}
	}
	if sym.Choice("license", 2) == 1 {
		d.OtherLicenses = append(d.OtherLicenses, license21(f))
	}
	for i, n := 0, two("relationships"); i < n; i++ {
		d.Relationships = append(d.Relationships, relationship21(f))
	}
	for i, n := 0, two("annotations"); i < n; i++ {
		d.Annotations = append(d.Annotations, annotation21(f))
	}
	if sym.Choice("review", 2) == 1 {
		d.Reviews = append(d.Reviews, review21(f))
	}
	var buf bytes.Buffer
	sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_1.Document
	err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc21(&got, d)
}

// C02_Order21: elements whose identifiers are in any order are all kept, each
// with its own contents, in the order of their identifiers.
func C02_Order21() {
	sym.Witness("done")
	f := &filler{format: tagValue, focus: -1, max: 20}
	d := head21(f)
	const n = 3
	kind := sym.Choice("kind", 4)
	var ids, marks []string
	for i := 0; i < n; i++ {
		ids = append(ids, sym.From("id", idset, 1, 8))
		marks = append(marks, sym.From("mark", alnum, 1, 6))
		for j := 0; j < i; j++ {
			sym.Assume(ids[i] != ids[j])
		}
	}
	one := &v2_1.Package{PackageName: "p", PackageSPDXIdentifier: "P", FilesAnalyzed: true}
	if kind == 1 {
		d.Packages = append(d.Packages, one)
	}
	var sn *v2_1.File
	if kind == 3 {
		sn = file21(f, "")
		sn.Snippets = map[common.ElementID]*v2_1.Snippet{}
		d.Files = append(d.Files, sn)
	}
	for i := range ids {
		eid := common.ElementID(ids[i])
		switch kind {
		case 0:
			d.Packages = append(d.Packages, &v2_1.Package{PackageName: marks[i], PackageSPDXIdentifier: eid, FilesAnalyzed: true})
		case 1:
			one.Files = append(one.Files, &v2_1.File{FileName: marks[i], FileSPDXIdentifier: eid})
		case 2:
			d.Files = append(d.Files, &v2_1.File{FileName: marks[i], FileSPDXIdentifier: eid})
		case 3:
			sn.Snippets[eid] = &v2_1.Snippet{SnippetSPDXIdentifier: eid, SnippetName: marks[i], SnippetFromFileSPDXIdentifier: sn.FileSPDXIdentifier}
		}
	}
	var buf bytes.Buffer
	sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_1.Document
	err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	find := func(id string) string {
		switch kind {
		case 0:
			for _, p := range got.Packages {
				if string(p.PackageSPDXIdentifier) == id {
					return p.PackageName
				}
			}
		case 1:
			for _, p := range got.Packages[0].Files {
				if string(p.FileSPDXIdentifier) == id {
					return p.FileName
				}
			}
		case 2:
			for _, p := range got.Files {
				if string(p.FileSPDXIdentifier) == id {
					return p.FileName
				}
			}
		case 3:
			if s := got.Files[0].Snippets[common.ElementID(id)]; s != nil {
				return s.SnippetName
			}
		}
		return ""
	}
	if kind == 1 {
		sym.Assert(len(got.Packages) == 1, "a package is lost or added")
	}
	if kind == 3 {
		sym.Assert(len(got.Files) == 1, "a file is lost or added")
	}
	for i := range ids {
		sym.Assert(find(ids[i]) == marks[i], "an element is lost or has the contents of another")
	}
	switch kind {
	case 0:
		sym.Assert(len(got.Packages) == n, "a package is lost or added")
	case 1:
		sym.Assert(len(got.Packages[0].Files) == n, "a file is lost or added")
	case 2:
		sym.Assert(len(got.Files) == n, "a file is lost or added")
	case 3:
		sym.Assert(len(got.Files[0].Snippets) == n, "a snippet is lost or added")
	}
}

// C02_Pair21: any two fields of an element there or absent.
func C02_Pair21() {
	sym.Witness("done")
	d := pair21(tagValue, "")
	var buf bytes.Buffer
	sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_1.Document
	err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc21(&got, d)
}

// C02_Many21: lists of any kind may be long.
func C02_Many21() {
	sym.Witness("done")
	d := many21(tagValue)
	var buf bytes.Buffer
	sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_1.Document
	err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc21(&got, d)
}
