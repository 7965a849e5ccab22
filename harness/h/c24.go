package h

import (
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"

	"verifharness/sym"
)

// relationEnd is an arbitrary end of a relationship.
func relationEnd(name string) common.DocElementID {
	switch sym.Choice(name+".kind", 4) {
	case 0:
		return common.DocElementID{ElementRefID: common.ElementID(sym.From(name, idset, 1, 10))}
	case 1:
		return common.MakeDocElementID("", "DOCUMENT")
	case 2:
		return common.MakeDocElementSpecial([]string{"NONE", "NOASSERTION"}[sym.Choice(name+".special", 2)])
	}
	return common.MakeDocElementID(sym.From(name+".doc", idset, 1, 10), sym.From(name, idset, 1, 10))
}

// C24_Elements: valid exactly when no relationship end dangles, with several elements.
func C24_Elements() {
	if sym.Thorough() {
		c24(3, 3, 1)
	} else {
		c24(2, 2, 1)
	}
}

// C24_Relationships: the same with several relationships.
func C24_Relationships() {
	if sym.Thorough() {
		c24(2, 1, 2)
	} else {
		c24(1, 1, 2)
	}
}

func c24(pkgs, files, rels int) {
	sym.Witness("valid")
	sym.Witness("dangling")
	d := &spdx.Document{}
	if sym.Choice("identifier", 2) == 1 {
		d.SPDXIdentifier = "DOCUMENT"
	}
	var ids []common.ElementID
	for n := sym.Choice("packages", pkgs+1); n > 0; n-- {
		p := &spdx.Package{PackageName: "p", PackageSPDXIdentifier: common.ElementID(sym.From("package", idset, 1, 10))}
		ids = append(ids, p.PackageSPDXIdentifier)
		if n == 1 && sym.Choice("packaged", 2) == 1 {
			// what a package contains is not listed in the document itself
			p.Files = []*spdx.File{{FileName: "g", FileSPDXIdentifier: common.ElementID(sym.From("packaged", idset, 1, 10))}}
		}
		d.Packages = append(d.Packages, p)
	}
	for n := sym.Choice("files", files+1); n > 0; n-- {
		f := &spdx.File{FileName: "f", FileSPDXIdentifier: common.ElementID(sym.From("file", idset, 1, 10))}
		ids = append(ids, f.FileSPDXIdentifier)
		d.Files = append(d.Files, f)
	}
	there := func(r common.DocElementID) bool {
		if r.SpecialID != "" || r.DocumentRefID != "" || r.ElementRefID == "DOCUMENT" {
			return true
		}
		for _, i := range ids {
			if i == r.ElementRefID {
				return true
			}
		}
		return false
	}
	want := true
	for n := sym.Choice("relationships", rels+1); n > 0; n-- {
		r := &spdx.Relationship{RefA: relationEnd("a"), RefB: relationEnd("b"), Relationship: sym.From("type", tokenSet, 0, 12)}
		if !there(r.RefA) || !there(r.RefB) {
			want = false
		}
		d.Relationships = append(d.Relationships, r)
	}
	err := spdxlib.ValidateDocument(d)
	if want {
		sym.Assert(err == nil, "a document without dangling references is refused")
		sym.Reach("valid")
	} else {
		sym.Assert(err != nil, "a document with a dangling reference is accepted")
		sym.Reach("dangling")
	}
}
