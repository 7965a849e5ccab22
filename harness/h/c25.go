package h

import (
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"

	"verifharness/sym"
)

// C25_Described: the packages described, each once and in order.
func C25_Described() {
	sym.Witness("described")
	sym.Witness("nothing")
	pkgs, rels := 3, 2
	if sym.Thorough() {
		pkgs, rels = 3, 3
	}
	d := &spdx.Document{}
	for n := sym.Choice("packages", pkgs+1); n > 0; n-- {
		d.Packages = append(d.Packages, &spdx.Package{PackageSPDXIdentifier: common.ElementID(sym.From("package", idset, 1, 10))})
	}
	if sym.Choice("nil packages", 2) == 1 && len(d.Packages) == 0 {
		d.Packages = []*spdx.Package{}
	}
	described := make([]bool, len(d.Packages))
	if len(d.Packages) == 1 {
		described[0] = true
	}
	document := common.MakeDocElementID("", "DOCUMENT")
	for n := sym.Choice("relationships", rels+1); n > 0; n-- {
		r := &spdx.Relationship{RefA: document, RefB: document}
		end := common.DocElementID{ElementRefID: common.ElementID(sym.From("end", idset, 1, 10))}
		kind := sym.Choice("end", 8)
		r.Relationship = "DESCRIBES"
		switch kind {
		case 0, 1: // described
			r.RefB = end
		case 2: // by another document
			r.RefA.DocumentRefID = common.DocumentID(sym.From("doc", idset, 1, 10))
			r.RefB = end
		case 3: // an element of another document
			r.RefB = end
			r.RefB.DocumentRefID = common.DocumentID(sym.From("doc", idset, 1, 10))
		case 4: // by an element
			r.RefA = common.DocElementID{ElementRefID: common.ElementID(sym.From("other", idset, 1, 10))}
			r.RefB = end
			if r.RefA == document {
				kind = 0
			}
		case 5: // nothing
			r.RefB = common.MakeDocElementSpecial("NONE")
		case 6: // some other relationship
			r.Relationship = sym.From("type", tokenSet, 0, 14)
			sym.Assume(r.Relationship != "DESCRIBES" && r.Relationship != "DESCRIBED_BY")
			r.RefB = end
		case 7: // by itself
			end = document
			kind = 0
		}
		if sym.Choice("inverse", 2) == 1 && kind != 6 {
			r.RefA, r.RefB = r.RefB, r.RefA
			r.Relationship = "DESCRIBED_BY"
		}
		if kind <= 1 {
			for i, p := range d.Packages {
				if p.PackageSPDXIdentifier == end.ElementRefID {
					described[i] = true
				}
			}
		}
		d.Relationships = append(d.Relationships, r)
	}
	var want []string
next:
	for i, p := range d.Packages {
		if described[i] {
			for _, w := range want {
				if w == string(p.PackageSPDXIdentifier) {
					continue next
				}
			}
			want = insertSorted(want, string(p.PackageSPDXIdentifier))
		}
	}
	got, err := spdxlib.GetDescribedPackageIDs(d)
	if len(want) == 0 {
		sym.Assert(err != nil, "packages are listed although none is described")
		sym.Reach("nothing")
		return
	}
	sym.Assert(err == nil, "described packages are not listed")
	sym.Assert(len(got) == len(want), "the list of described packages has a wrong length")
	for i := range want {
		sym.Assert(string(got[i]) == want[i], "the list of described packages is wrong")
	}
	sym.Reach("described")
}

// C25_Filter: filtering gives the selected identifiers, in order.
func C25_Filter() {
	sym.Witness("done")
	d := &spdx.Document{}
	max := 4
	if sym.Thorough() {
		max = 6
	}
	var want []common.ElementID
	pick := map[*spdx.Relationship]int{}
	for n := sym.Choice("relationships", max+1); n > 0; n-- {
		r := &spdx.Relationship{
			RefA:         common.DocElementID{ElementRefID: common.ElementID(sym.From("a", idset, 1, 10))},
			RefB:         common.DocElementID{ElementRefID: common.ElementID(sym.From("b", idset, 1, 10))},
			Relationship: sym.From("type", tokenSet, 0, 12),
		}
		k := sym.Choice("pick", 3)
		switch k {
		case 1:
			want = append(want, r.RefA.ElementRefID)
		case 2:
			want = append(want, r.RefB.ElementRefID)
		}
		pick[r] = k
		d.Relationships = append(d.Relationships, r)
	}
	asked := 0
	got, err := spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID {
		sym.Assert(asked < len(d.Relationships) && r == d.Relationships[asked], "the relationships are not offered one by one, in order")
		asked++
		switch pick[r] {
		case 1:
			return &r.RefA.ElementRefID
		case 2:
			return &r.RefB.ElementRefID
		}
		return nil
	})
	sym.Assert(err == nil, "filtering fails")
	sym.Assert(asked == len(d.Relationships), "a relationship is not offered to the filter")
	sym.Assert(len(got) == len(want), "filtering gives a wrong number of identifiers")
	for i := range want {
		sym.Assert(got[i] == want[i], "filtering gives a wrong identifier")
	}
	sym.Reach("done")
}

// C25_Sort: sorting keeps the identifiers and orders them.
func C25_Sort() {
	sym.Witness("done")
	n := 4
	if sym.Thorough() {
		n = 5
	}
	n = sym.Choice("ids", n+1)
	var list []common.ElementID
	var want []string
	for i := 0; i < n; i++ {
		s := sym.From("id", idset, 1, 10)
		list = append(list, common.ElementID(s))
		want = insertSorted(want, s)
	}
	got := spdxlib.SortElementIDs(list)
	sym.Assert(len(got) == len(want), "sorting loses an identifier")
	for i := range want {
		sym.Assert(string(got[i]) == want[i], "the identifiers are not in order")
	}
	sym.Reach("done")
}
