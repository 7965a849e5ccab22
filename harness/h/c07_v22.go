// Code generated from tmpl/c07.go.tmpl. DO NOT EDIT.

package h

import (
	"strings"

	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"

	"verifharness/sym"
)

type rel22 struct {
	a, b common.DocElementID
	typ  string
}

// the relation that two relationships state is the same
func (r rel22) states(o rel22) bool {
	r, o = r.forward(), o.forward()
	return sym.And(r.a == o.a, r.b == o.b, r.typ == o.typ)
}

func (r rel22) forward() rel22 {
	switch r.typ {
	case "CONTAINED_BY":
		return rel22{r.b, r.a, "CONTAINS"}
	case "DESCRIBED_BY":
		return rel22{r.b, r.a, "DESCRIBES"}
	}
	return r
}

// C07_Shorthand22: described elements and contained files are each linked by
// exactly one relationship; explicit ones are kept as they are.
func C07_Shorthand22() {
	sym.Witness("done")
	ref := func(name string, kinds int) (common.DocElementID, string) {
		v := sym.From(name, idset, 1, 6)
		e := common.DocElementID{ElementRefID: common.ElementID(v)}
		switch sym.Choice(name+".kind", kinds) {
		case 1:
			e = common.DocElementID{SpecialID: "NONE"}
			return e, `"NONE"`
		case 2:
			d := sym.From(name+".doc", idset, 1, 6)
			e.DocumentRefID = common.DocumentID(d)
			return e, `"DocumentRef-` + d + `:SPDXRef-` + v + `"`
		}
		return e, `"SPDXRef-` + v + `"`
	}
	doc := sym.From("doc", idset, 1, 6)
	docRef := common.DocElementID{ElementRefID: common.ElementID(doc)}
	head := `{"spdxVersion":"` + v2_2.Version + `","SPDXID":"SPDXRef-` + doc + `"`

	// explicit relationships, possibly with null entries among them
	var explicit, derived []rel22
	var items []string
	max, wide := 2, 1
	if sym.Thorough() {
		max, wide = 3, 3
	}
	// one of the references may be to no element or to one of another document
	special := sym.Choice("special", 4)
	kinds := func(here int, first bool) int {
		if first && special == here {
			return 3
		}
		return wide
	}
	if special > 0 && !sym.Thorough() {
		max = 1
	}
	n := sym.Choice("explicit", max+1)
	null, nulls := sym.Choice("null", n+2), 1
	if null <= n && special == 0 {
		nulls += sym.Choice("nulls", 2)
	}
	for i := 0; i < n; i++ {
		for j := 0; i == null && j < nulls; j++ {
			items = append(items, "null")
		}
		var r rel22
		var a, b string
		r.a, a = ref("a", wide)
		r.b, b = ref("b", kinds(1, i == 0))
		switch k := sym.Choice("type", 5); k {
		case 4:
			r.typ = sym.From("type.name", "ABCDEFGHIJKLMNOPQRSTUVWXYZ_", 1, 20)
			sym.Assume(r.typ != "CONTAINS" && r.typ != "CONTAINED_BY" && r.typ != "DESCRIBES" && r.typ != "DESCRIBED_BY")
		default:
			r.typ = []string{"CONTAINS", "CONTAINED_BY", "DESCRIBES", "DESCRIBED_BY"}[k]
		}
		explicit = append(explicit, r)
		items = append(items, `{"spdxElementId":`+a+`,"relatedSpdxElement":`+b+`,"relationshipType":"`+r.typ+`"}`)
	}
	for j := 0; null == n && j < nulls; j++ {
		items = append(items, "null")
	}
	rels := `,"relationships":[` + strings.Join(items, ",") + `]`

	items = nil
	k := 3
	if (n == 2 || special > 0) && !sym.Thorough() {
		k = 2
	}
	for i, m := 0, sym.Choice("described", k); i < m; i++ {
		e, s := ref("described", kinds(2, i == 0))
		items = append(items, s)
		derived = append(derived, rel22{docRef, e, "DESCRIBES"})
	}
	desc := `,"documentDescribes":[` + strings.Join(items, ",") + `]`

	items = nil
	for i, m := 0, sym.Choice("packages", 3); i < m; i++ {
		p := sym.From("package", idset, 1, 6)
		pref := common.DocElementID{ElementRefID: common.ElementID(p)}
		var files []string
		for j, l := 0, sym.Choice("files", k); j < l; j++ {
			e, s := ref("file", kinds(3, i == 0 && j == 0))
			files = append(files, s)
			derived = append(derived, rel22{pref, e, "CONTAINS"})
		}
		inline := ""
		if i == 0 && n == 0 && sym.Choice("inline", 2) == 1 {
			// a package may have the contents of a file too
			inline = `"files":[{"SPDXID":"SPDXRef-` + sym.From("inline", idset, 1, 6) + `","fileName":"f"}],`
		}
		items = append(items, `{"SPDXID":"SPDXRef-`+p+`",`+inline+`"hasFiles":[`+strings.Join(files, ",")+`]}`)
	}
	pkgs := `,"packages":[` + strings.Join(items, ",") + `]`

	text := head + rels + desc + pkgs + "}"
	if sym.Choice("order", 2) == 1 {
		text = head + pkgs + desc + rels + "}"
	}
	var got v2_2.Document
	err := spdxjson.ReadInto(strings.NewReader(text), &got)
	sym.Assert(err == nil, "a well-formed document is refused")
	sym.Reach("done")

	// the explicit relationships come first, unchanged and in order
	sym.Assert(len(got.Relationships) >= len(explicit), "an explicit relationship is lost")
	var all []rel22
	for i, r := range got.Relationships {
		sym.Assert(r != nil, "an empty relationship is kept")
		g := rel22{r.RefA, r.RefB, r.Relationship}
		all = append(all, g)
		if i < len(explicit) {
			x := explicit[i]
			sym.Assert(sym.And(g.a == x.a, g.b == x.b, g.typ == x.typ), "an explicit relationship is changed")
		}
	}
	// every added one is asked for, and says what nothing before it says
	for i := len(explicit); i < len(all); i++ {
		var asked, again []bool
		for _, d := range derived {
			asked = append(asked, all[i].states(d))
		}
		for _, o := range all[:i] {
			again = append(again, all[i].states(o))
		}
		sym.Assert(sym.Or(asked...), "a relationship is added that nothing asks for")
		sym.Assert(!sym.Or(again...), "a relationship is added twice")
	}
	for _, d := range derived {
		var there []bool
		for _, g := range all {
			there = append(there, g.states(d))
		}
		sym.Assert(sym.Or(there...), "a described element or contained file is not linked")
	}
}

// C07_Many22: many described elements, packages, files and relationships.
func C07_Many22() {
	sym.Witness("done")
	n, odd := many(5, 14, 50)
	kind := sym.Choice("kind", 4)
	own := common.DocElementID{ElementRefID: "DOCUMENT"}
	el := func(v string) common.DocElementID { return common.DocElementID{ElementRefID: common.ElementID(v)} }
	var rels, desc, pkgs []string
	var explicit, derived []rel22
	files := map[int][]string{}
	for i := 0; i < n; i++ {
		v := "e" + num(i*7%n)
		if i == odd {
			v = sym.From("element", idset, 1, 6)
		}
		q := `"SPDXRef-` + v + `"`
		// every third is stated explicitly too, half of these the other way around
		said := i%3 == 1
		switch kind {
		case 0: // described elements
			desc = append(desc, q)
			derived = append(derived, rel22{own, el(v), "DESCRIBES"})
			if said && i%2 == 0 {
				rels = append(rels, `{"spdxElementId":`+q+`,"relatedSpdxElement":"SPDXRef-DOCUMENT","relationshipType":"DESCRIBED_BY"}`)
				explicit = append(explicit, rel22{el(v), own, "DESCRIBED_BY"})
			} else if said {
				rels = append(rels, `{"spdxElementId":"SPDXRef-DOCUMENT","relatedSpdxElement":`+q+`,"relationshipType":"DESCRIBES"}`)
				explicit = append(explicit, rel22{own, el(v), "DESCRIBES"})
			}
		case 1, 2: // files of one package or of several
			p := 0
			if kind == 2 {
				p = i % 4
			}
			pkg := el("p" + num(p))
			files[p] = append(files[p], q)
			derived = append(derived, rel22{pkg, el(v), "CONTAINS"})
			if said && i%2 == 0 {
				rels = append(rels, `{"spdxElementId":`+q+`,"relatedSpdxElement":"SPDXRef-p`+num(p)+`","relationshipType":"CONTAINED_BY"}`)
				explicit = append(explicit, rel22{el(v), pkg, "CONTAINED_BY"})
			} else if said {
				rels = append(rels, `{"spdxElementId":"SPDXRef-p`+num(p)+`","relatedSpdxElement":`+q+`,"relationshipType":"CONTAINS"}`)
				explicit = append(explicit, rel22{pkg, el(v), "CONTAINS"})
			}
		case 3: // packages with a file each
			f := "f" + num(i)
			pkgs = append(pkgs, `{"SPDXID":`+q+`,"hasFiles":["SPDXRef-`+f+`"]}`)
			derived = append(derived, rel22{el(v), el(f), "CONTAINS"})
			if said {
				rels = append(rels, `{"spdxElementId":`+q+`,"relatedSpdxElement":"SPDXRef-f000","relationshipType":"DEPENDS_ON"}`)
				explicit = append(explicit, rel22{el(v), el("f000"), "DEPENDS_ON"})
			}
		}
	}
	for p := 0; p < 4 && kind != 3; p++ {
		pkgs = append(pkgs, `{"SPDXID":"SPDXRef-p`+num(p)+`","hasFiles":[`+strings.Join(files[p], ",")+`]}`)
	}
	text := `{"spdxVersion":"` + v2_2.Version + `","SPDXID":"SPDXRef-DOCUMENT","relationships":[` + strings.Join(rels, ",") +
		`],"documentDescribes":[` + strings.Join(desc, ",") + `],"packages":[` + strings.Join(pkgs, ",") + `]}`
	var got v2_2.Document
	err := spdxjson.ReadInto(strings.NewReader(text), &got)
	sym.Assert(err == nil, "a well-formed document is refused")
	sym.Reach("done")
	sym.Assert(len(got.Relationships) >= len(explicit), "an explicit relationship is lost")
	var all []rel22
	for i, r := range got.Relationships {
		sym.Assert(r != nil, "an empty relationship is kept")
		g := rel22{r.RefA, r.RefB, r.Relationship}
		if i < len(explicit) {
			x := explicit[i]
			sym.Assert(sym.And(g.a == x.a, g.b == x.b, g.typ == x.typ), "an explicit relationship is changed")
		}
		for _, o := range all {
			if i >= len(explicit) {
				sym.Assert(!g.states(o), "a relationship is added twice")
			}
		}
		all = append(all, g)
	}
	has := func(l []rel22, r rel22) bool {
		for _, o := range l {
			if r.states(o) {
				return true
			}
		}
		return false
	}
	for i := len(explicit); i < len(all); i++ {
		sym.Assert(has(derived, all[i]), "a relationship is added that nothing asks for")
	}
	for _, d := range derived {
		sym.Assert(has(all, d), "a described element or contained file is not linked")
	}
}
