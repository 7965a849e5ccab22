// Code generated from tmpl/c08.go.tmpl. DO NOT EDIT.

package h

import (
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	tv "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/reader"

	"verifharness/sym"
)

// C08_TagValue23: an arbitrary value of a tag-value field that holds an
// identifier or an agent is taken exactly when it is one of the forms.
func C08_TagValue23() {
	sym.Witness("taken")
	sym.Witness("refused")
	s := &sect23{}
	s.add("SPDXVersion", v2_3.Version)
	v := sym.From("text", ascii(" \t\n\v\f\r"), 0, 40)
	good := false
	var same func(d *v2_3.Document) bool
	agent := func(tag string, n int, get func(d *v2_3.Document) (string, string)) {
		blank := []string{"", " "}[sym.Choice("blank", 2)]
		typ, who, ok := strings.Cut(v, ":")
		known := false
		for _, t := range []string{"Person", "Organization", "Tool"}[:n] {
			known = known || typ == t
		}
		good = ok && known
		if n == 2 && v == "NOASSERTION" {
			good, typ, who = true, "", v
		} else if ok {
			v = typ + ":" + blank + who
		}
		s.add(tag, v)
		same = func(d *v2_3.Document) bool {
			a, b := get(d)
			return sym.And(a == typ, b == who)
		}
	}
	section := func(k int) {
		s.add("Created", "t")
		if k >= 1 {
			s.add("PackageName", "p")
		}
		if k >= 2 {
			s.add("SPDXID", "SPDXRef-p")
			s.add("FileName", "f")
		}
		if k >= 3 {
			s.add("SPDXID", "SPDXRef-f")
		}
	}
	element := func(tag string, get func(d *v2_3.Document) common.ElementID) {
		id, ok := strings.CutPrefix(v, "SPDXRef-")
		good = ok && id != "" && !has(id, ":")
		s.add(tag, v)
		same = func(d *v2_3.Document) bool { return string(get(d)) == id }
	}
	docRef := func(special bool) (want common.DocElementID) {
		if special && (v == "NONE" || v == "NOASSERTION") {
			good = true
			return common.DocElementID{SpecialID: v}
		}
		want, good = docElement(v)
		if v == "NONE" || v == "NOASSERTION" || want.ElementRefID == "" {
			good = false
		} else if good {
			good = !has(string(want.ElementRefID), ":")
		}
		return want
	}
	switch sym.Choice("field", 12) {
	case 0:
		element("SPDXID", func(d *v2_3.Document) common.ElementID { return d.SPDXIdentifier })
		s.add("Created", "t")
	case 1:
		section(1)
		element("SPDXID", func(d *v2_3.Document) common.ElementID { return d.Packages[0].PackageSPDXIdentifier })
	case 2:
		section(2)
		element("SPDXID", func(d *v2_3.Document) common.ElementID { return d.Packages[0].Files[0].FileSPDXIdentifier })
	case 3:
		section(3)
		element("SnippetSPDXID", func(d *v2_3.Document) common.ElementID {
			for k, x := range d.Packages[0].Files[0].Snippets {
				if k == x.SnippetSPDXIdentifier {
					return k
				}
			}
			return ""
		})
	case 4:
		section(3)
		s.add("SnippetSPDXID", "SPDXRef-s")
		want := docRef(false)
		s.add("SnippetFromFileSPDXID", v)
		same = func(d *v2_3.Document) bool {
			return d.Packages[0].Files[0].Snippets["s"].SnippetFromFileSPDXIdentifier == want.ElementRefID
		}
	case 5:
		section(0)
		want := docRef(false)
		s.add("Annotator", "Tool: t")
		s.add("SPDXREF", v)
		same = func(d *v2_3.Document) bool { return d.Annotations[0].AnnotationSPDXIdentifier == want }
	case 6:
		section(0)
		want := docRef(false)
		sym.Assume(v != "")
		s.add("Relationship", v+" R SPDXRef-b")
		same = func(d *v2_3.Document) bool { return d.Relationships[0].RefA == want }
	case 7:
		section(0)
		want := docRef(23 >= 22)
		sym.Assume(v != "")
		s.add("Relationship", "SPDXRef-a R "+v)
		same = func(d *v2_3.Document) bool { return d.Relationships[0].RefB == want }
	case 8:
		section(0)
		agent("Creator", 3, func(d *v2_3.Document) (string, string) {
			c := d.CreationInfo.Creators[0]
			return c.CreatorType, c.Creator
		})
	case 9:
		section(0)
		agent("Annotator", 3, func(d *v2_3.Document) (string, string) {
			c := d.Annotations[0].Annotator
			return c.AnnotatorType, c.Annotator
		})
	case 10:
		section(0)
		agent("Reviewer", 3, func(d *v2_3.Document) (string, string) {
			c := d.Reviews[0]
			return c.ReviewerType, c.Reviewer
		})
	case 11:
		section(1)
		s.add("SPDXID", "SPDXRef-p")
		if sym.Choice("originator", 2) == 1 {
			agent("PackageOriginator", 2, func(d *v2_3.Document) (string, string) {
				c := d.Packages[0].PackageOriginator
				return c.OriginatorType, c.Originator
			})
		} else {
			agent("PackageSupplier", 2, func(d *v2_3.Document) (string, string) {
				c := d.Packages[0].PackageSupplier
				return c.SupplierType, c.Supplier
			})
		}
	}
	d, err := tv.ParseTagValues(s.pairs)
	if !good {
		sym.Assert(err != nil, "a malformed value is taken")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a well-formed value is refused")
	sym.Assert(same(d), "a value is decoded to another one")
	sym.Reach("taken")
}
