package h

import (
	"strings"

	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"

	"bytes"

	"verifharness/sym"
)

// C30_Operation: an operation done twice gives the same twice, in the same order.
func C30_Operation() {
	sym.Witness("done")
	o := anOperation(sym.Choice("operation", refusedOnes), 1+sym.Choice("k", 3), sym.From("n", alnum, 1, 8))
	first := o.run()
	sym.Orders(1)
	sym.Assert(sym.Equal(first, o.run()), "an operation done again gives something else, or in another order")
	sym.Reach("done")
}

// C30_Several: the same with several of everything.
func C30_Several() {
	sym.Witness("done")
	var run func() any
	a, b, c := sym.From("a", alnum, 1, 4), sym.From("b", alnum, 1, 4), "c"
	what := sym.Choice("what", 7)
	switch what {
	case 0:
		// licenses found in several files
		t := &tree{root: sym.TempDir()}
		for i, l := range []string{"Z OR M AND z", "L" + a, "Y OR X", "La OR la"} {
			t.file("/f"+itoa(i), "// SPDX-License-Identifier: "+l+"\n")
		}
		run = func() any {
			d, err := idsearcher.BuildIDsDocument("n", t.root, &idsearcher.Config{NamespacePrefix: "http://n"})
			sym.Assert(err == nil, "the search fails")
			d.CreationInfo.Created, d.DocumentNamespace = "", ""
			return d
		}
	case 1:
		p := &spdx.Package{FilesAnalyzed: true, Files: []*spdx.File{{FileName: "f", LicenseConcluded: a}, {FileName: "g", LicenseConcluded: b}, {FileName: "h", LicenseConcluded: c}}}
		run = func() any {
			var w bytes.Buffer
			sym.Assert(reporter.Generate(p, &w) == nil, "the report fails")
			return w.String()
		}
	case 2:
		// several described packages
		d := &spdx.Document{SPDXIdentifier: "DOCUMENT"}
		for _, n := range []string{a, b, c} {
			id := common.ElementID(n)
			d.Packages = append(d.Packages, &spdx.Package{PackageSPDXIdentifier: id})
			d.Relationships = append(d.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", n), Relationship: "DESCRIBES"})
		}
		run = func() any {
			ids, err := spdxlib.GetDescribedPackageIDs(d)
			sym.Assert(err == nil, "the query fails")
			return ids
		}
	case 3:
		// several described packages and the files in them, in JSON
		text := `{"spdxVersion":"SPDX-2.` + []string{"1", "2", "3"}[sym.Choice("k", 3)] + `","SPDXID":"SPDXRef-DOCUMENT","documentDescribes":["SPDXRef-` + a + `","SPDXRef-` + b + `"],
			"packages":[{"SPDXID":"SPDXRef-` + a + `","hasFiles":["SPDXRef-` + b + `","SPDXRef-` + c + `"]},{"SPDXID":"SPDXRef-` + b + `","hasFiles":["SPDXRef-` + a + `","SPDXRef-` + c + `"]}],
			"relationships":[{"spdxElementId":"SPDXRef-DOCUMENT","relatedSpdxElement":"SPDXRef-` + a + `","relationshipType":"DESCRIBES"},
			{"spdxElementId":"SPDXRef-` + a + `","relatedSpdxElement":"SPDXRef-` + b + `","relationshipType":"CONTAINS"}]}`
		run = func() any {
			d, err := json.Read(strings.NewReader(text))
			sym.Assert(err == nil, "the document is refused")
			return d
		}
	case 4:
		// elements that are missing, told in the error
		d := &spdx.Document{SPDXIdentifier: "DOCUMENT"}
		for _, n := range []string{a, b, c} {
			d.Relationships = append(d.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", n), Relationship: "DESCRIBES"})
		}
		run = func() any {
			err := spdxlib.ValidateDocument(d)
			sym.Assert(err != nil, "missing elements are not told")
			return err.Error()
		}
	case 5:
		d := &spdx.Document{SPDXIdentifier: "DOCUMENT", CreationInfo: &spdx.CreationInfo{}, Relationships: []*spdx.Relationship{}}
		for _, n := range []string{a, b, c} {
			d.Files = append(d.Files, &spdx.File{FileName: n, FileSPDXIdentifier: common.ElementID(n)})
			d.Packages = append(d.Packages, &spdx.Package{PackageName: n, PackageSPDXIdentifier: common.ElementID(n)})
		}
		run = func() any {
			ids, err := spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID { return &r.RefB.ElementRefID })
			sym.Assert(err == nil, "the query fails")
			return ids
		}
		d.Relationships = append(d.Relationships, &spdx.Relationship{RefB: common.MakeDocElementID("", c)}, &spdx.Relationship{RefB: common.MakeDocElementID("", a)}, &spdx.Relationship{RefB: common.MakeDocElementID("", b)})
	case 6:
		var items []string
		for i, n := range []string{a, b, c} {
			items = append(items, "<spdx:hasExtractedLicensingInfo><spdx:ExtractedLicensingInfo><spdx:licenseId>"+n+itoa(i)+"</spdx:licenseId></spdx:ExtractedLicensingInfo></spdx:hasExtractedLicensingInfo>")
		}
		text := rdfText("d", append(items, "<spdx:specVersion>SPDX-2."+[]string{"2", "3"}[sym.Choice("k", 2)]+"</spdx:specVersion>"))
		run = func() any {
			d, err := rdf.Read(strings.NewReader(text))
			sym.Assert(err == nil, "the document is refused")
			return d
		}
	}
	first := run()
	sym.Orders(1)
	sym.Assert(sym.Equal(first, run()), "an operation done again gives something else, or in another order")
	sym.Reach("done")
}
