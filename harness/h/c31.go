package h

import (
	"bytes"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/utils"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// C31_Unchanged: an operation leaves what it is given as it was.
func C31_Unchanged() {
	sym.Witness("done")
	o := anOperation(sym.Choice("operation", nOperations), 1+sym.Choice("k", 3), sym.From("n", alnum, 1, 8))
	sym.Assume(o.on != nil)
	was := sym.Copy(o.on)
	o.run()
	eq(o.on, was, "an operation changes what it is given")
	sym.Reach("done")
}

// C31_Together: two operations may look at the same thing at the same time.
func C31_Together() {
	sym.Witness("done")
	o := anOperation(sym.Choice("operation", nOperations), 1+sym.Choice("k", 3), sym.From("n", alnum, 1, 8))
	sym.Assume(o.on != nil && !o.sorts)
	sym.Together(o.on, func() { o.run() }, func() { o.run() })
	sym.Reach("done")
}

// shaped is a document of version k with everything or next to nothing in it, and
// one field that differs from the others in that.
func shaped(k int) any {
	f := &filler{format: anyForm, focus: -1, full: sym.Choice("full", 2) == 1}
	build := func(f *filler) any {
		switch k {
		case 1:
			return document21(f)
		case 2:
			return document22(f)
		}
		return document23(f)
	}
	g := &filler{format: f.format, full: f.full, focus: -1, dry: true}
	build(g)
	if i := sym.Choice("flip", len(g.can)+1); i < len(g.can) {
		f.flips = []int{g.can[i]}
	}
	return build(f)
}

// leaves asserts that writing or converting the document leaves it as it was.
func leaves(d any, k int, all bool) {
	was := sym.Copy(d)
	run := func() {}
	op := sym.Choice("operation", 6)
	sym.Assume(sym.Thorough() || all || op == 2 || op == 3+k%3)
	switch op {
	case 0:
		run = func() { json.Write(d, &bytes.Buffer{}) }
	case 1:
		run = func() { yaml.Write(d, &bytes.Buffer{}) }
	case 2:
		// the lists are in the order in which they are written
		tagvalue.Write(d, &bytes.Buffer{})
	default:
		to := op - 2
		sym.Assume(to != k)
		run = func() { convert.Document(d, model(to)) }
	}
	sym.Together(d, run, run)
	eq(d, was, "an operation changes what it is given")
	sym.Reach("done")
}

// C31_Shapes: writing and converting leave a document of any shape as it was.
func C31_Shapes() {
	sym.Witness("done")
	k := 1 + sym.Choice("k", 3)
	leaves(shaped(k), k, true)
}

// C31_Values: the same with any value of any one field.
func C31_Values() {
	sym.Witness("done")
	k := 1 + sym.Choice("k", 3)
	f := &filler{format: anyForm, full: true, max: 100}
	f.focus = sym.Choice("focus", []func(int, bool) int{fields21, fields22, fields23}[k-1](f.format, true))
	switch k {
	case 1:
		leaves(document21(f), k, false)
	case 2:
		leaves(document22(f), k, false)
	case 3:
		leaves(document23(f), k, false)
	}
}

// C31_Lists: queries, reports and the like leave lists as they were.
func C31_Lists() {
	sym.Witness("done")
	name := func(n string) string { return sym.From(n, alnum, 1, 3) }
	files := func() (fs []*spdx.File) {
		fs = make([]*spdx.File, 0, 8)
		for i := 0; i < 3; i++ {
			f := &spdx.File{FileName: name("file"), LicenseConcluded: []string{"", "NOASSERTION", "M", "L"}[sym.Choice("license", 4)], LicenseInfoInFiles: []string{"b", "a"}}
			f.FileSPDXIdentifier = common.ElementID(itoa(9 - i))
			f.Checksums = []common.Checksum{{Algorithm: common.SHA256, Value: "z"}, {Algorithm: common.SHA1, Value: itoa(7 - i)}}
			fs = append(fs, f)
		}
		return fs
	}
	var on any
	run := func() {}
	switch sym.Choice("operation", 6) {
	case 0:
		fs := files()
		x := []string{"", name("excluded"), fs[1].FileName}[sym.Choice("exclude", 3)]
		on, run = fs[:3:3], func() { utils.GetVerificationCode(fs, x) }
	case 1:
		p := &spdx.Package{Files: files(), FilesAnalyzed: sym.Choice("analyzed", 2) == 1}
		on, run = p, func() { reporter.Generate(p, &bytes.Buffer{}) }
	case 2:
		a, b := &spdx.Package{Files: files()[:2]}, &spdx.Package{Files: []*spdx.File{{FileName: name("file"), LicenseConcluded: "L"}, {FileName: name("file"), LicenseConcluded: "M"}}}
		on = []*spdx.Package{a, b}
		run = func() { licensediff.MakePairs(a, b) }
	case 3:
		pairs := map[string]licensediff.LicensePair{}
		for i := 0; i < 3; i++ {
			l := []string{"", "NOASSERTION", "M", "L"}
			pairs[itoa(i)] = licensediff.LicensePair{First: l[sym.Choice("first", 4)], Second: l[sym.Choice("second", 4)]}
		}
		on, run = pairs, func() { licensediff.MakeResults(pairs) }
	case 4:
		// a list with room for more
		ids := append(make([]string, 0, 8), "/z", "**/a/", "/"+name("pattern"))
		path := "/" + name("path")
		on, run = ids[:8], func() { utils.ShouldIgnore(path, ids) }
	case 5:
		d := &spdx.Document{SPDXIdentifier: "DOCUMENT", Packages: make([]*spdx.Package, 0, 8), Files: make([]*spdx.File, 0, 8), Relationships: make([]*spdx.Relationship, 0, 8)}
		for n := sym.Choice("packages", 3); n >= 0; n-- {
			d.Packages = append(d.Packages, &spdx.Package{PackageSPDXIdentifier: common.ElementID(itoa(n)), Files: []*spdx.File{{FileSPDXIdentifier: "g"}}})
		}
		d.Files = append(d.Files, &spdx.File{FileSPDXIdentifier: "f"})
		for n := sym.Choice("relationships", 3); n > 0; n-- {
			r := &spdx.Relationship{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", []string{"0", "1", "f", "none"}[sym.Choice("to", 4)]), Relationship: []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS"}[sym.Choice("kind", 3)]}
			if sym.Choice("turned", 2) == 1 {
				r.RefA, r.RefB = r.RefB, r.RefA
			}
			d.Relationships = append(d.Relationships, r)
		}
		on = d
		switch sym.Choice("query", 3) {
		case 0:
			run = func() { spdxlib.GetDescribedPackageIDs(d) }
		case 1:
			run = func() { spdxlib.ValidateDocument(d) }
		case 2:
			run = func() {
				spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID { return &r.RefB.ElementRefID })
			}
		}
	}
	was := sym.Copy(on)
	sym.Together(on, run, run)
	eq(on, was, "an operation changes what it is given")
	sym.Reach("done")
}
