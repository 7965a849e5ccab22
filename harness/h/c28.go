package h

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/utils"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// operation is something done with a document, directory or package of its own.
type operation struct {
	run func() any
	// right says whether the result is that of this operation
	right func(any) bool
	// change makes the thing that it is done with one with name m, in place
	change func(m string)
	// on is the thing that it is done with, if it is not text
	on any
	// sorts says that the operation may put lists into order
	sorts bool
}

// fullDocument is a document of one of the versions with everything in it.
func fullDocument(format, k int, n string) any {
	f := &filler{format: format, focus: -1, full: true}
	switch k {
	case 1:
		d := document21(f)
		d.DocumentName = n
		return d
	case 2:
		d := document22(f)
		d.DocumentName = n
		return d
	}
	d := document23(f)
	d.DocumentName = n
	return d
}

func nameOf(d any) string {
	switch d := d.(type) {
	case *v2_1.Document:
		return d.DocumentName
	case *v2_2.Document:
		return d.DocumentName
	case *v2_3.Document:
		return d.DocumentName
	}
	return ""
}

func rename(d any, n string) {
	switch d := d.(type) {
	case *v2_1.Document:
		d.DocumentName = n
	case *v2_2.Document:
		d.DocumentName = n
	case *v2_3.Document:
		d.DocumentName = n
	}
}

func named(n string) func(any) bool {
	return func(r any) bool { return nameOf(r) == n }
}

const (
	nOperations = 23
	// the first of those that are refused
	refusedOnes = 18
)

// anOperation prepares operation i with version k, for something with name n.
func anOperation(i, k int, n string) operation {
	switch i {
	case 0, 1, 2:
		read := []func(string) (*spdx.Document, error){
			func(t string) (*spdx.Document, error) { return json.Read(strings.NewReader(t)) },
			func(t string) (*spdx.Document, error) { return yaml.Read(strings.NewReader(t)) },
			func(t string) (*spdx.Document, error) { return tagvalue.Read(strings.NewReader(t)) },
		}[i]
		var b bytes.Buffer
		if i == 2 {
			must(tagvalue.Write(fullDocument(tagValue, k, n), &b))
		} else {
			must(json.Write(fullDocument(jsonForm, k, n), &b))
		}
		text := b.String()
		return operation{run: func() any {
			d, err := read(text)
			if err != nil {
				return nil
			}
			return d
		}, right: named(n)}
	case 3:
		if k == 1 {
			k = 2
		}
		text := rdfText("d", []string{
			"<spdx:specVersion>" + []string{"SPDX-2.2", "SPDX-2.3"}[k-2] + "</spdx:specVersion>",
			"<spdx:name>" + n + "</spdx:name>",
			`<spdx:hasExtractedLicensingInfo><spdx:ExtractedLicensingInfo rdf:about="http://x.example/d#LicenseRef-1"><spdx:licenseId>LicenseRef-1</spdx:licenseId><spdx:extractedText>` + n + `</spdx:extractedText></spdx:ExtractedLicensingInfo></spdx:hasExtractedLicensingInfo>`,
			`<spdx:relationship><spdx:Relationship><spdx:relationshipType rdf:resource="http://spdx.org/rdf/terms#relationshipType_describes"/>
			<spdx:relatedSpdxElement><spdx:Package rdf:about="http://x.example/d#SPDXRef-p"><spdx:name>` + n + `</spdx:name><spdx:licenseDeclared rdf:resource="http://x.example/d#LicenseRef-1"/>
			<spdx:hasFile><spdx:File rdf:about="http://x.example/d#SPDXRef-f"><spdx:fileName>` + n + `</spdx:fileName><spdx:licenseConcluded rdf:resource="http://spdx.org/licenses/MIT"/></spdx:File></spdx:hasFile></spdx:Package></spdx:relatedSpdxElement></spdx:Relationship></spdx:relationship>`,
			"<spdx:annotation><spdx:Annotation><rdfs:comment>" + n + "</rdfs:comment><spdx:annotator>Person: " + n + "</spdx:annotator></spdx:Annotation></spdx:annotation>",
		})
		text = strings.Replace(text, " xmlns:spdx", ` xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:spdx`, 1)
		return operation{run: func() any {
			d, err := rdf.Read(strings.NewReader(text))
			if err != nil {
				return nil
			}
			return d
		}, right: func(r any) bool {
			d, _ := r.(*spdx.Document)
			return d != nil && d.DocumentName == n && len(d.Packages) == 1 && d.Packages[0].PackageName == n && d.Packages[0].PackageLicenseDeclared == "LicenseRef-1" &&
				len(d.Packages[0].Files) == 1 && d.Packages[0].Files[0].FileName == n && d.Packages[0].Files[0].LicenseConcluded == "MIT" &&
				len(d.OtherLicenses) == 1 && d.OtherLicenses[0].ExtractedText == n && len(d.Annotations) == 1 && d.Annotations[0].AnnotationComment == n
		}}
	case 4, 5, 6:
		format := jsonForm
		if i == 6 {
			format = tagValue
		}
		doc := fullDocument(format, k, n)
		return operation{run: func() any {
			var b bytes.Buffer
			err := error(nil)
			switch i {
			case 4:
				err = json.Write(doc, &b)
			case 5:
				err = yaml.Write(doc, &b)
			case 6:
				err = tagvalue.Write(doc, &b)
			}
			if err != nil {
				return nil
			}
			return b.String()
		}, right: func(r any) bool {
			text, _ := r.(string)
			to := model(k)
			var err error
			switch i {
			case 4:
				err = json.ReadInto(strings.NewReader(text), to)
			case 5:
				err = yaml.ReadInto(strings.NewReader(text), to)
			case 6:
				err = tagvalue.ReadInto(strings.NewReader(text), to)
			}
			return err == nil && nameOf(to) == n
		}, change: func(m string) { n = m; rename(doc, m) }, on: doc, sorts: i == 6}
	case 7, 8:
		to := 3
		if i == 8 {
			to = 1
		}
		if k == to {
			k = 2
		}
		doc := fullDocument(anyForm, k, n)
		return operation{run: func() any {
			d := model(to)
			if convert.Document(doc, d) != nil {
				return nil
			}
			return d
		}, right: func(r any) bool { return nameOf(r) == n }, change: func(m string) { n = m; rename(doc, m) }, on: doc}
	case 9, 10, 11:
		doc := &spdx.Document{SPDXIdentifier: "DOCUMENT",
			Packages: []*spdx.Package{{PackageSPDXIdentifier: common.ElementID(n)}, {PackageSPDXIdentifier: "other"}},
			Relationships: []*spdx.Relationship{{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", n), Relationship: "DESCRIBES"},
				{RefA: common.MakeDocElementID("", n), RefB: common.MakeDocElementID("", "other"), Relationship: "CONTAINS"}}}
		if i == 11 {
			doc.Relationships[1].RefB.ElementRefID = common.ElementID(n + "x")
			return operation{run: func() any { return spdxlib.ValidateDocument(doc) != nil }, right: func(r any) bool { return r == true }, on: doc}
		}
		if i == 10 {
			return operation{run: func() any { return spdxlib.ValidateDocument(doc) == nil }, right: func(r any) bool { return r == true }, on: doc}
		}
		return operation{run: func() any {
			ids, err := spdxlib.GetDescribedPackageIDs(doc)
			if err != nil {
				return nil
			}
			return ids
		}, right: func(r any) bool {
			ids, _ := r.([]common.ElementID)
			return len(ids) == 1 && string(ids[0]) == n
		}, change: func(m string) {
			n = m
			doc.Packages[0].PackageSPDXIdentifier = common.ElementID(m)
			doc.Relationships[0].RefB.ElementRefID = common.ElementID(m)
			doc.Relationships[1].RefA.ElementRefID = common.ElementID(m)
		}, on: doc}
	case 12:
		files := []*spdx.File{{FileName: n, Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: n}}}, {FileName: n + "x", Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: n + "1"}}}}
		return operation{run: func() any {
			c, err := utils.GetVerificationCode(files, n)
			if err != nil {
				return nil
			}
			return c
		}, right: func(r any) bool {
			c, _ := r.(common.PackageVerificationCode)
			return c.Value == fmt.Sprintf("%x", sha1.Sum([]byte(n+"1"))) && len(c.ExcludedFiles) == 1 && c.ExcludedFiles[0] == n
		}, change: func(m string) {
			n = m
			for i, f := range files {
				f.FileName = m + "x"[:i]
				f.Checksums[0].Value = m + "1"[:i]
			}
		}, on: files}
	case 13:
		p := &spdx.Package{FilesAnalyzed: true, Files: []*spdx.File{{FileName: "f", LicenseConcluded: "L" + n}, {FileName: "g", LicenseConcluded: "L" + n}}}
		return operation{run: func() any {
			var b bytes.Buffer
			if reporter.Generate(p, &b) != nil {
				return nil
			}
			return b.String()
		}, right: func(r any) bool {
			text, _ := r.(string)
			return strings.Contains(text, "L"+n+"\n")
		}, change: func(m string) {
			n = m
			p.Files[0].LicenseConcluded, p.Files[1].LicenseConcluded = "L"+m, "L"+m
		}, on: p}
	case 14:
		a := &spdx.Package{Files: []*spdx.File{{FileName: n, LicenseConcluded: "a" + n}, {FileName: "f" + n, LicenseConcluded: "same"}}}
		b := &spdx.Package{Files: []*spdx.File{{FileName: n, LicenseConcluded: "b" + n}, {FileName: "f" + n, LicenseConcluded: "same"}}}
		return operation{run: func() any {
			pairs, err := licensediff.MakePairs(a, b)
			if err != nil {
				return nil
			}
			res, err := licensediff.MakeResults(pairs)
			if err != nil {
				return nil
			}
			return res
		}, right: func(r any) bool {
			d, _ := r.(*licensediff.LicenseDiff)
			return d != nil && len(d.InBothChanged) == 1 && d.InBothChanged[n] == licensediff.LicensePair{First: "a" + n, Second: "b" + n} && len(d.InBothSame) == 1 && d.InBothSame["f"+n] == "same" &&
				len(d.InFirstOnly) == 0 && len(d.InSecondOnly) == 0
		}, change: func(m string) {
			n = m
			for i, p := range []*spdx.Package{a, b} {
				p.Files[0].FileName, p.Files[1].FileName = m, "f"+m
				p.Files[0].LicenseConcluded = "ab"[i:i+1] + m
			}
		}, on: []*spdx.Package{a, b}}
	case 15, 16:
		t := &tree{root: sym.TempDir()}
		t.file("/f", "// SPDX-License-Identifier: L"+n+"\n")
		bc := &builder.Config{NamespacePrefix: "http://" + n, CreatorType: "Tool", Creator: n, PathsIgnored: []string{"/z", "**/a/", "/y"}}
		sc := &idsearcher.Config{NamespacePrefix: "http://" + n, BuilderPathsIgnored: []string{"/z", "**/a/", "/y"}, SearcherPathsIgnored: []string{"/z", "**/a/", "/y"}}
		return operation{on: []any{bc, sc}, run: func() any {
			var d *spdx.Document
			var err error
			if i == 15 {
				d, err = builder.Build(n, t.root, bc)
			} else {
				d, err = idsearcher.BuildIDsDocument(n, t.root, sc)
			}
			if err != nil {
				return nil
			}
			// the clock and the random suffix
			d.CreationInfo.Created = ""
			d.DocumentNamespace = ""
			return d
		}, right: func(r any) bool {
			d, _ := r.(*spdx.Document)
			return d != nil && d.DocumentName == n && len(d.Packages) == 1 && len(d.Packages[0].Files) == 1 && d.Packages[0].PackageName == n &&
				d.Packages[0].Files[0].Checksums[0].Value == fmt.Sprintf("%x", sha1.Sum([]byte("// SPDX-License-Identifier: L"+n+"\n"))) &&
				(i == 15 || d.Packages[0].Files[0].LicenseConcluded == "L"+n && len(d.Packages[0].PackageLicenseInfoFromFiles) == 1)
		}, change: func(m string) {
			n = m
			bc.NamespacePrefix, bc.Creator, sc.NamespacePrefix = "http://"+m, m, "http://"+m
			t.file("/f", "// SPDX-License-Identifier: L"+m+"\n")
		}}
	case 17:
		return operation{run: func() any {
			return utils.ShouldIgnore("/"+n, []string{"/" + n}) && !utils.ShouldIgnore("/"+n, []string{"/" + n + "x"})
		},
			right: func(r any) bool { return r == true }}
	}
	// something that is refused
	run := func() error { return nil }
	var on any
	switch i {
	case 18, 19:
		text := []string{`{"spdxVersion":"SPDX-2.1","name":"` + n, `{"spdxVersion":"SPDX-2.2","name":"` + n + `","files":[{"fileName":7}]}`, `{"spdxVersion":"SPDX-2.3","name":"` + n + `","packages":[{"name":"` + n + `","SPDXID":7}]}`}[k-1]
		run = func() error {
			_, err := json.Read(strings.NewReader(text))
			return err
		}
		if i == 19 {
			run = func() error {
				_, err := yaml.Read(strings.NewReader(text))
				return err
			}
		}
	case 20:
		text := "SPDXVersion: SPDX-2.3\nDocumentName: " + n + "\nPackageName: " + n + "\n" + []string{"PackageChecksum: " + n + "\n", "PackageComment: <text>" + n + "\n", n + "\n"}[k-1]
		run = func() error {
			_, err := tagvalue.Read(strings.NewReader(text))
			return err
		}
	case 21:
		v := "<spdx:specVersion>SPDX-2.3</spdx:specVersion>"
		text := []string{rdfText("d", []string{"<spdx:specVersion>SPDX-1</spdx:specVersion>"}), rdfText("d", []string{v, "<spdx:unknown>" + n + "</spdx:unknown>"}),
			strings.Replace(rdfText("d", []string{v, "<spdx:name>" + n + "</spdx:name>"}), "</spdx:SpdxDocument>", "", 1)}[k-1]
		run = func() error {
			_, err := rdf.Read(strings.NewReader(text))
			return err
		}
	case 22:
		doc := fullDocument([]int{jsonForm, jsonForm, tagValue}[k-1], 3, n)
		on = doc
		run = func() error {
			switch k {
			case 1:
				return json.Write(doc, &refuser{})
			case 2:
				return yaml.Write(doc, &refuser{})
			}
			return tagvalue.Write(doc, &refuser{})
		}
	}
	return operation{run: func() any { return run() != nil }, right: func(r any) bool { return r == true }, on: on, sorts: i == 22 && k == 3}
}

// refuser is a destination that takes nothing.
type refuser struct{}

func (*refuser) Write([]byte) (int, error) { return 0, errSource }

// C28_History: what an operation gives does not depend on operations before it, and later ones do not change it.
func C28_History() {
	sym.Witness("done")
	n, m := sym.From("n", alnum, 1, 8), sym.From("m", alnum, 1, 8)
	first, second := sym.Choice("first", nOperations), sym.Choice("second", nOperations)
	k, l := 3, 3
	if first == second {
		k, l = 1+sym.Choice("k", 3), 1+sym.Choice("l", 3)
	}
	if first >= refusedOnes && first != second {
		k = 1 + sym.Choice("k", 3)
	}
	a, b := anOperation(first, k, n), anOperation(second, l, m)
	before := b.run()
	other := a.run()
	after := b.run()
	sym.Assert(b.right(before) && a.right(other) && b.right(after), "an operation gives the result of another one")
	sym.Assert(sym.Equal(before, after), "the result of an operation depends on what was done before")
	sym.Assert(!sym.Shares(before, after) && !sym.Shares(before, other) && !sym.Shares(after, other), "the results of separate operations share memory")
	sym.Reach("done")
}

// C28_Apart: operations on different things may run at the same time.
func C28_Apart() {
	sym.Witness("done")
	n, m := sym.From("n", alnum, 1, 8), sym.From("m", alnum, 1, 8)
	i := sym.Choice("operation", nOperations)
	k, l := 1+sym.Choice("k", 3), 1+sym.Choice("l", 3)
	a, b := anOperation(i, k, n), anOperation(i, l, m)
	var x, y any
	sym.Apart(func() { x = a.run() }, func() { y = b.run() })
	sym.Assert(a.right(x) && b.right(y), "operations that run at the same time disturb each other")
	sym.Reach("done")
}

// C28_Again: doing something again with a thing that has changed gives what the
// changed thing demands.
func C28_Again() {
	sym.Witness("done")
	n := sym.From("n", alnum, 1, 8)
	m := sym.From("m", alnum, 1, 8)
	o := anOperation(sym.Choice("operation", refusedOnes), 1+sym.Choice("k", 3), n)
	sym.Assume(o.change != nil)
	first := o.run()
	sym.Assert(o.right(first), "an operation gives a wrong result")
	o.change(m)
	sym.Assert(o.right(o.run()), "an operation done again gives what it gave before its subject changed")
	sym.Reach("done")
}
