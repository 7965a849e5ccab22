// Code generated from tmpl/doc.go.tmpl. DO NOT EDIT.

package h

import (
	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_2"

	"verifharness/sym"
)

func package22(f *filler, prefix string) *spdx.Package {
	p := &spdx.Package{}
	p.PackageName = f.must("PackageName")
	p.PackageSPDXIdentifier = common.ElementID(f.id(prefix, "PackageSPDXIdentifier"))
	p.PackageVersion = f.l("PackageVersion")
	p.PackageFileName = f.l("PackageFileName")
	p.PackageSupplier = f.supplier("PackageSupplier")
	p.PackageOriginator = f.originator("PackageOriginator")
	p.PackageDownloadLocation = f.l("PackageDownloadLocation")
	switch f.pick("FilesAnalyzed", 3, 0) {
	case 0:
		p.FilesAnalyzed = true
		p.IsFilesAnalyzedTagPresent = f.format == jsonForm
	case 1:
		p.FilesAnalyzed = true
		p.IsFilesAnalyzedTagPresent = true
	case 2:
		p.IsFilesAnalyzedTagPresent = true
	}
	code, infos := f.code("PackageVerificationCode"), f.ls("PackageLicenseInfoFromFiles")
	if p.FilesAnalyzed || f.format != tagValue {
		if code != nil {
			p.PackageVerificationCode = *code
		}
		p.PackageLicenseInfoFromFiles = infos
	}
	p.PackageChecksums = f.sums("PackageChecksums", algorithms22)
	p.PackageHomePage = f.l("PackageHomePage")
	p.PackageSourceInfo = f.t("PackageSourceInfo")
	p.PackageLicenseConcluded = f.l("PackageLicenseConcluded")
	p.PackageLicenseDeclared = f.l("PackageLicenseDeclared")
	p.PackageLicenseComments = f.t("PackageLicenseComments")
	p.PackageCopyrightText = f.t("PackageCopyrightText")
	p.PackageSummary = f.t("PackageSummary")
	p.PackageDescription = f.t("PackageDescription")
	p.PackageComment = f.t("PackageComment")
	p.PackageAttributionTexts = f.ts("PackageAttributionTexts")
	if f.format == anyForm {
		p.IsUnpackaged = f.pick("IsUnpackaged", 2, 0) == 1
	}
	n := f.some("PackageExternalReferences.len", 3, 2)
	for i := 0; i < n; i++ {
		p.PackageExternalReferences = append(p.PackageExternalReferences, &spdx.PackageExternalReference{
			Category:           f.category("Category"),
			RefType:            f.tok("RefType"),
			Locator:            f.tok("Locator"),
			ExternalRefComment: f.t("ExternalRefComment"),
		})
	}
	if f.format != tagValue {
		p.Annotations = annotations22(f)
	}
	return p
}

func annotations22(f *filler) []spdx.Annotation {
	var out []spdx.Annotation
	n := f.some("Annotations.len", 3, 2)
	for i := 0; i < n; i++ {
		out = append(out, *annotation22(f))
	}
	return out
}

func annotation22(f *filler) *spdx.Annotation {
	a := &spdx.Annotation{}
	a.Annotator.AnnotatorType, a.Annotator.Annotator = f.agent("Annotator")
	a.AnnotationDate = f.l("AnnotationDate")
	a.AnnotationType = f.l("AnnotationType")
	if f.format != jsonForm {
		a.AnnotationSPDXIdentifier = f.elem("AnnotationSPDXIdentifier")
	}
	a.AnnotationComment = f.t("AnnotationComment")
	return a
}

func file22(f *filler, prefix string) *spdx.File {
	x := &spdx.File{}
	x.FileName = f.must("FileName")
	x.FileSPDXIdentifier = common.ElementID(f.id(prefix, "FileSPDXIdentifier"))
	x.FileTypes = f.ls("FileTypes")
	x.Checksums = f.sums("Checksums", algorithms22)
	x.LicenseConcluded = f.l("LicenseConcluded")
	x.LicenseInfoInFiles = f.ls("LicenseInfoInFiles")
	x.LicenseComments = f.t("LicenseComments")
	x.FileCopyrightText = f.t("FileCopyrightText")
	x.FileComment = f.t("FileComment")
	x.FileNotice = f.t("FileNotice")
	x.FileContributors = f.ls("FileContributors")
	x.FileAttributionTexts = f.ts("FileAttributionTexts")
	if f.format != jsonForm || 22 >= 23 {
		x.FileDependencies = f.ls("FileDependencies")
		n := f.some("ArtifactOfProjects.len", 3, 2)
		for i := 0; i < n; i++ {
			x.ArtifactOfProjects = append(x.ArtifactOfProjects, &spdx.ArtifactOfProject{
				Name:     f.artifact("ArtifactName"),
				HomePage: f.l("ArtifactHomePage"),
				URI:      f.l("ArtifactURI"),
			})
		}
	}
	if f.format != tagValue {
		x.Annotations = annotations22(f)
	}
	return x
}

func snippet22(f *filler, prefix string) *spdx.Snippet {
	s := &spdx.Snippet{}
	s.SnippetSPDXIdentifier = common.ElementID(f.id(prefix, "SnippetSPDXIdentifier"))
	s.SnippetFromFileSPDXIdentifier = common.ElementID(f.id("", "SnippetFromFileSPDXIdentifier"))
	s.Ranges = f.ranges("Ranges")
	s.SnippetLicenseConcluded = f.l("SnippetLicenseConcluded")
	s.LicenseInfoInSnippet = f.ls("LicenseInfoInSnippet")
	s.SnippetLicenseComments = f.t("SnippetLicenseComments")
	s.SnippetCopyrightText = f.t("SnippetCopyrightText")
	s.SnippetComment = f.t("SnippetComment")
	s.SnippetName = f.l("SnippetName")
	if f.format != jsonForm {
		s.SnippetAttributionTexts = f.ts("SnippetAttributionTexts")
	}
	return s
}

func license22(f *filler) *spdx.OtherLicense {
	return &spdx.OtherLicense{
		LicenseIdentifier:      f.must("LicenseIdentifier"),
		ExtractedText:          f.t("ExtractedText"),
		LicenseName:            f.l("LicenseName"),
		LicenseCrossReferences: f.ls("LicenseCrossReferences"),
		LicenseComment:         f.t("LicenseComment"),
	}
}

func relationship22(f *filler) *spdx.Relationship {
	return &spdx.Relationship{
		RefA:                f.elem("RefA"),
		RefB:                f.target("RefB"),
		Relationship:        f.tok("Relationship"),
		RelationshipComment: f.t("RelationshipComment"),
	}
}

func review22(f *filler) *spdx.Review {
	r := &spdx.Review{}
	r.ReviewerType, r.Reviewer = f.agent("Reviewer")
	r.ReviewDate = f.l("ReviewDate")
	r.ReviewComment = f.t("ReviewComment")
	return r
}

func head22(f *filler) *spdx.Document {
	d := &spdx.Document{SPDXVersion: spdx.Version, CreationInfo: &spdx.CreationInfo{}}
	d.DataLicense = f.l("DataLicense")
	d.SPDXIdentifier = common.ElementID(f.id("", "SPDXIdentifier"))
	d.DocumentName = f.l("DocumentName")
	d.DocumentNamespace = f.l("DocumentNamespace")
	d.DocumentComment = f.t("DocumentComment")
	n := f.some("ExternalDocumentReferences.len", 3, 2)
	for i := 0; i < n; i++ {
		e := spdx.ExternalDocumentRef{
			DocumentRefID: common.DocumentID(f.id([]string{"A", "B", "C"}[i], "DocumentRefID")),
			URI:           f.tok("URI"),
		}
		e.Checksum.Algorithm = algorithms22[f.pick("Algorithm", len(algorithms22), 0)]
		e.Checksum.Value = f.tok("ChecksumValue")
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, e)
	}
	c := d.CreationInfo
	c.LicenseListVersion = f.l("LicenseListVersion")
	c.Creators = f.agents("Creators")
	c.Created = f.l("Created")
	c.CreatorComment = f.t("CreatorComment")
	return d
}

// document22 makes a document. In a full document every section has two elements.
func document22(f *filler) *spdx.Document {
	d := head22(f)
	k := f.count(2, 1)
	prefix := []string{"Fa", "Fb"}
	for i := 0; i < k; i++ {
		x := file22(f, "Un"+prefix[i])
		snippets22(f, d, x)
		d.Files = append(d.Files, x)
	}
	for i := 0; i < k; i++ {
		p := package22(f, []string{"Pa", "Pb"}[i])
		if f.format != anyForm || i == 0 {
			for j := 0; j < k; j++ {
				x := file22(f, prefix[j])
				if i == 0 {
					snippets22(f, d, x)
				}
				p.Files = append(p.Files, x)
			}
		}
		d.Packages = append(d.Packages, p)
	}
	for i := 0; i < k; i++ {
		d.OtherLicenses = append(d.OtherLicenses, license22(f))
		d.Relationships = append(d.Relationships, relationship22(f))
		d.Annotations = append(d.Annotations, annotation22(f))
		if f.format != jsonForm {
			d.Reviews = append(d.Reviews, review22(f))
		}
	}
	return d
}

func snippets22(f *filler, d *spdx.Document, x *spdx.File) {
	if f.format != jsonForm {
		x.Snippets = map[common.ElementID]*spdx.Snippet{}
	}
	k := f.count(2, 1)
	for i := 0; i < k; i++ {
		s := snippet22(f, []string{"Sa", "Sb"}[i])
		if f.format != jsonForm {
			x.Snippets[s.SnippetSPDXIdentifier] = s
		}
		if f.format != tagValue {
			d.Snippets = append(d.Snippets, *s)
		}
	}
}

// elements22 is the number of kinds of elements for one22.
func elements22(f *filler) int {
	if f.format == jsonForm {
		return 8
	}
	return 9
}

// one22 makes a document with one element of some kind only.
func one22(f *filler, kind int) *spdx.Document {
	if kind == 0 {
		return head22(f)
	}
	d := &spdx.Document{SPDXVersion: spdx.Version, SPDXIdentifier: "D", CreationInfo: &spdx.CreationInfo{}}
	d.CreationInfo.Creators = []common.Creator{{CreatorType: "Tool", Creator: "t"}}
	switch kind {
	case 1:
		d.Packages = append(d.Packages, package22(f, ""))
	case 2:
		p := &spdx.Package{PackageName: "p", PackageSPDXIdentifier: "P", FilesAnalyzed: true}
		p.IsFilesAnalyzedTagPresent = f.format == jsonForm
		p.Files = append(p.Files, file22(f, ""))
		d.Packages = append(d.Packages, p)
	case 3:
		d.Files = append(d.Files, file22(f, ""))
	case 4:
		x := &spdx.File{FileName: "f", FileSPDXIdentifier: "F"}
		s := snippet22(f, "")
		if f.format != jsonForm {
			x.Snippets = map[common.ElementID]*spdx.Snippet{s.SnippetSPDXIdentifier: s}
		}
		if f.format != tagValue {
			d.Snippets = append(d.Snippets, *s)
		}
		d.Files = append(d.Files, x)
	case 5:
		d.OtherLicenses = append(d.OtherLicenses, license22(f))
	case 6:
		d.Relationships = append(d.Relationships, relationship22(f))
	case 7:
		d.Annotations = append(d.Annotations, annotation22(f))
	case 8:
		d.Reviews = append(d.Reviews, review22(f))
	}
	return d
}

// pair22 is a document with one element whose fields are all absent or all
// there, with the exception of any two.
func pair22(format int, set string) *spdx.Document {
	f := &filler{format: format, full: sym.Choice("full", 2) == 1, focus: -1, max: 20, set: set}
	kind := sym.Choice("element", elements22(f))
	f.flip(func(g *filler) { one22(g, kind) })
	return one22(f, kind)
}

// many22 is a document with a long list: elements of one kind, or values of
// one field, with identifiers in order.
func many22(format int) *spdx.Document {
	f := &filler{format: format, focus: -1, max: 20}
	n := []int{4, 11, 130}[sym.Choice("many", 3)]
	odd := n - 1 - sym.Choice("which", 2)*n/3
	word := func(i int) string {
		if i == odd {
			return sym.From("value", idset, 1, 8)
		}
		return "v" + num(i)
	}
	id := func(i int) common.ElementID { return common.ElementID("i" + num(i)) }
	kinds := 18
	if format != jsonForm {
		kinds = 21
	}
	kind := sym.Choice("kind", kinds)
	d := head22(f)
	file := func(i int) *spdx.File { return &spdx.File{FileName: word(i), FileSPDXIdentifier: id(i)} }
	p := &spdx.Package{PackageName: "p", PackageSPDXIdentifier: "P", FilesAnalyzed: true}
	p.IsFilesAnalyzedTagPresent = format == jsonForm
	x := &spdx.File{FileName: "x", FileSPDXIdentifier: "X"}
	l := &spdx.OtherLicense{LicenseIdentifier: "LicenseRef-l", LicenseName: "l"}
	var texts []string
	if kind >= 8 {
		for i := 0; i < n; i++ {
			texts = append(texts, word(i))
		}
	}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			q := *p
			q.PackageName, q.PackageSPDXIdentifier = word(i), id(i)
			d.Packages = append(d.Packages, &q)
		}
		p = nil
	case 1:
		for i := 0; i < n; i++ {
			p.Files = append(p.Files, file(i))
		}
	case 2:
		for i := 0; i < n; i++ {
			d.Files = append(d.Files, file(i))
		}
		x = nil
	case 3:
		if format != jsonForm {
			x.Snippets = map[common.ElementID]*spdx.Snippet{}
		}
		for i := 0; i < n; i++ {
			s := &spdx.Snippet{SnippetSPDXIdentifier: id(i), SnippetName: word(i), SnippetFromFileSPDXIdentifier: "X"}
			s.Ranges = []common.SnippetRange{{StartPointer: common.SnippetRangePointer{Offset: i + 1}, EndPointer: common.SnippetRangePointer{Offset: 50 + i}}}
			if format == jsonForm {
				s.Ranges[0].StartPointer.FileSPDXIdentifier, s.Ranges[0].EndPointer.FileSPDXIdentifier = "X", "X"
			}
			if format != jsonForm {
				x.Snippets[id(i)] = s
			}
			if format != tagValue {
				d.Snippets = append(d.Snippets, *s)
			}
		}
	case 4:
		for i := 0; i < n; i++ {
			d.OtherLicenses = append(d.OtherLicenses, &spdx.OtherLicense{LicenseIdentifier: "LicenseRef-" + num(i), ExtractedText: word(i)})
		}
	case 5:
		for i := 0; i < n; i++ {
			d.Relationships = append(d.Relationships, &spdx.Relationship{RefA: common.DocElementID{ElementRefID: "P"}, RefB: common.DocElementID{ElementRefID: id(i)}, Relationship: "AMENDS", RelationshipComment: word(i)})
		}
	case 6:
		for i := 0; i < n; i++ {
			a := annotation22(f)
			a.AnnotationComment = word(i)
			d.Annotations = append(d.Annotations, a)
		}
	case 7:
		d.ExternalDocumentReferences = nil
		for i := 0; i < n; i++ {
			e := spdx.ExternalDocumentRef{DocumentRefID: common.DocumentID(id(i)), URI: "u" + num(i)}
			e.Checksum = common.Checksum{Algorithm: common.SHA1, Value: "c" + num(n-i)}
			d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, e)
		}
	case 8:
		d.CreationInfo.Creators = nil
		for _, t := range texts {
			d.CreationInfo.Creators = append(d.CreationInfo.Creators, common.Creator{CreatorType: "Tool", Creator: t})
		}
	case 9:
		for i, t := range texts {
			p.PackageExternalReferences = append(p.PackageExternalReferences, &spdx.PackageExternalReference{Category: "OTHER", RefType: "t" + num(i), Locator: "l" + num(i), ExternalRefComment: t})
		}
	case 10:
		p.PackageLicenseInfoFromFiles = texts
	case 11:
		x.FileTypes = texts
	case 12:
		x.LicenseInfoInFiles = texts
	case 13:
		x.FileContributors = texts
	case 14:
		l.LicenseCrossReferences = texts
	case 15:
		for i, t := range texts {
			p.PackageChecksums = append(p.PackageChecksums, common.Checksum{Algorithm: algorithms22[i%len(algorithms22)], Value: t})
		}
	case 16:
		for i, t := range texts {
			x.Checksums = append(x.Checksums, common.Checksum{Algorithm: algorithms22[i%len(algorithms22)], Value: t})
		}
	case 17:
		p.PackageAttributionTexts = texts
		x.FileAttributionTexts = texts
	case 18:
		for _, t := range texts {
			r := review22(f)
			r.ReviewComment = t
			d.Reviews = append(d.Reviews, r)
		}
	case 19:
		x.FileDependencies = texts
	case 20:
		for i, t := range texts {
			x.ArtifactOfProjects = append(x.ArtifactOfProjects, &spdx.ArtifactOfProject{Name: "a" + num(i), URI: t})
		}
	}
	if p != nil {
		d.Packages = append(d.Packages, p)
	}
	if x != nil {
		d.Files = append(d.Files, x)
	}
	d.OtherLicenses = append(d.OtherLicenses, l)
	return d
}

func fields22(format int, full bool) int {
	f := &filler{format: format, full: full, focus: -1, dry: true}
	document22(f)
	return f.n
}

// sameDoc22 compares two documents section by section.
func sameDoc22(got, want *spdx.Document) {
	same := func(a, b any, what string) { eq(a, b, what+" differs") }
	same(got.SPDXVersion, want.SPDXVersion, "SPDXVersion")
	same(got.DataLicense, want.DataLicense, "DataLicense")
	same(got.SPDXIdentifier, want.SPDXIdentifier, "SPDXIdentifier")
	same(got.DocumentName, want.DocumentName, "DocumentName")
	same(got.DocumentNamespace, want.DocumentNamespace, "DocumentNamespace")
	same(got.DocumentComment, want.DocumentComment, "DocumentComment")
	same(got.ExternalDocumentReferences, want.ExternalDocumentReferences, "ExternalDocumentReferences")
	same(got.CreationInfo, want.CreationInfo, "CreationInfo")
	same(got.Packages, want.Packages, "Packages")
	same(got.Files, want.Files, "Files")
	same(got.Snippets, want.Snippets, "Snippets")
	same(got.OtherLicenses, want.OtherLicenses, "OtherLicenses")
	same(got.Relationships, want.Relationships, "Relationships")
	same(got.Annotations, want.Annotations, "Annotations")
	same(got.Reviews, want.Reviews, "Reviews")
	same(got, want, "the document")
}
