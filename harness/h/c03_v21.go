// Code generated from tmpl/c03.go.tmpl. DO NOT EDIT.

package h

import (
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	tv "github.com/spdx/tools-golang/spdx/v2/v2_1/tagvalue/reader"
	"github.com/spdx/tools-golang/tagvalue/reader"

	"verifharness/sym"
)

// A section of tag-value text that is given as pairs, and what it stands for.
type sect21 struct {
	pairs []reader.TagValuePair
}

func (s *sect21) add(tag, value string) {
	s.pairs = append(s.pairs, reader.TagValuePair{Tag: tag, Value: value})
}

// packageField21 gives field k of a package: it adds its line and sets it in x.
// It returns false when there is no such field, and whether it may be repeated.
func packageField21(k int, s *sect21, x *v2_1.Package) (ok, many bool) {
	v := func() string { return tvValue("PackageField") }
	put := func(tag string, to *string) (bool, bool) {
		*to = v()
		s.add(tag, *to)
		return true, false
	}
	more := func(tag string, to *[]string) (bool, bool) {
		*to = append(*to, v())
		s.add(tag, (*to)[len(*to)-1])
		return true, true
	}
	switch k {
	case 0:
		return put("PackageVersion", &x.PackageVersion)
	case 1:
		return put("PackageFileName", &x.PackageFileName)
	case 2:
		typ, who, line := tvAgent("Supplier", 2)
		x.PackageSupplier = &common.Supplier{SupplierType: typ, Supplier: who}
		s.add("PackageSupplier", line)
		return true, false
	case 3:
		typ, who, line := tvAgent("Originator", 2)
		x.PackageOriginator = &common.Originator{OriginatorType: typ, Originator: who}
		s.add("PackageOriginator", line)
		return true, false
	case 4:
		return put("PackageDownloadLocation", &x.PackageDownloadLocation)
	case 5:
		x.FilesAnalyzed = sym.Choice("analyzed", 2) == 1
		x.IsFilesAnalyzedTagPresent = true
		s.add("FilesAnalyzed", []string{"false", "true"}[b2i(x.FilesAnalyzed)])
		return true, false
	case 6:
		code := &common.PackageVerificationCode{}
		line := tvCode(code)
		x.PackageVerificationCode = *code
		s.add("PackageVerificationCode", line)
		return true, false
	case 7:
		c, line := tvSum(algorithms21)
		x.PackageChecksums = append(x.PackageChecksums, c)
		s.add("PackageChecksum", line)
		return true, true
	case 8:
		return put("PackageHomePage", &x.PackageHomePage)
	case 9:
		return put("PackageSourceInfo", &x.PackageSourceInfo)
	case 10:
		return put("PackageLicenseConcluded", &x.PackageLicenseConcluded)
	case 11:
		return more("PackageLicenseInfoFromFiles", &x.PackageLicenseInfoFromFiles)
	case 12:
		return put("PackageLicenseDeclared", &x.PackageLicenseDeclared)
	case 13:
		return put("PackageLicenseComments", &x.PackageLicenseComments)
	case 14:
		return put("PackageCopyrightText", &x.PackageCopyrightText)
	case 15:
		return put("PackageSummary", &x.PackageSummary)
	case 16:
		return put("PackageDescription", &x.PackageDescription)
	case 17:
		return put("PackageComment", &x.PackageComment)
	case 18:
		r := &v2_1.PackageExternalReference{}
		r.Category, r.RefType, r.Locator = tvToken("Category"), tvToken("RefType"), tvToken("Locator")
		s.add("ExternalRef", r.Category+" "+r.RefType+" "+r.Locator)
		if sym.Choice("comment", 2) == 1 {
			r.ExternalRefComment = v()
			s.add("ExternalRefComment", r.ExternalRefComment)
		}
		x.PackageExternalReferences = append(x.PackageExternalReferences, r)
		return true, true
	}
	return false, false
}

func fileField21(k int, s *sect21, x *v2_1.File) (ok, many bool) {
	v := func() string { return tvValue("FileField") }
	put := func(tag string, to *string) (bool, bool) {
		*to = v()
		s.add(tag, *to)
		return true, false
	}
	more := func(tag string, to *[]string) (bool, bool) {
		*to = append(*to, v())
		s.add(tag, (*to)[len(*to)-1])
		return true, true
	}
	switch k {
	case 0:
		return more("FileType", &x.FileTypes)
	case 1:
		c, line := tvSum(algorithms21)
		x.Checksums = append(x.Checksums, c)
		s.add("FileChecksum", line)
		return true, true
	case 2:
		return put("LicenseConcluded", &x.LicenseConcluded)
	case 3:
		return more("LicenseInfoInFile", &x.LicenseInfoInFiles)
	case 4:
		return put("LicenseComments", &x.LicenseComments)
	case 5:
		return put("FileCopyrightText", &x.FileCopyrightText)
	case 6:
		a := &v2_1.ArtifactOfProject{Name: v()}
		s.add("ArtifactOfProjectName", a.Name)
		which := sym.Choice("artifact", 4)
		if which&1 != 0 {
			a.HomePage = v()
			s.add("ArtifactOfProjectHomePage", a.HomePage)
		}
		if which&2 != 0 {
			a.URI = v()
			s.add("ArtifactOfProjectURI", a.URI)
		}
		x.ArtifactOfProjects = append(x.ArtifactOfProjects, a)
		return true, true
	case 7:
		return put("FileComment", &x.FileComment)
	case 8:
		return put("FileNotice", &x.FileNotice)
	case 9:
		return more("FileContributor", &x.FileContributors)
	case 10:
		return more("FileDependency", &x.FileDependencies)
	}
	return false, false
}

func snippetField21(k int, s *sect21, x *v2_1.Snippet) (ok, many bool) {
	v := func() string { return tvValue("SnippetField") }
	put := func(tag string, to *string) (bool, bool) {
		*to = v()
		s.add(tag, *to)
		return true, false
	}
	more := func(tag string, to *[]string) (bool, bool) {
		*to = append(*to, v())
		s.add(tag, (*to)[len(*to)-1])
		return true, true
	}
	switch k {
	case 0:
		id := sym.From("FromFile", idset, 1, 8)
		x.SnippetFromFileSPDXIdentifier = common.ElementID(id)
		s.add("SnippetFromFileSPDXID", "SPDXRef-"+id)
		return true, false
	case 1, 2:
		a, b := sym.Int("from", 0, 1<<31-1), sym.Int("to", 0, 1<<31-1)
		var r common.SnippetRange
		if k == 1 {
			r.StartPointer.Offset, r.EndPointer.Offset = a, b
		} else {
			r.StartPointer.LineNumber, r.EndPointer.LineNumber = a, b
		}
		x.Ranges = append(x.Ranges, r)
		s.add([]string{"", "SnippetByteRange", "SnippetLineRange"}[k], decimal(a)+":"+decimal(b))
		return true, true
	case 3:
		return put("SnippetLicenseConcluded", &x.SnippetLicenseConcluded)
	case 4:
		return more("LicenseInfoInSnippet", &x.LicenseInfoInSnippet)
	case 5:
		return put("SnippetLicenseComments", &x.SnippetLicenseComments)
	case 6:
		return put("SnippetCopyrightText", &x.SnippetCopyrightText)
	case 7:
		return put("SnippetComment", &x.SnippetComment)
	case 8:
		return put("SnippetName", &x.SnippetName)
	}
	return false, false
}

func licenseField21(k int, s *sect21, x *v2_1.OtherLicense) (ok, many bool) {
	v := tvValue("LicenseField")
	switch k {
	case 0:
		x.ExtractedText = v
		s.add("ExtractedText", v)
	case 1:
		x.LicenseName = v
		s.add("LicenseName", v)
	case 2:
		x.LicenseCrossReferences = append(x.LicenseCrossReferences, v)
		s.add("LicenseCrossReference", v)
		return true, true
	case 3:
		x.LicenseComment = v
		s.add("LicenseComment", v)
	default:
		return false, false
	}
	return true, false
}

func reviewField21(k int, s *sect21, x *v2_1.Review) (ok, many bool) {
	v := tvValue("ReviewField")
	switch k {
	case 0:
		x.ReviewDate = v
		s.add("ReviewDate", v)
	case 1:
		x.ReviewComment = v
		s.add("ReviewComment", v)
	default:
		return false, false
	}
	return true, false
}

func annotationField21(k int, s *sect21, x *v2_1.Annotation) (ok, many bool) {
	v := tvValue("AnnotationField")
	switch k {
	case 0:
		x.AnnotationDate = v
		s.add("AnnotationDate", v)
	case 1:
		x.AnnotationType = v
		s.add("AnnotationType", v)
	case 2:
		id, text := tvElem("AnnotationRef")
		x.AnnotationSPDXIdentifier = id
		s.add("SPDXREF", text)
	case 3:
		x.AnnotationComment = v
		s.add("AnnotationComment", v)
	default:
		return false, false
	}
	return true, false
}

func headField21(k int, s *sect21, d *v2_1.Document) (ok, many bool) {
	v := tvValue("HeadField")
	c := d.CreationInfo
	switch k {
	case 0:
		d.DataLicense = v
		s.add("DataLicense", v)
	case 1:
		id := sym.From("SPDXID", idset, 1, 8)
		d.SPDXIdentifier = common.ElementID(id)
		s.add("SPDXID", "SPDXRef-"+id)
	case 2:
		d.DocumentName = v
		s.add("DocumentName", v)
	case 3:
		d.DocumentNamespace = v
		s.add("DocumentNamespace", v)
	case 4:
		id, uri, sum := sym.From("DocumentRef", idset, 1, 8), tvToken("URI"), tvToken("Checksum")
		alg := algorithms21[sym.Choice("alg", len(algorithms21))]
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, v2_1.ExternalDocumentRef{
			DocumentRefID: common.DocumentID(id), URI: uri, Checksum: common.Checksum{Algorithm: alg, Value: sum},
		})
		sep := []string{"", " "}[sym.Choice("space", 2)]
		s.add("ExternalDocumentRef", "DocumentRef-"+id+" "+uri+" "+string(alg)+":"+sep+sum)
		return true, true
	case 5:
		d.DocumentComment = v
		s.add("DocumentComment", v)
	case 6:
		c.LicenseListVersion = v
		s.add("LicenseListVersion", v)
	case 7:
		typ, who, line := tvAgent("Creator", 3)
		c.Creators = append(c.Creators, common.Creator{CreatorType: typ, Creator: who})
		s.add("Creator", line)
		return true, true
	case 8:
		c.Created = v
		s.add("Created", v)
	case 9:
		c.CreatorComment = v
		s.add("CreatorComment", v)
	default:
		return false, false
	}
	return true, false
}

// two fields of an element in any order, or one field twice where that is allowed
func two21(name string, s *sect21, field func(k int) (ok, many bool)) {
	a := sym.Choice(name+".first", 24)
	ok, many := field(a)
	sym.Assume(ok)
	if sym.Choice(name+".two", 2) == 1 {
		b := sym.Choice(name+".second", 24)
		sym.Assume(many || b != a)
		ok, _ = field(b)
		sym.Assume(ok)
	}
}

// C03_Fields21: every tag sets its own field of the element whose section it
// stands in, and nothing else.
func C03_Fields21() {
	sym.Witness("done")
	s := &sect21{}
	d := &v2_1.Document{SPDXVersion: v2_1.Version, CreationInfo: &v2_1.CreationInfo{}}
	s.add("SPDXVersion", v2_1.Version)
	kind := sym.Choice("section", 9)
	if kind == 0 {
		two21("head", s, func(k int) (bool, bool) {
			if k >= 10 {
				return false, false
			}
			return headField21(k, s, d)
		})
		// SPDX asks for the fields of the document before those of its creation
		headTags := map[string]bool{"DataLicense": true, "SPDXID": true, "DocumentName": true, "DocumentNamespace": true, "ExternalDocumentRef": true, "DocumentComment": true}
		if n := len(s.pairs); n == 3 {
			sym.Assume(headTags[s.pairs[1].Tag] || !headTags[s.pairs[2].Tag])
		}
	}
	s.add("LicenseListVersion", d.CreationInfo.LicenseListVersion)
	if kind == 1 || kind == 2 || kind == 4 {
		p := &v2_1.Package{FilesAnalyzed: true}
		p.PackageName = tvValue("PackageName")
		p.PackageSPDXIdentifier = common.ElementID(sym.From("PackageID", idset, 1, 8))
		s.add("PackageName", p.PackageName)
		late := kind == 1 && sym.Choice("late", 2) == 1
		if !late {
			s.add("SPDXID", "SPDXRef-"+string(p.PackageSPDXIdentifier))
		}
		if kind == 1 {
			two21("package", s, func(k int) (bool, bool) { return packageField21(k, s, p) })
		}
		if late {
			s.add("SPDXID", "SPDXRef-"+string(p.PackageSPDXIdentifier))
		}
		d.Packages = append(d.Packages, p)
	}
	if kind >= 2 && kind <= 4 {
		x := &v2_1.File{FileName: tvValue("FileName")}
		x.FileSPDXIdentifier = common.ElementID(sym.From("FileID", idset, 1, 8))
		s.add("FileName", x.FileName)
		late := kind != 4 && sym.Choice("late", 2) == 1
		if !late {
			s.add("SPDXID", "SPDXRef-"+string(x.FileSPDXIdentifier))
		}
		if kind != 4 {
			two21("file", s, func(k int) (bool, bool) { return fileField21(k, s, x) })
		}
		if late {
			s.add("SPDXID", "SPDXRef-"+string(x.FileSPDXIdentifier))
		}
		if kind == 4 {
			y := &v2_1.Snippet{SnippetSPDXIdentifier: common.ElementID(sym.From("SnippetID", idset, 1, 8))}
			s.add("SnippetSPDXID", "SPDXRef-"+string(y.SnippetSPDXIdentifier))
			two21("snippet", s, func(k int) (bool, bool) { return snippetField21(k, s, y) })
			x.Snippets = map[common.ElementID]*v2_1.Snippet{y.SnippetSPDXIdentifier: y}
		}
		if kind == 3 {
			d.Files = append(d.Files, x)
		} else {
			d.Packages[0].Files = append(d.Packages[0].Files, x)
		}
	}
	switch kind {
	case 5:
		x := &v2_1.OtherLicense{LicenseIdentifier: tvValue("LicenseID")}
		s.add("LicenseID", x.LicenseIdentifier)
		two21("license", s, func(k int) (bool, bool) { return licenseField21(k, s, x) })
		d.OtherLicenses = append(d.OtherLicenses, x)
	case 6:
		typ, who, line := tvAgent("Annotator", 3)
		x := &v2_1.Annotation{Annotator: common.Annotator{AnnotatorType: typ, Annotator: who}}
		s.add("Annotator", line)
		two21("annotation", s, func(k int) (bool, bool) { return annotationField21(k, s, x) })
		d.Annotations = append(d.Annotations, x)
	case 7:
		typ, who, line := tvAgent("Reviewer", 3)
		x := &v2_1.Review{ReviewerType: typ, Reviewer: who}
		s.add("Reviewer", line)
		two21("review", s, func(k int) (bool, bool) { return reviewField21(k, s, x) })
		d.Reviews = append(d.Reviews, x)
	case 8:
		x := &v2_1.Relationship{Relationship: tvToken("Relationship")}
		var a, b string
		x.RefA, a = tvElem("RefA")
		x.RefB, b = tvElem("RefB")
		s.add("Relationship", a+" "+x.Relationship+" "+b)
		if sym.Choice("comment", 2) == 1 {
			x.RelationshipComment = tvValue("RelationshipComment")
			s.add("RelationshipComment", x.RelationshipComment)
		}
		d.Relationships = append(d.Relationships, x)
	}
	got, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err == nil, "a well-formed document is refused")
	sym.Reach("done")
	sameDoc21(got, d)
}

// C03_Sections21: every section becomes one element, in order, under its parent.
func C03_Sections21() {
	sym.Witness("done")
	s := &sect21{}
	d := &v2_1.Document{SPDXVersion: v2_1.Version, CreationInfo: &v2_1.CreationInfo{Created: "t"}}
	s.add("SPDXVersion", v2_1.Version)
	s.add("Created", "t")
	n := 5
	if sym.Thorough() {
		n = 6
	}
	var pkg *v2_1.Package
	var file *v2_1.File
	stage := 0 // 0 packages and files, 1 licenses, 2 reviews
	var ids []string
	fresh := func(name string) common.ElementID {
		v := sym.From(name, idset, 1, 8)
		for _, o := range ids {
			sym.Assume(v != o)
		}
		ids = append(ids, v)
		return common.ElementID(v)
	}
	mixed := sym.Choice("mixed", n+1) // in this section comes a relationship before the last field
	last := -1
	for i := 0; i < n; i++ {
		kind := sym.Choice("section", 8)
		if kind == 7 {
			break
		}
		var tail func()
		switch kind {
		case 0:
			sym.Assume(stage == 0)
			pkg, file = &v2_1.Package{FilesAnalyzed: true}, nil
			pkg.PackageName = tvValue("PackageName")
			pkg.PackageSPDXIdentifier = fresh("PackageID")
			s.add("PackageName", pkg.PackageName)
			s.add("SPDXID", "SPDXRef-"+string(pkg.PackageSPDXIdentifier))
			d.Packages = append(d.Packages, pkg)
			p := pkg
			tail = func() {
				p.PackageVersion = tvValue("Version")
				s.add("PackageVersion", p.PackageVersion)
			}
		case 1:
			sym.Assume(stage == 0)
			file = &v2_1.File{FileName: tvValue("FileName"), FileSPDXIdentifier: fresh("FileID")}
			s.add("FileName", file.FileName)
			s.add("SPDXID", "SPDXRef-"+string(file.FileSPDXIdentifier))
			if pkg != nil {
				pkg.Files = append(pkg.Files, file)
			} else {
				d.Files = append(d.Files, file)
			}
			x := file
			tail = func() {
				x.FileComment = tvValue("FileComment")
				s.add("FileComment", x.FileComment)
			}
		case 2:
			sym.Assume(stage == 0 && file != nil)
			x := &v2_1.Snippet{SnippetSPDXIdentifier: fresh("SnippetID"), SnippetFromFileSPDXIdentifier: file.FileSPDXIdentifier}
			s.add("SnippetSPDXID", "SPDXRef-"+string(x.SnippetSPDXIdentifier))
			s.add("SnippetFromFileSPDXID", "SPDXRef-"+string(file.FileSPDXIdentifier))
			if file.Snippets == nil {
				file.Snippets = map[common.ElementID]*v2_1.Snippet{}
			}
			file.Snippets[x.SnippetSPDXIdentifier] = x
			tail = func() {
				x.SnippetName = tvValue("SnippetName")
				s.add("SnippetName", x.SnippetName)
			}
		case 3:
			sym.Assume(stage <= 1)
			stage = 1
			x := &v2_1.OtherLicense{LicenseIdentifier: tvValue("LicenseID")}
			s.add("LicenseID", x.LicenseIdentifier)
			d.OtherLicenses = append(d.OtherLicenses, x)
			tail = func() {
				x.LicenseComment = tvValue("LicenseComment")
				s.add("LicenseComment", x.LicenseComment)
			}
		case 4:
			x := &v2_1.Relationship{}
			x.RefA.ElementRefID = common.ElementID(id("RefA", 8))
			x.RefB.ElementRefID = common.ElementID(id("RefB", 8))
			x.Relationship = tvToken("Relationship")
			s.add("Relationship", "SPDXRef-"+string(x.RefA.ElementRefID)+" "+x.Relationship+" SPDXRef-"+string(x.RefB.ElementRefID))
			d.Relationships = append(d.Relationships, x)
			if i != mixed {
				tail = func() {
					x.RelationshipComment = tvValue("RelationshipComment")
					s.add("RelationshipComment", x.RelationshipComment)
				}
			}
		case 5:
			x := &v2_1.Annotation{Annotator: common.Annotator{AnnotatorType: "Tool", Annotator: tvToken("Annotator")}}
			s.add("Annotator", "Tool: "+x.Annotator.Annotator)
			d.Annotations = append(d.Annotations, x)
			tail = func() {
				x.AnnotationComment = tvValue("AnnotationComment")
				s.add("AnnotationComment", x.AnnotationComment)
			}
		case 6:
			stage = 2
			x := &v2_1.Review{ReviewerType: "Person", Reviewer: tvToken("Reviewer")}
			s.add("Reviewer", "Person: "+x.Reviewer)
			d.Reviews = append(d.Reviews, x)
			tail = func() {
				x.ReviewComment = tvValue("ReviewComment")
				s.add("ReviewComment", x.ReviewComment)
			}
		}
		if i == mixed {
			x := &v2_1.Relationship{}
			x.RefA.ElementRefID, x.RefB.ElementRefID, x.Relationship = "a", "b", "OTHER"
			s.add("Relationship", "SPDXRef-a OTHER SPDXRef-b")
			d.Relationships = append(d.Relationships, x)
		}
		if tail != nil {
			tail()
		}
		last = i
	}
	sym.Assume(mixed == n || mixed <= last)
	got, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err == nil, "a well-formed document is refused")
	sym.Reach("done")
	sameDoc21(got, d)
}

// C03_Many21: many sections, with many repeated fields.
func C03_Many21() {
	sym.Witness("done")
	s := &sect21{}
	d := &v2_1.Document{SPDXVersion: v2_1.Version, CreationInfo: &v2_1.CreationInfo{Created: "t"}}
	s.add("SPDXVersion", v2_1.Version)
	s.add("Created", "t")
	n, odd := many(4, 13, 300)
	kind := sym.Choice("kind", 19)
	at := 0
	text := func() string {
		if at == odd {
			return sym.String("v", 8)
		}
		return "é " + num(at*7%n)
	}
	put := func(tag string) string {
		v := text()
		s.add(tag, v)
		return v
	}
	list := func(tag string, to *[]string) { *to = append(*to, put(tag)) }
	newPackage := func(name string) *v2_1.Package {
		x := &v2_1.Package{PackageName: "p", FilesAnalyzed: true, PackageSPDXIdentifier: common.ElementID(name)}
		s.add("PackageName", "p")
		s.add("SPDXID", "SPDXRef-"+name)
		d.Packages = append(d.Packages, x)
		return x
	}
	newFile := func(name string, p *v2_1.Package) *v2_1.File {
		x := &v2_1.File{FileName: "f", FileSPDXIdentifier: common.ElementID(name)}
		s.add("FileName", "f")
		s.add("SPDXID", "SPDXRef-"+name)
		if p == nil {
			d.Files = append(d.Files, x)
		} else {
			p.Files = append(p.Files, x)
		}
		return x
	}
	newSnippet := func(name string, f *v2_1.File) *v2_1.Snippet {
		x := &v2_1.Snippet{SnippetSPDXIdentifier: common.ElementID(name), SnippetFromFileSPDXIdentifier: f.FileSPDXIdentifier}
		s.add("SnippetSPDXID", "SPDXRef-"+name)
		s.add("SnippetFromFileSPDXID", "SPDXRef-"+string(f.FileSPDXIdentifier))
		if f.Snippets == nil {
			f.Snippets = map[common.ElementID]*v2_1.Snippet{}
		}
		f.Snippets[x.SnippetSPDXIdentifier] = x
		return x
	}
	relate := func(a string) {
		x := &v2_1.Relationship{Relationship: "OTHER"}
		x.RefA.ElementRefID, x.RefB.ElementRefID = common.ElementID(a), "b"
		s.add("Relationship", "SPDXRef-"+a+" OTHER SPDXRef-b")
		x.RelationshipComment = put("RelationshipComment")
		d.Relationships = append(d.Relationships, x)
	}
	annotate := func() {
		x := &v2_1.Annotation{Annotator: common.Annotator{AnnotatorType: "Tool", Annotator: "t" + num(at)}}
		s.add("Annotator", "Tool: "+x.Annotator.Annotator)
		x.AnnotationComment = put("AnnotationComment")
		d.Annotations = append(d.Annotations, x)
	}
	var p *v2_1.Package
	var f *v2_1.File
	var sn *v2_1.Snippet
	var l *v2_1.OtherLicense
	if kind >= 6 && kind != 17 {
		p = newPackage("p")
		f = newFile("f", p)
	}
	switch kind {
	case 6, 7, 8: // the fields of a package: the file comes after them
		p.Files = nil
		s.pairs = s.pairs[:len(s.pairs)-2]
	case 15, 16:
		sn = newSnippet("s", f)
	case 18:
		l = &v2_1.OtherLicense{LicenseIdentifier: "LicenseRef-1"}
		s.add("LicenseID", l.LicenseIdentifier)
		d.OtherLicenses = append(d.OtherLicenses, l)
	}
	for ; at < n; at++ {
		i := num(at)
		switch kind {
		case 0: // packages
			x := newPackage("p" + i)
			x.PackageVersion = put("PackageVersion")
		case 1: // files of no package
			x := newFile("f"+i, nil)
			x.FileComment = put("FileComment")
		case 2: // packages with files with snippets, and remarks in between
			if at%4 == 0 {
				p = newPackage("p" + i)
			}
			if at%2 == 0 {
				f = newFile("f"+i, p)
			}
			x := newSnippet("s"+i, f)
			if at%3 == 0 {
				relate("f" + i)
			}
			if at%5 == 0 {
				annotate()
			}
			x.SnippetComment = put("SnippetComment")
		case 3: // extracted licenses
			x := &v2_1.OtherLicense{LicenseIdentifier: "LicenseRef-" + i}
			s.add("LicenseID", x.LicenseIdentifier)
			x.LicenseComment = put("LicenseComment")
			d.OtherLicenses = append(d.OtherLicenses, x)
		case 4: // reviews
			x := &v2_1.Review{ReviewerType: "Person", Reviewer: "é" + i}
			s.add("Reviewer", "Person: é"+i)
			x.ReviewComment = put("ReviewComment")
			d.Reviews = append(d.Reviews, x)
		case 5: // relationships and annotations
			relate("f" + i)
			annotate()
		case 6: // external references with and without comments
			r := &v2_1.PackageExternalReference{Category: "OTHER", RefType: "t" + i, Locator: "l"}
			s.add("ExternalRef", "OTHER t"+i+" l")
			if at%2 == odd%2 {
				r.ExternalRefComment = put("ExternalRefComment")
			}
			p.PackageExternalReferences = append(p.PackageExternalReferences, r)
		case 7:
			list("PackageLicenseInfoFromFiles", &p.PackageLicenseInfoFromFiles)
		case 8: // checksums
			c := common.Checksum{Algorithm: algorithms21[at%len(algorithms21)], Value: "c" + i}
			s.add("PackageChecksum", string(c.Algorithm)+": "+c.Value)
			p.PackageChecksums = append(p.PackageChecksums, c)
		case 9:
			c := common.Checksum{Algorithm: algorithms21[at%len(algorithms21)], Value: "c" + i}
			s.add("FileChecksum", string(c.Algorithm)+": "+c.Value)
			f.Checksums = append(f.Checksums, c)
		case 10:
			list("FileType", &f.FileTypes)
		case 11:
			list("LicenseInfoInFile", &f.LicenseInfoInFiles)
		case 12:
			list("FileContributor", &f.FileContributors)
		case 13:
			list("FileDependency", &f.FileDependencies)
		case 14: // projects
			a := &v2_1.ArtifactOfProject{Name: "p" + i}
			s.add("ArtifactOfProjectName", a.Name)
			if at%2 == odd%2 {
				a.HomePage = put("ArtifactOfProjectHomePage")
			}
			if at%3 == odd%3 {
				a.URI = put("ArtifactOfProjectURI")
			}
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
		case 15:
			list("LicenseInfoInSnippet", &sn.LicenseInfoInSnippet)
		case 16: // ranges
			var r common.SnippetRange
			if at%2 == 0 {
				r.StartPointer.Offset, r.EndPointer.Offset = 10*at+1, 10*at+2
				s.add("SnippetByteRange", decimal(10*at+1)+":"+decimal(10*at+2))
			} else {
				r.StartPointer.LineNumber, r.EndPointer.LineNumber = 10*at+1, 10*at+2
				s.add("SnippetLineRange", decimal(10*at+1)+":"+decimal(10*at+2))
			}
			sn.Ranges = append(sn.Ranges, r)
		case 17: // creators
			d.CreationInfo.Creators = append(d.CreationInfo.Creators, common.Creator{CreatorType: "Tool", Creator: "é" + i})
			s.add("Creator", "Tool: é"+i)
		case 18:
			list("LicenseCrossReference", &l.LicenseCrossReferences)
		}
	}
	at = n + 1
	if kind == 6 || kind == 7 || kind == 8 {
		newFile("f", p)
	}
	got, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err == nil, "a well-formed document is refused")
	sym.Reach("done")
	sameDoc21(got, d)
}
