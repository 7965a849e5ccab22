// Code generated from tmpl/c14.go.tmpl. DO NOT EDIT.

package h

import (
	"strings"

	rdf "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"

	"verifharness/sym"
)

type rdfDoc22 struct {
	rdfb
	want *spdx.Document
	doc  *rdf.Node
}

func (b *rdfDoc22) annotations(s *rdf.Node, of common.ElementID) {
	b.child(s, "annotation", func() *rdf.Node {
		a := &spdx.Annotation{AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: of}}
		b.want.Annotations = append(b.want.Annotations, a)
		n := b.node("", "Annotation")
		b.agent(n, "annotator", func(kind, name string) { a.Annotator = common.Annotator{AnnotatorType: kind, Annotator: name} }, "Person", "Organization", "Tool")
		b.text(n, "annotationDate", func(v string) { a.AnnotationDate = v })
		b.pick(n, "annotationType", resource, func(i int) { a.AnnotationType = []string{"OTHER", "REVIEW"}[i] }, full("annotationType_other"), full("annotationType_review"))
		b.text(n, "rdfs:comment", func(v string) { a.AnnotationComment = v })
		return n
	})
}

func (b *rdfDoc22) checksum(s *rdf.Node, put func(*rdf.Node, string, func() *rdf.Node), add func(common.Checksum)) {
	put(s, "checksum", func() *rdf.Node {
		c := common.Checksum{}
		n := b.node("", "Checksum")
		algs := []common.ChecksumAlgorithm{common.SHA1, common.SHA224, common.SHA256, common.SHA384, common.SHA512, common.MD2, common.MD4, common.MD5, common.MD6}
		uris := []string{"sha1", "sha224", "sha256", "sha384", "sha512", "md2", "md4", "md5", "md6"}
		// a checksum always has an algorithm
		k := 0
		if b.n == b.at && b.mode == rdfFocus {
			k = sym.Choice("algorithm", len(uris))
		}
		b.n++
		b.put(n, "algorithm", resource(full("checksumAlgorithm_"+uris[k])))
		c.Algorithm = algs[k]
		b.value(n, "checksumValue", "", func(n string) string { return sym.From(n, alnum, 0, 8) }, func(v string) { c.Value = v })
		add(c)
		return n
	})
}

func (b *rdfDoc22) license(s *rdf.Node, pred string, set func(string)) {
	b.pick(s, pred, resource, func(i int) { set([]string{"MIT", "Zlib", "NONE", "NOASSERTION", "NONE", "NOASSERTION"}[i]) },
		nsLIC+"MIT", nsLIC+"Zlib", full("none"), full("noassertion"), full("NONE"), full("NOASSERTION"))
}

func (b *rdfDoc22) relationships(s *rdf.Node, from common.ElementID) {
	b.child(s, "relationship", func() *rdf.Node {
		r := &spdx.Relationship{RefA: common.MakeDocElementID("", string(from))}
		b.want.Relationships = append(b.want.Relationships, r)
		n := b.node("", "Relationship")
		k := 0
		kinds := reader.AllRelationshipTypes()
		if b.n == b.at && b.mode == rdfFocus {
			k = sym.Choice("kind", len(kinds))
		}
		b.n++
		b.put(n, "relationshipType", resource(full("relationshipType_"+kinds[k])))
		r.Relationship = kinds[k]
		k = 0
		if b.n == b.at && b.mode == rdfFocus {
			k = sym.Choice("related", 4)
		}
		b.n++
		r.RefB = []common.DocElementID{common.MakeDocElementID("", "p0"), common.MakeDocElementID("d0", "other"),
			common.MakeDocElementSpecial("NONE"), common.MakeDocElementSpecial("NOASSERTION")}[k]
		b.put(n, "relatedSpdxElement", resource([]string{nsDoc + "SPDXRef-p0", nsDoc + "DocumentRef-d0:SPDXRef-other", full("none"), full("noassertion")}[k]))
		b.text(n, "rdfs:comment", func(v string) { r.RelationshipComment = v })
		return n
	})
}

func (b *rdfDoc22) head() {
	d := b.want
	b.doc = b.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	d.SPDXIdentifier, d.DocumentNamespace = "DOCUMENT", nsDoc[:len(nsDoc)-1]
	b.text(b.doc, "specVersion", func(v string) { d.SPDXVersion = v })
	b.pick(b.doc, "dataLicense", resource, func(i int) { d.DataLicense = []string{"CC0-1.0", "MIT"}[i] }, nsLIC+"CC0-1.0", nsLIC+"MIT")
	b.text(b.doc, "name", func(v string) { d.DocumentName = v })
	b.text(b.doc, "rdfs:comment", func(v string) { d.DocumentComment = v })
	b.child(b.doc, "externalDocumentRef", func() *rdf.Node {
		n := b.node("", "ExternalDocumentRef")
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, spdx.ExternalDocumentRef{})
		e := &d.ExternalDocumentReferences[len(d.ExternalDocumentReferences)-1]
		b.value(n, "externalDocumentId", "DocumentRef-", func(n string) string { return id(n, 8) }, func(v string) { e.DocumentRefID = common.DocumentID(v) })
		b.text(n, "spdxDocument", func(v string) { e.URI = v })
		b.checksum(n, b.part, func(c common.Checksum) { e.Checksum = c })
		return n
	})
	b.part(b.doc, "creationInfo", func() *rdf.Node {
		n := b.node("", "CreationInfo")
		c := d.CreationInfo
		b.text(n, "licenseListVersion", func(v string) { c.LicenseListVersion = v })
		for i := 0; i < 2; i++ {
			b.agent(n, "creator", func(kind, name string) {
				c.Creators = append(c.Creators, common.Creator{CreatorType: kind, Creator: name})
			}, "Person", "Organization", "Tool")
		}
		b.text(n, "created", func(v string) { c.Created = v })
		b.text(n, "rdfs:comment", func(v string) { c.CreatorComment = v })
		return n
	})
	b.child(b.doc, "reviewed", func() *rdf.Node {
		n := b.node("", "Review")
		r := &spdx.Review{}
		d.Reviews = append(d.Reviews, r)
		b.agent(n, "reviewer", func(kind, name string) { r.ReviewerType, r.Reviewer = kind, name }, "Person", "Organization", "Tool")
		b.text(n, "reviewDate", func(v string) { r.ReviewDate = v })
		b.text(n, "rdfs:comment", func(v string) { r.ReviewComment = v })
		return n
	})
	b.child(b.doc, "hasExtractedLicensingInfo", func() *rdf.Node {
		n := b.node("", "ExtractedLicensingInfo")
		o := &spdx.OtherLicense{}
		d.OtherLicenses = append(d.OtherLicenses, o)
		b.text(n, "licenseId", func(v string) { o.LicenseIdentifier = v })
		b.text(n, "extractedText", func(v string) { o.ExtractedText = v })
		b.text(n, "name", func(v string) { o.LicenseName = v })
		b.text(n, "rdfs:comment", func(v string) { o.LicenseComment = v })
		for _, u := range []string{"http://x.example/a", "https://x.example/b#c"} {
			b.pick(n, "rdfs:seeAlso", literal, func(int) { o.LicenseCrossReferences = append(o.LicenseCrossReferences, u) }, u)
		}
		return n
	})
	b.relationships(b.doc, "DOCUMENT")
	b.annotations(b.doc, "DOCUMENT")
}

// pack describes a package.
func (b *rdfDoc22) pack(name string, files func(*rdf.Node, *spdx.Package)) *rdf.Node {
	p := &spdx.Package{PackageSPDXIdentifier: common.ElementID(name), FilesAnalyzed: true}
	b.want.Packages = append(b.want.Packages, p)
	n := b.node(nsDoc+"SPDXRef-"+name, "Package")
	b.text(n, "name", func(v string) { p.PackageName = v })
	b.text(n, "versionInfo", func(v string) { p.PackageVersion = v })
	b.text(n, "packageFileName", func(v string) { p.PackageFileName = v })
	b.agent(n, "supplier", func(kind, name string) {
		p.PackageSupplier = &common.Supplier{SupplierType: kind, Supplier: name}
	}, "Person", "Organization", "NOASSERTION")
	b.agent(n, "originator", func(kind, name string) {
		p.PackageOriginator = &common.Originator{OriginatorType: kind, Originator: name}
	}, "Person", "Organization", "NOASSERTION")
	b.pick(n, "downloadLocation", literal, func(i int) {
		p.PackageDownloadLocation = []string{"http://x.example/p?a=b", "git+https://x.example/g.git@r1#sub", "NONE", "NOASSERTION"}[i]
	}, "http://x.example/p?a=b", "git+https://x.example/g.git@r1#sub", full("none"), full("noassertion"))
	b.pick(n, "filesAnalyzed", literal, func(i int) { p.IsFilesAnalyzedTagPresent, p.FilesAnalyzed = true, i == 0 }, "true", "false")
	b.part(n, "packageVerificationCode", func() *rdf.Node {
		n := b.node("", "PackageVerificationCode")
		b.text(n, "packageVerificationCodeValue", func(v string) { p.PackageVerificationCode.Value = v })
		b.list(n, "packageVerificationCodeExcludedFile", func(v string) {
			p.PackageVerificationCode.ExcludedFiles = append(p.PackageVerificationCode.ExcludedFiles, v)
		})
		return n
	})
	b.checksum(n, b.child, func(c common.Checksum) { p.PackageChecksums = append(p.PackageChecksums, c) })
	b.pick(n, "doap:homepage", literal, func(int) { p.PackageHomePage = "http://x.example/home" }, "http://x.example/home")
	b.text(n, "sourceInfo", func(v string) { p.PackageSourceInfo = v })
	b.license(n, "licenseConcluded", func(v string) { p.PackageLicenseConcluded = v })
	b.license(n, "licenseInfoFromFiles", func(v string) { p.PackageLicenseInfoFromFiles = append(p.PackageLicenseInfoFromFiles, v) })
	b.license(n, "licenseDeclared", func(v string) { p.PackageLicenseDeclared = v })
	b.text(n, "licenseComments", func(v string) { p.PackageLicenseComments = v })
	b.text(n, "copyrightText", func(v string) { p.PackageCopyrightText = v })
	b.text(n, "summary", func(v string) { p.PackageSummary = v })
	b.text(n, "description", func(v string) { p.PackageDescription = v })
	b.text(n, "rdfs:comment", func(v string) { p.PackageComment = v })
	b.child(n, "externalRef", func() *rdf.Node {
		e := &spdx.PackageExternalReference{}
		p.PackageExternalReferences = append(p.PackageExternalReferences, e)
		n := b.node("", "ExternalRef")
		b.pick(n, "referenceCategory", resource, func(i int) { e.Category = []string{"SECURITY", "PACKAGE-MANAGER", "OTHER"}[i] },
			full("referenceCategory_security"), full("referenceCategory_packageManager"), full("referenceCategory_other"))
		b.text(n, "referenceType", func(v string) { e.RefType = v })
		b.text(n, "referenceLocator", func(v string) { e.Locator = v })
		b.text(n, "rdfs:comment", func(v string) { e.ExternalRefComment = v })
		return n
	})
	b.list(n, "attributionText", func(v string) { p.PackageAttributionTexts = append(p.PackageAttributionTexts, v) })
	files(n, p)
	b.relationships(n, p.PackageSPDXIdentifier)
	b.annotations(n, p.PackageSPDXIdentifier)
	return n
}

// file describes a file.
func (b *rdfDoc22) file(name string, f *spdx.File) *rdf.Node {
	f.FileSPDXIdentifier = common.ElementID(name)
	n := b.node(nsDoc+"SPDXRef-"+name, "File")
	b.text(n, "fileName", func(v string) { f.FileName = v })
	b.pick(n, "fileType", resource, func(i int) { f.FileTypes = append(f.FileTypes, fileTypes[i]) }, fileTypeURIs()...)
	b.checksum(n, b.child, func(c common.Checksum) { f.Checksums = append(f.Checksums, c) })
	b.license(n, "licenseConcluded", func(v string) { f.LicenseConcluded = v })
	b.license(n, "licenseInfoInFile", func(v string) { f.LicenseInfoInFiles = append(f.LicenseInfoInFiles, v) })
	b.text(n, "licenseComments", func(v string) { f.LicenseComments = v })
	b.text(n, "copyrightText", func(v string) { f.FileCopyrightText = v })
	b.text(n, "rdfs:comment", func(v string) { f.FileComment = v })
	b.text(n, "noticeText", func(v string) { f.FileNotice = v })
	b.list(n, "fileContributor", func(v string) { f.FileContributors = append(f.FileContributors, v) })
	b.list(n, "attributionText", func(v string) { f.FileAttributionTexts = append(f.FileAttributionTexts, v) })
	b.child(n, "artifactOf", func() *rdf.Node {
		a := &spdx.ArtifactOfProject{}
		f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
		n := b.node("", "Project")
		b.text(n, "doap:name", func(v string) { a.Name = v })
		b.text(n, "doap:homepage", func(v string) { a.HomePage = v })
		return n
	})
	// a project may be known by its address, described or not
	b.child(n, "artifactOf", func() *rdf.Node {
		a := &spdx.ArtifactOfProject{URI: "http://x.example/project#" + itoa(len(f.ArtifactOfProjects))}
		f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
		n := b.node(a.URI, "Project")
		b.text(n, "doap:name", func(v string) { a.Name = v })
		b.text(n, "doap:homepage", func(v string) { a.HomePage = v })
		return n
	})
	b.pick(n, "artifactOf", resource, func(i int) {
		f.ArtifactOfProjects = append(f.ArtifactOfProjects, &spdx.ArtifactOfProject{URI: "http://x.example/elsewhere" + []string{"", "#other"}[i]})
	}, "http://x.example/elsewhere", "http://x.example/elsewhere#other")
	b.relationships(n, f.FileSPDXIdentifier)
	b.annotations(n, f.FileSPDXIdentifier)
	return n
}

// snippet describes a snippet of a file.
func (b *rdfDoc22) snippet(name string, f *spdx.File) *rdf.Node {
	s := &spdx.Snippet{SnippetSPDXIdentifier: common.ElementID(name), SnippetFromFileSPDXIdentifier: f.FileSPDXIdentifier}
	if f.Snippets == nil {
		f.Snippets = map[common.ElementID]*spdx.Snippet{}
	}
	f.Snippets[s.SnippetSPDXIdentifier] = s
	n := b.node(nsDoc+"SPDXRef-"+name, "Snippet")
	b.put(n, "snippetFromFile", resource(nsDoc+"SPDXRef-"+string(f.FileSPDXIdentifier)))
	b.text(n, "name", func(v string) { s.SnippetName = v })
	b.text(n, "copyrightText", func(v string) { s.SnippetCopyrightText = v })
	b.text(n, "licenseComments", func(v string) { s.SnippetLicenseComments = v })
	b.text(n, "rdfs:comment", func(v string) { s.SnippetComment = v })
	b.license(n, "licenseConcluded", func(v string) { s.SnippetLicenseConcluded = v })
	b.license(n, "licenseInfoInSnippet", func(v string) { s.LicenseInfoInSnippet = append(s.LicenseInfoInSnippet, v) })
	for i, k := range []struct{ typ, pred string }{{"ptr:ByteOffsetPointer", "ptr:offset"}, {"ptr:LineCharPointer", "ptr:lineNumber"}} {
		present, focus := b.next()
		if !present {
			continue
		}
		// numbers beyond the first few are text like any other
		from, to := 10+i, 100+i
		if focus {
			from = sym.Choice("from", 3) * 7
			to = sym.Choice("to", 3) * 9
		}
		r := b.node("", "ptr:StartEndPointer")
		b.put(n, "range", r)
		ends := []string{"ptr:startPointer", "ptr:endPointer"}
		for e, at := range []int{from, to} {
			p := b.node("", k.typ)
			b.put(r, ends[e], p)
			b.put(p, "ptr:reference", resource(nsDoc+"SPDXRef-"+string(f.FileSPDXIdentifier)))
			b.put(p, k.pred, literal(itoa(at)))
		}
		rg := common.SnippetRange{StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: f.FileSPDXIdentifier}, EndPointer: common.SnippetRangePointer{FileSPDXIdentifier: f.FileSPDXIdentifier}}
		if i == 0 {
			rg.StartPointer.Offset, rg.EndPointer.Offset = from, to
		} else {
			rg.StartPointer.LineNumber, rg.EndPointer.LineNumber = from, to
		}
		s.Ranges = append(s.Ranges, rg)
	}
	return n
}

// compareRDF22 says that two documents are the same up to the order of their lists.
func compareRDF22(got, want *spdx.Document) {
	sameBag(&got.CreationInfo.Creators, &want.CreationInfo.Creators, "creators")
	sameBag(&got.ExternalDocumentReferences, &want.ExternalDocumentReferences, "external document references")
	sameBag(&got.Reviews, &want.Reviews, "reviews")
	sameBag(&got.Annotations, &want.Annotations, "annotations")
	sameBag(&got.Relationships, &want.Relationships, "relationships")
	sym.Assert(len(got.OtherLicenses) == len(want.OtherLicenses), "number of extracted licenses")
	for i := range want.OtherLicenses {
		// all of them have the same cross references
		sameBag(&got.OtherLicenses[i].LicenseCrossReferences, &want.OtherLicenses[i].LicenseCrossReferences, "cross references")
	}
	sameBag(&got.OtherLicenses, &want.OtherLicenses, "extracted licenses")
	sym.Assert(len(got.Packages) == len(want.Packages), "number of packages")
	for _, w := range want.Packages {
		var g *spdx.Package
		for _, p := range got.Packages {
			if p.PackageSPDXIdentifier == w.PackageSPDXIdentifier {
				g = p
			}
		}
		sym.Assert(g != nil, "package "+string(w.PackageSPDXIdentifier)+" is there")
		comparePackage22(g, w)
	}
	got.Packages, want.Packages = nil, nil
	compareFiles22(got.Files, want.Files)
	got.Files, want.Files = nil, nil
	eq(got, want, "document")
}

func comparePackage22(g, w *spdx.Package) {
	sameBag(&g.PackageChecksums, &w.PackageChecksums, "package checksums")
	sameBag(&g.PackageLicenseInfoFromFiles, &w.PackageLicenseInfoFromFiles, "package license info from files")
	sameBag(&g.PackageAttributionTexts, &w.PackageAttributionTexts, "package attribution texts")
	sameBag(&g.PackageExternalReferences, &w.PackageExternalReferences, "package external references")
	sameBag(&g.PackageVerificationCode.ExcludedFiles, &w.PackageVerificationCode.ExcludedFiles, "excluded files")
	compareFiles22(g.Files, w.Files)
	g.Files, w.Files = nil, nil
	eq(g, w, "package")
}

func compareFiles22(got, want []*spdx.File) {
	sym.Assert(len(got) == len(want), "number of files")
	for _, w := range want {
		var g *spdx.File
		for _, f := range got {
			if f.FileSPDXIdentifier == w.FileSPDXIdentifier {
				g = f
			}
		}
		sym.Assert(g != nil, "file "+string(w.FileSPDXIdentifier)+" is there")
		sameBag(&g.Checksums, &w.Checksums, "file checksums")
		sameBag(&g.FileTypes, &w.FileTypes, "file types")
		sameBag(&g.LicenseInfoInFiles, &w.LicenseInfoInFiles, "license info in file")
		sameBag(&g.FileContributors, &w.FileContributors, "file contributors")
		sameBag(&g.FileAttributionTexts, &w.FileAttributionTexts, "file attribution texts")
		sameBag(&g.FileDependencies, &w.FileDependencies, "file dependencies")
		sameBag(&g.ArtifactOfProjects, &w.ArtifactOfProjects, "artifact of projects")
		sym.Assert(len(g.Snippets) == len(w.Snippets), "number of snippets")
		for k, ws := range w.Snippets {
			gs := g.Snippets[k]
			sym.Assert(gs != nil, "snippet "+string(k)+" is there")
			sameBag(&gs.LicenseInfoInSnippet, &ws.LicenseInfoInSnippet, "license info in snippet")
			sameBag(&gs.Ranges, &ws.Ranges, "snippet ranges")
			eq(gs, ws, "snippet")
		}
		g.Snippets, w.Snippets = nil, nil
		eq(g, w, "file")
	}
}

func newRDF22() *rdfDoc22 {
	return &rdfDoc22{want: &spdx.Document{CreationInfo: &spdx.CreationInfo{}}}
}

func (b *rdfDoc22) load(order int) {
	got, err := reader.LoadFromGoRDFParser(b.parser(order))
	sym.Assert(err == nil, "the graph is accepted")
	compareRDF22(got, b.want)
	sym.Reach("done")
}

func (b *rdfDoc22) focus(build func()) {
	sym.Witness("done")
	// count the properties
	b.mode, b.at = rdfFocus, -1
	build()
	total := b.n
	*b = *newRDF22()
	b.mode = sym.Choice("mode", rdfModes)
	b.at = sym.Choice("at", total)
	order := sym.Choice("order", 2)
	build()
	b.load(order)
}

// C14_Document22: every property of the document itself arrives.
func C14_Document22() {
	b := newRDF22()
	b.focus(b.head)
}

// C14_Package22: every property of a package arrives.
func C14_Package22() {
	b := newRDF22()
	b.focus(func() {
		b.small()
		b.put(b.doc, "describesPackage", b.pack("p0", func(n *rdf.Node, p *spdx.Package) {
			f := &spdx.File{FileSPDXIdentifier: "f0"}
			p.Files = append(p.Files, f)
			b.put(n, "hasFile", b.node(nsDoc+"SPDXRef-f0", "File"))
		}))
	})
}

// C14_File22: every property of a file arrives.
func C14_File22() {
	b := newRDF22()
	b.focus(func() {
		b.small()
		f := &spdx.File{}
		p := b.node(nsDoc+"SPDXRef-p0", "Package")
		b.put(b.doc, "describesPackage", p)
		b.want.Packages = append(b.want.Packages, &spdx.Package{PackageSPDXIdentifier: "p0", FilesAnalyzed: true, Files: []*spdx.File{f}})
		b.put(p, "hasFile", b.file("f0", f))
	})
}

// C14_Snippet22: every property of a snippet arrives.
func C14_Snippet22() {
	b := newRDF22()
	b.focus(func() {
		b.small()
		f := &spdx.File{}
		p := b.node(nsDoc+"SPDXRef-p0", "Package")
		b.put(b.doc, "describesPackage", p)
		b.want.Packages = append(b.want.Packages, &spdx.Package{PackageSPDXIdentifier: "p0", FilesAnalyzed: true, Files: []*spdx.File{f}})
		n := b.node(nsDoc+"SPDXRef-f0", "File")
		f.FileSPDXIdentifier = "f0"
		b.put(n, "fileName", literal("é name"))
		f.FileName = "é name"
		b.put(p, "hasFile", n)
		b.snippet("s0", f)
	})
}

// small is a document with nothing but a version.
func (b *rdfDoc22) small() {
	b.doc = b.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	b.want.SPDXIdentifier, b.want.DocumentNamespace = "DOCUMENT", nsDoc[:len(nsDoc)-1]
	b.put(b.doc, "specVersion", literal("SPDX-é"))
	b.want.SPDXVersion = "SPDX-é"
}

// C14_Twins22: of two nodes of the same kind both arrive, however alike they are.
func C14_Twins22() {
	sym.Witness("done")
	b := newRDF22()
	b.small()
	want := b.want
	p := &spdx.Package{PackageSPDXIdentifier: "p0", FilesAnalyzed: true}
	f := &spdx.File{FileSPDXIdentifier: "f0"}
	p.Files = append(p.Files, f)
	want.Packages = append(want.Packages, p)
	pn, fn := b.node(nsDoc+"SPDXRef-p0", "Package"), b.node(nsDoc+"SPDXRef-f0", "File")
	b.put(b.doc, "describesPackage", pn)
	b.put(pn, "hasFile", fn)
	var sn *rdf.Node
	var s *spdx.Snippet
	kind := sym.Choice("kind", 10)
	if kind == 9 {
		sn = b.node(nsDoc+"SPDXRef-s0", "Snippet")
		s = &spdx.Snippet{SnippetSPDXIdentifier: "s0", SnippetFromFileSPDXIdentifier: "f0"}
		f.Snippets = map[common.ElementID]*spdx.Snippet{"s0": s}
		b.put(sn, "snippetFromFile", resource(fn.ID))
	}
	var info *rdf.Node
	if kind == 4 {
		info = b.node("", "CreationInfo")
		b.put(b.doc, "creationInfo", info)
	}
	raw := ""
	for _, x := range []string{"x", "y"} {
		v := func(name string) string { return sym.String(name+x, 8) }
		put := func(n *rdf.Node, pred, name string) (t string) {
			t = v(name)
			b.put(n, pred, literal(t))
			return
		}
		subject, sid := b.doc, common.ElementID("DOCUMENT")
		if kind < 2 {
			k := sym.Choice("of"+x, 3)
			subject, sid = []*rdf.Node{b.doc, pn, fn}[k], []common.ElementID{"DOCUMENT", "p0", "f0"}[k]
		}
		switch kind {
		case 0: // annotations
			n := b.node("", "Annotation")
			b.put(subject, "annotation", n)
			b.put(n, "annotator", literal("Tool: é"))
			b.put(n, "annotationType", resource(full("annotationType_other")))
			want.Annotations = append(want.Annotations, &spdx.Annotation{Annotator: common.Annotator{AnnotatorType: "Tool", Annotator: "é"}, AnnotationType: "OTHER",
				AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: sid},
				AnnotationDate:           put(n, "annotationDate", "date"), AnnotationComment: put(n, "rdfs:comment", "comment")})
		case 1: // relationships
			n := b.node("", "Relationship")
			b.put(subject, "relationship", n)
			b.put(n, "relationshipType", resource(full("relationshipType_other")))
			to := []string{"f0", "p0"}[sym.Choice("to"+x, 2)]
			b.put(n, "relatedSpdxElement", resource(nsDoc+"SPDXRef-"+to))
			want.Relationships = append(want.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", string(sid)), RefB: common.MakeDocElementID("", to),
				Relationship: "other", RelationshipComment: put(n, "rdfs:comment", "comment")})
		case 2: // reviews
			n := b.node("", "Review")
			b.put(b.doc, "reviewed", n)
			b.put(n, "reviewer", literal("Person: é"))
			want.Reviews = append(want.Reviews, &spdx.Review{ReviewerType: "Person", Reviewer: "é", ReviewDate: put(n, "reviewDate", "date"), ReviewComment: put(n, "rdfs:comment", "comment")})
		case 3: // extracted licenses
			n := b.node("", "ExtractedLicensingInfo")
			b.put(b.doc, "hasExtractedLicensingInfo", n)
			want.OtherLicenses = append(want.OtherLicenses, &spdx.OtherLicense{LicenseIdentifier: put(n, "licenseId", "id"), ExtractedText: put(n, "extractedText", "text")})
		case 4: // creators
			c := v("creator")
			b.put(info, "creator", literal("Person: "+c))
			// the same statement made twice is one statement
			sym.Assume(x == "x" || c != raw)
			raw = c
			want.CreationInfo.Creators = append(want.CreationInfo.Creators, common.Creator{CreatorType: "Person", Creator: strings.TrimSpace(c)})
		case 5: // external references
			n := b.node("", "ExternalRef")
			b.put(pn, "externalRef", n)
			b.put(n, "referenceCategory", resource(full("referenceCategory_other")))
			p.PackageExternalReferences = append(p.PackageExternalReferences, &spdx.PackageExternalReference{Category: "OTHER", RefType: put(n, "referenceType", "type"), Locator: put(n, "referenceLocator", "locator")})
		case 6: // checksums
			k := sym.Choice("of"+x, 2)
			n := b.node("", "Checksum")
			b.put([]*rdf.Node{pn, fn}[k], "checksum", n)
			b.put(n, "algorithm", resource(full("checksumAlgorithm_sha1")))
			c := common.Checksum{Algorithm: common.SHA1, Value: sym.From("value"+x, alnum, 0, 8)}
			b.put(n, "checksumValue", literal(c.Value))
			if k == 0 {
				p.PackageChecksums = append(p.PackageChecksums, c)
			} else {
				f.Checksums = append(f.Checksums, c)
			}
		case 7: // files
			n := b.node(nsDoc+"SPDXRef-g"+x, "File")
			b.put(pn, "hasFile", n)
			p.Files = append(p.Files, &spdx.File{FileSPDXIdentifier: common.ElementID("g" + x), FileName: put(n, "fileName", "name"), FileComment: put(n, "rdfs:comment", "comment")})
		case 8: // projects
			n := b.node("", "Project")
			b.put(fn, "artifactOf", n)
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, &spdx.ArtifactOfProject{Name: put(n, "doap:name", "name"), HomePage: "http://x.example/"})
			b.put(n, "doap:homepage", literal("http://x.example/"))
		case 9: // ranges
			r := b.node("", "ptr:StartEndPointer")
			b.put(sn, "range", r)
			rg := common.SnippetRange{}
			for i, e := range []string{"ptr:startPointer", "ptr:endPointer"} {
				at := 7 * (i + sym.Choice(e+x, 2))
				q := b.node("", "ptr:ByteOffsetPointer")
				b.put(r, e, q)
				b.put(q, "ptr:reference", resource(fn.ID))
				b.put(q, "ptr:offset", literal(itoa(at)))
				*[]*common.SnippetRangePointer{&rg.StartPointer, &rg.EndPointer}[i] = common.SnippetRangePointer{FileSPDXIdentifier: "f0", Offset: at}
			}
			s.Ranges = append(s.Ranges, rg)
		}
	}
	b.load(sym.Choice("order", 2))
}

// C14_Sharing22: elements that are referred to several times, by description
// or by reference, in any order, are in the document once with all they have.
func C14_Sharing22() {
	sym.Witness("done")
	b := newRDF22()
	b.small()
	want := b.want
	node := func(name, typ string) *rdf.Node { return b.node(nsDoc+"SPDXRef-"+name, typ) }
	p0, p1, f0, f1, s0 := node("p0", "Package"), node("p1", "Package"), node("f0", "File"), node("f1", "File"), node("s0", "Snippet")
	ref := func(n *rdf.Node, kind int) *rdf.Node {
		if kind == 0 {
			return n
		}
		return resource(n.ID)
	}
	refer := func(name string, n *rdf.Node) *rdf.Node { return ref(n, sym.Choice(name, 2)) }

	wp0 := &spdx.Package{PackageSPDXIdentifier: "p0", FilesAnalyzed: true, PackageName: "é p0", PackageAttributionTexts: []string{"é a"}}
	wp1 := &spdx.Package{PackageSPDXIdentifier: "p1", FilesAnalyzed: true, PackageName: "é p1", PackageLicenseInfoFromFiles: []string{"MIT"}}
	wf0 := &spdx.File{FileSPDXIdentifier: "f0", FileName: "é f0", FileContributors: []string{"é c"}}
	wf1 := &spdx.File{FileSPDXIdentifier: "f1", FileName: "é f1", FileAttributionTexts: []string{"é t"}}
	ws0 := &spdx.Snippet{SnippetSPDXIdentifier: "s0", SnippetFromFileSPDXIdentifier: "f0", SnippetName: "é s0"}
	want.Packages = []*spdx.Package{wp0, wp1}
	wf0.Snippets = map[common.ElementID]*spdx.Snippet{"s0": ws0}

	b.put(b.doc, "describesPackage", refer("package", p0))
	b.put(p0, "name", literal("é p0"))
	b.put(p0, "attributionText", literal("é a"))
	b.put(p1, "name", literal("é p1"))
	b.put(p1, "licenseInfoFromFiles", resource(nsLIC+"MIT"))
	b.put(f0, "fileName", literal("é f0"))
	b.put(f0, "fileContributor", literal("é c"))
	b.put(f1, "fileName", literal("é f1"))
	b.put(f1, "attributionText", literal("é t"))
	snippetFile := refer("snippet file", f0)
	b.put(s0, "snippetFromFile", snippetFile)
	b.put(s0, "name", literal("é s0"))

	// files of packages, or of none
	inPackage := map[*spdx.File]bool{}
	has := func(p *rdf.Node, wp *spdx.Package, f *rdf.Node, wf *spdx.File, name string) {
		if k := sym.Choice(name, 3); k < 2 {
			b.put(p, "hasFile", ref(f, k))
			wp.Files = append(wp.Files, wf)
			inPackage[wf] = true
		}
	}
	has(p0, wp0, f0, wf0, "f0 in p0")
	has(p0, wp0, f1, wf1, "f1 in p0")
	has(p1, wp1, f0, wf0, "f0 in p1")
	if sym.Choice("dependency", 2) == 1 {
		b.put(f1, "fileDependency", refer("dependency kind", f0))
		wf1.FileDependencies = []string{"f0"}
	}
	for _, f := range []*spdx.File{wf0, wf1} {
		if !inPackage[f] {
			want.Files = append(want.Files, f)
		}
	}
	// relationships between them
	relate := func(from *rdf.Node, id common.ElementID, to []*rdf.Node, name string) {
		k := sym.Choice(name, len(to)+1)
		n := b.node("", "Relationship")
		o := resource(b.doc.ID)
		about := common.ElementID("DOCUMENT")
		if k < len(to) {
			o = refer(name+" kind", to[k])
			// a snippet and its file inside of each other only are in no document
			sym.Assume(!(from == f0 && o == s0 && snippetFile == f0))
			about = common.ElementID(to[k].ID[len(nsDoc+"SPDXRef-"):])
		}
		b.put(from, "relationship", n)
		b.put(n, "relationshipType", resource(full("relationshipType_contains")))
		b.put(n, "relatedSpdxElement", o)
		want.Relationships = append(want.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", string(id)), RefB: common.MakeDocElementID("", string(about)), Relationship: "contains"})
	}
	relate(b.doc, "DOCUMENT", []*rdf.Node{p0, p1, f0, f1, s0}, "document with")
	if sym.Thorough() {
		relate(f0, "f0", []*rdf.Node{p0, f0, f1, s0}, "file with")
	} else {
		relate(f0, "f0", []*rdf.Node{p0, s0}, "file with")
	}
	b.load(sym.Choice("order", 2))
}

// C14_Many22: of many nodes of a kind all arrive; one of them has any text.
func C14_Many22() {
	sym.Witness("done")
	b := newRDF22()
	b.small()
	want := b.want
	p := &spdx.Package{PackageSPDXIdentifier: "p0", FilesAnalyzed: true}
	f := &spdx.File{FileSPDXIdentifier: "f0"}
	p.Files = append(p.Files, f)
	want.Packages = append(want.Packages, p)
	pn, fn := b.node(nsDoc+"SPDXRef-p0", "Package"), b.node(nsDoc+"SPDXRef-f0", "File")
	b.put(b.doc, "describesPackage", pn)
	b.put(pn, "hasFile", fn)
	kind := sym.Choice("kind", 22)
	n, odd := many(5, 12, 130)
	info := b.node("", "CreationInfo")
	b.put(b.doc, "creationInfo", info)
	var code, lic, snip *rdf.Node
	var s *spdx.Snippet
	o := &spdx.OtherLicense{LicenseIdentifier: "LicenseRef-1", ExtractedText: "é"}
	switch kind {
	case 5: // cross references
		lic = b.node("", "ExtractedLicensingInfo")
		b.put(b.doc, "hasExtractedLicensingInfo", lic)
		b.put(lic, "licenseId", literal("LicenseRef-1"))
		b.put(lic, "extractedText", literal("é"))
		want.OtherLicenses = append(want.OtherLicenses, o)
	case 9: // excluded files
		code = b.node("", "PackageVerificationCode")
		b.put(pn, "packageVerificationCode", code)
	case 18, 19: // ranges and licenses of a snippet
		snip = b.node(nsDoc+"SPDXRef-s", "Snippet")
		s = &spdx.Snippet{SnippetSPDXIdentifier: "s", SnippetFromFileSPDXIdentifier: "f0"}
		f.Snippets = map[common.ElementID]*spdx.Snippet{"s": s}
		b.put(snip, "snippetFromFile", resource(fn.ID))
	}
	last, lastID := pn, common.ElementID("p0")
	for i := 0; i < n; i++ {
		i := i
		text := func() string {
			if i == odd {
				return sym.String("v", 10)
			}
			return "é " + num(i*7%n)
		}
		put := func(n *rdf.Node, pred string) (t string) {
			t = text()
			b.put(n, pred, literal(t))
			return
		}
		name := num(i * 7 % n)
		if i == odd && kind != 20 && kind != 21 {
			// names are sorted: this one is before or after all others
			name = []string{"", "z"}[sym.Choice("place", 2)] + name
		}
		eid := common.ElementID("e" + name)
		switch kind {
		case 0: // packages
			n := b.node(nsDoc+"SPDXRef-"+string(eid), "Package")
			b.put(b.doc, "describesPackage", n)
			want.Packages = append(want.Packages, &spdx.Package{PackageSPDXIdentifier: eid, FilesAnalyzed: true, PackageName: put(n, "name")})
		case 1: // files of the package
			n := b.node(nsDoc+"SPDXRef-"+string(eid), "File")
			b.put(pn, "hasFile", n)
			p.Files = append(p.Files, &spdx.File{FileSPDXIdentifier: eid, FileName: put(n, "fileName")})
		case 2: // files of no package
			n := b.node(nsDoc+"SPDXRef-"+string(eid), "File")
			want.Files = append(want.Files, &spdx.File{FileSPDXIdentifier: eid, FileName: put(n, "fileName")})
		case 3: // snippets
			n := b.node(nsDoc+"SPDXRef-"+string(eid), "Snippet")
			b.put(n, "snippetFromFile", resource(fn.ID))
			if f.Snippets == nil {
				f.Snippets = map[common.ElementID]*spdx.Snippet{}
			}
			f.Snippets[eid] = &spdx.Snippet{SnippetSPDXIdentifier: eid, SnippetFromFileSPDXIdentifier: "f0", SnippetName: put(n, "name")}
		case 4: // extracted licenses
			n := b.node("", "ExtractedLicensingInfo")
			b.put(b.doc, "hasExtractedLicensingInfo", n)
			b.put(n, "licenseId", literal("LicenseRef-"+name))
			want.OtherLicenses = append(want.OtherLicenses, &spdx.OtherLicense{LicenseIdentifier: "LicenseRef-" + name, ExtractedText: put(n, "extractedText")})
		case 5:
			u := "http://x.example/" + name
			b.put(lic, "rdfs:seeAlso", literal(u))
			o.LicenseCrossReferences = append(o.LicenseCrossReferences, u)
		case 6: // annotations
			n := b.node("", "Annotation")
			k := i % 3
			b.put([]*rdf.Node{b.doc, pn, fn}[k], "annotation", n)
			b.put(n, "annotator", literal("Tool: é"))
			b.put(n, "annotationType", resource(full("annotationType_other")))
			want.Annotations = append(want.Annotations, &spdx.Annotation{Annotator: common.Annotator{AnnotatorType: "Tool", Annotator: "é"}, AnnotationType: "OTHER",
				AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: []common.ElementID{"DOCUMENT", "p0", "f0"}[k]}, AnnotationComment: put(n, "rdfs:comment")})
		case 7: // relationships
			n := b.node("", "Relationship")
			k := i % 3
			b.put([]*rdf.Node{b.doc, pn, fn}[k], "relationship", n)
			b.put(n, "relationshipType", resource(full("relationshipType_other")))
			b.put(n, "relatedSpdxElement", resource(nsDoc+"SPDXRef-f0"))
			want.Relationships = append(want.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", []string{"DOCUMENT", "p0", "f0"}[k]), RefB: common.MakeDocElementID("", "f0"),
				Relationship: "other", RelationshipComment: put(n, "rdfs:comment")})
		case 8: // external document references
			n := b.node("", "ExternalDocumentRef")
			b.put(b.doc, "externalDocumentRef", n)
			b.put(n, "externalDocumentId", literal("DocumentRef-"+name))
			want.ExternalDocumentReferences = append(want.ExternalDocumentReferences, spdx.ExternalDocumentRef{DocumentRefID: common.DocumentID(name), URI: put(n, "spdxDocument")})
		case 9:
			p.PackageVerificationCode.ExcludedFiles = append(p.PackageVerificationCode.ExcludedFiles, put(code, "packageVerificationCodeExcludedFile"))
		case 10, 11: // checksums
			c := common.Checksum{Algorithm: common.SHA1, Value: name}
			n := b.node("", "Checksum")
			b.put(n, "algorithm", resource(full("checksumAlgorithm_sha1")))
			b.put(n, "checksumValue", literal(name))
			if kind == 10 {
				b.put(pn, "checksum", n)
				p.PackageChecksums = append(p.PackageChecksums, c)
			} else {
				b.put(fn, "checksum", n)
				f.Checksums = append(f.Checksums, c)
			}
		case 12: // external references
			n := b.node("", "ExternalRef")
			b.put(pn, "externalRef", n)
			b.put(n, "referenceCategory", resource(full("referenceCategory_other")))
			p.PackageExternalReferences = append(p.PackageExternalReferences, &spdx.PackageExternalReference{Category: "OTHER", Locator: put(n, "referenceLocator")})
		case 13: // licenses from files
			b.put(pn, "licenseInfoFromFiles", resource(nsDoc+"LicenseRef-"+name))
			n := b.node(nsDoc+"LicenseRef-"+name, "ExtractedLicensingInfo")
			b.put(n, "licenseId", literal("LicenseRef-"+name))
			p.PackageLicenseInfoFromFiles = append(p.PackageLicenseInfoFromFiles, "LicenseRef-"+name)
		case 14: // licenses in a file
			b.put(fn, "licenseInfoInFile", resource(nsDoc+"LicenseRef-"+name))
			n := b.node(nsDoc+"LicenseRef-"+name, "ExtractedLicensingInfo")
			b.put(n, "licenseId", literal("LicenseRef-"+name))
			f.LicenseInfoInFiles = append(f.LicenseInfoInFiles, "LicenseRef-"+name)
		case 15: // contributors
			f.FileContributors = append(f.FileContributors, put(fn, "fileContributor"))
		case 16: // attribution texts
			if i%2 == 0 {
				p.PackageAttributionTexts = append(p.PackageAttributionTexts, put(pn, "attributionText"))
			} else {
				f.FileAttributionTexts = append(f.FileAttributionTexts, put(fn, "attributionText"))
			}
		case 17: // projects
			n := b.node("", "Project")
			b.put(fn, "artifactOf", n)
			b.put(n, "doap:homepage", literal("http://x.example/"))
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, &spdx.ArtifactOfProject{Name: put(n, "doap:name"), HomePage: "http://x.example/"})
		case 18:
			r := b.node("", "ptr:StartEndPointer")
			b.put(snip, "range", r)
			rg := common.SnippetRange{}
			for j, e := range []string{"ptr:startPointer", "ptr:endPointer"} {
				at := 10*i + j
				q := b.node("", "ptr:ByteOffsetPointer")
				b.put(r, e, q)
				b.put(q, "ptr:reference", resource(fn.ID))
				b.put(q, "ptr:offset", literal(itoa(at)))
				*[]*common.SnippetRangePointer{&rg.StartPointer, &rg.EndPointer}[j] = common.SnippetRangePointer{FileSPDXIdentifier: "f0", Offset: at}
			}
			s.Ranges = append(s.Ranges, rg)
		case 19:
			b.put(snip, "licenseInfoInSnippet", resource(nsDoc+"LicenseRef-"+name))
			n := b.node(nsDoc+"LicenseRef-"+name, "ExtractedLicensingInfo")
			b.put(n, "licenseId", literal("LicenseRef-"+name))
			s.LicenseInfoInSnippet = append(s.LicenseInfoInSnippet, "LicenseRef-"+name)
		case 20: // packages described by one another's relationships
			n, r := b.node(nsDoc+"SPDXRef-"+string(eid), "Package"), b.node("", "Relationship")
			b.put(last, "relationship", r)
			b.put(r, "relationshipType", resource(full("relationshipType_dependsOn")))
			b.put(r, "relatedSpdxElement", n)
			want.Packages = append(want.Packages, &spdx.Package{PackageSPDXIdentifier: eid, FilesAnalyzed: true, PackageName: put(n, "name")})
			want.Relationships = append(want.Relationships, &spdx.Relationship{RefA: common.MakeDocElementID("", string(lastID)), RefB: common.MakeDocElementID("", string(eid)), Relationship: "dependsOn"})
			last, lastID = n, eid
		case 21: // creators
			v := "é " + name
			if i == odd {
				v = sym.From("v", alnum, 1, 10)
			}
			b.put(info, "creator", literal("Person: "+v))
			want.CreationInfo.Creators = append(want.CreationInfo.Creators, common.Creator{CreatorType: "Person", Creator: v})
		}
	}
	b.load(sym.Choice("order", 2))
}
