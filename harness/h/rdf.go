package h

import (
	"strings"

	rdf "github.com/spdx/gordf/rdfloader/parser"

	"verifharness/sym"
)

const (
	nsSPDX = "http://spdx.org/rdf/terms#"
	nsRDF  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	nsRDFS = "http://www.w3.org/2000/01/rdf-schema#"
	nsPTR  = "http://www.w3.org/2009/pointers#"
	nsDOAP = "http://usefulinc.com/ns/doap#"
	nsLIC  = "http://spdx.org/licenses/"
	nsDoc  = "http://x.example/d#"
)

// graph collects the triples of an RDF document as gordf delivers them: nodes
// with a body are IRI or blank nodes, rdf:resource attributes are RESOURCE
// nodes, text is a LITERAL node.
type graph struct {
	t     []*rdf.Triple
	blank int
}

func full(name string) string {
	for _, p := range []struct{ short, ns string }{{"rdf:", nsRDF}, {"rdfs:", nsRDFS}, {"ptr:", nsPTR}, {"doap:", nsDOAP}} {
		if strings.HasPrefix(name, p.short) {
			return p.ns + name[len(p.short):]
		}
	}
	return nsSPDX + name
}

func iri(id string) *rdf.Node      { return &rdf.Node{NodeType: rdf.IRI, ID: id} }
func resource(id string) *rdf.Node { return &rdf.Node{NodeType: rdf.RESOURCELITERAL, ID: id} }
func literal(v string) *rdf.Node   { return &rdf.Node{NodeType: rdf.LITERAL, ID: v} }

func (g *graph) put(s *rdf.Node, pred string, o *rdf.Node) {
	g.t = append(g.t, &rdf.Triple{Subject: s, Predicate: iri(full(pred)), Object: o})
}

// node declares a node of the given type; without id it is a blank node.
func (g *graph) node(id, typ string) *rdf.Node {
	n := iri(id)
	if id == "" {
		n = &rdf.Node{NodeType: rdf.BLANK, ID: "N" + itoa(g.blank)}
		g.blank++
	}
	g.put(n, "rdf:type", iri(full(typ)))
	return n
}

// parser puts the triples in one of the orders.
func (g *graph) parser(order int) *rdf.Parser {
	var t []*rdf.Triple
	for i := range g.t {
		switch order {
		case 0:
			t = append(t, g.t[i])
		case 1:
			t = append(t, g.t[len(g.t)-1-i])
		case 2:
			t = append(t, g.t[(i+len(g.t)/2)%len(g.t)])
		}
	}
	return &rdf.Parser{Triples: t}
}

// rdfb builds a graph and lets one of its literals be arbitrary, missing,
// alone or doubled.
type rdfb struct {
	graph
	mode, at, n int
}

const (
	rdfFocus  = iota // one literal is arbitrary
	rdfAbsent        // one property is missing
	rdfOnly          // one property is alone
	rdfTwice         // a property that may be repeated appears twice
	rdfModes
	rdfPairs // every property that may be repeated appears twice
)

// has says whether the next property is part of the graph and whether it is the one looked at.
func (b *rdfb) next() (present, focus bool) {
	k := b.n
	b.n++
	focus = k == b.at
	switch b.mode {
	case rdfAbsent:
		return !focus, false
	case rdfOnly:
		return focus, focus
	}
	return true, focus
}

// text puts a property whose value is any text.
func (b *rdfb) text(s *rdf.Node, pred string, set func(string)) {
	b.value(s, pred, "", func(n string) string { return sym.String(n, 12) }, set)
}

// value puts a property whose value is prefix+v, v being any text of the class.
func (b *rdfb) value(s *rdf.Node, pred, prefix string, class func(name string) string, set func(string)) {
	present, focus := b.next()
	if !present {
		return
	}
	v := "é " + pred + itoa(b.n)
	if focus {
		v = class("v")
	}
	b.put(s, pred, literal(prefix+v))
	set(v)
}

// agent puts a person, organization or tool with any name.
func (b *rdfb) agent(s *rdf.Node, pred string, set func(kind, name string), kinds ...string) {
	present, focus := b.next()
	if !present {
		return
	}
	kind, name := kinds[0], "é somebody"+itoa(b.n)
	if focus {
		kind = kinds[sym.Choice("k", len(kinds))]
		name = sym.String("name", 12)
	}
	if kind == "NOASSERTION" {
		b.put(s, pred, literal(kind))
		set("", kind)
		return
	}
	b.put(s, pred, literal(kind+": "+name))
	// white space around a name is not part of it
	set(kind, strings.TrimSpace(name))
}

// list puts a property that may be repeated.
func (b *rdfb) list(s *rdf.Node, pred string, add func(string)) {
	present, focus := b.next()
	if !present {
		return
	}
	v := "é " + pred + itoa(b.n)
	if focus {
		v = sym.String("v", 12)
	}
	b.put(s, pred, literal(v))
	add(v)
	if b.mode == rdfPairs {
		b.put(s, pred, literal(v+"."))
		add(v + ".")
	}
	if focus && b.mode == rdfTwice {
		w := sym.String("w", 12)
		sym.Assume(w != v)
		b.put(s, pred, literal(w))
		add(w)
	}
}

// pick puts a property whose value is one of a few.
func (b *rdfb) pick(s *rdf.Node, pred string, obj func(string) *rdf.Node, set func(i int), values ...string) {
	present, focus := b.next()
	if !present {
		return
	}
	k := 0
	if focus {
		k = sym.Choice("k", len(values))
	}
	b.put(s, pred, obj(values[k]))
	set(k)
}

// child puts a property whose value is a node of its own, possibly twice.
func (b *rdfb) child(s *rdf.Node, pred string, build func() *rdf.Node) {
	present, focus := b.next()
	if !present && b.mode == rdfAbsent {
		return
	}
	b.put(s, pred, build())
	if focus && b.mode == rdfTwice || b.mode == rdfPairs {
		b.put(s, pred, build())
	}
}

// part puts a property whose value is a node of its own and that cannot be repeated.
func (b *rdfb) part(s *rdf.Node, pred string, build func() *rdf.Node) {
	present, _ := b.next()
	if present || b.mode != rdfAbsent {
		b.put(s, pred, build())
	}
}

// bag says that two lists hold the same elements.
func bag[T any](got, want []T) bool {
	if len(got) != len(want) {
		return false
	}
	if len(got) > 3 {
		// mostly known and different values: each is matched with its like
		rest := append([]T(nil), want...)
		for _, g := range got {
			at := -1
			for i := range rest {
				if sym.Equal(g, rest[i]) {
					at = i
					break
				}
			}
			if at < 0 {
				return false
			}
			rest = append(rest[:at], rest[at+1:]...)
		}
		return true
	}
	orders := [][][]int{{{}}, {{0}}, {{0, 1}, {1, 0}}, {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}}[len(got)]
	ok := false
	for _, o := range orders {
		var w []T
		for _, i := range o {
			w = append(w, want[i])
		}
		ok = sym.Or(ok, sym.Equal(got, w))
	}
	return ok
}

func sameBag[T any](got, want *[]T, what string) {
	sym.Assert(bag(*got, *want), what)
	*got, *want = nil, nil
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// the purposes of a package and their names in RDF
var purposes = []string{"APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE", "FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER"}

func purposeURIs() []string {
	var u []string
	for _, p := range purposes {
		u = append(u, full("purpose_"+strings.ToLower(strings.ReplaceAll(p, "-", "_"))))
	}
	return u
}

// the types of a file, which have the same names in RDF
var fileTypes = []string{"text", "source", "other", "documentation", "image", "video", "archive", "spdx", "application", "binary", "audio"}

func fileTypeURIs() []string {
	var u []string
	for _, t := range fileTypes {
		u = append(u, full("fileType_"+t))
	}
	return u
}

// licenses builds license nodes and knows what expressions they denote.
type licenses struct {
	g *graph
	n int
	// style of the top-level references
	known string
}

// leaf is a license without members; it gives its node and its name.
func (l *licenses) leaf(kinds int) (*rdf.Node, string) {
	l.n++
	name := "n" + itoa(l.n)
	k := sym.Choice("leaf", kinds)
	switch k {
	case 0: // extracted license, described in place
		n := l.g.node("", "ExtractedLicensingInfo")
		v := "LicenseRef-" + id(name, 8)
		l.g.put(n, "licenseId", literal(v))
		l.g.put(n, "extractedText", literal("é"))
		return n, v
	case 1: // listed license, by reference
		return resource(nsLIC + "MIT"), "MIT"
	case 2: // listed license, described in place
		v := id(name, 8)
		n := l.g.node(nsLIC+name, "ListedLicense")
		l.g.put(n, "isOsiApproved", literal("true"))
		l.g.put(n, "licenseId", literal(v))
		l.g.put(n, "name", literal("é"))
		return n, v
	case 3: // simple license
		n := l.g.node("", "SimpleLicensingInfo")
		v := id(name, 8)
		l.g.put(n, "name", literal("é"))
		l.g.put(n, "licenseId", literal(v))
		return n, v
	case 4:
		v := id(name, 8)
		n := l.g.node("", "License")
		l.g.put(n, "licenseText", literal("é"))
		l.g.put(n, "licenseId", literal(v))
		return n, v
	case 5: // extracted license described elsewhere
		v := "LicenseRef-" + id(name, 8)
		n := l.g.node(nsDoc+"LicenseRef-"+name, "ExtractedLicensingInfo")
		l.g.put(n, "licenseId", literal(v))
		return resource(n.ID), v
	case 6:
		return resource(full("none")), "NONE"
	}
	return resource(full("noassertion")), "NOASSERTION"
}

// license is any license node down to a nesting depth: the node and every
// text that stands for it, and those with the + of or-later left out. kind
// says whether it may be an operand without parentheses of AND ("and") or OR
// ("or").
func (l *licenses) license(depth, leaves int) (n *rdf.Node, texts, plain []string, kind string) {
	k := 0
	if depth > 0 {
		k = sym.Choice("kind", 6)
	}
	switch k {
	case 0:
		n, t := l.leaf(leaves)
		return n, []string{t}, []string{t}, "leaf"
	case 1, 2:
		typ, op, kind := "ConjunctiveLicenseSet", " AND ", "and"
		if k == 2 {
			typ, op, kind = "DisjunctiveLicenseSet", " OR ", "or"
		}
		id := ""
		ref := depth == 2 && sym.Choice("elsewhere", 2) == 1
		if ref {
			id = nsDoc + "set" + itoa(l.n)
		}
		l.n++
		n := l.g.node(id, typ)
		var parts, plainParts [][]string
		// one member nested deeper, the others leaves, on either side
		members := 2 + sym.Choice("more", 2)
		deep := 0
		if depth > 1 {
			deep = sym.Choice("deep", members)
		}
		for i := 0; i < members; i++ {
			d := 0
			if i == deep {
				d = depth - 1
			}
			lv := 1
			if i == deep {
				lv = leaves
			}
			m, t, pl, mk := l.license(d, lv)
			l.g.put(n, "member", m)
			operand := func(t []string) (ts []string) {
				for _, x := range t {
					// AND binds tighter than OR, both are associative
					if kind == mk || mk == "leaf" || kind == "or" && mk == "and" {
						ts = append(ts, x)
					}
					if mk != "leaf" {
						ts = append(ts, "("+x+")")
					}
				}
				return
			}
			parts, plainParts = append(parts, operand(t)), append(plainParts, operand(pl))
		}
		if ref {
			n = resource(id)
		}
		return n, joins(parts, op), joins(plainParts, op), kind
	case 3, 4: // with an exception
		l.n++
		n := l.g.node("", "WithExceptionOperator")
		order := sym.Choice("exception first", 2)
		var e *rdf.Node
		exc := "Classpath-exception-2.0"
		if k == 3 {
			e = l.g.node("", "LicenseException")
			exc = id("e"+itoa(l.n), 8)
			l.g.put(e, "licenseExceptionId", literal(exc))
			l.g.put(e, "licenseExceptionText", literal("é"))
			if order == 1 {
				for _, pred := range []string{"name", "example", "rdfs:comment", "rdfs:seeAlso"} {
					l.g.put(e, pred, literal("http://x.example/é"))
				}
			}
		} else {
			e = resource(nsLIC + exc)
		}
		put := func() { l.g.put(n, "licenseException", e) }
		if order == 1 {
			put()
		}
		m, t := l.leaf(6)
		l.g.put(n, "member", m)
		if order == 0 {
			put()
		}
		t += " WITH " + exc
		return n, []string{t}, []string{t}, "leaf"
	}
	l.n++
	n = l.g.node("", "OrLaterOperator")
	m, t := l.leaf(6)
	l.g.put(n, "member", m)
	l.known = "or-later"
	return n, []string{t + "+"}, []string{t}, "leaf"
}

// joins gives the parts joined in every order.
func joins(parts [][]string, op string) []string {
	if len(parts) == 0 {
		return []string{""}
	}
	var out []string
	for i, p := range parts {
		rest := append(append([][]string(nil), parts[:i]...), parts[i+1:]...)
		for _, r := range joins(rest, op) {
			for _, x := range p {
				if len(rest) == 0 {
					out = append(out, x)
				} else {
					out = append(out, x+op+r)
				}
			}
		}
	}
	return out
}

func oneOf(s string, texts []string) bool {
	ok := false
	for _, t := range texts {
		ok = sym.Or(ok, sym.Eq(s, t))
	}
	return ok
}

// broken is a small graph with one node of every kind.
type broken struct {
	graph
	nodes [nKinds]*rdf.Node // nil where the graph has no such node
	have  []int             // the nodes it has
}

// put leaves out what belongs to a node the graph does not have.
func (b *broken) put(s *rdf.Node, pred string, o *rdf.Node) {
	if s != nil && o != nil {
		b.graph.put(s, pred, o)
	}
}

var rdfKinds = []string{"SpdxDocument", "Package", "File", "Snippet", "Relationship", "ConjunctiveLicenseSet", "DisjunctiveLicenseSet",
	"WithExceptionOperator", "OrLaterOperator", "ExtractedLicensingInfo", "Annotation", "Checksum", "ptr:StartEndPointer", "ptr:ByteOffsetPointer",
	"CreationInfo", "Review", "ExternalDocumentRef", "PackageVerificationCode", "ExternalRef", "Project", "LicenseException"}

const (
	nDoc = iota
	nPkg
	nFile
	nSnip
	nRel
	nAnd
	nOr
	nWith
	nLater
	nLic
	nAnn
	nSum
	nRange
	nPtr
	nInfo
	nReview
	nDocRef
	nCode
	nRef
	nProject
	nExc
	nKinds
)

// the parts of a document that are looked at together
var rdfAreas = [][]int{
	{nDoc, nInfo, nReview, nDocRef, nSum, nAnn, nLic},
	{nDoc, nPkg, nFile, nRel, nSum, nCode, nRef},
	{nDoc, nPkg, nFile, nSum, nProject, nLic, nAnn},
	{nDoc, nPkg, nFile, nSnip, nRange, nPtr},
	{nDoc, nPkg, nAnd, nOr, nWith, nLater, nLic, nExc},
}

func brokenGraph() *broken {
	b := &broken{have: rdfAreas[sym.Choice("area", len(rdfAreas))]}
	for _, i := range b.have {
		id := ""
		switch i {
		case nDoc:
			id = nsDoc + "SPDXRef-DOCUMENT"
		case nPkg:
			id = nsDoc + "SPDXRef-p0"
		case nFile:
			id = nsDoc + "SPDXRef-f0"
		case nSnip:
			id = nsDoc + "SPDXRef-s0"
		}
		b.nodes[i] = b.node(id, rdfKinds[i])
	}
	n := &b.nodes
	b.put(n[nDoc], "specVersion", literal("é"))
	b.put(n[nDoc], "describesPackage", n[nPkg])
	b.put(n[nDoc], "relationship", n[nRel])
	b.put(n[nDoc], "dataLicense", resource(nsLIC+"CC0-1.0"))
	b.put(n[nDoc], "creationInfo", n[nInfo])
	b.put(n[nInfo], "creator", literal("Person: é"))
	b.put(n[nDoc], "externalDocumentRef", n[nDocRef])
	b.put(n[nDocRef], "externalDocumentId", literal("DocumentRef-é"))
	b.put(n[nDocRef], "checksum", n[nSum])
	b.put(n[nDoc], "reviewed", n[nReview])
	b.put(n[nReview], "reviewer", literal("Person: é"))
	b.put(n[nDoc], "annotation", n[nAnn])
	b.put(n[nAnn], "annotator", literal("Person: é"))
	b.put(n[nAnn], "annotationType", resource(full("annotationType_other")))
	b.put(n[nSum], "algorithm", resource(full("checksumAlgorithm_sha1")))
	b.put(n[nSum], "checksumValue", literal("é"))
	b.put(n[nRel], "relationshipType", resource(full("relationshipType_contains")))
	b.put(n[nRel], "relatedSpdxElement", n[nFile])
	b.put(n[nPkg], "hasFile", n[nFile])
	b.put(n[nPkg], "licenseConcluded", n[nAnd])
	b.put(n[nPkg], "licenseDeclared", n[nWith])
	b.put(n[nPkg], "supplier", literal("Person: é"))
	b.put(n[nPkg], "filesAnalyzed", literal("true"))
	b.put(n[nPkg], "packageVerificationCode", n[nCode])
	b.put(n[nCode], "packageVerificationCodeValue", literal("é"))
	b.put(n[nPkg], "externalRef", n[nRef])
	b.put(n[nRef], "referenceCategory", resource(full("referenceCategory_other")))
	b.put(n[nAnd], "member", n[nOr])
	b.put(n[nAnd], "member", n[nLic])
	b.put(n[nOr], "member", n[nLater])
	b.put(n[nOr], "member", resource(nsLIC+"MIT"))
	b.put(n[nLater], "member", n[nLic])
	b.put(n[nWith], "member", n[nLic])
	b.put(n[nWith], "licenseException", n[nExc])
	b.put(n[nExc], "licenseExceptionId", literal("é"))
	b.put(n[nLic], "licenseId", literal("LicenseRef-é"))
	b.put(n[nFile], "checksum", n[nSum])
	b.put(n[nFile], "licenseInfoInFile", n[nLic])
	b.put(n[nFile], "artifactOf", n[nProject])
	b.put(n[nProject], "doap:name", literal("é"))
	b.put(n[nFile], "fileType", resource(full("fileType_text")))
	b.put(n[nSnip], "snippetFromFile", n[nFile])
	b.put(n[nSnip], "range", n[nRange])
	b.put(n[nRange], "ptr:startPointer", n[nPtr])
	b.put(n[nRange], "ptr:endPointer", n[nPtr])
	b.put(n[nPtr], "ptr:offset", literal("7"))
	b.put(n[nPtr], "ptr:reference", resource(nsDoc+"SPDXRef-f0"))
	return b
}

// any is any node of the graph.
func (b *broken) any(name string) *rdf.Node {
	return b.nodes[b.have[sym.Choice(name, len(b.have))]]
}

// links are the properties that lead from one node to another.
func (b *broken) links() (out []rdfLink) {
	for _, l := range rdfLinks {
		if b.nodes[l.from] != nil {
			out = append(out, l)
		}
	}
	return
}

// refSet holds the characters that matter in names; no listed license is made of them
const refSet = "q#/:- \t\n_@7"

// object is anything a triple may point to.
func (b *broken) object(name string) *rdf.Node {
	k := sym.Choice(name, len(b.have)+7)
	if k < len(b.have) {
		return b.nodes[b.have[k]]
	}
	switch k - len(b.have) {
	case 0:
		if sym.Thorough() {
			return literal(sym.From("text", "q#/:-7", 0, 6))
		}
		return literal("é") // see TextVN for other texts
	case 1:
		return resource(nsDoc + "SPDXRef-f0")
	case 2:
		return resource(nsDoc + "SPDXRef-p0")
	case 3:
		return resource(full("none"))
	case 4:
		return resource(nsDoc + "unknown")
	case 5:
		return iri(nsDoc + "SPDXRef-new")
	}
	return iri(full(rdfKinds[sym.Choice("class", len(rdfKinds))]))
}

var rdfPredicates = []string{"rdf:type", "rdfs:comment", "rdfs:seeAlso", "doap:homepage", "doap:name", "ptr:startPointer", "ptr:endPointer", "ptr:reference",
	"ptr:offset", "ptr:lineNumber", "specVersion", "dataLicense", "name", "externalDocumentRef", "licenseListVersion", "creator", "created", "reviewed",
	"describesPackage", "hasExtractedLicensingInfo", "relationship", "annotation", "creationInfo", "externalDocumentId", "spdxDocument", "checksum",
	"annotationType", "licenseInfoInFile", "licenseConcluded", "licenseComments", "copyrightText", "artifactOf", "noticeText", "fileContributor",
	"fileDependency", "fileType", "fileName", "extractedText", "licenseId", "versionInfo", "packageFileName", "supplier", "originator", "downloadLocation",
	"filesAnalyzed", "packageVerificationCode", "sourceInfo", "licenseInfoFromFiles", "licenseDeclared", "summary", "description", "externalRef", "hasFile",
	"primaryPackagePurpose", "releaseDate", "attributionText", "packageVerificationCodeValue", "packageVerificationCodeExcludedFile", "relatedSpdxElement",
	"relationshipType", "snippetFromFile", "licenseInfoInSnippet", "range", "reviewer", "reviewDate", "algorithm", "checksumValue", "referenceCategory",
	"referenceType", "referenceLocator", "annotationDate", "annotator", "member", "example", "isOsiApproved", "licenseText", "isFsfLibre",
	"licenseExceptionId", "licenseException", "unknown"}

// the properties a node of some kind may have; a few more are tried on every node
var rdfProperties = map[int]string{
	nDoc:     "specVersion dataLicense name externalDocumentRef creationInfo rdfs:comment reviewed describesPackage hasExtractedLicensingInfo relationship annotation",
	nPkg:     "name versionInfo supplier originator downloadLocation filesAnalyzed packageVerificationCode checksum doap:homepage licenseConcluded licenseInfoFromFiles licenseDeclared copyrightText externalRef hasFile relationship annotation primaryPackagePurpose attributionText",
	nFile:    "fileName fileType checksum licenseConcluded licenseInfoInFile artifactOf noticeText fileContributor fileDependency relationship annotation copyrightText attributionText",
	nSnip:    "snippetFromFile range licenseConcluded licenseInfoInSnippet name copyrightText",
	nRel:     "relationshipType relatedSpdxElement rdfs:comment",
	nAnd:     "member",
	nOr:      "member",
	nWith:    "member licenseException",
	nLater:   "member",
	nLic:     "licenseId extractedText rdfs:seeAlso name rdfs:comment example isOsiApproved",
	nAnn:     "annotator annotationDate annotationType rdfs:comment",
	nSum:     "algorithm checksumValue",
	nRange:   "ptr:startPointer ptr:endPointer",
	nPtr:     "ptr:reference ptr:offset ptr:lineNumber",
	nInfo:    "creator created licenseListVersion rdfs:comment",
	nReview:  "reviewer reviewDate rdfs:comment",
	nDocRef:  "externalDocumentId spdxDocument checksum",
	nCode:    "packageVerificationCodeValue packageVerificationCodeExcludedFile",
	nRef:     "referenceCategory referenceType referenceLocator rdfs:comment",
	nProject: "doap:name doap:homepage",
	nExc:     "licenseExceptionId licenseExceptionText rdfs:seeAlso name example rdfs:comment",
}

type rdfLink struct {
	from int
	pred string
}

var rdfLinks = []rdfLink{{nDoc, "describesPackage"}, {nDoc, "relationship"}, {nDoc, "annotation"}, {nDoc, "dataLicense"}, {nDoc, "creationInfo"},
	{nDoc, "reviewed"}, {nDoc, "externalDocumentRef"}, {nDoc, "hasExtractedLicensingInfo"},
	{nPkg, "hasFile"}, {nPkg, "relationship"}, {nPkg, "checksum"}, {nPkg, "packageVerificationCode"}, {nPkg, "licenseConcluded"}, {nPkg, "externalRef"}, {nPkg, "annotation"},
	{nFile, "fileDependency"}, {nFile, "relationship"}, {nFile, "checksum"}, {nFile, "licenseConcluded"}, {nFile, "artifactOf"}, {nFile, "annotation"},
	{nSnip, "snippetFromFile"}, {nSnip, "range"}, {nSnip, "licenseConcluded"}, {nRel, "relatedSpdxElement"},
	{nAnd, "member"}, {nOr, "member"}, {nWith, "member"}, {nWith, "licenseException"}, {nLater, "member"}, {nPtr, "ptr:reference"}, {nRange, "ptr:startPointer"}}
