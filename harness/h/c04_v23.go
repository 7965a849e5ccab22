// Code generated from tmpl/c04.go.tmpl. DO NOT EDIT.

package h

import (
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	tv "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/reader"

	"verifharness/sym"
)

// tags of each section
var (
	headTags23 = []string{
		"SPDXVersion", "DataLicense", "SPDXID", "DocumentName", "DocumentNamespace", "ExternalDocumentRef", "DocumentComment",
	}
	creationTags23 = []string{
		"LicenseListVersion", "Creator", "Created", "CreatorComment",
	}
	packageTags23 = []string{
		"PackageName", "SPDXID", "PackageVersion", "PackageFileName", "PackageSupplier", "PackageOriginator",
		"PackageDownloadLocation", "FilesAnalyzed", "PackageVerificationCode", "PackageChecksum", "PackageHomePage",
		"PackageSourceInfo", "PackageLicenseConcluded", "PackageLicenseInfoFromFiles", "PackageLicenseDeclared",
		"PackageLicenseComments", "PackageCopyrightText", "PackageSummary", "PackageDescription", "PackageComment",
		"ExternalRef", "ExternalRefComment",
		"PackageAttributionText",
		"PrimaryPackagePurpose", "ReleaseDate", "BuiltDate", "ValidUntilDate",
	}
	fileTags23 = []string{
		"FileName", "SPDXID", "FileType", "FileChecksum", "LicenseConcluded", "LicenseInfoInFile", "LicenseComments",
		"FileCopyrightText", "ArtifactOfProjectName", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI", "FileComment",
		"FileNotice", "FileContributor", "FileDependency",
		"FileAttributionText",
	}
	snippetTags23 = []string{
		"SnippetSPDXID", "SnippetFromFileSPDXID", "SnippetByteRange", "SnippetLineRange", "SnippetLicenseConcluded",
		"LicenseInfoInSnippet", "SnippetLicenseComments", "SnippetCopyrightText", "SnippetComment", "SnippetName",
		"SnippetAttributionText",
	}
	licenseTags23    = []string{"LicenseID", "ExtractedText", "LicenseName", "LicenseCrossReference", "LicenseComment"}
	reviewTags23     = []string{"Reviewer", "ReviewDate", "ReviewComment"}
	relationTags23   = []string{"Relationship", "RelationshipComment"}
	annotationTags23 = []string{"Annotator", "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment"}
)

// enter23 leads the parser into a state, in one of several ways.
// It returns the tags that may come next. With few set the ways that
// differ in more than what was given before are left out.
func enter23(s *sect23, state int, few bool) []string {
	pick := func(name string, n int) int {
		if few {
			return 0
		}
		return sym.Choice(name, n)
	}
	var ok []string
	may := func(tags ...[]string) {
		for _, t := range tags {
			ok = append(ok, t...)
		}
	}
	if state > 0 {
		s.add("SPDXVersion", v2_3.Version)
		s.add("Created", "t")
	}
	// a relationship and an annotation may have been given before
	pre := 0
	if state > 0 {
		if few {
			pre = 3 * sym.Choice("before", 2)
		} else {
			pre = sym.Choice("before", 4)
		}
	}
	between := func() {
		if pre&1 != 0 {
			s.add("Relationship", "SPDXRef-a OTHER SPDXRef-b")
		}
		if pre&2 != 0 {
			s.add("Annotator", "Tool: me")
		}
	}
	may(relationTags23[:1], annotationTags23[:1])
	if pre&1 != 0 {
		may(relationTags23[1:])
	}
	if pre&2 != 0 {
		may(annotationTags23[1:])
	}
	may([]string{"Reviewer"})
	if state < 6 {
		may([]string{"LicenseID"})
	}
	if state < 5 {
		may([]string{"PackageName", "FileName"})
	}
	switch state {
	case 0:
		may(headTags23, creationTags23)
	case 1:
		may(creationTags23, []string{"ExternalDocumentRef"})
		may([]string{"DocumentComment"})
		between()
	case 2:
		may(packageTags23[1:21], packageTags23[22:])
		s.add("PackageName", "p")
		s.add("SPDXID", "SPDXRef-p")
		between()
		switch pick("ref", 3) {
		case 1:
			s.add("ExternalRef", "c t l")
			may([]string{"ExternalRefComment"})
		case 2:
			s.add("ExternalRef", "c t l")
			s.add("PackageVersion", "1")
		}
	case 3:
		may(fileTags23[1:9], fileTags23[11:], []string{"SnippetSPDXID"})
		if pick("inPackage", 2) == 1 {
			s.add("PackageName", "p")
			s.add("SPDXID", "SPDXRef-p")
		}
		s.add("FileName", "f")
		s.add("SPDXID", "SPDXRef-f")
		between()
		switch pick("artifact", 4) {
		case 1:
			s.add("ArtifactOfProjectName", "a")
			may(fileTags23[9:11])
		case 2:
			s.add("ArtifactOfProjectName", "a")
			s.add("FileComment", "c")
		case 3:
			s.add("ArtifactOfProjectName", "a")
			s.add("ArtifactOfProjectURI", "u")
			may(fileTags23[9:11])
		}
	case 4:
		may(snippetTags23)
		if pick("inPackage", 2) == 1 {
			s.add("PackageName", "p")
			s.add("SPDXID", "SPDXRef-p")
		}
		s.add("FileName", "f")
		s.add("SPDXID", "SPDXRef-f")
		s.add("SnippetSPDXID", "SPDXRef-s")
		between()
	case 5:
		may(licenseTags23[1:])
		switch pick("after", 3) {
		case 1:
			s.add("PackageName", "p")
			s.add("SPDXID", "SPDXRef-p")
		case 2:
			s.add("FileName", "f")
			s.add("SPDXID", "SPDXRef-f")
		}
		s.add("LicenseID", "LicenseRef-1")
		between()
	case 6:
		may(reviewTags23[1:])
		switch pick("after", 3) {
		case 1:
			s.add("PackageName", "p")
			s.add("SPDXID", "SPDXRef-p")
		case 2:
			s.add("LicenseID", "LicenseRef-1")
		}
		s.add("Reviewer", "Person: me")
		between()
	}
	return ok
}

const states23 = 7

// C04_Unknown23: a tag that has no place in its section is an error, whatever
// its name and value.
func C04_Unknown23() {
	sym.Witness("refused")
	s := &sect23{}
	ok := enter23(s, sym.Choice("state", states23), false)
	tag := sym.String("tag", 40)
	for _, t := range ok {
		sym.Assume(tag != t)
	}
	s.add(tag, sym.String("value", 40))
	_, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err != nil, "a tag that is unknown in its section is accepted")
	sym.Reach("refused")
}

// C04_Known23: a tag in its section with a well-formed value is accepted.
func C04_Known23() {
	sym.Witness("accepted")
	s := &sect23{}
	state := sym.Choice("state", states23)
	ok := enter23(s, state, false)
	k := sym.Choice("tag", len(ok))
	s.add(ok[k], good23(ok[k]))
	switch ok[k] {
	case "PackageName", "FileName":
		s.add("SPDXID", "SPDXRef-"+id("newid", 12))
	}
	d, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err == nil, "a known tag with a well-formed value is refused")
	sym.Assert(d != nil, "no document and no error")
	sym.Reach("accepted")
}

// good23 is a well-formed value for a tag.
func good23(tag string) string {
	v := ""
	switch tag {
	case "SPDXID", "SnippetSPDXID", "SnippetFromFileSPDXID":
		v = "SPDXRef-" + id("id", 12)
	case "SPDXREF":
		_, v = tvElem("id")
	case "ExternalDocumentRef":
		v = "DocumentRef-" + id("doc", 12) + " " + tvToken("uri") + " SHA1:" + tvToken("sum")
	case "Creator", "Annotator", "Reviewer":
		_, _, v = tvAgent("who", 3)
	case "PackageSupplier", "PackageOriginator":
		_, _, v = tvAgent("who", 2)
	case "PackageChecksum", "FileChecksum":
		_, v = tvSum(algorithms23)
	case "ExternalRef":
		v = tvToken("a") + " " + tvToken("b") + "  " + tvToken("c")
	case "Relationship":
		_, a := tvElem("a")
		_, b := tvElem("b")
		v = a + " " + tvToken("type") + "  " + b
	case "SnippetByteRange", "SnippetLineRange":
		v = decimal(sym.Int("from", 0, 1<<31-1)) + ":" + decimal(sym.Int("to", 0, 1<<31-1))
	case "FilesAnalyzed":
		v = []string{"true", "false"}[sym.Choice("analyzed", 2)]
	default:
		v = tvValue("value")
	}
	return v
}

// C04_Expire23: a field of an external reference or of an artifact-of project
// is refused once any other field of its package or file was given.
func C04_Expire23() {
	sym.Witness("refused")
	s := &sect23{}
	state := 2 + sym.Choice("state", 2)
	enter23(s, state, true)
	last := ""
	var ok []string
	if state == 2 {
		s.add("ExternalRef", "c t l")
		last = "ExternalRefComment"
		ok = append(ok, packageTags23[1:20]...)
		ok = append(ok, packageTags23[22:]...)
	} else {
		s.add("ArtifactOfProjectName", "a")
		last = fileTags23[9+sym.Choice("last", 2)]
		ok = append(ok, fileTags23[1:8]...)
		ok = append(ok, fileTags23[11:]...)
	}
	ok = append(ok, "Relationship", "Annotator", "Reviewer", "LicenseID", "FileName", "PackageName")
	t := ok[sym.Choice("tag", len(ok))]
	s.add(t, good23(t))
	identified := 0
	if t == "PackageName" || t == "FileName" {
		identified = sym.Choice("identified", 3)
	}
	if identified == 1 {
		s.add("SPDXID", "SPDXRef-"+id("newid", 12))
	}
	s.add(last, tvValue("late"))
	if identified == 2 {
		// nothing else is wrong with the document
		s.add("SPDXID", "SPDXRef-"+id("newid", 12))
	}
	_, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err != nil, "a field is accepted that belongs to nothing")
	sym.Reach("refused")
}

// C04_Values23: a malformed compound value is an error.
func C04_Values23() {
	sym.Witness("refused")
	s := &sect23{}
	v := ""
	enter := func(state int) {
		s.add("SPDXVersion", v2_3.Version)
		s.add("Created", "t")
		if state >= 2 && state <= 4 {
			s.add("PackageName", "p")
			s.add("SPDXID", "SPDXRef-p")
		}
		if state >= 3 && state <= 4 {
			s.add("FileName", "f")
			s.add("SPDXID", "SPDXRef-f")
		}
		if state == 4 {
			s.add("SnippetSPDXID", "SPDXRef-s")
		}
	}
	// a well-formed value of the same tag may stand before or after it
	around := sym.Choice("around", 3)
	put := func(tag, v string) {
		if around == 1 {
			s.add(tag, plain(tag))
		}
		s.add(tag, v)
		if around == 2 {
			s.add(tag, plain(tag))
		}
	}
	anyState := func() { enter(1 + sym.Choice("state", 4)) }
	kind := sym.Choice("kind", 12)
	switch kind {
	case 0:
		enter(2)
		v = badSum(algorithms23)
		put("PackageChecksum", v)
	case 1:
		enter(3)
		v = badSum(algorithms23)
		put("FileChecksum", v)
	case 2:
		enter(1)
		put("Creator", badAgent(3))
	case 3:
		enter(2)
		v = badAgent(2)
		sym.Assume(v != "NOASSERTION")
		put([]string{"PackageSupplier", "PackageOriginator"}[sym.Choice("tag", 2)], v)
	case 4:
		anyState()
		put("Annotator", badAgent(3))
	case 5:
		anyState()
		put("Reviewer", badAgent(3))
	case 6:
		enter(2)
		n := sym.Choice("parts", 5)
		sym.Assume(n != 3)
		put("ExternalRef", tvParts(n))
	case 7:
		anyState()
		put("Relationship", badRelationship(23 >= 22))
	case 8:
		enter(1)
		put("ExternalDocumentRef", badDocumentRef())
	case 9:
		enter(4)
		put([]string{"SnippetByteRange", "SnippetLineRange"}[sym.Choice("tag", 2)], badRange())
	case 10:
		v = badElementID()
		switch state := 1 + sym.Choice("where", 5); state {
		case 1:
			s.add("SPDXVersion", v2_3.Version)
			put("SPDXID", v)
			s.add("Created", "t")
		case 2, 3:
			enter(state)
			if sym.Choice("first", 2) == 1 {
				// the first identifier of its section
				s.add([]string{"PackageName", "FileName"}[state-2], "n")
				s.add("SPDXID", v)
				s.add("SPDXID", "SPDXRef-n")
				break
			}
			put("SPDXID", v)
		case 4:
			enter(3)
			put("SnippetSPDXID", v)
		case 5:
			enter(4)
			sym.Assume(!hasPrefix(v, "DocumentRef-"))
			put("SnippetFromFileSPDXID", v)
		}
	case 11:
		anyState()
		s.add("Annotator", "Tool: me")
		put("SPDXREF", badDocElementID())
	}
	_, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err != nil, "a malformed value is accepted")
	sym.Reach("refused")
}

// C04_Steps23: no pairs make the parser panic in any state.
func C04_Steps23() {
	sym.Witness("done")
	sym.Bound("split", 4)
	s := &sect23{}
	enter23(s, sym.Choice("state", states23), true)
	all := [][]string{headTags23, creationTags23, packageTags23, fileTags23[:1], fileTags23[2:], snippetTags23, licenseTags23, reviewTags23, relationTags23, annotationTags23}
	var tags []string
	for _, t := range all {
		tags = append(tags, t...)
	}
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		tag := tags[sym.Choice("tag", len(tags))]
		s.add(tag, anyFor(tag))
	}
	d, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err != nil || d != nil, "no document and no error")
	sym.Reach("done")
}

// C04_Many23: one bad line among many good ones.
func C04_Many23() {
	sym.Witness("refused")
	n, odd := many(4, 13, 300)
	kind := sym.Choice("kind", 7)
	bad := sym.Choice("bad", 3)
	s := &sect23{}
	s.add("SPDXVersion", v2_3.Version)
	s.add("Created", "t")
	if kind > 1 {
		s.add("PackageName", "p")
		s.add("SPDXID", "SPDXRef-p")
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			s.add("Creator", "Tool: t"+num(i))
		case 1:
			s.add("ExternalDocumentRef", "DocumentRef-d"+num(i)+" http://x.example SHA1:a")
		case 2:
			s.add("PackageChecksum", "SHA1: "+num(i))
		case 3:
			s.add("ExternalRef", "OTHER t "+num(i))
		case 4:
			s.add("FileName", "f")
			s.add("SPDXID", "SPDXRef-f"+num(i))
			s.add("FileChecksum", "SHA1: "+num(i))
		case 5:
			s.add("Relationship", "SPDXRef-a OTHER SPDXRef-p")
		case 6:
			s.add("Annotator", "Tool: t"+num(i))
			s.add("SPDXREF", "SPDXRef-p")
		}
		if i != odd {
			continue
		}
		switch bad {
		case 0: // an unknown tag
			s.add("x"+sym.From("tag", alnum, 0, 12), sym.String("value", 12))
		case 1: // a malformed value
			tag := []string{"Creator", "ExternalDocumentRef", "PackageChecksum", "ExternalRef", "FileChecksum", "Relationship", "Annotator"}[kind]
			s.add(tag, sym.From("token", alnum, 0, 12))
		case 2: // a malformed identifier
			tag := []string{"SPDXID", "SPDXID", "SPDXID", "SPDXID", "FileName", "Relationship", "SPDXREF"}[kind]
			if kind == 4 {
				s.add(tag, "f")
				tag = "SPDXID"
			}
			v := sym.From("token", alnum, 0, 12)
			if kind == 5 {
				v = "SPDXRef-a OTHER " + v
				sym.Assume(v != "SPDXRef-a OTHER NONE" && v != "SPDXRef-a OTHER NOASSERTION")
			}
			s.add(tag, v)
		}
	}
	_, err := tv.ParseTagValues(s.pairs)
	sym.Assert(err != nil, "a malformed line among many is accepted")
	sym.Reach("refused")
}
