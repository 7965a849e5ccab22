// Code generated from tmpl/c09.go.tmpl. DO NOT EDIT.

package h

import (
	"bytes"
	"strings"

	sigs "sigs.k8s.io/yaml"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// C09_Write22: what is written as YAML is what is written as JSON.
func C09_Write22() {
	sym.Witness("written")
	full := sym.Choice("full", 2) == 1
	f := &filler{format: jsonForm, full: full, max: 20, set: yamlSet}
	f.focus = sym.Choice("focus", fields22(jsonForm, full))
	d := document22(f)
	var j, y bytes.Buffer
	errJ, errY := json.Write(d, &j), yaml.Write(d, &y)
	sym.Assert((errJ == nil) == (errY == nil), "only one of JSON and YAML can be written")
	if errJ != nil {
		return
	}
	a, errA := sigs.YAMLToJSON(j.Bytes())
	b, errB := sigs.YAMLToJSON(y.Bytes())
	sym.Assert(errA == nil && errB == nil, "what was written cannot be parsed")
	sym.Assert(string(a) == string(b), "YAML and JSON were given different documents")
	sym.Reach("written")
	readBoth22(j.String(), y.String(), target22())
}

// target22 is the model to read into: that of the version, and in the thorough
// tier any.
func target22() int {
	if sym.Thorough() {
		return 1 + sym.Choice("target", 4)
	}
	return int("22"[1] - '0')
}

// C09_Target22: a small document read into every model.
func C09_Target22() {
	sym.Witness("read")
	f := &filler{format: jsonForm, focus: -1, max: 20, set: yamlSet}
	d := document22(f)
	d.DocumentName = sym.From("name", yamlSet, 0, 20)
	if sym.Choice("small", 2) == 1 {
		d.Packages, d.Files, d.Snippets, d.Annotations = nil, nil, nil, nil
	}
	if sym.Choice("version", 2) == 1 {
		d.SPDXVersion = sym.From("other", yamlSet, 0, 10)
	}
	var j, y bytes.Buffer
	sym.Assert(json.Write(d, &j) == nil && yaml.Write(d, &y) == nil, "the document can be written")
	readBoth22(j.String(), y.String(), 1+sym.Choice("target", 4))
}

// readBoth22 reads the two forms of a document into a model and compares.
func readBoth22(j, y string, to int) {
	switch to {
	case 1:
		var a, b v2_1.Document
		sameRead22(json.ReadInto(strings.NewReader(j), &a), yaml.ReadInto(strings.NewReader(y), &b), &a, &b)
	case 2:
		var a, b v2_2.Document
		sameRead22(json.ReadInto(strings.NewReader(j), &a), yaml.ReadInto(strings.NewReader(y), &b), &a, &b)
	case 3:
		var a, b v2_3.Document
		sameRead22(json.ReadInto(strings.NewReader(j), &a), yaml.ReadInto(strings.NewReader(y), &b), &a, &b)
	default:
		a, errA := json.Read(strings.NewReader(j))
		b, errB := yaml.Read(strings.NewReader(y))
		if a == nil || b == nil {
			sym.Assert(a == b, "only one of JSON and YAML gives no document")
			a, b = &spdx.Document{}, &spdx.Document{}
		}
		sameRead22(errA, errB, a, b)
	}
}

func sameRead22(errJ, errY error, j, y any) {
	sym.Assert((errJ == nil) == (errY == nil), "only one of JSON and YAML is accepted")
	sym.Assert(sym.Equal(j, y), "JSON and YAML give different documents")
	if errJ == nil {
		sym.Reach("read")
	} else {
		sym.Reach("refused")
	}
}

// C09_AnyText22: any text in some place of a document, accepted or refused by both.
func C09_AnyText22() {
	sym.Witness("read")
	sym.Witness("refused")
	at := sym.Choice("at", 14)
	v := sym.From("v", quoteless, 0, 20)
	if sym.Choice("prefix", 2) == 1 {
		v = []string{"SPDXRef-", "DocumentRef-d:SPDXRef-", "Person: ", "NOASSERTION", "SPDX-2."}[sym.Choice("which", 5)] + v
	}
	n := -1
	val := func(dflt string) string {
		n++
		if n == at {
			return `"` + v + `"`
		}
		return `"` + dflt + `"`
	}
	text := `{"SPDXID":` + val("SPDXRef-DOCUMENT") + `,"spdxVersion":` + val("SPDX-2."+"22"[1:]) + `,"name":` + val("n") +
		`,"creationInfo":{"creators":[` + val("Tool: t") + `],"created":"now"}` +
		`,"packages":[{"name":"p","SPDXID":` + val("SPDXRef-p") + `,"supplier":` + val("Person: p") + `,"hasFiles":[` + val("SPDXRef-f") +
		`]}],"files":[{"fileName":` + val("f") + `,"SPDXID":` + val("SPDXRef-f") + `}],"documentDescribes":[` + val("SPDXRef-p") +
		`],"relationships":[{"spdxElementId":` + val("SPDXRef-p") + `,"relatedSpdxElement":` + val("NONE") + `,"relationshipType":"CONTAINS"}]` +
		`,"annotations":[{"annotator":` + val("Tool: a") + `,"comment":"c"}],"externalDocumentRefs":[{"externalDocumentId":` + val("DocumentRef-x") +
		`,"spdxDocument":"u","checksum":{"algorithm":"SHA1","checksumValue":"1"}}]}`
	readBoth22(text, text, target22())
}

// C09_Extra22: properties that are not known, and null in place of known ones, at any place.
func C09_Extra22() {
	sym.Witness("read")
	at := sym.Choice("at", 9)
	names := []string{"unknown", "x-note", "reviewers", "isUnpackaged"}
	extra := `"` + names[sym.Choice("name", len(names))] + `":` +
		[]string{`"` + sym.From("v", quoteless, 0, 10) + `"`, "null", "true", "7", `["a",{"b":null}]`, `{"name":"x","SPDXID":"y"}`}[sym.Choice("value", 6)]
	if sym.Choice("null", 2) == 1 {
		known := []string{"name", "creationInfo", "packages", "annotations", "checksums", "comment", "supplier", "snippets"}
		extra = `"` + known[sym.Choice("known", len(known))] + `":null`
	}
	n := -1
	ex := func() string {
		n++
		if n == at {
			return extra + ","
		}
		return ""
	}
	text := `{` + ex() + `"SPDXID":"SPDXRef-DOCUMENT","spdxVersion":"SPDX-2.` + "22"[1:] + `","creationInfo":{` + ex() + `"creators":["Tool: t"],"created":"now"}` +
		`,"packages":[{` + ex() + `"SPDXID":"SPDXRef-p","externalRefs":[{` + ex() + `"referenceType":"t"}],"hasFiles":["SPDXRef-f"]}]` +
		`,"files":[{` + ex() + `"fileName":"f","SPDXID":"SPDXRef-f"}],"snippets":[{` + ex() + `"SPDXID":"SPDXRef-s","ranges":[{` + ex() + `"startPointer":{"offset":1},"endPointer":{"offset":2}}]}]` +
		`,"relationships":[{` + ex() + `"spdxElementId":"SPDXRef-p","relatedSpdxElement":"NONE","relationshipType":"CONTAINS"}]` +
		`,"hasExtractedLicensingInfos":[{` + ex() + `"licenseId":"LicenseRef-1"}]}`
	readBoth22(text, text, target22())
}

// C09_Layout22: texts that YAML lays out in its own ways, and texts of a document that JSON does not have. The layout itself
// is the library's: it is seen by the native replays of these paths only.
func C09_Layout22() {
	sym.Witness("read")
	sym.Bound("replays", 500)
	lay := []string{"\n", "\n---\n", "\n...\n", "\n\n", "\n  - a: b\n", ": ", " #", "\t", "\r\n", "null", "12.50", "2018-01-29T18:30:22Z", "é\u00a0😀", "\"'", "%&*!|>", "{[,]}", "<text>", " "}
	l := lay[sym.Choice("layout", len(lay))]
	piece := func() string { return sym.From("piece", alnum, 0, 40) }
	text := ""
	switch sym.Choice("at", 4) {
	case 0:
		text = l
	case 1:
		text = l + piece()
	case 2:
		text = piece() + l
	case 3:
		p := piece()
		sym.Assume(p != "")
		text = p + l + p + l + piece()
	}
	d := &v2_2.Document{SPDXVersion: v2_2.Version, SPDXIdentifier: "DOCUMENT", DocumentName: text, DocumentComment: text,
		CreationInfo:  &v2_2.CreationInfo{Creators: []common.Creator{{CreatorType: "Tool", Creator: "t" + text + "t"}}, Created: text, CreatorComment: "a" + text},
		Packages:      []*v2_2.Package{{PackageName: text, PackageSPDXIdentifier: "p", PackageDescription: text + "\n", PackageLicenseInfoFromFiles: []string{text, text}}},
		Files:         []*v2_2.File{{FileName: text, FileSPDXIdentifier: "f", FileCopyrightText: text, FileContributors: []string{text, "", text}}},
		OtherLicenses: []*v2_2.OtherLicense{{LicenseIdentifier: "LicenseRef-1", ExtractedText: text + text}},
	}
	var j, y bytes.Buffer
	sym.Assert(json.Write(d, &j) == nil && yaml.Write(d, &y) == nil, "the document can be written")
	yt := y.String()
	form := sym.Choice("form", 6)
	if !sym.Symbolic() {
		// the same document with what YAML allows around it
		switch form {
		case 1:
			yt = "# a comment\n---\n" + yt
		case 2:
			yt = "---\n" + yt + "...\n"
		case 3:
			yt = "%YAML 1.1\n---\n" + yt
		case 4:
			yt = j.String()
		case 5:
			yt += "\n# the end\n\n"
		}
	}
	readBoth22(j.String(), yt, int("22"[1]-'0'))
}
