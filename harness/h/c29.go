package h

import (
	"bytes"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/utils"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// useDocument does everything with a document that can be done with one.
// Errors are fine, panics are not.
func useDocument(d any, use int) {
	var b bytes.Buffer
	switch use {
	case 0:
		_ = json.Write(d, &b)
	case 1:
		_ = yaml.Write(d, &b)
	case 2:
		_ = tagvalue.Write(d, &b)
	case 3, 4, 5:
		_ = convert.Document(d, model(use-2))
	case 6, 7, 8, 9:
		doc, ok := d.(*spdx.Document)
		if !ok {
			doc = &spdx.Document{}
			if convert.Document(d, doc) != nil {
				return
			}
		}
		useLatest(doc, use)
	}
}

func useLatest(doc *spdx.Document, use int) {
	var b bytes.Buffer
	switch use {
	case 6:
		_ = spdxlib.ValidateDocument(doc)
	case 7:
		_, _ = spdxlib.GetDescribedPackageIDs(doc)
	case 8:
		_, _ = spdxlib.FilterRelationships(doc, func(r *spdx.Relationship) *common.ElementID {
			if r.Relationship == "DESCRIBES" {
				return &r.RefB.ElementRefID
			}
			return nil
		})
	case 9:
		_, _ = utils.GetVerificationCode(doc.Files, "")
		for _, p := range doc.Packages {
			_ = reporter.Generate(p, &b)
			_, _ = utils.GetVerificationCode(p.Files, "./f")
			other := &spdx.Package{FilesAnalyzed: true, Files: doc.Files}
			for _, q := range [][2]*spdx.Package{{p, other}, {other, p}} {
				m, err := licensediff.MakePairs(q[0], q[1])
				if err == nil {
					_, _ = licensediff.MakeResults(m)
				}
			}
		}
	}
}

const nUses = 10

// c29Place chooses a document and one place in it.
func c29Place() (k int, text string, p place) {
	k = 1 + sym.Choice("version", 3)
	text, all := placesText21, places21
	switch k {
	case 2:
		text, all = placesText22, places22
	case 3:
		text, all = placesText23, places23
	}
	p = all[sym.Choice("place", len(all))]
	return k, text, p
}

// ofElements says whether a list is one of elements that are there or not.
func (p place) ofElements(text string) bool {
	if !p.entry || p.kind != "object" {
		return false
	}
	switch p.key {
	case "packages", "files", "hasExtractedLicensingInfos", "relationships", "externalRefs", "artifactOfs":
		return true
	case "annotations":
		// those of the document
		return strings.Contains(text[:p.start], `"relationships"`)
	}
	return false
}

func c29Read(format int, text string, k int) (any, error) {
	d := model(k)
	f := jsonFront
	if format == 1 {
		f = yamlFront
	}
	err := f.into(strings.NewReader(text), d)
	return d, err
}

// C29_Null: null is what is not there.
func C29_Null() {
	sym.Witness("read")
	sym.Witness("refused")
	format := sym.Choice("format", 2)
	k, text, p := c29Place()
	d, err := c29Read(format, text[:p.start]+"null"+text[p.end:], k)
	if !p.entry || p.ofElements(text) {
		want, werr := c29Read(format, text[:p.from]+text[p.upto:], k)
		sym.Assert(err != nil || werr == nil && sym.Equal(d, want), "a document with null in place of a value is not the one without the value")
	}
	if err != nil {
		sym.Reach("refused")
		return
	}
	useDocument(d, c29Use(format))
	sym.Reach("read")
}

// C29_Nulls: nulls among the elements of a list.
func C29_Nulls() {
	sym.Witness("read")
	format := sym.Choice("format", 2)
	k, text, p := c29Place()
	sym.Assume(p.entry)
	x := text[p.start:p.end]
	shape := sym.Choice("shape", 7)
	with := []string{"null," + x, x + ",null", x + ",null," + x, "null," + x + ",null", "null,null", x + "," + x + ",null,null," + x, "null,null," + x}[shape]
	without := []string{x, x, x + "," + x, x, "", x + "," + x + "," + x, x}[shape]
	d, err := c29Read(format, text[:p.start]+with+text[p.end:], k)
	if p.ofElements(text) {
		want, werr := c29Read(format, text[:p.start]+without+text[p.end:], k)
		sym.Assert(err != nil || werr == nil && sym.Equal(d, want), "a document with null among the elements of a list is not the one without it")
	}
	if err == nil {
		useDocument(d, c29Use(format))
		sym.Reach("read")
	}
}

// C29_Kind: a value of another kind is refused.
func C29_Kind() {
	sym.Witness("refused")
	sym.Witness("empty")
	format := sym.Choice("format", 2)
	k, text, p := c29Place()
	kinds := []string{"string", "number", "bool", "bool", "object", "object", "list", "list", "list", "list"}
	i := sym.Choice("kind", len(kinds))
	by := []string{"", "7", "true", "false", "{}", `{"a":null}`, "[]", "[null]", "[{}]", `[""]`}[i]
	if i == 0 {
		by = `"` + []string{"", "SPDXRef-", "DocumentRef-", "NOASSERTION"}[sym.Choice("prefix", 4)] + sym.From("text", alnum+": -", 0, 6) + `"`
	}
	d, err := c29Read(format, text[:p.start]+by+text[p.end:], k)
	if kinds[i] != p.kind {
		sym.Assert(err != nil, "a value of another kind is accepted")
		sym.Reach("refused")
		return
	}
	if err == nil {
		useDocument(d, c29Use(format))
		sym.Reach("empty")
	}
}

// c29Use is the use to make of a document. The one read from YAML is that read
// from JSON.
func c29Use(format int) int {
	if format == 1 && !sym.Thorough() {
		return 1
	}
	return sym.Choice("use", nUses)
}
