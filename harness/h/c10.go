package h

import (
	"bytes"
	stdjson "encoding/json"
	"io"
	"strings"

	"github.com/spdx/gordf/rdfloader"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	tv21 "github.com/spdx/tools-golang/spdx/v2/v2_1/tagvalue/reader"
	tvw21 "github.com/spdx/tools-golang/spdx/v2/v2_1/tagvalue/writer"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	rdf22 "github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"
	tv22 "github.com/spdx/tools-golang/spdx/v2/v2_2/tagvalue/reader"
	tvw22 "github.com/spdx/tools-golang/spdx/v2/v2_2/tagvalue/writer"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	rdf23 "github.com/spdx/tools-golang/spdx/v2/v2_3/rdf/reader"
	tv23 "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/reader"
	tvw23 "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/writer"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/tagvalue/reader"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// declared is an arbitrary declaration of a version: one of the three
// supported ones (1 to 3), or some other text (0).
func declared(set string) (int, string) {
	switch k := sym.Choice("declared", 4); k {
	case 1:
		return k, "SPDX-2.1"
	case 2:
		return k, "SPDX-2.2"
	case 3:
		return k, "SPDX-2.3"
	}
	s := sym.From("version", set, 0, 12)
	sym.Assume(s != "SPDX-2.1" && s != "SPDX-2.2" && s != "SPDX-2.3")
	return 0, s
}

// document of the chosen model, to read into
func model(k int) any {
	switch k {
	case 1:
		return &v2_1.Document{}
	case 2:
		return &v2_2.Document{}
	}
	return &v2_3.Document{}
}

// a reader front end, and the parse of a text that declares version k
type front struct {
	into  func(r io.Reader, to any) error
	read  func(r io.Reader) (*spdx.Document, error)
	parse func(text string, k int) (any, error)
}

func parseJSON(text string, k int) (any, error) {
	d := model(k)
	return d, stdjson.Unmarshal([]byte(text), d)
}

func parseTV(text string, k int) (any, error) {
	pairs, err := reader.ReadTagValues(strings.NewReader(text))
	if err != nil {
		return nil, err
	}
	switch k {
	case 1:
		return tv21.ParseTagValues(pairs)
	case 2:
		return tv22.ParseTagValues(pairs)
	}
	return tv23.ParseTagValues(pairs)
}

func parseRDF(text string, k int) (any, error) {
	g, err := rdfloader.LoadFromReaderObject(strings.NewReader(text))
	if err != nil {
		return nil, err
	}
	if k == 2 {
		return rdf22.LoadFromGoRDFParser(g)
	}
	return rdf23.LoadFromGoRDFParser(g)
}

var (
	rdfFront  = front{func(r io.Reader, to any) error { return rdf.ReadInto(r, to) }, rdf.Read, parseRDF}
	jsonFront = front{func(r io.Reader, to any) error { return json.ReadInto(r, to) }, json.Read, parseJSON}
	yamlFront = front{func(r io.Reader, to any) error { return yaml.ReadInto(r, to) }, yaml.Read, parseJSON}
	tvFront   = front{func(r io.Reader, to any) error { return tagvalue.ReadInto(r, to) }, tagvalue.Read, parseTV}
)

// honours reads text, which declares version k, into some model.
func honours(f front, text string, k int) {
	to := 1 + sym.Choice("target", 4)
	if to == 4 {
		// the reader for whoever wants the current model
		got, err := f.read(strings.NewReader(text))
		if k == 0 {
			sym.Assert(err != nil, "a document of no supported version is read")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "a document of a supported version is refused")
		compare(f, text, k, 3, got)
		return
	}
	got := model(to)
	err := f.into(strings.NewReader(text), got)
	if k == 0 {
		sym.Assert(err != nil, "a document of no supported version is read")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a document of a supported version is refused")
	compare(f, text, k, to, got)
}

func compare(f front, text string, k, to int, got any) {
	own, err := f.parse(text, k)
	sym.Assert(err == nil, "the text of the document cannot be parsed")
	want := model(to)
	sym.Assert(convert.Document(own, want) == nil, "the document cannot be converted")
	sym.Assert(sym.Equal(got, want), "the document read is not the one of the declared version, converted")
	switch d := got.(type) {
	case *v2_1.Document:
		sym.Assert(d.SPDXVersion == v2_1.Version, "the document read has another version than was asked for")
	case *v2_2.Document:
		sym.Assert(d.SPDXVersion == v2_2.Version, "the document read has another version than was asked for")
	case *v2_3.Document:
		sym.Assert(d.SPDXVersion == v2_3.Version, "the document read has another version than was asked for")
	}
	sym.Reach("read")
}

// the same properties are there in every version, but some mean something in one only
func jsonDocument(name, version string) string {
	items := []string{`"SPDXID":"SPDXRef-DOCUMENT"`, `"name":"` + name + `"`,
		`"packages":[{"name":"` + name + `","SPDXID":"SPDXRef-p","primaryPackagePurpose":"LIBRARY","hasFiles":["SPDXRef-f"],"attributionTexts":["a"]}]`,
		`"files":[{"fileName":"` + name + `","SPDXID":"SPDXRef-f","attributionTexts":["a"],"checksums":[{"algorithm":"SHA1","checksumValue":"1"}]}]`,
		`"documentDescribes":["SPDXRef-p"]`}
	if version != "" {
		v := `"spdxVersion":` + version
		if sym.Choice("version last", 2) == 1 {
			items = append(items, v)
		} else {
			items = append([]string{v}, items...)
		}
	}
	return "{" + strings.Join(items, ",") + "}"
}

func c10Object(f front) {
	sym.Witness("read")
	sym.Witness("refused")
	name := sym.From("name", alnum, 1, 12)
	k, v := 0, ""
	switch sym.Choice("kind", 6) {
	case 0:
		k, v = declared(alnum + "-. ")
		v = `"` + v + `"`
	case 1: // no version at all
	case 2:
		v = "null"
	case 3:
		v = "2.3"
	case 4:
		v = `["SPDX-2.3"]`
	case 5:
		v = `{"spdxVersion":"SPDX-2.3"}`
	}
	honours(f, jsonDocument(name, v), k)
}

// C10_JSON: a JSON document is decoded by its own version and converted.
func C10_JSON() { c10Object(jsonFront) }

// C10_YAML: the same for YAML.
func C10_YAML() { c10Object(yamlFront) }

// C10_TagValue: the same for tag-value text.
func C10_TagValue() {
	sym.Witness("read")
	sym.Witness("refused")
	name := sym.From("name", alnum, 1, 12)
	k, v := declared(alnum + "-. ")
	if k == 0 {
		sym.Assume(v == strings.TrimSpace(v))
	}
	lines := []string{"DataLicense: CC0-1.0", "DocumentName: " + name}
	switch sym.Choice("at", 4) {
	case 0:
		lines = append([]string{"SPDXVersion: " + v}, lines...)
	case 1:
		lines = append(lines[:1:1], "# SPDX", "SPDXVersion: "+v, lines[1])
	case 2:
		lines = append(lines, "SPDXVersion: "+v)
	case 3:
		k = 0 // no version at all
	}
	if k != 1 {
		lines = append(lines, "Created: now", "PackageName: "+name, "SPDXID: SPDXRef-p", "PackageAttributionText: <text>a</text>")
	} else {
		lines = append(lines, "Created: now", "PackageName: "+name, "SPDXID: SPDXRef-p", "PackageComment: <text>a</text>")
	}
	honours(tvFront, strings.Join(lines, "\n")+"\n", k)
}

// C10_RDF: the same for RDF/XML, which is read for 2.2 and 2.3 only.
func C10_RDF() {
	sym.Witness("read")
	sym.Witness("refused")
	name := sym.From("name", alnum, 1, 12)
	k, v := declared(alnum + "-.")
	if k == 1 {
		k = 0
	}
	items := []string{
		"<spdx:name>" + name + "</spdx:name>",
		`<spdx:dataLicense rdf:resource="http://spdx.org/licenses/CC0-1.0"/>`,
		"<spdx:creationInfo><spdx:CreationInfo><spdx:created>" + name + "</spdx:created><spdx:creator>Tool: " + name + "</spdx:creator></spdx:CreationInfo></spdx:creationInfo>",
	}
	version := "<spdx:specVersion>" + v + "</spdx:specVersion>"
	switch sym.Choice("at", 4) {
	case 0:
		items = append([]string{version}, items...)
	case 1:
		items = append(items, version)
	case 2:
		items = append(items[:1:1], version, items[1], items[2])
	case 3:
		k = 0 // no version at all
	}
	if sym.Choice("package", 2) == 1 {
		items = append(items, `<spdx:relationship><spdx:Relationship>
  <spdx:relationshipType rdf:resource="http://spdx.org/rdf/terms#relationshipType_describes"/>
  <spdx:relatedSpdxElement><spdx:Package rdf:about="http://x.example/`+name+`#SPDXRef-p">
    <spdx:name>`+name+`</spdx:name><spdx:attributionText>`+name+`</spdx:attributionText>
  </spdx:Package></spdx:relatedSpdxElement>
</spdx:Relationship></spdx:relationship>`)
	}
	honours(rdfFront, rdfText(name, items), k)
}

func rdfText(name string, items []string) string {
	return `<?xml version="1.0"?>
<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#">
<spdx:SpdxDocument rdf:about="http://x.example/` + name + `#SPDXRef-DOCUMENT">
` + strings.Join(items, "\n") + `
</spdx:SpdxDocument>
</rdf:RDF>
`
}

// C10_NoDocument: text that is no document at all is an error.
func C10_NoDocument() {
	sym.Witness("refused")
	s := sym.From("text", alnum+" .-", 0, 12)
	f := jsonFront
	text := ""
	switch kind := sym.Choice("kind", 12); kind {
	case 11:
		f = rdfFront
		v := "<spdx:specVersion>SPDX-2.3</spdx:specVersion>"
		whole := rdfText("n", []string{v})
		s := sym.From("word", alnum, 0, 8)
		text = []string{"", "\n", s, "<" + s + ">", "<rdf:RDF>" + v + "</rdf:RDF>", rdfText("n", nil), rdfText("n", []string{"<spdx:name>SPDX-2.3</spdx:name>"}),
			strings.Replace(whole, "#SPDXRef-DOCUMENT", s, 1), strings.Replace(whole, "</rdf:RDF>", "", 1), strings.Replace(whole, "SpdxDocument", "Package", -1),
			whole + whole, strings.Replace(whole, v, "<spdx:specVersion/>", 1), strings.Replace(whole, v, v[:len(v)-1], 1)}[sym.Choice("rdf", 13)]
	case 0:
	case 1:
		text = " \n"
	case 2:
		text = "null"
	case 3:
		text = `"` + s + `"`
	case 4:
		text = `["` + s + `"]`
	case 5:
		text = `[{"spdxVersion":"SPDX-2.3"}]`
	case 6:
		text = "true"
	case 7:
		text = "12"
	case 8:
		text = `{}`
	case 9:
		f = tvFront
		text = []string{"", "\n", "# " + s + "\n", s + "\n"}[sym.Choice("tag-value", 4)]
	case 10:
		text = []string{`{"spdxVersion":"SPDX-2.3"`, `{"spdxVersion":"SPDX-2.3"}x`, `{"spdxVersion":"SPDX-2.3",}`, `{`, `]`}[sym.Choice("broken", 5)]
	}
	if sym.Choice("yaml", 2) == 1 {
		sym.Assume(text == "null" || text == `{}` || text == "true" || text == "12" || strings.HasPrefix(text, "[") || strings.HasPrefix(text, `"`))
		f = yamlFront
	}
	honours(f, text, 0)
}

// C10_Target: reading into something that is no document is an error.
func C10_Target() {
	sym.Witness("refused")
	f, text := jsonFront, ""
	k, v := declared(alnum + "-.")
	switch sym.Choice("format", 4) {
	case 3:
		f, text = rdfFront, rdfText("n", []string{"<spdx:specVersion>" + v + "</spdx:specVersion>"})
	case 0:
		text = jsonDocument("n", `"`+v+`"`)
	case 1:
		f, text = yamlFront, jsonDocument("n", `"`+v+`"`)
	case 2:
		f, text = tvFront, "SPDXVersion: "+v+"\nDocumentName: n\n"
	}
	_ = k
	var none *v2_3.Document
	var to any
	switch sym.Choice("target", 8) {
	case 0:
	case 1:
		to = v2_3.Document{}
	case 2:
		to = v2_2.Document{}
	case 3:
		to = none
	case 4:
		to = &none
	case 5:
		to = new(string)
	case 6:
		to = &struct{ Name string }{}
	case 7:
		to = "text"
	}
	sym.Assert(f.into(strings.NewReader(text), to) != nil, "a document is read into something that is no document")
	sym.Reach("refused")
}

// C10_Write: tag-value text is written by the writer of the model given.
func C10_Write() {
	sym.Witness("written")
	f := &filler{format: tagValue, focus: -1, full: true}
	var doc any
	var want bytes.Buffer
	var err error
	wrap := sym.Choice("wrap", 3)
	switch sym.Choice("model", 3) {
	case 0:
		d := document21(f)
		err = tvw21.RenderDocument(d, &want)
		doc = []any{*d, d, &d}[wrap]
	case 1:
		d := document22(f)
		err = tvw22.RenderDocument(d, &want)
		doc = []any{*d, d, &d}[wrap]
	case 2:
		d := document23(f)
		err = tvw23.RenderDocument(d, &want)
		doc = []any{*d, d, &d}[wrap]
	}
	sym.Assert(err == nil, "the document cannot be written")
	var got bytes.Buffer
	sym.Assert(tagvalue.Write(doc, &got) == nil, "the document cannot be written")
	sym.Assert(got.String() == want.String(), "a document is not written by the writer of its own version")
	sym.Reach("written")
}

// C10_WriteOther: something that is no document is not written.
func C10_WriteOther() {
	sym.Witness("refused")
	var none *v2_3.Document
	var other any
	switch sym.Choice("value", 9) {
	case 0:
	case 1:
		other = none
	case 2:
		other = &none
	case 3:
		other = sym.From("text", alnum, 0, 12)
	case 4:
		s := sym.From("text", alnum, 0, 12)
		other = &s
	case 5:
		other = struct{ Name string }{"n"}
	case 6:
		other = v2_3.Package{PackageName: "p"}
	case 7:
		other = &v2_2.CreationInfo{}
	case 8:
		// a long text that takes several bytes for each character
		other = strings.Repeat("\u20ac", 150)
	}
	var got bytes.Buffer
	sym.Assert(tagvalue.Write(other, &got) != nil, "something that is no document is written")
	sym.Assert(got.Len() == 0, "something that is no document is written")
	sym.Reach("refused")
}
