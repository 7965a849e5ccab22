package h

import (
	"encoding/json"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"verifharness/sym"
)

// encoded gives the text that v is encoded to.
func encoded(v any) string {
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "a well-formed value cannot be encoded")
	var s string
	sym.Assert(json.Unmarshal(b, &s) == nil, "a value is not encoded as a string")
	return s
}

func noPrefix(v, p string) string {
	sym.Assume(!strings.HasPrefix(v, p))
	return v
}

// C08_Encode: every identifier and agent has its one form and comes back from it.
func C08_Encode() {
	sym.Witness("done")
	name := func() string {
		v := sym.String("name", 30)
		sym.Assume(v != "")
		sym.Assume(sym.Eq(strings.TrimSpace(v), v))
		return v
	}
	typ := func(n int) string { return []string{"Person", "Organization", "Tool"}[sym.Choice("type", n)] }
	el := func(n string) string { return noPrefix(sym.From(n, idset, 1, 20), "SPDXRef-") }
	doc := func(n string) string { return noPrefix(sym.From(n, idset, 1, 20), "DocumentRef-") }
	switch sym.Choice("kind", 10) {
	case 0:
		v := common.ElementID(el("id"))
		s := encoded(v)
		sym.Assert(s == "SPDXRef-"+string(v), "an element identifier has another form")
		sym.Assert(common.RenderElementID(v) == s, "an element identifier is rendered in another form")
		var got common.ElementID
		sym.Assert(json.Unmarshal(quoted(s), &got) == nil, "an encoded element identifier is refused")
		sym.Assert(got == v, "an element identifier changes")
	case 1:
		v := common.DocumentID(doc("id"))
		s := encoded(v)
		sym.Assert(s == "DocumentRef-"+string(v), "a document identifier has another form")
		var got common.DocumentID
		sym.Assert(json.Unmarshal(quoted(s), &got) == nil, "an encoded document identifier is refused")
		sym.Assert(got == v, "a document identifier changes")
	case 2, 3, 4, 5:
		v, form := common.MakeDocElementID("", el("id")), ""
		switch sym.Choice("form", 4) {
		case 0:
			form = "SPDXRef-" + string(v.ElementRefID)
		case 1:
			v.DocumentRefID = common.DocumentID(doc("doc"))
			form = "DocumentRef-" + string(v.DocumentRefID) + ":SPDXRef-" + string(v.ElementRefID)
		case 2:
			v, form = common.MakeDocElementSpecial("NONE"), "NONE"
		case 3:
			v, form = common.MakeDocElementSpecial("NOASSERTION"), "NOASSERTION"
		}
		s := encoded(v)
		sym.Assert(s == form, "a document element identifier has another form")
		sym.Assert(common.RenderDocElementID(v) == s, "a document element identifier is rendered in another form")
		var got common.DocElementID
		sym.Assert(json.Unmarshal(quoted(s), &got) == nil, "an encoded document element identifier is refused")
		sym.Assert(got == v, "a document element identifier changes")
	case 6:
		v := common.Creator{CreatorType: typ(3), Creator: name()}
		s := encoded(v)
		sym.Assert(s == v.CreatorType+": "+v.Creator, "a creator has another form")
		var got common.Creator
		b, _ := json.Marshal(v)
		sym.Assert(json.Unmarshal(b, &got) == nil, "an encoded creator is refused")
		sym.Assert(got == v, "a creator changes")
	case 7:
		v := common.Annotator{AnnotatorType: typ(3), Annotator: name()}
		s := encoded(v)
		sym.Assert(s == v.AnnotatorType+": "+v.Annotator, "an annotator has another form")
		var got common.Annotator
		b, _ := json.Marshal(v)
		sym.Assert(json.Unmarshal(b, &got) == nil, "an encoded annotator is refused")
		sym.Assert(got == v, "an annotator changes")
	case 8:
		v, form := common.Supplier{Supplier: "NOASSERTION"}, "NOASSERTION"
		if sym.Choice("form", 2) == 1 {
			v = common.Supplier{SupplierType: typ(2), Supplier: name()}
			sym.Assume(v.Supplier != "NOASSERTION")
			form = v.SupplierType + ": " + v.Supplier
		}
		sym.Assert(encoded(v) == form, "a supplier has another form")
		var got common.Supplier
		b, _ := json.Marshal(v)
		sym.Assert(json.Unmarshal(b, &got) == nil, "an encoded supplier is refused")
		sym.Assert(got == v, "a supplier changes")
	case 9:
		v, form := common.Originator{Originator: "NOASSERTION"}, "NOASSERTION"
		if sym.Choice("form", 2) == 1 {
			v = common.Originator{OriginatorType: typ(2), Originator: name()}
			sym.Assume(v.Originator != "NOASSERTION")
			form = v.OriginatorType + ": " + v.Originator
		}
		sym.Assert(encoded(v) == form, "an originator has another form")
		var got common.Originator
		b, _ := json.Marshal(v)
		sym.Assert(json.Unmarshal(b, &got) == nil, "an encoded originator is refused")
		sym.Assert(got == v, "an originator changes")
	}
	sym.Reach("done")
}

// quoted is the JSON string for a text over printable characters that need no escape.
func quoted(s string) []byte { return []byte(`"` + s + `"`) }

// plainSet is printable ASCII that stands for itself in JSON strings.
var plainSet = func() string {
	var b []byte
	for c := 32; c < 127; c++ {
		if c != '"' && c != '\\' {
			b = append(b, byte(c))
		}
	}
	return string(b)
}()

// C08_Decode: an arbitrary string is taken exactly when it is one of the forms.
func C08_Decode() {
	sym.Witness("taken")
	sym.Witness("refused")
	s := sym.From("text", plainSet, 0, 40)
	if sym.Choice("escaped", 2) == 1 {
		s = sym.From("text", plainSet, 0, 20) + "\"\\\u0001<" + sym.From("text", plainSet, 0, 20)
	}
	data, err := json.Marshal(s)
	sym.Assert(err == nil, "a string has no JSON form")
	good, same := false, false
	kind := sym.Choice("kind", 7)
	switch kind {
	case 0:
		var got common.ElementID
		err = json.Unmarshal(data, &got)
		id, ok := strings.CutPrefix(s, "SPDXRef-")
		good, same = ok && id != "", string(got) == id
	case 1:
		var got common.DocumentID
		err = json.Unmarshal(data, &got)
		id, ok := strings.CutPrefix(s, "DocumentRef-")
		good, same = ok && id != "", string(got) == id
	case 2:
		var got common.DocElementID
		err = json.Unmarshal(data, &got)
		want, ok := docElement(s)
		good, same = ok, got == want
	case 3, 4, 5, 6:
		typ, who, ok := strings.Cut(s, ":")
		good = ok
		var gotTyp, gotWho string
		switch kind {
		case 3:
			var got common.Creator
			err = json.Unmarshal(data, &got)
			gotTyp, gotWho = got.CreatorType, got.Creator
		case 4:
			var got common.Annotator
			err = json.Unmarshal(data, &got)
			gotTyp, gotWho = got.AnnotatorType, got.Annotator
		case 5:
			var got common.Supplier
			err = json.Unmarshal(data, &got)
			gotTyp, gotWho = got.SupplierType, got.Supplier
		case 6:
			var got common.Originator
			err = json.Unmarshal(data, &got)
			gotTyp, gotWho = got.OriginatorType, got.Originator
		}
		if kind >= 5 && s == "NOASSERTION" {
			good, typ, who = true, "", s
		}
		if good && err == nil {
			same = sym.And(trimmed(gotTyp) == trimmed(typ), trimmed(gotWho) == trimmed(who))
		}
	}
	if !good {
		sym.Assert(err != nil, "a malformed string is taken")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a well-formed string is refused")
	sym.Assert(same, "a string is decoded to another value")
	sym.Reach("taken")
}

func trimmed(s string) string { return strings.TrimSpace(s) }

// docElement is what a string in JSON names: an element of this or of another
// document, another document as a whole, or NONE or NOASSERTION.
func docElement(s string) (common.DocElementID, bool) {
	if s == "NONE" || s == "NOASSERTION" {
		return common.DocElementID{SpecialID: s}, true
	}
	var v common.DocElementID
	if rest, ok := strings.CutPrefix(s, "DocumentRef-"); ok {
		d, e, found := strings.Cut(rest, ":")
		v.DocumentRefID = common.DocumentID(d)
		if d == "" {
			return v, false
		}
		if !found {
			return v, true
		}
		s = e
	}
	id, ok := strings.CutPrefix(s, "SPDXRef-")
	v.ElementRefID = common.ElementID(id)
	return v, ok && id != ""
}

// C08_Again: whatever an identifier is decoded from, it encodes to that form again.
func C08_Again() {
	sym.Witness("done")
	s := sym.From("text", plainSet, 0, 40)
	data, err := json.Marshal(s)
	sym.Assert(err == nil, "a string has no JSON form")
	var got common.DocElementID
	sym.Assume(json.Unmarshal(data, &got) == nil)
	// identifiers do not start with the prefix themselves
	sym.Assume(!strings.HasPrefix(string(got.ElementRefID), "SPDXRef-"))
	sym.Assume(!strings.HasPrefix(string(got.DocumentRefID), "DocumentRef-"))
	sym.Known("document-only", got.ElementRefID == "" && got.SpecialID == "")
	again, err := json.Marshal(got)
	sym.Assert(err == nil, "an identifier that was read cannot be written")
	var back string
	sym.Assert(json.Unmarshal(again, &back) == nil, "an identifier is not written as a string")
	sym.Assert(back == s, "an identifier that was read is written in another form")
	sym.Reach("done")
}
