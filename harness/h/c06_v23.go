// Code generated from tmpl/c06.go.tmpl. DO NOT EDIT.

package h

import (
	"bytes"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"

	"verifharness/sym"
)

// C06_Full23: writing and reading JSON gives every field of a document back.
func C06_Full23() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	f := &filler{format: jsonForm, full: full, max: 1000}
	f.focus = sym.Choice("focus", fields23(jsonForm, full))
	d := document23(f)
	var buf bytes.Buffer
	sym.Assert(json.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_3.Document
	err := json.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc23(&got, d)
}

// C06_Options23: indentation and HTML escaping do not change what is read back.
func C06_Options23() {
	sym.Witness("done")
	f := &filler{format: jsonForm, focus: -1, max: 20}
	d := document23(f)
	switch sym.Choice("where", 4) {
	case 0:
		d.DocumentName = sym.String("text", 60)
	case 1:
		d.Packages[0].PackageName = sym.String("text", 60)
	case 2:
		d.CreationInfo.Creators = []common.Creator{{CreatorType: "Tool", Creator: f.free("text")}}
	case 3:
		d.OtherLicenses[0].ExtractedText = sym.String("text", 60)
	}
	var opts []json.WriteOption
	switch sym.Choice("indent", 4) {
	case 1:
		opts = append(opts, json.Indent(""))
	case 2:
		opts = append(opts, json.Indent("  "))
	case 3:
		opts = append(opts, json.Indent("\t"))
	}
	switch sym.Choice("escape", 3) {
	case 1:
		opts = append(opts, json.EscapeHTML(true))
	case 2:
		opts = append(opts, json.EscapeHTML(false))
	}
	var buf bytes.Buffer
	sym.Assert(json.Write(d, &buf, opts...) == nil, "the document cannot be written")
	var got v2_3.Document
	err := json.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc23(&got, d)
}

// C06_Shape23: any selection of sections, with up to two elements each.
func C06_Shape23() {
	sym.Witness("done")
	f := &filler{format: jsonForm, focus: -1, max: 20}
	d := head23(f)
	if sym.Choice("creation", 2) == 0 {
		d.CreationInfo = nil
	}
	n := sym.Choice("length", 3)
	has := func(name string) int {
		if sym.Choice(name, 2) == 0 {
			return 0
		}
		return n
	}
	for i := has("files"); i > 0; i-- {
		d.Files = append(d.Files, file23(f, ""))
	}
	for i := has("packages"); i > 0; i-- {
		p := package23(f, "")
		if i == 1 {
			p.PackageVerificationCode = &common.PackageVerificationCode{Value: "c"}
		}
		d.Packages = append(d.Packages, p)
	}
	for i := has("snippets"); i > 0; i-- {
		d.Snippets = append(d.Snippets, *snippet23(f, ""))
	}
	for i := has("licenses"); i > 0; i-- {
		d.OtherLicenses = append(d.OtherLicenses, license23(f))
	}
	for i := has("relationships"); i > 0; i-- {
		d.Relationships = append(d.Relationships, relationship23(f))
	}
	for i := has("annotations"); i > 0; i-- {
		d.Annotations = append(d.Annotations, annotation23(f))
	}
	var buf bytes.Buffer
	sym.Assert(json.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_3.Document
	err := json.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc23(&got, d)
}

// C06_Pair23: any two fields of an element there or absent.
func C06_Pair23() {
	sym.Witness("done")
	d := pair23(jsonForm, "")
	var buf bytes.Buffer
	sym.Assert(json.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_3.Document
	err := json.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc23(&got, d)
}

// C06_Many23: lists of any kind may be long.
func C06_Many23() {
	sym.Witness("done")
	d := many23(jsonForm)
	var buf bytes.Buffer
	sym.Assert(json.Write(d, &buf) == nil, "the document cannot be written")
	var got v2_3.Document
	err := json.ReadInto(bytes.NewReader(buf.Bytes()), &got)
	sym.Assert(err == nil, "the written document cannot be read")
	sym.Reach("done")
	sameDoc23(&got, d)
}
