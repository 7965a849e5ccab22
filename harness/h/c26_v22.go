// Code generated from tmpl/c26.go.tmpl. DO NOT EDIT.

package h

import (
	"bytes"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// C26_Flag22: packages are analyzed unless the document says false, and stay so.
func C26_Flag22() {
	sym.Witness("done")
	// what else the packages have
	with := sym.Choice("with", 9)
	has := func(k int) bool { return with == k || with == 8 }
	code := sym.From("code", alnum, 1, 40)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	n = 1 + sym.Choice("packages", n)
	format := sym.Choice("format", 3)
	var analyzed []bool
	text := ""
	for i := 0; i < n; i++ {
		name, version := sym.From("name", alnum, 1, 12), sym.From("versionInfo", alnum, 1, 12)
		says := sym.Choice("says", 4)
		analyzed = append(analyzed, says != 2)
		at := sym.Choice("at", 2)
		if format == 2 {
			lines := []string{"PackageName: " + name, "SPDXID: SPDXRef-" + string(rune('a'+i)), "PackageVersion: " + version}
			flag := ""
			switch says {
			case 1:
				flag = "FilesAnalyzed: true"
			case 2:
				flag = "FilesAnalyzed: false"
			case 3:
				v := sym.From("flag", alnum, 1, 8)
				sym.Assume(v != "false")
				flag = "FilesAnalyzed: " + v
			}
			if has(1) {
				lines = append(lines, "PackageVerificationCode: "+code)
			}
			if has(2) {
				lines = append(lines, "PackageLicenseInfoFromFiles: "+code, "PackageLicenseInfoFromFiles: NOASSERTION")
			}
			if has(3) {
				lines = append(lines, "PackageDownloadLocation: "+code, "PackageFileName: "+code)
			}
			if has(4) {
				lines = append(lines, "PackageLicenseConcluded: NONE", "PackageLicenseDeclared: "+code, "PackageCopyrightText: NONE")
			}
			if has(5) {
				lines = append(lines, "PackageChecksum: SHA1: "+code, "PackageHomePage: "+code)
			}
			if has(6) {
				lines = append(lines, "PackageSummary: "+code, "PackageComment: "+code, "PackageDescription: "+code)
			}
			if flag != "" {
				k := 1 + at*(len(lines)-1)
				lines = append(lines[:k:k], append([]string{flag}, lines[k:]...)...)
			}
			text += strings.Join(lines, "\n") + "\n\n"
			if has(7) {
				text += "FileName: ./" + string(rune('a'+i)) + "\nSPDXID: SPDXRef-f" + string(rune('a'+i)) + "\nFileChecksum: SHA1: " + code + "\n\n"
			}
			continue
		}
		items := []string{`"name":"` + name + `"`, `"SPDXID":"SPDXRef-` + string(rune('a'+i)) + `"`, `"versionInfo":"` + version + `"`}
		if has(1) {
			items = append(items, `"packageVerificationCode":{"packageVerificationCodeValue":"`+code+`"}`)
		}
		if has(2) {
			items = append(items, `"licenseInfoFromFiles":["`+code+`","NOASSERTION"]`)
		}
		if has(3) {
			items = append(items, `"downloadLocation":"`+code+`"`, `"packageFileName":"`+code+`"`)
		}
		if has(4) {
			items = append(items, `"licenseConcluded":"NONE"`, `"licenseDeclared":"`+code+`"`, `"copyrightText":"NONE"`)
		}
		if has(5) {
			items = append(items, `"checksums":[{"algorithm":"SHA1","checksumValue":"`+code+`"}]`, `"homepage":"`+code+`"`)
		}
		if has(6) {
			items = append(items, `"summary":"`+code+`"`, `"comment":"`+code+`"`, `"description":"`+code+`"`)
		}
		if has(7) {
			items = append(items, `"hasFiles":["SPDXRef-f"]`)
		}
		if says != 0 {
			flag := `"filesAnalyzed":` + []string{"", "true", "false", "null"}[says]
			if at == 0 {
				items = append([]string{flag}, items...)
			} else {
				items = append(items, flag)
			}
		}
		if text != "" {
			text += ","
		}
		text += "{" + strings.Join(items, ",") + "}"
	}
	d := &v2_2.Document{}
	var err error
	files := ""
	if has(7) {
		files = `,"files":[{"fileName":"./f","SPDXID":"SPDXRef-f","checksums":[{"algorithm":"SHA1","checksumValue":"` + code + `"}]}]`
	}
	switch format {
	case 0:
		err = json.ReadInto(strings.NewReader(`{"spdxVersion":"`+v2_2.Version+`","SPDXID":"SPDXRef-DOCUMENT","creationInfo":{"created":"now"},"packages":[`+text+`]`+files+`}`), d)
	case 1:
		err = yaml.ReadInto(strings.NewReader(`{"spdxVersion":"`+v2_2.Version+`","SPDXID":"SPDXRef-DOCUMENT","creationInfo":{"created":"now"},"packages":[`+text+`]`+files+`}`), d)
	case 2:
		err = tagvalue.ReadInto(strings.NewReader("SPDXVersion: "+v2_2.Version+"\nSPDXID: SPDXRef-DOCUMENT\nCreated: now\n\n"+text), d)
	}
	sym.Assert(err == nil, "the document cannot be read")
	check := func(d *v2_2.Document, msg string) {
		sym.Assert(len(d.Packages) == n, "a package is lost")
		for i, p := range d.Packages {
			sym.Assert(p.FilesAnalyzed == analyzed[i], msg)
		}
	}
	check(d, "a package read is analyzed although the document says false, or the other way round")

	// through one of the writers
	var buf bytes.Buffer
	again := &v2_2.Document{}
	switch sym.Choice("then", 6) {
	case 0:
		err = json.Write(d, &buf)
		sym.Assert(err == nil, "the document cannot be written")
		err = json.ReadInto(&buf, again)
	case 1:
		err = yaml.Write(d, &buf)
		sym.Assert(err == nil, "the document cannot be written")
		err = yaml.ReadInto(&buf, again)
	case 2:
		err = tagvalue.Write(d, &buf)
		sym.Assert(err == nil, "the document cannot be written")
		err = tagvalue.ReadInto(&buf, again)
	case 3:
		var o v2_1.Document
		sym.Assert(convert.Document(d, &o) == nil, "the document cannot be converted")
		for i, p := range o.Packages {
			sym.Assert(p.FilesAnalyzed == analyzed[i], "a converted package has another flag")
		}
		err = convert.Document(o, again)
	case 4:
		var o v2_2.Document
		sym.Assert(convert.Document(d, &o) == nil, "the document cannot be converted")
		for i, p := range o.Packages {
			sym.Assert(p.FilesAnalyzed == analyzed[i], "a converted package has another flag")
		}
		err = convert.Document(o, again)
	case 5:
		var o v2_3.Document
		sym.Assert(convert.Document(d, &o) == nil, "the document cannot be converted")
		for i, p := range o.Packages {
			sym.Assert(p.FilesAnalyzed == analyzed[i], "a converted package has another flag")
		}
		err = convert.Document(o, again)
	}
	sym.Assert(err == nil, "the document cannot be read again")
	check(again, "a package changes its flag when it is written and read or converted")
	sym.Reach("done")
}

// C26_Many22: what many packages say, and one of them says.
func C26_Many22() {
	sym.Witness("done")
	n, odd := many(5, 14, 70)
	format := sym.Choice("format", 3)
	others, says := sym.Choice("others", 4), sym.Choice("says", 3)
	name := sym.From("name", alnum, 1, 8)
	text := ""
	var analyzed []bool
	for i := 0; i < n; i++ {
		k, nm := others, "p"+num(i)
		if others == 3 {
			k = i % 3
		}
		if i == odd {
			k, nm = says, name
		}
		analyzed = append(analyzed, k != 2)
		if format == 2 {
			text += "PackageName: " + nm + "\nSPDXID: SPDXRef-p" + num(i) + "\n" + []string{"", "FilesAnalyzed: true\n", "FilesAnalyzed: false\n"}[k]
			continue
		}
		if i > 0 {
			text += ","
		}
		text += `{"name":"` + nm + `",` + []string{"", `"filesAnalyzed":true,`, `"filesAnalyzed":false,`}[k] + `"SPDXID":"SPDXRef-p` + num(i) + `"}`
	}
	d := &v2_2.Document{}
	var err error
	switch format {
	case 0:
		err = json.ReadInto(strings.NewReader(`{"spdxVersion":"`+v2_2.Version+`","SPDXID":"SPDXRef-DOCUMENT","creationInfo":{"created":"now"},"packages":[`+text+`]}`), d)
	case 1:
		err = yaml.ReadInto(strings.NewReader(`{"spdxVersion":"`+v2_2.Version+`","SPDXID":"SPDXRef-DOCUMENT","creationInfo":{"created":"now"},"packages":[`+text+`]}`), d)
	case 2:
		err = tagvalue.ReadInto(strings.NewReader("SPDXVersion: "+v2_2.Version+"\nSPDXID: SPDXRef-DOCUMENT\nCreated: now\n\n"+text), d)
	}
	sym.Assert(err == nil, "the document cannot be read")
	check := func(d *v2_2.Document, msg string) {
		sym.Assert(len(d.Packages) == n, "a package is lost")
		for i, p := range d.Packages {
			sym.Assert(p.FilesAnalyzed == analyzed[i], msg)
		}
	}
	check(d, "a package read is analyzed although the document says false, or the other way round")
	var buf bytes.Buffer
	again := &v2_2.Document{}
	switch sym.Choice("then", 4) {
	case 0:
		sym.Assert(json.Write(d, &buf) == nil, "the document cannot be written")
		err = json.ReadInto(&buf, again)
	case 1:
		sym.Assert(tagvalue.Write(d, &buf) == nil, "the document cannot be written")
		err = tagvalue.ReadInto(&buf, again)
	case 2:
		var o v2_1.Document
		sym.Assert(convert.Document(d, &o) == nil, "the document cannot be converted")
		err = convert.Document(o, again)
	case 3:
		var o v2_3.Document
		sym.Assert(convert.Document(d, &o) == nil, "the document cannot be converted")
		err = convert.Document(o, again)
	}
	sym.Assert(err == nil, "the document cannot be read again")
	check(again, "a package changes its flag when it is written and read or converted")
	sym.Reach("done")
}
