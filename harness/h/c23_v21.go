// Code generated from tmpl/c23.go.tmpl. DO NOT EDIT.

package h

import (
	"io"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"

	"verifharness/sym"
)

// failing21 tries every way in which the destination can refuse the text of a document.
func failing21(full bool, write func(doc any, w io.Writer) error) {
	sym.Witness("failed")
	sym.Witness("succeeded")
	f := &filler{format: tagValue, focus: -1, full: full}
	d := document21(f)
	checkFailing(func(w io.Writer) error { return write(d, w) })
}

func C23_TagValue21() {
	failing21(sym.Thorough(), func(doc any, w io.Writer) error { return tagvalue.Write(doc, w) })
}

func C23_JSON21() {
	failing21(sym.Thorough(), func(doc any, w io.Writer) error { return json.Write(doc, w) })
}

func C23_YAML21() {
	failing21(sym.Thorough(), func(doc any, w io.Writer) error { return yaml.Write(doc, w) })
}
