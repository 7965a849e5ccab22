package h

import (
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"

	"verifharness/sym"
)

func codeOf(x any) *common.PackageVerificationCode {
	switch v := x.(type) {
	case common.PackageVerificationCode:
		if v.Value == "" && len(v.ExcludedFiles) == 0 {
			return nil
		}
		v.ExcludedFiles = append([]string(nil), v.ExcludedFiles...)
		return &v
	case *common.PackageVerificationCode:
		if v != nil {
			return codeOf(*v)
		}
	}
	return nil
}

func code23(x any) *common.PackageVerificationCode { return codeOf(x) }
func code22(x any) common.PackageVerificationCode {
	if c := codeOf(x); c != nil {
		return *c
	}
	return common.PackageVerificationCode{}
}
func code21(x any) common.PackageVerificationCode { return code22(x) }

func focused(full bool, fields int) *filler {
	f := &filler{format: anyForm, full: full, max: 1000}
	f.focus = sym.Choice("focus", fields)
	return f
}

// checkConvert converts and looks at the result, the error and the source.
func checkConvert[F, T any](d *F, want *T, copyOf *F) *T {
	var got T
	var err error
	if sym.Choice("pointer", 2) == 0 {
		err = convert.Document(d, &got)
	} else {
		err = convert.Document(*d, &got)
	}
	sym.Assert(err == nil, "the document cannot be converted")
	eq(&got, want, "the converted document differs")
	eq(d, copyOf, "the source document was changed")
	return &got
}

func C11_Full21to22() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document21(focused(full, fields21(anyForm, full)))
	checkConvert(d, remap21_22(d), remap21_21(d))
	sym.Reach("done")
}

func C11_Full22to23() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document22(focused(full, fields22(anyForm, full)))
	checkConvert(d, remap22_23(d), remap22_22(d))
	sym.Reach("done")
}

func C11_Full21to23() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document21(focused(full, fields21(anyForm, full)))
	checkConvert(d, remap22_23(remap21_22(d)), remap21_21(d))
	sym.Reach("done")
}

func C12_Full23to22() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document23(focused(full, fields23(anyForm, full)))
	want := remap23_22(d)
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Full22to21() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document22(focused(full, fields22(anyForm, full)))
	want := remap22_21(d)
	got := checkConvert(d, want, remap22_22(d))
	var up v2_2.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap21_22(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Full23to21() {
	sym.Witness("done")
	full := sym.Choice("full", 2) == 1
	d := document23(focused(full, fields23(anyForm, full)))
	want := remap22_21(remap23_22(d))
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(remap21_22(want)), "converting down and up changes the document")
	sym.Reach("done")
}

func C11_Pair21to22() {
	sym.Witness("done")
	d := pair21(anyForm, "")
	checkConvert(d, remap21_22(d), remap21_21(d))
	sym.Reach("done")
}

func C11_Pair22to23() {
	sym.Witness("done")
	d := pair22(anyForm, "")
	checkConvert(d, remap22_23(d), remap22_22(d))
	sym.Reach("done")
}

func C11_Pair21to23() {
	sym.Witness("done")
	d := pair21(anyForm, "")
	checkConvert(d, remap22_23(remap21_22(d)), remap21_21(d))
	sym.Reach("done")
}

func C12_Pair23to22() {
	sym.Witness("done")
	d := pair23(anyForm, "")
	want := remap23_22(d)
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Pair22to21() {
	sym.Witness("done")
	d := pair22(anyForm, "")
	want := remap22_21(d)
	got := checkConvert(d, want, remap22_22(d))
	var up v2_2.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap21_22(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Pair23to21() {
	sym.Witness("done")
	d := pair23(anyForm, "")
	want := remap22_21(remap23_22(d))
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(remap21_22(want)), "converting down and up changes the document")
	sym.Reach("done")
}

func C11_Many21to22() {
	sym.Witness("done")
	d := many21(anyForm)
	checkConvert(d, remap21_22(d), remap21_21(d))
	sym.Reach("done")
}

func C11_Many22to23() {
	sym.Witness("done")
	d := many22(anyForm)
	checkConvert(d, remap22_23(d), remap22_22(d))
	sym.Reach("done")
}

func C11_Many21to23() {
	sym.Witness("done")
	d := many21(anyForm)
	checkConvert(d, remap22_23(remap21_22(d)), remap21_21(d))
	sym.Reach("done")
}

func C12_Many23to22() {
	sym.Witness("done")
	d := many23(anyForm)
	want := remap23_22(d)
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Many22to21() {
	sym.Witness("done")
	d := many22(anyForm)
	want := remap22_21(d)
	got := checkConvert(d, want, remap22_22(d))
	var up v2_2.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap21_22(want), "converting down and up changes the document")
	sym.Reach("done")
}

func C12_Many23to21() {
	sym.Witness("done")
	d := many23(anyForm)
	want := remap22_21(remap23_22(d))
	got := checkConvert(d, want, remap23_23(d))
	var up v2_3.Document
	sym.Assert(convert.Document(got, &up) == nil, "the document cannot be converted back")
	eq(&up, remap22_23(remap21_22(want)), "converting down and up changes the document")
	sym.Reach("done")
}
