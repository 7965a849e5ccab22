package h

import (
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/spdx"

	"verifharness/sym"
)

// licensed is a package of n files with different names.
func licensed(name string, n int, lic func() string) *spdx.Package {
	p := &spdx.Package{}
	for i := 0; i < n; i++ {
		f := &spdx.File{FileName: sym.From(name, tokenSet, 0, 12), LicenseConcluded: lic()}
		for _, o := range p.Files {
			sym.Assume(o.FileName != f.FileName)
		}
		p.Files = append(p.Files, f)
	}
	return p
}

func concluded(p *spdx.Package, name string) (string, bool) {
	for _, f := range p.Files {
		if f.FileName == name {
			return f.LicenseConcluded, true
		}
	}
	return "", false
}

func c21(max int, lic func() string) {
	sym.Bound("maporder", 4)

	a := licensed("first.name", sym.Choice("first", max+1), lic)
	b := licensed("second.name", sym.Choice("second", max+1), lic)
	if max == 1 {
		for n := 2 - len(a.Files) - len(b.Files); n > 0; n-- {
			lic()
		}
	}
	pairs, err := licensediff.MakePairs(a, b)
	sym.Assert(err == nil, "two packages cannot be paired")
	groups(a, b, pairs)
	sym.Reach("done")
}

// groups asserts that the pairs and their groups are those of the files.
func groups(a, b *spdx.Package, pairs map[string]licensediff.LicensePair) {
	names := 0
	for _, f := range a.Files {
		names++
		p, ok := pairs[f.FileName]
		l, _ := concluded(b, f.FileName)
		sym.Assert(ok && p.First == f.LicenseConcluded && p.Second == l, "a file of the first package is paired wrongly")
	}
	for _, f := range b.Files {
		if _, both := concluded(a, f.FileName); both {
			continue
		}
		names++
		p, ok := pairs[f.FileName]
		sym.Assert(ok && p.First == "" && p.Second == f.LicenseConcluded, "a file of the second package is paired wrongly")
	}
	sym.Assert(len(pairs) == names, "a pair has no file")

	d, err := licensediff.MakeResults(pairs)
	sym.Assert(err == nil, "pairs cannot be sorted into groups")
	sym.Assert(len(d.InBothChanged)+len(d.InBothSame)+len(d.InFirstOnly)+len(d.InSecondOnly) == names, "a file is in no group or in several")
	for _, f := range a.Files {
		l, both := concluded(b, f.FileName)
		switch {
		case !both:
			x, ok := d.InFirstOnly[f.FileName]
			sym.Assert(ok, "a file of the first package only is in another group")
			sym.Assert(x == f.LicenseConcluded, "the license recorded for a file is not that of the package")
		case l == f.LicenseConcluded:
			x, ok := d.InBothSame[f.FileName]
			sym.Assert(ok, "a file with the same license in both is in another group")
			sym.Assert(x == l, "the license recorded for a file is not that of the package")
		default:
			x, ok := d.InBothChanged[f.FileName]
			sym.Assert(ok, "a file with different licenses is in another group")
			sym.Assert(x.First == f.LicenseConcluded && x.Second == l, "the licenses recorded for a file are not those of the packages")
		}
	}
	for _, f := range b.Files {
		if _, both := concluded(a, f.FileName); !both {
			x, ok := d.InSecondOnly[f.FileName]
			sym.Assert(ok, "a file of the second package only is in another group")
			sym.Assert(x == f.LicenseConcluded, "the license recorded for a file is not that of the package")
		}
	}
}

// C21_Groups: every file is in exactly the group it belongs to.
func C21_Groups() {
	sym.Witness("done")
	max := 2
	if sym.Thorough() {
		max = 3
	}
	c21(max, func() string { return sym.From("license", tokenSet+" ", 1, 12) })
}

// C21_NoLicense: the same when some files have no concluded license.
func C21_NoLicense() {
	sym.Witness("done")
	left, none := 2, false
	c21(1, func() string {
		l := sym.From("license", tokenSet+" ", 0, 12)
		none = none || l == ""
		if left--; left == 0 {
			sym.Known("no-license", none)
		}
		return l
	})
}
