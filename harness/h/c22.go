package h

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"

	"verifharness/sym"
)

// licenseText is an arbitrary license expression that fits one report line.
func licenseText(name string) string {
	return sym.From(name, tokenSet+" ", 0, 12)
}

func reportPackage(n int) (*spdx.Package, []string) {
	p := &spdx.Package{FilesAnalyzed: true}
	var lics []string
	for i := 0; i < n; i++ {
		l := licenseText("license")
		lics = append(lics, l)
		p.Files = append(p.Files, &spdx.File{FileName: "f", LicenseConcluded: l})
	}
	return p, lics
}

// C22_Counts: every file is counted once, under its license.
func C22_Counts() {
	sym.Witness("done")
	sym.Bound("maporder", 4)
	n := 4
	if sym.Thorough() {
		n = 5
	}
	n = sym.Choice("files", n+1)
	p, lics := reportPackage(n)
	var buf bytes.Buffer
	sym.Assert(reporter.Generate(p, &buf) == nil, "the report fails")
	counted(buf.String(), lics)
	sym.Reach("done")
}

// counted asserts that a report lists the licenses with their numbers.
func counted(report string, lics []string) {
	n := len(lics)
	// what has to be in it
	var names []string
	var counts []int
	missing := 0
next:
	for _, l := range lics {
		if l == "" || l == "NOASSERTION" {
			missing++
			continue
		}
		for i := range names {
			if names[i] == l {
				counts[i]++
				continue next
			}
		}
		names, counts = append(names, l), append(counts, 1)
	}
	lines := strings.Split(report, "\n")
	sym.Assert(len(lines) == len(names)+6 && lines[len(lines)-1] == "", "the report has a wrong number of lines")
	is := func(i, n int, text string) {
		sym.Assert(sym.Eq(strings.TrimLeft(lines[i], " "), fmt.Sprintf("%d  %s", n, text)), "a total is wrong")
	}
	is(0, n-missing, "License found")
	is(1, missing, "License not found")
	is(2, n, "TOTAL")
	sym.Assert(strings.TrimLeft(lines[3], " ") == "", "the report is laid out wrongly")
	is(len(lines)-2, n-missing, "TOTAL FOUND")
	last := n
	used := make([]bool, len(names))
	for i := range names {
		found := false
		for j := range names {
			if !used[j] && sym.Eq(strings.TrimLeft(lines[4+i], " "), fmt.Sprintf("%d  %s", counts[j], names[j])) {
				sym.Assert(counts[j] <= last, "the report is not in descending order")
				last = counts[j]
				used[j], found = true, true
				break
			}
		}
		sym.Assert(found, "a license is missing or has a wrong count")
	}
}

// C22_Again: generating the report again gives the same text.
func C22_Again() {
	sym.Witness("done")
	sym.Bound("maporder", 4)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	p, _ := reportPackage(n)
	var a, b bytes.Buffer
	sym.Assert(reporter.Generate(p, &a) == nil, "the report fails")
	sym.Assert(reporter.Generate(p, &b) == nil, "the report fails")
	sym.Reach("done")
	sym.Assert(a.String() == b.String(), "the same package gives two different reports")
}

// C22_Unanalyzed: a package whose files were not analyzed has no report.
func C22_Unanalyzed() {
	sym.Witness("done")
	p, _ := reportPackage(sym.Choice("files", 3))
	p.FilesAnalyzed = false
	var buf bytes.Buffer
	sym.Assert(reporter.Generate(p, &buf) != nil, "a report is made for a package without file analysis")
	sym.Assert(buf.Len() == 0, "a report is made for a package without file analysis")
	sym.Reach("done")
}
