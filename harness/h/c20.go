package h

import (
	"strings"

	"github.com/spdx/tools-golang/idsearcher"

	"verifharness/sym"
)

const idTag = "SPDX-License-Identifier:"

// licenseName is any license identifier.
func licenseName() string {
	s := sym.From("license", idset, 1, 5)
	for _, op := range []string{"and", "or", "with"} {
		sym.Assume(!strings.EqualFold(s, op))
	}
	return s
}

// expression is a license expression and the identifiers in it.
func expression() (text string, ids []string, compound bool) {
	n := licenseName
	switch sym.Choice("expression", 10) {
	case 1:
		a := n()
		return a + "+", []string{a}, false
	case 2:
		a, b := n(), n()
		return a + " WITH " + b, []string{a, b}, false
	case 3:
		a, b := n(), n()
		return a + " OR " + b, []string{a, b}, true
	case 4:
		a, b := n(), n()
		return a + " AND " + b + "+", []string{a, b}, true
	case 5:
		a, b, c := n(), n(), n()
		return "(" + a + " OR " + b + ") AND " + c, []string{a, b, c}, true
	case 6:
		a, b := n(), n()
		return "DocumentRef-" + a + ":LicenseRef-" + b, []string{"DocumentRef-" + a + ":LicenseRef-" + b}, false
	case 7:
		a, b, c := n(), n(), n()
		return "(" + a + " AND " + b + ") OR " + c, []string{a, b, c}, true
	case 8:
		a, b := n(), n()
		return a + "+ OR " + b, []string{a, b}, true
	case 9:
		a, b, c := n(), n(), n()
		return a + " OR (" + b + " WITH " + c + ")", []string{a, b, c}, true
	}
	a := n()
	return a, []string{a}, false
}

func addOnce(list []string, s string) []string {
	for _, t := range list {
		if t == s {
			return list
		}
	}
	return insertSorted(list, s)
}

// found is what the searcher has to find in a file.
type found struct {
	exprs    []string
	ids      []string
	compound map[string]bool
}

func (f *found) add(text string, ids []string, compound bool) {
	f.exprs = addOnce(f.exprs, text)
	for _, i := range ids {
		f.ids = addOnce(f.ids, i)
	}
	if f.compound == nil {
		f.compound = map[string]bool{}
	}
	f.compound[text] = compound
}

func (f *found) concluded() string {
	if len(f.exprs) == 0 {
		return "NOASSERTION"
	}
	if len(f.exprs) == 1 {
		return f.exprs[0]
	}
	s := ""
	for i, e := range f.exprs {
		if i > 0 {
			s += " AND "
		}
		if f.compound[e] {
			e = "(" + e + ")"
		}
		s += e
	}
	return s
}

func neutral(ids []string) []string {
	if len(ids) == 0 {
		return []string{"NOASSERTION"}
	}
	return ids
}

// search scans a directory with the given files and asserts what is recorded.
func search(files []string, contents []string, want []*found, cfg *idsearcher.Config) {
	t := &tree{root: sym.TempDir()}
	for i, f := range files {
		if k := strings.LastIndex(f, "/"); k > 0 {
			t.dir(f[:k])
		}
		t.file(f, contents[i])
	}
	doc, err := idsearcher.BuildIDsDocument("p", t.root, cfg)
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	sym.Assert(len(doc.Packages) == 1 && len(doc.Packages[0].Files) == len(files), "not one entry per file")
	var all []string
	for i, f := range files {
		n := 0
		for _, g := range doc.Packages[0].Files {
			if g.FileName != "."+f {
				continue
			}
			n++
			sym.Assert(g.LicenseConcluded == want[i].concluded(), "the concluded license of a file is not the conjunction of its expressions")
			eq(g.LicenseInfoInFiles, neutral(want[i].ids), "the licenses listed for a file are not those found in it")
		}
		sym.Assert(n == 1, "no entry for a file")
		for _, id := range want[i].ids {
			all = addOnce(all, id)
		}
	}
	eq(doc.Packages[0].PackageLicenseInfoFromFiles, neutral(all), "the licenses listed for the package are not those found in its files")
}

// C20_Line: any expression, before any comment trailer.
func C20_Line() {
	sym.Witness("found")
	text, ids, compound := expression()
	trail := ""
	marks := 1
	if sym.Thorough() {
		marks = 2
	}
	switch sym.Choice("trailer", 6) {
	case 1:
		trail = sym.From("blank", " \t", 0, 2) + "*/" + sym.From("rest", ascii("\n\r"), 0, 4)
	case 2:
		trail = sym.From("blank", " \t", 0, 2) + "-->" + sym.From("rest", ascii("\n\r"), 0, 4)
	case 3:
		trail = sym.From("blank", " \t", 0, 2) + sym.From("marks", "\"#'/;*%", 1, marks) + sym.From("blank", " \t", 0, 1)
	case 4:
		trail = sym.From("blank", " \t\r", 1, 2)
	case 5:
		trail = " >"
	}
	f := &found{}
	f.add(text, ids, compound)
	search([]string{"/f"}, []string{"# " + idTag + sym.From("blank", " \t", 0, 2) + text + trail}, []*found{f}, &idsearcher.Config{})
	sym.Reach("found")
}

// C20_Lead: what may stand before the tag, and around the line.
func C20_Lead() {
	sym.Witness("found")
	sym.Witness("code")
	// some letters, and any characters before, among or after them
	letters := "uvwxyz"[sym.Choice("letters", 4)*2:]
	lead := letters
	any := sym.From("any", ascii("\n\r"), 0, 2)
	switch sym.Choice("where", 3) {
	case 0:
		lead = any + letters
	case 1:
		lead += any
	case 2:
		lead = letters[:len(letters)/2] + any + letters[len(letters)/2:]
	}
	name := licenseName()
	content := lead + idTag + " " + name
	switch sym.Choice("around", 4) {
	case 1:
		content += "\n"
	case 2:
		content = "first\n\n" + content + "\r\nlast"
	case 3:
		content = "\n" + content + "\n"
	}
	// up to five characters other than punctuation may stand before the tag
	kept := 0
	for i := 0; i < len(lead); i++ {
		if has("\t\f ()+-.:_"+alnum, lead[i:i+1]) {
			kept++
		}
	}
	want := &found{}
	if kept <= 5 {
		want.add(name, []string{name}, false)
		sym.Reach("found")
	} else {
		sym.Reach("code")
	}
	search([]string{"/f"}, []string{content}, []*found{want}, &idsearcher.Config{})
}

// oneLine is a line of a file that is searched, and what it adds to what is found.
func (f *found) oneLine(kinds int) string {
	switch sym.Choice("line", kinds) {
	case 1: // nothing after the tag
		return "# " + idTag + sym.From("blank", " \t", 0, 2) + "\n"
	case 2:
		return sym.From("text", ascii("\n\r"), 0, 8) + "\n"
	case 3:
		a := licenseName()
		text := a + " OR MIT"
		f.add(text, []string{a, "MIT"}, true)
		return "// " + idTag + " " + text + "\n"
	case 4:
		a := licenseName()
		text := "(" + a + " AND MIT) OR ISC+"
		switch sym.Choice("shape", 4) {
		case 1:
			text = "(" + a + " OR MIT) OR ISC+"
		case 2:
			text = "(" + a + ") AND (MIT+) AND (ISC)"
		case 3:
			text = "MIT AND (" + a + " OR ISC)"
		}
		f.add(text, []string{a, "MIT", "ISC"}, true)
		return "/* " + idTag + " " + text + " */\n"
	}
	n := licenseName()
	f.add(n, []string{n}, false)
	return "// " + idTag + " " + n + "\n"
}

// C20_Lines: several lines in a file.
func C20_Lines() {
	sym.Witness("found")
	f := &found{}
	content := ""
	for n := 2; n > 0; n-- {
		content += f.oneLine(5)
	}
	if sym.Thorough() {
		content += f.oneLine(1)
	}
	search([]string{"/a"}, []string{content}, []*found{f}, &idsearcher.Config{})
	sym.Reach("found")
}

// C20_Files: several files.
func C20_Files() {
	sym.Witness("found")
	files := []string{"/a", "/d/b"}
	var contents []string
	var want []*found
	kinds := 2
	if sym.Thorough() {
		kinds = 5
	}
	for range files {
		f := &found{}
		contents = append(contents, f.oneLine(kinds))
		want = append(want, f)
	}
	search(files, contents, want, &idsearcher.Config{})
	sym.Reach("found")
}

// C20_Names: files of any name are searched.
func C20_Names() {
	sym.Witness("found")
	a, b := fileName("name"), fileName("name")
	files := []string{"/" + a, "/d/" + b}
	switch sym.Choice("shape", 3) {
	case 0:
		sym.Assume(a != "d")
	case 1:
		sym.Assume(a != b)
		files[1] = "/" + b
	case 2:
		files = []string{"/" + a + "/" + b}
	}
	var contents []string
	var want []*found
	for i := range files {
		f := &found{}
		l := []string{"MIT", licenseName()}[i]
		f.add(l, []string{l}, false)
		contents = append(contents, "/* "+idTag+" "+l+" */\n")
		want = append(want, f)
	}
	search(files, contents, want, &idsearcher.Config{})
	sym.Reach("found")
}

// C20_NoTag: what merely resembles the tag contributes nothing.
func C20_NoTag() {
	sym.Witness("none")
	at := sym.Choice("at", len(idTag))
	c := sym.From("other", ascii("\n\r"+idTag[at:at+1]), 0, 1)
	content := sym.From("before", ascii("\n\r"), 0, 3) + idTag[:at] + c + idTag[at+1:] + " MIT"
	sym.Assume(!has(content, idTag))
	search([]string{"/f"}, []string{content}, []*found{{}}, &idsearcher.Config{})
	sym.Reach("none")
}

// C20_Ignored: files the searcher shall not search get the neutral value, files the builder shall ignore no entry.
func C20_Ignored() {
	sym.Witness("searched")
	sym.Witness("ignored")
	files := []string{"/a", "/d/a", "/d/b"}
	p := anyPattern(1)
	cfg := &idsearcher.Config{}
	build := sym.Choice("by", 2) == 1
	if build {
		cfg.BuilderPathsIgnored = []string{p.text()}
	} else {
		cfg.SearcherPathsIgnored = []string{p.text()}
	}
	t := &tree{root: sym.TempDir()}
	t.dir("/d")
	for _, f := range files {
		t.file(f, idTag+" MIT\n")
	}
	doc, err := idsearcher.BuildIDsDocument("p", t.root, cfg)
	sym.Assert(err == nil && doc != nil && len(doc.Packages) == 1, "a directory that can be read is refused")
	for _, f := range files {
		out := p.coversPath(f)
		n := 0
		for _, g := range doc.Packages[0].Files {
			if g.FileName != "."+f {
				continue
			}
			n++
			if out {
				sym.Reach("ignored")
				sym.Assert(g.LicenseConcluded == "NOASSERTION", "a file that is not to be searched has a license")
				eq(g.LicenseInfoInFiles, []string{"NOASSERTION"}, "a file that is not to be searched has a license")
			} else {
				sym.Reach("searched")
				sym.Assert(g.LicenseConcluded == "MIT", "a file that is to be searched has no license")
				eq(g.LicenseInfoInFiles, []string{"MIT"}, "a file that is to be searched has no license")
			}
		}
		if out && build {
			sym.Assert(n == 0, "an ignored file has an entry")
		} else {
			sym.Assert(n == 1, "not one entry per file")
		}
	}
}

// C20_Long: lines may have any length.
func C20_Long() {
	sym.Witness("found")
	long := long()
	if sym.Choice("spaced", 2) == 1 {
		long = " " + long + " "
	}
	f := &found{}
	f.add("MIT", []string{"MIT"}, false)
	content := []string{long + "\n// " + idTag + " MIT\n", "# " + idTag + " MIT\n" + long, "/* " + idTag + " MIT */" + long + "\n"}[sym.Choice("where", 3)]
	search([]string{"/a"}, []string{content}, []*found{f}, &idsearcher.Config{})
	sym.Reach("found")
}
