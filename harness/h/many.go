package h

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	tv "github.com/spdx/tools-golang/tagvalue/reader"
	"github.com/spdx/tools-golang/utils"

	"verifharness/sym"
)

// Long lists: what holds for a few elements holds for many. The elements are
// numbered, and one of them is arbitrary.

// many is a number of elements and the one among them that is arbitrary.
func many(sizes ...int) (n, odd int) {
	n = sizes[sym.Choice("many", len(sizes))]
	return n, []int{n - 1, 0, n / 2}[sym.Choice("which", 3)]
}

func num(i int) string {
	return string([]byte{'0' + byte(i/100%10), '0' + byte(i/10%10), '0' + byte(i%10)})
}

// between is a name before or after all others or the first of them.
func between(name, first string) string {
	switch sym.Choice(name+".place", 3) {
	case 0:
		return "K" + sym.From(name, alnum, 0, 6)
	case 1:
		return "M" + sym.From(name, alnum, 0, 6)
	}
	return first
}

// C01_Many: texts may have many lines.
func C01_Many() {
	sym.Witness("ok")
	n, odd := many(12, 70, 300)
	text := ""
	var want []pair
	for i := 0; i < n; i++ {
		p := pair{Tag: "T" + num(i), Value: "v: " + num(i)}
		if i == odd {
			p.Value = sym.From("value", alnum, 1, 12)
		}
		switch i % 5 {
		case 0:
			text += p.Tag + ": " + p.Value + "\n"
		case 1:
			text += "# comment: " + num(i) + "\n" + p.Tag + ": <text>" + p.Value + "</text>\n"
		case 2:
			p.Value += strings.Repeat("\n#line: "+num(i), i)
			text += "\n" + p.Tag + ":<text>" + p.Value + "</text>\n"
		case 3:
			text += "\n\n" + p.Tag + ":" + p.Value + "\r\n"
		case 4:
			p.Value = "\n\n" + p.Value + "\n"
			text += p.Tag + ":<text>" + p.Value + "</text>\n"
		}
		want = append(want, p)
	}
	got, err := tv.ReadTagValues(strings.NewReader(text))
	sym.Assert(err == nil, "well-formed text was refused")
	samePairs(got, want)
	sym.Reach("ok")
}

// C16_Many: the code of many files.
func C16_Many() {
	sym.Witness("code")
	n, odd := many(7, 15, 300)
	exclude := ""
	if sym.Choice("exclude", 2) == 1 {
		exclude = sym.From("excluded", "./f0123456789", 1, 8)
		if n > 50 {
			exclude = "./f" + num(odd)
		}
	}
	var files []*spdx.File
	var shas []string
	for i := 0; i < n; i++ {
		f := &spdx.File{FileName: "./f" + num(i)}
		v := fmt.Sprintf("%040x", (i*7919+13)%1009)
		if i == odd {
			v = []string{strings.Repeat("f", 40), strings.Repeat("0", 40), fmt.Sprintf("%040x", 13)}[sym.Choice("sum", 3)]
		}
		f.Checksums = []common.Checksum{{Algorithm: common.SHA1, Value: v}}
		if i%3 == 1 {
			f.Checksums = append([]common.Checksum{{Algorithm: common.SHA256, Value: "0"}, {Algorithm: common.MD5, Value: "1"}}, f.Checksums...)
		}
		if f.FileName != exclude {
			shas = insertSorted(shas, v)
		}
		files = append(files, f)
	}
	code, err := utils.GetVerificationCode(files, exclude)
	sym.Assert(err == nil, "the verification code of well-formed files is refused")
	sym.Assert(code.Value == fmt.Sprintf("%x", sha1.Sum([]byte(strings.Join(shas, "")))), "the verification code is not the SHA-1 of the sorted SHA-1 values")
	sym.Reach("code")
}

// C17_Many: many patterns and long paths.
func C17_Many() {
	sym.Witness("done")
	n, odd := many(4, 20, 70)
	var list []string
	var pats []pattern
	for i := 0; i < n; i++ {
		p := pattern{anywhere: i%2 == 1, dirs: []string{"x" + num(i)}, file: "y"}
		if i == odd {
			p = pattern{anywhere: sym.Choice("anywhere", 2) == 1, file: []string{"", "f"}[sym.Choice("file", 2)]}
			for j, k := 0, 1+sym.Choice("dirs", 3); j < k; j++ {
				p.dirs = append(p.dirs, []string{"a", "d" + num(j)}[sym.Choice("dir", 2)])
			}
		}
		pats = append(pats, p)
		list = append(list, p.text())
	}
	var dirs []string
	for i, k := 0, []int{3, 8, 20}[sym.Choice("depth", 3)]; i < k; i++ {
		d := "d" + num(i)
		if i == k/2 && n < 70 {
			d = sym.From("dir", ascii("/"), 1, 4)
		}
		dirs = append(dirs, d)
	}
	var file string
	if n < 70 {
		file = sym.From("file", ascii("/"), 1, 4)
	} else {
		file = []string{"f", "y", "g"}[sym.Choice("name", 3)]
	}
	want := false
	for _, p := range pats {
		if p.covers(dirs, file) {
			want = true
		}
	}
	sym.Assert(utils.ShouldIgnore("/"+strings.Join(dirs, "/")+"/"+file, list) == want, "a path is ignored exactly when a pattern covers it")
	sym.Reach("done")
}

// manyFiles fills a tree with many files in one directory, and below many.
func manyFiles(t *tree, n int, content func(i int) string) {
	deep := ""
	for i := 0; i < n; i++ {
		path := "/f" + num(i)
		if i%2 == 1 {
			if i < 90 {
				deep += "/d" + num(i)
				t.dir(deep)
			}
			path = deep + "/f"
			if i >= 90 {
				path += num(i)
			}
		}
		t.file(path, content(i))
	}
}

// C18_Many: directories with many entries, many levels deep.
func C18_Many() {
	sym.Witness("scanned")
	n, odd := many(7, 24, 130)
	t := &tree{root: sym.TempDir()}
	manyFiles(t, n, func(i int) string { return "" })
	t.file("/z"+fileName("name"), "")
	ignored := []string{}
	want := t.files
	if sym.Choice("ignore", 2) == 1 {
		ignored = []string{t.files[odd]}
		want = append(append([]string{}, want[:odd]...), want[odd+1:]...)
	}
	got, err := utils.GetAllFilePaths(t.root, ignored)
	sym.Assert(err == nil, "a directory that can be read is refused")
	listed(got, want)
	sym.Reach("scanned")
}

// C19_Many: the document of a directory with many files.
func C19_Many() {
	sym.Witness("built")
	n, odd := many(7, 13, 280)
	t := &tree{root: sym.TempDir()}
	var contents []string
	manyFiles(t, n, func(i int) string {
		c := "content " + num(i)
		if i == odd {
			c = []string{"", "content 000"}[sym.Choice("content", 2)]
		}
		contents = append(contents, c)
		return c
	})
	name := sym.From("name", idset, 1, 8)
	doc, err := builder.Build(name, t.root, &builder.Config{CreatorType: "Person", Creator: "c"})
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	describedFiles(doc, t.files, contents, name)
	sym.Reach("built")
}

// C20_Many: many files, many lines, many identifiers.
func C20_Many() {
	sym.Witness("found")
	n, odd := many(5, 14, 120)
	var files, contents []string
	var want []*found
	one := &found{}
	text := ""
	// The contents of many files are sorted by their SHA-1, which a symbolic
	// text would put anywhere: there, the odd identifier is one of a few.
	together := sym.Choice("where", 2) == 0
	var other string
	if together {
		other = between("license", "L000")
	} else {
		other = []string{"K", "L000", "M", "NOASSERTION"}[sym.Choice("license", 4)]
	}
	for i := 0; i < n; i++ {
		l := "L" + num(i*7%n)
		ids := []string{l}
		if i == odd {
			l = other
			ids[0] = l
		} else if i%4 == 2 {
			l += []string{" OR ", " AND ", " WITH "}[i/4%3] + "LM" + num(i)
			ids = append(ids, "LM"+num(i))
		}
		f := &found{}
		f.add(l, ids, i/4%3 < 2 && len(ids) > 1)
		one.add(l, ids, i/4%3 < 2 && len(ids) > 1)
		files, want = append(files, "/f"+num(i)), append(want, f)
		contents = append(contents, "# "+idTag+" "+l+"\n")
		text += "x\n\n// " + idTag + " " + l + "\n"
	}
	if together {
		files, contents, want = []string{"/f"}, []string{text}, []*found{one}
	}
	search(files, contents, want, &idsearcher.Config{})
	sym.Reach("found")
}

// C20_Deep: expressions with many operands.
func C20_Deep() {
	sym.Witness("found")
	n, odd := many(4, 9, 70)
	expr := ""
	f := &found{}
	var ids []string
	for i := 0; i < n; i++ {
		l := "L" + num(i*7%n)
		if i == odd {
			l = between("license", "L000")
		}
		ids = append(ids, l)
		if i > 0 {
			expr += []string{" AND ", " OR "}[i/2%2]
		}
		if i%3 == 1 && i+1 < n {
			expr += "("
		}
		expr += l
		if i%3 == 2 {
			expr += ")"
		}
	}
	f.add(expr, ids, true)
	search([]string{"/a"}, []string{"// " + idTag + " " + expr + "\n"}, []*found{f}, &idsearcher.Config{})
	sym.Reach("found")
}

// C21_Many: packages with many files.
func C21_Many() {
	sym.Witness("done")
	n, odd := many(5, 12, 300)
	var a, b spdx.Package
	lic := func(i int) string { return "L" + num(i) }
	x := sym.From("license", alnum, 1, 4)
	for i := 0; i < n; i++ {
		l := lic(i % 5)
		if i == odd {
			l = x
		}
		if i%4 != 3 {
			a.Files = append(a.Files, &spdx.File{FileName: "f" + num(i), LicenseConcluded: l})
		}
		if i%4 != 2 {
			b.Files = append(b.Files, &spdx.File{FileName: "f" + num(n-1-i), LicenseConcluded: lic((n - 1 - i) * 3 % 7)})
		}
	}
	pairs, err := licensediff.MakePairs(&a, &b)
	sym.Assert(err == nil, "two packages cannot be paired")
	groups(&a, &b, pairs)
	sym.Reach("done")
}

// C22_Many: the report of many files.
func C22_Many() {
	sym.Witness("done")
	n, odd := many(9, 30, 1100)
	p := &spdx.Package{FilesAnalyzed: true}
	var lics []string
	for i := 0; i < n; i++ {
		l := "L" + num(i*i%[]int{5, 14, 31}[i%3])
		if i%10 == 9 {
			l = []string{"", "NOASSERTION"}[i/10%2]
		}
		if i%3 == 2 {
			l = "L001"
		}
		if i == odd {
			l = sym.From("license", alnum, 0, 4)
		}
		lics = append(lics, l)
		p.Files = append(p.Files, &spdx.File{FileName: "f", LicenseConcluded: l})
	}
	var buf bytes.Buffer
	sym.Assert(reporter.Generate(p, &buf) == nil, "the report fails")
	counted(buf.String(), lics)
	sym.Reach("done")
}

// C24_Many: documents with many elements and relationships.
func C24_Many() {
	sym.Witness("valid")
	sym.Witness("dangling")
	n, odd := many(5, 14, 300)
	d := &spdx.Document{SPDXIdentifier: "DOCUMENT"}
	for i := 0; i < n; i++ {
		d.Packages = append(d.Packages, &spdx.Package{PackageSPDXIdentifier: common.ElementID("p" + num(i))})
		d.Files = append(d.Files, &spdx.File{FileSPDXIdentifier: common.ElementID("f" + num(n-i))})
		r := &spdx.Relationship{RefA: common.MakeDocElementID("", "p"+num(i)), RefB: common.MakeDocElementID("", "f"+num(i+1)), Relationship: "CONTAINS"}
		if i == odd {
			end := common.MakeDocElementID("", []string{"p299", "p000", "f001", "DOCUMENT", "f000"}[sym.Choice("element", 5)])
			if n < 100 {
				end = common.MakeDocElementID("", sym.From("end", "pfDOCUMENT0123", 4, 8))
			}
			if sym.Choice("side", 2) == 0 {
				r.RefA = end
			} else {
				r.RefB = end
			}
		}
		d.Relationships = append(d.Relationships, r)
	}
	there := false
	r := d.Relationships[odd]
	for _, e := range []common.ElementID{r.RefA.ElementRefID, r.RefB.ElementRefID} {
		there = e == "DOCUMENT"
		for i := 0; i < n && !there; i++ {
			there = string(e) == "p"+num(i) || string(e) == "f"+num(i+1)
		}
		if !there {
			break
		}
	}
	err := spdxlib.ValidateDocument(d)
	if there {
		sym.Assert(err == nil, "a document without dangling references is refused")
		sym.Reach("valid")
	} else {
		sym.Assert(err != nil, "a document with a dangling reference is accepted")
		sym.Reach("dangling")
	}
}

// C25_Many: many packages are described.
func C25_Many() {
	sym.Witness("described")
	n, odd := many(5, 14, 300)
	d := &spdx.Document{}
	var want []string
	for i := 0; i < n; i++ {
		id := "L" + num(i*7%n)
		if i == odd {
			id = between("id", "L000")
		}
		d.Packages = append(d.Packages, &spdx.Package{PackageSPDXIdentifier: common.ElementID(id)})
		r := &spdx.Relationship{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", id), Relationship: "DESCRIBES"}
		if i%3 == 1 {
			r.RefA, r.RefB, r.Relationship = r.RefB, r.RefA, "DESCRIBED_BY"
		}
		if i%5 == 4 {
			r.Relationship = "CONTAINS"
		} else {
			want = addOnce(want, id)
		}
		d.Relationships = append([]*spdx.Relationship{r}, d.Relationships...)
	}
	got, err := spdxlib.GetDescribedPackageIDs(d)
	sym.Assert(err == nil, "described packages are not listed")
	sym.Assert(len(got) == len(want), "the list of described packages has a wrong length")
	for i := range want {
		sym.Assert(string(got[i]) == want[i], "the list of described packages is wrong")
	}
	sym.Reach("described")
}
