package h

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"

	"verifharness/sym"
)

func sum(f *spdx.File, alg common.ChecksumAlgorithm) string {
	n, v := 0, ""
	for _, c := range f.Checksums {
		if c.Algorithm == alg {
			n++
			v = c.Value
		}
	}
	sym.Assert(n == 1, "a checksum is missing or given twice")
	return v
}

// described asserts that doc describes exactly the given files (relative path to content).
func describedFiles(doc *spdx.Document, paths, contents []string, name string) {
	sym.Assert(len(doc.Packages) == 1 && doc.Packages[0] != nil, "the document has not exactly one package")
	pkg := doc.Packages[0]
	sym.Assert(pkg.PackageName == name, "wrong package name")
	sym.Assert(doc.DocumentName == name, "wrong document name")
	sym.Assert(doc.SPDXVersion == spdx.Version && doc.DataLicense == spdx.DataLicense && doc.SPDXIdentifier == "DOCUMENT", "wrong document header")
	sym.Assert(len(doc.Files) == 0, "files outside the package")
	sym.Assert(len(pkg.Files) == len(paths), "not one file entry per scanned file")
	sym.Assert(pkg.FilesAnalyzed, "the package does not count as analyzed")
	var shas []string
	for i, path := range paths {
		var f *spdx.File
		for _, g := range pkg.Files {
			if g != nil && g.FileName == "."+path {
				sym.Assert(f == nil, "two entries for one file")
				f = g
			}
		}
		sym.Assert(f != nil, "no entry with the relative path of a file")
		b := []byte(contents[i])
		sha := fmt.Sprintf("%x", sha1.Sum(b))
		shas = insertSorted(shas, sha)
		sym.Assert(sum(f, common.SHA1) == sha, "wrong SHA1")
		sym.Assert(sum(f, common.SHA256) == fmt.Sprintf("%x", sha256.Sum256(b)), "wrong SHA256")
		sym.Assert(sum(f, common.MD5) == fmt.Sprintf("%x", md5.Sum(b)), "wrong MD5")
	}
	seen := map[common.ElementID]bool{pkg.PackageSPDXIdentifier: true, doc.SPDXIdentifier: true, "": true}
	for _, f := range pkg.Files {
		sym.Assert(!seen[f.FileSPDXIdentifier], "an identifier is empty or used twice")
		seen[f.FileSPDXIdentifier] = true
	}
	text := ""
	for _, s := range shas {
		text += s
	}
	sym.Assert(pkg.PackageVerificationCode != nil && pkg.PackageVerificationCode.Value == fmt.Sprintf("%x", sha1.Sum([]byte(text))) &&
		len(pkg.PackageVerificationCode.ExcludedFiles) == 0, "wrong verification code")
	n := 0
	for _, r := range doc.Relationships {
		if r.Relationship == common.TypeRelationshipDescribe {
			n++
			sym.Assert(r.RefA == common.MakeDocElementID("", "DOCUMENT") && r.RefB == common.MakeDocElementID("", string(pkg.PackageSPDXIdentifier)), "the document does not describe its package")
		}
	}
	sym.Assert(n == 1 && len(doc.Relationships) == 1, "not exactly one relationship")
}

func creatorGiven(doc *spdx.Document, typ, name string) {
	n := 0
	sym.Assert(doc.CreationInfo != nil, "no creation info")
	for _, c := range doc.CreationInfo.Creators {
		if c.CreatorType == typ && c.Creator == name {
			n++
		}
	}
	sym.Assert(n == 1, "the configured creator is missing")
}

// C19_Build: the document of a directory.
func C19_Build() {
	sym.Witness("built")
	t := &tree{root: sym.TempDir()}
	var contents []string
	add := func(path string) {
		c := sym.String("content", 6)
		t.file(path, c)
		contents = append(contents, c)
	}
	switch sym.Choice("shape", 5) {
	case 0:
	case 1:
		add("/f")
	case 2:
		add("/b")
		add("/a")
		t.link("/c", "a")
	case 3:
		t.dir("/d")
		add("/d/f")
		add("/f")
	case 4:
		t.dir("/d/d d")
		add("/.h")
		add("/d/d d/f")
		add("/z")
	}
	types := []string{"Person", "Organization", "Tool"}
	typ := types[sym.Choice("type", 3)]
	cfg := &builder.Config{
		NamespacePrefix: sym.From("prefix", tokenSet, 0, 8),
		CreatorType:     typ,
		Creator:         sym.From("creator", lineSet, 1, 8),
	}
	created := ""
	if sym.Choice("time", 2) == 1 {
		created = "2018-10-20T16:48:00Z"
		cfg.TestValues = map[string]string{"Created": created}
	}
	name := sym.From("name", idset, 1, 8)
	doc, err := builder.Build(name, t.root, cfg)
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	describedFiles(doc, t.files, contents, name)
	creatorGiven(doc, typ, cfg.Creator)
	sym.Assert(strings.HasPrefix(doc.DocumentNamespace, cfg.NamespacePrefix), "the namespace does not begin with the configured prefix")
	sym.Assert(has(doc.DocumentNamespace[len(cfg.NamespacePrefix):], name), "the namespace does not name the package")
	if created != "" {
		sym.Assert(doc.CreationInfo.Created == created, "wrong creation time")
	} else {
		sym.Assert(doc.CreationInfo.Created != "", "no creation time")
	}
	sym.Reach("built")
}

// C19_Names: files and directories of any name are described.
func C19_Names() {
	sym.Witness("built")
	t := &tree{root: sym.TempDir()}
	var contents []string
	t.names(sym.Choice("shape", 5), func(path string) {
		c := sym.String("content", 2)
		t.file(path, c)
		contents = append(contents, c)
	})
	name := sym.From("package", idset, 1, 8)
	doc, err := builder.Build(name, t.root, &builder.Config{})
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	describedFiles(doc, t.files, contents, name)
	sym.Reach("built")
}

// C19_CreatorType: an unknown creator type counts as Person.
func C19_CreatorType() {
	sym.Witness("built")
	t := &tree{root: sym.TempDir()}
	typ := sym.From("type", alnum, 0, 12)
	want := typ
	if typ != "Person" && typ != "Organization" && typ != "Tool" {
		want = "Person"
	}
	cfg := &builder.Config{CreatorType: typ, Creator: sym.From("creator", lineSet, 1, 4)}
	doc, err := builder.Build("p", t.root, cfg)
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	creatorGiven(doc, want, cfg.Creator)
	sym.Reach("built")
}

// C19_Ignored: ignored files are left out of the entries and of the code.
func C19_Ignored() {
	sym.Witness("built")
	t := &tree{root: sym.TempDir()}
	texts := map[string]string{}
	for _, f := range []string{"/a", "/d/a", "/d/b"} {
		if f == "/d/a" {
			t.dir("/d")
		}
		texts[f] = sym.String("content", 3)
		t.file(f, texts[f])
	}
	p := anyPattern(1)
	var paths, contents []string
	for _, f := range t.files {
		if !p.coversPath(f) {
			paths = append(paths, f)
			contents = append(contents, texts[f])
		}
	}
	doc, err := builder.Build("p", t.root, &builder.Config{PathsIgnored: []string{p.text()}})
	sym.Assert(err == nil && doc != nil, "a directory that can be read is refused")
	describedFiles(doc, paths, contents, "p")
	sym.Reach("built")
}

// C19_Missing: a directory that cannot be read gives an error and no document.
func C19_Missing() {
	sym.Witness("refused")
	t := &tree{root: sym.TempDir()}
	t.file("/f", "")
	doc, err := builder.Build(sym.From("name", idset, 0, 4), t.at([]string{"/missing", "/f/below"}[sym.Choice("root", 2)]), &builder.Config{})
	sym.Assert(err != nil && doc == nil, "a directory that cannot be read gives a document")
	sym.Reach("refused")
}
