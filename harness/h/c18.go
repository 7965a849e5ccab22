package h

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/spdx/tools-golang/utils"

	"verifharness/sym"
)

// tree is a directory that a harness fills, and the paths of the regular files in it.
type tree struct {
	root  string
	files []string
}

func must(err error) {
	if err != nil {
		sym.Fail("cannot lay out the test directory: " + err.Error())
	}
}

func (t *tree) at(path string) string { return filepath.Join(t.root, filepath.FromSlash(path)) }

func (t *tree) dir(path string) { must(os.MkdirAll(t.at(path), 0o755)) }

func (t *tree) file(path, content string) {
	must(os.WriteFile(t.at(path), []byte(content), 0o644))
	t.files = append(t.files, path)
}

func (t *tree) link(path, target string) { must(os.Symlink(target, t.at(path))) }

func (t *tree) pipe(path string) { must(syscall.Mkfifo(t.at(path), 0o600)) }

// cover reports which of the files a pattern covers.
func (p pattern) coversPath(path string) bool {
	parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
	return p.covers(parts[:len(parts)-1], parts[len(parts)-1])
}

// listed asserts that got holds exactly the expected paths, each once.
func listed(got, want []string) {
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g == w {
				n++
			}
		}
		sym.Assert(n > 0, "a regular file is missing from the scan")
		sym.Assert(n < 2, "a regular file is listed twice")
	}
	sym.Assert(len(got) == len(want), "the scan lists something that is not a regular file or is ignored")
}

// entry puts one thing (or nothing) of any kind at path.
func (t *tree) entry(path string, depth int) {
	n := 5
	if depth > 0 {
		n = 8
	}
	switch sym.Choice("kind", n) {
	case 0:
	case 1:
		t.file(path, "text")
	case 2:
		t.link(path, "elsewhere")
	case 3:
		t.link(path, ".")
	case 4:
		t.pipe(path)
	case 5: // empty directory
		t.dir(path)
	case 6:
		t.dir(path)
		t.entry(path+"/b", depth-1)
	case 7:
		t.dir(path)
		t.file(path+"/a", "")
		t.entry(path+"/p.q", depth-1)
	}
}

// C18_Kinds: regular files are listed, directories, links and pipes are not.
func C18_Kinds() {
	sym.Witness("scanned")
	t := &tree{root: sym.TempDir()}
	depth := 1
	if sym.Thorough() {
		depth = 2
	}
	t.entry("/a", depth)
	t.entry("/b c", depth)
	t.entry("/.tmp", 0)
	root := t.root
	switch sym.Choice("form", 4) {
	case 1:
		root += "/"
	case 2:
		root += "/../" + filepath.Base(root) + "/."
	case 3: // relative
		old, err := os.Getwd()
		must(err)
		must(os.Chdir(filepath.Dir(root)))
		defer os.Chdir(old)
		root = filepath.Base(root)
	}
	got, err := utils.GetAllFilePaths(root, nil)
	sym.Assert(err == nil, "a directory that can be read is refused")
	listed(got, t.files)
	sym.Reach("scanned")
}

// fileName is any name a file can have.
func fileName(name string) string {
	s := sym.From(name, fileSet, 1, 16)
	sym.Assume(s != "." && s != "..")
	return s
}

// names puts files with arbitrary names into the tree.
func (t *tree) names(shape int, add func(path string)) {
	a := fileName("name")
	switch shape {
	case 0:
		add("/" + a)
	case 1:
		b := fileName("name")
		sym.Assume(a != b)
		add("/" + a)
		add("/" + b)
	case 2:
		t.dir("/" + a)
		add("/" + a + "/" + fileName("name"))
	case 3:
		b := fileName("name")
		sym.Assume(a != b)
		t.dir("/" + a)
		add("/" + a + "/" + b)
		add("/" + b)
		t.dir("/" + a + "/" + a)
	case 4:
		t.dir("/d/" + a)
		add("/d/" + a + "/f")
		b := fileName("name")
		sym.Assume(a != b)
		t.link("/d/"+b, a)
	}
}

// C18_Names: files and directories of any name are scanned.
func C18_Names() {
	sym.Witness("scanned")
	t := &tree{root: sym.TempDir()}
	t.names(sym.Choice("shape", 5), func(path string) { t.file(path, "") })
	var ignored []string
	if sym.Choice("ignore", 2) == 1 {
		ignored = []string{"/ignored", "**/no/"}
		for _, f := range t.files {
			sym.Assume(f != "/ignored" && !has(f, "/no/"))
		}
	}
	got, err := utils.GetAllFilePaths(t.root, ignored)
	sym.Assert(err == nil, "a directory that can be read is refused")
	listed(got, t.files)
	sym.Reach("scanned")
}

// C18_Prefix: paths are relative to the root even if they repeat the root's own path.
func C18_Prefix() {
	sym.Witness("scanned")
	t := &tree{root: sym.TempDir()}
	base := filepath.Base(t.root)
	switch sym.Choice("shape", 4) {
	case 0:
		t.dir(t.root)
		t.file(t.root+"/f", "")
	case 1:
		t.dir("/x" + t.root)
		t.file("/x"+t.root+"/f", "")
	case 2:
		t.dir("/" + base)
		t.file("/"+base+"/"+base, "")
		t.file("/t", "")
		t.file("/m", "")
		t.file("/p", "")
	case 3:
		t.dir("/tmp/tmp")
		t.file("/tmp/tmp/tmp", "")
		t.file("/tmp/tmp2", "")
	}
	got, err := utils.GetAllFilePaths(t.root, []string{})
	sym.Assert(err == nil, "a directory that can be read is refused")
	listed(got, t.files)
	sym.Reach("scanned")
}

// C18_Ignored: any patterns leave out exactly what they cover.
func C18_Ignored() {
	sym.Witness("kept")
	sym.Witness("ignored")
	t := &tree{root: sym.TempDir()}
	t.file("/a", "")
	t.file("/ab", "")
	t.dir("/d")
	t.file("/d/a", "")
	t.file("/d/b", "")
	t.dir("/d/d")
	t.file("/d/d/a", "")
	t.dir("/dd")
	t.file("/dd/a", "")
	n := 1 + sym.Choice("patterns", 2)
	var list []string
	var pats []pattern
	for i := 0; i < n; i++ {
		p := anyPattern(2)
		pats = append(pats, p)
		list = append(list, p.text())
	}
	var want []string
	for _, f := range t.files {
		out := false
		for _, p := range pats {
			if p.coversPath(f) {
				out = true
			}
		}
		if out {
			sym.Reach("ignored")
		} else {
			sym.Reach("kept")
			want = append(want, f)
		}
	}
	got, err := utils.GetAllFilePaths(t.root, list)
	sym.Assert(err == nil, "a directory that can be read is refused")
	listed(got, want)
}

// C18_Missing: a root that cannot be read is an error.
func C18_Missing() {
	sym.Witness("refused")
	t := &tree{root: sym.TempDir()}
	t.dir("/d")
	t.file("/d/f", "")
	root := ""
	switch sym.Choice("root", 4) {
	case 0:
		root = t.at("/" + "missing")
	case 1:
		root = t.at("/missing/deeper")
	case 2:
		root = t.at("/d/f/below")
	case 3:
		root = t.at("/d/missing") + "/"
	}
	var ignored []string
	if sym.Choice("ignore", 2) == 1 {
		ignored = []string{anyPattern(1).text()}
	}
	_, err := utils.GetAllFilePaths(root, ignored)
	sym.Assert(err != nil, "a root that cannot be read gives no error")
	sym.Reach("refused")
}

// C18_Hashes: checksums are those of the content.
func C18_Hashes() {
	sym.Witness("sums")
	t := &tree{root: sym.TempDir()}
	max := 16
	if sym.Thorough() {
		max = 64
	}
	content := sym.String("content", max)
	if sym.Choice("bytes", 2) == 1 {
		content += "\x00\xff\xc3\r\n"
		content += sym.String("more", 4)
	}
	switch sym.Choice("long", 4) { // longer than any buffer
	case 1:
		content = strings.Repeat("0123456789abcdef", 9000) + content
	case 2:
		content = content + strings.Repeat("\n", 5000)
	case 3:
		content = strings.Repeat("0123456789abcdef", 300000) + content
	}
	t.file("/f", content)
	a, b, c, err := utils.GetHashesForFilePath(t.at("/f"))
	sym.Assert(err == nil, "a file that can be read is refused")
	sym.Assert(a == fmt.Sprintf("%x", sha1.Sum([]byte(content))), "wrong SHA1")
	sym.Assert(b == fmt.Sprintf("%x", sha256.Sum256([]byte(content))), "wrong SHA256")
	sym.Assert(c == fmt.Sprintf("%x", md5.Sum([]byte(content))), "wrong MD5")
	sym.Reach("sums")
	_, _, _, err = utils.GetHashesForFilePath(t.at("/g"))
	sym.Assert(err != nil, "checksums of a missing file")
	_, _, _, err = utils.GetHashesForFilePath(t.root)
	sym.Assert(err != nil, "checksums of a directory")
}
