package h

import (
	"github.com/spdx/tools-golang/utils"

	"verifharness/sym"
)

// segment is an arbitrary name of a directory or file.
func segment(name string) string { return sym.From(name, ascii("/"), 1, 8) }

// pattern is one ignore pattern, taken apart.
type pattern struct {
	anywhere bool // begins with **/ rather than /
	dirs     []string
	file     string // empty: all files
}

func (p pattern) text() string {
	s := "/"
	if p.anywhere {
		s = "**/"
	}
	for _, d := range p.dirs {
		s += d + "/"
	}
	return s + p.file
}

// covers is the documented meaning of a pattern.
func (p pattern) covers(dirs []string, file string) bool {
	if p.file != "" && p.file != file {
		return false
	}
	at := func(k int) bool {
		if k+len(p.dirs) > len(dirs) {
			return false
		}
		for i, d := range p.dirs {
			if dirs[k+i] != d {
				return false
			}
		}
		return true
	}
	if !p.anywhere {
		// a directory with all below it, or one file
		return at(0) && (p.file == "" || len(p.dirs) == len(dirs))
	}
	for k := 0; k <= len(dirs); k++ {
		if at(k) {
			return true
		}
	}
	return false
}

func anyPattern(max int) pattern {
	p := pattern{anywhere: sym.Choice("anywhere", 2) == 1}
	for n := sym.Choice("pattern.dirs", max+1); n > 0; n-- {
		p.dirs = append(p.dirs, segment("pattern.dir"))
	}
	if sym.Choice("one file", 2) == 1 {
		p.file = segment("pattern.file")
	}
	return p
}

func c17(max, patterns int) {
	sym.Witness("ignored")
	sym.Witness("kept")
	var dirs []string
	path := "/"
	for n := sym.Choice("dirs", max+1); n > 0; n-- {
		d := segment("dir")
		dirs = append(dirs, d)
		path += d + "/"
	}
	file := segment("file")
	path += file
	var list []string
	want := false
	for n := sym.Choice("patterns", patterns+1); n > 0; n-- {
		p := anyPattern(2)
		list = append(list, p.text())
		if p.covers(dirs, file) {
			want = true
		}
	}
	got := utils.ShouldIgnore(path, list)
	if want {
		sym.Assert(got, "a path that a pattern covers is kept")
		sym.Reach("ignored")
	} else {
		sym.Assert(!got, "a path that no pattern covers is ignored")
		sym.Reach("kept")
	}
}

// C17_One: one pattern against deep paths.
func C17_One() {
	if sym.Thorough() {
		c17(4, 1)
	} else {
		c17(3, 1)
	}
}

// C17_Several: a path is ignored when any of the patterns covers it.
func C17_Several() {
	if sym.Thorough() {
		c17(2, 2)
	} else {
		c17(1, 2)
	}
}
