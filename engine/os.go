package main

import (
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An in-memory file tree with symbolic file contents. A name that is not concrete
// is held as a token (see names.go).

type vnode struct {
	kind    byte // 'd' 'f' 'l'
	kids    map[string]*vnode
	content []El
	target  string
	mode    int64
}

type VFS struct {
	root *vnode
	cwd  string
	ntmp int
}

func newVFS() *VFS {
	d := func() *vnode { return &vnode{kind: 'd', kids: map[string]*vnode{}, mode: 0755} }
	r := d()
	r.kids["symcwd"] = d()
	r.kids["tmp"] = d()
	return &VFS{root: r, cwd: "/symcwd"}
}

type vfile struct {
	path  string
	node  *vnode
	rest  []El
	write bool
}
type vinfo struct {
	name string
	node *vnode
}

func (p *Path) fs() *VFS {
	if p.vfs == nil {
		p.vfs = newVFS()
	}
	return p.vfs
}

func (f *VFS) abs(n string) string {
	if !path.IsAbs(n) {
		n = f.cwd + "/" + n
	}
	return path.Clean(n)
}

// look resolves a path; errno is "" "ENOENT" "ENOTDIR" "ELOOP".
func (p *Path) look(n string, follow bool) (*vnode, string, string) {
	f := p.fs()
	if n == "" {
		return nil, "", "ENOENT"
	}
	trail := strings.HasSuffix(n, "/")
	abs := n
	if !path.IsAbs(abs) {
		abs = f.cwd + "/" + abs
	}
	parts := strings.Split(abs, "/")
	cur := []*vnode{f.root}
	names := []string{}
	hops := 0
	for i := 0; i < len(parts); i++ {
		c := parts[i]
		if c == "" || c == "." {
			continue
		}
		top := cur[len(cur)-1]
		if top.kind != 'd' {
			return nil, "", "ENOTDIR"
		}
		if c == ".." {
			if len(cur) > 1 {
				cur = cur[:len(cur)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		k := p.kid(top, c)
		if k == nil {
			return nil, "", "ENOENT"
		}
		last := true
		for _, r := range parts[i+1:] {
			if r != "" {
				last = false
			}
		}
		if k.kind == 'l' && (!last || follow || trail) {
			hops++
			if hops > 40 {
				return nil, "", "ELOOP"
			}
			rest := append([]string(nil), parts[i+1:]...)
			tp := strings.Split(k.target, "/")
			if path.IsAbs(k.target) {
				cur = cur[:1]
				names = nil
			}
			parts = append(append([]string(nil), tp...), rest...)
			i = -1
			continue
		}
		cur = append(cur, k)
		names = append(names, c)
	}
	n2 := cur[len(cur)-1]
	if trail && n2.kind != 'd' {
		return nil, "", "ENOTDIR"
	}
	return n2, "/" + strings.Join(names, "/"), ""
}

func (p *Path) pathErr(op, name, errno string) Iface {
	e := p.mkError(errno)
	switch errno {
	case "ENOENT":
		e = p.pkgErr("io/fs", "ErrNotExist")
	case "EEXIST":
		e = p.pkgErr("io/fs", "ErrExist")
	}
	c := new(value)
	*c = Struct{op, p.nameVal(name), e}
	return Iface{t: types.NewPointer(p.w.eng.typeByName("io/fs", "PathError")), v: c}
}

func (p *Path) osIface(typ string, n *Native) Iface {
	t := p.w.eng.typeByName("os", typ)
	return Iface{t: types.NewPointer(t), v: n}
}

func (p *Path) fileDrain(n *Native) ([]El, Iface) {
	f := n.data.(*vfile)
	if f.node.kind == 'd' {
		return nil, p.pathErr("read", f.path, "EISDIR")
	}
	els := f.rest
	f.rest = nil
	return p.normEls(els), Iface{}
}

func (p *Path) create(name string) (*vnode, string) {
	f := p.fs()
	if n, _, e := p.look(name, true); e == "" {
		if n.kind == 'd' {
			return nil, "EISDIR"
		}
		return n, ""
	}
	d, _, e := p.look(path.Dir(f.abs(name)), true)
	if e != "" {
		return nil, e
	}
	if d.kind != 'd' {
		return nil, "ENOTDIR"
	}
	b := path.Base(f.abs(name))
	n := &vnode{kind: 'f', mode: 0644}
	if k := p.kid(d, b); k != nil {
		return nil, "ENOENT"
	}
	d.kids[b] = n
	return n, ""
}

func (p *Path) mkdir(name string) string {
	f := p.fs()
	d, _, e := p.look(path.Dir(f.abs(name)), true)
	if e != "" {
		return e
	}
	if d.kind != 'd' {
		return "ENOTDIR"
	}
	b := path.Base(f.abs(name))
	if p.kid(d, b) != nil {
		return "EEXIST"
	}
	d.kids[b] = &vnode{kind: 'd', kids: map[string]*vnode{}, mode: 0755}
	return ""
}

func (p *Path) newFile(n *vnode, name string, write bool) *Native {
	f := &vfile{path: name, node: n, write: write}
	if !write {
		f.rest = n.content
	}
	return &Native{kind: "file", data: f}
}

func (p *Path) fileMode(n *vnode) int64 {
	switch n.kind {
	case 'd':
		return 1<<31 | n.mode
	case 'l':
		return 1<<27 | 0777
	case 'p':
		return 1<<25 | n.mode
	}
	return n.mode
}

func (p *Path) info(name string, n *vnode) Iface {
	return p.osIface("fileStat", &Native{kind: "fileinfo", data: &vinfo{name, n}})
}

func (p *Path) dirEntry(name string, n *vnode) value {
	return p.osIface("unixDirent", &Native{kind: "direntry", data: &vinfo{name, n}})
}

func (p *Path) vfsMethod(r *Native, name string, args []value) value {
	switch d := r.data.(type) {
	case *vfile:
		switch name {
		case "Close":
			return Iface{}
		case "Name":
			return p.nameVal(d.path)
		case "Read":
			if d.node.kind == 'd' {
				return Tuple{int64(0), p.pathErr("read", d.path, "EISDIR")}
			}
			if !p.nonEmptyEls(d.rest) {
				return Tuple{int64(0), p.ioEOF()}
			}
			n, rest := p.readInto(args[0], p.normEls(d.rest))
			d.rest = rest
			return Tuple{n, Iface{}}
		case "Write", "WriteString":
			els := p.bytesEls(args[0])
			d.node.content = joinEls(d.node.content, els)
			return lenTuple(p, els)
		case "Stat":
			return Tuple{p.info(path.Base(d.path), d.node), Iface{}}
		case "Readdirnames":
			var out []value
			for _, k := range p.kidNames(d.node) {
				out = append(out, p.nameVal(k))
			}
			return Tuple{Slice{out}, Iface{}}
		case "ReadDir":
			var out []value
			for _, k := range p.kidNames(d.node) {
				out = append(out, p.dirEntry(k, d.node.kids[k]))
			}
			return Tuple{Slice{out}, Iface{}}
		case "Readdir":
			var out []value
			for _, k := range p.kidNames(d.node) {
				out = append(out, p.info(k, d.node.kids[k]))
			}
			return Tuple{Slice{out}, Iface{}}
		}
	case *vinfo:
		switch name {
		case "Name":
			return p.nameVal(d.name)
		case "IsDir":
			return d.node.kind == 'd'
		case "Mode":
			return p.fileMode(d.node)
		case "Type":
			return p.fileMode(d.node) &^ 0777
		case "Size":
			if d.node.kind == 'f' {
				return p.lenVal(p.normEls(d.node.content))
			}
			return int64(4096)
		case "Info":
			return Tuple{p.info(d.name, d.node), Iface{}}
		case "Sys":
			return Iface{}
		}
	}
	p.unsupported("file operation %s", name)
	return nil
}

func init() {
	open := func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, _, e := p.look(name, true)
		if e != "" {
			return Tuple{(*value)(nil), p.pathErr("open", name, e)}
		}
		return Tuple{p.newFile(n, name, false), Iface{}}
	}
	reg("os.Open", open)
	reg("os.OpenFile", func(p *Path, fn *ssa.Function, a []value) value {
		if p.concInt(a[1])&0x43 != 0 {
			p.unsupported("OpenFile for writing")
		}
		return open(p, fn, a)
	})
	reg("os.ReadFile", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, _, e := p.look(name, true)
		if e == "" && n.kind == 'd' {
			e = "EISDIR"
		}
		if e != "" {
			return Tuple{Slice{}, p.pathErr("open", name, e)}
		}
		return Tuple{elsBytes(p.normEls(n.content)), Iface{}}
	})
	reg("os.Create", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, e := p.create(name)
		if e != "" {
			return Tuple{(*value)(nil), p.pathErr("open", name, e)}
		}
		n.content = nil
		return Tuple{p.newFile(n, name, true), Iface{}}
	})
	reg("os.WriteFile", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, e := p.create(name)
		if e != "" {
			return p.pathErr("open", name, e)
		}
		n.content = p.bytesEls(a[1])
		return Iface{}
	})
	reg("os.Mkdir", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		if e := p.mkdir(name); e != "" {
			return p.pathErr("mkdir", name, e)
		}
		return Iface{}
	})
	reg("os.MkdirAll", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.fs().abs(p.pathStr(a[0]))
		cur := ""
		for _, c := range strings.Split(name, "/") {
			if c == "" {
				continue
			}
			cur += "/" + c
			if n, _, e := p.look(cur, true); e == "" {
				if n.kind != 'd' {
					return p.pathErr("mkdir", cur, "ENOTDIR")
				}
				continue
			}
			if e := p.mkdir(cur); e != "" {
				return p.pathErr("mkdir", cur, e)
			}
		}
		return Iface{}
	})
	tmp := func(p *Path) string {
		f := p.fs()
		f.ntmp++
		name := "/tmp/sym" + intFmt(int64(f.ntmp), 10)
		p.mkdir(name)
		return name
	}
	reg("os.MkdirTemp", func(p *Path, fn *ssa.Function, a []value) value { return Tuple{tmp(p), Iface{}} })
	reg("os.TempDir", func(p *Path, fn *ssa.Function, a []value) value { return "/tmp" })
	reg(symPkg+".TempDir", func(p *Path, fn *ssa.Function, a []value) value { return tmp(p) })
	reg("os.RemoveAll", func(p *Path, fn *ssa.Function, a []value) value {
		f := p.fs()
		n := f.abs(p.pathStr(a[0]))
		if d, _, e := p.look(path.Dir(n), true); e == "" && d.kind == 'd' {
			p.unlink(d, path.Base(n))
		}
		return Iface{}
	})
	reg("os.Remove", func(p *Path, fn *ssa.Function, a []value) value {
		f := p.fs()
		n := f.abs(p.pathStr(a[0]))
		if d, _, e := p.look(path.Dir(n), true); e == "" && d.kind == 'd' && p.kid(d, path.Base(n)) != nil {
			p.unlink(d, path.Base(n))
			return Iface{}
		}
		return p.pathErr("remove", n, "ENOENT")
	})
	reg("os.Symlink", func(p *Path, fn *ssa.Function, a []value) value {
		f := p.fs()
		n := f.abs(p.pathStr(a[1]))
		d, _, e := p.look(path.Dir(n), true)
		if e == "" && p.kid(d, path.Base(n)) != nil {
			e = "EEXIST"
		}
		if e != "" {
			return p.pathErr("symlink", n, e)
		}
		d.kids[path.Base(n)] = &vnode{kind: 'l', target: p.pathStr(a[0])}
		return Iface{}
	})
	reg("syscall.Mkfifo", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, e := p.create(name)
		if e != "" {
			return p.pathErr("mkfifo", name, e)
		}
		n.kind, n.mode = 'p', 0600
		return Iface{}
	})
	reg("os.Readlink", func(p *Path, fn *ssa.Function, a []value) value {
		n, _, e := p.look(p.pathStr(a[0]), false)
		if e == "" && n.kind != 'l' {
			e = "EINVAL"
		}
		if e != "" {
			return Tuple{"", p.pathErr("readlink", p.pathStr(a[0]), e)}
		}
		return Tuple{p.nameVal(n.target), Iface{}}
	})
	stat := func(follow bool, op string) func(p *Path, fn *ssa.Function, a []value) value {
		return func(p *Path, fn *ssa.Function, a []value) value {
			name := p.pathStr(a[0])
			n, _, e := p.look(name, follow)
			if e != "" {
				return Tuple{Iface{}, p.pathErr(op, name, e)}
			}
			return Tuple{p.info(path.Base(p.fs().abs(name)), n), Iface{}}
		}
	}
	reg("os.Stat", stat(true, "stat"))
	reg("os.Lstat", stat(false, "lstat"))
	reg("os.ReadDir", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, _, e := p.look(name, true)
		if e == "" && n.kind != 'd' {
			e = "ENOTDIR"
		}
		if e != "" {
			return Tuple{Slice{}, p.pathErr("open", name, e)}
		}
		var out []value
		for _, k := range p.kidNames(n) {
			out = append(out, p.dirEntry(k, n.kids[k]))
		}
		return Tuple{Slice{out}, Iface{}}
	})
	reg("path/filepath.readDirNames", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		n, _, e := p.look(name, true)
		if e == "" && n.kind != 'd' {
			e = "ENOTDIR"
		}
		if e != "" {
			return Tuple{Slice{}, p.pathErr("open", name, e)}
		}
		var out []value
		for _, k := range p.kidNames(n) {
			out = append(out, p.nameVal(k))
		}
		return Tuple{Slice{out}, Iface{}}
	})
	reg("os.Getwd", func(p *Path, fn *ssa.Function, a []value) value { return Tuple{p.nameVal(p.fs().cwd), Iface{}} })
	reg("os.Chdir", func(p *Path, fn *ssa.Function, a []value) value {
		n, rp, e := p.look(p.pathStr(a[0]), true)
		if e == "" && n.kind != 'd' {
			e = "ENOTDIR"
		}
		if e != "" {
			return p.pathErr("chdir", p.pathStr(a[0]), e)
		}
		p.fs().cwd = rp
		return Iface{}
	})
	reg("os.Getenv", func(p *Path, fn *ssa.Function, a []value) value { return "" })
	reg("os.Chmod", func(p *Path, fn *ssa.Function, a []value) value { return Iface{} })
	reg("path/filepath.Abs", func(p *Path, fn *ssa.Function, a []value) value {
		return Tuple{p.nameVal(p.fs().abs(p.pathStr(a[0]))), Iface{}}
	})
	reg("path/filepath.EvalSymlinks", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.pathStr(a[0])
		_, rp, e := p.look(name, true)
		if e != "" {
			return Tuple{"", p.pathErr("lstat", name, e)}
		}
		if !path.IsAbs(name) {
			p.unsupported("EvalSymlinks of a relative path")
		}
		return Tuple{p.nameVal(rp), Iface{}}
	})
	for _, m := range strings.Fields(nativeMethods["file"]) {
		m := m
		reg("(*os.File)."+m, func(p *Path, fn *ssa.Function, a []value) value {
			n, ok := a[0].(*Native)
			if !ok {
				p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			return p.vfsMethod(n, m, a[1:])
		})
	}
	is := func(name string) func(p *Path, fn *ssa.Function, a []value) value {
		return func(p *Path, fn *ssa.Function, a []value) value {
			return p.errorsIs(a[0].(Iface), p.pkgErr("io/fs", name))
		}
	}
	reg("os.IsNotExist", is("ErrNotExist"))
	reg("os.IsExist", is("ErrExist"))
	reg("os.IsPermission", is("ErrPermission"))
}
