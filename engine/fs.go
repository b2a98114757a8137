package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// File-system model: a path names an inode; contents are byte slices of terms.
type inode struct {
	dir   bool
	data  Slice
	mode  uint64
	dirty bool // holds data that was not flushed to disk
}

type fhandle struct {
	name   string
	node   *inode
	pos    int
	app    bool
	wr     bool
	closed bool
}

func (m *models) mkdirAll(p string) {
	p = cleanPath(p)
	for p != "/" {
		if m.fs[p] == nil {
			m.fs[p] = &inode{dir: true, mode: 0755}
		}
		p = path.Dir(p)
	}
	if m.fs["/"] == nil {
		m.fs["/"] = &inode{dir: true, mode: 0755}
	}
}

func (x *Exec) pathErr(op, p string, e syscall.Errno) Iface {
	t := x.w.eng.pkgType("io/fs", "PathError")
	en := x.w.eng.pkgType("syscall", "Errno")
	var v Value = Struct{op, p, Iface{T: en, V: x.u64(uint64(e))}}
	return Iface{T: types.NewPointer(t), V: Ptr(&v)}
}

func (x *Exec) linkErr(op, a, b string, e syscall.Errno) Iface {
	t := x.w.eng.pkgType("os", "LinkError")
	en := x.w.eng.pkgType("syscall", "Errno")
	var v Value = Struct{op, a, b, Iface{T: en, V: x.u64(uint64(e))}}
	return Iface{T: types.NewPointer(t), V: Ptr(&v)}
}

func (x *Exec) fsPath(v Value) string {
	p := x.str(v)
	if c, ok := x.st.misc["cwd"].(string); ok && !strings.HasPrefix(p, "/") {
		p = c + "/" + p
	}
	return cleanPath(p)
}

// parentOK reports whether the parent directory of p exists.
func (x *Exec) parentErr(p string) syscall.Errno {
	d := x.st.fs[path.Dir(p)]
	if d == nil {
		return syscall.ENOENT
	}
	if !d.dir {
		return syscall.ENOTDIR
	}
	return 0
}

func (x *Exec) lookupNode(p string) (*inode, syscall.Errno) {
	n := x.st.fs[p]
	if n == nil {
		if e := x.parentErr(p); e == syscall.ENOTDIR {
			return nil, e
		}
		return nil, syscall.ENOENT
	}
	return n, 0
}

// fsPoint lets another goroutine run before a file operation.
func (x *Exec) fsPoint(g *G) { x.yield(g, "file") }

// fsMut is a point before an operation that changes the file system: besides a switch, a crash can happen here.
func (x *Exec) fsMut(g *G) {
	x.fsPoint(g)
	if x.crash != nil && !x.crash.fired && x.choose(2, "crash") == 1 {
		x.doCrash(g)
	}
}

// fsMid is a crash in the middle of writing data: prepare leaves the partial contents.
func (x *Exec) fsMid(g *G, partial func()) {
	if x.crash != nil && !x.crash.fired && x.choose(2, "crash-mid") == 1 {
		partial()
		x.doCrash(g)
	}
}

// crashCtl arms crash injection while the function given to vx.Crashable runs.
type crashCtl struct {
	owner *G
	fired bool
}

type crashUnwind struct{}

// powerOff ends every goroutine but the owner and loses data that was never flushed.
func (x *Exec) powerOff(owner *G) {
	x.crash.fired = true
	for _, h := range x.s.gs {
		if h != owner && !h.done {
			h.dead = true
		}
	}
	x.s.timers = nil
	var ps []string
	for p := range x.st.fs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		n := x.st.fs[p]
		if n.dirty {
			n.dirty = false
			if x.choose(2, "lost:"+p) == 1 {
				n.data = nil
			}
		}
	}
}

func (x *Exec) doCrash(g *G) {
	o := x.crash.owner
	x.powerOff(o)
	if g == o {
		panic(&crashUnwind{})
	}
	o.ready = nil
	x.switchTo(g, o)
	panic(&pathAbort{"kill", ""})
}

func (x *Exec) crashable(g *G, f Value) (crashed bool) {
	if x.crash != nil {
		panic(unsupported("nested Crashable"))
	}
	top, depth := g.top, g.depth
	x.crash = &crashCtl{owner: g}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*crashUnwind); !ok {
					panic(r)
				}
				crashed = true
				g.top, g.depth, g.ready, g.why = top, depth, nil, ""
			}
		}()
		x.callValue(g, g.top, f, nil)
	}()
	if !crashed {
		x.powerOff(g)
	}
	x.crash = nil
	return crashed
}

func (x *Exec) readFile(p string) (Slice, Iface) {
	n, e := x.lookupNode(p)
	if e != 0 {
		return nil, x.pathErr("open", p, e)
	}
	if n.dir {
		return nil, x.pathErr("read", p, syscall.EISDIR)
	}
	o := make(Slice, len(n.data))
	copy(o, n.data)
	return o, nilIface()
}

func (x *Exec) writeFile(p string, data Slice, mode uint64) Iface {
	n := x.st.fs[p]
	if n != nil && n.dir {
		return x.pathErr("open", p, syscall.EISDIR)
	}
	if n == nil {
		if e := x.parentErr(p); e != 0 {
			return x.pathErr("open", p, e)
		}
		n = &inode{mode: mode}
		x.st.fs[p] = n
	}
	x.fsMid(x.cur, func() { n.data = append(Slice{}, data[:len(data)/2]...) })
	n.data = append(Slice{}, data...)
	n.dirty = true
	return nilIface()
}

func (x *Exec) fileInfo(p string, n *inode) Iface {
	t := x.w.eng.pkgType("os", "fileStat")
	v := zero(x.c, t).(Struct)
	mode := n.mode
	if n.dir {
		mode |= 1 << 31
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "name":
			v[i] = path.Base(p)
		case "size":
			v[i] = x.u64(uint64(len(n.data)))
		case "mode":
			v[i] = x.c.BV(32, mode)
		}
	}
	var pv Value = v
	return Iface{T: types.NewPointer(t), V: Ptr(&pv)}
}

func (x *Exec) newFile(name string, h *fhandle) Ptr {
	t := x.w.eng.pkgType("os", "File")
	var v Value = zero(x.c, t)
	p := Ptr(&v)
	h.name = name
	x.st.files[p] = h
	return p
}

func (x *Exec) rename(a, b string) syscall.Errno {
	n, e := x.lookupNode(a)
	if e != 0 {
		return e
	}
	if e := x.parentErr(b); e != 0 {
		return e
	}
	o := x.st.fs[b]
	if o != nil && o.dir && !n.dir {
		return syscall.EEXIST
	}
	if o != nil && !o.dir && n.dir {
		return syscall.ENOTDIR
	}
	if a == b {
		return 0
	}
	if n.dir {
		for p, q := range x.st.fs {
			if strings.HasPrefix(p, a+"/") {
				x.st.fs[b+p[len(a):]] = q
				delete(x.st.fs, p)
			}
		}
	}
	x.st.fs[b] = n
	delete(x.st.fs, a)
	return 0
}

func init() {
	reg("os.ReadFile", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsPoint(g)
		d, e := x.readFile(x.fsPath(a[0]))
		return Tuple{d, e}
	})
	reg("os.WriteFile", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsMut(g)
		return x.writeFile(x.fsPath(a[0]), a[1].(Slice), a[2].(*Term).k)
	})
	reg("github.com/tendermint/tendermint/libs/tempfile.WriteFileAtomic", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.fsPath(a[0])
		if e := x.parentErr(p); e != 0 {
			return x.pathErr("open", p, e)
		}
		x.fsMut(g)
		if n := x.st.fs[p]; n != nil && n.dir {
			return x.linkErr("rename", p+".tmp", p, syscall.EEXIST)
		}
		x.st.fs[p] = &inode{data: append(Slice{}, a[1].(Slice)...), mode: a[2].(*Term).k}
		return nilIface()
	})
	reg("os.ReadDir", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsPoint(g)
		p := x.fsPath(a[0])
		n, e := x.lookupNode(p)
		if e != 0 {
			return Tuple{Slice(nil), x.pathErr("open", p, e)}
		}
		if !n.dir {
			return Tuple{Slice(nil), x.pathErr("readdirent", p, syscall.ENOTDIR)}
		}
		var names []string
		for q := range x.st.fs {
			if q != p && path.Dir(q) == p {
				names = append(names, q)
			}
		}
		sort.Strings(names)
		t := x.w.eng.pkgType("os", "unixDirent")
		st := t.Underlying().(*types.Struct)
		o := Slice{}
		for _, q := range names {
			v := zero(x.c, t).(Struct)
			i := x.st.fs[q]
			for k := 0; k < st.NumFields(); k++ {
				switch st.Field(k).Name() {
				case "parent":
					v[k] = p
				case "name":
					v[k] = path.Base(q)
				case "typ":
					if i.dir {
						v[k] = x.c.BV(32, 1<<31)
					}
				case "info":
					v[k] = x.fileInfo(q, i)
				}
			}
			var pv Value = v
			o = append(o, Iface{T: types.NewPointer(t), V: Ptr(&pv)})
		}
		return Tuple{o, nilIface()}
	})
	stat := func(op string) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			raw := x.str(a[0])
			if raw == "" {
				return Tuple{Iface{}, x.pathErr(op, "", syscall.ENOENT)}
			}
			p := x.fsPath(raw)
			n, e := x.lookupNode(p)
			if e != 0 {
				return Tuple{Iface{}, x.pathErr(op, raw, e)}
			}
			return Tuple{x.fileInfo(p, n), nilIface()}
		}
	}
	reg("os.Stat", stat("stat"))
	reg("os.Lstat", stat("lstat"))
	reg("os.MkdirAll", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.fsPath(a[0])
		for q := p; q != "/"; q = path.Dir(q) {
			if n := x.st.fs[q]; n != nil && !n.dir {
				return x.pathErr("mkdir", q, syscall.ENOTDIR)
			}
		}
		x.st.mkdirAll(p)
		return nilIface()
	})
	reg("os.Mkdir", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.fsPath(a[0])
		if x.st.fs[p] != nil {
			return x.pathErr("mkdir", p, syscall.EEXIST)
		}
		if e := x.parentErr(p); e != 0 {
			return x.pathErr("mkdir", p, e)
		}
		x.st.fs[p] = &inode{dir: true, mode: 0755}
		return nilIface()
	})
	reg("os.MkdirTemp", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := x.str(a[0])
		if d == "" {
			d = "/tmp"
		}
		x.fresh++
		p := cleanPath(fmt.Sprintf("%s/%s%d", d, strings.ReplaceAll(x.str(a[1]), "*", ""), x.fresh))
		x.st.mkdirAll(p)
		return Tuple{p, nilIface()}
	})
	remove := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsMut(g)
		p := x.fsPath(a[0])
		n, e := x.lookupNode(p)
		if e != 0 {
			return x.pathErr("remove", p, e)
		}
		if n.dir {
			for q := range x.st.fs {
				if strings.HasPrefix(q, p+"/") {
					return x.pathErr("remove", p, syscall.ENOTEMPTY)
				}
			}
		}
		delete(x.st.fs, p)
		return nilIface()
	}
	reg("os.Remove", remove)
	reg("os.RemoveAll", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsMut(g)
		p := x.fsPath(a[0])
		for q := range x.st.fs {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(x.st.fs, q)
			}
		}
		return nilIface()
	})
	reg("os.Rename", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.fsMut(g)
		p, q := x.fsPath(a[0]), x.fsPath(a[1])
		if e := x.rename(p, q); e != 0 {
			return x.linkErr("rename", p, q, e)
		}
		return nilIface()
	})
	reg("os.Link", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p, q := x.fsPath(a[0]), x.fsPath(a[1])
		n, e := x.lookupNode(p)
		if e == 0 && x.st.fs[q] != nil {
			e = syscall.EEXIST
		}
		if e == 0 {
			e = x.parentErr(q)
		}
		if e != 0 {
			return x.linkErr("link", p, q, e)
		}
		x.st.fs[q] = n
		return nilIface()
	})
	reg("os.Chmod", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.fsPath(a[0])
		n, e := x.lookupNode(p)
		if e != 0 {
			return x.pathErr("chmod", p, e)
		}
		n.mode = a[1].(*Term).k
		return nilIface()
	})
	reg("os.Truncate", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.fsPath(a[0])
		n, e := x.lookupNode(p)
		if e != 0 {
			return x.pathErr("truncate", p, e)
		}
		x.fsMut(g)
		k := x.cint(a[1])
		for len(n.data) < k {
			n.data = append(n.data, x.c.BV(8, 0))
		}
		n.data = append(Slice{}, n.data[:k]...)
		return nilIface()
	})
	open := func(x *Exec, g *G, name string, flag int, mode uint64) Value {
		x.fsPoint(g)
		p := x.fsPath(name)
		n := x.st.fs[p]
		if n == nil {
			if flag&syscall.O_CREAT == 0 {
				_, e := x.lookupNode(p)
				return Tuple{Ptr(nil), x.pathErr("open", name, e)}
			}
			if e := x.parentErr(p); e != 0 {
				return Tuple{Ptr(nil), x.pathErr("open", name, e)}
			}
			n = &inode{mode: mode}
			x.st.fs[p] = n
		} else if flag&syscall.O_EXCL != 0 && flag&syscall.O_CREAT != 0 {
			return Tuple{Ptr(nil), x.pathErr("open", name, syscall.EEXIST)}
		}
		wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
		if n.dir && wr {
			return Tuple{Ptr(nil), x.pathErr("open", name, syscall.EISDIR)}
		}
		if flag&syscall.O_TRUNC != 0 && wr {
			x.fsMut(g)
			n.data = nil
		}
		return Tuple{x.newFile(name, &fhandle{node: n, app: flag&syscall.O_APPEND != 0, wr: wr}), nilIface()}
	}
	reg("os.OpenFile", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return open(x, g, x.str(a[0]), x.cint(a[1]), a[2].(*Term).k)
	})
	reg("os.Open", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return open(x, g, x.str(a[0]), 0, 0)
	})
	reg("os.Create", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return open(x, g, x.str(a[0]), syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0666)
	})
	reg("os.CreateTemp", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := x.str(a[0])
		if d == "" {
			d = "/tmp"
		}
		x.fresh++
		pat := x.str(a[1])
		s := fmt.Sprint(x.fresh)
		if strings.Contains(pat, "*") {
			pat = strings.Replace(pat, "*", s, 1)
		} else {
			pat += s
		}
		return open(x, g, d+"/"+pat, syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0600)
	})
	fh := func(x *Exec, v Value) *fhandle {
		p, ok := v.(Ptr)
		if !ok || p == nil {
			return nil
		}
		return x.st.files[p]
	}
	write := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		h := fh(x, a[0])
		b := x.anyBytes(a[1])
		if h == nil {
			// standard streams
			return Tuple{x.u64(uint64(len(b))), nilIface()}
		}
		x.fsPoint(g)
		if h.closed || !h.wr {
			return Tuple{x.u64(0), x.pathErr("write", h.name, syscall.EBADF)}
		}
		if h.app {
			h.pos = len(h.node.data)
		}
		x.fsMut(g)
		nd := append(Slice{}, h.node.data...)
		x.fsMid(g, func() {
			part := append(Slice{}, nd[:min(h.pos, len(nd))]...)
			for _, t := range b[:len(b)/2] {
				part = append(part, t)
			}
			h.node.data = part
		})
		h.node.dirty = true
		for _, t := range b {
			if h.pos < len(nd) {
				nd[h.pos] = t
			} else {
				nd = append(nd, t)
			}
			h.pos++
		}
		h.node.data = nd
		return Tuple{x.u64(uint64(len(b))), nilIface()}
	}
	reg("(*os.File).Write", write)
	reg("(*os.File).WriteString", write)
	reg("(*os.File).Read", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		h := fh(x, a[0])
		if h == nil || h.closed {
			return Tuple{x.u64(0), x.mkErr("file already closed")}
		}
		if h.node.dir {
			return Tuple{x.u64(0), x.pathErr("read", h.name, syscall.EISDIR)}
		}
		dst := a[1].(Slice)
		if h.pos >= len(h.node.data) && len(dst) > 0 {
			return Tuple{x.u64(0), copyVal(*x.global(x.w.eng.prog.ImportedPackage("io").Var("EOF")).(Ptr))}
		}
		n := min(len(dst), len(h.node.data)-h.pos)
		for i := 0; i < n; i++ {
			x.storeSlot(&dst[i], h.node.data[h.pos+i])
		}
		h.pos += n
		return Tuple{x.u64(uint64(n)), nilIface()}
	})
	reg("(*os.File).Close", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if h := fh(x, a[0]); h != nil {
			if h.closed {
				return x.pathErr("close", h.name, syscall.EBADF)
			}
			h.closed = true
		}
		return nilIface()
	})
	reg("(*os.File).Name", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if h := fh(x, a[0]); h != nil {
			return h.name
		}
		return "/dev/stdout"
	})
	reg("(*os.File).Sync", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if h := fh(x, a[0]); h != nil {
			h.node.dirty = false
		}
		return nilIface()
	})
	reg("syscall.Sync", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		for _, n := range x.st.fs {
			n.dirty = false
		}
		return nil
	})
	reg("(*os.File).Chmod", retZero)
	reg("(*os.File).Fd", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.u64(9) })
	reg("(*os.File).Truncate", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if h := fh(x, a[0]); h != nil {
			k := x.cint(a[1])
			if k <= len(h.node.data) {
				h.node.data = append(Slice{}, h.node.data[:k]...)
			}
		}
		return nilIface()
	})
	reg("(*os.File).Stat", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		h := fh(x, a[0])
		if h == nil {
			return Tuple{Iface{}, x.mkErr("stat")}
		}
		return Tuple{x.fileInfo(h.name, h.node), nilIface()}
	})
	reg("os.Getwd", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.mkdirAll("/vxtmp/cwd")
		return Tuple{"/vxtmp/cwd", nilIface()}
	})
	reg("os.Chdir", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.misc["cwd"] = x.fsPath(a[0])
		return nilIface()
	})
	reg("os.Getpid", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.u64(4242) })
	readDir := func(x *Exec, d string) ([]string, syscall.Errno) {
		n, e := x.lookupNode(d)
		if e != 0 {
			return nil, e
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		var o []string
		for p := range x.st.fs {
			if p != "/" && path.Dir(p) == d {
				o = append(o, path.Base(p))
			}
		}
		sort.Strings(o)
		return o, 0
	}
	reg("path/filepath.Glob", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		pat := x.fsPath(a[0])
		var o Slice
		names, _ := readDir(x, path.Dir(pat))
		for _, n := range names {
			if ok, _ := path.Match(path.Base(pat), n); ok {
				o = append(o, path.Join(path.Dir(pat), n))
			}
		}
		return Tuple{o, nilIface()}
	})
}
