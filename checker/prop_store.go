package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// machineFrom is a fresh interpreter in the state after package initialisation.
func machineFrom(p *Program, init *Machine) *Machine {
	m := NewMachine(p)
	m.Base = init.Base
	m.objs = map[string]*Obj{}
	for k, v := range init.objs {
		m.objs[k] = v
	}
	m.objSeq = init.objSeq
	return m
}

// osModels adds the documented contract of os.File to the external operations:
// ReadAt and WriteAt report an error unless they moved all bytes.
func osModels(m *Machine) {
	xfer := func(m *Machine, c *Call) []Result {
		buf, ok := c.Args[1].(Slice)
		off := c.Args[2]
		e := &Event{Kind: "io", Name: c.Name, Recv: c.Args[0], Args: []Val{buf, off}, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
		c.St.event(e)
		e.St = c.St.fork()
		if !ok {
			m.incomplete("transfer of unknown shape at " + e.Pos)
			return nil
		}
		bad := c.St.fork()
		if strings.HasSuffix(c.Name, ").ReadAt") && buf.Arr != nil {
			n := c.St.site("filedata")
			for _, s := range []*State{c.St, bad} {
				o := m.symObj(fmt.Sprintf("filedata%d", n), byteT, true, false)
				o.Nil = litBool(false)
				m.copyElems(s, buf.Arr, buf.Path, buf.Off, buf.Len, o, Path{}, c64(0), byteT)
			}
		}
		r := TupleV{buf.Len, nilErr}
		c.St.evPatch(e, r)
		k := SymRange(64, fmt.Sprintf("partial%d", bad.site("partial")), 0, lenMax)
		bad.Assume(LULe(k, buf.Len))
		rb := TupleV{k, m.newErr(bad, "io")}
		bad.evPatch(e, rb)
		return []Result{{St: c.St, Ret: r}, {St: bad, Ret: rb}}
	}
	m.Hooks["(*os.File).ReadAt"] = xfer
	m.Hooks["(*os.File).WriteAt"] = xfer
}

// remoteModels: a remote store transfers any number of bytes, with or without
// an error.
func remoteModels(m *Machine) {
	for _, k := range []string{"ReadAt", "WriteAt"} {
		k := k
		h := func(m *Machine, c *Call) []Result {
			buf, _ := c.Args[0].(Slice)
			e := &Event{Kind: "io", Name: "remote." + k, Recv: c.Recv, Args: []Val{buf, c.Args[1]}, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
			c.St.event(e)
			e.St = c.St.fork()
			if k == "ReadAt" && buf.Arr != nil {
				o := m.symObj(fmt.Sprintf("filedata%d", c.St.site("filedata")), byteT, true, false)
				o.Nil = litBool(false)
				m.copyElems(c.St, buf.Arr, buf.Path, buf.Off, buf.Len, o, Path{}, c64(0), byteT)
			}
			bad := c.St.fork()
			n := SymRange(64, fmt.Sprintf("moved%d", c.St.site("moved")), 0, lenMax)
			c.St.Assume(LULe(n, buf.Len))
			bad.Assume(LULe(n, buf.Len))
			r, rb := TupleV{n, nilErr}, TupleV{n, m.newErr(bad, "remote")}
			c.St.evPatch(e, r)
			bad.evPatch(e, rb)
			return []Result{{St: c.St, Ret: r}, {St: bad, Ret: rb}}
		}
		m.Invoke["pkg/api.RemoteBackingStore."+k] = h
		m.Invoke["pkg/api.ReaderWriterAt."+k] = h
		m.Invoke["io.ReaderAt."+k] = h
		m.Invoke["io.WriterAt."+k] = h
	}
}

// storeEnv is an opened backing store.
type storeEnv struct {
	c      *Ctx
	m      *Machine
	st     *State
	kind   string
	obj    Iface
	handle Val // what Open opened
	sizes  []*Term
}

func sameHandle(a, b Val) bool {
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.Obj != nil && x.Obj == y.Obj
	case Iface:
		y, ok := b.(Iface)
		return ok && x.ID != "" && x.ID == y.ID
	}
	return false
}

func (e *storeEnv) method(name string) *ssa.Function {
	if e.obj.T == nil {
		return nil
	}
	ms := e.m.P.Prog.MethodSets.MethodSet(e.obj.T)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return e.m.P.Prog.MethodValue(s)
		}
	}
	return nil
}

func (e *storeEnv) call(name string, args ...Val) []Result {
	fn := e.method(name)
	if fn == nil {
		panic(Anchor("method " + name + " of the " + e.kind + " backing store"))
	}
	st := e.st.fork()
	rs := e.m.Run(st, fn, append([]Val{e.obj.V}, args...))
	e.c.Done(e.m, e.kind+" store: "+name)
	for _, p := range e.m.Panics {
		p := p
		e.c.Ob("store-no-panic", e.kind+" store: "+name, false, func() string { return p.Kind + " " + p.Detail + " at " + p.Pos })
	}
	e.m.Panics, e.m.panSeen = nil, map[string]bool{}
	return rs
}

func lastErr(st *State, v Val) (ok, known bool) {
	var e Val = v
	if t, isT := v.(TupleV); isT && len(t) > 0 {
		e = t[len(t)-1]
	}
	i, isI := e.(Iface)
	if !isI {
		return false, false
	}
	k, val := st.Eval(i.Nil)
	return val, k
}

// newEvents are those of r that happened after st.
func newEvents(st *State, r Result) []*Event {
	return r.St.Events()[len(st.Events()):]
}

func evText(es []*Event) string {
	var b strings.Builder
	for _, e := range es {
		var a []string
		for _, x := range e.Args {
			a = append(a, valString(x))
		}
		fmt.Fprintf(&b, "  %s(%s) -> %s at %s\n", e.Name, strings.Join(a, ", "), valString(TupleV(e.Rets)), e.Pos)
	}
	return b.String()
}

// store constructs and opens the named backing store.
func (c *Ctx) store(kind string) []*storeEnv {
	p := c.Program("", false)
	init := c.Init(p)
	m := machineFrom(p, init)
	osModels(m)
	remoteModels(m)
	m.NonNil = func(n string) bool { return true } // what is registered is not nil
	m.Base = init.InitSt
	ctor := p.Func("pkg/scsi.NewBackingStore")
	if ctor == nil {
		panic(Anchor("function NewBackingStore"))
	}
	name := map[string]string{"file": "file", "remote": "RemBs"}[kind]
	var out []*storeEnv
	for _, r := range m.Run(m.Base.fork(), ctor, []Val{strConst(name)}) {
		tv, ok := r.Ret.(TupleV)
		if !ok || len(tv) != 2 {
			continue
		}
		if good, known := lastErr(r.St, r.Ret); !known || !good {
			c.Ob("store-registered", kind, false, func() string { return "the store \"" + name + "\" cannot be created" })
			continue
		}
		iv, ok := tv[0].(Iface)
		if !ok || iv.T == nil {
			c.Ob("store-registered", kind, false, func() string { return "unknown store type" })
			continue
		}
		c.Ob("store-registered", kind, true, nil)
		e := &storeEnv{c: c, m: m, st: r.St, kind: kind, obj: iv}
		e.st.evs = nil
		path := Str{ID: "store.path", Len: SymRange(64, "len(store.path)", 0, lenMax)}
		lu := m.symVal("open.lu", types.NewPointer(p.mustType("pkg/api.SCSILu")))
		if kind == "remote" {
			// the embedding program sets the exported variables of the package
			if pt, ok := iv.T.(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok {
					sp := p.Prog.Package(n.Obj().Pkg())
					for _, nm := range sortedKeys(sp.Members) {
						g, ok := sp.Members[nm].(*ssa.Global)
						if !ok || g.Object() == nil || !g.Object().Exported() {
							continue
						}
						if _, basic := under(g.Type().(*types.Pointer).Elem()).(*types.Basic); basic {
							m.Write(e.st, m.globalObj(g), Path{}, m.symVal("var."+nm, g.Type().(*types.Pointer).Elem()))
						}
					}
				}
			}
		}
		for _, o := range e.call("Open", lu, path) {
			good, known := lastErr(o.St, o.Ret)
			c.Ob("open-result", kind, known, func() string { return "the result of Open is unknown" })
			if !known || !good {
				continue
			}
			x := *e
			x.st = o.St
			x.opened(newEvents(e.st, o), path)
			x.st.evs = nil
			out = append(out, &x)
		}
	}
	c.Ob("reachable", "opened "+kind+" store", len(out) > 0, nil)
	return out
}

const oRDWR, oCREAT, oTRUNC, oACC = 0x2, 0x40, 0x200, 0x3

// opened decides what Open did on a successful path.
func (e *storeEnv) opened(evs []*Event, path Str) {
	c := e.c
	why := func(s string) func() string { return func() string { return s + "\n" + evText(evs) } }
	if e.kind == "remote" {
		v := e.m.findField(e.st, e.obj, func(t types.Type) bool {
			return short(types.TypeString(t, nil)) == "pkg/api.RemoteBackingStore"
		})
		e.handle = v
		c.Ob("open-handle", e.kind, v != nil, why("the remote store is not kept"))
		return
	}
	n := 0
	for _, v := range evs {
		if len(v.Rets) > 0 && (v.Name == "io/fs.FileInfo.Size" || v.Name == "os.FileInfo.Size") {
			if t, ok := v.Rets[0].(*Term); ok {
				e.sizes = append(e.sizes, t)
			}
		}
		if len(v.Rets) == 2 && v.Name == "(*os.File).Seek" && !evErr(v) {
			t, ok := v.Rets[0].(*Term)
			o, ok1 := v.Args[1].(*Term)
			w, ok2 := v.Args[2].(*Term)
			if ok && ok1 && ok2 && o.IsConst() && o.C == 0 && w.IsConst() && w.C == 2 {
				e.sizes = append(e.sizes, t)
			}
		}
		if v.Name != "os.OpenFile" && v.Name != "os.Open" && v.Name != "os.Create" {
			continue
		}
		if evErr(v) {
			continue
		}
		n++
		e.handle = v.Rets[0]
		p, _ := v.Args[0].(Str)
		c.Ob("open-path", e.kind, p.ID == path.ID && p.ID != "", why("opens something else than its path"))
		fl := int64(-1)
		if v.Name == "os.OpenFile" {
			if t, ok := v.Args[1].(*Term); ok && t.IsConst() {
				fl = t.Int()
			}
		}
		c.Ob("open-mode", e.kind, fl >= 0 && fl&oACC == oRDWR && fl&(oTRUNC|oCREAT) == 0, why(fmt.Sprintf("open flags %#x", fl)))
	}
	c.Ob("open-handle", e.kind, n == 1, why(fmt.Sprintf("Open succeeds with %d open files", n)))
}

// findField is the value of the first field (at any depth) of the store object
// whose type satisfies f.
func (m *Machine) findField(st *State, iv Iface, f func(types.Type) bool) Val {
	p, ok := iv.V.(Ptr)
	if !ok || p.Obj == nil {
		return nil
	}
	var walk func(path Path, t types.Type) Val
	walk = func(path Path, t types.Type) Val {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			fp, ft := fieldPath(path, t, s.Field(i).Name())
			if ft == nil {
				continue
			}
			if f(ft) {
				return m.Read(st, p.Obj, fp, ft)
			}
			if v := walk(fp, ft); v != nil {
				return v
			}
		}
		return nil
	}
	return walk(p.Path, p.Obj.T)
}

// transfers checks that the successful transfers of the wanted direction move
// buffer bytes [0,n) from/to offset off, in order, and returns whether all n
// are covered.
func (e *storeEnv) transfers(rule string, r Result, evs []*Event, suffix string, buf func(*Event) (Slice, bool), off, n *Term) {
	c := e.c
	q := r.St
	pos := c64(0)
	for _, v := range evs {
		if v.Kind != "io" {
			continue
		}
		why := func() string { return fmt.Sprintf("%s store:\n%s", e.kind, evText(evs)) }
		if !strings.HasSuffix(v.Name, suffix) {
			c.Ob(rule+"-direction", e.kind, false, why)
			continue
		}
		if evErr(v) {
			continue
		}
		s, ok := buf(v)
		o, _ := v.Args[1].(*Term)
		moved, _ := v.Rets[0].(*Term)
		if !ok || o == nil || moved == nil {
			c.Ob(rule+"-buffer", e.kind, false, why)
			return
		}
		c.Ob(rule+"-handle", e.kind, sameHandle(v.Recv, e.handle), why)
		c.Ob(rule+"-offset", e.kind, q.Holds(LEq(o, Add(off, pos))), why)
		c.Ob(rule+"-buffer", e.kind, q.Holds(LEq(s.Off, pos)), why)
		pos = Add(pos, moved)
	}
	c.Ob(rule+"-complete", e.kind, q.Holds(LEq(pos, n)), func() string {
		return fmt.Sprintf("%s store: success after moving %v of %v bytes\n%s", e.kind, pos, n, evText(evs))
	})
}

func (e *storeEnv) read() {
	c := e.c
	off, tl := SymRange(64, "arg.offset", 0, 1<<62), SymRange(64, "arg.tl", 0, lenMax)
	for _, r := range e.call("Read", off, tl) {
		evs := newEvents(e.st, r)
		good, known := lastErr(r.St, r.Ret)
		c.Ob("store-read-result", e.kind, known, nil)
		if !known {
			continue
		}
		if !good {
			continue
		}
		tv := r.Ret.(TupleV)
		out, ok := tv[0].(Slice)
		c.Ob("store-read-length", e.kind, ok && r.St.Holds(LEq(out.Len, tl)), func() string {
			return fmt.Sprintf("returns %s, want %v bytes\n%s", valString(tv[0]), tl, evText(evs))
		})
		e.transfers("store-read", r, evs, "ReadAt", func(v *Event) (Slice, bool) {
			s, ok := v.Args[0].(Slice)
			if !ok || s.Arr != out.Arr || s.Arr == nil {
				return s, false
			}
			s.Off = Sub(s.Off, out.Off)
			return s, true
		}, off, tl)
		c.Count("store_read_good", 1)
	}
	c.Ob("reachable", e.kind+" store: successful read", c.stats["store_read_good"] > 0, nil)
}

func (e *storeEnv) write() {
	c := e.c
	off, n := SymRange(64, "arg.offset", 0, 1<<62), SymRange(64, "arg.len", 0, lenMax)
	data, arr := byteSlice(e.m, "arg.data", n)
	for _, r := range e.call("Write", data, off) {
		evs := newEvents(e.st, r)
		good, known := lastErr(r.St, r.Ret)
		c.Ob("store-write-result", e.kind, known, nil)
		if !known || !good {
			continue
		}
		e.transfers("store-write", r, evs, "WriteAt", func(v *Event) (Slice, bool) {
			s, ok := v.Args[0].(Slice)
			if !ok {
				return s, false
			}
			if s.Arr != arr {
				// a copy: every byte has to be the caller's
				same, _ := sameBytes(e.m, v.St, s, v.St, data, e.st, s.Len)
				if !same {
					return s, false
				}
				s.Off = c64(0)
			}
			return s, true
		}, off, n)
		c.Count("store_write_good", 1)
	}
	c.Ob("reachable", e.kind+" store: successful write", c.stats["store_write_good"] > 0, nil)
}

func (e *storeEnv) flush() {
	c := e.c
	off, tl := SymRange(64, "arg.offset", 0, 1<<62), SymRange(64, "arg.tl", 0, lenMax)
	for _, r := range e.call("DataSync", off, tl) {
		evs := newEvents(e.st, r)
		good, known := lastErr(r.St, r.Ret)
		c.Ob("store-flush-result", e.kind, known, nil)
		if !known || !good {
			continue
		}
		done := false
		var fd Val
		for _, v := range evs {
			if v.Name == "(*os.File).Fd" && sameHandle(v.Args[0], e.handle) && len(v.Rets) == 1 {
				fd = v.Rets[0]
			}
			if evErr(v) {
				continue
			}
			switch v.Name {
			case "(*os.File).Sync":
				done = done || sameHandle(v.Args[0], e.handle)
			case "syscall.Fdatasync", "syscall.Fsync", "golang.org/x/sys/unix.Fdatasync", "golang.org/x/sys/unix.Fsync":
				a, ok1 := v.Args[0].(*Term)
				b, ok2 := fd.(*Term)
				done = done || (ok1 && ok2 && r.St.Holds(LEq(Resize(a, 64, false), Resize(b, 64, false))))
			case "pkg/api.RemoteBackingStore.Sync":
				done = done || sameHandle(v.Recv, e.handle)
			}
		}
		c.Ob("store-flush", e.kind, done, func() string {
			return e.kind + " store: a flush succeeds although nothing was synchronised:\n" + evText(evs)
		})
		c.Count("store_flush_good", 1)
	}
	c.Ob("reachable", e.kind+" store: successful flush", c.stats["store_flush_good"] > 0, nil)
}

// quiet: operations that must not change the data.
func (e *storeEnv) quiet() {
	c := e.c
	off, tl := SymRange(64, "arg.offset", 0, 1<<62), SymRange(64, "arg.tl", 0, lenMax)
	lu := e.m.symVal("arg.lu", types.NewPointer(e.m.P.mustType("pkg/api.SCSILu")))
	check := func(name string, rs []Result) {
		for _, r := range rs {
			evs := newEvents(e.st, r)
			for _, v := range evs {
				bad := strings.HasSuffix(v.Name, "WriteAt") || strings.HasSuffix(v.Name, ".Write") || strings.HasSuffix(v.Name, "Truncate") || strings.HasSuffix(v.Name, "Fallocate") || strings.HasSuffix(v.Name, "Ftruncate")
				c.Ob("store-quiet", e.kind+" store: "+name, !bad, func() string { return name + " changes the data:\n" + evText(evs) })
			}
			c.Ob("store-quiet", e.kind+" store: "+name, true, nil)
		}
	}
	check("Read", e.call("Read", off, tl))
	check("DataSync", e.call("DataSync", off, tl))
	check("DataAdvise", e.call("DataAdvise", off, tl, Sym(32, "arg.advise")))
	check("Size", e.call("Size", lu))
}

// size: what Size reports is what Open learned from the operating system.
func (e *storeEnv) size() {
	lu := e.m.symVal("arg.lu", types.NewPointer(e.m.P.mustType("pkg/api.SCSILu")))
	for _, r := range e.call("Size", lu) {
		t, _ := r.Ret.(*Term)
		ok := false
		for _, s := range e.sizes {
			ok = ok || (t != nil && r.St.Holds(LEq(t, s)))
		}
		e.c.Ob("store-size", e.kind, ok, func() string {
			return fmt.Sprintf("Size is %s, the system reported %v", valString(r.Ret), e.sizes)
		})
	}
}

func (e *storeEnv) close() {
	c := e.c
	lu := e.m.symVal("arg.lu", types.NewPointer(e.m.P.mustType("pkg/api.SCSILu")))
	for _, r := range e.call("Close", lu) {
		evs := newEvents(e.st, r)
		n := 0
		for _, v := range evs {
			if v.Name == "(*os.File).Close" && sameHandle(v.Args[0], e.handle) {
				n++
			}
		}
		c.Ob("store-close", e.kind, n == 1, func() string { return "Close does not close the file:\n" + evText(evs) })
	}
}

func storeRules(c *Ctx, which string) {
	for _, kind := range []string{"file", "remote"} {
		for _, e := range c.store(kind) {
			for _, w := range which {
				switch w {
				case 'r':
					e.read()
				case 'w':
					e.write()
				case 'f':
					e.flush()
				case 'q':
					e.quiet()
				case 'c':
					if kind == "file" {
						e.size()
						e.close()
					}
				}
			}
		}
	}
}

func storeFlush(c *Ctx) { storeRules(c, "f") }

func init() {
	register(&Check{ID: "B01", Floor: 40,
		Rule: "The file and the remote backing store are constructed and opened by interpretation, then each operation is interpreted with arbitrary arguments: a successful Read returns exactly the asked number of bytes, all of them moved by ReadAt on the opened handle from the asked offset on; a successful Write moved exactly the caller's bytes to the offset; a successful DataSync synchronised the handle; Open opens exactly its path, read-write, without creating or truncating; Read, DataSync, DataAdvise and Size change nothing; Close closes the handle.",
		Run:  func(c *Ctx) { storeRules(c, "rwfqc") }})
}
