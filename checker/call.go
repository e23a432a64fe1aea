package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call applies a callee value.
func (m *Machine) call(st *State, fr *frame, site ssa.CallInstruction, fv Val, args []Val) []Result {
	c := site.Common()
	if c.IsInvoke() {
		return m.invoke(st, fr, site, fv, args)
	}
	f, ok := fv.(FuncV)
	if !ok {
		m.incomplete("call of unknown shape at " + m.pos(site))
		return []Result{{St: st, Ret: m.freshRes(st, site, "dyn")}}
	}
	if f.B != nil {
		return m.builtin(st, fr, site, f.B, args)
	}
	if f.Fn == nil {
		if v, k := f.Nil.known(); k && v {
			m.require(st, fr, site, litBool(false), "nilfunc", "call of nil function")
			return nil
		}
		if !m.require(st, fr, site, f.Nil.Not(), "nilfunc", "call of possibly nil function "+f.ID) {
			return nil
		}
		if h := m.Invoke["func "+f.ID]; h != nil {
			return h(m, &Call{St: st, Fr: fr, Name: f.ID, Args: args, Site: site, Res: c.Signature().Results()})
		}
		if m.DynHook != nil {
			if rs, ok := m.DynHook(m, &Call{St: st, Fr: fr, Name: f.ID, Recv: f, Args: args, Site: site, Res: c.Signature().Results()}); ok {
				return rs
			}
		}
		m.havocArgs(st, site, args)
		e := &Event{Kind: "dyncall", Name: f.ID, Recv: f, Args: args, Pos: m.pos(site), Site: site, Fn: fr.fn}
		st.event(e)
		e.St = st.fork()
		r := m.freshRes(st, site, f.ID)
		e.Rets = retList(r)
		return []Result{{St: st, Ret: r}}
	}
	return m.callFn(st, fr, site, f.Fn, args, f.Bind)
}

func retList(v Val) []Val {
	if v == nil {
		return nil
	}
	if t, ok := v.(TupleV); ok {
		return t
	}
	return []Val{v}
}

func (m *Machine) freshRes(st *State, site ssa.CallInstruction, name string) Val {
	v, ok := site.(ssa.Value)
	var t types.Type
	if ok {
		t = v.Type()
	} else {
		t = site.Common().Signature().Results()
	}
	return m.freshTyped(st, short(name)+"@"+m.pos(site), t)
}

func (m *Machine) freshTyped(st *State, name string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		if tt.Len() == 1 {
			return m.fresh(st, name, tt.At(0).Type(), nil)
		}
	}
	return m.fresh(st, name, t, nil)
}

func (m *Machine) callFn(st *State, fr *frame, site ssa.CallInstruction, fn *ssa.Function, args, bind []Val) []Result {
	name := short(fn.String())
	if h := m.Hooks[name]; h != nil {
		return h(m, &Call{St: st, Fr: fr, Fn: fn, Name: name, Args: args, Site: site, Res: fn.Signature.Results()})
	}
	if fn.Blocks == nil {
		if fn.Name() == "init" && fn.Synthetic != "" {
			return []Result{{St: st}}
		}
		return m.extern(st, fr, site, fn, args)
	}
	if (m.Opaque != nil && m.Opaque(fn)) || m.onStack(fr, fn) || (fr != nil && fr.depth > 60) {
		return m.opaqueCall(st, fr, site, fn, args)
	}
	return m.execFn(st, fn, args, bind, fr, site)
}

// opaqueCall records the call and returns unknown results.
func (m *Machine) opaqueCall(st *State, fr *frame, site ssa.CallInstruction, fn *ssa.Function, args []Val) []Result {
	name := short(fn.String())
	e := &Event{Kind: "call", Name: name, Args: args, Pos: m.pos(site), Site: site, Fn: fr.fn}
	st.event(e)
	e.St = st.fork()
	m.havocArgs(st, site, args)
	r := m.freshRes(st, site, name)
	e.Rets = retList(r)
	return []Result{{St: st, Ret: r}}
}

// havocArgs: an unknown callee may write through its reference arguments.
func (m *Machine) havocArgs(st *State, site ssa.CallInstruction, args []Val) {
	for _, a := range args {
		m.havocVal(st, a, fmt.Sprintf("after@%s", m.pos(site)))
	}
}
func (m *Machine) havocVal(st *State, a Val, why string) {
	switch x := a.(type) {
	case Slice:
		if x.Arr != nil {
			m.HavocObj(st, x.Arr, x.Path, fmt.Sprintf("%s%s'%d", x.Arr.Name, why, st.site("hv"+why)))
		}
	case Ptr:
		if x.Obj != nil {
			m.HavocObj(st, x.Obj, x.Path, fmt.Sprintf("%s%s'%d", objName(x.Obj, x.Path), why, st.site("hv"+why)))
		}
	case Iface:
		if x.T != nil {
			m.havocVal(st, x.V, why)
		}
	case MapV:
		if x.Obj != nil {
			m.HavocObj(st, x.Obj, Path{}, fmt.Sprintf("%s%s'%d", x.Obj.Name, why, st.site("hv"+why)))
		}
	}
}

func (m *Machine) invoke(st *State, fr *frame, site ssa.CallInstruction, recv Val, args []Val) []Result {
	c := site.Common()
	iv, ok := recv.(Iface)
	if !ok {
		m.incomplete("invoke on unknown shape at " + m.pos(site))
		return []Result{{St: st, Ret: m.freshRes(st, site, c.Method.Name())}}
	}
	if v, k := iv.Nil.known(); k && v {
		m.require(st, fr, site, litBool(false), "nil", "method "+c.Method.Name()+" on nil interface")
		return nil
	}
	if !m.require(st, fr, site, iv.Nil.Not(), "nil", "method "+c.Method.Name()+" on possibly nil interface "+iv.ID) {
		return nil
	}
	iname := short(types.TypeString(c.Value.Type(), nil)) + "." + c.Method.Name()
	if h := m.Invoke[iname]; h != nil {
		return h(m, &Call{St: st, Fr: fr, Name: iname, Recv: recv, Args: args, Site: site, Res: c.Signature().Results()})
	}
	if iv.T != nil {
		if fn := m.P.Prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return m.callFn(st, fr, site, fn, append([]Val{iv.V}, args...), nil)
		}
	}
	e := &Event{Kind: "invoke", Name: iname, Recv: recv, Args: args, Pos: m.pos(site), Site: site, Fn: fr.fn}
	st.event(e)
	e.St = st.fork()
	m.havocArgs(st, site, args)
	return m.outcomes(st, site, iname, c.Signature().Results(), e)
}

// outcomes gives the unknown results of an external operation; an error result
// splits into success and failure.
func (m *Machine) outcomes(st *State, site ssa.CallInstruction, name string, res *types.Tuple, e *Event) []Result {
	n := res.Len()
	if n == 0 {
		return []Result{{St: st}}
	}
	if n == 1 && !isErr(res.At(0).Type()) || !isErr(res.At(n-1).Type()) {
		r := m.freshTyped(st, short(name)+"@"+m.pos(site), res)
		if e != nil {
			e.Rets = retList(r)
		}
		return []Result{{St: st, Ret: r}}
	}
	ok := st
	bad := st.fork()
	mk := func(s *State, fail bool) Val {
		var tv TupleV
		for i := 0; i < n; i++ {
			t := res.At(i).Type()
			nm := fmt.Sprintf("%s#%d@%s", short(name), i, m.pos(site))
			if isErr(t) && i == n-1 {
				if fail {
					tv = append(tv, m.newErr(s, short(name)+"@"+m.pos(site)))
				} else {
					tv = append(tv, Iface{Nil: litBool(true)})
				}
				continue
			}
			v := m.fresh(s, nm, t, nil)
			if !fail {
				switch x := v.(type) {
				case Ptr:
					s.Assume(x.Obj.Nil.Not())
				case Iface:
					s.Assume(x.Nil.Not())
				}
			}
			tv = append(tv, v)
		}
		if n == 1 {
			return tv[0]
		}
		return tv
	}
	r1 := mk(ok, false)
	r2 := mk(bad, true)
	ok.evPatch(e, retList(r1))
	bad.evPatch(e, retList(r2))
	return []Result{{St: ok, Ret: r1}, {St: bad, Ret: r2}}
}

// evPatch replaces the latest event by a copy carrying its results.
func (s *State) evPatch(e *Event, rets []Val) {
	if e == nil || s.evs == nil || s.evs.e != e {
		return
	}
	n := *e
	n.Rets = rets
	s.evs = &evList{s.evs.prev, &n, s.evs.n}
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// newErr is a fresh non-nil error.
func (m *Machine) newErr(st *State, name string) Iface {
	n := st.site("err:" + name)
	return Iface{ID: fmt.Sprintf("err:%s'%d", name, n), Nil: litBool(false)}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "fmt": true, "errors": true, "path": true, "path/filepath": true,
	"unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "bytes": true, "sort": true, "time": true,
	"github.com/sirupsen/logrus": true, "log": true, "log/slog": true, "runtime": true, "runtime/debug": true,
}

// extern is the default treatment of code outside the repository.
func (m *Machine) extern(st *State, fr *frame, site ssa.CallInstruction, fn *ssa.Function, args []Val) []Result {
	name := fn.String()
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	switch pkg {
	case "github.com/sirupsen/logrus", "log", "log/slog":
		if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
			if strings.HasPrefix(fn.Name(), "Panic") {
				m.require(st, fr, site, litBool(false), "panic", name)
			} else {
				m.require(st, fr, site, litBool(false), "exit", name)
			}
			return nil
		}
		return []Result{{St: st, Ret: m.freshRes(st, site, name)}}
	}
	if name == "os.Exit" {
		m.require(st, fr, site, litBool(false), "exit", name)
		return nil
	}
	m.Unmod[name]++
	if purePkgs[pkg] {
		return m.outcomes(st, site, name, fn.Signature.Results(), nil)
	}
	e := &Event{Kind: "ext", Name: name, Args: args, Pos: m.pos(site), Site: site, Fn: fr.fn}
	st.event(e)
	e.St = st.fork()
	m.havocArgs(st, site, args)
	return m.outcomes(st, site, name, fn.Signature.Results(), e)
}

// builtins --------------------------------------------------------------------

func (m *Machine) builtin(st *State, fr *frame, site ssa.CallInstruction, b *ssa.Builtin, args []Val) []Result {
	one := func(v Val) []Result { return []Result{{St: st, Ret: v}} }
	switch b.Name() {
	case "len", "cap":
		return one(m.lenOf(st, args[0], site.Common().Args[0].Type(), b.Name() == "cap"))
	case "append":
		if len(args) < 2 {
			return one(args[0])
		}
		d, ok := args[0].(Slice)
		if !ok {
			m.incomplete("append of unknown shape at " + m.pos(site))
			return one(m.freshRes(st, site, "append"))
		}
		et := under(site.Common().Args[0].Type()).(*types.Slice).Elem()
		var s Slice
		switch x := args[1].(type) {
		case Slice:
			s = x
		case Str:
			s = m.bytesOfStr(st, fmt.Sprintf("ap:%s:%p", fr.ctx, site), x)
		default:
			m.incomplete("append of unknown shape at " + m.pos(site))
			return one(m.freshRes(st, site, "append"))
		}
		return one(m.appendSlice(st, fmt.Sprintf("%s:%p", fr.ctx, site), m.pos(site), d, s, et, false))
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			m.incomplete("copy of unknown shape at " + m.pos(site))
			return one(m.freshRes(st, site, "copy"))
		}
		var s Slice
		switch x := args[1].(type) {
		case Slice:
			s = x
		case Str:
			s = m.bytesOfStr(st, fmt.Sprintf("cp:%s:%p", fr.ctx, site), x)
		default:
			m.incomplete("copy of unknown shape at " + m.pos(site))
			return one(m.freshRes(st, site, "copy"))
		}
		et := under(site.Common().Args[0].Type()).(*types.Slice).Elem()
		do := func(x *State, n *Term) Result {
			if d.Arr != nil && s.Arr != nil {
				m.copyElems(x, d.Arr, d.Path, d.Off, n, s.Arr, s.Path, s.Off, et)
			}
			return Result{St: x, Ret: n}
		}
		l := LULe(s.Len, d.Len)
		if k, v := st.Eval(l); k {
			if v {
				return []Result{do(st, s.Len)}
			}
			return []Result{do(st, d.Len)}
		}
		q := st.fork()
		st.assumeRaw(l)
		q.assumeRaw(l.Not())
		return []Result{do(st, s.Len), do(q, d.Len)}
	case "delete":
		if mv, ok := args[0].(MapV); ok && mv.Obj != nil {
			os := st.mut(mv.Obj)
			os.ents = append(os.ents, MapEnt{Key: args[1], Del: true})
			st.event(&Event{Kind: "mapdel", Name: mv.Obj.Name, Recv: mv, Args: []Val{args[1]}, Pos: m.pos(site), Site: site, Fn: fr.fn})
		}
		return one(nil)
	case "recover":
		return one(Iface{Nil: litBool(true)})
	case "print", "println":
		return one(nil)
	case "close":
		st.event(&Event{Kind: "chclose", Name: "close", Args: args, Pos: m.pos(site), Site: site, Fn: fr.fn})
		return one(nil)
	case "min", "max":
		cur := args[0]
		sg := true
		if v, ok := site.(ssa.Value); ok {
			_, sg, _ = intWidth(v.Type())
		}
		res := []Result{{St: st, Ret: cur}}
		for _, a := range args[1:] {
			var nx []Result
			for _, r := range res {
				x, ok1 := r.Ret.(*Term)
				y, ok2 := a.(*Term)
				if !ok1 || !ok2 {
					nx = append(nx, Result{St: r.St, Ret: m.freshRes(r.St, site, b.Name())})
					continue
				}
				l := lt(y, x, sg)
				if b.Name() == "max" {
					l = lt(x, y, sg)
				}
				if k, v := r.St.Eval(l); k {
					if v {
						r.Ret = y
					}
					nx = append(nx, r)
					continue
				}
				q := r.St.fork()
				q.assumeRaw(l)
				r.St.assumeRaw(l.Not())
				nx = append(nx, r, Result{St: q, Ret: y})
			}
			res = nx
		}
		return res
	case "clear":
		m.havocArgs(st, site, args)
		if s, ok := args[0].(Slice); ok && s.Arr != nil {
			os := st.mut(s.Arr)
			os.layers = append(os.layers, &Layer{reg: &Region{Prefix: s.Path, Off: s.Off, N: s.Len, Zero: true}})
		}
		return one(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok {
			if p.Obj == nil || (len(p.Path.S) == 0 && !m.require(st, fr, site, p.Obj.Nil.Not(), "nil", "method value of nil pointer")) {
				return nil
			}
		}
		return one(args[0])
	}
	m.incomplete("builtin " + b.Name() + " at " + m.pos(site))
	return one(m.freshRes(st, site, b.Name()))
}

func (m *Machine) lenOf(st *State, v Val, t types.Type, isCap bool) *Term {
	switch x := v.(type) {
	case Slice:
		if isCap {
			return x.Cap
		}
		return x.Len
	case Str:
		return x.Len
	case ArrayV:
		return c64(int64(len(x.E)))
	case MapV:
		if x.Obj == nil {
			return c64(0)
		}
		os := st.get(x.Obj)
		if !x.Obj.Sym && (os == nil || os.ver == "") {
			if os == nil {
				return c64(0)
			}
			n := int64(0)
			exact := true
			for i, e := range os.ents {
				over := false
				for _, f := range os.ents[i+1:] {
					k, v := st.Eval(m.eqVals(st, e.Key, f.Key))
					if !k {
						exact = false
					}
					if k && v {
						over = true
					}
				}
				if !over && !e.Del {
					n++
				}
			}
			if exact {
				return c64(n)
			}
		}
		ver := x.Obj.Name
		n := 0
		if os != nil {
			if os.ver != "" {
				ver = os.ver
			}
			n = len(os.ents)
		}
		return SymRange(64, fmt.Sprintf("len(%s)'%d", ver, n), 0, lenMax)
	}
	if p, ok := under(t).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			return c64(a.Len())
		}
	}
	if a, ok := under(t).(*types.Array); ok {
		return c64(a.Len())
	}
	return SymRange(64, fmt.Sprintf("len(%s)", valString(v)), 0, lenMax)
}

// appendSlice is append(d, s...).  When d provably has room the write is in
// place; otherwise a new array is made.
func (m *Machine) appendSlice(st *State, key, pos string, d, s Slice, et types.Type, forceCopy bool) Slice {
	if s.Len.IsConst() && s.Len.C == 0 {
		return d
	}
	nl := Add(d.Len, s.Len)
	if d.Arr != nil && !forceCopy {
		// len+n <= cap, both bounded far below 2^64
		if st.Holds(LULe(nl, d.Cap)) && st.Holds(LULe(d.Len, nl)) {
			m.copyElems(st, d.Arr, d.Path, Add(d.Off, d.Len), s.Len, s.Arr, s.Path, s.Off, et)
			return Slice{Arr: d.Arr, Path: d.Path, Off: d.Off, Len: nl, Cap: d.Cap, Nil: litBool(false)}
		}
	}
	k := "ap:" + key
	n := st.site(k)
	o := m.intern(fmt.Sprintf("%s#%d", k, n), fmt.Sprintf("append@%s", pos), et)
	if n > 1 {
		o.Name = fmt.Sprintf("append@%s#%d", pos, n)
	}
	o.Arr = true
	st.ownMem()
	st.mem[o] = &ObjState{owner: st.id}
	if d.Arr != nil {
		m.copyElems(st, o, Path{}, c64(0), d.Len, d.Arr, d.Path, d.Off, et)
	}
	if s.Arr != nil {
		m.copyElems(st, o, Path{}, d.Len, s.Len, s.Arr, s.Path, s.Off, et)
	}
	return Slice{Arr: o, Off: c64(0), Len: nl, Cap: nl, Nil: litBool(false)}
}
