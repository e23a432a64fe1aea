package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"
)

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(t types.Type) (w uint8, signed, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

const lenMax = uint64(1) << 40

func (m *Machine) newObj(name string, t types.Type) *Obj {
	m.objSeq++
	return &Obj{Name: name, T: t, id: m.objSeq, Nil: litBool(false)}
}

// intern returns the object for an allocation key.
func (m *Machine) intern(key, name string, t types.Type) *Obj {
	if o := m.objs[key]; o != nil {
		return o
	}
	o := m.newObj(name, t)
	m.objs[key] = o
	return o
}

// symObj is the object a symbolic reference designates.
func (m *Machine) symObj(name string, t types.Type, arr, mp bool) *Obj {
	k := "sym:" + name
	if o := m.objs[k]; o != nil {
		return o
	}
	o := m.newObj(name, t)
	o.Sym = true
	o.Arr = arr
	o.Map = mp
	m.objs[k] = o
	return o
}

func (m *Machine) nilLit(name string) Lit {
	if m.NonNil != nil && m.NonNil(name) {
		return litBool(false)
	}
	return Lit{BSym("nil(" + name + ")"), true}
}

func c64(n int64) *Term { return Const(64, uint64(n)) }

// symVal is the symbolic input value called name.
func (m *Machine) symVal(name string, t types.Type) Val {
	if m.Over != nil {
		if v, ok := m.Over[name]; ok {
			return v
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return Sym(w, name)
		}
		if u.Info()&types.IsBoolean != 0 {
			return Lit{BSym(name), true}
		}
		if u.Info()&types.IsString != 0 {
			return Str{ID: name, Len: SymRange(64, "len("+name+")", 0, lenMax)}
		}
		return Opaque{name}
	case *types.Pointer:
		o := m.symObj(name, u.Elem(), false, false)
		o.Nil = m.nilLit(name)
		return Ptr{Obj: o}
	case *types.Slice:
		o := m.symObj(name, u.Elem(), true, false)
		l := SymRange(64, "len("+name+")", 0, lenMax)
		return Slice{Arr: o, Off: c64(0), Len: l, Cap: Add(l, SymRange(64, "slack("+name+")", 0, lenMax)), Nil: m.nilLit(name)}
	case *types.Map:
		o := m.symObj(name, t, false, true)
		return MapV{o, m.nilLit(name)}
	case *types.Interface:
		return Iface{ID: name, Nil: m.nilLit(name)}
	case *types.Signature:
		return FuncV{ID: name, Nil: m.nilLit(name)}
	case *types.Chan:
		return ChanV{m.symObj(name, t, false, false)}
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, m.symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 256 {
			a := ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, m.symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return a
		}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, m.symVal(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	return Opaque{name}
}

func zeroVal(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return Const(w, 0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return litBool(false)
		}
		if u.Info()&types.IsString != 0 {
			return strConst("")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		return Opaque{"0"}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return nilSlice()
	case *types.Map:
		return MapV{nil, litBool(true)}
	case *types.Interface:
		return Iface{Nil: litBool(true)}
	case *types.Signature:
		return FuncV{Nil: litBool(true)}
	case *types.Chan:
		return ChanV{}
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 256 {
			a := ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, zeroVal(u.Elem()))
			}
			return a
		}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return Opaque{"0"}
}

func nilSlice() Slice {
	return Slice{Off: c64(0), Len: c64(0), Cap: c64(0), Nil: litBool(true)}
}
func strConst(s string) Str { return Str{Known: true, S: s, Len: c64(int64(len(s)))} }

// objects ---------------------------------------------------------------

func (s *State) get(o *Obj) *ObjState {
	if x := s.mem[o]; x != nil {
		return x
	}
	return s.base[o]
}

// set replaces the whole contents of an object.
func (s *State) set(o *Obj, x *ObjState) {
	s.ownMem()
	s.mem[o] = x
}

// freeze moves the heap into the shared immutable part.
func (s *State) freeze() {
	b := make(map[*Obj]*ObjState, len(s.base)+len(s.mem))
	for o, x := range s.base {
		b[o] = x
	}
	for o, x := range s.mem {
		x.owner = -1
		b[o] = x
	}
	s.base, s.mem, s.memOwn = b, map[*Obj]*ObjState{}, true
	stateSeq++
	s.id = stateSeq
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + a<<6 + a>>2
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 29
	return a
}

// hash identifies the contents of an object.
func (x *ObjState) hash() uint64 {
	if x.h != 0 {
		return x.h
	}
	h := uint64(1)
	for _, l := range x.layers {
		if l.cells != nil {
			var s uint64
			for k, v := range l.cells {
				s += mix(hash(k), hash(valKey(v)))
			}
			h = mix(h, s)
			continue
		}
		h = mix(h, uint64(uintptr(unsafe.Pointer(l))))
	}
	for _, e := range x.ents {
		h = mix(h, hash(valKey(e.Key)+"="+valKey(e.Val)+fmt.Sprint(e.Del)))
	}
	h = mix(h, hash(x.ver))
	if h == 0 {
		h = 1
	}
	x.h = h
	return h
}

func (s *State) mut(o *Obj) *ObjState {
	x := s.mem[o]
	if x != nil && x.owner == s.id {
		x.h = 0
		return x
	}
	if x == nil {
		x = s.base[o]
	}
	s.ownMem()
	if x == nil {
		x = &ObjState{owner: s.id}
	} else {
		x = x.clone(s.id)
	}
	s.mem[o] = x
	return x
}

// top gives a writable cells layer.
func (x *ObjState) top(id int) *Layer {
	n := len(x.layers)
	if n > 0 && x.layers[n-1].cells != nil {
		// copy on write of the layer
		old := x.layers[n-1]
		if old.paths == nil {
			old.paths = map[string]Path{}
		}
		if old.owner == x.owner {
			return old
		}
		l := &Layer{cells: make(map[string]Val, len(old.cells)+1), paths: make(map[string]Path, len(old.cells)+1)}
		for k, v := range old.cells {
			l.cells[k] = v
			l.paths[k] = old.paths[k]
		}
		l.owner = x.owner
		x.layers[n-1] = l
		return l
	}
	l := &Layer{cells: map[string]Val{}, paths: map[string]Path{}}
	l.owner = x.owner
	x.layers = append(x.layers, l)
	return l
}

func objName(o *Obj, p Path) string {
	n := o.Name
	t := o.T
	arr := o.Arr
	for _, s := range p.S {
		if s.Idx != nil {
			if s.Idx.IsConst() {
				n += fmt.Sprintf("[%d]", s.Idx.Int())
			} else {
				n += "[" + s.Idx.String() + "]"
			}
			if arr {
				arr = false
			} else if t != nil {
				if a, ok := under(t).(*types.Array); ok {
					t = a.Elem()
				} else {
					t = nil
				}
			}
		} else {
			nm := fmt.Sprintf("%d", s.Field)
			if t != nil {
				if st, ok := under(t).(*types.Struct); ok && s.Field >= 0 && s.Field < st.NumFields() {
					nm = st.Field(s.Field).Name()
					t = st.Field(s.Field).Type()
				} else {
					t = nil
				}
			}
			n += "." + nm
		}
	}
	return n
}

func typeAt(o *Obj, p Path) types.Type {
	t := o.T
	arr := o.Arr
	for _, s := range p.S {
		if t == nil {
			return nil
		}
		if s.Idx != nil {
			if arr {
				arr = false
				continue
			}
			if a, ok := under(t).(*types.Array); ok {
				t = a.Elem()
			} else {
				return nil
			}
		} else {
			st, ok := under(t).(*types.Struct)
			if !ok || s.Field < 0 || s.Field >= st.NumFields() {
				return nil
			}
			t = st.Field(s.Field).Type()
		}
	}
	if arr {
		return nil
	}
	return t
}

// Read loads a value of type t.
func (m *Machine) Read(st *State, o *Obj, p Path, t types.Type) Val {
	return m.readIn(st, o, st.get(o), p, t)
}

func (m *Machine) readIn(st *State, o *Obj, os *ObjState, p Path, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		if !opaqueStruct(t) {
			s := StructV{T: t}
			for i := 0; i < u.NumFields(); i++ {
				s.F = append(s.F, m.readIn(st, o, os, p.field(i), u.Field(i).Type()))
			}
			return s
		}
	case *types.Array:
		if u.Len() <= 256 {
			a := ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, m.readIn(st, o, os, p.index(c64(i)), u.Elem()))
			}
			return a
		}
	default:
		// reinterpretation of a byte array as an integer (unsafe), little endian
		if w, _, ok := intWidth(t); ok && w > 8 {
			if at := typeAt(o, p); at != nil {
				if a, isA := under(at).(*types.Array); isA {
					if ew, _, ok := intWidth(a.Elem()); ok && ew == 8 && a.Len()*8 >= int64(w) {
						sum := newSum(w)
						for i := int64(0); i < int64(w/8); i++ {
							b, ok := m.readIn(st, o, os, p.index(c64(i)), a.Elem()).(*Term)
							if !ok {
								return m.symVal("?"+objName(o, p), t)
							}
							sum.add(Resize(b, w, false), uint64(1)<<uint(8*i))
						}
						return sum.term()
					}
				}
			}
		}
	}
	return m.readLeaf(st, o, os, p, t)
}

func opaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "bytes", "time", "strings", "sync/atomic":
			return true
		}
	}
	return false
}

func (m *Machine) readLeaf(st *State, o *Obj, os *ObjState, p Path, t types.Type) Val {
	if os != nil {
		for i := len(os.layers) - 1; i >= 0; i-- {
			l := os.layers[i]
			switch {
			case l.cells != nil:
				if v, ok := l.cells[p.K]; ok {
					return v
				}
				// symbolic index against stored concrete elements
				if x := symStep(p); x >= 0 {
					for k, q := range l.paths {
						if k != p.K && mayAlias(st, p, q) {
							return m.symVal("?"+objName(o, p), t)
						}
					}
				}
			case l.sym != nil:
				q := l.sym.P
				if q.K == p.K {
					return l.sym.Val
				}
				if a := aliasRel(st, p, q); a == 1 {
					return l.sym.Val
				} else if a == 0 {
					return m.symVal("?"+objName(o, p), t)
				}
			case l.havoc != nil:
				if p.hasPrefix(l.havoc.Prefix) {
					return m.symVal(l.havoc.Name+strings.TrimPrefix(objName(o, p), objName(o, l.havoc.Prefix)), t)
				}
			case l.reg != nil:
				r := l.reg
				if !p.hasPrefix(r.Prefix) || len(p.S) <= len(r.Prefix.S) {
					continue
				}
				ix := p.S[len(r.Prefix.S)].Idx
				if ix == nil {
					continue
				}
				rel := Sub(ix, r.Off)
				in := LULt(rel, r.N)
				k, v := st.Eval(in)
				if !k {
					return m.symVal("?"+objName(o, p), t)
				}
				if !v {
					continue
				}
				if r.Zero {
					return zeroVal(t)
				}
				rest := p.rest(len(r.Prefix.S) + 1)
				if r.Str != nil {
					return m.strByte(st, *r.Str, Add(rel, r.SrcOff))
				}
				sp := r.SrcP.index(Add(rel, r.SrcOff)).join(rest)
				return m.readLeaf(st, r.Src, r.SrcSt, sp, t)
			}
		}
	}
	if o.Sym {
		return m.symVal(objName(o, p), t)
	}
	if o.Ext {
		return m.symVal(objName(o, p), t)
	}
	return zeroVal(t)
}

func symStep(p Path) int {
	for i, s := range p.S {
		if s.Idx != nil && !s.Idx.IsConst() {
			return i
		}
	}
	return -1
}

// aliasRel: 1 same cell, -1 distinct, 0 unknown.
func aliasRel(st *State, p, q Path) int {
	if len(p.S) != len(q.S) {
		return -1
	}
	same := true
	for i := range p.S {
		a, b := p.S[i], q.S[i]
		if (a.Idx == nil) != (b.Idx == nil) {
			return -1
		}
		if a.Idx == nil {
			if a.Field != b.Field {
				return -1
			}
			continue
		}
		if a.Idx == b.Idx {
			continue
		}
		k, v := st.Eval(LEq(a.Idx, b.Idx))
		if !k {
			same = false
		} else if !v {
			return -1
		}
	}
	if same {
		return 1
	}
	return 0
}
func mayAlias(st *State, p, q Path) bool { return aliasRel(st, p, q) >= 0 }

// Write stores v (possibly composite).
func (m *Machine) Write(st *State, o *Obj, p Path, v Val) {
	switch x := v.(type) {
	case StructV:
		if !opaqueStruct(x.T) {
			for i, f := range x.F {
				m.Write(st, o, p.field(i), f)
			}
			return
		}
	case ArrayV:
		for i, f := range x.E {
			m.Write(st, o, p.index(c64(int64(i))), f)
		}
		return
	}
	os := st.mut(o)
	if symStep(p) >= 0 {
		os.layers = append(os.layers, &Layer{sym: &SymCell{p, v}})
		return
	}
	l := os.top(st.id)
	l.cells[p.K] = v
	l.paths[p.K] = p
}

func (m *Machine) HavocObj(st *State, o *Obj, p Path, name string) {
	os := st.mut(o)
	os.layers = append(os.layers, &Layer{havoc: &Havoc{p, name}})
	if o.Map {
		os.ents = nil
		os.ver = name
	}
}

// copyElems copies n elements between arrays.
func (m *Machine) copyElems(st *State, dst *Obj, dp Path, doff, n *Term, src *Obj, sp Path, soff *Term, elem types.Type) {
	if n.IsConst() && n.C == 0 {
		return
	}
	if n.IsConst() && n.C <= 64 && doff.IsConst() {
		var vs []Val
		for i := int64(0); i < int64(n.C); i++ {
			vs = append(vs, m.Read(st, src, sp.index(Add(soff, c64(i))), elem))
		}
		for i, v := range vs {
			m.Write(st, dst, dp.index(Add(doff, c64(int64(i)))), v)
		}
		return
	}
	sst := st.get(src)
	if sst != nil {
		c := sst.clone(-1)
		sst = c
		// freeze layers
		for _, l := range c.layers {
			l.owner = -1
		}
		if cur := st.mem[src]; cur != nil && cur.owner == st.id {
			cur.owner = -2
		}
	}
	os := st.mut(dst)
	os.layers = append(os.layers, &Layer{reg: &Region{Prefix: dp, Off: doff, N: n, Src: src, SrcP: sp, SrcOff: soff, SrcSt: sst}})
}

// snapshot freezes the contents of an object for later inspection.
func (m *Machine) snapshot(st *State, o *Obj) *ObjState {
	if o == nil {
		return nil
	}
	x := st.get(o)
	if x == nil {
		return nil
	}
	c := x.clone(-1)
	for _, l := range c.layers {
		if l.cells != nil {
			l.owner = -1
		}
	}
	return c
}

// strByte is the byte at idx of a string.
func (m *Machine) strByte(st *State, s Str, idx *Term) Val {
	if s.Known && idx.IsConst() && idx.C < uint64(len(s.S)) {
		return Const(8, uint64(s.S[idx.C]))
	}
	if s.Src != nil {
		return m.readIn(st, s.Src.Arr, s.SrcSt, s.Src.Path.index(Add(s.Src.Off, idx)), types.Typ[types.Uint8])
	}
	return Sym(8, fmt.Sprintf("%s[%s]", valString(s), idx))
}

// ByteAt reads one byte of a slice.
func (m *Machine) ByteAt(st *State, s Slice, i int64) *Term {
	v := m.Read(st, s.Arr, s.Path.index(Add(s.Off, c64(i))), types.Typ[types.Uint8])
	t, _ := v.(*Term)
	return t
}

// byteIn is byte i of a slice as it was in another state, by the facts of st.
func (m *Machine) byteIn(st *State, s Slice, in *State, i int64) *Term {
	if s.Arr == nil {
		return nil
	}
	t, _ := m.readIn(st, s.Arr, in.get(s.Arr), s.Path.index(Add(s.Off, c64(i))), types.Typ[types.Uint8]).(*Term)
	return t
}

// FieldOf reads obj.field by name.
func (m *Machine) Field(st *State, o *Obj, p Path, name string) Val {
	t := typeAt(o, p)
	if t == nil {
		return nil
	}
	fp, ft := fieldPath(p, t, name)
	if ft == nil {
		return nil
	}
	return m.Read(st, o, fp, ft)
}

func fieldPath(p Path, t types.Type, name string) (Path, types.Type) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return p, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return p.field(i), st.Field(i).Type()
		}
	}
	// embedded
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if q, ft := fieldPath(p.field(i), st.Field(i).Type(), name); ft != nil {
				return q, ft
			}
		}
	}
	return p, nil
}

// SetField writes obj.field by name.
func (m *Machine) SetField(st *State, o *Obj, p Path, name string, v Val) {
	fp, ft := fieldPath(p, typeAt(o, p), name)
	if ft == nil {
		panic("no field " + name + " in " + o.T.String())
	}
	m.Write(st, o, fp, v)
}
