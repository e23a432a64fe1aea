package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var byteT = types.Typ[types.Uint8]

func ret(st *State, v Val) []Result { return []Result{{St: st, Ret: v}} }

var nilErr = Iface{Nil: litBool(true)}

// installModels gives the meaning of the library functions the repository
// relies on.
func installModels(m *Machine) {
	h := m.Hooks
	// encoding/binary
	for _, e := range []struct {
		n   string
		big bool
	}{{"bigEndian", true}, {"littleEndian", false}} {
		for _, w := range []int{2, 4, 8} {
			w, big := w, e.big
			rd := func(m *Machine, c *Call) []Result {
				s, ok := c.Args[1].(Slice)
				if !ok || !m.require(c.St, c.Fr, c.Site, LULe(c64(int64(w)), s.Len), "bounds", fmt.Sprintf("%s of %s bytes needs %d", c.Name, s.Len, w)) {
					return nil
				}
				sum := newSum(uint8(w * 8))
				for i := 0; i < w; i++ {
					b := m.ByteAt(c.St, s, int64(i))
					if b == nil {
						return ret(c.St, m.fresh(c.St, c.Name, c.Res.At(0).Type(), nil))
					}
					sh := 8 * i
					if big {
						sh = 8 * (w - 1 - i)
					}
					sum.add(Resize(c.St.simp(b), uint8(w*8), false), uint64(1)<<uint(sh))
				}
				return ret(c.St, sum.term())
			}
			wr := func(m *Machine, c *Call) []Result {
				s, ok := c.Args[1].(Slice)
				v, ok2 := c.Args[2].(*Term)
				if !ok || !ok2 || !m.require(c.St, c.Fr, c.Site, LULe(c64(int64(w)), s.Len), "bounds", fmt.Sprintf("%s into %s bytes needs %d", c.Name, s.Len, w)) {
					return nil
				}
				for i := 0; i < w; i++ {
					sh := 8 * i
					if big {
						sh = 8 * (w - 1 - i)
					}
					m.Write(c.St, s.Arr, s.Path.index(Add(s.Off, c64(int64(i)))), Resize(LShr(v, sh), 8, false))
				}
				return ret(c.St, nil)
			}
			bits := w * 8
			h[fmt.Sprintf("(encoding/binary.%s).Uint%d", e.n, bits)] = rd
			h[fmt.Sprintf("(encoding/binary.%s).PutUint%d", e.n, bits)] = wr
			h[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", e.n, bits)] = func(m *Machine, c *Call) []Result {
				s, ok := c.Args[1].(Slice)
				v, ok2 := c.Args[2].(*Term)
				if !ok || !ok2 {
					return ret(c.St, m.freshRes(c.St, c.Site, c.Name))
				}
				t := m.termBytes(c.St, c.key(), v, w, big)
				return ret(c.St, m.appendSlice(c.St, c.key(), m.pos(c.Site), s, t, byteT, false))
			}
		}
	}
	h["encoding/binary.Write"] = modelBinaryWrite

	// bytes.Buffer
	bufOf := func(m *Machine, c *Call) (Ptr, Slice, bool) {
		p, ok := c.Args[0].(Ptr)
		if !ok || p.Obj == nil {
			m.require(c.St, c.Fr, c.Site, litBool(false), "nil", "nil buffer")
			return p, Slice{}, false
		}
		if len(p.Path.S) == 0 && !m.require(c.St, c.Fr, c.Site, p.Obj.Nil.Not(), "nil", "nil buffer") {
			return p, Slice{}, false
		}
		s, ok := m.Read(c.St, p.Obj, p.Path.field(-1), types.NewSlice(byteT)).(Slice)
		return p, s, ok
	}
	h["bytes.NewBuffer"] = func(m *Machine, c *Call) []Result {
		o := m.intern("buf:"+c.key(), "buffer@"+m.pos(c.Site), c.Res.At(0).Type().(*types.Pointer).Elem())
		c.St.ownMem()
		c.St.mem[o] = &ObjState{owner: c.St.id}
		m.Write(c.St, o, Path{}.field(-1), c.Args[0])
		return ret(c.St, Ptr{Obj: o})
	}
	appendBuf := func(m *Machine, c *Call, s Slice, n Val) []Result {
		p, cur, ok := bufOf(m, c)
		if !ok {
			return nil
		}
		ns := m.appendSlice(c.St, "buf"+c.key(), m.pos(c.Site), cur, s, byteT, true)
		m.Write(c.St, p.Obj, p.Path.field(-1), ns)
		if c.Res.Len() == 2 {
			return ret(c.St, TupleV{n, nilErr})
		}
		return ret(c.St, nilErr)
	}
	h["(*bytes.Buffer).Write"] = func(m *Machine, c *Call) []Result {
		s, ok := c.Args[1].(Slice)
		if !ok {
			m.incomplete("Buffer.Write of unknown shape at " + m.pos(c.Site))
			return nil
		}
		return appendBuf(m, c, s, s.Len)
	}
	h["(*bytes.Buffer).WriteString"] = func(m *Machine, c *Call) []Result {
		s, ok := c.Args[1].(Str)
		if !ok {
			m.incomplete("Buffer.WriteString of unknown shape")
			return nil
		}
		return appendBuf(m, c, m.bytesOfStr(c.St, "bs:"+c.key(), s), s.Len)
	}
	h["(*bytes.Buffer).WriteByte"] = func(m *Machine, c *Call) []Result {
		t, ok := c.Args[1].(*Term)
		if !ok {
			m.incomplete("Buffer.WriteByte of unknown shape")
			return nil
		}
		return appendBuf(m, c, m.termBytes(c.St, c.key(), t, 1, true), nil)
	}
	h["(*bytes.Buffer).Bytes"] = func(m *Machine, c *Call) []Result {
		_, s, ok := bufOf(m, c)
		if !ok {
			return nil
		}
		return ret(c.St, s)
	}
	h["(*bytes.Buffer).Len"] = func(m *Machine, c *Call) []Result {
		_, s, ok := bufOf(m, c)
		if !ok {
			return nil
		}
		return ret(c.St, s.Len)
	}
	h["(*bytes.Buffer).String"] = func(m *Machine, c *Call) []Result {
		_, s, ok := bufOf(m, c)
		if !ok {
			return nil
		}
		return ret(c.St, Str{ID: "string(" + valString(s) + ")", Len: s.Len, Src: &s, SrcSt: m.snapshot(c.St, s.Arr)})
	}
	h["(*bytes.Buffer).Reset"] = func(m *Machine, c *Call) []Result {
		p, _, ok := bufOf(m, c)
		if !ok {
			return nil
		}
		m.Write(c.St, p.Obj, p.Path.field(-1), nilSlice())
		return ret(c.St, nil)
	}
	h["(*bytes.Buffer).Grow"] = func(m *Machine, c *Call) []Result { return ret(c.St, nil) }
	h["(*bytes.Buffer).Truncate"] = func(m *Machine, c *Call) []Result {
		p, s, ok := bufOf(m, c)
		n, ok2 := c.Args[1].(*Term)
		if !ok || !ok2 {
			return nil
		}
		if !m.require(c.St, c.Fr, c.Site, LULe(n, s.Len), "bounds", fmt.Sprintf("Truncate(%s) of %s bytes", n, s.Len)) {
			return nil
		}
		s.Len = n
		m.Write(c.St, p.Obj, p.Path.field(-1), s)
		return ret(c.St, nil)
	}

	// errors
	newErr := func(m *Machine, c *Call) []Result {
		n := c.St.site("err:" + c.Name + m.pos(c.Site))
		id := fmt.Sprintf("err@%s'%d", m.pos(c.Site), n)
		return ret(c.St, Iface{ID: id, Nil: litBool(false)})
	}
	h["fmt.Errorf"] = newErr
	h["errors.New"] = newErr
	h["fmt.Sprintf"] = modelSprintf
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		h[n] = func(m *Machine, c *Call) []Result { return ret(c.St, m.freshRes(c.St, c.Site, c.Name)) }
	}
	// sync
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock"} {
			op := op
			h[t+"."+op] = func(m *Machine, c *Call) []Result {
				p, _ := c.Args[0].(Ptr)
				nm := "?"
				if p.Obj == nil || (len(p.Path.S) == 0 && !m.require(c.St, c.Fr, c.Site, p.Obj.Nil.Not(), "nil", "lock through nil pointer")) {
					m.require(c.St, c.Fr, c.Site, litBool(p.Obj != nil), "nil", "lock through nil pointer")
					return nil
				}
				nm = objName(p.Obj, p.Path)
				read := strings.Contains(op, "RL") || strings.Contains(op, "RU")
				if read {
					nm = "R:" + nm
				}
				c.St.event(&Event{Kind: strings.ToLower(strings.TrimPrefix(op, "R")), Name: nm, Recv: p, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn})
				if strings.HasSuffix(op, "Unlock") {
					found := false
					for i := len(c.St.held) - 1; i >= 0; i-- {
						if c.St.held[i] == nm {
							c.St.held = append(append([]string(nil), c.St.held[:i]...), c.St.held[i+1:]...)
							found = true
							break
						}
					}
					if !found && m.LockErr != nil {
						m.LockErr(c, "unlock of a lock that is not held: "+nm)
					}
					return ret(c.St, nil)
				}
				if m.LockErr != nil {
					for _, x := range c.St.held {
						if strings.TrimPrefix(x, "R:") == strings.TrimPrefix(nm, "R:") {
							m.LockErr(c, "lock already held by this goroutine: "+nm)
						}
					}
				}
				c.St.held = append(append([]string(nil), c.St.held...), nm)
				if strings.HasPrefix(op, "Try") {
					return ret(c.St, m.freshRes(c.St, c.Site, op))
				}
				return ret(c.St, nil)
			}
		}
	}
	h["(*sync.Once).Do"] = func(m *Machine, c *Call) []Result {
		q := c.St.fork()
		rs := m.call(c.St, c.Fr, &fakeCall{c.Site}, c.Args[1], nil)
		for i := range rs {
			rs[i].Ret = nil
		}
		return append(rs, Result{St: q})
	}
	// bytes / strings
	h["bytes.Equal"] = func(m *Machine, c *Call) []Result {
		a, ok1 := c.Args[0].(Slice)
		b, ok2 := c.Args[1].(Slice)
		if ok1 && ok2 {
			l := m.eqBytes(c.St, a, b)
			m.eqEvent(c, a, b, l)
			return ret(c.St, l)
		}
		return ret(c.St, m.freshRes(c.St, c.Site, c.Name))
	}
	h["bytes.Compare"] = func(m *Machine, c *Call) []Result {
		a, ok1 := c.Args[0].(Slice)
		b, ok2 := c.Args[1].(Slice)
		if ok1 && ok2 {
			l := m.eqBytes(c.St, a, b)
			m.eqEvent(c, a, b, l)
			q := c.St.fork()
			var out []Result
			if c.St.Assume(l) {
				out = append(out, Result{St: c.St, Ret: c64(0)})
			}
			if q.Assume(l.Not()) {
				t := q
				n := m.fresh(t, "cmp", types.Typ[types.Int], nil).(*Term)
				t.Assume(LNe(n, c64(0)))
				out = append(out, Result{St: t, Ret: n})
			}
			return out
		}
		return ret(c.St, m.freshRes(c.St, c.Site, c.Name))
	}
	strFn := func(name string, known func(a []string) Val) {
		h[name] = func(m *Machine, c *Call) []Result {
			var ks []string
			id := short(name) + "("
			all := true
			for i, a := range c.Args {
				if i > 0 {
					id += ","
				}
				id += valString(a)
				if s, ok := a.(Str); ok && s.Known {
					ks = append(ks, s.S)
				} else if t, ok := a.(*Term); ok && t.IsConst() {
					ks = append(ks, fmt.Sprint(t.Int()))
				} else {
					all = false
				}
			}
			if all && known != nil {
				if v := known(ks); v != nil {
					return ret(c.St, v)
				}
			}
			if c.Res.Len() == 2 && isErr(c.Res.At(1).Type()) {
				ok := Lit{BSym("ok:" + id + ")"), true}
				q := c.St.fork()
				var out []Result
				if c.St.Assume(ok) {
					out = append(out, Result{St: c.St, Ret: TupleV{m.symVal(id+")", c.Res.At(0).Type()), nilErr}})
				}
				if q.Assume(ok.Not()) {
					out = append(out, Result{St: q, Ret: TupleV{m.symVal("bad:"+id+")", c.Res.At(0).Type()), m.newErr(q, id)}})
				}
				return out
			}
			return ret(c.St, m.symVal(id+")", c.Res.At(0).Type()))
		}
	}
	strFn("strings.Contains", func(a []string) Val { return litBool(strings.Contains(a[0], a[1])) })
	strFn("strings.HasPrefix", func(a []string) Val { return litBool(strings.HasPrefix(a[0], a[1])) })
	strFn("strings.HasSuffix", func(a []string) Val { return litBool(strings.HasSuffix(a[0], a[1])) })
	strFn("strings.EqualFold", func(a []string) Val { return litBool(strings.EqualFold(a[0], a[1])) })
	strFn("strings.ToLower", func(a []string) Val { return strConst(strings.ToLower(a[0])) })
	strFn("strings.ToUpper", func(a []string) Val { return strConst(strings.ToUpper(a[0])) })
	strFn("strings.TrimSpace", func(a []string) Val { return strConst(strings.TrimSpace(a[0])) })
	strFn("strings.TrimPrefix", func(a []string) Val { return strConst(strings.TrimPrefix(a[0], a[1])) })
	strFn("strings.TrimSuffix", func(a []string) Val { return strConst(strings.TrimSuffix(a[0], a[1])) })
	strFn("strings.TrimRight", func(a []string) Val { return strConst(strings.TrimRight(a[0], a[1])) })
	strFn("strings.TrimLeft", func(a []string) Val { return strConst(strings.TrimLeft(a[0], a[1])) })
	strFn("strings.Trim", func(a []string) Val { return strConst(strings.Trim(a[0], a[1])) })
	strFn("strings.Repeat", func(a []string) Val { n, _ := strconv.Atoi(a[1]); return strConst(strings.Repeat(a[0], n)) })
	strFn("strings.Index", func(a []string) Val { return c64(int64(strings.Index(a[0], a[1]))) })
	strFn("strconv.Itoa", func(a []string) Val { return strConst(a[0]) })
	strFn("strconv.FormatInt", nil)
	strFn("strconv.FormatUint", nil)
	strFn("strconv.Atoi", func(a []string) Val {
		n, err := strconv.Atoi(a[0])
		return TupleV{c64(int64(n)), parseErr(err)}
	})
	strFn("strconv.ParseBool", func(a []string) Val {
		b, err := strconv.ParseBool(a[0])
		return TupleV{litBool(b), parseErr(err)}
	})
	parse := func(signed bool) func(a []string) Val {
		return func(a []string) Val {
			b, _ := strconv.Atoi(a[1])
			w, _ := strconv.Atoi(a[2])
			if signed {
				n, err := strconv.ParseInt(a[0], b, w)
				return TupleV{c64(n), parseErr(err)}
			}
			n, err := strconv.ParseUint(a[0], b, w)
			return TupleV{Const(64, n), parseErr(err)}
		}
	}
	strFn("strconv.ParseInt", parse(true))
	strFn("strconv.ParseUint", parse(false))
	strFn("path/filepath.Join", nil)
	strFn("path/filepath.Dir", nil)
	h["strings.Join"] = func(m *Machine, c *Call) []Result {
		s, ok := c.Args[0].(Slice)
		sep, ok2 := c.Args[1].(Str)
		if ok && ok2 && s.Len.IsConst() && s.Len.C < 64 {
			r := strConst("")
			for i := int64(0); i < int64(s.Len.C); i++ {
				e, ok := m.Read(c.St, s.Arr, s.Path.index(Add(s.Off, c64(i))), types.Typ[types.String]).(Str)
				if !ok {
					return ret(c.St, m.freshRes(c.St, c.Site, c.Name))
				}
				if i > 0 {
					r = concat(r, sep)
				}
				r = concat(r, e)
			}
			return ret(c.St, r)
		}
		return ret(c.St, m.symVal("strings.Join("+valString(c.Args[0])+")", c.Res.At(0).Type()))
	}
	split := func(m *Machine, c *Call) []Result {
		id := c.Name + "("
		for i, a := range c.Args {
			if i > 0 {
				id += ","
			}
			id += valString(a)
		}
		id += ")"
		s, ok1 := c.Args[0].(Str)
		sep, ok2 := c.Args[1].(Str)
		if ok1 && ok2 && s.Known && sep.Known {
			var parts []string
			if len(c.Args) == 3 {
				n, ok := c.Args[2].(*Term)
				if ok && n.IsConst() {
					parts = strings.SplitN(s.S, sep.S, int(n.Int()))
				}
			} else {
				parts = strings.Split(s.S, sep.S)
			}
			if parts != nil {
				o := m.intern("split:"+c.key(), "split@"+m.pos(c.Site), types.Typ[types.String])
				o.Arr = true
				c.St.ownMem()
				c.St.mem[o] = &ObjState{owner: c.St.id}
				for i, p := range parts {
					m.Write(c.St, o, Path{}.index(c64(int64(i))), strConst(p))
				}
				n := c64(int64(len(parts)))
				return ret(c.St, Slice{Arr: o, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)})
			}
		}
		o := m.symObj(id, types.Typ[types.String], true, false)
		hi := lenMax
		if len(c.Args) == 3 {
			if n, ok := c.Args[2].(*Term); ok && n.IsConst() && n.Int() > 0 {
				hi = n.C
			}
		}
		l := SymRange(64, "len("+id+")", 1, hi)
		return ret(c.St, Slice{Arr: o, Off: c64(0), Len: l, Cap: l, Nil: litBool(false)})
	}
	h["strings.Split"] = split
	h["strings.SplitN"] = split
	h["sort.Sort"] = func(m *Machine, c *Call) []Result {
		if i, ok := c.Args[0].(Iface); ok && i.T != nil {
			m.havocVal(c.St, i.V, "sorted@"+m.pos(c.Site))
		}
		return ret(c.St, nil)
	}
	h["time.Now"] = func(m *Machine, c *Call) []Result { return ret(c.St, m.freshRes(c.St, c.Site, c.Name)) }
	// io
	h["io.ReadFull"] = func(m *Machine, c *Call) []Result {
		s, ok := c.Args[1].(Slice)
		e := &Event{Kind: "ext", Name: "io.ReadFull", Args: c.Args, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
		c.St.event(e)
		e.St = c.St.fork()
		if !ok {
			return m.outcomes(c.St, c.Site, c.Name, c.Res, e)
		}
		bad := c.St.fork()
		if s.Arr != nil {
			n := c.St.site("readfull" + m.pos(c.Site))
			nm := fmt.Sprintf("read@%s'%d", m.pos(c.Site), n)
			src := m.symObj(nm, byteT, true, false)
			m.copyElems(c.St, s.Arr, s.Path, s.Off, s.Len, src, Path{}, c64(0), byteT)
			m.havocVal(bad, s, "partial@"+m.pos(c.Site))
		}
		n := m.fresh(bad, "n@"+m.pos(c.Site), types.Typ[types.Int], nil).(*Term)
		bad.Assume(LULe(n, s.Len))
		r1, r2 := TupleV{s.Len, nilErr}, TupleV{n, m.newErr(bad, "io.ReadFull@"+m.pos(c.Site))}
		c.St.evPatch(e, r1)
		bad.evPatch(e, r2)
		return []Result{{St: c.St, Ret: r1}, {St: bad, Ret: r2}}
	}
	h["github.com/satori/go.uuid.Equal"] = func(m *Machine, c *Call) []Result {
		return ret(c.St, m.eqVals(c.St, c.Args[0], c.Args[1]))
	}
	h["github.com/satori/go.uuid.NewV1"] = modelUUID
	h["github.com/satori/go.uuid.NewV4"] = modelUUID
}

func modelUUID(m *Machine, c *Call) []Result {
	rs := m.freshTyped(c.St, c.Name+"@"+m.pos(c.Site), c.Res)
	return ret(c.St, rs)
}

// fakeCall lets a hook call a niladic function value.
type fakeCall struct{ ssa.CallInstruction }

func (f *fakeCall) Common() *ssa.CallCommon {
	c := *f.CallInstruction.Common()
	c.Method = nil
	return &c
}

func (c *Call) key() string {
	n := c.St.site(fmt.Sprintf("k:%s:%p", c.Fr.ctx, c.Site))
	return fmt.Sprintf("%s:%p#%d", c.Fr.ctx, c.Site, n)
}

// termBytes makes an array holding the w low bytes of v.
func (m *Machine) termBytes(st *State, key string, v *Term, w int, big bool) Slice {
	o := m.intern("tb:"+key, "bytes("+v.String()+")", byteT)
	o.Arr = true
	st.ownMem()
	st.mem[o] = &ObjState{owner: st.id}
	for i := 0; i < w; i++ {
		sh := 8 * i
		if big {
			sh = 8 * (w - 1 - i)
		}
		m.Write(st, o, Path{}.index(c64(int64(i))), Resize(LShr(v, sh), 8, false))
	}
	return Slice{Arr: o, Off: c64(0), Len: c64(int64(w)), Cap: c64(int64(w)), Nil: litBool(false)}
}

// eqBytes is equality of two byte slices.
func (m *Machine) eqBytes(st *State, a, b Slice) Lit {
	if a.Arr == nil || b.Arr == nil {
		return LEq(a.Len, b.Len)
	}
	if k, v := st.Eval(LEq(a.Len, b.Len)); k && !v {
		return litBool(false)
	}
	if a.Len.IsConst() && b.Len.IsConst() && a.Len.C <= 32 {
		var unk []Lit
		for i := int64(0); i < int64(a.Len.C); i++ {
			x, y := m.ByteAt(st, a, i), m.ByteAt(st, b, i)
			if x == nil || y == nil {
				unk = append(unk, Lit{BSym("?"), true}, Lit{BSym("??"), true})
				break
			}
			l := LEq(x, y)
			k, v := st.Eval(l)
			if k && !v {
				return litBool(false)
			}
			if !k {
				unk = append(unk, l)
			}
		}
		if len(unk) == 0 {
			return litBool(true)
		}
		if len(unk) == 1 {
			return unk[0]
		}
	}
	n1, n2 := valString(a), valString(b)
	if n2 < n1 {
		n1, n2 = n2, n1
	}
	return Lit{BSym("bytes.Equal(" + n1 + "," + n2 + ")"), true}
}

func modelBinaryWrite(m *Machine, c *Call) []Result {
	w, ok1 := c.Args[0].(Iface)
	ord, ok2 := c.Args[1].(Iface)
	d, ok3 := c.Args[2].(Iface)
	if ok1 && ok2 && ok3 && w.T != nil && ord.T != nil && d.T != nil && w.T.String() == "*bytes.Buffer" {
		big := strings.HasSuffix(ord.T.String(), "bigEndian")
		p, okp := w.V.(Ptr)
		if okp && p.Obj != nil {
			cur, _ := m.Read(c.St, p.Obj, p.Path.field(-1), types.NewSlice(byteT)).(Slice)
			var s Slice
			ok := false
			switch v := d.V.(type) {
			case *Term:
				s = m.termBytes(c.St, c.key(), v, int(v.W)/8, big)
				ok = true
			case Slice:
				if w, _, isI := intWidth(under(d.T).(*types.Slice).Elem()); isI && w == 8 {
					s, ok = v, true
				}
			case ArrayV:
				ok = true
				o := m.intern("bwa:"+c.key(), "array bytes", byteT)
				o.Arr = true
				c.St.ownMem()
				c.St.mem[o] = &ObjState{owner: c.St.id}
				at := int64(0)
				for _, e := range v.E {
					t, isT := e.(*Term)
					if !isT {
						ok = false
						break
					}
					w := int(t.W) / 8
					for k := 0; k < w; k++ {
						sh := 8 * k
						if big {
							sh = 8 * (w - 1 - k)
						}
						m.Write(c.St, o, Path{}.index(c64(at)), Resize(LShr(t, sh), 8, false))
						at++
					}
				}
				n := c64(at)
				s = Slice{Arr: o, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)}
			}
			if ok {
				ns := m.appendSlice(c.St, "bw"+c.key(), m.pos(c.Site), cur, s, byteT, true)
				m.Write(c.St, p.Obj, p.Path.field(-1), ns)
				return ret(c.St, nilErr)
			}
		}
	}
	m.incomplete("binary.Write of unknown shape at " + m.pos(c.Site))
	return m.outcomes(c.St, c.Site, c.Name, c.Res, nil)
}

// modelSprintf keeps %s/%v of strings and literal text; other verbs become
// named pieces.
func modelSprintf(m *Machine, c *Call) []Result {
	f, ok := c.Args[0].(Str)
	va, ok2 := c.Args[1].(Slice)
	if !ok || !f.Known || !ok2 || !va.Len.IsConst() {
		return ret(c.St, m.symVal("fmt.Sprintf("+valString(c.Args[0])+","+valString(c.Args[1])+")@"+m.pos(c.Site), types.Typ[types.String]))
	}
	anyT := types.NewInterfaceType(nil, nil)
	out := strConst("")
	k := int64(0)
	s := f.S
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = concat(out, strConst(s))
			break
		}
		out = concat(out, strConst(s[:i]))
		s = s[i:]
		j := 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[:j+1]
		s = s[j+1:]
		if verb == "%%" {
			out = concat(out, strConst("%"))
			continue
		}
		var a Val
		if va.Arr != nil && k < int64(va.Len.C) {
			a = m.Read(c.St, va.Arr, va.Path.index(Add(va.Off, c64(k))), anyT)
		}
		k++
		var piece Str
		if iv, ok := a.(Iface); ok && iv.T != nil {
			switch v := iv.V.(type) {
			case Str:
				if verb == "%s" || verb == "%v" {
					piece = v
					break
				}
				piece = Str{ID: "fmt(" + verb + "," + valString(v) + ")", Len: SymRange(64, "len(fmt("+verb+","+valString(v)+"))", 0, lenMax)}
			case *Term:
				_, plain := iv.T.(*types.Basic)
				if v.IsConst() && (plain || verb[len(verb)-1] != 's' && verb[len(verb)-1] != 'v') {
					_, sg, _ := intWidth(iv.T)
					if sg {
						piece = strConst(fmt.Sprintf(verb, v.Int()))
					} else {
						piece = strConst(fmt.Sprintf(verb, v.C))
					}
					break
				}
				piece = Str{ID: "fmt(" + verb + "," + valString(v) + ")", Len: SymRange(64, "len(fmt("+verb+","+valString(v)+"))", 1, 64)}
			default:
				piece = Str{ID: "fmt(" + verb + "," + valString(iv.V) + ")", Len: SymRange(64, "len(fmt("+verb+","+valString(iv.V)+"))", 0, lenMax)}
			}
		} else {
			piece = Str{ID: "fmt(" + verb + "," + valString(a) + ")", Len: SymRange(64, "len(fmt("+verb+","+valString(a)+"))", 0, lenMax)}
		}
		out = concat(out, piece)
	}
	return ret(c.St, out)
}

// eqEvent records a comparison of two byte sequences.
func (m *Machine) eqEvent(c *Call, a, b Slice, l Lit) {
	e := &Event{Kind: "eq", Name: c.Name, Args: []Val{a, b}, Rets: []Val{l}, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
	c.St.event(e)
	e.St = c.St.fork()
}

// parseErr is the error of a conversion of a known string.
func parseErr(err error) Val {
	if err == nil {
		return nilErr
	}
	return Iface{ID: "err:" + err.Error(), Nil: litBool(false)}
}
