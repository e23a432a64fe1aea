package main

import (
	"fmt"
	"go/types"
)

// scsiEnv is an abstract initial state in which one SCSI command is executed.
type scsiEnv struct {
	m             *Machine
	st            *State
	op            byte
	dir           string // "R": data-in buffer, "W": data-out buffer
	cmd           *Obj
	lu            *Obj
	lu0           *Obj
	tgt           *Obj
	in            *Obj // SCSIDataBuffer
	out           *Obj
	inB           *Obj
	outB          *Obj
	scb           *Obj
	scbS          Slice
	args          []Val
	size          *Term
	shift         uint
	inLen, outLen *Term // 32 bit
}

func (p *Program) mustType(n string) types.Type {
	t := p.Type(n)
	if t == nil {
		panic(Anchor("type " + n))
	}
	return t
}

// Anchor is the panic value for a program element the rules need and cannot find.
type Anchor string

// bsModel installs the contract of a backing store: a read returns exactly the
// bytes asked for or an error, every other operation succeeds or fails.
func bsModel(m *Machine) {
	ev := func(c *Call, kind string) *Event {
		e := &Event{Kind: "bs", Name: kind, Recv: c.Recv, Args: c.Args, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
		c.St.event(e)
		e.St = c.St.fork()
		return e
	}
	fork := func(c *Call, kind string, okv func(*State) Val) []Result {
		e := ev(c, kind)
		bad := c.St.fork()
		ok := c.St
		n := ok.site("bs:" + kind)
		er := Iface{ID: fmt.Sprintf("bs.%s.err%d", kind, n), Nil: litBool(false)}
		var rs []Result
		if okv == nil {
			v := Iface{Nil: litBool(true)}
			ok.evPatch(e, []Val{v})
			bad.evPatch(e, []Val{er})
			rs = append(rs, Result{St: ok, Ret: v}, Result{St: bad, Ret: er})
		} else {
			v := okv(ok)
			ok.evPatch(e, []Val{v, Iface{Nil: litBool(true)}})
			bad.evPatch(e, []Val{nilSlice(), er})
			rs = append(rs, Result{St: ok, Ret: TupleV{v, Iface{Nil: litBool(true)}}}, Result{St: bad, Ret: TupleV{nilSlice(), er}})
		}
		return rs
	}
	const I = "pkg/api.BackingStore."
	m.Invoke[I+"Read"] = func(m *Machine, c *Call) []Result {
		return fork(c, "Read", func(st *State) Val {
			n := st.site("disk")
			tl, _ := c.Args[1].(*Term)
			if tl == nil {
				tl = SymRange(64, "bs.tl", 0, lenMax)
			}
			o := m.symObj(fmt.Sprintf("disk%d", n), types.Typ[types.Uint8], true, false)
			o.Nil = litBool(false)
			return Slice{Arr: o, Off: c64(0), Len: tl, Cap: tl, Nil: litBool(false)}
		})
	}
	for _, k := range []string{"Write", "DataSync", "DataAdvise", "Unmap", "Open", "Close", "Init", "Exit"} {
		k := k
		m.Invoke[I+k] = func(m *Machine, c *Call) []Result { return fork(c, k, nil) }
	}
	m.Invoke[I+"Size"] = func(m *Machine, c *Call) []Result { return ret(c.St, Sym(64, "bs.Size")) }
}

func byteSlice(m *Machine, name string, n *Term) (Slice, *Obj) {
	o := m.symObj(name, types.Typ[types.Uint8], true, false)
	o.Nil = litBool(false)
	return Slice{Arr: o, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)}, o
}

func (m *Machine) newStruct(st *State, name, typ string) *Obj {
	o := m.newObj(name, m.P.mustType(typ))
	st.mut(o)
	return o
}

// symField makes a field arbitrary.
func (m *Machine) symField(st *State, o *Obj, field, name string) {
	_, ft := fieldPath(Path{}, o.T, field)
	if ft == nil {
		panic(Anchor("field " + field + " of " + o.T.String()))
	}
	m.SetField(st, o, Path{}, field, m.symVal(name, ft))
}

// deviceStates interprets the LU constructor for an arbitrary backing
// store and returns the states (with the LU object) of its successful outcomes.
func deviceStates(m *Machine, st *State, shift uint) ([]*State, []*Obj) {
	fn := m.P.Func("pkg/scsi.NewSCSILu")
	if fn == nil {
		panic(Anchor("function NewSCSILu"))
	}
	bs := m.newStruct(st, "bsconf", "pkg/config.BackendStorage")
	m.SetField(st, bs, Path{}, "Path", Str{ID: "bsconf.Path", Len: SymRange(64, "len(bsconf.Path)", 0, lenMax)})
	m.SetField(st, bs, Path{}, "BlockShift", Const(64, uint64(shift)))
	m.SetField(st, bs, Path{}, "DeviceID", Sym(64, "bsconf.DeviceID"))
	for _, b := range []string{"Online", "ThinProvisioning"} {
		m.SetField(st, bs, Path{}, b, Lit{BSym("bsconf." + b), true})
	}
	old := m.DynHook
	m.DynHook = func(m *Machine, c *Call) ([]Result, bool) {
		if c.Res.Len() == 2 && short(types.TypeString(c.Res.At(0).Type(), nil)) == "pkg/api.BackingStore" {
			bad := c.St.fork()
			return []Result{
				{St: c.St, Ret: TupleV{Iface{ID: "storage", Nil: litBool(false)}, Iface{Nil: litBool(true)}}},
				{St: bad, Ret: TupleV{Iface{Nil: litBool(true)}, m.newErr(bad, "newbs")}},
			}, true
		}
		return nil, false
	}
	defer func() { m.DynHook = old }()
	var sts []*State
	var lus []*Obj
	for _, r := range m.Run(st, fn, []Val{Ptr{Obj: bs}}) {
		tv, ok := r.Ret.(TupleV)
		if !ok || len(tv) != 2 {
			continue
		}
		e, _ := tv[1].(Iface)
		if k, v := r.St.Eval(e.Nil); !k || !v {
			continue
		}
		p, ok := tv[0].(Ptr)
		if !ok || p.Obj == nil {
			continue
		}
		if iv, ok := m.Field(r.St, p.Obj, Path{}, "Storage").(Iface); !ok || iv.ID != "storage" {
			continue
		}
		sts = append(sts, r.St)
		lus = append(lus, p.Obj)
	}
	return sts, lus
}

type scsiBase struct {
	m     *Machine
	st    *State
	lu    *Obj
	shift uint
}

// newSCSIBase prepares a machine whose state holds one logical unit in an
// arbitrary (but well-formed) condition.
func newSCSIBase(p *Program, init *Machine, shift uint) *scsiBase {
	m := NewMachine(p)
	m.Base = init.Base
	m.objs = map[string]*Obj{}
	for k, v := range init.objs {
		m.objs[k] = v
	}
	m.objSeq = init.objSeq
	bsModel(m)
	st := m.Base.fork()
	sts, lus := deviceStates(m, st, shift)
	if len(sts) == 0 {
		panic(Anchor("no successful outcome of NewSCSILu"))
	}
	st, lu := sts[0], lus[0]
	// start from a clean path condition
	st.facts, st.fset, st.bitk, st.fown = nil, map[*Term]bool{}, map[Bit]uint8{}, true
	st.evs = nil
	// everything that can change during the life of the unit is arbitrary
	m.SetField(st, lu, Path{}, "Size", luSize())
	m.symField(st, lu, "ReserveID", "lu.ReserveID")
	ap, at := fieldPath(Path{}, lu.T, "Attrs")
	for _, f := range []string{"Online", "Reset", "Qualifier", "ThinProvisioning", "Removable", "Readonly", "SWP", "SenseFormat"} {
		fp, ft := fieldPath(ap, at, f)
		if ft != nil {
			m.Write(st, lu, fp, Lit{BSym("lu." + f), true})
		}
	}
	if fp, ft := fieldPath(ap, at, "LowestAlignedLBA"); ft != nil {
		m.Write(st, lu, fp, SymRange(64, "lu.LowestAlignedLBA", 0, 0x3fff))
		_ = ft
	}
	m.Panics, m.panSeen = nil, map[string]bool{}
	st.freeze()
	return &scsiBase{m: m, st: st, lu: lu, shift: shift}
}

// command builds the state in which the target service is asked to execute a
// command with the given opcode and data buffers.
func (b *scsiBase) command(op byte, dir string) *scsiEnv {
	m := b.m
	st := b.st.fork()
	st.cnt = map[string]int{}
	st.cown = true
	e := &scsiEnv{m: m, st: st, op: op, dir: dir, lu: b.lu, shift: b.shift, size: luSize()}
	// command block: 16 bytes
	e.scb = m.symObj("scb", types.Typ[types.Uint8], true, false)
	e.scb.Nil = litBool(false)
	e.scbS = Slice{Arr: e.scb, Off: c64(0), Len: c64(16), Cap: c64(16), Nil: litBool(false)}
	m.Write(st, e.scb, Path{}.index(c64(0)), Const(8, uint64(op)))
	lunKey := Sym(64, "lunkey")
	e.cmd = m.newStruct(st, "cmd", "pkg/api.SCSICommand")
	set := func(f string, v Val) { m.SetField(st, e.cmd, Path{}, f, v) }
	set("OpCode", Const(8, uint64(op)))
	set("SCB", e.scbS)
	set("SCBLength", c64(16))
	set("Tag", Sym(64, "cmd.Tag"))
	set("RelTargetPortID", Sym(16, "cmd.RelTargetPortID"))
	m.symField(st, e.cmd, "ITNexusID", "cmd.ITNexusID")
	lp, lt := fieldPath(Path{}, e.cmd.T, "Lun")
	for i := int64(0); i < lt.Underlying().(*types.Array).Len(); i++ {
		m.Write(st, e.cmd, lp.index(c64(i)), Resize(LShr(lunKey, int(8*i)), 8, false))
	}
	buf := func(nm string) (*Obj, *Obj, *Term) {
		o := m.newStruct(st, nm, "pkg/api.SCSIDataBuffer")
		l := Sym(32, nm+".Length")
		s, bo := byteSlice(m, nm+".data", Resize(l, 64, false))
		m.SetField(st, o, Path{}, "Buffer", s)
		m.SetField(st, o, Path{}, "Length", l)
		return o, bo, l
	}
	if dir == "R" {
		e.in, e.inB, e.inLen = buf("in")
		set("InSDBBuffer", Ptr{Obj: e.in})
	} else {
		e.out, e.outB, e.outLen = buf("out")
		set("OutSDBBuffer", Ptr{Obj: e.out})
	}
	// target with one mapped unit and the placeholder unit
	e.tgt = m.newStruct(st, "target", "pkg/api.SCSITarget")
	tid := Sym(64, "tid")
	m.SetField(st, e.tgt, Path{}, "TID", tid)
	m.SetField(st, e.tgt, Path{}, "Name", Str{ID: "target.Name", Len: SymRange(64, "len(target.Name)", 0, 223)})
	_, dt := fieldPath(Path{}, e.tgt.T, "Devices")
	dev := m.newObj("target.Devices", dt)
	dev.Map = true
	os := st.mut(dev)
	os.ents = append(os.ents, MapEnt{Key: lunKey, Val: Ptr{Obj: b.lu}})
	m.SetField(st, e.tgt, Path{}, "Devices", MapV{dev, litBool(false)})
	_, it := fieldPath(Path{}, e.tgt.T, "ITNexus")
	nx := m.newObj("target.ITNexus", it)
	nx.Map = true
	st.mut(nx)
	m.SetField(st, e.tgt, Path{}, "ITNexus", MapV{nx, litBool(false)})
	// one port group with one port
	_, gt := fieldPath(Path{}, e.tgt.T, "TargetPortGroups")
	ptrT := gt.Underlying().(*types.Slice).Elem()
	grp := m.newObj("target.TPG", ptrT.Underlying().(*types.Pointer).Elem())
	st.mut(grp)
	m.symField(st, grp, "GroupID", "tpg.GroupID")
	_, pt := fieldPath(Path{}, grp.T, "TargetPortGroup")
	if pt == nil {
		panic(Anchor("field TargetPortGroup"))
	}
	portT := pt.Underlying().(*types.Slice).Elem()
	port := m.newObj("target.port", portT.Underlying().(*types.Pointer).Elem())
	st.mut(port)
	m.symField(st, port, "RelativeTargetPortID", "port.RelID")
	m.SetField(st, port, Path{}, "TargetPortName", Str{ID: "port.Name", Len: SymRange(64, "len(port.Name)", 0, 240)})
	one := func(nm string, et types.Type, o *Obj) Slice {
		a := m.newObj(nm, et)
		a.Arr = true
		st.mut(a)
		m.Write(st, a, Path{}.index(c64(0)), Ptr{Obj: o})
		return Slice{Arr: a, Off: c64(0), Len: c64(1), Cap: c64(1), Nil: litBool(false)}
	}
	m.SetField(st, grp, Path{}, "TargetPortGroup", one("target.ports", portT, port))
	m.SetField(st, e.tgt, Path{}, "TargetPortGroups", one("target.groups", ptrT, grp))
	svc := m.newStruct(st, "svc", "pkg/scsi.SCSITargetService")
	_, tt := fieldPath(Path{}, svc.T, "Targets")
	ta := m.newObj("svc.Targets", tt.Underlying().(*types.Slice).Elem())
	ta.Arr = true
	st.mut(ta)
	m.Write(st, ta, Path{}.index(c64(0)), Ptr{Obj: e.tgt})
	m.SetField(st, svc, Path{}, "Targets", Slice{Arr: ta, Off: c64(0), Len: c64(1), Cap: c64(1), Nil: litBool(false)})
	e.args = []Val{Ptr{Obj: svc}, tid, Ptr{Obj: e.cmd}}
	m.NonNil = func(n string) bool { return true }
	return e
}

const fnAddCommand = "(*pkg/scsi.SCSITargetService).AddCommandQueue"

func (e *scsiEnv) run() []Result {
	fn := e.m.P.Func(fnAddCommand)
	if fn == nil {
		panic(Anchor("method SCSITargetService.AddCommandQueue"))
	}
	return e.m.Run(e.st, fn, e.args)
}

func (b *scsiBase) scb(i int) *Term { return Sym(8, fmt.Sprintf("scb[%d]", i)) }

// luSize is the size in bytes of the logical unit: stores address with a
// signed 64 bit offset, so no unit is larger than that.
func luSize() *Term { return SymRange(64, "lu.Size", 0, 1<<63-1) }
