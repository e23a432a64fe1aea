package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The iSCSI layer is analysed over scripts: the byte stream of one connection
// is a list of PDUs whose header and data bytes are symbolic unless fixed.
// Goroutines run one after another in the order in which they were started,
// which is what the connection's read lock allows.

type pdu struct {
	op   byte           // opcode with the immediate bit
	set  map[int]uint64 // fixed header bytes
	text string         // concrete data segment
	dl   int            // data segment length, -1: any length with remainder rem
	rem  int
	ahs  int // additional header words
	sym0 bool
}

const pduData = 1 << 20 // longest symbolic data segment considered per PDU

type iscsiEnv struct {
	c   *Ctx
	m   *Machine
	st  *State
	drv *Obj
	tgt []*Obj

	script  []pdu
	owner   []string                      // the connection of each PDU
	limit   int                           // PDUs that have been sent so far
	fail    func(k int, what string) bool // which external operations may fail
	leak    func(st *State, locks string)
	blocked []*State
	cur     Val // the goroutine that runs
	results []scsiResult
	rem     int    // the low two bits of the data-in lengths
	base    string // what the driver keeps after one session
	conns   []string
	local   map[string]string // local address of a connection
}

// scsiResult is one outcome of the SCSI layer.
type scsiResult struct {
	status   byte
	sense    bool
	err      bool
	senseLen int    // 18 if 0
	max      uint64 // bounds the data the command has (0: no bound)
}

const (
	tgtA = "iqn.2016-09.com.gotgt.gostor:a"
	tgtB = "iqn.2016-09.com.gotgt.gostor:b"
	prtA = "10.0.0.1:3260"
	prtB = "10.0.0.2:3260"
	iniA = "iqn.1993-08.org.debian:01:x"
)

func kvText(kv ...string) string {
	return strings.Join(kv, "\x00") + "\x00"
}

func known(s string) Str { return strConst(s) }

// newISCSI builds a driver with two targets through the repository's own
// constructors and leaves it in the state in which it accepts a connection.
func newISCSI(c *Ctx, portals map[string]map[string][]string) *iscsiEnv {
	p := c.Program("", false)
	m := machineFrom(p, c.Init(p))
	m.MaxRec = 6
	m.MaxStep = 60_000_000
	bsModel(m)
	e := &iscsiEnv{c: c, m: m}
	e.models()
	m.DynHook = func(m *Machine, c *Call) ([]Result, bool) {
		if c.Res.Len() == 2 && short(types.TypeString(c.Res.At(0).Type(), nil)) == "pkg/api.BackingStore" {
			return []Result{{St: c.St, Ret: TupleV{Iface{ID: "storage", Nil: litBool(false)}, nilErr}}}, true
		}
		return nil, false
	}
	st := m.Base.fork()
	one := func(name string, rs []Result) Result {
		var ok []Result
		for _, r := range rs {
			if tv, is := r.Ret.(TupleV); is && len(tv) == 2 {
				if ev, is := tv[1].(Iface); is {
					if k, v := r.St.Eval(ev.Nil); !k || !v {
						continue
					}
				}
			}
			ok = append(ok, r)
		}
		if len(ok) == 0 {
			panic(Anchor("no successful outcome of " + name))
		}
		return ok[0]
	}
	svc := m.newStruct(st, "scsiService", "pkg/scsi.SCSITargetService")
	nd := p.Func("pkg/port/iscsit.NewISCSITargetDriver")
	if nd == nil {
		panic(Anchor("NewISCSITargetDriver"))
	}
	r := one("NewISCSITargetDriver", m.Run(st, nd, []Val{Ptr{Obj: svc}}))
	tv := r.Ret.(TupleV)
	iv, _ := tv[0].(Iface)
	dp, ok := iv.V.(Ptr)
	if !ok {
		panic(Anchor("the iSCSI driver object"))
	}
	e.drv, st = dp.Obj, r.St
	nt := p.Func("(*pkg/port/iscsit.ISCSITargetDriver).NewTarget")
	if nt == nil {
		panic(Anchor("ISCSITargetDriver.NewTarget"))
	}
	cfg := m.newStruct(st, "cfg", "pkg/config.Config")
	var pl []string
	idx := func(s string) int {
		for i, x := range pl {
			if x == s {
				return i
			}
		}
		pl = append(pl, s)
		return len(pl) - 1
	}
	_, tmT := fieldPath(Path{}, cfg.T, "ISCSITargets")
	tm := m.newObj("cfg.targets", tmT)
	tm.Map = true
	st.mut(tm)
	tT := under(tmT).(*types.Map).Elem()
	for _, name := range sortedKeys(portals) {
		_, tpT := fieldPath(Path{}, tT, "TPGTs")
		tp := m.newObj("cfg.tpgts."+name, tpT)
		tp.Map = true
		st.mut(tp)
		for _, g := range sortedKeys(portals[name]) {
			arr := m.newObj("cfg.ids."+name+g, types.Typ[types.Uint64])
			arr.Arr = true
			st.mut(arr)
			for i, x := range portals[name][g] {
				m.Write(st, arr, Path{}.index(c64(int64(i))), Const(64, uint64(idx(x))))
			}
			n := c64(int64(len(portals[name][g])))
			st.mut(tp).ents = append(st.mut(tp).ents, MapEnt{Key: known(g), Val: Slice{Arr: arr, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)}})
		}
		to := m.newObj("cfg.tgt."+name, tT)
		st.mut(to)
		m.SetField(st, to, Path{}, "TPGTs", MapV{tp, litBool(false)})
		st.mut(tm).ents = append(st.mut(tm).ents, MapEnt{Key: known(name), Val: m.Read(st, to, Path{}, tT)})
	}
	m.SetField(st, cfg, Path{}, "ISCSITargets", MapV{tm, litBool(false)})
	_, plT := fieldPath(Path{}, cfg.T, "ISCSIPortals")
	pT := under(plT).(*types.Slice).Elem()
	pa := m.newObj("cfg.portals", pT)
	pa.Arr = true
	st.mut(pa)
	for i, s := range pl {
		q := Path{}.index(c64(int64(i)))
		fp, _ := fieldPath(q, pT, "ID")
		m.Write(st, pa, fp, Const(16, uint64(i)))
		fp, _ = fieldPath(q, pT, "Portal")
		m.Write(st, pa, fp, known(s))
	}
	n := c64(int64(len(pl)))
	m.SetField(st, cfg, Path{}, "ISCSIPortals", Slice{Arr: pa, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)})
	for _, name := range sortedKeys(portals) {
		done := false
		for _, r := range m.Run(st.fork(), nt, []Val{Ptr{Obj: e.drv}, known(name), Ptr{Obj: cfg}}) {
			if ev, ok := r.Ret.(Iface); ok {
				if k, v := r.St.Eval(ev.Nil); k && v {
					st, done = r.St, true
					break
				}
			}
		}
		if !done {
			panic(Anchor("no successful outcome of NewTarget"))
		}
	}
	if g := p.Global("pkg/port/iscsit.CurrentHostIP"); g != nil {
		m.Write(st, m.globalObj(g), Path{}, known(""))
	}
	st.facts, st.fset, st.bitk, st.fown = nil, map[*Term]bool{}, map[Bit]uint8{}, true
	st.evs = nil
	m.Panics, m.panSeen = nil, map[string]bool{}
	st.freeze()
	e.st = st
	return e
}

func stdPortals() map[string]map[string][]string {
	return map[string]map[string][]string{tgtA: {"1": {prtA}}, tgtB: {"258": {prtB}}}
}

func (e *iscsiEnv) ghostInt(st *State, k string) int64 {
	if t, ok := st.ghost[k].(*Term); ok && t.IsConst() {
		return t.Int()
	}
	return 0
}

func (e *iscsiEnv) ev(c *Call, kind, name string, args []Val) *Event {
	ev := &Event{Kind: kind, Name: name, Recv: c.Recv, Args: args, Pos: e.m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
	c.St.event(ev)
	ev.St = c.St.fork()
	return ev
}

func (e *iscsiEnv) mayFail(st *State, what string) bool {
	return e.fail != nil && e.fail(int(e.ghostInt(st, "at")), what)
}

func (e *iscsiEnv) models() {
	m := e.m
	m.GoHook = func(m *Machine, st *State, fv Val, args []Val) {
		n := e.ghostInt(st, "gos")
		st.SetGhost(fmt.Sprintf("go%03d", n), TupleV{fv, TupleV(args)})
		st.SetGhost("gos", c64(n+1))
	}
	m.Hooks["github.com/sirupsen/logrus.GetLevel"] = func(m *Machine, c *Call) []Result {
		t := c.Res.At(0).Type()
		w, _, _ := intWidth(t)
		return ret(c.St, Const(w, 4)) // info
	}
	m.Hooks["net.Listen"] = func(m *Machine, c *Call) []Result {
		e.ev(c, "net", "Listen", c.Args)
		return ret(c.St, TupleV{Iface{ID: "listener", Nil: litBool(false)}, nilErr})
	}
	m.Invoke["net.Listener.Addr"] = func(m *Machine, c *Call) []Result {
		return ret(c.St, Iface{ID: "addr:listen", Nil: litBool(false)})
	}
	m.Invoke["net.Listener.Close"] = func(m *Machine, c *Call) []Result {
		e.ev(c, "net", "ListenerClose", c.Args)
		return ret(c.St, nilErr)
	}
	m.Invoke["net.Listener.Accept"] = func(m *Machine, c *Call) []Result {
		n := e.ghostInt(c.St, "accepts")
		if n >= e.ghostInt(c.St, "dialled") {
			e.blocked = append(e.blocked, c.St)
			return nil
		}
		c.St.SetGhost("accepts", c64(n+1))
		return ret(c.St, TupleV{Iface{ID: fmt.Sprintf("conn%d", n+1), Nil: litBool(false)}, nilErr})
	}
	m.Invoke["net.Conn.RemoteAddr"] = func(m *Machine, c *Call) []Result {
		return ret(c.St, Iface{ID: "addr:remote", Nil: litBool(false)})
	}
	m.Invoke["net.Conn.LocalAddr"] = func(m *Machine, c *Call) []Result {
		return ret(c.St, Iface{ID: "addr:local:" + connID(c.Recv), Nil: litBool(false)})
	}
	m.Invoke["net.Addr.String"] = func(m *Machine, c *Call) []Result {
		id := c.Recv.(Iface).ID
		switch {
		case strings.HasPrefix(id, "addr:local:"):
			if a, ok := e.local[strings.TrimPrefix(id, "addr:local:")]; ok {
				return ret(c.St, known(a))
			}
			return ret(c.St, known(prtA))
		case id == "addr:remote":
			return ret(c.St, known("10.0.0.9:40000"))
		}
		return ret(c.St, known("0.0.0.0:3260"))
	}
	m.Invoke["net.Conn.Close"] = func(m *Machine, c *Call) []Result {
		e.ev(c, "net", "Close", []Val{c.Recv})
		c.St.SetGhost("closed."+connID(c.Recv), c64(1))
		return ret(c.St, nilErr)
	}
	for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		m.Invoke["net.Conn."+n] = func(m *Machine, c *Call) []Result { return ret(c.St, nilErr) }
	}
	m.Invoke["net.Conn.Write"] = func(m *Machine, c *Call) []Result {
		if e.ghostInt(c.St, "closed."+connID(c.Recv)) != 0 {
			return ret(c.St, TupleV{c64(0), m.newErr(c.St, "closed")})
		}
		b, ok := c.Args[0].(Slice)
		if !ok {
			m.incomplete("write of unknown shape at " + m.pos(c.Site))
			return nil
		}
		ev := e.ev(c, "net", "Write", c.Args)
		var out []Result
		if e.mayFail(c.St, "write") {
			bad := c.St.fork()
			n := SymRange(64, fmt.Sprintf("written%d", bad.site("written")), 0, lenMax)
			bad.Assume(LULe(n, b.Len))
			r := TupleV{n, m.newErr(bad, "write")}
			bad.evPatch(ev, r)
			out = append(out, Result{St: bad, Ret: r})
		}
		r := TupleV{b.Len, nilErr}
		c.St.evPatch(ev, r)
		return append([]Result{{St: c.St, Ret: r}}, out...)
	}
	full := func(m *Machine, c *Call) []Result {
		b, ok := c.Args[1].(Slice)
		if !ok {
			m.incomplete("read of unknown shape at " + m.pos(c.Site))
			return nil
		}
		return e.read(c, b)
	}
	m.Hooks["io.ReadFull"] = full
	m.Hooks["io.ReadAtLeast"] = func(m *Machine, c *Call) []Result {
		b, ok := c.Args[1].(Slice)
		n, ok2 := c.Args[2].(*Term)
		if !ok || !ok2 || !c.St.Holds(LEq(b.Len, n)) {
			m.incomplete("read of unknown shape at " + m.pos(c.Site))
			return nil
		}
		return e.read(c, b)
	}
	m.Hooks["(*pkg/scsi.SCSITargetService).AddCommandQueue"] = e.scsiLayer
	m.Hooks["sort.Sort"] = modelSort
}

// read takes the next bytes of the stream.
func (e *iscsiEnv) read(c *Call, b Slice) []Result {
	m, st := e.m, c.St
	cn := connID(c.Args[0])
	if st.Holds(LEq(b.Len, c64(0))) {
		return ret(st, TupleV{c64(0), nilErr})
	}
	if e.ghostInt(st, "closed."+cn) != 0 {
		return ret(st, TupleV{c64(0), m.newErr(st, "closed")})
	}
	k := e.next(st, cn)
	off, _ := st.ghost["off."+cn].(*Term)
	if off == nil {
		off = c64(0)
	}
	if k >= e.limit {
		e.ev(c, "net", "Wait", []Val{b, c.Args[0]})
		if len(st.held) > 1 && e.leak != nil {
			e.leak(st, "waiting for a PDU with "+strings.Join(st.held, ", "))
		}
		st.held = nil
		st.SetGhost("wait."+cn, e.cur)
		e.blocked = append(e.blocked, st)
		return nil
	}
	st.SetGhost("at", c64(int64(k)))
	hd, data, total := e.bytesOf(k)
	var out []Result
	if e.mayFail(st, "read") {
		bad := st.fork()
		ev := &Event{Kind: "net", Name: "ReadFailed", Args: []Val{c.Args[0]}, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn}
		bad.event(ev)
		m.havocVal(bad, b, "partial@"+m.pos(c.Site))
		n := SymRange(64, fmt.Sprintf("got%d", bad.site("got")), 0, lenMax)
		bad.Assume(LULt(n, b.Len))
		out = append(out, Result{St: bad, Ret: TupleV{n, m.newErr(bad, "read")}})
	}
	end := Add(off, b.Len)
	switch {
	case off.IsConst() && b.Len.IsConst() && end.Int() <= 48:
		m.copyElems(st, b.Arr, b.Path, b.Off, b.Len, hd, Path{}, off, byteT)
	case off.IsConst() && off.Int() < 48:
		e.desync(c, fmt.Sprintf("a read of %s bytes at byte %s of a PDU header", b.Len, off))
		return nil
	default:
		if !st.Holds(LULe(end, Add(total, c64(48)))) {
			e.desync(c, fmt.Sprintf("a read of %s bytes at byte %s of a PDU with %s bytes after its header", b.Len, off, total))
			return nil
		}
		m.copyElems(st, b.Arr, b.Path, b.Off, b.Len, data, Path{}, Sub(off, c64(48)), byteT)
	}
	if end.IsConst() && end.Int() == 48 && !total.IsConst() {
		// with and without data
		more := st.fork()
		if more.Assume(LNe(total, c64(0))) && consistent(more) {
			more.SetGhost("off."+cn, end)
			out = append(out, Result{St: more, Ret: TupleV{b.Len, nilErr}})
		}
		if !st.Assume(LEq(total, c64(0))) || !consistent(st) {
			return out
		}
		total = c64(0)
	}
	if st.Holds(LEq(end, Add(total, c64(48)))) {
		st.SetGhost("pdu."+cn, c64(int64(k+1)))
		st.SetGhost("off."+cn, c64(0))
		st.event(&Event{Kind: "net", Name: "Received", Args: []Val{c64(int64(k)), c.Args[0]}, Pos: m.pos(c.Site), Site: c.Site, Fn: c.Fr.fn})
	} else {
		st.SetGhost("off."+cn, st.simp(end))
	}
	return append([]Result{{St: st, Ret: TupleV{b.Len, nilErr}}}, out...)
}

func (e *iscsiEnv) desync(c *Call, why string) {
	e.c.Ob("stream", "the position in the input stream, PDU "+fmt.Sprint(e.ghostInt(c.St, "at")), false, func() string { return why + " at " + e.m.pos(c.Site) })
}

// dlTerm is the data segment length of PDU k.
func (e *iscsiEnv) dlTerm(k int) *Term {
	d := e.script[k]
	if d.text != "" {
		return c64(int64(len(d.text)))
	}
	if d.dl >= 0 {
		return c64(int64(d.dl))
	}
	hi := SymRange(64, fmt.Sprintf("p%d.dl>>2", k), 0, pduData/4)
	return Add(Mul(hi, c64(4)), c64(int64(d.rem)))
}

// bytesOf gives the header, the bytes that follow it and their number.
func (e *iscsiEnv) bytesOf(k int) (*Obj, *Obj, *Term) {
	m, d := e.m, e.script[k]
	key := fmt.Sprintf("p%d.%02x.%v.%d.%d.%d.%q.%v", k, d.op, d.set, d.dl, d.rem, d.ahs, d.text, d.sym0)
	dl := e.dlTerm(k)
	h := m.objs["hdr:"+key]
	if h == nil {
		h = m.newObj(fmt.Sprintf("p%d.hdr", k), byteT)
		h.Arr = true
		m.objs["hdr:"+key] = h
		s := e.st
		m.extWrite(s, h, 0, Const(8, uint64(d.op)))
		if d.sym0 {
			m.extWrite(s, h, 0, e.hb(k, 0))
		}
		for i := 1; i < 48; i++ {
			m.extWrite(s, h, int64(i), e.hb(k, i))
		}
		m.extWrite(s, h, 4, Const(8, uint64(d.ahs)))
		for i := 0; i < 3; i++ {
			m.extWrite(s, h, int64(5+i), Resize(LShr(dl, 16-8*i), 8, false))
		}
		for i := range d.set {
			m.extWrite(s, h, int64(i), e.hb(k, i))
		}
	}
	o := m.objs["data:"+key]
	if o == nil {
		if d.text != "" {
			o = m.newObj(fmt.Sprintf("p%d.data", k), byteT)
			o.Arr = true
			for i := 0; i < len(d.text); i++ {
				m.extWrite(e.st, o, int64(i), Const(8, uint64(d.text[i])))
			}
			for i := len(d.text); i%4 != 0; i++ {
				m.extWrite(e.st, o, int64(i), Const(8, 0))
			}
		} else {
			o = m.symObj(fmt.Sprintf("p%d.data", k), byteT, true, false)
			o.Nil = litBool(false)
		}
		m.objs["data:"+key] = o
	}
	pad := dl
	if d.text != "" || d.dl >= 0 {
		pad = c64((dl.Int() + 3) / 4 * 4)
	} else if d.rem != 0 {
		pad = Add(dl, c64(int64(4-d.rem)))
	}
	return h, o, Add(pad, c64(int64(4*d.ahs)))
}

// extWrite fills an input buffer, which is the same in every state.
func (m *Machine) extWrite(st *State, o *Obj, i int64, v Val) {
	os := st.base[o]
	if os == nil {
		os = &ObjState{owner: -1}
		st.base[o] = os
	}
	os.h = 0
	l := os.top(-1)
	p := Path{}.index(c64(i))
	l.cells[p.K] = v
	l.paths[p.K] = p
}

// hb is byte i of the header of PDU k.
func (e *iscsiEnv) hb(k, i int) *Term {
	if v, ok := e.script[k].set[i]; ok {
		if v > 0xff { // a byte with fixed low bits
			return Add(Mul(Const(8, 4), SymRange(8, fmt.Sprintf("p%d[%d]>>2", k, i), 0, 63)), Const(8, v&3))
		}
		return Const(8, v)
	}
	return Sym(8, fmt.Sprintf("p%d[%d]", k, i))
}

// hbe is a big endian field of the header of PDU k.
func (e *iscsiEnv) hbe(k, i, n int, w uint8) *Term {
	s := newSum(w)
	for j := 0; j < n; j++ {
		s.add(Resize(e.hb(k, i+j), w, false), uint64(1)<<uint(8*(n-1-j)))
	}
	return s.term()
}

// modelSort sorts by the slice's own Less and Swap (insertion sort).
func modelSort(m *Machine, c *Call) []Result {
	iv, ok := c.Args[0].(Iface)
	if !ok || iv.T == nil {
		return ret(c.St, nil)
	}
	meth := func(st *State, name string, args ...Val) (Result, bool) {
		ms := m.P.Prog.MethodSets.MethodSet(iv.T)
		var fn *ssa.Function
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name {
				fn = m.P.Prog.MethodValue(s)
			}
		}
		if fn == nil {
			return Result{}, false
		}
		rs := m.callFn(st, c.Fr, c.Site, fn, append([]Val{iv.V}, args...), nil)
		if len(rs) != 1 {
			return Result{}, false
		}
		return rs[0], true
	}
	giveUp := func(st *State) []Result {
		m.havocVal(st, iv.V, "sorted@"+m.pos(c.Site))
		return ret(st, nil)
	}
	st := c.St
	r, ok := meth(st, "Len")
	if !ok {
		return giveUp(st)
	}
	n, ok := r.Ret.(*Term)
	st = r.St
	if !ok || !n.IsConst() || n.Int() > 64 {
		return giveUp(st)
	}
	for i := int64(1); i < n.Int(); i++ {
		for j := i; j > 0; j-- {
			r, ok := meth(st, "Less", c64(j), c64(j-1))
			if !ok {
				return giveUp(st)
			}
			st = r.St
			l, ok := r.Ret.(Lit)
			if !ok {
				return giveUp(st)
			}
			k, v := st.Eval(l)
			if !k {
				return giveUp(st)
			}
			if !v {
				break
			}
			r, ok = meth(st, "Swap", c64(j), c64(j-1))
			if !ok {
				return giveUp(st)
			}
			st = r.St
		}
	}
	return ret(st, nil)
}

// scsiLayer is the contract of the SCSI layer (the S properties): it sets the
// status, sense data exactly with CHECK CONDITION, and for data-in commands the
// number of bytes it produced.
func (e *iscsiEnv) scsiLayer(m *Machine, c *Call) []Result {
	p, ok := c.Args[2].(Ptr)
	if !ok || p.Obj == nil {
		m.require(c.St, c.Fr, c.Site, litBool(false), "nil", "a nil SCSI command is executed")
		return nil
	}
	ev := e.ev(c, "scsi", "Execute", c.Args)
	var out []Result
	rs := e.results
	if rs == nil {
		rs = []scsiResult{{status: 0}, {status: 2, sense: true}, {status: 0x18}}
	}
	base := c.St
	for i, r := range rs {
		st := base
		if i < len(rs)-1 {
			st = base.fork()
		}
		n := st.site("scsiexec")
		dead := false
		m.SetField(st, p.Obj, p.Path, "Result", Const(8, uint64(r.status)))
		for _, f := range []string{"InSDBBuffer", "OutSDBBuffer"} {
			bp, _ := m.Field(st, p.Obj, p.Path, f).(Ptr)
			if bp.Obj == nil {
				o := m.intern(fmt.Sprintf("scsi:%s#%d", f, n), "scsi."+f, m.P.mustType("pkg/api.SCSIDataBuffer"))
				st.set(o, &ObjState{owner: st.id})
				m.SetField(st, p.Obj, p.Path, f, Ptr{Obj: o})
				bp = Ptr{Obj: o}
			}
			if f == "InSDBBuffer" {
				b, _ := m.Field(st, bp.Obj, bp.Path, "Buffer").(Slice)
				if b.Arr != nil {
					src := m.symObj(fmt.Sprintf("scsidata%d", n), byteT, true, false)
					src.Nil = litBool(false)
					m.copyElems(st, b.Arr, b.Path, b.Off, b.Len, src, Path{}, c64(0), byteT)
					act := e.actual(n)
					m.SetField(st, bp.Obj, bp.Path, "Resid", act)
					if r.max > 0 && !st.Assume(LULe(act, Const(32, r.max))) {
						dead = true
					}
				}
			}
		}
		if dead {
			continue
		}
		senseLen := int64(18)
		if r.sense {
			sb := m.intern(fmt.Sprintf("scsi:sense#%d", n), "scsi.sense", m.P.mustType("pkg/api.SenseBuffer"))
			st.set(sb, &ObjState{owner: st.id})
			arr := m.symObj(fmt.Sprintf("sense%d", n), byteT, true, false)
			arr.Nil = litBool(false)
			if r.senseLen != 0 {
				senseLen = int64(r.senseLen)
			}
			l := c64(senseLen)
			m.SetField(st, sb, Path{}, "Buffer", Slice{Arr: arr, Off: c64(0), Len: l, Cap: l, Nil: litBool(false)})
			m.SetField(st, sb, Path{}, "Length", Const(32, uint64(senseLen)))
			m.SetField(st, p.Obj, p.Path, "SenseBuffer", Ptr{Obj: sb})
		}
		rv := Val(nilErr)
		if r.err {
			rv = m.newErr(st, "scsi")
		}
		st.evPatch(ev, []Val{rv, Const(8, uint64(r.status)), c64(senseLen)})
		out = append(out, Result{St: st, Ret: rv})
	}
	return out
}

// actual is the number of bytes the n-th command has for the initiator.
func (e *iscsiEnv) actual(n int) *Term {
	return Add(Mul(Const(32, 4), SymRange(32, fmt.Sprintf("actual%d>>2", n), 0, 1<<30-1)), Const(32, uint64(e.rem)))
}

// next is the first PDU of a connection that was not yet read.
func (e *iscsiEnv) next(st *State, conn string) int {
	k := int(e.ghostInt(st, "pdu."+conn))
	for k < e.limit && e.owner[k] != conn {
		k++
	}
	return k
}

func connID(v Val) string {
	if i, ok := v.(Iface); ok {
		return i.ID
	}
	return "?"
}

// accept runs the listener until it has taken the next connection.
func (e *iscsiEnv) accept(st *State) []*State {
	fn := e.m.P.Func("(*pkg/port/iscsit.ISCSITargetDriver).Run")
	if fn == nil {
		panic(Anchor("ISCSITargetDriver.Run"))
	}
	e.blocked = nil
	st.SetGhost("dialled", c64(e.ghostInt(st, "dialled")+1))
	e.m.Run(st, fn, []Val{Ptr{Obj: e.drv}, c64(3260)})
	sts := e.blocked
	e.blocked = nil
	if len(sts) == 0 {
		panic(Anchor("the listener does not get back to Accept"))
	}
	for _, st := range sts {
		st.held = nil
	}
	return sts
}

// pump runs the pending goroutines of every state to the end.
func (e *iscsiEnv) pump(sts []*State) []*State {
	var out []*State
	for len(sts) > 0 {
		st := sts[len(sts)-1]
		sts = sts[:len(sts)-1]
		i, n := e.ghostInt(st, "ran"), e.ghostInt(st, "gos")
		var tv TupleV
		if i < n {
			k := fmt.Sprintf("go%03d", i)
			tv = st.ghost[k].(TupleV)
			st.SetGhost("ran", c64(i+1))
			st.SetGhost(k, c64(0))
		} else {
			// readers of connections that were closed come back
			for _, cn := range e.conns {
				if w, ok := st.ghost["wait."+cn].(TupleV); ok && e.ghostInt(st, "closed."+cn) != 0 {
					tv = w
					st.SetGhost("wait."+cn, c64(0))
					break
				}
			}
		}
		if tv == nil {
			out = append(out, st)
			continue
		}
		if len(out)+len(sts) > 8000 || i > 400 {
			e.m.incomplete("too many schedules in the iSCSI layer")
			break
		}
		sts = append(sts, e.goroutine(st, tv)...)
	}
	return out
}

// goroutine runs one goroutine until it ends or waits.
func (e *iscsiEnv) goroutine(st *State, tv TupleV) []*State {
	f, ok := tv[0].(FuncV)
	if !ok || f.Fn == nil || f.Fn.Blocks == nil {
		e.m.incomplete("goroutine of unknown shape")
		return nil
	}
	e.blocked, e.cur = nil, tv
	rs := e.m.execFn(st, f.Fn, tv[1].(TupleV), f.Bind, nil, nil)
	sts := e.blocked
	e.blocked, e.cur = nil, nil
	for _, r := range rs {
		if len(r.St.held) != 0 && e.leak != nil {
			e.leak(r.St, "at its end "+strings.Join(r.St.held, ", "))
		}
		r.St.held = nil
		sts = append(sts, r.St)
	}
	return sts
}

// step lets a connection send PDUs.
type step struct {
	conn string // conn1, conn2 in the order in which they connect
	pdus []pdu
}

// runSteps plays PDUs on several connections.
func (e *iscsiEnv) runSteps(steps ...step) []*State {
	e.script, e.owner, e.limit, e.conns = nil, nil, 0, nil
	sts := []*State{e.st.fork()}
	for _, s := range steps {
		for _, p := range s.pdus {
			e.script = append(e.script, p)
			e.owner = append(e.owner, s.conn)
		}
		e.limit = len(e.script)
		known := false
		for _, c := range e.conns {
			known = known || c == s.conn
		}
		var next []*State
		if !known {
			e.conns = append(e.conns, s.conn)
			for _, st := range sts {
				next = append(next, e.accept(st)...)
			}
		} else {
			for _, st := range sts {
				w, ok := st.ghost["wait."+s.conn].(TupleV)
				if !ok {
					next = append(next, st)
					continue
				}
				st.SetGhost("wait."+s.conn, c64(0))
				next = append(next, e.goroutine(st, w)...)
			}
		}
		sts = e.pump(next)
	}
	return sts
}

// waiting tells whether a reader waits on the connection.
func (e *iscsiEnv) waiting(st *State, conn string) bool {
	_, ok := st.ghost["wait."+conn].(TupleV)
	return ok
}

// run plays the script on a new connection.
func (e *iscsiEnv) run(script ...pdu) []*State {
	return e.runSteps(step{"conn1", script})
}

func loginPDU(sym bool, kv ...string) pdu {
	return pdu{op: 0x43, set: map[int]uint64{1: 0x87}, text: kvText(kv...)}
}

func debugISCSI(c *Ctx, what string) {
	if what == "scripts" {
		debugScripts(c)
		for _, k := range c.order {
			if o := c.obs[k]; o.bad {
				fmt.Println(o.rule, o.construct, o.detail)
			}
		}
		return
	}
	e := newISCSI(c, stdPortals())
	lg := loginPDU(true, "InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal")
	var ends []*State
	switch what {
	case "login":
		ends = e.run(lg)
	case "nop":
		ends = e.run(lg, pdu{op: 0x40, dl: 0})
	case "read":
		ends = e.run(lg, pdu{op: 0x01, dl: 0, set: map[int]uint64{32: 0x28, 1: 0xc1}})
	case "write":
		ends = e.run(lg, pdu{op: 0x01, dl: -1, set: map[int]uint64{32: 0x2a, 1: 0xa1}}, pdu{op: 0x05, dl: -1})
	case "disc":
		ends = e.run(loginPDU(true, "InitiatorName="+iniA, "SessionType=Discovery"), pdu{op: 0x04, set: map[int]uint64{1: 0x80}, text: kvText("SendTargets=All")})
	case "anylogin":
		ends = e.run(pdu{op: 0x43, dl: -1})
	case "anytext":
		ends = e.run(loginPDU(true, "InitiatorName="+iniA, "SessionType=Discovery"), pdu{op: 0x04, dl: -1, set: map[int]uint64{1: 0x80}})
	case "tmf":
		ends = e.run(lg, pdu{op: 0x42, dl: 0})
	case "tmf2":
		ends = e.run(lg, pdu{op: 0x01, dl: 0, set: map[int]uint64{32: 0x2a, 1: 0xa1}}, pdu{op: 0x42, dl: 0})
	case "logout":
		ends = e.run(lg, pdu{op: 0x46, set: map[int]uint64{1: 0x80}, dl: 0})
	}
	for i, x := range ends {
		fmt.Printf("--- end %d waits %v\n", i, e.waiting(x, "conn1"))
		fmt.Println("    facts:", strings.Join(x.FactStrings(), " && "))
		for _, ev := range x.Events() {
			var a []string
			for _, v := range ev.Args {
				a = append(a, valString(v))
				if s, ok := v.(Slice); ok && ev.Name == "Write" && s.Len.IsConst() {
					t := ""
					for i := int64(0); i < s.Len.Int(); i++ {
						b := e.m.ByteAt(ev.St, s, i)
						if b == nil {
							t += " ?"
						} else if b.IsConst() {
							t += fmt.Sprintf(" %02x", b.C)
						} else {
							t += " " + b.String()
						}
					}
					a = append(a, t)
				}
			}
			fmt.Printf("    ev %s %s(%s) -> %s  %s\n", ev.Kind, ev.Name, strings.Join(a, ","), valString(TupleV(ev.Rets)), ev.Pos)
		}
	}
	for _, p := range e.m.Panics {
		fmt.Printf("PANIC %s %s at %s def=%v stack=%v facts=%v\n", p.Kind, p.Detail, p.Pos, p.Definite, p.Stack[0], p.Facts)
	}
	fmt.Println("incompl:", e.m.Incompl, "steps", e.m.Steps, "joins", e.m.Joins, "widen", e.m.Widen, "unmod", e.m.Unmod)
}
