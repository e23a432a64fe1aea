package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// opSpec is the part of the command set (SPC-3, SBC-2) the rules rely on.
type opSpec struct {
	op   byte
	name string
	cdb  int    // CDB length
	kind string // read, write, wverify, verify, orwrite, wsame, sync, prefetch, unmap, ...
}

var opTable = []opSpec{
	{0x00, "TEST UNIT READY", 6, "tur"}, {0x03, "REQUEST SENSE", 6, "reqsense"}, {0x04, "FORMAT UNIT", 6, "format"},
	{0x08, "READ(6)", 6, "read"}, {0x0a, "WRITE(6)", 6, "write"}, {0x12, "INQUIRY", 6, "inquiry"},
	{0x15, "MODE SELECT(6)", 6, "modeselect"}, {0x16, "RESERVE(6)", 6, "reserve"}, {0x17, "RELEASE(6)", 6, "release"},
	{0x1a, "MODE SENSE(6)", 6, "modesense"}, {0x1b, "START STOP UNIT", 6, "startstop"}, {0x1d, "SEND DIAGNOSTIC", 6, "senddiag"},
	{0x1e, "PREVENT ALLOW MEDIUM REMOVAL", 6, "prevent"}, {0x25, "READ CAPACITY(10)", 10, "readcap10"},
	{0x28, "READ(10)", 10, "read"}, {0x2a, "WRITE(10)", 10, "write"}, {0x2e, "WRITE AND VERIFY(10)", 10, "wverify"},
	{0x2f, "VERIFY(10)", 10, "verify"}, {0x34, "PRE-FETCH(10)", 10, "prefetch"}, {0x35, "SYNCHRONIZE CACHE(10)", 10, "sync"},
	{0x41, "WRITE SAME(10)", 10, "wsame"}, {0x42, "UNMAP", 10, "unmap"}, {0x55, "MODE SELECT(10)", 10, "modeselect"},
	{0x5a, "MODE SENSE(10)", 10, "modesense"}, {0x5e, "PERSISTENT RESERVE IN", 10, "prin"}, {0x5f, "PERSISTENT RESERVE OUT", 10, "prout"},
	{0x88, "READ(16)", 16, "read"}, {0x8a, "WRITE(16)", 16, "write"}, {0x8b, "ORWRITE(16)", 16, "orwrite"},
	{0x8e, "WRITE AND VERIFY(16)", 16, "wverify"}, {0x8f, "VERIFY(16)", 16, "verify"}, {0x90, "PRE-FETCH(16)", 16, "prefetch"},
	{0x91, "SYNCHRONIZE CACHE(16)", 16, "sync"}, {0x93, "WRITE SAME(16)", 16, "wsame"}, {0x9e, "SERVICE ACTION IN(16)", 16, "sain"},
	{0xa0, "REPORT LUNS", 12, "reportluns"}, {0xa3, "MAINTENANCE IN", 12, "maintin"},
	{0xa8, "READ(12)", 12, "read"}, {0xaa, "WRITE(12)", 12, "write"}, {0xae, "WRITE AND VERIFY(12)", 12, "wverify"}, {0xaf, "VERIFY(12)", 12, "verify"},
}

func specOf(op byte) *opSpec {
	for i := range opTable {
		if opTable[i].op == op {
			return &opTable[i]
		}
	}
	return nil
}

func opsOf(kinds ...string) []byte {
	var out []byte
	for _, o := range opTable {
		for _, k := range kinds {
			if o.kind == k {
				out = append(out, o.op)
			}
		}
	}
	return out
}

func allOps() []byte {
	var out []byte
	for i := 0; i < 256; i++ {
		out = append(out, byte(i))
	}
	return out
}

func opName(op byte) string {
	if s := specOf(op); s != nil {
		return fmt.Sprintf("%02Xh %s", op, s.name)
	}
	return fmt.Sprintf("%02Xh", op)
}

func cdb(i int) *Term { return Sym(8, fmt.Sprintf("scb[%d]", i)) }

// be is the big-endian integer in bytes [i,i+n) of the CDB, as 64 bits.
func cdbBE(i, n int) *Term {
	var v []Bit
	for k := i + n - 1; k >= i; k-- {
		v = append(v, bitsOf(cdb(k))...)
	}
	for len(v) < 64 {
		v = append(v, Bit{})
	}
	return fromBits(v)
}

// specLBA is the LOGICAL BLOCK ADDRESS field.
func (s *opSpec) lba() *Term {
	switch s.cdb {
	case 6:
		v := append(append(append([]Bit{}, bitsOf(cdb(3))...), bitsOf(cdb(2))...), bitsOf(cdb(1))[:5]...)
		for len(v) < 64 {
			v = append(v, Bit{})
		}
		return fromBits(v)
	case 10, 12:
		return cdbBE(2, 4)
	}
	return cdbBE(2, 8)
}

type outcome struct {
	c      *Ctx
	e      *scsiEnv
	m      *Machine
	spec   *opSpec
	st     *State
	name   string // construct prefix
	ret    Val
	status int // SAM status, -1 when not a constant
	errRet bool
	sense  *Obj
	nosens bool // sense is certainly nil
	bs     []*Event
	eqs    []*Event
	cnt    *Term // transfer length in blocks (64 bit) of this case
	lba    *Term
}

func (o *outcome) describe(msg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s: %s (block shift %d, data-%s)\n", o.name, msg, o.e.shift, map[string]string{"R": "in", "W": "out"}[o.e.dir])
	fmt.Fprintf(&b, "status %d, path condition: %s\n", o.status, strings.Join(o.st.FactStrings(), " && "))
	for _, e := range o.bs {
		var a []string
		for _, x := range e.Args {
			a = append(a, valString(x))
		}
		fmt.Fprintf(&b, "  store.%s(%s) -> %s at %s\n", e.Name, strings.Join(a, ", "), valString(TupleV(e.Rets)), e.Pos)
	}
	return b.String()
}

func (o *outcome) ob(rule string, ok bool, msg string) {
	o.c.Ob(rule, o.name, ok, func() string { return o.describe(msg) })
}
func (o *outcome) obf(rule string, ok bool, f string, a ...any) {
	o.c.Ob(rule, o.name, ok, func() string { return o.describe(fmt.Sprintf(f, a...)) })
}

func (o *outcome) good() bool { return !o.errRet && o.status == 0 }

// evErr: the store operation failed on this path.
func evErr(e *Event) bool {
	if len(e.Rets) == 0 {
		return false
	}
	i, ok := e.Rets[len(e.Rets)-1].(Iface)
	if !ok {
		return true
	}
	v, k := i.Nil.known()
	return !(k && v)
}

func isEOF(st *State, e *Event) bool {
	i, ok := e.Rets[len(e.Rets)-1].(Iface)
	if !ok {
		return false
	}
	for _, f := range st.facts {
		if f.Pos && f.T.Op == OpBSym && strings.HasPrefix(f.T.Name, "same(") && strings.Contains(f.T.Name, i.ID) && strings.Contains(f.T.Name, "io.EOF") {
			return true
		}
	}
	return false
}

func (o *outcome) evs(kinds ...string) []*Event {
	var out []*Event
	for _, e := range o.bs {
		for _, k := range kinds {
			if e.Name == k {
				out = append(out, e)
			}
		}
	}
	return out
}

type scsiRun struct {
	ops    []byte
	dirs   string
	shifts []uint
	prep   func(*scsiEnv)
	noRes  bool // no per-outcome callback needed
}

func (c *Ctx) shifts() []uint {
	if c.Tier == "thorough" {
		return []uint{9, 10, 11, 12, 13, 14, 15, 16}
	}
	return []uint{9, 12}
}

// scsi interprets the command path for the given opcodes and calls f for every
// abstract outcome.
func (c *Ctx) scsi(r scsiRun, f func(*outcome), after ...func(m *Machine, op byte, dir string, shift uint)) {
	p := c.Program("", false)
	init := c.Init(p)
	sh := r.shifts
	if sh == nil {
		sh = c.shifts()
	}
	dirs := r.dirs
	if dirs == "" {
		dirs = "RW"
	}
	for _, s := range sh {
		b := newSCSIBase(p, init, s)
		c.Done(b.m, fmt.Sprintf("logical unit construction, block shift %d", s))
		for _, op := range r.ops {
			for _, d := range dirs {
				b.m.Panics, b.m.panSeen, b.m.Incompl = nil, map[string]bool{}, nil
				e := b.command(op, string(d))
				symbolicWCE(e, false)
				if r.prep != nil {
					r.prep(e)
				}
				rs := e.run()
				c.Count("command_runs", 1)
				c.Count("command_outcomes", len(rs))
				c.Done(b.m, opName(op))
				if f != nil {
					for _, x := range rs {
						f(c.outcome(e, x))
					}
				}
				for _, a := range after {
					a(b.m, op, string(d), s)
				}
			}
		}
	}
}

func (c *Ctx) outcome(e *scsiEnv, r Result) *outcome {
	o := &outcome{c: c, e: e, m: e.m, st: r.St, ret: r.Ret, status: -1, spec: specOf(e.op), name: opName(e.op)}
	if i, ok := r.Ret.(Iface); ok {
		k, v := r.St.Eval(i.Nil)
		o.errRet = !(k && v)
	}
	if t, ok := o.m.Field(r.St, e.cmd, Path{}, "Result").(*Term); ok && t.IsConst() {
		o.status = int(t.C)
	}
	switch s := o.m.Field(r.St, e.cmd, Path{}, "SenseBuffer").(type) {
	case Ptr:
		if s.Obj == nil {
			o.nosens = true
		} else {
			o.sense = s.Obj
		}
	}
	for _, ev := range r.St.Events() {
		switch ev.Kind {
		case "bs":
			o.bs = append(o.bs, ev)
		case "eq":
			o.eqs = append(o.eqs, ev)
		}
	}
	return o
}

// cases splits the outcome by the meaning of the TRANSFER LENGTH field.
func (o *outcome) cases(f func(*outcome)) {
	s := o.spec
	o.lba = s.lba()
	f0 := f
	f = func(o *outcome) {
		// bounds the path implies: remember which high bits they make zero
		if o.le(o.lba, o.cap()) {
			o.st = o.st.fork()
			o.st.learn(o.lba, o.cap())
		}
		f0(o)
	}
	switch s.cdb {
	case 6:
		z := LEq(cdb(4), Const(8, 0))
		a := *o
		a.st = o.st.fork()
		if a.st.Assume(z) {
			a.cnt = c64(256)
			f(&a)
		}
		b := *o
		b.st = o.st.fork()
		if b.st.Assume(z.Not()) {
			b.cnt = Resize(cdb(4), 64, false)
			f(&b)
		}
		return
	case 10:
		o.cnt = cdbBE(7, 2)
	case 12:
		o.cnt = cdbBE(6, 4)
	case 16:
		o.cnt = cdbBE(10, 4)
	}
	f(o)
}

func (o *outcome) cap() *Term          { return LShr(luSize(), int(o.e.shift)) }
func (o *outcome) bytes(t *Term) *Term { return o.st.simp(Shl(t, int(o.e.shift))) }
func (o *outcome) eq(a, b *Term) bool {
	return a != nil && b != nil && o.st.Holds(LEq(o.st.simp(a), o.st.simp(b)))
}
func (o *outcome) le(a, b *Term) bool          { return o.st.Holds(LULe(o.st.simp(a), o.st.simp(b))) }
func (o *outcome) term(v Val) *Term            { t, _ := v.(*Term); return t }
func (o *outcome) field(ob *Obj, n string) Val { return o.m.Field(o.st, ob, Path{}, n) }

// consistent reports whether the extra literals can hold on this path.
func consistent(st *State, ls ...Lit) bool {
	s := st.fork()
	for _, l := range ls {
		if !s.Assume(l) {
			return false
		}
	}
	// earlier literals again, in the light of the later ones
	for _, l := range ls {
		if k, v := s.Eval(l); k && !v {
			return false
		}
	}
	var all []Lit
	for _, f := range s.facts {
		g := s.simpLit(f)
		if v, ok := g.known(); ok {
			if !v && f.T.Op != OpBitT {
				return false
			}
			continue
		}
		if g.T.Op != OpBSym {
			all = append(all, g)
		}
	}
	return !refutes(all)
}

var anySeq int

// elem is the byte at a fresh, arbitrary index below n of two sequences; same
// tells whether they provably agree there.
func sameBytes(m *Machine, st *State, a Slice, ast *State, b Slice, bst *State, n *Term) (bool, string) {
	byteT := types.Typ[types.Uint8]
	if z := LEq(n, c64(0)); st.Holds(z) {
		return true, ""
	}
	anySeq++
	i := SymRange(64, fmt.Sprintf("any%d", anySeq), 0, 1<<62)
	lim := LULt(i, n)
	rd := func(s Slice, in *State) string {
		q := st.fork()
		if !q.Assume(lim) {
			return "none"
		}
		for _, x := range []Lit{LULt(i, s.Len)} {
			_ = x
		}
		if s.Arr == nil {
			return "nil"
		}
		v := m.readIn(q, s.Arr, in.get(s.Arr), s.Path.index(Add(s.Off, i)), byteT)
		return valString(v)
	}
	x, y := rd(a, ast), rd(b, bst)
	return x == y && !strings.HasPrefix(x, "?") && x != "nil", x + " vs " + y
}

func within(st *State, n, l *Term) bool { return st.Holds(LULe(n, l)) }

func sortedBytes(b []byte) []byte {
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}
