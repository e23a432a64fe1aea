package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.  Integers are *Term, booleans are Lit.
type Val interface{}

type Ptr struct {
	Obj  *Obj
	Path Path
}
type Slice struct {
	Arr           *Obj
	Path          Path // path of the array inside Arr ("" for a plain backing array)
	Off, Len, Cap *Term
	Nil           Lit
}
type Str struct {
	Known bool
	S     string
	ID    string
	Len   *Term
	Src   *Slice    // bytes it was converted from
	SrcSt *ObjState // contents at that time
	Cat   []Str     // concatenation
}
type StructV struct {
	T types.Type
	F []Val
}
type ArrayV struct {
	T types.Type
	E []Val
}
type Iface struct {
	T   types.Type
	V   Val
	Nil Lit
	ID  string
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Nil  Lit
	ID   string
	B    *ssa.Builtin
}
type MapV struct {
	Obj *Obj
	Nil Lit
}
type ChanV struct{ Obj *Obj }
type TupleV []Val
type Opaque struct{ ID string }

type Step struct {
	Field int
	Idx   *Term // nil: field step
}
type Path struct {
	S []Step
	K string
}

func (p Path) field(i int) Path {
	s := make([]Step, len(p.S)+1)
	copy(s, p.S)
	s[len(p.S)] = Step{Field: i}
	return Path{s, p.K + fmt.Sprintf(".%d", i)}
}
func (p Path) index(t *Term) Path {
	s := make([]Step, len(p.S)+1)
	copy(s, p.S)
	s[len(p.S)] = Step{Idx: t}
	if t.IsConst() {
		return Path{s, p.K + fmt.Sprintf("[%d]", t.Int())}
	}
	return Path{s, p.K + fmt.Sprintf("[#%d]", t.id)}
}
func (p Path) hasPrefix(q Path) bool {
	return strings.HasPrefix(p.K, q.K) && (len(p.K) == len(q.K) || p.K[len(q.K)] == '.' || p.K[len(q.K)] == '[')
}
func (p Path) rest(n int) Path {
	r := Path{}
	for _, s := range p.S[n:] {
		if s.Idx != nil {
			r = r.index(s.Idx)
		} else {
			r = r.field(s.Field)
		}
	}
	return r
}
func (p Path) join(q Path) Path {
	r := p
	for _, s := range q.S {
		if s.Idx != nil {
			r = r.index(s.Idx)
		} else {
			r = r.field(s.Field)
		}
	}
	return r
}

type Obj struct {
	Name string
	T    types.Type // element (pointee) type; for arrays from make: the element type with IsArr
	Arr  bool       // backing array: leaf paths start with an index
	Map  bool
	Sym  bool // default contents are symbolic (otherwise zero)
	Nil  Lit  // pointer-nilness of references to this object
	Ext  bool // external opaque object
	id   int
}

type Layer struct {
	owner int
	cells map[string]Val
	paths map[string]Path
	// region write: elements [Off,Off+N) of the array at Prefix come from Src
	reg *Region
	// write at a symbolic index
	sym *SymCell
	// havoc of a prefix: contents become symbolic under a new name
	havoc *Havoc
}
type Region struct {
	Prefix Path
	Off, N *Term
	Src    *Obj
	SrcP   Path
	SrcOff *Term
	SrcSt  *ObjState
	Str    *Str // source is a string
	Zero   bool
}
type SymCell struct {
	P   Path
	Val Val
}
type Havoc struct {
	Prefix Path
	Name   string
}
type MapEnt struct {
	Key Val
	Val Val
	Del bool
}
type ObjState struct {
	owner  int
	layers []*Layer
	ents   []MapEnt // maps
	h      uint64   // content hash (0: not computed)
	ver    string   // map version name for symbolic lookups after clobber
}

func (o *ObjState) clone(owner int) *ObjState {
	n := &ObjState{owner: owner, ver: o.ver}
	n.layers = append([]*Layer(nil), o.layers...)
	n.ents = append([]MapEnt(nil), o.ents...)
	return n
}

type Event struct {
	Kind string // "invoke", "call", "go", "store", "lock", ...
	Name string
	Recv Val
	Args []Val
	Rets []Val
	Pos  string
	Site ssa.Instruction
	Fn   *ssa.Function
	Snap map[*Obj]*ObjState // contents of byte arrays passed
	NF   int                // number of facts known at the event
	St   *State             // state when the event happened (calls only)
	Held []string
}

func (e *Event) String() string { return e.Name + " at " + e.Pos }

type evList struct {
	prev *evList
	e    *Event
	n    int
}

type State struct {
	id     int
	base   map[*Obj]*ObjState // frozen part of the heap, shared by all states
	mem    map[*Obj]*ObjState
	memOwn bool
	facts  []Lit
	fset   map[*Term]bool
	bitk   map[Bit]uint8
	fown   bool
	evs    *evList
	cnt    map[string]int
	cown   bool
	held   []string
	ghost  map[string]Val
	trace  []string
}

var stateSeq int

func newState() *State {
	stateSeq++
	return &State{id: stateSeq, mem: map[*Obj]*ObjState{}, memOwn: true, fset: map[*Term]bool{}, bitk: map[Bit]uint8{}, fown: true, cnt: map[string]int{}, cown: true}
}

func (s *State) fork() *State {
	stateSeq++
	n := *s
	n.id = stateSeq
	stateSeq++
	s.id = stateSeq
	n.memOwn, n.fown, n.cown = false, false, false
	s.memOwn, s.fown, s.cown = false, false, false
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	s.facts = n.facts
	n.held = append([]string(nil), s.held...)
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	s.trace = n.trace
	if s.ghost != nil {
		n.ghost = map[string]Val{}
		for k, v := range s.ghost {
			n.ghost[k] = v
		}
	}
	return &n
}

func (s *State) ownMem() {
	if !s.memOwn {
		m := make(map[*Obj]*ObjState, len(s.mem)+4)
		for k, v := range s.mem {
			m[k] = v
		}
		s.mem = m
		s.memOwn = true
	}
}
func (s *State) ownFacts() {
	if !s.fown {
		m := make(map[*Term]bool, len(s.fset)+4)
		for k, v := range s.fset {
			m[k] = v
		}
		s.fset = m
		b := make(map[Bit]uint8, len(s.bitk)+4)
		for k, v := range s.bitk {
			b[k] = v
		}
		s.bitk = b
		s.fown = true
	}
}
func (s *State) site(key string) int {
	if !s.cown {
		m := make(map[string]int, len(s.cnt)+1)
		for k, v := range s.cnt {
			m[k] = v
		}
		s.cnt = m
		s.cown = true
	}
	s.cnt[key]++
	return s.cnt[key]
}

func (s *State) SetGhost(k string, v Val) {
	n := map[string]Val{}
	for a, b := range s.ghost {
		n[a] = b
	}
	n[k] = v
	s.ghost = n
}

func (s *State) event(e *Event) {
	n := 0
	if s.evs != nil {
		n = s.evs.n
	}
	e.NF = len(s.facts)
	e.Held = append([]string(nil), s.held...)
	s.evs = &evList{s.evs, e, n + 1}
}
func (s *State) Events() []*Event {
	var out []*Event
	for l := s.evs; l != nil; l = l.prev {
		out = append(out, l.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// facts ----------------------------------------------------------------

// simp substitutes known bits.
func (s *State) simp(t *Term) *Term {
	if len(s.bitk) == 0 {
		return t
	}
	if t.Op == OpFun && len(t.Args) == 2 && (t.Name == "or" || t.Name == "and" || t.Name == "xor") {
		a, b := s.simp(t.Args[0]), s.simp(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			switch t.Name {
			case "or":
				t = Or(a, b)
			case "and":
				t = And(a, b)
			default:
				t = Xor(a, b)
			}
		}
	}
	switch t.Op {
	case OpSym, OpFun, OpBits:
		v := bitsOf(t)
		ch := false
		for i, b := range v {
			if b.A != nil {
				if k, ok := s.bitk[b]; ok {
					v[i] = Bit{nil, k}
					ch = true
				}
			}
		}
		if ch {
			return fromBits(v)
		}
	case OpSum:
		b := newSum(t.W)
		b.c = t.C
		ch := false
		for i, a := range t.Args {
			x := s.simp(a)
			if x != a {
				ch = true
			}
			b.add(x, t.Coef[i])
		}
		if ch {
			return b.term()
		}
	}
	return t
}

func (s *State) simpLit(l Lit) Lit {
	if len(s.bitk) == 0 {
		return l
	}
	switch l.T.Op {
	case OpBitT:
		if k, ok := s.bitk[Bit{l.T.Args[0], uint8(l.T.C)}]; ok {
			return litBool((k == 1) == l.Pos)
		}
	case OpEq, OpULt, OpSLt:
		a, b := s.simp(l.T.Args[0]), s.simp(l.T.Args[1])
		if a != l.T.Args[0] || b != l.T.Args[1] {
			var r Lit
			switch l.T.Op {
			case OpEq:
				r = LEq(a, b)
			case OpULt:
				r = LULt(a, b)
			default:
				r = LSLt(a, b)
			}
			if !l.Pos {
				r = r.Not()
			}
			return r
		}
	}
	return l
}

// Eval decides a literal: (known, value).
func (s *State) Eval(l Lit) (bool, bool) {
	if v, ok := l.known(); ok {
		return true, v
	}
	if v, ok := s.fset[l.T]; ok {
		return true, v == l.Pos
	}
	l = s.simpLit(l)
	if v, ok := l.known(); ok {
		return true, v
	}
	if v, ok := s.fset[l.T]; ok {
		return true, v == l.Pos
	}
	if l.T.Op == OpBSym || l.T.Op == OpBitT {
		return false, false
	}
	rel := s.related(l)
	if len(s.bitk) > 0 {
		n := rel[:0]
		for _, f := range rel {
			g := s.simpLit(f)
			if _, ok := g.known(); ok {
				continue
			}
			n = append(n, g)
		}
		rel = n
	}
	if len(rel) == 0 {
		// ranges alone
		if refutes([]Lit{l}) {
			return true, false
		}
		if refutes([]Lit{l.Not()}) {
			return true, true
		}
		return false, false
	}
	if refutes(append(rel[:len(rel):len(rel)], l.Not())) {
		return true, true
	}
	if refutes(append(rel[:len(rel):len(rel)], l)) {
		return true, false
	}
	return false, false
}

// Holds: l is implied by the state.
func (s *State) Holds(l Lit) bool {
	k, v := s.Eval(l)
	return k && v
}

func (s *State) related(l Lit) []Lit {
	atoms := map[*Term]bool{}
	litAtoms(l, atoms)
	var out []Lit
	used := make([]bool, len(s.facts))
	as := make([]map[*Term]bool, len(s.facts))
	for changed := true; changed; {
		changed = false
		for i, f := range s.facts {
			if used[i] {
				continue
			}
			if f.T.Op == OpBSym {
				used[i] = true
				continue
			}
			if as[i] == nil {
				as[i] = map[*Term]bool{}
				litAtoms(f, as[i])
			}
			for a := range as[i] {
				if atoms[a] {
					used[i] = true
					changed = true
					out = append(out, f)
					for b := range as[i] {
						atoms[b] = true
					}
					break
				}
			}
		}
	}
	return out
}

// Assume adds a literal; false when the state becomes impossible.
func (s *State) Assume(l Lit) bool {
	if k, v := s.Eval(l); k {
		return v
	}
	s.assumeRaw(l)
	return true
}
func (s *State) assumeRaw(l Lit) {
	l = s.simpLit(l)
	if _, ok := l.known(); ok {
		return
	}
	s.ownFacts()
	s.fset[l.T] = l.Pos
	s.facts = append(s.facts[:len(s.facts):len(s.facts)], l)
	s.learnBits(l)
}

// learnBits records the bits a fact determines.
func (s *State) learnBits(l Lit) {
	switch l.T.Op {
	case OpBitT:
		v := uint8(0)
		if l.Pos {
			v = 1
		}
		s.bitk[Bit{l.T.Args[0], uint8(l.T.C)}] = v
	case OpULt:
		// a < b bounds a by the range of b: bits above it are zero
		a, b := l.T.Args[0], l.T.Args[1]
		if l.Pos {
			if _, hi := rng(b); hi > 0 {
				s.zeroAbove(a, hi-1)
			}
		} else {
			_, hi := rng(a)
			s.zeroAbove(b, hi)
		}
	case OpEq:
		if l.Pos && l.T.Args[1].IsConst() && l.T.Args[0].Op != OpSum {
			for i, b := range bitsOf(l.T.Args[0]) {
				if b.A != nil {
					s.bitk[b] = uint8(l.T.Args[1].C >> uint(i) & 1)
				}
			}
		}
	}
}

// learn records the proven fact a <= b.
func (s *State) learn(a, b *Term) {
	s.ownFacts()
	_, hi := rng(b)
	s.zeroAbove(a, hi)
	l := LULe(a, b)
	if _, ok := l.known(); !ok {
		s.facts = append(s.facts[:len(s.facts):len(s.facts)], l)
		s.fset[l.T] = l.Pos
	}
}

// zeroAbove records that t <= hi: the bits of t beyond those of hi are zero.
func (s *State) zeroAbove(t *Term, hi uint64) {
	if t.Op == OpSum || t.Op == OpConst {
		return
	}
	n := bits.Len64(hi)
	for i, b := range bitsOf(t) {
		if i >= n && b.A != nil {
			s.bitk[b] = 0
		}
	}
}

func (s *State) FactStrings() []string {
	var out []string
	for _, f := range s.facts {
		out = append(out, f.String())
	}
	return out
}

// formatting -------------------------------------------------------------

func valString(v Val) string {
	switch x := v.(type) {
	case nil:
		return "∅"
	case *Term:
		return x.String()
	case Lit:
		return x.String()
	case Ptr:
		if x.Obj == nil {
			return "nil"
		}
		return "&" + x.Obj.Name + x.Path.K
	case Slice:
		if x.Arr == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s%s[%s:+%s]", x.Arr.Name, x.Path.K, x.Off, x.Len)
	case Str:
		if x.Known {
			return fmt.Sprintf("%q", x.S)
		}
		return x.ID
	case Iface:
		if v, ok := x.Nil.known(); ok && v {
			return "nil"
		}
		if x.T != nil {
			return x.T.String() + "(" + valString(x.V) + ")"
		}
		return x.ID
	case StructV:
		var s []string
		for _, f := range x.F {
			s = append(s, valString(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	case ArrayV:
		var s []string
		for _, f := range x.E {
			s = append(s, valString(f))
		}
		return "[" + strings.Join(s, ",") + "]"
	case FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
		return "func " + x.ID
	case MapV:
		if x.Obj == nil {
			return "nilmap"
		}
		return "map " + x.Obj.Name
	case TupleV:
		var s []string
		for _, f := range x {
			s = append(s, valString(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case Opaque:
		return "?" + x.ID
	}
	return fmt.Sprintf("%T", v)
}

// valKey is a structural identity used to compare abstract values.
func valKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case Lit:
		return fmt.Sprintf("l%d%v", x.T.id, x.Pos)
	case Ptr:
		if x.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("p%d%s", x.Obj.id, x.Path.K)
	case Slice:
		if x.Arr == nil {
			return "snil"
		}
		return fmt.Sprintf("s%d%s:%d:%d:%d:%d%v", x.Arr.id, x.Path.K, x.Off.id, x.Len.id, x.Cap.id, x.Nil.T.id, x.Nil.Pos)
	case Str:
		if x.Known {
			return "S" + x.S
		}
		return "I" + x.ID
	case Iface:
		k := fmt.Sprintf("i%s%d%v", x.ID, x.Nil.T.id, x.Nil.Pos)
		if x.T != nil {
			k += x.T.String() + valKey(x.V)
		}
		return k
	case StructV:
		var b strings.Builder
		b.WriteByte('{')
		for _, f := range x.F {
			b.WriteString(valKey(f))
			b.WriteByte(',')
		}
		return b.String()
	case ArrayV:
		var b strings.Builder
		b.WriteByte('[')
		for _, f := range x.E {
			b.WriteString(valKey(f))
			b.WriteByte(',')
		}
		return b.String()
	case FuncV:
		k := "f" + x.ID
		if x.Fn != nil {
			k += x.Fn.String()
		}
		for _, b := range x.Bind {
			k += "," + valKey(b)
		}
		return k
	case MapV:
		if x.Obj == nil {
			return "mnil"
		}
		return fmt.Sprintf("m%d", x.Obj.id)
	case ChanV:
		return fmt.Sprintf("c%d", x.Obj.id)
	case TupleV:
		k := "("
		for _, f := range x {
			k += valKey(f) + ","
		}
		return k
	case Opaque:
		return "o" + x.ID
	}
	return fmt.Sprintf("%p", v)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
