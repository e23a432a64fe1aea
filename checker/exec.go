package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine is the abstract interpreter: a forward, inlining, disjunctive
// dataflow over SSA.  At every block incoming abstract states are merged when
// their live parts agree and their facts differ by one complementary literal
// (an exact join) or when a bound is exceeded (facts intersected); loops whose
// exit is undecided are widened.
type Machine struct {
	P       *Program
	objs    map[string]*Obj
	objSeq  int
	NonNil  func(string) bool
	Over    map[string]Val
	Hooks   map[string]Hook
	Invoke  map[string]Hook // "pkg.Iface.Method"
	Opaque  func(*ssa.Function) bool
	Panics  []*PanicRep
	panSeen map[string]bool
	Steps   int
	MaxStep int
	Incompl []string
	Unmod   map[string]int // unmodelled externals
	Funcs   map[*ssa.Function]int
	Base    *State
	InitSt  *State // right after package initialisation, nothing forgotten
	FullSt  *State // after the initialisers, with all variables
	info    map[*ssa.Function]*fnInfo
	maxSet  int
	Joins   int
	Widen   int
	// loop policy
	SymUnroll   int
	Unroll      int // iterations of a loop that are followed one by one
	TraceFn     string
	LockErr     func(*Call, string)
	DynHook     func(*Machine, *Call) ([]Result, bool)
	GoHook      func(m *Machine, st *State, fv Val, args []Val)
	MaxRec      int // activations of a function on one call chain (0: one)
	AssertTypes func(id string, t types.Type) bool
}

type Hook func(m *Machine, c *Call) []Result

type Call struct {
	St   *State
	Fr   *frame
	Fn   *ssa.Function // static callee if any
	Name string
	Args []Val
	Recv Val
	Site ssa.CallInstruction
	Res  *types.Tuple
}

type Result struct {
	St    *State
	Ret   Val // nil, single value, or TupleV
	Panic bool
}

type PanicRep struct {
	Kind     string
	Detail   string
	Site     ssa.Instruction
	Fn       *ssa.Function
	Pos      string
	Stack    []string
	Facts    []string
	Definite bool
	St       *State
	Lit      Lit
}

type frame struct {
	fn     *ssa.Function
	ctx    string
	depth  int
	caller *frame
	site   ssa.Instruction
	seq    int
}

type deferRec struct {
	call ssa.CallInstruction
	fn   Val
	args []Val
}

type loopSt struct {
	count  int
	sym    int
	wid    bool
	done   bool
	st     *State
	regs   map[ssa.Value]Val
	first  map[ssa.Value]Val
	hav    map[string]bool
	rounds int
	evn    int
	hyp    map[*ssa.Phi]uint64 // widened counters: assumed direction and stride
}

type pend struct {
	st     *State
	regs   map[ssa.Value]Val
	prev   *ssa.BasicBlock
	blk    *ssa.BasicBlock
	defers []*deferRec
	loops  map[int]loopSt
	wasIt  bool
}

func (p *pend) fork() *pend {
	n := *p
	n.st = p.st.fork()
	n.regs = make(map[ssa.Value]Val, len(p.regs)+4)
	for k, v := range p.regs {
		n.regs[k] = v
	}
	n.loops = make(map[int]loopSt, len(p.loops))
	for k, v := range p.loops {
		n.loops[k] = v
	}
	n.defers = append([]*deferRec(nil), p.defers...)
	return &n
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> body
}

func NewMachine(p *Program) *Machine {
	m := &Machine{P: p, objs: map[string]*Obj{}, Hooks: map[string]Hook{}, Invoke: map[string]Hook{}, panSeen: map[string]bool{},
		MaxStep: 4_000_000, Unmod: map[string]int{}, Funcs: map[*ssa.Function]int{}, info: map[*ssa.Function]*fnInfo{}, maxSet: 400, SymUnroll: 1, Unroll: 300}
	m.Base = newState()
	installModels(m)
	return m
}

func (m *Machine) fnInfoOf(fn *ssa.Function) *fnInfo {
	if i := m.info[fn]; i != nil {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for k, b := range post {
		i.rpo[b] = len(post) - 1 - k
	}
	// natural loops
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				var w []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							w = append(w, p)
						}
					}
				}
			}
		}
	}
	// process loops bodies before their exits: refine order so that blocks outside
	// a loop come after the loop's body
	order := append([]*ssa.BasicBlock(nil), post...)
	sort.SliceStable(order, func(a, b int) bool { return i.rpo[order[a]] < i.rpo[order[b]] })
	// liveness
	for _, b := range order {
		i.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			b := order[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for x, p := range s.Preds {
					if p == b {
						pi = x
					}
				}
				for v := range i.live[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// both edges may come from b
					for x, p := range s.Preds {
						if p == b {
							if isReg(ph.Edges[x]) {
								live[ph.Edges[x]] = true
							}
						}
					}
					_ = pi
				}
			}
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				in := b.Instrs[x]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b are defined at entry; keep them out (handled on edges)
			if len(live) != len(i.live[b]) {
				i.live[b] = live
				changed = true
			}
		}
	}
	m.info[fn] = i
	return i
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func (m *Machine) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Block() != nil {
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
				break
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return m.P.position(p)
}

func (p *Program) position(pos token.Pos) string {
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (fr *frame) stack(m *Machine) []string {
	var s []string
	for f := fr; f != nil; f = f.caller {
		x := f.fn.RelString(nil)
		if f.site != nil {
			x += " called at " + m.pos(f.site)
		}
		s = append(s, x)
	}
	return s
}

// obligation: the literal must hold, otherwise a panic of the given kind is
// possible; the state continues with the literal assumed.  Returns false when
// the path ends.
func (m *Machine) require(st *State, fr *frame, site ssa.Instruction, l Lit, kind, detail string) bool {
	k, v := st.Eval(l)
	if k && v {
		return true
	}
	key := fmt.Sprintf("%s|%s|%p|%v", kind, fr.ctx, site, k)
	if !m.panSeen[key] {
		m.panSeen[key] = true
		m.Panics = append(m.Panics, &PanicRep{Kind: kind, Detail: detail, Site: site, Fn: fr.fn, Pos: m.pos(site), Stack: fr.stack(m), Facts: st.FactStrings(), Definite: k, St: st.fork(), Lit: l})
	}
	if k {
		return false
	}
	st.assumeRaw(l)
	return true
}

// Run analyses fn from the given state.
func (m *Machine) Run(st *State, fn *ssa.Function, args []Val) []Result {
	return m.execFn(st, fn, args, nil, nil, nil)
}

func (m *Machine) onStack(fr *frame, fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			n++
		}
	}
	return n > 0 && n >= m.MaxRec
}

func (m *Machine) execFn(st *State, fn *ssa.Function, args []Val, bind []Val, caller *frame, site ssa.Instruction) []Result {
	fr := &frame{fn: fn, caller: caller, site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.ctx = fmt.Sprintf("%s/%p", caller.ctx, site)
		if len(fr.ctx) > 600 {
			fr.ctx = fmt.Sprintf("%x/%p", hash(caller.ctx), site)
		}
	}
	n := st.site("call:" + fr.ctx + fn.Name())
	if n > 1 {
		fr.ctx += fmt.Sprintf("#%d", n)
	}
	m.Funcs[fn]++
	p := &pend{st: st, regs: map[ssa.Value]Val{}, blk: fn.Blocks[0], loops: map[int]loopSt{}}
	for i, a := range fn.Params {
		if i < len(args) {
			p.regs[a] = args[i]
		} else {
			p.regs[a] = m.symVal("arg:"+a.Name(), a.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			p.regs[f] = bind[i]
		} else {
			p.regs[f] = m.symVal("free:"+f.Name(), f.Type())
		}
	}
	x := &fexec{m: m, fr: fr, info: m.fnInfoOf(fn), pending: map[*ssa.BasicBlock][]*pend{}}
	x.pending[fn.Blocks[0]] = []*pend{p}
	old := make(map[*Obj]bool, len(st.mem))
	for o := range st.mem {
		old[o] = true
	}
	x.run()
	if caller != nil {
		for _, r := range x.results {
			r.St.drop(r.Ret, old)
		}
	}
	x.mergeResults()
	return x.results
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type fexec struct {
	m       *Machine
	fr      *frame
	info    *fnInfo
	pending map[*ssa.BasicBlock][]*pend
	results []Result
}

func (x *fexec) run() {
	for {
		var best *ssa.BasicBlock
		for b := range x.pending {
			if best == nil || x.info.rpo[b] < x.info.rpo[best] {
				best = b
			}
		}
		if best == nil {
			return
		}
		ps := x.pending[best]
		delete(x.pending, best)
		ps = x.merge(best, ps)
		for _, p := range ps {
			if x.m.Steps > x.m.MaxStep {
				x.m.incomplete("step budget exhausted in " + x.fr.fn.String())
				return
			}
			if outOfTime() {
				x.m.incomplete("time budget exhausted in " + x.fr.fn.String())
				return
			}
			x.enter(p, best)
		}
	}
}

func (m *Machine) incomplete(s string) {
	for _, t := range m.Incompl {
		if t == s {
			return
		}
	}
	m.Incompl = append(m.Incompl, s)
}

func (x *fexec) goTo(p *pend, to *ssa.BasicBlock) {
	p.prev = p.blk
	p.blk = to
	x.pending[to] = append(x.pending[to], p)
}

// merge performs exact joins (complementary literal), subsumption, and a
// bounded widening join.
func (x *fexec) merge(b *ssa.BasicBlock, ps []*pend) []*pend {
	if len(ps) < 2 {
		return ps
	}
	live := x.info.live[b]
	core := func(p *pend) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%p|", p.st.evs)
		var ks []string
		for v := range live {
			ks = append(ks, v.Name()+"="+valKey(p.regs[v]))
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == p.prev {
					ks = append(ks, "φ"+ph.Name()+"="+valKey(x.val(p, ph.Edges[i])))
					break
				}
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ";"))
		fmt.Fprintf(&sb, "|%d|", len(p.defers))
		memKey(&sb, p.st)
		back := false
		if p.prev != nil && b.Dominates(p.prev) {
			back = true
		}
		fmt.Fprintf(&sb, "%v", back)
		if back { // loop bookkeeping must agree
			fmt.Fprintf(&sb, "%p", p)
		}
		return sb.String()
	}
	groups := map[string][]*pend{}
	var order []string
	for _, p := range ps {
		k := core(p)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var out []*pend
	for _, k := range order {
		g := groups[k]
		g = x.m.joinGroup(g)
		out = append(out, g...)
	}
	return out
}

// memKey identifies the non-path-condition part of a state.
func memKey(sb *strings.Builder, st *State) {
	var a, b uint64
	for o, s := range st.mem {
		h := s.hash()
		if bs := st.base[o]; bs != nil && bs.hash() == h {
			continue
		}
		a += mix(uint64(o.id)*0x9e3779b97f4a7c15, h)
		b += mix(h, uint64(o.id)+77)
	}
	fmt.Fprintf(sb, "%x.%x|%v|", a, b, st.held)
	for _, k := range sortedKeys(st.ghost) {
		sb.WriteString(k + valKey(st.ghost[k]))
	}
}

// joinGroup joins states that agree on everything but their path condition.
func (m *Machine) joinGroup(g []*pend) []*pend {
	for changed := true; changed && len(g) > 1; {
		changed = false
	outer:
		for i := 0; i < len(g); i++ {
			for j := 0; j < len(g); j++ {
				if i == j {
					continue
				}
				if r := joinExact(g[i], g[j]); r != nil {
					m.Joins++
					g[i] = r
					g = append(g[:j:j], g[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	if len(g) > m.maxSet {
		// sound but lossy: keep common facts
		base := g[0]
		for _, q := range g[1:] {
			m.Joins++
			base = joinFacts(base, q)
		}
		g = []*pend{base}
	}
	return g
}

// mergeResults joins the outcomes of a call that agree on result and memory.
func (x *fexec) mergeResults() {
	if len(x.results) < 2 {
		return
	}
	groups := map[string][]*pend{}
	rets := map[string]Val{}
	var order []string
	for _, r := range x.results {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%p|%s|", r.St.evs, valKey(r.Ret))
		memKey(&sb, r.St)
		k := sb.String()
		if groups[k] == nil {
			order = append(order, k)
			rets[k] = r.Ret
		}
		groups[k] = append(groups[k], &pend{st: r.St})
	}
	if len(order) == len(x.results) {
		return
	}
	x.results = nil
	for _, k := range order {
		for _, p := range x.m.joinGroup(groups[k]) {
			x.results = append(x.results, Result{St: p.st, Ret: rets[k]})
		}
	}
}

func (m *Machine) rebuildFacts(st *State, fs []Lit) {
	st.facts = nil
	st.fset = map[*Term]bool{}
	st.bitk = map[Bit]uint8{}
	st.fown = true
	for _, f := range fs {
		st.fset[f.T] = f.Pos
		st.facts = append(st.facts, f)
		st.learnBits(f)
	}
}

func joinExact(a, b *pend) *pend {
	// a subsumes b?
	na := 0
	for _, f := range a.st.facts {
		if v, ok := b.st.fset[f.T]; ok && v == f.Pos {
			na++
		}
	}
	if na == len(a.st.facts) {
		return a
	}
	if na == len(a.st.facts)-1 && len(b.st.facts) == len(a.st.facts) {
		var d Lit
		for _, f := range a.st.facts {
			if v, ok := b.st.fset[f.T]; !ok || v != f.Pos {
				d = f
			}
		}
		if v, ok := b.st.fset[d.T]; ok && v != d.Pos {
			var fs []Lit
			for _, f := range a.st.facts {
				if f != d {
					fs = append(fs, f)
				}
			}
			n := a.fork()
			(*Machine)(nil).rebuildFacts(n.st, fs)
			return n
		}
	}
	return nil
}

func joinFacts(a, b *pend) *pend {
	var fs []Lit
	for _, f := range a.st.facts {
		if v, ok := b.st.fset[f.T]; ok && v == f.Pos {
			fs = append(fs, f)
		}
	}
	n := a.fork()
	(*Machine)(nil).rebuildFacts(n.st, fs)
	return n
}

// enter runs a block, handling loop heads.
func (x *fexec) enter(p *pend, b *ssa.BasicBlock) {
	if body := x.info.loops[b]; body != nil {
		back := p.prev != nil && body[p.prev]
		if !x.loopHead(p, b, body, back) {
			return
		}
	} else {
		x.phis(p, b)
	}
	x.step(p, b, x.firstNonPhi(b))
}

func (x *fexec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *fexec) phis(p *pend, b *ssa.BasicBlock) {
	if p.prev == nil {
		return
	}
	pi := -1
	for i, pr := range b.Preds {
		if pr == p.prev {
			pi = i
		}
	}
	var vs []Val
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, f)
		vs = append(vs, x.val(p, f.Edges[pi]))
	}
	for i, f := range ph {
		p.regs[f] = vs[i]
	}
}

func copyRegs(r map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(r))
	for k, v := range r {
		n[k] = v
	}
	return n
}

// loopHead updates loop bookkeeping; false: the path is subsumed.
func (x *fexec) loopHead(p *pend, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, back bool) bool {
	x.phis(p, b)
	id := b.Index
	evn := 0
	if p.st.evs != nil {
		evn = p.st.evs.n
	}
	if !back {
		p.loops[id] = loopSt{}
		l := p.loops[id]
		l.snap(p)
		l.first = copyRegs(p.regs)
		l.evn = evn
		p.loops[id] = l
		return true
	}
	l := p.loops[id]
	l.count++
	if l.count > 3000 {
		x.m.incomplete("loop bound in " + x.fr.fn.String())
		return false
	}
	rem, bounded := x.loopBound(p, body)
	if !l.wid && ((l.sym <= x.m.SymUnroll && l.count <= x.m.Unroll) || (bounded && rem <= uint64(x.m.Unroll) && l.count <= 2*x.m.Unroll)) && !(bounded && rem > uint64(x.m.Unroll) && l.count >= 2) {
		l.snap(p)
		p.loops[id] = l
		return true
	}
	// compare with snapshot
	if l.hav == nil {
		l.hav = map[string]bool{}
	} else {
		h := map[string]bool{}
		for k := range l.hav {
			h[k] = true
		}
		l.hav = h
	}
	grew := false
	var changedPhi []*ssa.Phi
	for _, in := range b.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := "φ" + f.Name()
		if valKey(p.regs[f]) != valKey(l.regs[f]) {
			if !l.wid || !l.hav[k] {
				grew = true
			}
			l.hav[k] = true
			if h, ok := l.hyp[f]; ok && l.wid && !l.hav["!"+k] {
				// the assumption made when the counter was widened must be inductive
				t, _ := p.regs[f].(*Term)
				pv, _ := l.regs[f].(*Term)
				if t == nil || pv == nil || !stepOK(Sub(p.st.simp(t), p.st.simp(pv)), h) {
					l.hav["!"+k] = true
					grew = true
				}
			}
		}
		if l.hav[k] {
			changedPhi = append(changedPhi, f)
		}
	}
	type cell struct {
		o *Obj
		p Path
		t Val
	}
	var cells []cell
	mapsCh := map[*Obj]bool{}
	for o, s := range p.st.mem {
		old := l.st.get(o)
		if old == s {
			continue
		}
		if old == nil {
			if o.Sym || o.Ext || isGlobalObj(o) {
				old = &ObjState{}
			} else {
				continue // allocated inside the loop
			}
		}
		if o.Map {
			if len(old.ents) != len(s.ents) || old.ver != s.ver {
				mapsCh[o] = true
			}
			continue
		}
		seen := map[string]bool{}
		for _, ly := range s.layers {
			for k, q := range ly.paths {
				if seen[k] {
					continue
				}
				seen[k] = true
				nv := x.rawCell(p.st, o, s, q)
				ov := x.rawCell(p.st, o, old, q)
				if nv == nil || ov == nil || valKey(nv) != valKey(ov) {
					key := fmt.Sprintf("%d%s", o.id, k)
					cells = append(cells, cell{o, q, nv})
					if !l.hav[key] {
						grew = true
					}
					l.hav[key] = true
				}
			}
			if ly.reg != nil || ly.sym != nil || ly.havoc != nil {
				found := false
				for _, oy := range old.layers {
					if oy == ly {
						found = true
					}
				}
				if !found {
					var pre Path
					if ly.reg != nil {
						pre = ly.reg.Prefix
					} else if ly.sym != nil {
						i := symStep(ly.sym.P)
						pre = Path{}
						for _, s := range ly.sym.P.S[:i] {
							if s.Idx != nil {
								pre = pre.index(s.Idx)
							} else {
								pre = pre.field(s.Field)
							}
						}
					} else {
						pre = ly.havoc.Prefix
					}
					key := fmt.Sprintf("R%d%s", o.id, pre.K)
					cells = append(cells, cell{o, pre, nil})
					if !l.hav[key] {
						grew = true
					}
					l.hav[key] = true
				}
			}
		}
	}
	if l.wid && !grew {
		if l.done || evn == l.evn {
			return false // subsumed by the widened head state
		}
		l.done = true
	}
	l.rounds++
	if l.rounds > 8 {
		x.m.incomplete("loop does not stabilise in " + x.fr.fn.String())
		return false
	}
	x.m.Widen++
	nm := fmt.Sprintf("loop@%s.%d", x.fr.fn.Name(), id)
	for _, f := range changedPhi {
		v := p.regs[f]
		fresh := x.m.fresh(p.st, nm+"."+f.Comment+"."+f.Name(), f.Type(), v)
		// monotone counters keep their lower bound and their stride
		if t, ok := v.(*Term); ok && !l.hav["!φ"+f.Name()] {
			if t0, ok := l.first[f].(*Term); ok && t.W == 64 {
				if pv, ok := l.regs[f].(*Term); ok {
					d := Sub(p.st.simp(t), p.st.simp(pv))
					ft, isT := fresh.(*Term)
					if d.IsConst() && d.Int() > 0 && d.Int() < 1<<20 && isT {
						z := min(trailZ(t0), bits.TrailingZeros64(d.C), 32)
						if z > 0 {
							ft = Shl(SymRange(64, ft.Name+"/stride", 0, 1<<uint(62-z)-1), z)
							fresh = ft
						}
						p.st.Assume(LSLe(t0, ft))
						p.st.Assume(LSLt(ft, c64(1<<62)))
						l.setHyp(f, uint64(z)<<1|1)
					} else if d.IsConst() && d.Int() < 0 && d.Int() > -(1<<20) && isT {
						p.st.Assume(LSLe(ft, t0))
						l.setHyp(f, 0)
					}
				}
			}
		}
		p.regs[f] = fresh
	}
	for _, c := range cells {
		if c.t == nil {
			x.m.HavocObj(p.st, c.o, c.p, nm+":"+objName(c.o, c.p)+fmt.Sprint(p.st.site(nm)))
			continue
		}
		t := typeAt(c.o, c.p)
		if t == nil && c.o.Arr && len(c.p.S) == 1 {
			t = c.o.T
		}
		fv := x.m.fresh(p.st, nm+":"+objName(c.o, c.p), t, c.t)
		x.m.Write(p.st, c.o, c.p, fv)
	}
	for o := range mapsCh {
		x.m.HavocObj(p.st, o, Path{}, nm+":"+o.Name+fmt.Sprint(p.st.site(nm)))
	}
	l.wid = true
	l.evn = evn
	l.snap(p)
	p.loops[id] = l
	return true
}

func (l *loopSt) setHyp(f *ssa.Phi, h uint64) {
	n := map[*ssa.Phi]uint64{}
	for k, v := range l.hyp {
		n[k] = v
	}
	n[f] = h
	l.hyp = n
}

// stepOK: one more iteration moves the counter in the assumed direction and
// by a multiple of the assumed stride.
func stepOK(d *Term, h uint64) bool {
	if !d.IsConst() {
		return false
	}
	if h&1 == 0 {
		return d.Int() <= 0 && d.Int() > -(1<<20)
	}
	return d.Int() >= 0 && d.Int() < 1<<20 && d.C&(1<<(h>>1)-1) == 0
}

// trailZ counts the low bits of t known to be zero.
func trailZ(t *Term) int {
	if t.Op == OpConst {
		if t.C == 0 {
			return 64
		}
		return bits.TrailingZeros64(t.C)
	}
	n := 0
	for _, b := range bitsOf(t) {
		if b.A != nil || b.I != 0 {
			break
		}
		n++
	}
	return n
}

// loopBound reports a loop driven by a counter whose value and limit are both
// known now, and how many iterations at most remain.
func (x *fexec) loopBound(p *pend, body map[*ssa.BasicBlock]bool) (uint64, bool) {
	best, found := uint64(0), false
	for b := range body {
		if len(b.Instrs) == 0 {
			continue
		}
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (body[b.Succs[0]] && body[b.Succs[1]]) {
			continue
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			continue
		}
		if !loopPhi(c.X, body, 4) && !loopPhi(c.Y, body, 4) {
			continue
		}
		xv, ok1 := x.counter(p, c.X)
		yv, ok2 := x.counter(p, c.Y)
		if !ok1 || !ok2 {
			continue
		}
		d := xv - yv
		if d < 0 {
			d = -d
		}
		if k := x.stride(p, c.X, body); k > 1 {
			d = (d + k - 1) / k
		} else if k := x.stride(p, c.Y, body); k > 1 {
			d = (d + k - 1) / k
		}
		if !found || uint64(d) < best {
			best, found = uint64(d), true
		}
	}
	return best, found
}

// loopPhi: v is computed from a value carried around the loop.
func loopPhi(v ssa.Value, body map[*ssa.BasicBlock]bool, depth int) bool {
	if depth == 0 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Convert:
		return loopPhi(t.X, body, depth)
	case *ssa.BinOp:
		return loopPhi(t.X, body, depth-1) || loopPhi(t.Y, body, depth-1)
	case *ssa.Phi:
		if !body[t.Block()] {
			return false
		}
		for i := range t.Edges {
			if body[t.Block().Preds[i]] {
				return true
			}
		}
	}
	return false
}

// stride is how far the counter behind v moves in one iteration (0: unknown).
func (x *fexec) stride(p *pend, v ssa.Value, body map[*ssa.BasicBlock]bool) int64 {
	for k := 0; k < 4; k++ {
		switch t := v.(type) {
		case *ssa.Convert:
			v = t.X
			continue
		case *ssa.BinOp:
			if _, ok := t.Y.(*ssa.Phi); ok && t.Op == token.ADD {
				v = t.Y
			} else {
				v = t.X
			}
			continue
		case *ssa.Phi:
			for i, e := range t.Edges {
				if !body[t.Block().Preds[i]] {
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.X != v || (b.Op != token.ADD && b.Op != token.SUB) {
					return 0
				}
				var r Val
				if c, ok := b.Y.(*ssa.Const); ok {
					r = x.m.constVal(c)
				} else {
					r = p.regs[b.Y]
				}
				n, ok := r.(*Term)
				if !ok || !n.IsConst() {
					return 0
				}
				d := n.Int()
				if d < 0 {
					d = -d
				}
				return d
			}
		}
		return 0
	}
	return 0
}

func (x *fexec) counter(p *pend, v ssa.Value) (int64, bool) {
	if b, ok := v.(*ssa.BinOp); ok {
		// defined in the loop: evaluate over the current phi values
		if b.Op == token.ADD || b.Op == token.SUB {
			a, ok1 := x.counter(p, b.X)
			c, ok2 := x.counter(p, b.Y)
			if ok1 && ok2 {
				if b.Op == token.ADD {
					return a + c, true
				}
				return a - c, true
			}
		}
		return 0, false
	}
	if c, ok := v.(*ssa.Convert); ok {
		return x.counter(p, c.X)
	}
	t, ok := x.val(p, v).(*Term)
	if !ok || !t.IsConst() {
		return 0, false
	}
	return t.Int(), true
}

func isGlobalObj(o *Obj) bool { return strings.HasPrefix(o.Name, "global:") }

func (x *fexec) rawCell(st *State, o *Obj, os *ObjState, p Path) Val {
	t := typeAt(o, p)
	if t == nil && o.Arr && len(p.S) >= 1 {
		t = o.T
		if len(p.S) > 1 {
			t = typeAt(&Obj{T: o.T}, p.rest(1))
		}
	}
	if t == nil {
		// hidden cell
		for i := len(os.layers) - 1; i >= 0; i-- {
			if v, ok := os.layers[i].cells[p.K]; ok {
				return v
			}
		}
		return nil
	}
	return x.m.readLeaf(st, o, os, p, t)
}

func (l *loopSt) snap(p *pend) {
	l.regs = copyRegs(p.regs)
	l.st = p.st.fork()
}

// fresh is a new unknown of the same shape as like.
func (m *Machine) fresh(st *State, name string, t types.Type, like Val) Val {
	n := st.site("fresh:" + name)
	nm := fmt.Sprintf("%s'%d", name, n)
	if t != nil {
		v := m.symVal(nm, t)
		switch l := like.(type) {
		case Slice:
			if s, ok := v.(Slice); ok && l.Arr != nil {
				s.Nil = litBool(false)
				return s
			}
		case Ptr:
			_ = l
		}
		return v
	}
	switch l := like.(type) {
	case *Term:
		return Sym(l.W, nm)
	case Lit:
		return Lit{BSym(nm), true}
	case Slice:
		o := m.symObj(nm, types.Typ[types.Uint8], true, false)
		if l.Arr != nil {
			o.T = l.Arr.T
		}
		ln := SymRange(64, "len("+nm+")", 0, lenMax)
		return Slice{Arr: o, Off: c64(0), Len: ln, Cap: ln, Nil: litBool(false)}
	}
	return Opaque{nm}
}

// values -------------------------------------------------------------------

func (x *fexec) val(p *pend, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.m.constVal(c)
	case *ssa.Global:
		return Ptr{Obj: x.m.globalObj(c)}
	case *ssa.Function:
		return FuncV{Fn: c, Nil: litBool(false), ID: c.String()}
	case *ssa.Builtin:
		return FuncV{B: c, Nil: litBool(false), ID: c.Name()}
	}
	if r, ok := p.regs[v]; ok {
		return r
	}
	return x.m.symVal("undef:"+v.Name(), v.Type())
}

func (m *Machine) globalObj(g *ssa.Global) *Obj {
	k := "global:" + g.String()
	if o := m.objs[k]; o != nil {
		return o
	}
	o := m.newObj("global:"+g.String(), g.Type().(*types.Pointer).Elem())
	m.objs[k] = o
	if g.Pkg == nil || !m.P.isRepo(g.Pkg.Pkg.Path()) {
		o.Ext = true
		o.Name = g.String()
	} else if m.P.mutGlobals[g] {
		o.Sym = true
		o.Name = "var " + g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return o
}

func (m *Machine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type()
	if w, _, ok := intWidth(t); ok {
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Const(w, uint64(i))
		}
		if i, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return Const(w, i)
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return litBool(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	}
	return Opaque{"const " + c.Value.String()}
}

func (x *fexec) step(p *pend, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.m.Steps++
		in := b.Instrs[i]
		switch t := in.(type) {
		case *ssa.If:
			x.branch(p, t, b)
			return
		case *ssa.Jump:
			x.goTo(p, b.Succs[0])
			return
		case *ssa.Return:
			var r Val
			switch len(t.Results) {
			case 0:
			case 1:
				r = x.val(p, t.Results[0])
			default:
				tv := TupleV{}
				for _, v := range t.Results {
					tv = append(tv, x.val(p, v))
				}
				r = tv
			}
			x.results = append(x.results, Result{St: p.st, Ret: r})
			return
		case *ssa.Panic:
			x.m.require(p.st, x.fr, t, litBool(false), "panic", "explicit panic")
			return
		case *ssa.RunDefers:
			sts := []*State{p.st}
			for k := len(p.defers) - 1; k >= 0; k-- {
				d := p.defers[k]
				var nx []*State
				for _, s := range sts {
					for _, r := range x.m.call(s, x.fr, d.call, d.fn, d.args) {
						if !r.Panic {
							nx = append(nx, r.St)
						}
					}
				}
				sts = nx
			}
			p.defers = nil
			if len(sts) == 0 {
				return
			}
			if !x.cont(p, b, i, sts, nil, nil) {
				return
			}
		case *ssa.Call:
			fv, args := x.callee(p, &t.Call)
			rs := x.m.call(p.st, x.fr, t, fv, args)
			var sts []*State
			var vals []Val
			for _, r := range rs {
				if r.Panic {
					continue
				}
				sts = append(sts, r.St)
				vals = append(vals, r.Ret)
			}
			if len(sts) == 0 {
				return
			}
			if !x.cont(p, b, i, sts, t, vals) {
				return
			}
		case *ssa.Defer:
			fv, args := x.callee(p, &t.Call)
			p.defers = append(p.defers, &deferRec{t, fv, args})
		case *ssa.Go:
			fv, args := x.callee(p, &t.Call)
			e := &Event{Kind: "go", Name: "go " + calleeName(&t.Call, fv), Recv: fv, Args: args, Pos: x.m.pos(t), Site: t, Fn: x.fr.fn}
			p.st.event(e)
			if x.m.GoHook != nil {
				x.m.GoHook(x.m, p.st, fv, args)
			}
		case *ssa.Lookup:
			sts, vals := x.lookup(p, t)
			if !x.cont(p, b, i, sts, t, vals) {
				return
			}
		case *ssa.Next:
			sts, vals := x.next(p, t)
			if !x.cont(p, b, i, sts, t, vals) {
				return
			}
		case *ssa.TypeAssert:
			sts, vals := x.typeAssert(p, t)
			if len(sts) == 0 {
				return
			}
			if !x.cont(p, b, i, sts, t, vals) {
				return
			}
		case *ssa.Select:
			e := &Event{Kind: "select", Name: "select", Pos: x.m.pos(t), Site: t, Fn: x.fr.fn}
			p.st.event(e)
			p.regs[t] = x.m.fresh(p.st, "select@"+x.m.pos(t), t.Type(), nil)
		default:
			if !x.simple(p, in) {
				return
			}
		}
	}
}

// cont installs the results of a forking instruction; the first state continues
// in place, the others are run to the end of the block recursively.
func (x *fexec) cont(p *pend, b *ssa.BasicBlock, i int, sts []*State, dst ssa.Value, vals []Val) bool {
	if len(sts) == 0 {
		return false
	}
	for k := 1; k < len(sts); k++ {
		q := &pend{st: sts[k], regs: copyRegs(p.regs), prev: p.prev, blk: p.blk, defers: append([]*deferRec(nil), p.defers...), loops: map[int]loopSt{}}
		for a, l := range p.loops {
			q.loops[a] = l
		}
		if dst != nil {
			q.regs[dst] = vals[k]
		}
		x.step(q, b, i+1)
	}
	p.st = sts[0]
	if dst != nil {
		p.regs[dst] = vals[0]
	}
	return true
}

func calleeName(c *ssa.CallCommon, fv Val) string {
	if c.IsInvoke() {
		return c.Value.Type().String() + "." + c.Method.Name()
	}
	if f, ok := fv.(FuncV); ok && f.Fn != nil {
		return f.Fn.String()
	}
	return c.Value.Name()
}

func (x *fexec) branch(p *pend, t *ssa.If, b *ssa.BasicBlock) {
	c, ok := x.val(p, t.Cond).(Lit)
	if !ok {
		c = Lit{BSym(fmt.Sprintf("cond@%s#%d", x.m.pos(t), p.st.site("cond"))), true}
	}
	if k, v := p.st.Eval(c); k {
		if v {
			x.goTo(p, b.Succs[0])
		} else {
			x.goTo(p, b.Succs[1])
		}
		return
	}
	for h, body := range x.info.loops {
		if body[b] && (!body[b.Succs[0]] || !body[b.Succs[1]] || b == h) {
			l := p.loops[h.Index]
			l.sym++
			p.loops[h.Index] = l
		}
	}
	q := p.fork()
	p.st.assumeRaw(c)
	q.st.assumeRaw(c.Not())
	x.nilAxioms(p.st, c)
	x.nilAxioms(q.st, c.Not())
	x.goTo(p, b.Succs[0])
	x.goTo(q, b.Succs[1])
}

// a nil slice/map has length 0
func (x *fexec) nilAxioms(st *State, l Lit) {
	if l.Pos && l.T.Op == OpBSym && strings.HasPrefix(l.T.Name, "nil(") {
		n := l.T.Name[4 : len(l.T.Name)-1]
		st.Assume(LEq(SymRange(64, "len("+n+")", 0, lenMax), c64(0)))
	}
}

func (x *fexec) callee(p *pend, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fv := x.val(p, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	return fv, args
}

// deref checks a pointer before access.
func (x *fexec) deref(p *pend, v Val, in ssa.Instruction, what string) (Ptr, bool) {
	pt, ok := v.(Ptr)
	if !ok {
		x.m.incomplete(fmt.Sprintf("address of unknown shape %s at %s", valString(v), x.m.pos(in)))
		return Ptr{}, false
	}
	if pt.Obj == nil {
		x.m.require(p.st, x.fr, in, litBool(false), "nil", "nil pointer dereference of "+what)
		return pt, false
	}
	if len(pt.Path.S) == 0 {
		if !x.m.require(p.st, x.fr, in, pt.Obj.Nil.Not(), "nil", "nil pointer dereference of "+pt.Obj.Name) {
			return pt, false
		}
	}
	return pt, true
}

func toTerm(v Val) (*Term, bool) { t, ok := v.(*Term); return t, ok }

func (x *fexec) idx64(p *pend, v ssa.Value) (*Term, bool) {
	t, ok := x.val(p, v).(*Term)
	if !ok {
		return nil, false
	}
	_, sg, _ := intWidth(v.Type())
	return Resize(t, 64, sg), true
}

// bound builds 0 <= i < n for a 64-bit index (n nonnegative).
func inBounds(i, n *Term) Lit { return LULt(i, n) }

func (x *fexec) simple(p *pend, in ssa.Instruction) bool {
	m := x.m
	st := p.st
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		key := fmt.Sprintf("alloc:%s:%p", x.fr.ctx, t)
		n := st.site(key)
		nm := t.Comment
		if nm == "" {
			nm = "alloc"
		}
		et := t.Type().(*types.Pointer).Elem()
		o := m.intern(fmt.Sprintf("%s#%d", key, n), fmt.Sprintf("%s@%s", nm, m.pos(t)), et)
		if n > 1 {
			o.Name = fmt.Sprintf("%s@%s#%d", nm, m.pos(t), n)
		}
		st.ownMem()
		st.mem[o] = &ObjState{owner: st.id}
		p.regs[t] = Ptr{Obj: o}
	case *ssa.FieldAddr:
		pt, ok := x.deref(p, x.val(p, t.X), t, t.X.Name())
		if !ok {
			return false
		}
		p.regs[t] = Ptr{pt.Obj, pt.Path.field(t.Field)}
	case *ssa.IndexAddr:
		i, ok := x.idx64(p, t.Index)
		if !ok {
			i = Sym(64, fmt.Sprintf("idx@%s", m.pos(t)))
		}
		switch b := x.val(p, t.X).(type) {
		case Slice:
			if !m.require(st, x.fr, t, inBounds(i, b.Len), "bounds", fmt.Sprintf("index %s out of range of length %s", i, b.Len)) {
				return false
			}
			if b.Arr == nil {
				return false
			}
			p.regs[t] = Ptr{b.Arr, b.Path.index(Add(b.Off, i))}
		case Ptr:
			pt, ok := x.deref(p, b, t, t.X.Name())
			if !ok {
				return false
			}
			if at, ok := under(t.X.Type()).(*types.Pointer); ok {
				if arr, ok := under(at.Elem()).(*types.Array); ok {
					if !m.require(st, x.fr, t, inBounds(i, c64(arr.Len())), "bounds", fmt.Sprintf("index %s out of range [0,%d)", i, arr.Len())) {
						return false
					}
				}
			}
			p.regs[t] = Ptr{pt.Obj, pt.Path.index(i)}
		default:
			m.incomplete("index of unknown shape at " + m.pos(t))
			return false
		}
	case *ssa.Index:
		i, _ := x.idx64(p, t.Index)
		switch b := x.val(p, t.X).(type) {
		case ArrayV:
			if i != nil && !m.require(st, x.fr, t, inBounds(i, c64(int64(len(b.E)))), "bounds", "index out of range") {
				return false
			}
			if i != nil && i.IsConst() {
				p.regs[t] = b.E[i.C]
			} else {
				p.regs[t] = m.fresh(st, "elem@"+m.pos(t), t.Type(), nil)
			}
		case Str:
			if i != nil {
				if !m.require(st, x.fr, t, inBounds(i, b.Len), "bounds", fmt.Sprintf("string index %s out of range", i)) {
					return false
				}
				p.regs[t] = m.strByte(st, b, i)
			}
		default:
			p.regs[t] = m.fresh(st, "elem@"+m.pos(t), t.Type(), nil)
		}
	case *ssa.Field:
		switch b := x.val(p, t.X).(type) {
		case StructV:
			p.regs[t] = b.F[t.Field]
		default:
			p.regs[t] = m.fresh(st, "field@"+m.pos(t), t.Type(), nil)
		}
	case *ssa.Store:
		pt, ok := x.deref(p, x.val(p, t.Addr), t, t.Addr.Name())
		if !ok {
			return false
		}
		m.Write(st, pt.Obj, pt.Path, x.val(p, t.Val))
		if m.P.storeEvents != nil && m.P.storeEvents(pt) {
			st.event(&Event{Kind: "store", Name: objName(pt.Obj, pt.Path), Recv: pt, Args: []Val{x.val(p, t.Val)}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
		}
	case *ssa.UnOp:
		return x.unop(p, t)
	case *ssa.BinOp:
		return x.binop(p, t)
	case *ssa.Convert:
		p.regs[t] = x.convert(p, t)
	case *ssa.MultiConvert:
		p.regs[t] = m.fresh(st, "conv@"+m.pos(t), t.Type(), nil)
	case *ssa.ChangeType:
		p.regs[t] = x.val(p, t.X)
	case *ssa.ChangeInterface:
		p.regs[t] = x.val(p, t.X)
	case *ssa.MakeInterface:
		p.regs[t] = Iface{T: t.X.Type(), V: x.val(p, t.X), Nil: litBool(false)}
	case *ssa.MakeClosure:
		f := FuncV{Fn: t.Fn.(*ssa.Function), Nil: litBool(false), ID: t.Fn.String()}
		for _, b := range t.Bindings {
			f.Bind = append(f.Bind, x.val(p, b))
		}
		p.regs[t] = f
	case *ssa.MakeMap:
		key := fmt.Sprintf("map:%s:%p", x.fr.ctx, t)
		n := st.site(key)
		o := m.intern(fmt.Sprintf("%s#%d", key, n), fmt.Sprintf("map@%s#%d", m.pos(t), n), t.Type())
		o.Map = true
		st.ownMem()
		st.mem[o] = &ObjState{owner: st.id}
		p.regs[t] = MapV{o, litBool(false)}
	case *ssa.MakeChan:
		key := fmt.Sprintf("chan:%s:%p", x.fr.ctx, t)
		o := m.intern(fmt.Sprintf("%s#%d", key, st.site(key)), "chan@"+m.pos(t), t.Type())
		p.regs[t] = ChanV{o}
	case *ssa.MakeSlice:
		l, ok1 := x.idx64(p, t.Len)
		c, ok2 := x.idx64(p, t.Cap)
		if !ok1 || !ok2 {
			p.regs[t] = m.fresh(st, "make@"+m.pos(t), t.Type(), nil)
			break
		}
		if !m.require(st, x.fr, t, LSLe(c64(0), l), "makeslice", fmt.Sprintf("make with length %s (may be negative)", l)) {
			return false
		}
		st.event(&Event{Kind: "make", Name: "make", Args: []Val{l}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
		key := fmt.Sprintf("mk:%s:%p", x.fr.ctx, t)
		o := m.intern(fmt.Sprintf("%s#%d", key, st.site(key)), "make@"+m.pos(t), under(t.Type()).(*types.Slice).Elem())
		o.Arr = true
		st.ownMem()
		st.mem[o] = &ObjState{owner: st.id}
		p.regs[t] = Slice{Arr: o, Off: c64(0), Len: l, Cap: c, Nil: litBool(false)}
	case *ssa.Slice:
		return x.slice(p, t)
	case *ssa.SliceToArrayPointer:
		s, ok := x.val(p, t.X).(Slice)
		if !ok || s.Arr == nil {
			p.regs[t] = m.fresh(st, "s2a@"+m.pos(t), t.Type(), nil)
			break
		}
		if s.Off.IsConst() && s.Off.C == 0 {
			p.regs[t] = Ptr{s.Arr, s.Path}
		} else {
			p.regs[t] = m.fresh(st, "s2a@"+m.pos(t), t.Type(), nil)
		}
	case *ssa.Extract:
		if tv, ok := x.val(p, t.Tuple).(TupleV); ok && t.Index < len(tv) {
			p.regs[t] = tv[t.Index]
		} else {
			p.regs[t] = m.fresh(st, "extract@"+m.pos(t), t.Type(), nil)
		}
	case *ssa.MapUpdate:
		mv, ok := x.val(p, t.Map).(MapV)
		if !ok {
			break
		}
		if mv.Obj == nil {
			m.require(st, x.fr, t, litBool(false), "nilmap", "assignment to entry in nil map")
			return false
		}
		if !m.require(st, x.fr, t, mv.Nil.Not(), "nilmap", "assignment to entry in nil map "+mv.Obj.Name) {
			return false
		}
		os := st.mut(mv.Obj)
		k, v := x.val(p, t.Key), x.val(p, t.Value)
		os.ents = append(os.ents, MapEnt{Key: k, Val: v})
		st.event(&Event{Kind: "mapset", Name: mv.Obj.Name, Recv: mv, Args: []Val{k, v}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
	case *ssa.Range:
		p.regs[t] = rangeIter{x.val(p, t.X), 0}
	case *ssa.Send:
		st.event(&Event{Kind: "send", Name: "send", Recv: x.val(p, t.Chan), Args: []Val{x.val(p, t.X)}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
	default:
		m.incomplete(fmt.Sprintf("instruction %T at %s", in, m.pos(in)))
		if v, ok := in.(ssa.Value); ok {
			p.regs[v] = m.fresh(st, "instr@"+m.pos(in), v.Type(), nil)
		}
	}
	return true
}

type rangeIter struct {
	v Val
	i int
}

func (x *fexec) slice(p *pend, t *ssa.Slice) bool {
	m, st := x.m, p.st
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		if i, ok := x.idx64(p, v); ok {
			return i
		}
		return Sym(64, "sl@"+m.pos(t))
	}
	switch b := x.val(p, t.X).(type) {
	case Slice:
		lo := get(t.Low, c64(0))
		hi := get(t.High, b.Len)
		cp := get(t.Max, b.Cap)
		// 0 <= lo <= hi <= cap
		if !m.require(st, x.fr, t, LULe(hi, b.Cap), "bounds", fmt.Sprintf("slice bound %s out of capacity %s", hi, b.Cap)) {
			return false
		}
		if !m.require(st, x.fr, t, LULe(lo, hi), "bounds", fmt.Sprintf("slice bounds [%s:%s] inverted", lo, hi)) {
			return false
		}
		p.regs[t] = Slice{Arr: b.Arr, Path: b.Path, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo), Nil: b.Nil}
	case Ptr:
		pt, ok := x.deref(p, b, t, t.X.Name())
		if !ok {
			return false
		}
		n := c64(0)
		if at, ok := under(t.X.Type()).(*types.Pointer); ok {
			if arr, ok := under(at.Elem()).(*types.Array); ok {
				n = c64(arr.Len())
			}
		}
		lo := get(t.Low, c64(0))
		hi := get(t.High, n)
		if !m.require(st, x.fr, t, LULe(hi, n), "bounds", "slice of array out of range") {
			return false
		}
		if !m.require(st, x.fr, t, LULe(lo, hi), "bounds", "slice of array inverted") {
			return false
		}
		p.regs[t] = Slice{Arr: pt.Obj, Path: pt.Path, Off: lo, Len: Sub(hi, lo), Cap: Sub(n, lo), Nil: litBool(false)}
	case Str:
		lo := get(t.Low, c64(0))
		hi := get(t.High, b.Len)
		if !m.require(st, x.fr, t, LULe(hi, b.Len), "bounds", "string slice out of range") {
			return false
		}
		if !m.require(st, x.fr, t, LULe(lo, hi), "bounds", "string slice inverted") {
			return false
		}
		if b.Known && lo.IsConst() && hi.IsConst() {
			p.regs[t] = strConst(b.S[lo.C:hi.C])
		} else {
			p.regs[t] = Str{ID: fmt.Sprintf("%s[%s:%s]", valString(b), lo, hi), Len: Sub(hi, lo)}
		}
	default:
		p.regs[t] = m.fresh(st, "slice@"+m.pos(t), t.Type(), nil)
	}
	return true
}

func (x *fexec) unop(p *pend, t *ssa.UnOp) bool {
	m, st := x.m, p.st
	switch t.Op {
	case token.MUL:
		pt, ok := x.deref(p, x.val(p, t.X), t, t.X.Name())
		if !ok {
			return false
		}
		v := m.Read(st, pt.Obj, pt.Path, t.Type())
		p.regs[t] = v
		if m.P.loadEvents != nil && m.P.loadEvents(pt) {
			st.event(&Event{Kind: "load", Name: objName(pt.Obj, pt.Path), Recv: pt, Rets: []Val{v}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
		}
	case token.NOT:
		if l, ok := x.val(p, t.X).(Lit); ok {
			p.regs[t] = l.Not()
		} else {
			p.regs[t] = m.fresh(st, "not", t.Type(), nil)
		}
	case token.SUB:
		if a, ok := x.val(p, t.X).(*Term); ok {
			p.regs[t] = Neg(a)
		} else {
			p.regs[t] = m.fresh(st, "neg", t.Type(), nil)
		}
	case token.XOR:
		if a, ok := x.val(p, t.X).(*Term); ok {
			p.regs[t] = Xor(a, Const(a.W, maskW(a.W)))
		} else {
			p.regs[t] = m.fresh(st, "xor", t.Type(), nil)
		}
	case token.ARROW:
		v := m.fresh(st, "recv@"+m.pos(t), t.Type(), nil)
		st.event(&Event{Kind: "recv", Name: "recv", Recv: x.val(p, t.X), Pos: m.pos(t), Site: t, Fn: x.fr.fn})
		p.regs[t] = v
	default:
		p.regs[t] = m.fresh(st, "unop", t.Type(), nil)
	}
	return true
}

func (x *fexec) binop(p *pend, t *ssa.BinOp) bool {
	m, st := x.m, p.st
	av, bv := x.val(p, t.X), x.val(p, t.Y)
	a, aok := av.(*Term)
	b, bok := bv.(*Term)
	if aok && bok {
		_, signed, _ := intWidth(t.X.Type())
		a, b := st.simp(a), st.simp(b)
		switch t.Op {
		case token.ADD:
			p.regs[t] = Add(a, b)
		case token.SUB:
			p.regs[t] = Sub(a, b)
		case token.MUL:
			p.regs[t] = Mul(a, b)
		case token.QUO, token.REM:
			if !m.require(st, x.fr, t, LNe(b, Const(b.W, 0)), "divzero", "integer division by zero") {
				return false
			}
			switch {
			case t.Op == token.QUO && signed:
				p.regs[t] = SDiv(a, b)
			case t.Op == token.QUO:
				p.regs[t] = UDiv(a, b)
			case signed:
				p.regs[t] = x.srem(st, a, b)
			default:
				p.regs[t] = URem(a, b)
			}
		case token.AND:
			p.regs[t] = And(a, b)
		case token.OR:
			p.regs[t] = Or(a, b)
		case token.XOR:
			p.regs[t] = Xor(a, b)
		case token.AND_NOT:
			p.regs[t] = AndNot(a, b)
		case token.SHL, token.SHR:
			_, bs, _ := intWidth(t.Y.Type())
			if bs {
				if !m.require(st, x.fr, t, LSLe(Const(b.W, 0), b), "shift", "negative shift") {
					return false
				}
			}
			if b.IsConst() {
				k := int(min(b.C, 64))
				if t.Op == token.SHL {
					p.regs[t] = Shl(a, k)
				} else if signed {
					p.regs[t] = AShr(a, k)
				} else {
					p.regs[t] = LShr(a, k)
				}
			} else {
				n := "shl"
				if t.Op == token.SHR {
					n = "lshr"
					if signed && !nonNeg(a) {
						n = "ashr"
					}
				}
				p.regs[t] = fun(a.W, n, a, Resize(b, 64, false))
			}
		case token.EQL:
			p.regs[t] = LEq(a, b)
		case token.NEQ:
			p.regs[t] = LNe(a, b)
		case token.LSS:
			p.regs[t] = lt(a, b, signed)
		case token.LEQ:
			p.regs[t] = lt(b, a, signed).Not()
		case token.GTR:
			p.regs[t] = lt(b, a, signed)
		case token.GEQ:
			p.regs[t] = lt(a, b, signed).Not()
		default:
			p.regs[t] = m.fresh(st, "binop", t.Type(), nil)
		}
		return true
	}
	switch t.Op {
	case token.EQL, token.NEQ:
		l := m.eqVals(st, av, bv)
		if t.Op == token.NEQ {
			l = l.Not()
		}
		p.regs[t] = l
		return true
	case token.ADD:
		if s1, ok := av.(Str); ok {
			if s2, ok := bv.(Str); ok {
				p.regs[t] = concat(s1, s2)
				return true
			}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if s1, ok := av.(Str); ok {
			if s2, ok := bv.(Str); ok && s1.Known && s2.Known {
				var r bool
				switch t.Op {
				case token.LSS:
					r = s1.S < s2.S
				case token.GTR:
					r = s1.S > s2.S
				case token.LEQ:
					r = s1.S <= s2.S
				default:
					r = s1.S >= s2.S
				}
				p.regs[t] = litBool(r)
				return true
			}
		}
	case token.AND, token.OR:
		if l1, ok := av.(Lit); ok {
			if l2, ok := bv.(Lit); ok {
				_ = l1
				_ = l2
			}
		}
	}
	p.regs[t] = m.fresh(st, fmt.Sprintf("binop%s@%s", t.Op, m.pos(t)), t.Type(), nil)
	return true
}

func (x *fexec) srem(st *State, a, b *Term) *Term {
	if !nonNeg(a) && nonNeg(b) {
		if st.Holds(LSLe(Const(a.W, 0), a)) {
			return URem(a, b)
		}
	}
	return SRem(a, b)
}

func lt(a, b *Term, signed bool) Lit {
	if signed {
		return LSLt(a, b)
	}
	return LULt(a, b)
}

func concat(a, b Str) Str {
	if a.Known && b.Known {
		return strConst(a.S + b.S)
	}
	parts := append([]Str(nil), flat(a)...)
	for _, q := range flat(b) {
		if n := len(parts); n > 0 && parts[n-1].Known && q.Known {
			parts[n-1] = strConst(parts[n-1].S + q.S)
		} else if !(q.Known && q.S == "") {
			parts = append(parts, q)
		}
	}
	id := ""
	for i, q := range parts {
		if i > 0 {
			id += "+"
		}
		id += valString(q)
	}
	return Str{ID: id, Len: Add(a.Len, b.Len), Cat: parts}
}
func flat(a Str) []Str {
	if a.Cat != nil {
		return a.Cat
	}
	if a.Known && a.S == "" {
		return nil
	}
	return []Str{a}
}

// eqVals compares two abstract values.
func (m *Machine) eqVals(st *State, a, b Val) Lit {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.W == y.W {
			return LEq(x, y)
		}
	case Lit:
		if y, ok := b.(Lit); ok {
			if k, v := st.Eval(y); k {
				if v {
					return x
				}
				return x.Not()
			}
			if k, v := st.Eval(x); k {
				if v {
					return y
				}
				return y.Not()
			}
			if x == y {
				return litBool(true)
			}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.Obj == nil && y.Obj == nil {
				return litBool(true)
			}
			if x.Obj == nil {
				x, y = y, x
			}
			if y.Obj == nil {
				if len(x.Path.S) > 0 {
					return litBool(false)
				}
				return x.Obj.Nil
			}
			if x.Obj == y.Obj {
				if x.Path.K == y.Path.K {
					return litBool(true)
				}
				return litBool(false)
			}
			if !x.Obj.Sym || !y.Obj.Sym {
				// a fresh allocation differs from everything else
				if !x.Obj.Sym && !y.Obj.Sym {
					return litBool(false)
				}
			}
			n1, n2 := x.Obj.Name+x.Path.K, y.Obj.Name+y.Path.K
			if n2 < n1 {
				n1, n2 = n2, n1
			}
			return Lit{BSym("same(" + n1 + "," + n2 + ")"), true}
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if y.Arr == nil {
				return x.Nil
			}
			if x.Arr == nil {
				return y.Nil
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if y.Obj == nil {
				return x.Nil
			}
			if x.Obj == nil {
				return y.Nil
			}
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if v, k := y.Nil.known(); k && v {
				return x.Nil
			}
			if v, k := x.Nil.known(); k && v {
				return y.Nil
			}
		}
	case Str:
		if y, ok := b.(Str); ok {
			if x.Known && y.Known {
				return litBool(x.S == y.S)
			}
			if valKey(x) == valKey(y) {
				return litBool(true)
			}
			n1, n2 := valString(x), valString(y)
			if x.Known {
				n1, n2 = n2, n1
			}
			if (x.Known && x.S == "") || (y.Known && y.S == "") {
				s := x
				if x.Known {
					s = y
				}
				return LEq(s.Len, c64(0))
			}
			// a symbol already equal to another constant
			if y.Known != x.Known {
				sym, c := x, y
				if x.Known {
					sym, c = y, x
				}
				for _, f := range st.facts {
					if f.Pos && f.T.Op == OpBSym && strings.HasPrefix(f.T.Name, "streq("+valString(sym)+"|") && f.T.Name != "streq("+valString(sym)+"|"+valString(c)+")" {
						return litBool(false)
					}
				}
			} else if n2 < n1 {
				n1, n2 = n2, n1
			}
			return Lit{BSym("streq(" + n1 + "|" + n2 + ")"), true}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if v, k := y.Nil.known(); k && v {
				return x.Nil
			}
			if v, k := x.Nil.known(); k && v {
				return y.Nil
			}
			if x.T != nil && y.T != nil {
				if !types.Identical(x.T, y.T) {
					return litBool(false)
				}
				return m.eqVals(st, x.V, y.V)
			}
			if x.T == nil && y.T == nil && x.ID == y.ID {
				return litBool(true)
			}
			// a concrete repo-made error is never a foreign sentinel
			n1, n2 := valKey(x), valKey(y)
			s1, s2 := valString(x), valString(y)
			if n2 < n1 {
				s1, s2 = s2, s1
			}
			return Lit{BSym("same(" + s1 + "," + s2 + ")"), true}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			var unk []Lit
			for i := range x.F {
				l := m.eqVals(st, x.F[i], y.F[i])
				k, v := st.Eval(l)
				if k && !v {
					return litBool(false)
				}
				if !k {
					unk = append(unk, l)
				}
			}
			if len(unk) == 0 {
				return litBool(true)
			}
			if len(unk) == 1 {
				return unk[0]
			}
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok && len(x.E) == len(y.E) {
			// compare as one big integer when bytes
			var unk []Lit
			for i := range x.E {
				l := m.eqVals(st, x.E[i], y.E[i])
				k, v := st.Eval(l)
				if k && !v {
					return litBool(false)
				}
				if !k {
					unk = append(unk, l)
				}
			}
			if len(unk) == 0 {
				return litBool(true)
			}
			if len(unk) == 1 {
				return unk[0]
			}
		}
	}
	k1, k2 := valKey(a), valKey(b)
	if k1 == k2 {
		return litBool(true)
	}
	s1, s2 := valString(a), valString(b)
	if k2 < k1 {
		s1, s2 = s2, s1
	}
	return Lit{BSym("eq(" + s1 + "," + s2 + ")"), true}
}

func (x *fexec) convert(p *pend, t *ssa.Convert) Val {
	m, st := x.m, p.st
	v := x.val(p, t.X)
	if a, ok := v.(*Term); ok {
		if w, _, ok := intWidth(t.Type()); ok {
			_, sg, _ := intWidth(t.X.Type())
			return Resize(st.simp(a), w, sg)
		}
		if b, ok := under(t.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return Str{ID: "string(" + a.String() + ")", Len: SymRange(64, "len(string("+a.String()+"))", 0, 4)}
		}
		return Opaque{"conv " + a.String()}
	}
	if pt, ok := v.(Ptr); ok {
		return pt // unsafe.Pointer round trips keep the location
	}
	if s, ok := v.(Slice); ok {
		if b, ok := under(t.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s.Arr == nil {
				return strConst("")
			}
			if s.Len.IsConst() && s.Len.C <= 300 {
				buf := make([]byte, 0, 64)
				all := true
				for i := int64(0); i < int64(s.Len.C); i++ {
					c := m.ByteAt(st, s, i)
					if c == nil || !c.IsConst() {
						all = false
						break
					}
					buf = append(buf, byte(c.C))
				}
				if all {
					return strConst(string(buf))
				}
			}
			return Str{ID: "string(" + valString(s) + ")", Len: s.Len, Src: &s, SrcSt: m.snapshot(st, s.Arr)}
		}
	}
	if s, ok := v.(Str); ok {
		if sl, ok := under(t.Type()).(*types.Slice); ok {
			if w, _, ok := intWidth(sl.Elem()); ok && w == 8 {
				return x.strBytes(p.st, t, s)
			}
		}
		if _, ok := under(t.Type()).(*types.Basic); ok {
			return s
		}
	}
	return m.fresh(st, "conv@"+m.pos(t), t.Type(), nil)
}

func (x *fexec) strBytes(st *State, in ssa.Instruction, s Str) Val {
	return x.m.bytesOfStr(st, fmt.Sprintf("sb:%s:%p", x.fr.ctx, in), s)
}

func (m *Machine) bytesOfStr(st *State, key string, s Str) Slice {
	o := m.intern(fmt.Sprintf("%s#%d", key, st.site(key)), "bytes("+valString(s)+")", types.Typ[types.Uint8])
	o.Arr = true
	st.ownMem()
	os := &ObjState{owner: st.id}
	st.mem[o] = os
	if s.Known {
		for i := 0; i < len(s.S); i++ {
			m.Write(st, o, Path{}.index(c64(int64(i))), Const(8, uint64(s.S[i])))
		}
	} else {
		sc := s
		os.layers = append(os.layers, &Layer{reg: &Region{Off: c64(0), N: s.Len, SrcOff: c64(0), Str: &sc}})
	}
	return Slice{Arr: o, Off: c64(0), Len: s.Len, Cap: s.Len, Nil: litBool(false)}
}

// maps ---------------------------------------------------------------------

type lookRes struct {
	st *State
	v  Val
	ok Lit
}

func keyName(v Val) string {
	return valString(v)
}

// mapGet resolves a lookup, forking on undecided key equalities.
func (m *Machine) mapGet(st *State, mv MapV, key Val, mt *types.Map) []lookRes {
	if mv.Obj == nil {
		return []lookRes{{st, zeroVal(mt.Elem()), litBool(false)}}
	}
	os := st.get(mv.Obj)
	var out []lookRes
	cur := st
	if os != nil {
		unk := 0
		for i := len(os.ents) - 1; i >= 0; i-- {
			e := os.ents[i]
			l := m.eqVals(cur, e.Key, key)
			k, v := cur.Eval(l)
			if k && !v {
				continue
			}
			res := func(s *State) lookRes {
				if e.Del {
					return lookRes{s, zeroVal(mt.Elem()), litBool(false)}
				}
				return lookRes{s, e.Val, litBool(true)}
			}
			if k {
				return append(out, res(cur))
			}
			unk++
			if unk > 40 {
				nm := mv.Obj.Name + "[" + keyName(key) + "]"
				return append(out, lookRes{cur, m.symVal(nm, mt.Elem()), Lit{BSym("has " + nm), true}})
			}
			n := cur.fork()
			if n.Assume(l) {
				out = append(out, res(n))
			}
			if !cur.Assume(l.Not()) {
				return out
			}
		}
	}
	if mv.Obj.Sym || (os != nil && os.ver != "") {
		base := mv.Obj.Name
		if os != nil && os.ver != "" {
			base = os.ver
		}
		nm := base + "[" + keyName(key) + "]"
		return append(out, lookRes{cur, m.symVal(nm, mt.Elem()), Lit{BSym("has " + nm), true}})
	}
	return append(out, lookRes{cur, zeroVal(mt.Elem()), litBool(false)})
}

func (x *fexec) lookup(p *pend, t *ssa.Lookup) ([]*State, []Val) {
	m := x.m
	b := x.val(p, t.X)
	if s, ok := b.(Str); ok {
		i, _ := x.idx64(p, t.Index)
		if i == nil || !m.require(p.st, x.fr, t, inBounds(i, s.Len), "bounds", "string index out of range") {
			return nil, nil
		}
		return []*State{p.st}, []Val{m.strByte(p.st, s, i)}
	}
	mt, ok := under(t.X.Type()).(*types.Map)
	mv, ok2 := b.(MapV)
	if !ok || !ok2 {
		return []*State{p.st}, []Val{m.fresh(p.st, "lookup@"+m.pos(t), t.Type(), nil)}
	}
	if m.P.loadEvents != nil && mv.Obj != nil {
		p.st.event(&Event{Kind: "mapget", Name: mv.Obj.Name, Recv: mv, Args: []Val{x.val(p, t.Index)}, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
	}
	var sts []*State
	var vals []Val
	for _, r := range m.mapGet(p.st, mv, x.val(p, t.Index), mt) {
		if t.CommaOk {
			// absent entries read as zero
			k, v := r.st.Eval(r.ok)
			if !k {
				q := r.st.fork()
				q.assumeRaw(r.ok.Not())
				sts = append(sts, q)
				vals = append(vals, TupleV{zeroVal(mt.Elem()), litBool(false)})
				r.st.assumeRaw(r.ok)
				r.ok = litBool(true)
				v = true
			} else {
				r.ok = litBool(v)
			}
			_ = v
			sts = append(sts, r.st)
			vals = append(vals, TupleV{r.v, r.ok})
		} else {
			if k, v := r.st.Eval(r.ok); k && !v {
				r.v = zeroVal(mt.Elem())
			}
			sts = append(sts, r.st)
			vals = append(vals, r.v)
		}
	}
	return sts, vals
}

func (x *fexec) next(p *pend, t *ssa.Next) ([]*State, []Val) {
	m := x.m
	it, ok := p.regs[t.Iter].(rangeIter)
	if !ok || t.IsString {
		return []*State{p.st}, []Val{m.fresh(p.st, "next@"+m.pos(t), t.Type(), nil)}
	}
	mt := under(t.Iter.(*ssa.Range).X.Type()).(*types.Map)
	mv, ok := it.v.(MapV)
	if !ok {
		return []*State{p.st}, []Val{m.fresh(p.st, "next@"+m.pos(t), t.Type(), nil)}
	}
	if m.P.loadEvents != nil && mv.Obj != nil && it.i == 0 {
		p.st.event(&Event{Kind: "maprange", Name: mv.Obj.Name, Recv: mv, Pos: m.pos(t), Site: t, Fn: x.fr.fn})
	}
	p.regs[t.Iter] = rangeIter{it.v, it.i + 1}
	zero := TupleV{litBool(false), zeroVal(mt.Key()), zeroVal(mt.Elem())}
	if mv.Obj == nil {
		return []*State{p.st}, []Val{zero}
	}
	os := p.st.get(mv.Obj)
	if !mv.Obj.Sym && (os == nil || os.ver == "") {
		// known entries
		var live []MapEnt
		if os != nil {
			for i, e := range os.ents {
				over := false
				for _, f := range os.ents[i+1:] {
					if k, v := p.st.Eval(m.eqVals(p.st, e.Key, f.Key)); k && v {
						over = true
					}
				}
				if !over && !e.Del {
					live = append(live, e)
				}
			}
		}
		if it.i >= len(live) {
			return []*State{p.st}, []Val{zero}
		}
		return []*State{p.st}, []Val{TupleV{litBool(true), live[it.i].Key, live[it.i].Val}}
	}
	// symbolic map: an arbitrary element
	n := p.st.site("next:" + mv.Obj.Name + x.fr.ctx)
	base := mv.Obj.Name
	if os != nil && os.ver != "" {
		base = os.ver
	}
	key := m.symVal(fmt.Sprintf("key(%s)'%d", base, n), mt.Key())
	ok2 := Lit{BSym(fmt.Sprintf("more(%s)'%d@%s", base, n, x.fr.fn.Name())), true}
	q := p.st.fork()
	q.assumeRaw(ok2.Not())
	p.st.assumeRaw(ok2)
	var sts []*State
	var vals []Val
	for _, r := range m.mapGet(p.st, mv, key, mt) {
		if k, v := r.st.Eval(r.ok); k && !v {
			continue
		}
		r.st.assumeRaw(r.ok)
		sts = append(sts, r.st)
		vals = append(vals, TupleV{litBool(true), key, r.v})
	}
	sts = append(sts, q)
	vals = append(vals, zero)
	// count as a symbolic loop decision
	for h, body := range x.info.loops {
		if body[t.Block()] {
			l := p.loops[h.Index]
			l.sym++
			p.loops[h.Index] = l
		}
	}
	return sts, vals
}

func (x *fexec) typeAssert(p *pend, t *ssa.TypeAssert) ([]*State, []Val) {
	m, st := x.m, p.st
	iv, ok := x.val(p, t.X).(Iface)
	fail := func(s *State) (*State, Val, bool) {
		if t.CommaOk {
			return s, TupleV{zeroVal(t.AssertedType), litBool(false)}, true
		}
		m.require(s, x.fr, t, litBool(false), "typeassert", "type assertion to "+t.AssertedType.String()+" may fail")
		return s, nil, false
	}
	good := func(v Val) Val {
		if t.CommaOk {
			return TupleV{v, litBool(true)}
		}
		return v
	}
	_, toIface := under(t.AssertedType).(*types.Interface)
	if !ok {
		return []*State{st}, []Val{m.fresh(st, "ta@"+m.pos(t), t.Type(), nil)}
	}
	if iv.T != nil {
		match := false
		var v Val = iv.V
		if toIface {
			match = types.Implements(iv.T, under(t.AssertedType).(*types.Interface))
			v = iv
		} else {
			match = types.Identical(iv.T, t.AssertedType)
		}
		if match {
			return []*State{st}, []Val{good(v)}
		}
		if s, v, ok := fail(st); ok {
			return []*State{s}, []Val{v}
		}
		return nil, nil
	}
	if v, k := iv.Nil.known(); k && v {
		if s, v, ok := fail(st); ok {
			return []*State{s}, []Val{v}
		}
		return nil, nil
	}
	l := Lit{BSym("is(" + iv.ID + "," + t.AssertedType.String() + ")"), true}
	var v Val
	if toIface {
		v = Iface{ID: iv.ID, Nil: litBool(false)}
	} else {
		v = m.symVal(iv.ID+".("+types.TypeString(t.AssertedType, func(p *types.Package) string { return p.Name() })+")", t.AssertedType)
	}
	if t.CommaOk {
		if k, b := st.Eval(l); k {
			if b {
				return []*State{st}, []Val{good(v)}
			}
			_, fv, _ := fail(st)
			return []*State{st}, []Val{fv}
		}
		q := st.fork()
		q.assumeRaw(l.Not())
		st.assumeRaw(l)
		st.Assume(iv.Nil.Not())
		_, fv, _ := fail(q)
		return []*State{st, q}, []Val{good(v), fv}
	}
	if m.AssertTypes != nil && m.AssertTypes(iv.ID, t.AssertedType) {
		st.Assume(l)
	}
	if !m.require(st, x.fr, t, l, "typeassert", "type assertion of "+iv.ID+" to "+t.AssertedType.String()) {
		return nil, nil
	}
	return []*State{st}, []Val{v}
}
