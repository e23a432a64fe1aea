package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A static lockset analysis over the SSA form.  Every function that can be
// entered from outside (exported and not called inside the module, started as
// a goroutine, or called through an interface or a function value) is walked
// with no lock held; calls are followed with the access paths of the arguments
// and the set of locks that are held.  The result is, for every read and write
// of a struct field, package variable or the contents of a map or slice, the
// locks held there, and for every lock operation the locks held already.

// lsVal names a value: path is the access path of the place it is or was
// loaded from, class the declared place (type and field) of that path.
type lsVal struct {
	path, class, root string
	direct            bool // no pointer was followed since root
	fn                *ssa.Function
	bind              []lsVal
	cut               bool // a slice shorter than the one it was taken from
}

type lsState struct {
	held   map[string]lsHeld
	pub    map[string]bool
	links  map[string]bool
	defers map[*ssa.Defer]bool
	cur    map[string]lsVal // what places of fresh objects hold
	dead   bool
}

type lsHeld struct {
	mode  int // 1 shared, 2 exclusive
	class string
	site  token.Pos
}

func (s *lsState) clone() *lsState {
	n := &lsState{map[string]lsHeld{}, map[string]bool{}, map[string]bool{}, map[*ssa.Defer]bool{}, map[string]lsVal{}, s.dead}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k := range s.pub {
		n.pub[k] = true
	}
	for k := range s.links {
		n.links[k] = true
	}
	for k := range s.defers {
		n.defers[k] = true
	}
	for k, v := range s.cur {
		n.cur[k] = v
	}
	return n
}

func (s *lsState) heldKey() string {
	var l []string
	for k, v := range s.held {
		l = append(l, fmt.Sprint(k, "/", v.mode))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// join merges o into s; it reports a change and whether the locks differ.
func (s *lsState) join(o *lsState) (changed, differ bool) {
	for k, v := range s.held {
		w, ok := o.held[k]
		if !ok {
			delete(s.held, k)
			changed = true
			differ = differ || !strings.HasPrefix(k, "once:")
		} else if w.mode < v.mode {
			s.held[k] = w
			changed, differ = true, true
		}
	}
	for k, v := range o.held {
		if w, ok := s.held[k]; (!ok || w.mode != v.mode) && !strings.HasPrefix(k, "once:") {
			differ = true
		}
	}
	for k, v := range s.cur {
		if w, ok := o.cur[k]; !ok || w.path != v.path || w.root != v.root {
			delete(s.cur, k)
			changed = true
		}
	}
	for k := range o.pub {
		if !s.pub[k] {
			s.pub[k], changed = true, true
		}
	}
	for k := range o.links {
		if !s.links[k] {
			s.links[k], changed = true, true
		}
	}
	for k := range o.defers {
		if !s.defers[k] {
			s.defers[k], changed = true, true
		}
	}
	return
}

type lsAccess struct {
	class, path string
	write       bool
	held        map[string]lsHeld
	fn          *ssa.Function
	pos         token.Pos
	in          ssa.Instruction
}

type lsAcquire struct {
	path  string
	h     lsHeld
	held  map[string]lsHeld
	fn    *ssa.Function
	pos   token.Pos
	again bool
}

type lsBlock struct {
	what, path string
	class      string // the field the connection is in
	held       map[string]lsHeld
	fn         *ssa.Function
	pos        token.Pos
}

type lsCall struct {
	in ssa.Instruction
	c  *lsCtx
}

type lsCtx struct {
	id       int
	fn       *ssa.Function
	done     bool
	exit     *lsState
	rets     []lsVal
	acc      []lsAccess
	acq      []lsAcquire
	blk      []lsBlock
	diffs    map[token.Pos]string
	stray    map[token.Pos]string // releases of a lock that is not held
	callees  map[*lsCtx]bool
	calls    []lsCall
	retHeld  []string
	copies   map[token.Pos]string
	entryKey string
}

type lockset struct {
	p         *Program
	singles   map[string]bool // types with one instance
	ctxs      map[string]*lsCtx
	fresh     map[string]bool
	stored    map[string][]lsVal
	rootClass map[string]string
	union     map[string]string
	spawned   []func()
	spawnSeen map[string]bool
	roots     []*lsCtx
	rootNames []string
	taken     map[string][]*ssa.Function // address-taken functions by signature
	called    map[*ssa.Function]bool
	seen      map[*ssa.Function]bool
	impls     map[string][]*ssa.Function
	incompl   map[string]bool
	active    map[string]bool
}

func newLockset(p *Program, singles ...string) *lockset {
	l := &lockset{p: p, singles: map[string]bool{}, ctxs: map[string]*lsCtx{}, fresh: map[string]bool{}, stored: map[string][]lsVal{},
		rootClass: map[string]string{}, union: map[string]string{}, spawnSeen: map[string]bool{}, taken: map[string][]*ssa.Function{},
		called: map[*ssa.Function]bool{}, seen: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}, incompl: map[string]bool{}, active: map[string]bool{}}
	for _, s := range singles {
		l.singles[s] = true
	}
	taken := map[*ssa.Function]bool{}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range l.implsOf(c.Common()) {
						l.called[g] = true
					}
				}
			}
		}
	}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if _, isGo := in.(*ssa.Go); !isGo {
							l.called[g] = true
						}
						callee = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && p.inRepo(g) {
						taken[g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g := mc.Fn.(*ssa.Function); strings.HasSuffix(g.Name(), "$bound") {
						taken[g] = true
					}
				}
			}
		}
	}
	for g := range taken {
		k := sigKey(g.Signature)
		l.taken[k] = append(l.taken[k], g)
	}
	for k := range l.taken {
		fs := l.taken[k]
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	}
	return l
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func (p *Program) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.isRepo(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.isRepo(o.Pkg().Path())
	}
	return false
}

func (l *lockset) find(c string) string {
	for l.union[c] != "" && l.union[c] != c {
		c = l.union[c]
	}
	return c
}

func (l *lockset) unite(a, b string) {
	if a == "" || b == "" {
		return
	}
	a, b = l.find(a), l.find(b)
	if a == b {
		return
	}
	if b < a {
		a, b = b, a
	}
	l.union[b] = a
}

// canon gives values of single-instance types their one name.
func (l *lockset) canon(v lsVal, t types.Type) lsVal {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n := namedOf(pt.Elem()); n != "" && l.singles[n] && !l.fresh[v.root] {
			return lsVal{path: "@" + n, root: "@" + n, fn: v.fn, bind: v.bind}
		}
	}
	return v
}

func namedOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func fieldClass(t types.Type, i int) (string, *types.Var) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	f := st.Field(i)
	n := namedOf(t)
	if n == "" {
		return "", f
	}
	return n + "." + f.Name(), f
}

// Entries runs the analysis from every function that can be entered from
// outside the module.
func (l *lockset) Entries() {
	for _, f := range l.p.all {
		if !l.isEntry(f) {
			continue
		}
		l.root(f, nil, nil)
	}
	drain := func() {
		for len(l.spawned) > 0 {
			g := l.spawned[0]
			l.spawned = l.spawned[1:]
			g()
		}
	}
	drain()
	// function literals that no call in the module was seen to run (handlers
	// put into tables of a library), and what only they use
	for _, lit := range []bool{true, false} {
		for _, f := range l.p.all {
			if l.seen[f] || f.Blocks == nil || !l.p.inRepo(f) || l.reserved(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			if lit != (f.Parent() != nil) || !lit && (f.Object() == nil || !f.Object().Exported()) {
				continue
			}
			var args, bind []lsVal
			for _, q := range f.Params {
				args = append(args, l0canon(l, short(f.String())+":"+q.Name(), q.Type()))
			}
			for _, q := range f.FreeVars {
				bind = append(bind, l0canon(l, short(f.String())+":"+q.Name(), q.Type()))
			}
			l.rootPub(f, args, bind)
			drain()
		}
	}
}

// reserved: methods that are used with the lock of the reservations held.
func (l *lockset) reserved(f *ssa.Function) bool {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return namedOf(t) == "pkg/scsi.SCSISimpleReservationOperator"
	}
	return false
}

func (l *lockset) isEntry(f *ssa.Function) bool {
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil {
		return false
	}
	if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
		return true
	}
	for _, fs := range l.taken {
		for _, g := range fs {
			if g == f {
				return true
			}
		}
	}
	if l.reserved(f) {
		return false
	}
	return f.Object() != nil && f.Object().Exported() && !l.called[f]
}

func (l *lockset) root(f *ssa.Function, args []lsVal, bind []lsVal) {
	if args == nil {
		for i, q := range f.Params {
			n := fmt.Sprintf("%s:%s", short(f.String()), q.Name())
			_ = i
			args = append(args, l.canon(lsVal{path: n, root: n}, q.Type()))
		}
	}
	st := &lsState{map[string]lsHeld{}, map[string]bool{}, map[string]bool{}, map[*ssa.Defer]bool{}, map[string]lsVal{}, false}
	c := l.enter(f, args, bind, st)
	if c != nil {
		l.roots = append(l.roots, c)
		l.rootNames = append(l.rootNames, short(f.String()))
	}
}

func (l *lockset) enter(f *ssa.Function, args, bind []lsVal, st *lsState) *lsCtx {
	k := f.String() + "("
	for _, a := range append(append([]lsVal{}, args...), bind...) {
		k += a.path + "|" + a.class
		if a.direct {
			k += "|d"
		}
		if l.fresh[a.root] && !st.pub[a.root] {
			k += "|fresh"
		}
		if a.fn != nil {
			k += "|" + a.fn.String()
		}
		k += ","
	}
	k += ")" + st.heldKey()
	if c := l.ctxs[k]; c != nil {
		if !c.done {
			return nil // recursion: the outer visit accounts for it
		}
		return c
	}
	if len(l.ctxs) > 60000 {
		l.incompl["more than 60000 contexts"] = true
		return nil
	}
	l.seen[f] = true
	c := &lsCtx{id: len(l.ctxs), fn: f, diffs: map[token.Pos]string{}, stray: map[token.Pos]string{}, callees: map[*lsCtx]bool{}, copies: map[token.Pos]string{}, entryKey: st.heldKey()}
	l.ctxs[k] = c
	w := &lsWalk{l: l, c: c, args: args, bind: bind, val: map[ssa.Value]lsVal{}, under: map[ssa.Value]map[string]lsHeld{}}
	e := st.clone()
	e.cur = map[string]lsVal{}
	w.run(e)
	c.done = true
	return c
}

type lsWalk struct {
	l          *lockset
	c          *lsCtx
	args, bind []lsVal
	val        map[ssa.Value]lsVal
	final      bool
	under      map[ssa.Value]map[string]lsHeld // locks held at a load
	at         ssa.Instruction
}

func (w *lsWalk) run(entry *lsState) {
	f := w.c.fn
	in := map[*ssa.BasicBlock]*lsState{}
	entry.defers = map[*ssa.Defer]bool{}
	in[f.Blocks[0]] = entry
	order := rpo(f)
	for round := 0; round < 12; round++ {
		changed := false
		for _, b := range order {
			s := in[b]
			if s == nil {
				continue
			}
			out := w.block(b, s.clone())
			if out.dead {
				continue
			}
			for _, n := range b.Succs {
				if in[n] == nil {
					in[n] = out.clone()
					changed = true
				} else if ch, _ := in[n].join(out); ch {
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// the final pass records
	w.final = true
	w.c.callees = map[*lsCtx]bool{}
	var exit *lsState
	may := map[string]bool{}
	for _, b := range order {
		s := in[b]
		if s == nil {
			continue
		}
		out := w.block(b, s.clone())
		if out.dead {
			continue
		}
		for _, n := range b.Succs {
			if in[n] != nil {
				if _, d := in[n].clone().join(out); d {
					pos := blockPos(n)
					w.c.diffs[pos] = fmt.Sprintf("{%s} or {%s}", in[n].heldKey(), out.heldKey())
				}
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil {
				exit = out.clone()
			} else {
				exit.join(out)
			}
			k := out.heldKey()
			if !may[k] {
				may[k] = true
				w.c.retHeld = append(w.c.retHeld, k)
			}
			for i, v := range r.Results {
				x := w.value(v)
				if len(w.c.rets) <= i {
					w.c.rets = append(w.c.rets, x)
					continue
				}
				y := w.c.rets[i]
				if k, isC := v.(*ssa.Const); isC && k.Value == nil {
					continue // nil
				}
				if y.path == "" || y.path == "nil" {
					w.c.rets[i] = x
				} else if y.path != x.path {
					n := lsVal{path: fmt.Sprintf("ret:%d:%d", w.c.id, i), root: fmt.Sprintf("ret:%d:%d", w.c.id, i)}
					if y.class == x.class {
						n.class = y.class
					}
					w.c.rets[i] = n
				}
			}
		}
	}
	w.c.exit = exit
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (w *lsWalk) local(v ssa.Value) lsVal {
	n := fmt.Sprintf("c%d:%s", w.c.id, v.Name())
	return lsVal{path: n, root: n}
}

func (w *lsWalk) value(v ssa.Value) lsVal {
	r := w.value0(v)
	return w.l.canon(r, v.Type())
}

func (w *lsWalk) value0(v ssa.Value) lsVal {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return lsVal{path: "nil", root: "nil"}
		}
		return lsVal{path: v.Value.ExactString(), root: "const"}
	case *ssa.Global:
		if v.Pkg != nil && w.l.p.isRepo(v.Pkg.Pkg.Path()) {
			n := short(v.Pkg.Pkg.Path()) + "." + v.Name()
			return lsVal{path: "g:" + n, root: "g:" + n, class: n, direct: true}
		}
		return lsVal{path: "g:" + v.String(), root: "g:" + v.String()}
	case *ssa.Function:
		return lsVal{path: "fn:" + v.String(), root: "fn", fn: v}
	case *ssa.Parameter:
		for i, q := range w.c.fn.Params {
			if q == v && i < len(w.args) {
				return w.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, q := range w.c.fn.FreeVars {
			if q == v && i < len(w.bind) {
				return w.bind[i]
			}
		}
	}
	if x, ok := w.val[v]; ok {
		return x
	}
	return w.local(v)
}

// isFresh tells whether a place belongs to an object no one else has seen.
func (w *lsWalk) isFresh(v lsVal, st *lsState) bool {
	return v.direct && w.l.fresh[v.root] && !st.pub[v.root]
}

func (w *lsWalk) publish(root string, st *lsState) {
	if !w.l.fresh[root] || st.pub[root] {
		return
	}
	st.pub[root] = true
	for k := range st.links {
		if i := strings.Index(k, ">"); k[:i] == root {
			w.publish(k[i+1:], st)
		}
	}
}

func (w *lsWalk) access(v lsVal, class string, write bool, st *lsState, pos token.Pos) {
	if !pos.IsValid() && w.at != nil {
		pos = w.at.Pos()
	}
	if !w.final || w.isFresh(v, st) {
		return
	}
	if class == "" {
		return
	}
	h := map[string]lsHeld{}
	for k, x := range st.held {
		h[k] = x
	}
	w.c.acc = append(w.c.acc, lsAccess{class: class, path: v.path, write: write, held: h, fn: w.c.fn, pos: pos, in: w.at})
}

// contents is the class of what a map or slice holds.
func (w *lsWalk) contents(v lsVal) string {
	c := v.class
	if c == "" {
		c = w.l.rootClass[v.root]
	}
	if c == "" {
		return ""
	}
	return c + "[]"
}

func (w *lsWalk) store(addr, val lsVal, t types.Type, st *lsState, pos token.Pos) {
	w.access(addr, addr.class, true, st, pos)
	if w.l.fresh[addr.root] && addr.direct {
		for k := range st.cur {
			if strings.HasPrefix(k, addr.path+".") || strings.HasPrefix(k, addr.path+"[") {
				delete(st.cur, k)
			}
		}
		w.keep(addr.path, val, t, st, 0)
	}
	if w.l.fresh[val.root] {
		if w.isFresh(addr, st) {
			st.links[addr.root+">"+val.root] = true
		} else {
			w.publish(val.root, st)
		}
	}
	for _, b := range val.bind {
		if !w.isFresh(addr, st) {
			w.publish(b.root, st)
		}
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		if val.class != "" && addr.class != "" && val.class != addr.class {
			w.l.unite(val.class+"[]", addr.class+"[]")
		}
		if w.l.fresh[val.root] && addr.class != "" {
			w.l.rootClass[val.root] = addr.class
		}
	}
}

// keep notes what a place of a fresh object holds; a struct is held field by field.
func (w *lsWalk) keep(path string, val lsVal, t types.Type, st *lsState, d int) {
	if n, ok := t.Underlying().(*types.Struct); ok && d < 4 {
		if val.path == "nil" || strings.HasPrefix(val.root, "const") {
			return
		}
		for i := 0; i < n.NumFields(); i++ {
			cl, f := fieldClass(t, i)
			v := lsVal{path: val.path + "." + f.Name(), root: val.root, class: cl, direct: val.direct}
			if _, ok := f.Type().Underlying().(*types.Struct); !ok {
				switch f.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
				default:
					continue
				}
				v = w.read(v, f.Type(), st)
			}
			w.keep(path+"."+f.Name(), v, f.Type(), st, d+1)
		}
		return
	}
	old := w.l.stored[path]
	dup := false
	for _, o := range old {
		if o.path == val.path && o.fn == val.fn {
			dup = true
		}
	}
	if !dup {
		w.l.stored[path] = append(old, val)
	}
	if !strings.Contains(path, "[") {
		st.cur[path] = val
	}
}

// loadStruct records the read of every field of a struct that is copied.
func (w *lsWalk) loadStruct(addr lsVal, t types.Type, st *lsState, pos token.Pos, d int) {
	n, ok := t.Underlying().(*types.Struct)
	if !ok || d > 3 {
		return
	}
	for i := 0; i < n.NumFields(); i++ {
		cl, f := fieldClass(t, i)
		fa := lsVal{path: addr.path + "." + f.Name(), root: addr.root, direct: addr.direct, class: cl}
		w.access(fa, cl, false, st, pos)
		w.loadStruct(fa, f.Type(), st, pos, d+1)
	}
}

func isLockPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasPrefix(namedOf(pt.Elem()), "sync.")
}

func hasLock(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch n := namedOf(t); n {
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup":
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem(), d+1)
	}
	return false
}

func (w *lsWalk) block(b *ssa.BasicBlock, st *lsState) *lsState {
	for _, in := range b.Instrs {
		w.at = in
		w.instr(in, st)
		if st.dead {
			break
		}
	}
	return st
}

func (w *lsWalk) set(v ssa.Value, x lsVal) { w.val[v] = x }

func (w *lsWalk) newFresh(v ssa.Value) lsVal {
	x := w.local(v)
	x.direct = true
	w.l.fresh[x.root] = true
	return x
}

// taken: a map or slice that was read from a place and replaced there while one
// lock was held throughout belongs to the one who took it.
func (w *lsWalk) taken(addr lsVal, st *lsState) {
	for v, h := range w.under {
		x := w.val[v]
		if x.path != addr.path || x.class != addr.class || x.class == "" {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
		default:
			continue
		}
		for k, y := range h {
			if z, ok := st.held[k]; ok && z.mode == 2 && y.mode == 2 && z.site == y.site {
				x.class = ""
				x.path = "taken:" + x.path
				w.val[v] = x
			}
		}
	}
}

// read gives what a place holds.
func (w *lsWalk) read(a lsVal, t types.Type, st *lsState) lsVal {
	if w.l.fresh[a.root] && a.direct && !isLockPtr(t) {
		s := w.l.stored[a.path]
		x, ok := st.cur[a.path]
		if !ok && len(s) == 1 {
			x, ok = s[0], true
		}
		if ok {
			if _, isI := t.Underlying().(*types.Interface); isI && x.class == "" {
				x.class = a.class
			}
			if x.class == "" {
				// what was stored keeps the name of its place
				switch t.Underlying().(type) {
				case *types.Map, *types.Slice:
					if !w.l.fresh[x.root] {
						x.class = a.class
					}
				}
			}
			return x
		}
		if len(s) == 0 && !st.pub[a.root] && (!strings.Contains(a.path, "[") || w.untouched(a.root)) {
			// nothing in the module put it there: it came from a library that
			// filled the object, and is as new as the object
			n := "ext:" + a.path
			w.l.fresh[n] = true
			st.links[a.root+">"+n] = true
			return lsVal{path: n, root: n, direct: true}
		}
	}
	return lsVal{path: a.path, root: a.root + "*", class: a.class}
}

// untouched: the module stored nothing in what a library filled.
func (w *lsWalk) untouched(root string) bool {
	if !strings.HasPrefix(root, "ext:") {
		return false
	}
	for k := range w.l.stored {
		if strings.HasPrefix(k, root) {
			return false
		}
	}
	return true
}

// renew: what an allocation made in an earlier round is another object.
func (w *lsWalk) renew(v ssa.Value, st *lsState) {
	r := w.local(v).root
	delete(st.pub, r)
	for k := range st.links {
		if strings.HasPrefix(k, r+">") {
			delete(st.links, k)
		}
	}
}

func (w *lsWalk) instr(in ssa.Instruction, st *lsState) {
	switch in := in.(type) {
	case *ssa.Alloc:
		w.set(in, w.newFresh(in))
		w.renew(in, st)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		w.set(in.(ssa.Value), w.newFresh(in.(ssa.Value)))
		w.renew(in.(ssa.Value), st)
	case *ssa.MakeClosure:
		x := w.local(in)
		x.fn = in.Fn.(*ssa.Function)
		for _, q := range in.Bindings {
			x.bind = append(x.bind, w.value(q))
		}
		w.set(in, x)
	case *ssa.FieldAddr:
		x := w.value(in.X)
		cl, f := fieldClass(in.X.Type(), in.Field)
		direct := x.direct
		if w.l.fresh[x.root] && x.path == x.root {
			direct = true
		}
		w.set(in, lsVal{path: x.path + "." + f.Name(), root: x.root, class: cl, direct: direct})
	case *ssa.Field:
		x := w.value(in.X)
		cl, f := fieldClass(in.X.Type(), in.Field)
		w.set(in, lsVal{path: x.path + "." + f.Name(), root: x.root, class: cl})
	case *ssa.IndexAddr:
		x := w.value(in.X)
		cl := w.contents(x)
		w.set(in, lsVal{path: x.path + "[" + w.key(in.Index) + "]", root: x.root, class: cl, direct: x.direct})
	case *ssa.Index:
		x := w.value(in.X)
		w.set(in, lsVal{path: x.path + "[" + w.key(in.Index) + "]", root: x.root, class: w.contents(x)})
	case *ssa.Lookup:
		x := w.value(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			cl := w.contents(x)
			w.access(x, cl, false, st, in.Pos())
			w.set(in, lsVal{path: x.path + "[" + w.key(in.Index) + "]", root: x.root + "[]", class: cl})
		}
	case *ssa.Range:
		w.set(in, w.value(in.X))
	case *ssa.Next:
		x := w.value(in.Iter)
		if !in.IsString {
			cl := w.contents(x)
			w.access(x, cl, false, st, in.Pos())
			w.set(in, lsVal{path: x.path + "[" + in.Name() + "]", root: x.root + "[]", class: cl})
		}
	case *ssa.Extract:
		x := w.value(in.Tuple)
		if c, ok := in.Tuple.(*ssa.Call); ok {
			if t, ok := w.val[c]; ok && len(t.bind) > in.Index && t.root == "tuple" {
				w.set(in, t.bind[in.Index])
				return
			}
			w.set(in, w.local(in))
			return
		}
		switch in.Tuple.(type) {
		case *ssa.Lookup, *ssa.TypeAssert:
			if in.Index != 0 {
				x = w.local(in)
			}
		case *ssa.Next:
			if in.Index != 2 {
				x = w.local(in)
			}
		default:
			x = w.local(in)
		}
		w.set(in, x)
	case *ssa.UnOp:
		if in.Op != token.MUL {
			if in.Op == token.ARROW {
				w.blocking("a channel receive", lsVal{}, st, in.Pos())
			}
			w.set(in, w.local(in))
			return
		}
		a := w.value(in.X)
		w.access(a, a.class, false, st, in.Pos())
		t := in.Type()
		if _, ok := t.Underlying().(*types.Struct); ok {
			w.loadStruct(a, t, st, in.Pos(), 0)
			if hasLock(t, 0) && w.final && !w.isFresh(a, st) {
				w.c.copies[in.Pos()] = types.TypeString(t, func(p *types.Package) string { return p.Name() })
			}
			w.set(in, lsVal{path: a.path, root: a.root, class: a.class, direct: a.direct})
			return
		}
		w.set(in, w.read(a, t, st))
		w.under[in] = map[string]lsHeld{}
		for k, x := range st.held {
			w.under[in][k] = x
		}
	case *ssa.Store:
		addr, val := w.value(in.Addr), w.value(in.Val)
		w.store(addr, val, in.Val.Type(), st, in.Pos())
		if val.path == "nil" || w.l.fresh[val.root] {
			w.taken(addr, st)
		}
	case *ssa.MapUpdate:
		x := w.value(in.Map)
		w.access(x, w.contents(x), true, st, in.Pos())
		v := w.value(in.Value)
		if w.l.fresh[v.root] {
			if w.isFresh(x, st) {
				st.links[x.root+">"+v.root] = true
			} else {
				w.publish(v.root, st)
			}
		}
		switch in.Value.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			if c := w.contents(x); v.class != "" && c != "" {
				w.l.unite(v.class+"[]", c+"[]")
			} else if w.l.fresh[v.root] && c != "" {
				w.l.rootClass[v.root] = c
			}
		}
	case *ssa.Slice:
		x := w.value(in.X)
		if in.High != nil {
			x.cut = true
		}
		w.set(in, x)
	case *ssa.ChangeType:
		w.set(in, w.value(in.X))
	case *ssa.Convert:
		w.set(in, w.value(in.X))
	case *ssa.ChangeInterface:
		w.set(in, w.value(in.X))
	case *ssa.MakeInterface:
		w.set(in, w.value(in.X))
	case *ssa.TypeAssert:
		w.set(in, w.value(in.X))
	case *ssa.Phi:
		var x lsVal
		same, cls := true, true
		n := 0
		for _, e := range in.Edges {
			if e == in {
				continue
			}
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			y := w.value(e)
			if n == 0 {
				x = y
			} else {
				if y.path != x.path {
					same = false
				}
				if y.class != x.class {
					cls = false
				}
			}
			n++
		}
		if n == 0 || !same {
			y := w.local(in)
			if n > 0 && cls {
				y.class = x.class
			}
			x = y
		}
		w.set(in, x)
	case *ssa.Send:
		w.blocking("a channel send", lsVal{}, st, in.Pos())
	case *ssa.Select:
		if in.Blocking {
			w.blocking("a select", lsVal{}, st, in.Pos())
		}
	case *ssa.Go:
		w.spawn(in.Common(), st)
	case *ssa.Defer:
		st.defers[in] = true
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		for d := range st.defers {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
		for _, d := range ds {
			w.call(d.Common(), nil, st, d.Pos())
		}
	case *ssa.Call:
		x := w.call(in.Common(), in, st, in.Pos())
		w.set(in, x)
	case *ssa.Panic:
		st.dead = true
	case ssa.Value:
		w.set(in, w.local(in))
	}
}

func (w *lsWalk) key(v ssa.Value) string {
	x := w.value(v)
	return x.path
}

func (w *lsWalk) blocking(what string, v lsVal, st *lsState, pos token.Pos) {
	if !w.final {
		return
	}
	h := map[string]lsHeld{}
	for k, x := range st.held {
		h[k] = x
	}
	w.c.blk = append(w.c.blk, lsBlock{what, v.path, v.class, h, w.c.fn, pos})
}

func (w *lsWalk) spawn(cc *ssa.CallCommon, st *lsState) {
	var args []lsVal
	for _, a := range cc.Args {
		x := w.value(a)
		w.publish(x.root, st)
		for _, b := range x.bind {
			w.publish(b.root, st)
		}
		args = append(args, x)
	}
	for _, tg := range w.targets(cc) {
		for _, b := range tg.bind {
			w.publish(b.root, st)
		}
		a := args
		if cc.IsInvoke() {
			a = append([]lsVal{w.value(cc.Value)}, args...)
		}
		f, bind := tg.fn, tg.bind
		k := f.String()
		for _, x := range append(append([]lsVal{}, a...), bind...) {
			k += "|" + x.path
		}
		if w.l.spawnSeen[k] {
			continue
		}
		w.l.spawnSeen[k] = true
		a2 := append([]lsVal{}, a...)
		// a goroutine sees nothing of its own
		w.l.spawned = append(w.l.spawned, func() { w.l.rootPub(f, a2, bind) })
	}
}

// rootPub starts a goroutine: everything it is given is shared.
func (l *lockset) rootPub(f *ssa.Function, args, bind []lsVal) {
	st := &lsState{map[string]lsHeld{}, map[string]bool{}, map[string]bool{}, map[*ssa.Defer]bool{}, map[string]lsVal{}, false}
	for _, a := range append(append([]lsVal{}, args...), bind...) {
		st.pub[a.root] = true
	}
	if c := l.enter(f, args, bind, st); c != nil {
		l.roots = append(l.roots, c)
		l.rootNames = append(l.rootNames, "go "+short(f.String()))
	}
}

func (w *lsWalk) targets(cc *ssa.CallCommon) []lsVal {
	if cc.IsInvoke() {
		var out []lsVal
		for _, f := range w.l.implsOf(cc) {
			out = append(out, lsVal{fn: f})
		}
		return out
	}
	if f := cc.StaticCallee(); f != nil {
		x := w.value(cc.Value)
		return []lsVal{{fn: f, bind: x.bind}}
	}
	x := w.value(cc.Value)
	if x.fn != nil {
		return []lsVal{x}
	}
	var out []lsVal
	if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
		for _, f := range w.l.taken[sigKey(s)] {
			if len(f.FreeVars) > 0 {
				continue
			}
			out = append(out, lsVal{fn: f})
		}
	}
	return out
}

func (l *lockset) implsOf(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if n := namedOf(cc.Value.Type()); n == "" || !strings.Contains(n, "pkg/") {
		return nil
	}
	k := cc.Value.Type().String() + "." + cc.Method.Name()
	if fs, ok := l.impls[k]; ok {
		return fs
	}
	var out []*ssa.Function
	for _, path := range sortedKeys(l.p.SSA) {
		sp := l.p.SSA[path]
		if !l.p.isRepo(path) {
			continue
		}
		for _, nm := range sortedKeys(sp.Members) {
			t, ok := sp.Members[nm].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(tt, it) {
					continue
				}
				sel := l.p.Prog.MethodSets.MethodSet(tt).Lookup(cc.Method.Pkg(), cc.Method.Name())
				if sel == nil {
					continue
				}
				if o, ok := sel.Obj().(*types.Func); ok {
					if f := l.p.Prog.FuncValue(o); f != nil && f.Blocks != nil && l.p.inRepo(f) {
						dup := false
						for _, g := range out {
							dup = dup || g == f
						}
						if !dup {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	l.impls[k] = out
	return out
}

func (w *lsWalk) call(cc *ssa.CallCommon, site *ssa.Call, st *lsState, pos token.Pos) lsVal {
	res := lsVal{}
	if site != nil {
		res = w.local(site)
	}
	var args []lsVal
	for _, a := range cc.Args {
		args = append(args, w.value(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			w.access(args[0], w.contents(args[0]), true, st, pos)
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				w.access(args[0], w.contents(args[0]), false, st, pos)
			}
		case "append":
			w.access(args[0], w.contents(args[0]), args[0].cut, st, pos)
			if len(args) > 1 {
				if !w.isFresh(args[1], st) {
					w.access(args[1], w.contents(args[1]), false, st, pos)
				}
				// what is appended is reachable from the result
				if w.l.fresh[args[1].root] {
					if w.isFresh(args[0], st) {
						st.links[args[0].root+">"+args[1].root] = true
					} else {
						for k := range st.links {
							if i := strings.Index(k, ">"); k[:i] == args[1].root {
								w.publish(k[i+1:], st)
							}
						}
					}
				}
			}
			x := args[0]
			x.cut = false
			if x.path == "nil" {
				x = w.newFresh(site)
			}
			return x
		case "copy":
			w.access(args[0], w.contents(args[0]), true, st, pos)
			w.access(args[1], w.contents(args[1]), false, st, pos)
		case "close":
		}
		return res
	}
	if f := cc.StaticCallee(); f != nil && w.l.lockOp(w, f, args, st, pos) {
		return res
	}
	// a method value such as mu.Unlock, kept or returned before it is called
	if !cc.IsInvoke() {
		if x := w.value(cc.Value); x.fn != nil && strings.HasSuffix(x.fn.Name(), "$bound") && len(x.bind) == 1 {
			if m, ok := x.fn.Object().(*types.Func); ok {
				if g := x.fn.Prog.FuncValue(m); g != nil && w.l.lockOp(w, g, x.bind, st, pos) {
					return res
				}
			}
		}
	}
	if f := cc.StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" && len(args) == 2 {
		k := "once:" + args[0].path
		n := st.clone()
		n.held[k] = lsHeld{2, args[0].class, pos}
		for _, b := range args[1].bind {
			w.publish(b.root, n)
		}
		if args[1].fn != nil && args[1].fn.Blocks != nil {
			if c := w.l.enter(args[1].fn, nil, args[1].bind, n); c != nil {
				w.c.callees[c] = true
			}
		}
		st.held[k] = lsHeld{1, args[0].class, pos}
		return res
	}
	tgs := w.targets(cc)
	known := false
	full := args
	if cc.IsInvoke() {
		full = append([]lsVal{w.value(cc.Value)}, args...)
	}
	var outs []*lsCtx
	for _, tg := range tgs {
		if tg.fn == nil || tg.fn.Blocks == nil || !w.l.p.inRepo(tg.fn) {
			continue
		}
		known = true
		fa := full
		if len(fa) == len(tg.fn.Params) {
			fa = append([]lsVal{}, fa...)
			for i := range fa {
				fa[i] = w.l.canon(fa[i], tg.fn.Params[i].Type())
			}
		}
		c := w.l.enter(tg.fn, fa, tg.bind, st)
		if c == nil {
			continue
		}
		if w.final {
			w.c.callees[c] = true
			w.c.calls = append(w.c.calls, lsCall{w.at, c})
		}
		outs = append(outs, c)
	}
	for k := range st.cur {
		if known {
			delete(st.cur, k)
			continue
		}
		for _, a := range full {
			if k == a.root || strings.HasPrefix(k, a.root+".") {
				delete(st.cur, k)
			}
			for _, b := range a.bind {
				if k == b.root || strings.HasPrefix(k, b.root+".") {
					delete(st.cur, k)
				}
			}
		}
	}
	if known {
		var merged *lsState
		for _, c := range outs {
			if c.exit == nil {
				continue
			}
			if merged == nil {
				merged = c.exit.clone()
			} else {
				merged.join(c.exit)
			}
		}
		if merged != nil {
			st.held, st.pub, st.links = merged.held, merged.pub, merged.links
		} else if len(outs) > 0 {
			st.dead = true
		}
		if len(outs) == 1 {
			rs := outs[0].rets
			if len(rs) == 1 {
				return rs[0]
			}
			return lsVal{path: res.path, root: "tuple", bind: rs}
		}
		return res
	}
	// outside the module
	name := ""
	if f := cc.StaticCallee(); f != nil {
		name = f.String()
	} else if cc.IsInvoke() {
		name = "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast", "io.Copy":
		w.blocking(name, args[0], st, pos)
	case "(net.Conn).Read", "(net.Conn).Write", "(net.Listener).Accept", "(*net.TCPConn).Read", "(*net.TCPConn).Write", "(io.Reader).Read", "(io.Writer).Write":
		w.blocking(name, full[0], st, pos)
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		w.blocking(name, lsVal{}, st, pos)
	case "os.Exit", "log.Fatal", "log.Fatalf", "github.com/sirupsen/logrus.Fatal", "github.com/sirupsen/logrus.Fatalf":
		st.dead = true
	}
	for i, a := range args {
		write := strings.HasPrefix(name, "sort.")
		switch cc.Args[i].Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface:
			if a.class != "" {
				w.access(a, w.contents(a), write, st, pos)
			}
		}
		// a function handed to the outside may run at any time
		if a.fn != nil && a.fn.Blocks != nil && w.l.p.inRepo(a.fn) {
			for _, b := range a.bind {
				w.publish(b.root, st)
			}
			k := "ext|" + a.fn.String()
			for _, b := range a.bind {
				k += "|" + b.path
			}
			if !w.l.spawnSeen[k] {
				w.l.spawnSeen[k] = true
				f, bind := a.fn, a.bind
				w.l.spawned = append(w.l.spawned, func() {
					var as []lsVal
					for _, q := range f.Params {
						n := short(f.String()) + ":" + q.Name()
						as = append(as, l0canon(w.l, n, q.Type()))
					}
					w.l.rootPub(f, as, bind)
				})
			}
		}
	}
	return res
}

func l0canon(l *lockset, n string, t types.Type) lsVal {
	return l.canon(lsVal{path: n, root: n}, t)
}

// lockOp carries out the operations of sync's locks.
func (l *lockset) lockOp(w *lsWalk, f *ssa.Function, args []lsVal, st *lsState, pos token.Pos) bool {
	mode, acquire := 0, false
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		mode, acquire = 2, true
	case "(*sync.RWMutex).RLock":
		mode, acquire = 1, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		mode = 2
	case "(*sync.RWMutex).RUnlock":
		mode = 1
	default:
		return false
	}
	a := args[0]
	if acquire {
		h := lsHeld{mode, a.class, pos}
		if w.final {
			held := map[string]lsHeld{}
			for k, x := range st.held {
				held[k] = x
			}
			_, again := st.held[a.path]
			w.c.acq = append(w.c.acq, lsAcquire{a.path, h, held, w.c.fn, pos, again})
		}
		st.held[a.path] = h
		return true
	}
	if h, ok := st.held[a.path]; !ok || h.mode != mode {
		if w.final {
			w.c.stray[pos] = a.path
		}
	}
	delete(st.held, a.path)
	return true
}

// Reached lists the contexts the entries reach.
func (l *lockset) Reached() []*lsCtx {
	seen := map[*lsCtx]bool{}
	var out []*lsCtx
	var visit func(c *lsCtx)
	visit = func(c *lsCtx) {
		if seen[c] {
			return
		}
		seen[c] = true
		out = append(out, c)
		var cs []*lsCtx
		for d := range c.callees {
			cs = append(cs, d)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, d := range cs {
			visit(d)
		}
	}
	for _, c := range l.roots {
		visit(c)
	}
	return out
}

// guards lists the locks that protect an access, in a form that can be
// compared between accesses: a lock of which there is one, or a lock of the
// object (or an object that contains it).
func (a *lsAccess) guards() map[string]bool {
	g := map[string]bool{}
	for k, h := range a.held {
		if a.write && h.mode < 2 {
			continue
		}
		if strings.HasPrefix(k, "once:") {
			g["once "+h.class] = true
			continue
		}
		if (strings.HasPrefix(k, "@") || strings.HasPrefix(k, "g:")) && !strings.Contains(k, "[") {
			g[strings.TrimPrefix(strings.TrimPrefix(k, "g:"), "@")] = true
		}
		if i := strings.LastIndex(k, "."); i > 0 && strings.HasPrefix(a.path, k[:i]+".") {
			g["its own "+h.class] = true
		}
	}
	return g
}
