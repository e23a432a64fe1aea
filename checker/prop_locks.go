package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Types of which a process has one.
var lsSingles = []string{"pkg/scsi.SCSITargetService", "pkg/port/iscsit.ISCSITargetDriver", "pkg/scsi.SCSILUMap", "pkg/scsi.SCSISimpleReservationOperator"}

// The tables that connections and management calls share.
var lsTables = []string{
	"pkg/scsi.SCSITargetService.Targets", "pkg/scsi.SCSILUMap.", "pkg/scsi.SCSILUReservation.", "pkg/scsi.SCSISimpleReservationOperator.",
	"pkg/api.SCSIReservation.", "pkg/scsi.onePROperator", "pkg/api.SCSITarget.ITNexus", "pkg/api.SCSITarget.Devices[]",
	"pkg/port/iscsit.ISCSITargetDriver.iSCSITargets", "pkg/port/iscsit.ISCSITargetDriver.TSIHPool", "pkg/port/iscsit.ISCSITargetDriver.TargetStats", "pkg/scsi.Stats.",
	"pkg/port/iscsit.ISCSITarget.Sessions", "pkg/port/iscsit.ISCSITarget.TPGTs", "pkg/port/iscsit.iSCSITPGT.Portals",
	"pkg/port/iscsit.ISCSISession.Connections", "pkg/port/iscsit.ISCSISession.PendingTasks", "pkg/port/iscsit.CurrentHostIP",
	"pkg/apiserver.RouterSwapper.", "pkg/apiserver.routerSwapper.",
}

func lsTable(class string) bool {
	for _, t := range lsTables {
		if strings.HasPrefix(class, t) && !strings.HasSuffix(class, "Mutex") && !strings.HasSuffix(class, ".mutex") {
			return true
		}
	}
	return false
}

func (c *Ctx) lockset(p *Program) (*lockset, []*lsCtx) {
	l := newLockset(p, lsSingles...)
	l.Entries()
	cs := l.Reached()
	seen := map[*ssa.Function]bool{}
	for _, x := range cs {
		if !seen[x.fn] {
			seen[x.fn] = true
			c.funcs[short(x.fn.String())] = true
		}
	}
	c.Count("contexts", len(cs))
	c.Count("entries", len(l.roots))
	var inc []string
	for k := range l.incompl {
		inc = append(inc, k)
	}
	c.Ob("analysis-complete", "lockset", len(inc) == 0, func() string { return strings.Join(inc, "; ") })
	return l, cs
}

func posOf(p *Program, a lsAccess) string {
	q := p.Fset.Position(a.pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.Root+"/"), q.Line)
}

func heldNames(h map[string]lsHeld) string {
	var l []string
	for k, v := range h {
		if strings.HasPrefix(k, "once:") {
			continue
		}
		n := short(v.class)
		if n == "" {
			n = k
		}
		if v.mode == 1 {
			n += " (shared)"
		}
		l = append(l, n)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "no lock"
	}
	return strings.Join(l, ", ")
}

func init() {
	register(&Check{ID: "L01", Rule: locksRule, Floor: 100, Run: checkTables})
	register(&Check{ID: "L02", Rule: orderRule, Floor: 100, Run: checkOrder})
}

const lsMethod = "Static lockset analysis over the SSA form of every package of the module.  Every function that can be entered from outside (exported and not called inside the module, " +
	"started as a goroutine, called through a function value or handed to the outside) is walked with no lock held, calls are followed (interface and function-value calls to every " +
	"possible target in the module) with the access paths of their arguments and the locks that are held, so that a lock counts only for the object it belongs to.  Objects no one else has seen are left out until they are published.  "

const locksRule = lsMethod + "For every table shared by connections and management calls there has to be one lock that is held at every access, exclusively at every change; a struct with a lock in it is never copied " +
	"once it is shared; and a change is never decided by what was read in an earlier critical section of the same lock."

const orderRule = lsMethod + "Every path out of a function leaves the locks as they were (or is a helper whose callers balance them); where paths join the same locks are held; nothing is released that is not held; " +
	"no lock is taken again by its holder; the order in which locks are taken is acyclic; and no lock is held while waiting for an initiator, other than one that belongs to the connection itself."

func checkTables(c *Ctx) {
	p := c.Program("", false)
	l, cs := c.lockset(p)
	by := map[string][]lsAccess{}
	table := map[string]bool{}
	for _, x := range cs {
		for _, a := range x.acc {
			k := l.find(a.class)
			by[k] = append(by[k], a)
			if lsTable(a.class) {
				table[k] = true
			}
		}
	}
	writes := 0
	for _, k := range sortedKeys(table) {
		wr := false
		cnt := map[string]int{}
		for _, a := range by[k] {
			wr = wr || a.write
			for g := range a.guards() {
				if !strings.HasPrefix(g, "once ") || strings.Contains(k, "once") {
					cnt[g]++
				}
			}
		}
		best := ""
		for _, g := range sortedKeys(cnt) {
			if best == "" || cnt[g] > cnt[best] || cnt[g] == cnt[best] && strings.HasPrefix(g, "its own") && !strings.HasPrefix(best, "its own") {
				best = g
			}
		}
		if wr {
			writes++
		}
		for _, a := range by[k] {
			ok := !wr || best != "" && a.guards()[best]
			kind := "read"
			if a.write {
				kind = "changed"
			}
			a := a
			c.Ob("guarded", fmt.Sprintf("%s %s in %s", short(k), kind, short(a.fn.String())), ok, func() string {
				return fmt.Sprintf("%s: %s is %s while holding %s; everywhere else %s is held (%d of %d accesses)", posOf(p, a), short(k), kind, heldNames(a.held), best, cnt[best], len(by[k]))
			})
		}
	}
	c.Count("tables", len(table))
	c.Count("tables_that_change", writes)
	for _, x := range cs {
		for pos, t := range x.copies {
			q := p.Fset.Position(pos)
			x := x
			c.Ob("lock-copy", short(x.fn.String())+" copies "+t, false, func() string {
				return fmt.Sprintf("%s:%d: a shared %s is copied together with its lock", strings.TrimPrefix(q.Filename, p.Root+"/"), q.Line, t)
			})
		}
	}
	c.Ob("lock-copy", "struct copies", true, nil)
	c.sections(p, l, cs)
}

// sections looks for a change that is decided by what was read in an earlier
// critical section, where the later section is the function's own.
func (c *Ctx) sections(p *Program, l *lockset, cs []*lsCtx) {
	type occ struct {
		a  lsAccess
		in ssa.Instruction // in the function looked at
	}
	memo := map[*lsCtx][]lsAccess{}
	var all func(x *lsCtx, d int) []lsAccess
	all = func(x *lsCtx, d int) []lsAccess {
		if r, ok := memo[x]; ok {
			return r
		}
		memo[x] = nil
		var out []lsAccess
		for _, a := range x.acc {
			if lsTable(a.class) {
				out = append(out, a)
			}
		}
		if d < 3 {
			for _, q := range x.calls {
				out = append(out, all(q.c, d+1)...)
			}
		}
		memo[x] = out
		return out
	}
	seen := map[string]bool{}
	for _, x := range cs {
		locks := false
		for _, a := range x.acq {
			locks = locks || a.fn == x.fn
		}
		if !locks || x.fn.Syntax() == nil {
			continue
		}
		inside := func(q token.Pos) bool { return x.fn.Syntax().Pos() <= q && q <= x.fn.Syntax().End() }
		var os []occ
		for _, a := range x.acc {
			if lsTable(a.class) {
				os = append(os, occ{a, a.in})
			}
		}
		for _, q := range x.calls {
			for _, a := range all(q.c, 0) {
				os = append(os, occ{a, q.in})
			}
		}
		// what was read in a section that also changed the table is decided
		done := func(in ssa.Instruction, class string, site token.Pos) bool {
			for _, o := range os {
				if o.in == in && o.a.write && o.a.class == class {
					for _, h := range o.a.held {
						if h.site == site {
							return true
						}
					}
				}
			}
			return false
		}
		for _, w := range os {
			if !w.a.write {
				continue
			}
			name := fmt.Sprintf("%s changed in %s, seen from %s", short(w.a.class), short(w.a.fn.String()), short(x.fn.String()))
			if !seen[name] {
				seen[name] = true
				c.Ob("one-section", name, true, nil)
			}
			for lk, h := range w.a.held {
				if strings.HasPrefix(lk, "once:") || !inside(h.site) {
					continue
				}
				again := false
				var bad *occ
				for i := range os {
					r := os[i]
					if r.a.write || r.a.class != w.a.class || r.a.path != w.a.path {
						continue
					}
					g, ok := r.a.held[lk]
					if !ok {
						continue
					}
					if g.site == h.site && (r.in == w.in || reaches(r.in, w.in)) {
						again = true
					} else if g.site != h.site && r.in != w.in && decides(r.in, w.in) && !done(r.in, r.a.class, g.site) {
						bad = &os[i]
					}
				}
				if bad != nil && !again {
					b := *bad
					c.Ob("one-section", name, false, func() string {
						return fmt.Sprintf("%s: the change is decided by what was read at %s, before %s was released and taken again", posOf(p, w.a), posOf(p, b.a), short(h.class))
					})
				}
			}
		}
	}
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func reaches(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			st = append(st, x.Succs...)
		}
	}
	return false
}

// decides: what a yields is tested on the way to b.
func decides(a, b ssa.Instruction) bool {
	if !reaches(a, b) {
		return false
	}
	v, ok := a.(ssa.Value)
	if !ok {
		return false
	}
	der := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		refs := x.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if i, ok := r.(*ssa.If); ok {
				// one way avoids b
				if i.Block().Dominates(b.Block()) || reaches(i, b) {
					n := 0
					for _, s := range i.Block().Succs {
						if s == b.Block() || blockReaches(s, b.Block(), i.Block()) {
							n++
						}
					}
					if n == 1 {
						return true
					}
				}
				continue
			}
			if y, ok := r.(ssa.Value); ok && !der[y] {
				der[y] = true
				work = append(work, y)
			}
		}
	}
	return false
}

func blockReaches(a, b, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			st = append(st, x.Succs...)
		}
	}
	return false
}

func checkOrder(c *Ctx) {
	p := c.Program("", false)
	l, cs := c.lockset(p)
	edges := map[string]map[string]string{}
	waits := map[string]string{} // locks held while waiting for a peer
	for _, x := range cs {
		for _, b := range x.blk {
			for k, h := range b.held {
				if !strings.HasPrefix(k, "once:") && b.connOf(h) {
					waits[h.class] = b.what
				}
			}
		}
	}
	nonOnce := func(h map[string]lsHeld) map[string]lsHeld {
		o := map[string]lsHeld{}
		for k, v := range h {
			if !strings.HasPrefix(k, "once:") {
				o[k] = v
			}
		}
		return o
	}
	noOnce := func(k string) string {
		var o []string
		for _, x := range strings.Split(k, ",") {
			if x != "" && !strings.HasPrefix(x, "once:") {
				o = append(o, x)
			}
		}
		return strings.Join(o, ",")
	}
	isRoot := map[*lsCtx]bool{}
	for _, r := range l.roots {
		isRoot[r] = true
	}
	for _, x := range cs {
		fn := short(x.fn.String())
		bal := map[string]bool{}
		for _, r := range x.retHeld {
			bal[noOnce(r)] = true
		}
		c.Ob("balance", fn+" on every way out", len(bal) <= 1, func() string {
			return fmt.Sprintf("%s returns holding %s", fn, strings.Join(sortedKeys(bal), " or else "))
		})
		if isRoot[x] {
			c.Ob("balance", fn+" at its end", len(bal) == 0 || bal[""] && len(bal) == 1, func() string {
				return fmt.Sprintf("%s returns holding %s", fn, strings.Join(sortedKeys(bal), " or else "))
			})
		}
		for pos, d := range x.diffs {
			c.Ob("balance", fn+" where paths join", false, func() string {
				return fmt.Sprintf("%s: held here is %s, depending on the path", p.Fset.Position(pos), d)
			})
		}
		for pos, d := range x.stray {
			c.Ob("balance", fn+" releases", false, func() string {
				return fmt.Sprintf("%s: %s is released and is not held (or not in that mode)", p.Fset.Position(pos), d)
			})
		}
		for _, b := range x.blk {
			held := nonOnce(b.held)
			ok := true
			b := b
			for _, h := range held {
				ok = ok && b.connOf(h)
			}
			c.Ob("waits", fmt.Sprintf("%s in %s", b.what, fn), ok, func() string {
				return fmt.Sprintf("%s: %s is held while waiting for the other side", p.Fset.Position(b.pos), heldNames(held))
			})
		}
		for _, a := range x.acq {
			held := nonOnce(a.held)
			a := a
			c.Ob("again", fmt.Sprintf("%s taken in %s", short(a.h.class), fn), !a.again, func() string {
				return fmt.Sprintf("%s: %s is held already", p.Fset.Position(a.pos), short(a.h.class))
			})
			for k, h := range held {
				if h.class == a.h.class && k != a.path {
					continue // another object's
				}
				if edges[h.class] == nil {
					edges[h.class] = map[string]string{}
				}
				edges[h.class][a.h.class] = fmt.Sprint(p.Fset.Position(a.pos))
				if waits[a.h.class] != "" {
					c.Ob("waits", fmt.Sprintf("%s taken in %s", short(a.h.class), fn), h.class == a.h.class, func() string {
						return fmt.Sprintf("%s: %s is held while waiting for %s, which is held during %s", p.Fset.Position(a.pos), short(h.class), short(a.h.class), waits[a.h.class])
					})
				}
			}
		}
	}
	for _, a := range sortedKeys(edges) {
		for _, b := range sortedKeys(edges[a]) {
			// a path back from b to a
			seen := map[string]bool{}
			back := false
			var dfs func(k string)
			dfs = func(k string) {
				if k == a {
					back = true
				}
				if seen[k] {
					return
				}
				seen[k] = true
				for n := range edges[k] {
					dfs(n)
				}
			}
			dfs(b)
			c.Ob("order", fmt.Sprintf("%s before %s", short(a), short(b)), !back, func() string {
				return fmt.Sprintf("%s: %s is taken while %s is held, and elsewhere the other way round", edges[a][b], short(b), short(a))
			})
		}
	}
}

// connOf: the lock belongs to the object that holds the connection.
func (b *lsBlock) connOf(h lsHeld) bool {
	i, j := strings.LastIndex(h.class, "."), strings.LastIndex(b.class, ".")
	return i > 0 && j > 0 && h.class[:i] == b.class[:j]
}

func debugLocks(p *Program) {
	l := newLockset(p, lsSingles...)
	l.Entries()
	cs := l.Reached()
	fmt.Println("contexts", len(l.ctxs), "reached", len(cs), "incompl", l.incompl, l.rootNames)
	if len(os.Args) < 4 {
		return
	}
	for _, x := range cs {
		if strings.Contains(x.fn.String(), os.Args[3]) {
			fmt.Println("FUNC", x.fn, "ways out", len(x.retHeld), x.retHeld, "entered", x.entryKey)
		}
		for _, a := range x.acc {
			if strings.Contains(a.class, os.Args[3]) {
				fmt.Println(a.write, posOf(p, a), a.path, a.guards())
			}
		}
		for _, b := range x.blk {
			fmt.Println("BLOCK", b.what, b.path, b.held)
		}
	}
}
