package main

// Entailment of bit-vector comparisons by a small linear-inequality domain:
// facts are linearised over exact integers (wrap-around made explicit by a
// bounded carry variable), and a goal is entailed when adding its negation to
// the facts that share variables with it leaves no rational point
// (Fourier-Motzkin projection).  Everything that cannot be shown is "unknown".

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type lin struct {
	c *big.Int
	m map[int]*big.Int // var -> coef
}

func newLin() *lin { return &lin{big.NewInt(0), map[int]*big.Int{}} }
func (l *lin) clone() *lin {
	n := newLin()
	n.c.Set(l.c)
	for k, v := range l.m {
		n.m[k] = new(big.Int).Set(v)
	}
	return n
}
func (l *lin) addv(v int, k *big.Int) {
	if x, ok := l.m[v]; ok {
		x.Add(x, k)
		if x.Sign() == 0 {
			delete(l.m, v)
		}
		return
	}
	if k.Sign() != 0 {
		l.m[v] = new(big.Int).Set(k)
	}
}
func (l *lin) addl(o *lin, k *big.Int) {
	t := new(big.Int)
	l.c.Add(l.c, t.Mul(o.c, k))
	for v, c := range o.m {
		l.addv(v, new(big.Int).Mul(c, k))
	}
}

type linCtx struct {
	vars  map[string]int
	atoms []*Term // by var, nil for carries
	lo    []*big.Int
	hi    []*big.Int
	cons  []*lin // each >= 0
	split []int  // carry vars
	done  map[*Term]bool
}

func newLinCtx() *linCtx { return &linCtx{vars: map[string]int{}, done: map[*Term]bool{}} }

func (x *linCtx) newVar(key string, t *Term, lo, hi *big.Int) int {
	if v, ok := x.vars[key]; ok {
		return v
	}
	v := len(x.atoms)
	x.vars[key] = v
	x.atoms = append(x.atoms, t)
	x.lo = append(x.lo, lo)
	x.hi = append(x.hi, hi)
	return v
}

func (x *linCtx) atom(t *Term) int {
	lo, hi := rng(t)
	key := fmt.Sprintf("t%d", t.id)
	if v, ok := x.vars[key]; ok {
		return v
	}
	v := x.newVar(key, t, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi))
	// axioms relating derived atoms to their sources
	if a, s, n := contiguous(t); a != nil && a.Op != OpBits {
		av := x.atom2(a)
		sig := significant(a)
		p := new(big.Int).Lsh(big.NewInt(1), uint(s))
		if s+n >= sig { // a >> s
			l := av.clone() // a - 2^s t >= 0
			l.addv(v, new(big.Int).Neg(p))
			x.cons = append(x.cons, l)
			l2 := newLin() // 2^s t + 2^s-1 - a >= 0
			l2.addv(v, p)
			l2.c.Sub(p, big.NewInt(1))
			l2.addl(av, big.NewInt(-1))
			x.cons = append(x.cons, l2)
		} else if s == 0 { // low bits: t <= a
			l := av.clone()
			l.addv(v, big.NewInt(-1))
			x.cons = append(x.cons, l)
		}
	}
	if t.Op == OpFun {
		switch t.Name {
		case "min":
			for _, a := range t.Args {
				l := x.lin(a, false)
				l.addv(v, big.NewInt(-1))
				x.cons = append(x.cons, l)
			}
		case "udiv", "urem", "lshr", "and":
			l := x.lin(t.Args[0], false)
			l.addv(v, big.NewInt(-1))
			x.cons = append(x.cons, l)
			if t.Name == "and" {
				l := x.lin(t.Args[1], false)
				l.addv(v, big.NewInt(-1))
				x.cons = append(x.cons, l)
			}
		}
	}
	return v
}

func (x *linCtx) atom2(t *Term) *lin { return x.lin(t, false) }

// lin gives the exact integer value of t (unsigned or two's complement) as a
// linear expression.
func (x *linCtx) lin(t *Term, signed bool) *lin {
	r := newLin()
	switch t.Op {
	case OpConst:
		if signed {
			r.c.SetInt64(t.Int())
		} else {
			r.c.SetUint64(t.C)
		}
		return r
	case OpSum:
		r.c.Set(sgn(t.C, t.W))
		for i, a := range t.Args {
			r.addl(x.lin(a, false), sgn(t.Coef[i], t.W))
		}
		lo, hi := x.interval(r)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(t.W))
		min := big.NewInt(0)
		max := new(big.Int).Sub(mod, big.NewInt(1))
		if signed {
			min = new(big.Int).Neg(new(big.Int).Rsh(mod, 1))
			max = new(big.Int).Sub(new(big.Int).Rsh(mod, 1), big.NewInt(1))
		}
		if lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 {
			return r
		}
		kl := floorDiv(new(big.Int).Sub(lo, min), mod)
		kh := floorDiv(new(big.Int).Sub(hi, min), mod)
		if kl.Cmp(kh) == 0 {
			r.c.Sub(r.c, new(big.Int).Mul(kl, mod))
			return r
		}
		sg := "u"
		if signed {
			sg = "s"
		}
		key := fmt.Sprintf("k%s%d", sg, t.id)
		_, had := x.vars[key]
		k := x.newVar(key, nil, kl, kh)
		r.addv(k, new(big.Int).Neg(mod))
		if !had {
			x.split = append(x.split, k)
			a := r.clone()
			a.c.Sub(a.c, min)
			x.cons = append(x.cons, a) // r - min >= 0
			b := newLin()
			b.c.Set(max)
			b.addl(r, big.NewInt(-1))
			x.cons = append(x.cons, b)
		}
		return r
	}
	if signed && !nonNeg(t) {
		if t.Op == OpFun && t.Name == "sext" {
			return x.lin(t.Args[0], true)
		}
		// value = unsigned - 2^w * k, k = sign bit
		u := x.lin(t, false)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(t.W))
		half := new(big.Int).Rsh(mod, 1)
		key := fmt.Sprintf("n%d", t.id)
		_, had := x.vars[key]
		k := x.newVar(key, nil, big.NewInt(0), big.NewInt(1))
		r.addl(u, big.NewInt(1))
		r.addv(k, new(big.Int).Neg(mod))
		if !had {
			x.split = append(x.split, k)
			a := r.clone()
			a.c.Add(a.c, half)
			x.cons = append(x.cons, a)
			b := newLin()
			b.c.Sub(half, big.NewInt(1))
			b.addl(r, big.NewInt(-1))
			x.cons = append(x.cons, b)
		}
		return r
	}
	// constant bits, trailing zeros
	if t.Op == OpBits {
		var ones uint64
		for i, b := range t.Bits {
			if b.A == nil && b.I == 1 {
				ones |= 1 << uint(i)
			}
		}
		if ones != 0 {
			v := append([]Bit(nil), t.Bits...)
			for i, b := range v {
				if b.A == nil {
					v[i] = Bit{}
				}
			}
			r.c.SetUint64(ones)
			r.addl(x.lin(fromBits(v), false), big.NewInt(1))
			return r
		}
		z := 0
		for z < len(t.Bits) && t.Bits[z].A == nil && t.Bits[z].I == 0 {
			z++
		}
		if z > 0 && z < len(t.Bits) {
			v := make([]Bit, len(t.Bits))
			copy(v, t.Bits[z:])
			b := fromBits(v)
			r.addl(x.lin(b, false), new(big.Int).Lsh(big.NewInt(1), uint(z)))
			return r
		}
		// zero extension of a whole atom
		if a, s, n := contiguous(t); a != nil && s == 0 && n >= significant(a) {
			return x.lin(a, false)
		}
		// canonical width: drop leading zeros so zext variants share a var
		n := len(t.Bits)
		for n > 1 && t.Bits[n-1].A == nil && t.Bits[n-1].I == 0 {
			n--
		}
		if n < len(t.Bits) {
			return x.lin(fromBits(t.Bits[:n]), false)
		}
	}
	r.addv(x.atom(t), big.NewInt(1))
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

func (x *linCtx) interval(l *lin) (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for v, k := range l.m {
		a := new(big.Int).Mul(k, x.lo[v])
		b := new(big.Int).Mul(k, x.hi[v])
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

// assume adds a literal; disequalities that cannot be expressed are skipped.
func (x *linCtx) assume(l Lit) {
	t := l.T
	one := big.NewInt(1)
	switch t.Op {
	case OpULt, OpSLt:
		a, b := x.lin(t.Args[0], t.Op == OpSLt), x.lin(t.Args[1], t.Op == OpSLt)
		r := newLin()
		if l.Pos { // b - a - 1 >= 0
			r.addl(b, one)
			r.addl(a, big.NewInt(-1))
			r.c.Sub(r.c, one)
		} else { // a - b >= 0
			r.addl(a, one)
			r.addl(b, big.NewInt(-1))
		}
		x.cons = append(x.cons, r)
	case OpEq:
		a, b := x.lin(t.Args[0], false), x.lin(t.Args[1], false)
		if l.Pos {
			r := newLin()
			r.addl(a, one)
			r.addl(b, big.NewInt(-1))
			x.cons = append(x.cons, r)
			r2 := newLin()
			r2.addl(r, big.NewInt(-1))
			x.cons = append(x.cons, r2)
		} else if t.Args[1].IsConst() {
			lo, hi := rng(t.Args[0])
			if t.Args[1].C == lo { // a >= lo+1
				r := newLin()
				r.addl(a, one)
				r.c.Sub(r.c, new(big.Int).SetUint64(lo+1))
				x.cons = append(x.cons, r)
			} else if t.Args[1].C == hi {
				r := newLin()
				r.addl(a, big.NewInt(-1))
				r.c.Add(r.c, new(big.Int).SetUint64(hi-1))
				x.cons = append(x.cons, r)
			}
		}
	case OpBitT:
		a := t.Args[0]
		{ // the bit on its own
			bv := x.lin(fromBits([]Bit{{a, uint8(t.C)}}), false)
			v := newLin()
			if l.Pos {
				v.c.SetInt64(-1)
				v.addl(bv, one)
			} else {
				v.addl(bv, big.NewInt(-1))
			}
			x.cons = append(x.cons, v)
		}
		if int(t.C) == significant(a)-1 { // top bit
			r := newLin()
			p := new(big.Int).Lsh(one, uint(t.C))
			al := x.lin(a, false)
			if l.Pos {
				r.addl(al, one)
				r.c.Sub(r.c, p)
			} else {
				r.addl(al, big.NewInt(-1))
				r.c.Add(r.c, new(big.Int).Sub(p, one))
			}
			x.cons = append(x.cons, r)
		}
	}
}

func (l *lin) key() string {
	ks := make([]int, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d:%s,", k, l.m[k])
	}
	return b.String()
}

// infeasible projects out all variables.
func infeasible(cons []*lin, nv int, lo, hi []*big.Int) bool {
	work := map[string]*lin{}
	bad := false
	add := func(l *lin) {
		if bad {
			return
		}
		if len(l.m) == 0 {
			if l.c.Sign() < 0 {
				bad = true
			}
			return
		}
		// normalise by gcd (integer tightening)
		g := new(big.Int)
		for _, k := range l.m {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			n := newLin()
			for v, k := range l.m {
				n.m[v] = new(big.Int).Quo(k, g)
			}
			n.c = floorDiv(l.c, g)
			l = n
		}
		if len(l.m) > 1 {
			// over the box of the variables: implied, or impossible
			mn, mx := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
			for v, k := range l.m {
				a, b := new(big.Int).Mul(k, lo[v]), new(big.Int).Mul(k, hi[v])
				if k.Sign() < 0 {
					a, b = b, a
				}
				mn.Add(mn, a)
				mx.Add(mx, b)
			}
			if mx.Sign() < 0 {
				bad = true
				return
			}
			if mn.Sign() >= 0 {
				return
			}
		}
		k := l.key()
		if o := work[k]; o != nil && o.c.Cmp(l.c) <= 0 {
			return
		}
		work[k] = l
	}
	used := map[int]bool{}
	for _, c := range cons {
		for v := range c.m {
			used[v] = true
		}
	}
	for _, c := range cons {
		add(c)
	}
	for v := range used {
		a := newLin()
		a.addv(v, big.NewInt(1))
		a.c.Neg(lo[v])
		add(a)
		b := newLin()
		b.addv(v, big.NewInt(-1))
		b.c.Set(hi[v])
		add(b)
	}
	for !bad && len(used) > 0 {
		// cheapest variable
		best, bc := -1, 1<<30
		var vs []int
		for v := range used {
			vs = append(vs, v)
		}
		sort.Ints(vs)
		for _, v := range vs {
			p, n := 0, 0
			for _, c := range work {
				if k := c.m[v]; k != nil {
					if k.Sign() > 0 {
						p++
					} else {
						n++
					}
				}
			}
			if cost := p*n - p - n; cost < bc {
				best, bc = v, cost
			}
		}
		v := best
		delete(used, v)
		var ps, ns []*lin
		ks := make([]string, 0, len(work))
		for k := range work {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := work[k]
			if x := c.m[v]; x != nil {
				if x.Sign() > 0 {
					ps = append(ps, c)
				} else {
					ns = append(ns, c)
				}
				delete(work, k)
			}
		}
		if len(ps)*len(ns) > 3000 || len(work) > 3000 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				r := newLin()
				r.addl(p, new(big.Int).Neg(n.m[v]))
				r.addl(n, p.m[v])
				add(r)
				if bad {
					return true
				}
			}
		}
	}
	return bad
}

// refutes reports that the literals are jointly impossible.
func refutes(lits []Lit) bool {
	x := newLinCtx()
	for _, l := range lits {
		x.assume(l)
	}
	return x.infeasible()
}

func (x *linCtx) infeasible() bool {
	// case split on carries (bounded)
	combos := [][]*big.Int{{}}
	var sp []int
	for _, k := range x.split {
		w := new(big.Int).Sub(x.hi[k], x.lo[k])
		if !w.IsInt64() || w.Int64() > 3 || len(combos)*int(w.Int64()+1) > 64 {
			continue
		}
		sp = append(sp, k)
		var nc [][]*big.Int
		for _, c := range combos {
			for v := new(big.Int).Set(x.lo[k]); v.Cmp(x.hi[k]) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
				nc = append(nc, append(append([]*big.Int(nil), c...), v))
			}
		}
		combos = nc
	}
	for _, c := range combos {
		cons := make([]*lin, 0, len(x.cons))
		for _, l := range x.cons {
			n := l.clone()
			for i, k := range sp {
				if q := n.m[k]; q != nil {
					n.c.Add(n.c, new(big.Int).Mul(q, c[i]))
					delete(n.m, k)
				}
			}
			cons = append(cons, n)
		}
		if !infeasible(cons, len(x.atoms), x.lo, x.hi) {
			return false
		}
	}
	return true
}

// termAtoms collects the ground atoms a literal talks about.
func litAtoms(l Lit, out map[*Term]bool) { termAtoms(l.T, out) }
func termAtoms(t *Term, out map[*Term]bool) {
	switch t.Op {
	case OpConst, OpTrue, OpFalse:
	case OpSym, OpBSym:
		out[t] = true
	case OpBits:
		var last *Term
		for _, b := range t.Bits {
			if b.A != nil && b.A != last {
				last = b.A
				termAtoms(b.A, out)
			}
		}
	default:
		if t.Op == OpFun {
			out[t] = true
		}
		for _, a := range t.Args {
			termAtoms(a, out)
		}
	}
}

var _ = bits.Len64
