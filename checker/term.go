package main

// Terms: hash-consed bit-vector and boolean expressions in a normal form
// (bit provenance vectors and linear sums).  Two source expressions that
// compute the same function of the same inputs (shifts and ors, additions,
// encoding/binary helpers, loops over bytes) normalise to one term.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpSym
	OpBits // vector of bits drawn from atoms
	OpSum  // c + sum coef*atom (mod 2^w)
	OpFun  // opaque function of args (mul, div, rem, and/or/xor with unknown bits, variable shifts)
	// booleans (W==0)
	OpTrue
	OpFalse
	OpBSym // opaque boolean
	OpBitT // bit idx of atom is 1
	OpEq   // args equal
	OpULt
	OpSLt
)

type Bit struct {
	A *Term // nil: constant
	I uint8 // bit index in A, or the constant 0/1
}

type Term struct {
	id   int
	Op   Op
	W    uint8
	C    uint64
	Name string
	Args []*Term
	Coef []uint64
	Bits []Bit
	Lo   uint64 // symbols: unsigned range
	Hi   uint64
}

var (
	termTab = map[string]*Term{}
	termSeq int
	tTrue   = mkRaw(&Term{Op: OpTrue})
	tFalse  = mkRaw(&Term{Op: OpFalse})
)

func mkRaw(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%x|%s", t.Op, t.W, t.C, t.Name)
	for i, a := range t.Args {
		fmt.Fprintf(&b, "|%d", a.id)
		if i < len(t.Coef) {
			fmt.Fprintf(&b, "*%x", t.Coef[i])
		}
	}
	if len(t.Bits) > 0 {
		b.WriteByte('#')
		for _, x := range t.Bits {
			if x.A == nil {
				fmt.Fprintf(&b, "%d,", x.I)
			} else {
				fmt.Fprintf(&b, "%d.%d,", x.A.id, x.I)
			}
		}
	}
	if t.Op == OpSym {
		fmt.Fprintf(&b, "~%x~%x", t.Lo, t.Hi)
	}
	k := b.String()
	if e := termTab[k]; e != nil {
		return e
	}
	termSeq++
	t.id = termSeq
	termTab[k] = t
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Const(w uint8, c uint64) *Term { return mkRaw(&Term{Op: OpConst, W: w, C: c & maskW(w)}) }
func Sym(w uint8, name string) *Term {
	return mkRaw(&Term{Op: OpSym, W: w, Name: name, Lo: 0, Hi: maskW(w)})
}
func SymRange(w uint8, name string, lo, hi uint64) *Term {
	return mkRaw(&Term{Op: OpSym, W: w, Name: name, Lo: lo, Hi: hi})
}
func BSym(name string) *Term { return mkRaw(&Term{Op: OpBSym, Name: name}) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsBool() bool  { return t.W == 0 }
func (t *Term) Int() int64 {
	c := t.C
	if t.W < 64 && c>>(t.W-1)&1 == 1 {
		c |= ^maskW(t.W)
	}
	return int64(c)
}

// bitsOf gives the provenance vector of any integer term.
func bitsOf(t *Term) []Bit {
	v := make([]Bit, t.W)
	switch t.Op {
	case OpConst:
		for i := range v {
			v[i] = Bit{nil, uint8(t.C >> uint(i) & 1)}
		}
	case OpBits:
		copy(v, t.Bits)
	default:
		hb := int(t.W)
		if _, hi := rng(t); hi != maskW(t.W) {
			hb = bits.Len64(hi)
		}
		lo := 0
		if t.Op == OpSum {
			// low bits that only come from the constant
			lo = 64
			for _, k := range t.Coef {
				if z := bits.TrailingZeros64(k); z < lo {
					lo = z
				}
			}
			for i := 0; i < lo && i < len(v); i++ {
				v[i] = Bit{nil, uint8(t.C >> uint(i) & 1)}
			}
		}
		for i := lo; i < len(v); i++ {
			if i < hb {
				v[i] = Bit{t, uint8(i)}
			}
		}
	}
	return v
}

func same(a, b []Bit) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fromBits(v []Bit) *Term {
	w := uint8(len(v))
	allc := true
	var c uint64
	for i, b := range v {
		if b.A != nil {
			allc = false
			break
		}
		c |= uint64(b.I) << uint(i)
	}
	if allc {
		return Const(w, c)
	}
	// the low part of a wider sum is the same sum in fewer bits
	for i := 1; i < len(v); i++ {
		a := v[i].A
		if a == nil || a.Op != OpSum || int(v[i].I) != i {
			continue
		}
		ab := bitsOf(a)
		if same(v[:i], ab[:i]) {
			continue
		}
		if same(v[:i], bitsOf(Resize(a, uint8(i), false))) {
			v = append([]Bit(nil), v...)
			copy(v, ab[:i])
		}
		break
	}
	// whole atom?
	f := 0
	for v[f].A == nil {
		f++
	}
	if a := v[f].A; a.W == w {
		if same(v, bitsOf(a)) {
			return a
		}
	}
	return mkRaw(&Term{Op: OpBits, W: w, Bits: append([]Bit(nil), v...)})
}

var rngMemo = map[*Term][2]uint64{}

// rng is the unsigned range of an integer term.
func rng(t *Term) (uint64, uint64) {
	switch t.Op {
	case OpConst:
		return t.C, t.C
	case OpSym:
		return t.Lo, t.Hi
	}
	if r, ok := rngMemo[t]; ok {
		return r[0], r[1]
	}
	lo, hi := uint64(0), maskW(t.W)
	switch t.Op {
	case OpBits:
		var l, h uint64
		for i, b := range t.Bits {
			if b.A == nil {
				l |= uint64(b.I) << uint(i)
				h |= uint64(b.I) << uint(i)
			} else {
				h |= 1 << uint(i)
			}
		}
		lo, hi = l, h
		// contiguous high part of an atom: bound by the atom
		if a, s, n := contiguous(t); a != nil && s+n >= significant(a) {
			_, ah := rng(a)
			if ah>>uint(s) < hi {
				hi = ah >> uint(s)
			}
		}
	case OpSum:
		L, H := sumInterval(t)
		z := big.NewInt(0)
		m := new(big.Int).SetUint64(maskW(t.W))
		if L.Cmp(z) >= 0 && H.Cmp(m) <= 0 {
			lo, hi = L.Uint64(), H.Uint64()
		}
	case OpFun:
		switch t.Name {
		case "udiv":
			_, h := rng(t.Args[0])
			hi = h
		case "urem":
			_, h := rng(t.Args[0])
			hi = h
			_, h2 := rng(t.Args[1])
			if h2 > 0 && h2-1 < hi {
				hi = h2 - 1
			}
		case "and":
			_, h := rng(t.Args[0])
			_, h2 := rng(t.Args[1])
			hi = min(h, h2)
		case "lshr":
			_, h := rng(t.Args[0])
			hi = h
		case "min":
			_, h := rng(t.Args[0])
			_, h2 := rng(t.Args[1])
			hi = min(h, h2)
		}
	}
	rngMemo[t] = [2]uint64{lo, hi}
	return lo, hi
}

func significant(a *Term) int {
	_, h := rng(a)
	return bits.Len64(h)
}

// contiguous reports that a Bits term is exactly bits [s, s+n) of one atom
// placed at position 0 with zeros above.
func contiguous(t *Term) (*Term, int, int) {
	if t.Op != OpBits || t.Bits[0].A == nil {
		return nil, 0, 0
	}
	a, s := t.Bits[0].A, int(t.Bits[0].I)
	n := 0
	for n < len(t.Bits) && t.Bits[n].A == a && int(t.Bits[n].I) == s+n {
		n++
	}
	for i := n; i < len(t.Bits); i++ {
		if t.Bits[i].A != nil || t.Bits[i].I != 0 {
			return nil, 0, 0
		}
	}
	return a, s, n
}

func sgn(c uint64, w uint8) *big.Int {
	if w < 64 && c>>(w-1)&1 == 1 {
		c |= ^maskW(w)
	}
	return big.NewInt(int64(c))
}

func sumInterval(t *Term) (*big.Int, *big.Int) {
	lo := sgn(t.C, t.W)
	hi := new(big.Int).Set(lo)
	lo = new(big.Int).Set(lo)
	for i, a := range t.Args {
		c := sgn(t.Coef[i], t.W)
		l, h := rng(a)
		x := new(big.Int).Mul(c, new(big.Int).SetUint64(l))
		y := new(big.Int).Mul(c, new(big.Int).SetUint64(h))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi
}

// sums ---------------------------------------------------------------

type sumB struct {
	w uint8
	c uint64
	m map[*Term]uint64
}

func newSum(w uint8) *sumB { return &sumB{w: w, m: map[*Term]uint64{}} }

// add adds k*t.  Bits terms with trailing zero bits are factored so that
// x<<9 and x*512 meet.
func (s *sumB) add(t *Term, k uint64) {
	switch t.Op {
	case OpConst:
		s.c += k * t.C
	case OpSum:
		s.c += k * t.C
		for i, a := range t.Args {
			s.m[a] += k * t.Coef[i]
		}
	case OpBits:
		// constant bits are a constant, trailing zeros a factor
		var ones uint64
		for i, b := range t.Bits {
			if b.A == nil && b.I == 1 {
				ones |= 1 << uint(i)
			}
		}
		if ones != 0 {
			s.c += k * ones
			v := append([]Bit(nil), t.Bits...)
			for i, b := range v {
				if b.A == nil {
					v[i] = Bit{}
				}
			}
			s.add(fromBits(v), k)
			return
		}
		z := 0
		for z < len(t.Bits) && t.Bits[z].A == nil && t.Bits[z].I == 0 {
			z++
		}
		if z > 0 && z < len(t.Bits) {
			v := make([]Bit, len(t.Bits))
			copy(v, t.Bits[z:])
			b := fromBits(v)
			if b.Op == OpSum && b.W == s.w {
				s.add(b, k<<uint(z))
			} else {
				s.m[b] += k << uint(z)
			}
		} else {
			s.m[t] += k
		}
	default:
		s.m[t] += k
	}
}

func (s *sumB) term() *Term {
	mk := maskW(s.w)
	var as []*Term
	for a, k := range s.m {
		if k&mk != 0 {
			as = append(as, a)
		}
	}
	s.c &= mk
	if len(as) == 0 {
		return Const(s.w, s.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && s.c == 0 {
		k := s.m[as[0]] & mk
		if k == 1 {
			return as[0]
		}
		if bits.OnesCount64(k) == 1 {
			return shlBits(as[0], bits.TrailingZeros64(k))
		}
	}
	// disjoint bits: an addition is an or
	if v := disjoint(as, s); v != nil {
		return fromBits(v)
	}
	t := &Term{Op: OpSum, W: s.w, C: s.c}
	for _, a := range as {
		t.Args = append(t.Args, a)
		t.Coef = append(t.Coef, s.m[a]&mk)
	}
	return mkRaw(t)
}

func disjoint(as []*Term, s *sumB) []Bit {
	mk := maskW(s.w)
	out := make([]Bit, s.w)
	for i := range out {
		out[i] = Bit{nil, uint8(s.c >> uint(i) & 1)}
	}
	for _, a := range as {
		k := s.m[a] & mk
		if bits.OnesCount64(k) != 1 {
			return nil
		}
		sh := bits.TrailingZeros64(k)
		ab := bitsOf(a)
		for i := 0; i+sh < int(s.w) && i < len(ab); i++ {
			b := ab[i]
			if b.A == nil && b.I == 0 {
				continue
			}
			o := out[i+sh]
			if o.A != nil || o.I != 0 {
				return nil
			}
			out[i+sh] = b
		}
	}
	return out
}

func shlBits(a *Term, k int) *Term {
	v := make([]Bit, a.W)
	ab := bitsOf(a)
	for i := range v {
		if i >= k {
			v[i] = ab[i-k]
		}
	}
	return fromBits(v)
}

func Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.W, a.C+b.C)
	}
	s := newSum(a.W)
	s.add(a, 1)
	s.add(b, 1)
	return s.term()
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Const(a.W, 0)
	}
	s := newSum(a.W)
	s.add(a, 1)
	s.add(b, ^uint64(0))
	return s.term()
}
func Neg(a *Term) *Term { return Sub(Const(a.W, 0), a) }

func fun(w uint8, name string, args ...*Term) *Term {
	return mkRaw(&Term{Op: OpFun, W: w, Name: name, Args: args})
}

func comm(w uint8, name string, a, b *Term) *Term {
	if b.id < a.id {
		a, b = b, a
	}
	return fun(w, name, a, b)
}

func Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if b.IsConst() {
			return Const(a.W, a.C*b.C)
		}
		s := newSum(a.W)
		s.add(b, a.C)
		return s.term()
	}
	return comm(a.W, "mul", a, b)
}

func UDiv(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return Const(a.W, a.C/b.C)
		}
		if bits.OnesCount64(b.C) == 1 {
			return LShr(a, bits.TrailingZeros64(b.C))
		}
	}
	return fun(a.W, "udiv", a, b)
}
func URem(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return Const(a.W, a.C%b.C)
		}
		if bits.OnesCount64(b.C) == 1 {
			return And(a, Const(a.W, b.C-1))
		}
	}
	return fun(a.W, "urem", a, b)
}

func nonNeg(t *Term) bool {
	_, hi := rng(t)
	return hi>>(t.W-1) == 0
}

func SDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.C != 0 {
		return Const(a.W, uint64(a.Int()/b.Int()))
	}
	if nonNeg(a) && nonNeg(b) {
		return UDiv(a, b)
	}
	return fun(a.W, "sdiv", a, b)
}
func SRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.C != 0 {
		return Const(a.W, uint64(a.Int()%b.Int()))
	}
	if nonNeg(a) && nonNeg(b) {
		return URem(a, b)
	}
	return fun(a.W, "srem", a, b)
}

func bitop(name string, a, b *Term, f func(x, y Bit) (Bit, bool)) *Term {
	av, bv := bitsOf(a), bitsOf(b)
	v := make([]Bit, len(av))
	for i := range av {
		r, ok := f(av[i], bv[i])
		if !ok {
			return comm(a.W, name, a, b)
		}
		v[i] = r
	}
	return fromBits(v)
}

func And(a, b *Term) *Term {
	return bitop("and", a, b, func(x, y Bit) (Bit, bool) {
		if x == y {
			return x, true
		}
		if y.A != nil {
			x, y = y, x
		}
		if y.A == nil {
			if y.I == 0 {
				return Bit{}, true
			}
			return x, true
		}
		return x, false
	})
}
func Or(a, b *Term) *Term {
	return bitop("or", a, b, func(x, y Bit) (Bit, bool) {
		if x == y {
			return x, true
		}
		if y.A != nil {
			x, y = y, x
		}
		if y.A == nil {
			if y.I == 1 {
				return Bit{nil, 1}, true
			}
			return x, true
		}
		return x, false
	})
}
func Xor(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.W, a.C^b.C)
	}
	if b.IsConst() && b.C == maskW(b.W) { // complement = -x-1
		return Sub(Const(a.W, maskW(a.W)), a)
	}
	return bitop("xor", a, b, func(x, y Bit) (Bit, bool) {
		if x == y {
			return Bit{}, true
		}
		if y.A != nil {
			x, y = y, x
		}
		if y.A == nil && y.I == 0 {
			return x, true
		}
		return x, false
	})
}
func AndNot(a, b *Term) *Term {
	if b.IsConst() {
		return And(a, Const(a.W, ^b.C))
	}
	return fun(a.W, "andnot", a, b)
}

func Shl(a *Term, k int) *Term {
	if k >= int(a.W) {
		return Const(a.W, 0)
	}
	s := newSum(a.W)
	s.add(a, uint64(1)<<uint(k))
	return s.term()
}
func LShr(a *Term, k int) *Term {
	if a.Op == OpSum && k > 0 && k < 63 {
		// exact division of a sum that does not wrap
		ok := true
		for _, c := range a.Coef {
			ok = ok && c&(1<<uint(k)-1) == 0
		}
		if ok {
			if lo, hi := sumInterval(a); lo.Sign() >= 0 && hi.Cmp(new(big.Int).SetUint64(maskW(a.W))) <= 0 {
				s := newSum(a.W)
				s.c = uint64(new(big.Int).Rsh(sgn(a.C, a.W), uint(k)).Int64())
				for i, x := range a.Args {
					s.add(x, uint64(sgn(a.Coef[i], a.W).Int64()>>uint(k)))
				}
				return s.term()
			}
		}
	}
	v := make([]Bit, a.W)
	ab := bitsOf(a)
	for i := range v {
		if i+k < len(ab) {
			v[i] = ab[i+k]
		}
	}
	return fromBits(v)
}
func AShr(a *Term, k int) *Term {
	if nonNeg(a) {
		return LShr(a, k)
	}
	if a.IsConst() {
		if k > 63 {
			k = 63
		}
		return Const(a.W, uint64(a.Int()>>uint(k)))
	}
	return fun(a.W, "ashr", a, Const(64, uint64(k)))
}

func Resize(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		if w > a.W && signed {
			return Const(w, uint64(a.Int()))
		}
		return Const(w, a.C)
	}
	if w > a.W && signed && !nonNeg(a) {
		// sign extension of a sum that provably does not overflow distributes
		if a.Op == OpSum {
			lo, hi := sumInterval(a)
			half := new(big.Int).Lsh(big.NewInt(1), uint(a.W-1))
			if lo.Cmp(new(big.Int).Neg(half)) >= 0 && hi.Cmp(half) < 0 {
				s := newSum(w)
				s.c = sgn(a.C, a.W).Uint64()
				if sgn(a.C, a.W).Sign() < 0 {
					s.c = uint64(sgn(a.C, a.W).Int64())
				}
				for i, x := range a.Args {
					s.add(Resize(x, w, false), uint64(sgn(a.Coef[i], a.W).Int64()))
				}
				return s.term()
			}
		}
		return fun(w, "sext", a)
	}
	if w > a.W && a.Op == OpSum {
		lo, hi := sumInterval(a)
		if lo.Sign() >= 0 && hi.Cmp(new(big.Int).SetUint64(maskW(a.W))) <= 0 {
			s := newSum(w)
			s.c = uint64(sgn(a.C, a.W).Int64())
			for i, x := range a.Args {
				s.add(Resize(x, w, false), uint64(sgn(a.Coef[i], a.W).Int64()))
			}
			return s.term()
		}
	}
	if w < a.W && a.Op == OpSum {
		s := newSum(w)
		s.c = a.C
		for i, x := range a.Args {
			s.add(Resize(x, w, false), a.Coef[i])
		}
		return s.term()
	}
	if w < a.W && a.Op == OpFun && a.Name == "sext" {
		if a.Args[0].W >= w {
			return Resize(a.Args[0], w, false)
		}
	}
	v := make([]Bit, w)
	copy(v, bitsOf(a))
	return fromBits(v)
}

// booleans -----------------------------------------------------------

func litEq(a, b *Term) (*Term, bool) { // returns atom, polarity
	if a == b {
		return tTrue, true
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.C == b.C), true
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		lo, hi := rng(a)
		if b.C < lo || b.C > hi {
			return tFalse, true
		}
		av := bitsOf(a)
		var uv []Bit
		var cv []uint8
		first, last := -1, -1
		for i, x := range av {
			want := uint8(b.C >> uint(i) & 1)
			if x.A == nil {
				if x.I != want {
					return tFalse, true
				}
			} else {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if first < 0 {
			return tTrue, true
		}
		if first == last && !(a.Op == OpSum) {
			return bitT(av[first]), b.C>>uint(first)&1 == 1
		}
		if a.Op == OpBits && (first > 0 || last < len(av)-1) {
			for i := first; i <= last; i++ {
				uv = append(uv, av[i])
				cv = append(cv, uint8(b.C>>uint(i)&1))
			}
			var c uint64
			for i, x := range cv {
				c |= uint64(x) << uint(i)
			}
			n := fromBits(uv)
			return mkRaw(&Term{Op: OpEq, Args: []*Term{n, Const(n.W, c)}}), true
		}
		if a.Op == OpSum {
			// sum == c  ->  normalised difference == 0
			return eqZero(Sub(a, b))
		}
		return mkRaw(&Term{Op: OpEq, Args: []*Term{a, b}}), true
	}
	d := Sub(a, b)
	if d.IsConst() {
		return Bool(d.C == 0), true
	}
	if d.Op == OpSum {
		return eqZero(d)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mkRaw(&Term{Op: OpEq, Args: []*Term{a, b}}), true
}

func eqZero(d *Term) (*Term, bool) {
	if d.Op != OpSum {
		return litEq(d, Const(d.W, 0))
	}
	// normalise sign: first coefficient has its top bit clear
	if d.Coef[0]>>(d.W-1)&1 == 1 {
		d2 := Neg(d)
		if d2.Op == OpSum {
			d = d2
		}
	}
	// single atom with odd unit coefficient: x == c
	if len(d.Args) == 1 && d.Coef[0] == 1 && d.Args[0].W == d.W {
		return litEq(d.Args[0], Const(d.W, -d.C))
	}
	lo, hi := sumInterval(d)
	if lo.Sign() > 0 || hi.Sign() < 0 {
		m := new(big.Int).SetUint64(maskW(d.W))
		if hi.Cmp(m) <= 0 && lo.Cmp(new(big.Int).Neg(m)) >= 0 {
			return tFalse, true
		}
	}
	return mkRaw(&Term{Op: OpEq, Args: []*Term{d, Const(d.W, 0)}}), true
}

func bitT(b Bit) *Term {
	if b.A == nil {
		return Bool(b.I == 1)
	}
	return mkRaw(&Term{Op: OpBitT, Args: []*Term{b.A}, C: uint64(b.I)})
}

// Lit is a boolean literal.
type Lit struct {
	T   *Term
	Pos bool
}

func (l Lit) Not() Lit {
	switch l.T {
	case tTrue:
		return Lit{tFalse, true}
	case tFalse:
		return Lit{tTrue, true}
	}
	return Lit{l.T, !l.Pos}
}
func mkLit(t *Term, pos bool) Lit {
	if t == tTrue && !pos {
		return Lit{tFalse, true}
	}
	if t == tFalse && !pos {
		return Lit{tTrue, true}
	}
	if t == tTrue || t == tFalse {
		return Lit{t, true}
	}
	return Lit{t, pos}
}
func litBool(b bool) Lit { return Lit{Bool(b), true} }
func (l Lit) known() (bool, bool) {
	if l.T == tTrue {
		return l.Pos, true
	}
	if l.T == tFalse {
		return !l.Pos, true
	}
	return false, false
}

func LEq(a, b *Term) Lit {
	t, p := litEq(a, b)
	return mkLit(t, p)
}
func LNe(a, b *Term) Lit { return LEq(a, b).Not() }
func LULt(a, b *Term) Lit {
	if a == b {
		return litBool(false)
	}
	al, ah := rng(a)
	bl, bh := rng(b)
	if ah < bl {
		return litBool(true)
	}
	if al >= bh {
		return litBool(false)
	}
	if b.IsConst() && b.C == 1 {
		return LEq(a, Const(a.W, 0))
	}
	if a.IsConst() && a.C == 0 {
		return LNe(b, Const(b.W, 0))
	}
	return Lit{mkRaw(&Term{Op: OpULt, Args: []*Term{a, b}}), true}
}
func LULe(a, b *Term) Lit { return LULt(b, a).Not() }
func LSLt(a, b *Term) Lit {
	if a.IsConst() && b.IsConst() {
		return litBool(a.Int() < b.Int())
	}
	if a == b {
		return litBool(false)
	}
	if nonNeg(a) && nonNeg(b) {
		return LULt(a, b)
	}
	// sums whose exact value is bounded
	al, ah := srange(a)
	bl, bh := srange(b)
	if ah.Cmp(bl) < 0 {
		return litBool(true)
	}
	if al.Cmp(bh) >= 0 {
		return litBool(false)
	}
	return Lit{mkRaw(&Term{Op: OpSLt, Args: []*Term{a, b}}), true}
}
func LSLe(a, b *Term) Lit { return LSLt(b, a).Not() }

func srange(t *Term) (*big.Int, *big.Int) {
	half := new(big.Int).Lsh(big.NewInt(1), uint(t.W-1))
	lo, hi := new(big.Int).Neg(half), new(big.Int).Sub(half, big.NewInt(1))
	if t.IsConst() {
		return big.NewInt(t.Int()), big.NewInt(t.Int())
	}
	if nonNeg(t) {
		l, h := rng(t)
		return new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
	}
	if t.Op == OpSum {
		l, h := sumInterval(t)
		if l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return l, h
		}
	}
	if t.Op == OpFun && t.Name == "sext" {
		h2 := new(big.Int).Lsh(big.NewInt(1), uint(t.Args[0].W-1))
		return new(big.Int).Neg(h2), h2
	}
	return lo, hi
}

// printing -----------------------------------------------------------

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.Op {
	case OpConst:
		if t.C > 9 {
			return fmt.Sprintf("0x%x", t.C)
		}
		return fmt.Sprintf("%d", t.C)
	case OpSym, OpBSym:
		return t.Name
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpBits:
		var parts []string
		for i := len(t.Bits) - 1; i >= 0; {
			b := t.Bits[i]
			if b.A == nil {
				j := i
				for j >= 0 && t.Bits[j].A == nil {
					j--
				}
				var c uint64
				for k := i; k > j; k-- {
					c = c<<1 | uint64(t.Bits[k].I)
				}
				if !(i == len(t.Bits)-1 && c == 0) {
					parts = append(parts, fmt.Sprintf("%d'%x", i-j, c))
				}
				i = j
				continue
			}
			j := i
			for j > 0 && t.Bits[j-1].A == b.A && t.Bits[j-1].I+1 == t.Bits[j].I {
				j--
			}
			lo, hi := t.Bits[j].I, b.I
			if lo == 0 && int(hi) == significant(b.A)-1 {
				parts = append(parts, b.A.str(d+1))
			} else {
				parts = append(parts, fmt.Sprintf("%s[%d:%d]", b.A.str(d+1), hi, lo))
			}
			i = j - 1
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "{" + strings.Join(parts, ",") + "}"
	case OpSum:
		var b strings.Builder
		b.WriteByte('(')
		for i, a := range t.Args {
			k := sgn(t.Coef[i], t.W).Int64()
			if i > 0 {
				b.WriteByte('+')
			}
			if k == 1 {
				b.WriteString(a.str(d + 1))
			} else {
				fmt.Fprintf(&b, "%d*%s", k, a.str(d+1))
			}
		}
		if t.C != 0 {
			fmt.Fprintf(&b, "+%d", sgn(t.C, t.W).Int64())
		}
		b.WriteByte(')')
		return b.String()
	case OpFun:
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return t.Name + "(" + strings.Join(s, ",") + ")"
	case OpBitT:
		return fmt.Sprintf("bit%d(%s)", t.C, t.Args[0].str(d+1))
	case OpEq:
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case OpULt:
		return t.Args[0].str(d+1) + "<" + t.Args[1].str(d+1)
	case OpSLt:
		return t.Args[0].str(d+1) + "<s" + t.Args[1].str(d+1)
	}
	return "?"
}
func (l Lit) String() string {
	if l.Pos {
		return l.T.String()
	}
	return "!(" + l.T.String() + ")"
}
