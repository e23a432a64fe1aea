package main

import (
	"fmt"
	"go/types"
)

// reply is the parameter data a data-in command returned on one path.
type reply struct {
	*outcome
	buf   Slice
	n     *Term // returned length, 32 bit
	alloc *Term // allocation length, 64 bit (nil: none)
}

// allocLen is the ALLOCATION LENGTH field.
func (o *outcome) allocLen() *Term {
	switch o.spec.kind {
	case "inquiry":
		return cdbBE(3, 2)
	case "reqsense":
		return cdbBE(4, 1)
	case "modesense":
		if o.spec.cdb == 6 {
			return cdbBE(4, 1)
		}
		return cdbBE(7, 2)
	case "reportluns", "maintin":
		return cdbBE(6, 4)
	case "sain":
		return cdbBE(10, 4)
	case "prin":
		return cdbBE(7, 2)
	}
	return nil
}

func (o *outcome) reply() *reply {
	in := o.e.cmdIn(o.st)
	buf, _ := o.field(in, "Buffer").(Slice)
	n := o.term(o.field(in, "Resid"))
	if n == nil {
		o.ob("reply-shape", false, "returned length of unknown shape")
		return nil
	}
	return &reply{outcome: o, buf: buf, n: n, alloc: o.allocLen()}
}

// at assumes that byte i is among the returned ones; nil when it cannot be.
func (r *reply) at(i int64) *reply {
	if r.buf.Arr == nil || r.e.dir != "R" {
		return nil
	}
	ls := []Lit{LULt(c64(i), r.buf.Len), LULt(Const(32, uint64(i)), r.n)}
	if !consistent(r.st, ls...) {
		return nil
	}
	q := *r.outcome
	q.st = r.st.fork()
	for _, l := range ls {
		q.st.Assume(l)
	}
	x := *r
	x.outcome = &q
	return &x
}

// wantByte: if byte i is returned it equals w.
func (r *reply) wantByte(rule string, i int64, w *Term) {
	q := r.at(i)
	if q == nil {
		return
	}
	b := q.m.ByteAt(q.st, q.buf, i)
	q.obf(rule, b != nil && q.eq(b, w), "byte %d is %v, want %v", i, b, w)
}

// wantBE: the n bytes from i are the low n bytes of v, big endian.
func (r *reply) wantBE(rule string, i int64, n int, v *Term) {
	v = r.st.simp(Resize(v, uint8(8*n), false))
	for k := 0; k < n; k++ {
		r.wantByte(rule, i+int64(k), Resize(LShr(v, 8*(n-1-k)), 8, false))
	}
}

// byteC is byte i as a constant (ok=false: not returned, or not constant).
func (r *reply) byteC(i int64) (uint64, bool) {
	if r.buf.Arr == nil || r.e.dir != "R" {
		return 0, false
	}
	b := r.m.ByteAt(r.st, r.buf, i)
	if b != nil {
		b = r.st.simp(b)
	}
	if b == nil || !b.IsConst() {
		return 0, false
	}
	return b.C, true
}

// whole: every byte of the reply is in the buffer and the reply has a constant
// length that is not the (symbolic) allocation length, so nothing was cut off.
func (r *reply) whole() (int64, *reply) {
	n := r.st.simp(r.n)
	if !n.IsConst() || n.C == 0 {
		return 0, nil
	}
	q := r.at(int64(n.C) - 1)
	if q == nil {
		return 0, nil
	}
	return int64(n.C), q
}

func ruleCapacity(o *outcome) {
	if !o.good() {
		if o.e.dir != "R" || o.spec.kind == "sain" {
			return
		}
		ls := o.readyLits()
		for i := 2; i < 6; i++ {
			ls = append(ls, LEq(cdb(i), Const(8, 0)))
		}
		o.obf("capacity-not-refused", !consistent(o.st, ls...), "READ CAPACITY of a ready unit is refused: %s", o.senseStr())
		return
	}
	cp := o.cap()
	q := *o
	q.st = o.st.fork()
	if !q.st.Assume(LNe(cp, c64(0))) {
		return
	}
	r := q.reply()
	if r == nil {
		return
	}
	if o.spec.kind == "sain" {
		sa := And(cdb(1), Const(8, 0x1f))
		if o.st.Holds(LNe(sa, Const(8, 0x10))) {
			return
		}
		if !q.st.Holds(LEq(sa, Const(8, 0x10))) {
			o.ob("capacity-dispatch", false, "a path that does not look at the service action")
			return
		}
		r.wantBE("capacity16-last-lba", 0, 8, Sub(cp, c64(1)))
		r.wantBE("capacity16-block-size", 8, 4, Const(32, 1<<o.e.shift))
		for _, tp := range []bool{true, false} {
			z := r.at(14)
			if z == nil || !z.st.Assume(Lit{BSym("lu.ThinProvisioning"), tp}) {
				continue
			}
			w := uint64(0)
			if tp {
				w = 0x80
			}
			b := z.m.ByteAt(z.st, z.buf, 14)
			z.obf("capacity16-lbpme", b != nil && z.st.Holds(LEq(And(b, Const(8, 0x80)), Const(8, w))), "LBPME is %v, thin provisioning=%v", b, tp)
		}
		full := o.st.fork()
		if full.Assume(LULe(c64(32), r.alloc)) {
			z := *o
			z.st = full
			z.obf("capacity16-length", z.eq(r.n, Const(32, 32)), "returned length is %v, want 32", r.n)
		}
		return
	}
	big := LULt(c64(1<<32-1), cp)
	for _, b := range []bool{true, false} {
		z := q
		z.st = q.st.fork()
		l := big
		if !b {
			l = l.Not()
		}
		if !z.st.Assume(l) {
			continue
		}
		x := *r
		x.outcome = &z
		if b {
			x.wantBE("capacity10-last-lba", 0, 4, Const(32, 1<<32-1))
		} else {
			x.wantBE("capacity10-last-lba", 0, 4, Sub(cp, c64(1)))
		}
	}
	r.wantBE("capacity10-block-size", 4, 4, Const(32, 1<<o.e.shift))
	q.obf("capacity10-length", q.eq(r.n, Const(32, 8)), "returned length is %v, want 8", r.n)
}

var vpdSupported = []uint64{0x00, 0x80, 0x83, 0xb0, 0xb2}

func ruleInquiry(o *outcome) {
	evpd := LEq(And(cdb(1), Const(8, 1)), Const(8, 1))
	known := func(st *State) (uint64, bool) { // page code of this path
		for _, p := range vpdSupported {
			if st.Holds(LEq(cdb(2), Const(8, p))) {
				return p, true
			}
		}
		return 0, false
	}
	if !o.good() {
		o.obf("inquiry-refusal", o.status == 2 && o.senseIs(5, 0x24, 0), "INQUIRY ends with status %d, %s", o.status, o.senseStr())
		for _, p := range vpdSupported {
			o.obf("inquiry-supported-page", !consistent(o.st, evpd, LEq(cdb(2), Const(8, p))), "VPD page %02Xh is refused", p)
		}
		o.ob("inquiry-standard", !consistent(o.st, evpd.Not(), LEq(cdb(2), Const(8, 0))), "standard INQUIRY is refused")
		return
	}
	if o.e.dir != "R" {
		return
	}
	r := o.reply()
	if r == nil {
		return
	}
	typ := Const(8, 0) // direct access block device
	for _, on := range []bool{true, false} {
		z := *o
		z.st = o.st.fork()
		if !z.st.Assume(Lit{BSym("lu.Online"), on}) {
			continue
		}
		x := *r
		x.outcome = &z
		w := typ
		if !on {
			w = Const(8, 0x20)
		}
		x.wantByte("inquiry-peripheral", 0, w)
	}
	if o.st.Holds(evpd.Not()) {
		o.ob("inquiry-standard-page-code", o.st.Holds(LEq(cdb(2), Const(8, 0))), "standard data for a page code that is not zero")
		// RESPONSE DATA FORMAT 2, command queuing, SPC-3
		if b, ok := r.byteC(3); ok {
			r.obf("inquiry-format", b&0xf == 2, "response data format %d", b&0xf)
		}
		if n, q := r.whole(); q != nil && n > 4 {
			q.wantByte("inquiry-additional-length", 4, Const(8, uint64(n-5)))
			q.obf("inquiry-standard-size", n >= 36, "standard INQUIRY data of %d bytes", n)
			q.c.Count("inquiry_standard_complete", 1)
		} else if z := r.at(4); z != nil {
			b, ok := z.byteC(4)
			z.obf("inquiry-additional-length", ok && b+5 >= 36, "additional length %d of a truncated reply", b)
		}
		return
	}
	if !o.st.Holds(evpd) {
		o.ob("inquiry-dispatch", false, "data although the path does not look at EVPD")
		return
	}
	p, ok := known(o.st)
	o.ob("inquiry-unsupported-page", ok, "data for a VPD page the device does not list")
	if !ok {
		return
	}
	name := fmt.Sprintf("VPD page %02Xh", p)
	r.wantByte("vpd-page-code", 1, Const(8, p))
	// page length: returned data is header + page length, unless cut off
	cut := o.eq(Resize(r.n, 64, false), r.alloc)
	z := r.at(3)
	if z == nil {
		return
	}
	hi, lo := z.m.ByteAt(z.st, z.buf, 2), z.m.ByteAt(z.st, z.buf, 3)
	if hi == nil || lo == nil {
		z.ob("vpd-page-length", false, "page length of unknown shape")
		return
	}
	pl := fromBits(append(append(append([]Bit{}, bitsOf(lo)...), bitsOf(hi)...), make([]Bit, 48)...))
	n64 := Resize(z.n, 64, false)
	if cut {
		z.obf("vpd-page-length", z.st.Holds(LULe(n64, Add(pl, c64(4)))), "%s: returned %v bytes but the page length is %v", name, n64, pl)
	} else {
		z.obf("vpd-page-length", z.eq(Add(pl, c64(4)), n64), "%s: returned %v bytes but the page length is %v", name, n64, pl)
	}
	switch p {
	case 0:
		for i, s := range vpdSupported {
			r.wantByte("vpd-supported-list", int64(4+i), Const(8, s))
		}
		z.obf("vpd-supported-list", z.eq(pl, c64(int64(len(vpdSupported)))), "%v pages are listed, %d are supported", pl, len(vpdSupported))
	case 0xb2:
		for _, tp := range []bool{true, false} {
			y := r.at(5)
			if y == nil || !y.st.Assume(Lit{BSym("lu.ThinProvisioning"), tp}) {
				continue
			}
			w := uint64(0)
			if tp {
				w = 0x80
			}
			b := y.m.ByteAt(y.st, y.buf, 5)
			y.obf("vpd-lbpu", b != nil && y.st.Holds(LEq(And(b, Const(8, 0x80)), Const(8, w))), "LBPU in %v, thin provisioning=%v", b, tp)
		}
	case 0x83:
		if !cut {
			walkDesignators(z, n64)
		}
	}
}

// walkDesignators follows the designation descriptors of page 83h to its end.
func walkDesignators(r *reply, n *Term) {
	st := r.st.fork()
	if !st.Assume(LULe(n, r.buf.Len)) {
		return
	}
	pos := c64(4)
	for k := 0; k < 12; k++ {
		if st.Holds(LEq(pos, n)) {
			r.ob("vpd-designators", k > 0, "no designator")
			r.c.Count("designators", k)
			return
		}
		if !st.Holds(LULt(Add(pos, c64(3)), n)) {
			r.obf("vpd-designators", false, "designator %d at %v does not fit the page of %v bytes", k, pos, n)
			return
		}
		v := r.m.readIn(st, r.buf.Arr, st.get(r.buf.Arr), r.buf.Path.index(Add(r.buf.Off, Add(pos, c64(3)))), types.Typ[types.Uint8])
		t, ok := v.(*Term)
		if !ok {
			r.obf("vpd-designators", false, "designator length %v at %v", valString(v), pos)
			return
		}
		pos = st.simp(Add(Add(pos, c64(4)), Resize(t, 64, false)))
	}
	r.obf("vpd-designators", false, "the designators do not end at the page's end: %v, %v", pos, n)
}

func ruleModeSense(o *outcome) {
	pc := And(cdb(2), Const(8, 0xc0))
	if !o.good() {
		if o.st.Holds(LEq(pc, Const(8, 0xc0))) {
			o.obf("mode-saved-values", o.senseIs(5, 0x39, 0), "saved values: %s, want SAVING PARAMETERS NOT SUPPORTED", o.senseStr())
			return
		}
		o.obf("mode-refusal", o.status == 2 && o.senseIs(5, 0x24, 0), "MODE SENSE ends with status %d, %s", o.status, o.senseStr())
		o.ob("mode-all-pages", !consistent(o.st, LNe(pc, Const(8, 0xc0)), LEq(And(cdb(2), Const(8, 0x3f)), Const(8, 0x3f))), "all mode pages are refused")
		for _, p := range []uint64{8, 0xa} { // caching and control page
			o.obf("mode-page-supported", !consistent(o.st, LNe(pc, Const(8, 0xc0)), LEq(And(cdb(2), Const(8, 0x3f)), Const(8, p)), LEq(cdb(3), Const(8, 0))), "mode page %02Xh is refused", p)
		}
		return
	}
	o.ob("mode-saved-values", o.st.Holds(LNe(pc, Const(8, 0xc0))), "saved values are returned although none can be saved")
	if o.e.dir != "R" {
		return
	}
	r := o.reply()
	if r == nil {
		return
	}
	n, q := r.whole()
	if q == nil || o.eq(Resize(r.n, 64, false), r.alloc) {
		return
	}
	q.c.Count("mode_sense_complete", 1)
	hdr := int64(4)
	bd := LEq(And(cdb(1), Const(8, 8)), Const(8, 0))
	bdl := int64(-1)
	switch {
	case q.st.Holds(bd):
		bdl = 8
	case q.st.Holds(bd.Not()):
		bdl = 0
	default:
		q.ob("mode-block-descriptor", false, "a reply that does not depend on DBD")
		return
	}
	if o.spec.cdb == 10 {
		hdr = 8
		q.wantBE("mode-data-length", 0, 2, Const(16, uint64(n-2)))
		q.wantBE("mode-block-descriptor", 6, 2, Const(16, uint64(bdl)))
	} else {
		q.wantByte("mode-data-length", 0, Const(8, uint64(n-1)))
		q.wantByte("mode-block-descriptor", 3, Const(8, uint64(bdl)))
		q.obf("mode-data-length", n-1 < 256, "a reply of %d bytes does not fit the length field", n)
	}
	if bdl == 8 {
		q.wantBE("mode-block-length", hdr+5, 3, Const(24, 1<<o.e.shift))
	}
	// the pages
	pos, k := hdr+bdl, 0
	all := q.st.Holds(LEq(And(cdb(2), Const(8, 0x3f)), Const(8, 0x3f)))
	for pos < n {
		b0, ok := q.byteC(pos)
		if !ok {
			q.obf("mode-pages", false, "page code at byte %d is not known", pos)
			return
		}
		l, ok1 := q.byteC(pos + 1)
		size := int64(l) + 2
		sub := uint64(0)
		if b0&0x40 != 0 {
			h, ok2 := q.byteC(pos + 2)
			lo, ok3 := q.byteC(pos + 3)
			sub = l
			size = int64(h<<8|lo) + 4
			ok1 = ok1 && ok2 && ok3
		}
		if !ok1 {
			q.obf("mode-pages", false, "page length at byte %d is not known", pos)
			return
		}
		if !all {
			q.obf("mode-page-requested", q.st.Holds(LEq(And(cdb(2), Const(8, 0x3f)), Const(8, b0&0x3f))) && q.st.Holds(LEq(cdb(3), Const(8, sub))), "page %02Xh/%02Xh was not asked for", b0&0x3f, sub)
		}
		pos += size
		k++
	}
	q.obf("mode-pages", pos == n && k > 0 && (all || k == 1), "%d pages end at byte %d of %d", k, pos, n)
	if all {
		q.obf("mode-all-pages", k >= 5, "only %d pages", k)
	}
}

func ruleAlloc(o *outcome) {
	if !o.good() || o.e.dir != "R" {
		return
	}
	a := o.allocLen()
	if a == nil {
		return
	}
	r := o.reply()
	if r == nil {
		return
	}
	if o.spec.kind == "sain" && !o.st.Holds(LEq(And(cdb(1), Const(8, 0x1f)), Const(8, 0x10))) {
		return
	}
	o.obf("within-allocation-length", o.st.Holds(LULe(Resize(r.n, 64, false), a)), "returns %v bytes, the allocation length is %v", r.n, a)
}

func ruleRSOC(o *outcome) {
	if !o.good() || o.e.dir != "R" || !o.st.Holds(LEq(And(cdb(1), Const(8, 0x1f)), Const(8, 0xc))) {
		return
	}
	r := o.reply()
	if r == nil {
		return
	}
	n, q := r.whole()
	if q == nil || o.eq(Resize(r.n, 64, false), r.alloc) {
		return
	}
	q.wantBE("rsoc-length", 0, 4, Const(32, uint64(n-4)))
	k := 0
	for pos := int64(4); pos < n; {
		op, ok := q.byteC(pos)
		fl, ok2 := q.byteC(pos + 5)
		hi, ok3 := q.byteC(pos + 6)
		lo, ok4 := q.byteC(pos + 7)
		if !ok || !ok2 || !ok3 || !ok4 {
			q.ob("rsoc-descriptor", false, "descriptor of unknown shape")
			return
		}
		s := specOf(byte(op))
		q.obf("rsoc-supported", s != nil, "lists operation code %02Xh, which is not implemented", op)
		if s != nil {
			q.obf("rsoc-cdb-length", int(hi<<8|lo) == s.cdb, "%s has %d CDB bytes, reported as %d", s.name, s.cdb, hi<<8|lo)
		}
		pos += 8
		if fl&2 != 0 {
			pos += 12
		}
		k++
		if pos > n {
			q.ob("rsoc-descriptor", false, "the last descriptor is cut off")
		}
	}
	q.obf("rsoc-descriptor", k > 0, "no descriptors")
	q.c.Count("rsoc_descriptors", k)
}

func init() {
	register(&Check{ID: "S10", Floor: 20,
		Rule: "On every GOOD path of READ CAPACITY(10) and of SERVICE ACTION IN/READ CAPACITY(16), for a unit of symbolic size with at least one block, every returned byte of RETURNED LOGICAL BLOCK ADDRESS equals the same byte of (size/block size)-1 (FFFFFFFFh in the 10 byte form when it does not fit), the block length equals the block size, LBPME equals thin provisioning, and the returned length is 8, or 32 cut to the allocation length.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("readcap10", "sain")}, ruleCapacity)
		}})
	register(&Check{ID: "S13", Floor: 100,
		Rule: "On every path of INQUIRY: the reply's peripheral byte follows the online state; standard data carries its own additional length and is only returned for page code 0; a VPD reply carries the page code asked for, a page length equal to what is returned unless cut by the allocation length; page 00h lists exactly the pages that are answered; page B2h's LBPU equals thin provisioning; page 83h's designators end exactly at the page's end; everything else is 5/24/00.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("inquiry")}, ruleInquiry)
			c.Ob("reachable", "complete standard INQUIRY", c.stats["inquiry_standard_complete"] > 0, nil)
			c.Ob("reachable", "designators of page 83h", c.stats["designators"] > 0, nil)
		}})
	register(&Check{ID: "S14", Floor: 100,
		Rule: "On every path of MODE SENSE(6/10): saved values are refused with 5/39/00, unknown pages with 5/24/00, known ones never; a reply that is not cut has a mode data length equal to what follows it, a block descriptor exactly when DBD is 0 with the unit's block length, and a chain of pages that are the ones asked for and end exactly at the end.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("modesense")}, ruleModeSense)
			c.Ob("reachable", "complete MODE SENSE replies", c.stats["mode_sense_complete"] > 0, nil)
		}})
	register(&Check{ID: "S15", Floor: 50,
		Rule: "On every GOOD path of every command with an allocation length, the length handed back to the transport is at most that allocation length.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("inquiry", "reqsense", "modesense", "reportluns", "maintin", "sain", "prin")}, ruleAlloc)
		}})
	register(&Check{ID: "S19", Floor: 20,
		Rule: "On every GOOD path of REPORT SUPPORTED OPERATION CODES that is not cut, the length field equals what follows it, and every listed operation code is one the device implements (the frozen table S08 decides), with its CDB length.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("maintin")}, ruleRSOC)
			c.Ob("reachable", "complete lists", c.stats["rsoc_descriptors"] > 0, nil)
		}})
}
