package main

import "fmt"

// mediumReady: nothing but the transfer itself stands in the way.
func (o *outcome) readyLits() []Lit {
	// Removable implies Online: assume not removable
	ls := []Lit{{BSym("lu.Removable"), false}, {BSym("lu.Online"), true}}
	return ls
}
func unprotected() []Lit {
	return []Lit{{BSym("lu.Readonly"), false}, {BSym("lu.SWP"), false}}
}

// inRange: the addressed blocks exist (lba+cnt <= capacity, and the first one exists).
func (o *outcome) inRangeLits() []Lit {
	return []Lit{LULe(o.cnt, o.cap()), LULe(o.lba, Sub(o.cap(), o.cnt)), LULt(o.lba, o.cap())}
}

// inRange proves it.
func (o *outcome) inRange() bool {
	return o.le(o.cnt, o.cap()) && o.le(o.lba, Sub(o.cap(), o.cnt))
}

func storeFailed(o *outcome) bool {
	for _, e := range o.evs("Read", "Write", "DataSync", "Unmap") {
		if evErr(e) {
			return true
		}
	}
	return false
}

func ruleRead(o *outcome) {
	if o.errRet {
		o.ob("read-completes", false, "the service returns an error instead of a status")
		return
	}
	if len(o.evs("Write", "Unmap")) > 0 {
		o.ob("read-changes-nothing", false, "a READ modifies the store")
	}
	rd := o.evs("Read")
	if o.good() {
		if len(rd) == 1 && evErr(rd[0]) && isEOF(o.st, rd[0]) {
			return // the store reports its end: reads as zeros
		}
		o.obf("read-one-access", len(rd) == 1 && !evErr(rd[0]), "GOOD with %d store reads", len(rd))
		if len(rd) != 1 || evErr(rd[0]) {
			return
		}
		off, n := o.term(rd[0].Args[0]), o.term(rd[0].Args[1])
		o.obf("read-offset", o.eq(off, o.bytes(o.lba)), "reads at byte %v, want LBA*block size = %v", off, o.bytes(o.lba))
		o.obf("read-length", o.eq(n, o.bytes(o.cnt)), "reads %v bytes, want TRANSFER LENGTH*block size = %v", n, o.bytes(o.cnt))
		data, ok := rd[0].Rets[0].(Slice)
		buf, ok2 := o.field(o.e.cmdIn(o.st), "Buffer").(Slice)
		if !ok || !ok2 {
			o.ob("read-data", false, "the data-in buffer has no known shape")
			return
		}
		o.obf("read-fits", o.le(o.bytes(o.cnt), buf.Len), "buffer of %v bytes, %v to return", buf.Len, o.bytes(o.cnt))
		same, how := sameBytes(o.m, o.st, buf, o.st, data, o.st, o.bytes(o.cnt))
		o.obf("read-data", same, "byte i of the data-in buffer is not byte i of what was read: %s", how)
		rs := o.term(o.field(o.e.cmdIn(o.st), "Resid"))
		o.obf("read-returned-length", rs != nil && o.eq(rs, Resize(o.bytes(o.cnt), 32, false)), "returned length is %v", rs)
		return
	}
	if o.e.dir != "R" || storeFailed(o) {
		return
	}
	// a READ of existing blocks into a large enough buffer is not refused
	ls := append(o.readyLits(), o.inRangeLits()...)
	ls = append(ls, LULe(o.bytes(o.cnt), Resize(o.e.inLen, 64, false)))
	ls = append(ls, o.noProt()...)
	o.ob("read-not-refused", !consistent(o.st, ls...), "a READ of existing blocks of a ready unit is refused")
}

// noProt: the protection field (RDPROTECT...) of the CDB is zero.
func (o *outcome) noProt() []Lit {
	if o.spec.cdb == 6 {
		return nil
	}
	return []Lit{LEq(And(cdb(1), Const(8, 0xe0)), Const(8, 0))}
}

func (e *scsiEnv) cmdIn(st *State) *Obj {
	if p, ok := e.m.Field(st, e.cmd, Path{}, "InSDBBuffer").(Ptr); ok && p.Obj != nil {
		return p.Obj
	}
	panic(Anchor("data-in buffer of the command"))
}

func (e *scsiEnv) cmdOut(st *State) *Obj {
	if p, ok := e.m.Field(st, e.cmd, Path{}, "OutSDBBuffer").(Ptr); ok && p.Obj != nil {
		return p.Obj
	}
	panic(Anchor("data-out buffer of the command"))
}

// received is the number of data-out bytes the command carries.
func (o *outcome) received() *Term {
	if o.e.dir == "W" {
		return Resize(o.e.outLen, 64, false)
	}
	return c64(0)
}

func ruleWrite(o *outcome) {
	if o.errRet {
		o.ob("write-completes", false, "the service returns an error instead of a status")
		return
	}
	if len(o.evs("Unmap")) > 0 {
		o.ob("write-only-writes", false, "a WRITE discards blocks")
	}
	want := o.bytes(o.cnt)
	recv := o.received()
	for _, w := range o.evs("Write") {
		data, ok := w.Args[0].(Slice)
		off := o.term(w.Args[1])
		if !ok || off == nil {
			o.ob("write-data", false, "a store write of unknown shape")
			continue
		}
		// both cases: everything received fits, or it does not
		for _, short := range []bool{true, false} {
			q := *o
			q.st = o.st.fork()
			l := LULe(recv, want)
			n := recv
			if !short {
				l, n = l.Not(), want
			}
			if !q.st.Assume(l) {
				continue
			}
			z := q.eq(n, c64(0)) && q.eq(data.Len, c64(0))
			q.obf("write-offset", z || q.eq(off, q.bytes(q.lba)), "writes at byte %v, want LBA*block size = %v", off, q.bytes(q.lba))
			q.obf("write-length", q.eq(data.Len, n), "writes %v bytes, want %v", data.Len, n)
			if z {
				continue
			}
			if q.e.dir != "W" {
				q.ob("write-data", false, "a write without data-out data")
				continue
			}
			src := Slice{Arr: q.e.outB, Off: c64(0), Len: recv, Cap: recv, Nil: litBool(false)}
			same, how := sameBytes(q.m, q.st, data, w.St, src, q.e.st, n)
			q.obf("write-data", same, "byte i written is not byte i of the data-out buffer: %s", how)
		}
	}
	if o.good() {
		ok := 0
		for _, w := range o.evs("Write") {
			if !evErr(w) {
				ok++
			}
		}
		nothing := o.eq(recv, c64(0)) || o.eq(o.cnt, c64(0))
		o.obf("write-performed", ok == 1 || (ok == 0 && nothing), "GOOD with %d successful store writes", ok)
		return
	}
	if storeFailed(o) || o.e.dir != "W" {
		return
	}
	if o.spec.kind != "write" {
		return
	}
	ls := append(append(append(o.readyLits(), unprotected()...), o.inRangeLits()...), o.noProt()...)
	o.ob("write-not-refused", !consistent(o.st, ls...), "a WRITE to existing blocks of a ready, unprotected unit is refused")
}

// senseOf gives key and additional sense code of the attached sense data.
func (o *outcome) senseOf() (key, asc, ascq *Term, desc bool, ok bool) {
	if o.sense == nil {
		return
	}
	s, isS := o.field(o.sense, "Buffer").(Slice)
	if !isS || s.Arr == nil {
		return
	}
	b := func(i int64) *Term { return o.m.ByteAt(o.st, s, i) }
	c := b(0)
	if c == nil || !c.IsConst() {
		return
	}
	switch c.C & 0x7f {
	case 0x70:
		return b(2), b(12), b(13), false, true
	case 0x72:
		return b(1), b(2), b(3), true, true
	}
	return
}

func (o *outcome) senseIs(k, a, q int) bool {
	if o.status != 2 {
		return false
	}
	key, asc, ascq, _, ok := o.senseOf()
	if !ok || key == nil || !key.IsConst() || int(key.C&0xf) != k {
		return false
	}
	if a >= 0 && (asc == nil || !asc.IsConst() || int(asc.C) != a) {
		return false
	}
	if q >= 0 && (ascq == nil || !ascq.IsConst() || int(ascq.C) != q) {
		return false
	}
	return true
}

func (o *outcome) senseStr() string {
	k, a, q, _, ok := o.senseOf()
	if !ok {
		return "no sense data"
	}
	return fmt.Sprintf("sense %v/%v/%v", k, a, q)
}

func ruleRange(o *outcome) {
	for _, e := range o.evs("Read", "Write", "DataSync", "DataAdvise") {
		var off, n *Term
		if e.Name == "Write" {
			s, ok := e.Args[0].(Slice)
			if ok {
				n = s.Len
			}
			off = o.term(e.Args[1])
		} else {
			off, n = o.term(e.Args[0]), o.term(e.Args[1])
		}
		if off == nil || n == nil {
			o.ob("access-known", false, "a store access of unknown extent")
			continue
		}
		whole := o.bytes(o.cap())
		lo := o.bytes(o.lba)
		hi := Sub(whole, lo) // bytes from the LBA to the end of the unit
		o.obf("access-in-unit", o.le(off, luSize()) && o.le(n, Sub(luSize(), off)), "%s of %v bytes at %v may leave the unit", e.Name, n, off)
		o.obf("access-in-cdb-range", o.le(o.lba, o.cap()) && o.le(lo, off), "%s at %v starts before the addressed block", e.Name, off)
		// up to the addressed length; zero means "to the end" for the commands that say so
		toEnd := o.spec.kind == "sync" || o.spec.kind == "wsame"
		q := *o
		z := LEq(o.cnt, c64(0))
		for _, zero := range []bool{true, false} {
			q.st = o.st.fork()
			l := z
			if !zero {
				l = z.Not()
			}
			if !q.st.Assume(l) {
				continue
			}
			lim := q.bytes(o.cnt)
			if zero && toEnd {
				lim = hi
				if o.spec.kind == "sync" {
					lim = Sub(luSize(), lo)
				}
			}
			rel := Sub(off, lo)
			q.obf("access-in-cdb-range", q.le(rel, lim) && q.le(n, Sub(lim, rel)), "%s of %v bytes at %v leaves the addressed range of %v bytes at %v", e.Name, n, off, lim, lo)
		}
	}
	if len(o.evs("Unmap")) > 0 {
		o.ob("access-known", false, "a medium access command discards blocks")
	}
	if o.spec.kind == "sync" || o.spec.kind == "verify" || true {
		// out of range: refused with LOGICAL BLOCK ADDRESS OUT OF RANGE
		if o.good() {
			o.ob("out-of-range-refused", o.inRange(), "GOOD although the addressed blocks may not all exist")
		} else {
			key, asc, ascq, _, ok := o.senseOf()
			if ok && key.IsConst() && asc.IsConst() && ascq.IsConst() && asc.C == 0x21 {
				o.ob("out-of-range-sense", key.C == 5 && ascq.C == 0, "wrong sense for a bad address")
				o.ob("in-range-accepted", !consistent(o.st, o.inRangeLits()...), "existing blocks are refused as out of range")
			}
		}
	}
}

func init() {
	register(&Check{ID: "S01", Floor: 200,
		Rule: "For READ(6/10/12/16), every path of the command from the target service's entry to its return is interpreted with a symbolic CDB, buffer length, unit size and unit flags. On a GOOD path there is exactly one successful store read, at LBA*block size for TRANSFER LENGTH*block size bytes, an arbitrary byte of the data-in buffer equals the same byte of the store's data, the returned length is the same; no path writes or discards; the file and remote stores' Read is held to the rules of B01; a refusal without a store error contradicts 'ready unit, existing blocks, large enough buffer'.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("read")}, func(o *outcome) { o.cases(ruleRead) })
			storeRules(c, "r")
			c.Ob("reachable", "GOOD READ", c.obs["read-data|28h READ(10)"] != nil && c.obs["read-data|88h READ(16)"] != nil, nil)
		}})
	register(&Check{ID: "S02", Floor: 300,
		Rule: "For WRITE and WRITE AND VERIFY (6/10/12/16), on every path each store write is at LBA*block size, is min(received, TRANSFER LENGTH*block size) bytes long, and an arbitrary byte of it equals the same byte of the data-out buffer; GOOD implies exactly one successful write unless nothing was to be written; the file and remote stores' Write is held to the rules of B01; a refusal without store error contradicts 'ready, unprotected unit, existing blocks'.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("write", "wverify")}, func(o *outcome) { o.cases(ruleWrite) })
			storeRules(c, "w")
		}})
	register(&Check{ID: "S03", Floor: 1000,
		Rule: "For every command that addresses blocks, each store access on each path is proved to lie inside the unit and inside the range the CDB addresses, without wrap-around of any 64-bit quantity; GOOD implies all addressed blocks exist; the out-of-range sense is 5/21/00 and appears only when the range does not exist.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("read", "write", "wverify", "verify", "orwrite", "wsame", "sync", "prefetch")}, func(o *outcome) { o.cases(ruleRange) })
		}})
}
