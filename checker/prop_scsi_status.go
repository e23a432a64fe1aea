package main

import (
	"fmt"
)

var readonlyL, swpL = Lit{BSym("lu.Readonly"), true}, Lit{BSym("lu.SWP"), true}

// modifying commands are refused on a write-protected unit
func modifying(kind string) bool {
	switch kind {
	case "write", "wverify", "orwrite", "wsame", "unmap", "format":
		return true
	}
	return false
}

func ruleProtect(o *outcome) {
	unprot := o.st.Holds(readonlyL.Not()) && o.st.Holds(swpL.Not())
	for _, e := range o.evs("Write", "Unmap") {
		o.obf("no-modification-when-protected", unprot, "store.%s although the unit may be write protected", e.Name)
	}
	if o.spec == nil {
		return
	}
	if modifying(o.spec.kind) {
		if o.good() {
			o.ob("modifying-command-refused", unprot, "GOOD although the unit may be write protected")
		} else if o.senseIs(7, -1, -1) {
			o.obf("write-protect-sense", o.senseIs(7, 0x27, 0), "wrong sense: %s", o.senseStr())
			o.ob("not-refused-when-unprotected", !consistent(o.st, unprotected()...), "refused as write protected although it is not")
		}
	}
	if o.spec.kind == "modesense" && o.good() {
		// WP is bit 7 of the device specific parameter
		pos := int64(2)
		if o.spec.cdb == 10 {
			pos = 3
		}
		in := o.e.cmdIn(o.st)
		buf, _ := o.field(in, "Buffer").(Slice)
		n := o.term(o.field(in, "Resid"))
		if buf.Arr == nil || n == nil || o.e.dir != "R" {
			return
		}
		q := *o
		q.st = o.st.fork()
		if !consistent(q.st, LULt(c64(pos), buf.Len), LULt(Const(32, uint64(pos)), n)) {
			return
		}
		q.st.Assume(LULt(c64(pos), buf.Len))
		q.st.Assume(LULt(Const(32, uint64(pos)), n))
		for _, prot := range []bool{true, false} {
			for _, l := range []Lit{readonlyL, swpL} {
				z := q.st.fork()
				if prot {
					if !z.Assume(l) {
						continue
					}
				} else if !z.Assume(readonlyL.Not()) || !z.Assume(swpL.Not()) {
					continue
				}
				b := o.m.ByteAt(z, buf, pos)
				want := uint64(0)
				if prot {
					want = 0x80
				}
				q.obf("mode-sense-wp", b != nil && z.Holds(LEq(And(b, Const(8, 0x80)), Const(8, want))), "write protect bit in %v, protected=%v", b, prot)
			}
		}
	}
}

// symbolicWCE makes the write cache enable bit of the caching mode page arbitrary.
func symbolicWCE(e *scsiEnv, must bool) {
	sl, ok := e.m.Field(e.st, e.lu, Path{}, "ModePages").(Slice)
	if !ok || sl.Arr == nil || !sl.Len.IsConst() {
		panic(Anchor("mode pages of a unit"))
	}
	found := false
	for i := int64(0); i < int64(sl.Len.C); i++ {
		p := sl.Path.index(Add(sl.Off, c64(i)))
		pc, _ := e.m.Field(e.st, sl.Arr, p, "PageCode").(*Term)
		sp, _ := e.m.Field(e.st, sl.Arr, p, "SubPageCode").(*Term)
		if pc == nil || sp == nil || !pc.IsConst() || pc.C != 8 || !sp.IsConst() || sp.C != 0 {
			continue
		}
		d, ok := e.m.Field(e.st, sl.Arr, p, "Data").(Slice)
		if !ok || d.Arr == nil {
			continue
		}
		e.m.Write(e.st, d.Arr, d.Path.index(d.Off), Sym(8, "caching[0]"))
		found = true
	}
	if !found && must {
		panic(Anchor("caching mode page"))
	}
}

func ruleDurable(o *outcome) {
	if !o.good() {
		return
	}
	covers := func(q *outcome, s *Event, off, n *Term) bool {
		so, sn := q.term(s.Args[0]), q.term(s.Args[1])
		if so == nil || sn == nil {
			return false
		}
		return q.le(so, off) && q.le(Sub(off, so), sn) && q.le(n, Sub(sn, Sub(off, so)))
	}
	switch o.spec.kind {
	case "sync":
		q := *o
		off := q.bytes(q.lba)
		for _, zero := range []bool{true, false} {
			q.st = o.st.fork()
			l := LEq(o.cnt, c64(0))
			n := Sub(luSize(), off)
			if !zero {
				l, n = l.Not(), q.bytes(q.cnt)
			}
			if !q.st.Assume(l) {
				continue
			}
			done := false
			for _, s := range q.evs("DataSync") {
				done = done || (!evErr(s) && covers(&q, s, off, n))
			}
			q.obf("sync-cache-flushes", done, "GOOD without a successful flush of %v bytes at %v", n, off)
		}
	case "write", "orwrite", "wverify", "wsame":
		var pend []*Event
		var need Lit
		conds := []Lit{LEq(And(Sym(8, "caching[0]"), Const(8, 4)), Const(8, 0))} // WCE clear
		if o.spec.cdb != 6 && (o.spec.kind == "write" || o.spec.kind == "orwrite") {
			conds = append(conds, LEq(And(cdb(1), Const(8, 8)), Const(8, 8))) // FUA
		}
		names := []string{"write-cache-disabled", "force-unit-access"}
		for i, l := range conds {
			need = l
			q := *o
			q.st = o.st.fork()
			if !q.st.Assume(need) {
				continue
			}
			pend = nil
			for _, e := range q.evs("Write", "DataSync") {
				if e.Name == "Write" {
					if !evErr(e) {
						pend = append(pend, e)
					}
					continue
				}
				if evErr(e) {
					continue
				}
				var left []*Event
				for _, w := range pend {
					s, _ := w.Args[0].(Slice)
					off := q.term(w.Args[1])
					if s.Len != nil && off != nil && (covers(&q, e, off, s.Len) || q.eq(s.Len, c64(0))) {
						continue
					}
					left = append(left, w)
				}
				pend = left
			}
			var rest []*Event
			for _, w := range pend {
				if s, ok := w.Args[0].(Slice); ok && q.eq(s.Len, c64(0)) {
					continue
				}
				rest = append(rest, w)
			}
			q.obf(names[i], len(rest) == 0, "GOOD although %d store writes are not followed by a successful flush", len(rest))
		}
	}
}

func ruleStoreError(o *outcome) {
	for _, e := range o.evs("Read", "Write", "DataSync", "Unmap") {
		if !evErr(e) {
			continue
		}
		if e.Name == "Read" && o.spec != nil && o.spec.kind == "read" && isEOF(o.st, e) {
			continue
		}
		o.obf("store-error-reported/"+e.Name, o.status == 2 && o.sense != nil && !o.errRet, "store.%s failed and the status is %d", e.Name, o.status)
		if o.status == 2 {
			o.obf("store-error-sense", o.senseIs(3, -1, -1) || o.senseIs(4, -1, -1), "store.%s failed: %s, want MEDIUM ERROR or HARDWARE ERROR", e.Name, o.senseStr())
		}
	}
	if o.spec != nil && o.spec.kind == "prefetch" {
		return
	}
}

func ruleSense(o *outcome) {
	o.ob("service-returns-status", !o.errRet, "the service returns an error for a known target")
	o.obf("status-defined", o.status == 0 || o.status == 2 || o.status == 0x18, "status is %d", o.status)
	switch o.status {
	case 0:
		o.ob("good-without-sense", o.nosens, "GOOD with sense data")
	case 0x18:
		o.ob("conflict-without-sense", o.nosens, "RESERVATION CONFLICT with sense data")
	case 2:
		if o.sense == nil {
			o.ob("check-condition-has-sense", false, "CHECK CONDITION without sense data")
			return
		}
		s, ok := o.field(o.sense, "Buffer").(Slice)
		ln := o.term(o.field(o.sense, "Length"))
		if !ok || s.Arr == nil || ln == nil {
			o.ob("check-condition-has-sense", false, "sense data of unknown shape")
			return
		}
		key, asc, ascq, desc, ok := o.senseOf()
		o.ob("sense-format", ok, "the response code is neither fixed (70h) nor descriptor (72h)")
		if !ok {
			return
		}
		want := uint64(18)
		fl := Lit{BSym("lu.SenseFormat"), false}
		if desc {
			want = 8
			fl = fl.Not()
		}
		// a command for a unit that does not exist has no unit to take the format from
		o.obf("sense-format", o.st.Holds(fl), "descriptor format=%v does not follow the unit's setting", desc)
		o.obf("sense-length", o.eq(s.Len, c64(int64(want))) && o.st.Holds(LEq(ln, Const(32, want))), "sense data is %v bytes (declared %v), want %d", s.Len, ln, want)
		add := o.m.ByteAt(o.st, s, 7)
		o.obf("sense-additional-length", add != nil && add.IsConst() && add.C == want-8, "additional sense length is %v", add)
		o.obf("sense-key", key != nil && key.IsConst() && key.C&0xf != 0 && key.C&0xf0 == 0 && asc != nil && asc.IsConst() && ascq != nil && ascq.IsConst(), "sense key %v", key)
	}
}

func ruleOpcode(o *outcome) {
	if o.spec == nil {
		o.obf("unsupported-opcode", o.status == 2 && o.senseIs(5, 0x20, 0), "status %d, %s; want CHECK CONDITION, ILLEGAL REQUEST, INVALID COMMAND OPERATION CODE", o.status, o.senseStr())
		o.ob("unsupported-opcode-no-access", len(o.bs) == 0, "an unsupported opcode touches the store")
		return
	}
	o.ob("supported-opcode", !o.senseIs(5, 0x20, 0), "a supported opcode is refused as unknown")
	var sas []int
	switch o.spec.kind {
	case "sain":
		sas = []int{0x10, 0x12}
	case "maintin":
		sas = []int{0x0c}
	case "prin":
		sas = []int{0, 1, 2}
	case "prout":
		sas = []int{0, 1, 2, 3, 4, 6, 7}
	default:
		return
	}
	sa := And(cdb(1), Const(8, 0x1f))
	var not []Lit
	for _, s := range sas {
		not = append(not, LNe(sa, Const(8, uint64(s))))
	}
	if !consistent(o.st, not...) {
		return // a supported service action
	}
	o.obf("unsupported-service-action", o.status == 2 && (o.senseIs(5, 0x24, 0) || o.senseIs(5, 0x20, 0)) && len(o.bs) == 0, "status %d, %s; want CHECK CONDITION, ILLEGAL REQUEST", o.status, o.senseStr())
}

func ruleVerify(o *outcome) {
	wv := o.spec.kind == "wverify"
	bytchk := LEq(And(cdb(1), Const(8, 2)), Const(8, 2))
	miscompare := o.senseIs(0xe, -1, -1)
	if miscompare {
		o.obf("miscompare-sense", o.senseIs(0xe, 0x1d, 0), "wrong sense for a miscompare: %s", o.senseStr())
	}
	if !o.good() {
		if !storeFailed(o) && !miscompare && !wv && o.e.dir == "W" {
			ls := append(append(o.readyLits(), o.inRangeLits()...), o.noProt()...)
			o.obf("verify-not-refused", !consistent(o.st, ls...), "a VERIFY of existing blocks is refused: %s", o.senseStr())
		}
		if miscompare {
			// only after a comparison, or with too little data to compare
			seen := o.st.Holds(LULt(o.received(), o.bytes(o.cnt)))
			for _, e := range o.eqs {
				if l, ok := e.Rets[0].(Lit); ok && o.st.Holds(l.Not()) {
					seen = true
				}
			}
			o.ob("miscompare-after-comparison", seen, "MISCOMPARE without a difference")
		}
		return
	}
	q := *o
	q.st = o.st.fork()
	if !wv && !q.st.Assume(bytchk) {
		return
	}
	want := q.bytes(q.cnt)
	if q.eq(want, c64(0)) {
		return
	}
	rd := q.evs("Read")
	o2 := &q
	if !q.st.Assume(LNe(q.cnt, c64(0))) {
		return
	}
	ok := false
	how := fmt.Sprintf("%d store reads, %d comparisons", len(rd), len(q.eqs))
	for _, r := range rd {
		if evErr(r) || !q.eq(q.term(r.Args[0]), q.bytes(q.lba)) || !q.eq(q.term(r.Args[1]), want) {
			continue
		}
		data, _ := r.Rets[0].(Slice)
		for _, e := range q.eqs {
			l, isL := e.Rets[0].(Lit)
			if !isL || !q.st.Holds(l) {
				continue
			}
			a, _ := e.Args[0].(Slice)
			b, _ := e.Args[1].(Slice)
			if a.Arr != data.Arr {
				a, b = b, a
			}
			if a.Arr == nil || b.Arr == nil || a.Arr != data.Arr || !q.eq(a.Len, want) || !q.eq(b.Len, want) || !q.eq(a.Off, data.Off) {
				continue
			}
			src := Slice{Arr: q.e.outB, Off: c64(0), Len: q.received(), Cap: q.received(), Nil: litBool(false)}
			if q.e.dir != "W" {
				continue
			}
			same, h := sameBytes(q.m, q.st, b, e.St, src, q.e.st, want)
			how = h
			if same {
				ok = true
			}
		}
	}
	o2.obf("verify-compares", ok, "GOOD without a successful comparison of the data-out buffer with the addressed blocks (%s)", how)
	if wv {
		// the blocks are read back after they were written
		w := -1
		r := -1
		for i, e := range q.bs {
			if e.Name == "Write" {
				w = i
			}
			if e.Name == "Read" {
				r = i
			}
		}
		o2.ob("verify-after-write", w >= 0 && r > w, "the comparison happens before the write")
	}
}

func ruleReady(o *outcome) {
	notReady := []Lit{{BSym("lu.Removable"), true}, {BSym("lu.Online"), false}}
	switch o.spec.kind {
	case "tur":
		if o.good() {
			o.ob("test-unit-ready", o.st.Holds(Lit{BSym("lu.Online"), true}), "GOOD although the unit may be offline")
		} else {
			o.obf("test-unit-ready", o.senseIs(2, -1, -1) && o.st.Holds(Lit{BSym("lu.Online"), false}), "status %d, %s", o.status, o.senseStr())
			if o.st.Holds(notReady[0]) {
				o.ob("medium-not-present", o.senseIs(2, 0x3a, 0), "removed medium is not reported as such")
			}
		}
		return
	case "startstop":
		on := o.m.Field(o.st, o.e.lu, attrsPath(o.e), "Online")
		l, ok := on.(Lit)
		if !ok {
			o.ob("start-stop", false, "unit state of unknown shape")
			return
		}
		if o.status == 0x18 {
			return
		}
		pc := LEq(And(cdb(4), Const(8, 0xf0)), Const(8, 0))
		for _, start := range []uint64{0, 1} {
			for _, loej := range []uint64{0, 2} {
				for _, rem := range []bool{true, false} {
					q := o.st.fork()
					if !q.Assume(LEq(And(cdb(4), Const(8, 1)), Const(8, start))) || !q.Assume(LEq(And(cdb(4), Const(8, 2)), Const(8, loej))) || !q.Assume(pc) || !q.Assume(Lit{BSym("lu.Removable"), rem}) {
						continue
					}
					old := Lit{BSym("lu.Online"), true}
					switch {
					case loej == 0 || !rem || !o.good():
						same := (q.Holds(l) && q.Holds(old)) || (q.Holds(l.Not()) && q.Holds(old.Not())) || l == old
						o.obf("start-stop", same, "the medium state changes (loej=%d start=%d removable=%v)", loej, start, rem)
					case start == 1:
						o.ob("start-stop", q.Holds(l), "load does not make the medium available")
					default:
						o.ob("start-stop", q.Holds(l.Not()), "eject leaves the medium available")
					}
				}
			}
		}
		return
	}
	// medium access
	if consistent(o.st, notReady...) {
		q := o.st.fork()
		for _, l := range notReady {
			q.Assume(l)
		}
		ok := o.senseIs(2, 0x3a, 0)
		if o.spec.kind == "unmap" && !o.st.Holds(LEq(And(cdb(1), Const(8, 1)), Const(8, 0))) {
			ok = ok || o.senseIs(5, 0x24, 0) // ANCHOR is a CDB field the unit does not support
		}
		o.obf("medium-not-present", ok && len(o.bs) == 0, "status %d, %s for a removed medium", o.status, o.senseStr())
	} else if o.senseIs(2, -1, -1) {
		o.ob("ready-accepted", false, "NOT READY although the medium is present")
	}
}

func attrsPath(e *scsiEnv) Path {
	p, t := fieldPath(Path{}, e.lu.T, "Attrs")
	if t == nil {
		panic(Anchor("field Attrs"))
	}
	return p
}

func init() {
	register(&Check{ID: "S04", Floor: 500,
		Rule: "On every path of every one of the 256 operation codes, a store write or discard happens only where the path proves the unit neither read-only nor software write protected; WRITE, WRITE AND VERIFY, ORWRITE, WRITE SAME, UNMAP and FORMAT UNIT return GOOD only there, DATA PROTECT sense is 7/27/00 and appears only on a protected unit; MODE SENSE's write protect bit equals the protection state.",
		Run:  func(c *Ctx) { c.scsi(scsiRun{ops: allOps()}, ruleProtect) }})
	register(&Check{ID: "S05", Floor: 200,
		Rule: "With the caching page's WCE bit arbitrary: on every GOOD path of a writing command that has FUA set or WCE clear, each successful store write is followed by a successful store flush covering it; on every GOOD path of SYNCHRONIZE CACHE there is a successful flush covering the addressed range (to the end of the unit for length 0). The file store's flush reaches fdatasync/fsync of the open file and returns its error.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("write", "orwrite", "wverify", "wsame", "sync"), prep: func(e *scsiEnv) { symbolicWCE(e, true) }}, func(o *outcome) { o.cases(ruleDurable) })
			storeFlush(c)
		}})
	register(&Check{ID: "S06", Floor: 300,
		Rule: "On every path of every operation code on which a store read, write, flush or discard fails, the status is CHECK CONDITION with MEDIUM ERROR or HARDWARE ERROR sense (the one exception: a READ for which the store reports end of file). The file and remote stores never report success for an operation the operating system or the remote side failed.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: allOps()}, ruleStoreError)
			storeRules(c, "rwf")
		}})
	register(&Check{ID: "S07", Floor: 1000,
		Rule: "On every path of every operation code the final status is GOOD, CHECK CONDITION or RESERVATION CONFLICT; sense data is present exactly with CHECK CONDITION, in the unit's format (fixed: 70h, 18 bytes, additional length 10; descriptor: 72h, 8 bytes), with a non-zero key and matching lengths.",
		Run:  func(c *Ctx) { c.scsi(scsiRun{ops: allOps()}, ruleSense) }})
	register(&Check{ID: "S08", Floor: 500,
		Rule: "Every operation code outside the frozen table of supported ones ends, on every path, in CHECK CONDITION 5/20/00 without store access; supported ones never do; the service-action families refuse every service action outside their table with ILLEGAL REQUEST and no store access.",
		Run:  func(c *Ctx) { c.scsi(scsiRun{ops: allOps()}, ruleOpcode) }})
	register(&Check{ID: "S11", Floor: 500,
		Rule: "Every index, slice, conversion, allocation, division, type assertion and pointer or interface dereference on every path of every operation code, for both data directions, arbitrary CDB bytes, buffer lengths, unit size and unit state, is proved in range / non-nil.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: allOps()}, nil, func(m *Machine, op byte, dir string, shift uint) {
				for _, p := range m.Panics {
					p := p
					c.Ob("no-panic", opName(op)+" "+p.Kind+" in "+short(p.Fn.String()), false, func() string {
						return fmt.Sprintf("%s at %s: %s\npath: %v\nfacts: %v", p.Kind, p.Pos, p.Detail, p.Stack, p.Facts)
					})
				}
				c.Ob("no-panic", opName(op), len(m.Panics) == 0, func() string { return m.Panics[0].Detail + " at " + m.Panics[0].Pos })
				c.Count("instructions_interpreted", 0)
			})
		}})
	register(&Check{ID: "S12", Floor: 50,
		Rule: "On every GOOD path of VERIFY with BYTCHK and of WRITE AND VERIFY there is a store read of exactly the addressed blocks (after the write, for the latter) and a successful byte comparison of it with the data-out buffer; MISCOMPARE sense is 0E/1D/00 and appears only after a difference; VERIFY of existing blocks is not refused otherwise.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("verify", "wverify")}, func(o *outcome) { o.cases(ruleVerify) })
		}})
	register(&Check{ID: "S18", Floor: 100,
		Rule: "TEST UNIT READY is GOOD exactly when the unit is online; START STOP UNIT changes the medium state of a removable unit as LOEJ/START say and nothing otherwise; medium access commands on a removed medium end in 2/3A/00 without store access and never report NOT READY otherwise.",
		Run: func(c *Ctx) {
			c.scsi(scsiRun{ops: opsOf("tur", "startstop", "read", "write", "wverify", "verify", "orwrite", "wsame", "prefetch", "unmap", "readcap10")}, ruleReady)
		}})
}
