package main

import "fmt"

// Commands out of order (RFC 7143 4.2.2.1): the judge plays the CmdSN counter
// and the held commands over a path and knows which requests have to be
// answered in each turn, in which order.

type heldReq struct {
	k  int
	sn *Term
}

// order judges one path; the first PDUs are the login and an immediate ping,
// whose answer advertises the window.
func (c *Ctx) cmdOrder(p *iPath) {
	mon := &iMon{p: p, rules: map[string]bool{"data-out": true}}
	exp := Const(32, sn0)
	var win *Term
	var held []heldReq
	execs := 0
	done := false
	add := func(t *Term, n uint64) *Term { return p.st.simp(Add(t, Const(32, n))) }
	for _, t := range p.turns {
		if t.k < 1 {
			continue
		}
		k := t.k
		name := fmt.Sprintf("PDU %d", k)
		if done {
			p.ob("order", name, len(t.pdus) == 0 && len(t.of("scsi", "Execute")) == 0, "something happens after the logout")
			continue
		}
		op := p.e.script[k].op
		var due []int
		before := exp
		switch {
		case op&0x40 != 0 || op&0x3f == opDataOut:
			due = append(due, k)
		default:
			sn := p.h32(k, 24)
			d := p.st.simp(Sub(sn, exp))
			next := LEq(d, Const(32, 0))
			in := LULe(d, win)
			switch {
			case p.holds(next):
				due = append(due, k)
				exp = add(exp, 1)
			case p.may(next):
				p.ob("analysis-complete", name, false, "undecided: whether the CmdSN is the next one")
				return
			case p.holds(in):
				dup := false
				for _, h := range held {
					if p.eq(h.sn, sn) {
						dup = true
					} else if p.may(LEq(h.sn, sn)) {
						p.ob("analysis-complete", name, false, "undecided: whether the CmdSN is a duplicate")
						return
					}
				}
				if !dup {
					held = append(held, heldReq{k, sn})
				}
			case p.may(in):
				// the target need not have looked: it may only have ignored it
				p.ob("window", name, false, "the target does not find out whether the CmdSN is within the window")
				return
			}
		}
		for again := true; again; {
			again = false
			for i, h := range held {
				if p.eq(h.sn, exp) {
					due = append(due, h.k)
					held = append(held[:i:i], held[i+1:]...)
					exp = add(exp, 1)
					again = true
					break
				} else if p.may(LEq(h.sn, exp)) {
					p.ob("analysis-complete", name, false, "undecided: whether a held command is the next one")
					return
				}
			}
		}
		// a logout ends it
		for i, x := range due {
			if p.e.script[x].op&0x3f == opLogout {
				due = due[:i+1]
				done = true
				break
			}
		}
		// the answers
		var got []int
		bad, more := "", false
		for _, w := range t.pdus {
			found := -1
			for x := 1; x <= k; x++ {
				if w.isHdr(16, 4, x, 16) {
					found = x
					break
				}
			}
			if w.op() == inRej && found < 0 {
				for x := 1; x <= k; x++ {
					ok := true
					for i := int64(16); i < 20; i++ {
						b := w.b(48 + i)
						ok = ok && b != nil && p.eq(b, p.hb(x, int(i)))
					}
					if ok {
						found = x
					}
				}
			}
			if found < 0 {
				bad = fmt.Sprintf("a PDU with opcode %02x answers no request", w.op())
				break
			}
			if !more || len(got) == 0 || got[len(got)-1] != found {
				got = append(got, found)
			}
			more = w.op() == inDataIn && w.flag(1, 0) == 0
		}
		want := fmt.Sprint(due)
		p.ob("order", name, bad == "" && fmt.Sprint(got) == want, "%sthe requests %v are answered, want %s", bad, got, want)
		// the commands executed
		var cmds []int
		for _, x := range due {
			if p.e.script[x].op&0x3f == opCmd {
				cmds = append(cmds, x)
			}
		}
		ex := t.of("scsi", "Execute")
		p.ob("execute", name, len(ex) == len(cmds), "%d commands are executed, want %v", len(ex), cmds)
		for i, e := range ex {
			if i >= len(cmds) {
				break
			}
			execs++
			tk := &iTask{k: cmds[i], exec: e, n: execs, edtl: p.e.hbe(cmds[i], 20, 4, 32)}
			o, path, st := mon.scmd(tk)
			ok := o != nil
			if ok {
				tag, is := p.m.Field(st, o, path, "Tag").(*Term)
				ok = is && p.eq(tag, Resize(p.h32(tk.k, 16), tag.W, false))
			}
			p.ob("execute", fmt.Sprintf("%s %d", name, i), ok, "a command is executed out of order, want the one of PDU %d", tk.k)
			if ok && p.bit(tk.k, 1, 5) == 1 && p.eq(Resize(tk.edtl, 64, false), p.e.dlTerm(tk.k)) {
				tk.parts = []dataPart{{tk.k, c64(0), p.e.dlTerm(tk.k)}}
				mon.buffer(tk, name)
			}
		}
		// the numbers advertised
		for i, w := range t.pdus {
			e := w.be(28, 4, 32)
			if e == nil {
				p.ob("expcmdsn", name, false, "ExpCmdSN is not known")
				continue
			}
			d, all := p.st.simp(Sub(e, before)), p.st.simp(Sub(exp, before))
			p.ob("expcmdsn", name, d.IsConst() && all.IsConst() && d.C <= all.C && (i < len(t.pdus)-1 || d.C == all.C || done), "ExpCmdSN is %s, %s commands after %s were carried out", e, all, before)
			mx := w.be(32, 4, 32)
			wd := p.st.simp(Sub(mx, e))
			p.ob("maxcmdsn", name, wd.IsConst() && wd.C < 1<<31 && (win == nil || win == wd), "the window is %s, before it was %s", wd, win)
			if win == nil {
				win = wd
			}
		}
		if win == nil {
			p.ob("window", name, false, "no window is advertised")
			return
		}
		closed := t.closed[t.conn]
		p.ob("close", name, closed == done, "the connection is closed: %v, a logout was carried out: %v", closed, done)
	}
}

// orderKinds are the requests of the ordering scripts.
func orderKind(i int, n int) pdu {
	tag := itt(uint64(0x100 + n))
	switch i % 6 {
	case 0:
		return req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0), tag)
	case 1:
		return req(opNop, 0, 0x80, 0, tag)
	case 2:
		return req(opCmd, 0, 0xa0, 8, edtl(8), cdb0(0x2a), tag)
	case 3:
		return req(opTMF, 0, -1, 0, hset{1: 0x81}.be(20, 4, 0x9999), tag)
	case 4:
		return req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x28), tag)
	}
	t := req(opText, 0, 0x80, 0, tag)
	t.text = kvText("X-a=b")
	return t
}

func (p pdu) at(n int) pdu {
	p.set = hset(p.set).with(sn(sn0 + uint32(n)))
	return p
}

func orderScripts() []iscsiScn {
	var out []iscsiScn
	add := func(name string, pdus ...pdu) {
		s := iscsiScn{name: name, script: append([]pdu{seqLogin(tgtA), req(opNop|0x40, 0, 0x80, 0, itt(0x7fff))}, pdus...)}
		s.results = []scsiResult{{status: 0}}
		out = append(out, s)
	}
	last := func(n int) pdu { return req(opNop|0x40, 0, 0x80, 0, itt(0x7ffe)) }
	for x := 0; x < 256; x++ {
		var ds [4]int
		name := "CmdSN offsets"
		var ps []pdu
		for i := range ds {
			ds[i] = x >> (2 * i) & 3
			ps = append(ps, orderKind(i+ds[i]*x, i).at(ds[i]))
			name += fmt.Sprintf(" %d", ds[i])
		}
		add(name, append(ps, last(0))...)
	}
	// beside the window
	for _, d := range []int{-1, -2, -128, 127, 128, 129, 130, 1 << 16, 1<<31 - 1, -1 << 31} {
		add(fmt.Sprintf("CmdSN offset %d, then 0 and 1", d), orderKind(0, 0).at(d), orderKind(1, 1).at(0), orderKind(2, 2).at(1), last(0))
		add(fmt.Sprintf("CmdSN offset 1, %d, then 0", d), orderKind(0, 0).at(1), orderKind(1, 1).at(d), orderKind(4, 2).at(0), last(0))
	}
	// any number
	anySN := func(p pdu) pdu {
		for i := 24; i < 28; i++ {
			delete(p.set, i)
		}
		return p
	}
	for i := 0; i < 6; i++ {
		add(fmt.Sprintf("any CmdSN, kind %d", i), anySN(orderKind(i, 0)), orderKind(1, 1).at(0), orderKind(0, 2).at(1), last(0))
	}
	add("two of any CmdSN", anySN(orderKind(0, 0)), anySN(orderKind(1, 1)), orderKind(4, 2).at(0), last(0))
	add("any CmdSN behind a held one", orderKind(2, 0).at(1), anySN(orderKind(0, 1)), orderKind(1, 2).at(0), last(0))
	// immediate requests overtake
	for i := 0; i < 6; i++ {
		im := orderKind(i, 1)
		im.op |= 0x40
		add(fmt.Sprintf("immediate request of kind %d among held ones", i), orderKind(0, 0).at(2), anySN(im), orderKind(1, 2).at(1), orderKind(2, 3).at(0), last(0))
	}
	// a logout waits for its turn
	lo := func(d int) pdu { return req(opLogout, 0, 0x80, 0, itt(0x150)).at(d) }
	add("logout held", lo(1), orderKind(0, 1).at(0))
	add("logout held among others", lo(2), orderKind(0, 1).at(1), orderKind(1, 3).at(3), orderKind(2, 2).at(0))
	add("logout of the past", lo(-1), orderKind(0, 1).at(0), last(0))
	// the whole window
	var ps []pdu
	for i := 128; i > 0; i-- {
		ps = append(ps, req(opNop, 0, 0x80, 0, itt(uint64(0x200+i))).at(i))
	}
	add("the window filled from its end", append(ps, req(opNop, 0, 0x80, 0, itt(0x200)).at(0), last(0))...)
	return out
}

func init() {
	register(&Check{ID: "I07", Rule: "Numbered requests are carried out exactly once and in the order of their CmdSN, whatever the order in which they arrive; duplicates and requests outside of the window are ignored, immediate requests overtake. " + iscsiMethod, Floor: 1000, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range orderScripts() {
			c.iscsi(e, s, func(p *iPath) { c.cmdOrder(p) })
		}
	}})
}
