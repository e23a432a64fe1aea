package main

import (
	"fmt"
	"strings"
)

// The monitor plays the initiator's view of a session over one path of a
// script: it decides for every PDU received what the target owes for it, and
// judges every PDU sent and every command that reaches the SCSI layer. A check
// selects the rules it is about.

type iTask struct {
	k      int // the SCSI Command PDU
	exec   *Event
	n      int // which execution, from 1
	done   bool
	gone   bool
	edtl   *Term
	got    *Term // data-out bytes received
	parts  []dataPart
	r2ts   int
	r2tEnd *Term // end of the data asked for by the last R2T
	bad    bool  // Data-Out out of order
}

// dataPart is data-out received with a PDU.
type dataPart struct {
	k   int
	off *Term
	n   *Term
}

type iMon struct {
	p     *iPath
	rules map[string]bool
	tasks []*iTask

	phase   string // login, normal, discovery
	tsih    *Term
	stat    *Term // next StatSN
	cmds    int   // CmdSNs used
	c0      *Term
	win     *Term
	sess    string
	tid     int
	tpgt    uint64
	mrdsl   uint64
	burst   uint64
	imm     bool
	conn    string // only this connection, "": all of them
	closed  bool
	replied map[int]int
}

func (c *Ctx) monitor(p *iPath, rules ...string) *iMon {
	m := &iMon{p: p, rules: map[string]bool{}, phase: "login", mrdsl: 8192, burst: 262144, imm: true}
	for _, r := range rules {
		m.rules[r] = true
	}
	m.run()
	return m
}

// monitorConn judges one connection of several.
func (c *Ctx) monitorConn(p *iPath, conn string, rules ...string) *iMon {
	m := &iMon{p: p, rules: map[string]bool{}, phase: "login", mrdsl: 8192, burst: 262144, imm: true, conn: conn}
	for _, r := range rules {
		m.rules[r] = true
	}
	m.run()
	return m
}

// execNo numbers the executions of a path from 1 on.
func (p *iPath) execNo(ev *Event) int {
	n := 0
	for _, e := range p.st.Events() {
		if e.Kind == "scsi" && e.Name == "Execute" {
			n++
			if e == ev {
				return n
			}
		}
	}
	return 0
}

func (m *iMon) ob(rule, construct string, ok bool, f string, a ...any) {
	if m.rules[rule] || m.rules["*"] {
		m.p.ob(rule, construct, ok, f, a...)
	}
}

func (m *iMon) undecided(what string) {
	m.p.ob("analysis-complete", what, false, "undecided: %s", what)
}

// keys takes over what the login texts of the script set.
func (m *iMon) keys(text string) {
	for _, kv := range strings.Split(text, "\x00") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			continue
		}
		switch k {
		case "SessionType":
			m.sess = v
		case "TargetName":
			m.tid, m.tpgt = 0, 1
			if v == tgtB {
				m.tid, m.tpgt = 1, 258
			}
		case "MaxRecvDataSegmentLength":
			fmt.Sscan(v, &m.mrdsl)
		case "MaxBurstLength":
			var n uint64
			fmt.Sscan(v, &n)
			m.burst = min(n, 262144)
		case "ImmediateData":
			m.imm = v == "Yes"
		}
	}
}

func (m *iMon) run() {
	p := m.p
	for _, t := range p.turns {
		if m.conn != "" && t.conn != m.conn {
			m.closed = m.closed || t.closed[m.conn]
			continue
		}
		if t.k < 0 {
			m.ob("answer", "before any request", len(t.pdus) == 0, "PDUs are sent before the first request")
			continue
		}
		m.turn(t)
		if t.failed {
			m.ob("failed", fmt.Sprintf("PDU %d", t.k), p.closedConn(t.conn), "a connection goes on after a failed read or write")
			return
		}
	}
}

func nm(op byte) string {
	switch op & 0x3f {
	case opNop:
		return "NOP-Out"
	case opCmd:
		return "SCSI Command"
	case opTMF:
		return "task management"
	case opLogin:
		return "login"
	case opText:
		return "text"
	case opDataOut:
		return "Data-Out"
	case opLogout:
		return "logout"
	}
	return fmt.Sprintf("request %02Xh", op&0x3f)
}

func (m *iMon) turn(t *iTurn) {
	p, k := m.p, t.k
	d := p.e.script[k]
	op := d.op & 0x3f
	name := fmt.Sprintf("PDU %d %s", k, nm(d.op))
	execs := t.of("scsi", "Execute")
	if m.closed {
		m.ob("answer", name, len(t.pdus) == 0 && len(execs) == 0, "something happens after the connection was closed")
		return
	}
	if m.phase == "login" && op == opLogin {
		m.keys(d.text)
	}
	numbered := d.op&0x40 == 0 && (op == opNop || op == opCmd || op == opTMF || op == opText || op == opLogout)
	if m.phase == "login" {
		m.c0 = p.h32(k, 24)
	} else if numbered {
		m.ob("cmdsn-order", name, p.eq(p.h32(k, 24), Add(m.c0, Const(32, uint64(m.cmds)))), "the script has commands out of order")
		m.cmds++
	}
	for _, w := range t.pdus {
		m.common(w, name)
	}
	if m.phase == "login" {
		m.login(t, name)
		return
	}
	closed := t.closed[t.conn]
	m.closed = closed
	if op == opCmd && m.phase == "normal" {
		m.command(t, name, execs)
		return
	}
	if op == opDataOut && m.phase == "normal" {
		m.dataOut(t, name, execs)
		return
	}
	m.ob("execute", name, len(execs) == 0, "a %s executes a SCSI command", nm(d.op))
	one := func(want ...int) *wire {
		if len(t.pdus) != 1 {
			m.ob("answer", name, false, "%d PDUs in answer, want one (opcode %02x)", len(t.pdus), want[0])
			return nil
		}
		w := t.pdus[0]
		for _, x := range want {
			if w.op() == x {
				m.ob("answer", name, true, "")
				if x != inRej {
					m.ob("tag", name, w.isHdr(16, 4, k, 16), "the answer does not carry the initiator task tag of the request")
				} else {
					m.reject(w, name, k)
				}
				return w
			}
		}
		m.ob("answer", name, false, "answered with opcode %02x, want %02x", w.op(), want)
		return nil
	}
	if op != opLogout {
		m.ob("close", name, !closed, "the connection is closed by a %s", nm(d.op))
	}
	switch op {
	case opNop:
		isnot := LEq(p.h32(k, 16), Const(32, 0xffffffff))
		if len(t.pdus) == 0 {
			m.ob("answer", name, p.holds(isnot), "a ping is not answered")
			return
		}
		want := []int{inNop}
		if m.phase == "discovery" {
			want = append(want, inRej)
		}
		w := one(want...)
		if w != nil && w.op() == inNop {
			m.ob("answer", name, !p.may(isnot), "a NOP-Out that asks for no answer is answered")
			m.ob("ttt", name, w.is(20, 4, Const(32, 0xffffffff)), "the target transfer tag of the NOP-In is not FFFFFFFFh")
			m.ob("final", name, w.flag(1, 7) == 1, "the final bit of the NOP-In is not set")
			m.ping(w, name, k)
		}
	case opTMF:
		want := []int{inTMF}
		if m.phase == "discovery" {
			want = append(want, inRej)
		}
		if w := one(want...); w != nil && w.op() == inTMF {
			m.ob("final", name, w.flag(1, 7) == 1, "the final bit of the task management response is not set")
			m.ob("no-data", name, p.eq(w.dl, c64(0)), "a task management response has a data segment")
			m.tmf(w, name, k)
		}
	case opText:
		want := []int{inText}
		if m.phase == "normal" {
			want = append(want, inRej)
		}
		if w := one(want...); w != nil && w.op() == inText {
			m.ob("final", name, w.flag(1, 7) == 1, "the final bit of the text response is not set")
			m.ob("ttt", name, w.is(20, 4, Const(32, 0xffffffff)), "the target transfer tag of a final text response is not FFFFFFFFh")
		}
	case opLogout:
		if w := one(inLogout); w != nil {
			b := w.b(2)
			m.ob("logout", name, b != nil && p.eq(b, Const(8, 0)), "the logout response is not 0, connection or session closed successfully")
			m.ob("final", name, w.flag(1, 7) == 1, "the final bit of the logout response is not set")
			m.ob("no-data", name, p.eq(w.dl, c64(0)), "a logout response has a data segment")
		}
		m.ob("logout", name+" closes", closed, "the connection stays open after the logout")
	case opDataOut: // outside of a normal session
		if len(t.pdus) != 0 {
			one(inRej)
		}
	default:
		one(inRej)
	}
}

// common judges what every PDU of the target has.
func (m *iMon) common(w *wire, name string) {
	p := m.p
	op := w.op()
	known := false
	for _, x := range []int{inNop, inResp, inTMF, inLogin, inText, inDataIn, inLogout, inR2T, inRej} {
		known = known || x == op
	}
	m.ob("opcode", name, known, "a PDU with opcode %d is sent", op)
	if b := w.b(1); op != inLogin && op != inDataIn {
		_ = b
	}
	// padding
	if !m.rules["padding"] && !m.rules["*"] {
	} else {
		n := p.st.simp(Sub(Sub(w.total, c64(48)), w.dl))
		if n.IsConst() {
			ok := true
			for i := int64(0); i < n.Int(); i++ {
				b := w.at(Add(w.dl, c64(i)))
				if b == nil || !p.eq(b, Const(8, 0)) {
					m.ob("padding", name, false, "padding byte %d of a PDU with opcode %02x is %s, not zero", i, op, b)
					ok = false
				}
			}
			m.ob("padding", name, ok, "")
		}
	}
	// numbers
	bearing := op != inR2T && !(op == inDataIn && w.flag(1, 0) == 0)
	if op == inNop && w.is(16, 4, Const(32, 0xffffffff)) {
		bearing = false
	}
	if m.stat == nil {
		m.stat = w.be(24, 4, 32)
	}
	if m.stat == nil {
		m.undecided("StatSN of the first PDU")
		return
	}
	if bearing || op == inR2T {
		m.ob("statsn", name, w.is(24, 4, m.stat), "StatSN is %s, want %s", w.be(24, 4, 32), m.stat)
	}
	if bearing {
		m.stat = p.st.simp(Add(m.stat, Const(32, 1)))
	}
	exp := Add(m.c0, Const(32, uint64(m.cmds)))
	m.ob("expcmdsn", name, w.is(28, 4, exp), "ExpCmdSN is %s, want %s", w.be(28, 4, 32), p.st.simp(exp))
	if m.phase != "login" {
		mx := w.be(32, 4, 32)
		if mx == nil {
			m.ob("maxcmdsn", name, false, "MaxCmdSN is not known")
			return
		}
		d := p.st.simp(Sub(mx, exp))
		m.ob("maxcmdsn", name, d.IsConst() && d.C < 1<<31 && (m.win == nil || m.win == d), "MaxCmdSN is ExpCmdSN + %s, before it was %s", d, m.win)
		if m.win == nil {
			m.win = d
		}
	}
}

// at is the byte of the data segment at a symbolic index.
func (w *wire) at(i *Term) *Term {
	if j := w.p.st.simp(i); j.IsConst() {
		return w.b(48 + j.Int())
	}
	d, ev := w.data()
	if ev == nil || d.Arr == nil {
		return nil
	}
	v := w.p.m.readIn(w.p.st, d.Arr, ev.St.get(d.Arr), d.Path.index(Add(d.Off, i)), byteT)
	t, _ := v.(*Term)
	return t
}

// sameData compares the first n bytes of two sequences.
func (p *iPath) sameData(a Slice, ast *State, b Slice, bst *State, n *Term) (bool, string) {
	n = p.st.simp(n)
	if !p.holds(LULe(n, c64(4096))) {
		return sameBytes(p.m, p.st, a, ast, b, bst, n)
	}
	if ok, why := sameBytes(p.m, p.st, a, ast, b, bst, n); ok {
		return ok, why
	}
	for i := int64(0); i < 4096; i++ {
		if p.holds(LULe(n, c64(i))) {
			break
		}
		q := p.st.fork()
		if !q.Assume(LULt(c64(i), n)) {
			break
		}
		x, y := p.m.byteIn(q, a, ast, i), p.m.byteIn(q, b, bst, i)
		if x == nil || y == nil || q.simp(x) != q.simp(y) {
			return false, fmt.Sprintf("byte %d is %s, want %s", i, x, y)
		}
	}
	return true, ""
}

func (m *iMon) login(t *iTurn, name string) {
	p, k := m.p, t.k
	closed := t.closed[t.conn]
	m.ob("execute", name, len(t.of("scsi", "Execute")) == 0, "a SCSI command is executed before the login")
	if p.e.script[k].op&0x3f != opLogin {
		// anything else ends the connection; a Reject is allowed
		for _, w := range t.pdus {
			m.ob("answer", name, w.op() == inRej, "a %s before the login is answered with opcode %02x", nm(p.e.script[k].op), w.op())
		}
		m.ob("gate", name, closed, "the connection stays open after a %s before the login", nm(p.e.script[k].op))
		m.closed = closed
		return
	}
	m.closed = closed
	if len(t.pdus) != 1 {
		m.ob("answer", name, len(t.pdus) == 0 && closed, "%d PDUs in answer to a login request", len(t.pdus))
		return
	}
	w := t.pdus[0]
	if w.op() != inLogin {
		m.ob("answer", name, false, "a login request is answered with opcode %02x", w.op())
		return
	}
	m.ob("tag", name, w.isHdr(16, 4, k, 16), "the answer does not carry the initiator task tag of the request")
	cls := w.b(36)
	if cls == nil || !cls.IsConst() {
		m.undecided("login status")
		return
	}
	if cls.C != 0 {
		m.ob("answer", name, closed, "the connection stays open after a login response with status class %d", cls.C)
		return
	}
	m.ob("answer", name, !closed, "the connection is closed after a successful login response")
	if f := w.flag(1, 7); f == 1 {
		if nsg := w.b(1); nsg != nil && p.eq(And(nsg, Const(8, 3)), Const(8, 3)) {
			m.phase = "normal"
			if m.sess == "Discovery" {
				m.phase = "discovery"
			}
			m.tsih = w.be(14, 2, 16)
		}
	} else if f < 0 {
		m.undecided("transit bit of the login response")
	}
}

func (m *iMon) reject(w *wire, name string, k int) {
	p := m.p
	m.ob("reject", name+" tag", w.is(16, 4, Const(32, 0xffffffff)), "the initiator task tag of a Reject is not FFFFFFFFh")
	m.ob("reject", name+" reason", w.b(2) != nil && p.holds(LNe(w.b(2), Const(8, 0))), "a Reject without a reason")
	ok := p.eq(w.dl, c64(48))
	for i := int64(0); i < 48 && ok; i++ {
		b := w.b(48 + i)
		want := p.hb(k, int(i))
		switch i {
		case 0:
			want = Const(8, uint64(p.e.script[k].op))
			if p.e.script[k].sym0 {
				want = p.hb(k, 0)
			}
		case 4:
			want = Const(8, uint64(p.e.script[k].ahs))
		case 5, 6, 7:
			want = Resize(LShr(p.e.dlTerm(k), int(8*(7-i))), 8, false)
		}
		ok = b != nil && p.eq(b, want)
	}
	m.ob("reject", name+" header", ok, "a Reject does not carry the header of the PDU it rejects")
}

func (m *iMon) ping(w *wire, name string, k int) {
	p := m.p
	n := p.e.dlTerm(k)
	lim := c64(int64(m.mrdsl))
	want := n
	switch {
	case p.holds(LULe(n, lim)):
	case p.holds(LULe(lim, n)):
		want = lim
	default:
		m.ob("ping", name, false, "the ping data of %s bytes is neither within nor beyond MaxRecvDataSegmentLength", n)
		return
	}
	m.ob("ping", name+" length", p.eq(w.dl, want), "the NOP-In has %s bytes of ping data, want %s", w.dl, want)
	ok, why := w.holdsBytes(c64(0), m.received(k), p.e.st, want)
	m.ob("ping", name+" data", ok, "the ping data is not returned: %s", why)
}

// received is the data segment of PDU k.
func (m *iMon) received(k int) Slice {
	_, o, total := m.p.e.bytesOf(k)
	off := c64(int64(4 * m.p.e.script[k].ahs))
	return Slice{Arr: o, Off: off, Len: total, Cap: total, Nil: litBool(false)}
}

func (m *iMon) tmf(w *wire, name string, k int) {
	p := m.p
	fn := And(p.hb(k, 1), Const(8, 0x7f))
	is := func(n uint64) bool { return p.holds(LEq(fn, Const(8, n))) }
	r := w.b(2)
	if r == nil || !r.IsConst() {
		m.ob("tmf", name, false, "the response of the task management function is not decided")
		return
	}
	live := 0
	var hit []*iTask
	undec := false
	for _, t := range m.tasks {
		if t.done || t.gone || t.exec != nil {
			continue
		}
		live++
		var sel Lit
		switch {
		case is(1):
			sel = LEq(p.h32(t.k, 16), p.h32(k, 20))
		case is(2), is(5):
			sel = LEq(p.e.hbe(t.k, 8, 8, 64), p.e.hbe(k, 8, 8, 64))
		default:
			continue
		}
		if kn, v := p.st.Eval(p.st.simpLit(sel)); kn && v {
			hit = append(hit, t)
		} else if !kn && p.may(sel) {
			undec = true
		}
	}
	if undec {
		// both are possible: the target may not have found out only if it refuses
		m.ob("tmf", name, r.C != 0, "a task management function is complete although its task was not looked for")
		return
	}
	switch {
	case r.C == 0:
		m.ob("tmf", name, is(1) && len(hit) > 0 || is(2) || is(5), "function complete, but there is no such task or the function was not carried out")
		for _, t := range hit {
			t.gone = true
		}
	case r.C == 1:
		m.ob("tmf", name, is(1) && len(hit) == 0, "task does not exist, but it does")
	default:
		m.ob("tmf", name, !is(1) || len(hit) == 0, "ABORT TASK of a pending task is refused with %d", r.C)
	}
}

// forced tells whether the operation code alone makes a command read or write.
func forced(op *Term) (rd, wr bool) {
	if op == nil || !op.IsConst() {
		return false, false
	}
	switch op.C {
	case 0x08, 0x28, 0xa8, 0x88:
		return true, false
	case 0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e:
		return false, true
	}
	return false, false
}

func (m *iMon) command(t *iTurn, name string, execs []*Event) {
	p, k := m.p, t.k
	tk := &iTask{k: k, edtl: p.e.hbe(k, 20, 4, 32), got: Const(32, 0)}
	m.tasks = append(m.tasks, tk)
	rd, wr := p.bit(k, 1, 6), p.bit(k, 1, 5)
	op := p.st.simp(p.hb(k, 32))
	fr, fw := forced(op)
	if !op.IsConst() {
		// which of the forcing operation codes are left on this path
		for _, x := range []uint64{0x08, 0x28, 0xa8, 0x88} {
			if p.may(LEq(op, Const(8, x))) && rd == 0 {
				rd = -2
			}
		}
		for _, x := range []uint64{0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e} {
			if p.may(LEq(op, Const(8, x))) && wr == 0 {
				wr = -2
			}
		}
	}
	if fr {
		rd = 1
	}
	if fw {
		wr = 1
	}
	if rd < 0 || wr < 0 {
		m.undecided(fmt.Sprintf("the direction of the command in PDU %d: R %d W %d op %s", k, rd, wr, op))
		return
	}
	if len(execs) > 1 {
		m.ob("execute", name, false, "a command is executed %d times", len(execs))
		return
	}
	if len(execs) == 1 {
		tk.exec, tk.n = execs[0], p.execNo(execs[0])
		m.decode(tk, name, rd, wr)
	}
	dl := p.e.dlTerm(k)
	if wr == 1 {
		if rd == 0 && m.imm {
			// immediate data
			n := dl
			lim := Resize(tk.edtl, 64, false)
			if !p.holds(LULe(n, lim)) {
				if p.holds(LULe(lim, n)) {
					n = lim
				} else {
					m.undecided("immediate data within the expected length")
					return
				}
			}
			tk.parts = append(tk.parts, dataPart{k, c64(0), n})
			tk.got = p.st.simp(Resize(n, 32, false))
		}
		if rd == 1 { // bidirectional: refused
			m.ob("execute", name, len(execs) == 0, "a bidirectional command is executed")
			m.respond(t, tk, name, rd, wr)
			return
		}
		m.write(t, tk, name)
		return
	}
	if len(execs) == 0 {
		m.ob("execute", name, false, "the command is not executed")
		return
	}
	m.respond(t, tk, name, rd, wr)
}

// write judges what happens when data-out has arrived.
func (m *iMon) write(t *iTurn, tk *iTask, name string) {
	p := m.p
	closed := t.closed[t.conn]
	if tk.exec != nil && !tk.done {
		m.ob("data-out", name+" complete", p.holds(LULe(tk.edtl, tk.got)), "a write is executed with %s of %s bytes", tk.got, tk.edtl)
		m.buffer(tk, name)
		m.respond(t, tk, name, 0, 1)
		return
	}
	if closed {
		m.ob("answer", name, len(t.pdus) == 0, "PDUs are sent for a refused data-out")
		m.ob("close", name, tk.bad || !m.imm && !p.eq(p.e.dlTerm(tk.k), c64(0)), "the connection is closed by data-out without an error")
		return
	}
	m.ob("data-out", name+" bounds", !tk.bad, "data-out that does not fit is taken")
	m.ob("execute", name+" waits", !p.holds(LULe(tk.edtl, tk.got)), "a write is not executed although all of its data has arrived")
	final := p.bit(t.k, 1, 7)
	for _, w := range t.pdus {
		m.ob("answer", name, w.op() == inR2T, "data-out that is not complete is answered with opcode %02x", w.op())
		if w.op() != inR2T {
			continue
		}
		m.r2t(w, tk, name)
	}
	if final == 1 {
		m.ob("answer", name+" asks", len(t.pdus) == 1, "%d R2Ts for the rest of the data", len(t.pdus))
	} else if final == 0 && t.k != tk.k {
		m.ob("answer", name+" waits", len(t.pdus) == 0, "%d R2Ts within a sequence", len(t.pdus))
	} else if final == 0 {
		// unsolicited data is not agreed on: the target asks
		m.ob("answer", name+" asks", len(t.pdus) == 1, "%d R2Ts for the data", len(t.pdus))
	} else {
		m.undecided("final bit of PDU " + fmt.Sprint(t.k))
	}
}

func (m *iMon) r2t(w *wire, tk *iTask, name string) {
	p := m.p
	m.ob("final", name, w.flag(1, 7) == 1, "the final bit of an R2T is not set")
	m.ob("tag", name, w.isHdr(16, 4, tk.k, 16), "the R2T does not carry the initiator task tag of its command")
	m.ob("r2t", name+" LUN", w.isHdr(8, 8, tk.k, 8), "the R2T does not carry the LUN of its command")
	ttt := w.be(20, 4, 32)
	m.ob("r2t", name+" TTT", ttt != nil && p.holds(LNe(ttt, Const(32, 0xffffffff))), "the target transfer tag of an R2T is the reserved one")
	m.ob("r2t", name+" R2TSN", w.is(36, 4, Const(32, uint64(tk.r2ts))), "R2TSN is %s, want %d", w.be(36, 4, 32), tk.r2ts)
	tk.r2ts++
	m.ob("r2t", name+" offset", w.is(40, 4, tk.got), "an R2T asks for data from %s, %s bytes have arrived", w.be(40, 4, 32), tk.got)
	n := w.be(44, 4, 32)
	ok := n != nil && p.holds(LNe(n, Const(32, 0)))
	m.ob("r2t", name+" length", ok, "an R2T asks for no data")
	if n != nil {
		m.ob("r2t", name+" burst", p.holds(LULe(n, Const(32, m.burst))), "an R2T asks for %s bytes, MaxBurstLength is %d", n, m.burst)
		m.ob("r2t", name+" end", p.holds(LULe(n, p.st.simp(Sub(tk.edtl, tk.got)))), "an R2T asks for %s bytes from %s of %s", n, tk.got, tk.edtl)
	}
	m.ob("no-data", name, p.eq(w.dl, c64(0)), "an R2T has a data segment")
}

func (m *iMon) dataOut(t *iTurn, name string, execs []*Event) {
	p, k := m.p, t.k
	var tk *iTask
	for _, x := range m.tasks {
		if x.done || x.gone || x.exec != nil {
			continue
		}
		l := p.st.simpLit(LEq(p.h32(x.k, 16), p.h32(k, 16)))
		if kn, v := p.st.Eval(l); kn && v {
			tk = x
		} else if !kn && p.may(l) {
			m.undecided("the task of the Data-Out")
			return
		}
	}
	if tk == nil {
		m.ob("execute", name, len(execs) == 0, "data for no task executes a command")
		m.ob("answer", name, len(t.pdus) == 0 || len(t.pdus) == 1 && t.pdus[0].op() == inRej, "data for no task is answered")
		return
	}
	if len(execs) == 1 {
		tk.exec, tk.n = execs[0], p.execNo(execs[0])
		m.decode(tk, name, 0, 1)
	} else if len(execs) > 1 {
		m.ob("execute", name, false, "a command is executed %d times", len(execs))
		return
	}
	dl := p.e.dlTerm(k)
	off := p.h32(k, 40)
	in := p.eq(off, tk.got)
	if !in && p.may(LEq(off, tk.got)) {
		m.undecided("the offset of the Data-Out")
		return
	}
	room := p.st.simp(Resize(Sub(tk.edtl, tk.got), 64, false))
	fits := p.holds(LULe(dl, room))
	if !fits && p.may(LULe(dl, room)) {
		m.undecided(fmt.Sprintf("the length %s of the Data-Out against %s", dl, room))
		return
	}
	if !in || !fits {
		tk.bad = true
		m.ob("execute", name, len(execs) == 0, "data-out at the wrong place executes the command")
	} else {
		tk.parts = append(tk.parts, dataPart{k, Resize(tk.got, 64, false), dl})
		tk.got = p.st.simp(Add(tk.got, Resize(dl, 32, false)))
	}
	m.write(t, tk, name)
}

// scmd is a field of the executed SCSI command.
func (m *iMon) scmd(tk *iTask) (*Obj, Path, *State) {
	pt, ok := tk.exec.Args[2].(Ptr)
	if !ok || pt.Obj == nil {
		return nil, Path{}, nil
	}
	return pt.Obj, pt.Path, tk.exec.St
}

// buffer: the data-out buffer holds what was received.
func (m *iMon) buffer(tk *iTask, name string) {
	if !m.rules["data-out"] && !m.rules["*"] {
		return
	}
	p := m.p
	o, path, st := m.scmd(tk)
	if o == nil {
		return
	}
	bp, _ := p.m.Field(st, o, path, "OutSDBBuffer").(Ptr)
	if bp.Obj == nil {
		m.ob("data-out", name+" buffer", p.eq(tk.edtl, Const(32, 0)), "the command has no data-out buffer")
		return
	}
	b, _ := p.m.Field(st, bp.Obj, bp.Path, "Buffer").(Slice)
	if p.eq(tk.edtl, Const(32, 0)) {
		return
	}
	if b.Arr == nil || !p.eq(b.Len, Resize(tk.edtl, 64, false)) {
		m.ob("data-out", name+" buffer", false, "the data-out buffer has %s bytes, expected %s", b.Len, tk.edtl)
		return
	}
	for _, d := range tk.parts {
		src := m.received(d.k)
		part := b
		part.Off = Add(b.Off, d.off)
		part.Len = Sub(b.Len, d.off)
		ok, why := p.sameData(part, st, src, p.e.st, d.n)
		m.ob("data-out", fmt.Sprintf("%s data of PDU %d", name, d.k), ok, "the data-out buffer does not hold what was received in PDU %d: %s", d.k, why)
	}
}

// decode judges the command handed to the SCSI layer.
func (m *iMon) decode(tk *iTask, name string, rd, wr int) {
	if !m.rules["decode"] && !m.rules["*"] {
		return
	}
	p, k := m.p, tk.k
	o, path, st := m.scmd(tk)
	if o == nil {
		m.ob("decode", name, false, "no SCSI command is handed over")
		return
	}
	f := func(n string) Val { return p.m.Field(st, o, path, n) }
	if t, ok := tk.exec.Args[1].(*Term); ok {
		m.ob("decode", name+" target", p.eq(t, Const(t.W, uint64(m.tid))), "the command goes to target %s, the login was for %d", t, m.tid)
	}
	cdb, _ := f("SCB").(Slice)
	ok := cdb.Arr != nil && p.holds(LULe(c64(16), cdb.Len))
	for i := int64(0); i < 16 && ok; i++ {
		ok = p.eq(p.m.ByteAt(st, cdb, i), p.hb(k, 32+int(i)))
	}
	m.ob("decode", name+" CDB", ok, "the CDB is not bytes 32 to 47 of the header")
	if t, is := f("OpCode").(*Term); is {
		m.ob("decode", name+" operation code", p.eq(t, p.hb(k, 32)), "the operation code is %s", t)
	}
	if t, is := f("Tag").(*Term); is {
		m.ob("decode", name+" tag", p.eq(t, Resize(p.h32(k, 16), t.W, false)), "the tag is %s", t)
	}
	if t, is := f("RelTargetPortID").(*Term); is {
		m.ob("decode", name+" port", p.eq(t, Const(t.W, m.tpgt)), "the relative target port is %s, the login went to %d", t, m.tpgt)
	}
	if t, is := f("Direction").(*Term); is {
		dirs := map[[2]int]string{{0, 0}: "SCSIDataNone", {1, 0}: "SCSIDataRead", {0, 1}: "SCSIDataWrite"}
		want, okc := p.m.P.constInt("pkg/api." + dirs[[2]int{rd, wr}])
		if okc {
			m.ob("decode", name+" direction", p.eq(t, Const(t.W, uint64(want))), "the data direction is %s, want %s", t, dirs[[2]int{rd, wr}])
		}
	}
	m.lun(name, f("Lun"), o, path, st, k)
	if wr == 0 {
		bp, _ := f("InSDBBuffer").(Ptr)
		var l *Term
		if bp.Obj != nil {
			if b, is := p.m.Field(st, bp.Obj, bp.Path, "Buffer").(Slice); is {
				l = b.Len
			}
		}
		m.ob("decode", name+" buffer", l != nil && p.eq(l, Resize(tk.edtl, 64, false)), "the data-in buffer has %s bytes, expected %s", l, tk.edtl)
	}
}

func (m *iMon) lun(name string, _ Val, o *Obj, path Path, st *State, k int) {
	p := m.p
	fp, ft := fieldPath(path, o.T, "Lun")
	_ = ft
	b := func(i int) *Term {
		t, _ := p.m.Read(st, o, fp.index(c64(int64(i))), byteT).(*Term)
		return t
	}
	h0, h1 := p.hb(k, 8), p.hb(k, 9)
	low := LEq(p.e.hbe(k, 10, 6, 64), c64(0))
	single := false
	z, fl := LEq(h0, Const(8, 0)), LEq(And(h0, Const(8, 0xc0)), Const(8, 0x40))
	if p.holds(low) && (p.holds(z) || p.holds(fl)) {
		single = true
	} else if p.may(low, z) || p.may(low, fl) {
		m.undecided("the addressing method of the LUN")
		return
	}
	if single {
		ok := p.eq(b(0), h1) && p.eq(b(1), And(h0, Const(8, 0x3f)))
		for i := 2; i < 8; i++ {
			ok = ok && p.eq(b(i), Const(8, 0))
		}
		m.ob("decode", name+" LUN", ok, "the logical unit number is not the one addressed")
		return
	}
	ok := false
	for i := 2; i < 8; i++ {
		ok = ok || b(i) != nil && p.holds(LNe(b(i), Const(8, 0)))
	}
	m.ob("decode", name+" other LUN", ok, "a LUN field that addresses no single level unit is taken for a unit")
}

// status of an executed command.
func (m *iMon) status(tk *iTask) (byte, bool) {
	if len(tk.exec.Rets) < 2 {
		return 0, false
	}
	if t, ok := tk.exec.Rets[1].(*Term); ok && t.IsConst() {
		return byte(t.C), true
	}
	return 0, false
}

// respond judges the response phase of a command.
func (m *iMon) respond(t *iTurn, tk *iTask, name string, rd, wr int) {
	p := m.p
	tk.done = true
	closed := t.closed[t.conn]
	if tk.exec != nil {
		if rv, ok := tk.exec.Rets[0].(Iface); ok {
			if k, v := p.st.Eval(rv.Nil); k && !v { // the SCSI layer failed
				m.ob("answer", name, closed || len(t.pdus) > 0, "a command the SCSI layer failed on is not answered and the connection stays open")
				return
			}
		}
	}
	m.ob("close", name, !closed, "the connection is closed by a command")
	var st byte = 2
	var sense bool
	if tk.exec != nil {
		var ok bool
		if st, ok = m.status(tk); !ok {
			m.undecided("status")
			return
		}
		sense = st == 2
	}
	edtl := Resize(tk.edtl, 64, false)
	var din []*wire
	pdus := t.pdus
	for len(pdus) > 0 && pdus[0].op() == inDataIn {
		din = append(din, pdus[0])
		pdus = pdus[1:]
	}
	phase := false
	if len(din) > 0 {
		phase = din[len(din)-1].flag(1, 0) == 1
	}
	switch {
	case phase && len(pdus) == 0:
		m.ob("answer", name, true, "")
	case !phase && len(pdus) == 1 && pdus[0].op() == inResp:
		m.ob("answer", name, true, "")
	default:
		var ops []string
		for _, w := range t.pdus {
			ops = append(ops, fmt.Sprintf("%02x", w.op()))
		}
		m.ob("answer", name, false, "not exactly one status is sent: PDUs %v", ops)
		return
	}
	m.ob("answer", name+" direction", len(din) == 0 || rd == 1 && wr == 0, "Data-In for a command that reads nothing")
	for _, w := range t.pdus {
		m.ob("tag", name, w.isHdr(16, 4, tk.k, 16), "the answer does not carry the initiator task tag of the command")
	}
	fin := t.pdus[len(t.pdus)-1]
	b3 := fin.b(3)
	if tk.exec != nil {
		m.ob("status", name, b3 != nil && p.eq(b3, Const(8, uint64(st))), "the status sent is %s, the SCSI layer's was %02x", b3, st)
	} else {
		m.ob("status", name, b3 != nil && p.eq(b3, Const(8, 2)), "the status sent is %s, want CHECK CONDITION", b3)
	}
	// data-in
	sent := c64(0)
	if len(din) > 0 {
		sent = m.dataIn(t, tk, name, din)
	}
	var act *Term
	if tk.exec != nil && rd == 1 && wr == 0 {
		act = Resize(p.e.actual(tk.n), 64, false)
		if !sense {
			want := edtl
			switch {
			case p.holds(LULe(edtl, act)):
			case p.holds(LULe(act, edtl)):
				want = act
			default:
				m.undecided("underflow or overflow")
				return
			}
			m.ob("data-in", name+" total", p.eq(sent, want), "%s bytes of data-in are sent, want %s", p.st.simp(sent), want)
		}
	}
	// residual
	u, ov := fin.flag(1, 1), fin.flag(1, 2)
	m.ob("residual", name+" flags", u >= 0 && ov >= 0 && !(u == 1 && ov == 1), "both residual flags are set, or not decided")
	res := fin.be(44, 4, 64)
	if act != nil && !sense && u >= 0 && ov >= 0 {
		switch {
		case p.eq(act, edtl):
			m.ob("residual", name, u == 0 && ov == 0 || res != nil && p.eq(res, c64(0)), "a residual is reported for a transfer of the expected length")
		case p.holds(LULt(act, edtl)):
			m.ob("residual", name, u == 1 && fin.is(44, 4, Resize(Sub(edtl, act), 32, false)), "underflow %d, residual count %s, want %s", u, res, p.st.simp(Sub(edtl, act)))
		case p.holds(LULt(edtl, act)):
			m.ob("residual", name, ov == 1 && fin.is(44, 4, Resize(Sub(act, edtl), 32, false)), "overflow %d, residual count %s, want %s", ov, res, p.st.simp(Sub(act, edtl)))
		case u == 0 && ov == 0:
			m.ob("residual", name, false, "no residual although the lengths may differ")
		default:
			m.undecided("residual")
		}
	} else if u == 1 || ov == 1 {
		m.ob("residual", name, tk.exec == nil || wr == 1 || rd == 1, "a residual is reported for a command without data")
	}
	if fin.op() == inResp {
		b2 := fin.b(2)
		m.ob("status", name+" response", b2 != nil && p.eq(b2, Const(8, 0)), "the response code is not 0, completed at target")
		m.ob("final", name, fin.flag(1, 7) == 1, "the final bit of the SCSI Response is not set")
		if tk.exec != nil && !sense {
			m.ob("sense", name, p.eq(fin.dl, c64(0)), "a SCSI Response with status %02x has %s bytes of data", st, fin.dl)
		} else if tk.exec != nil {
			n := tk.exec.Rets[2].(*Term).Int()
			ok := p.eq(fin.dl, c64(n+2)) && fin.is(48, 2, Const(16, uint64(n)))
			for i := int64(0); i < n && ok; i++ {
				b := fin.b(50 + i)
				want := m.senseByte(tk, n, i)
				ok = b != nil && want != nil && p.eq(b, want)
			}
			m.ob("sense", name, ok, "the SCSI Response does not carry the sense data of the command with its length")
		} else {
			// sense data this layer made
			n := fin.be(48, 2, 64)
			ok := n != nil && p.eq(Add(n, c64(2)), fin.dl) && p.holds(LNe(n, c64(0)))
			m.ob("sense", name, ok, "the sense length is not that of the data")
		}
	} else {
		m.ob("status", name+" phase collapse", !sense, "CHECK CONDITION is sent with the data, without sense data")
	}
}

func (m *iMon) senseByte(tk *iTask, n, i int64) *Term {
	arr := m.p.m.symObj(fmt.Sprintf("sense%d", tk.n), byteT, true, false)
	return m.p.m.ByteAt(m.p.st, Slice{Arr: arr, Off: c64(0), Len: c64(n), Cap: c64(n), Nil: litBool(false)}, i)
}

// dataIn judges the Data-In PDUs of a command and gives the bytes sent.
func (m *iMon) dataIn(t *iTurn, tk *iTask, name string, din []*wire) *Term {
	p := m.p
	at := c64(0)
	seq := c64(0)
	src := p.m.symObj(fmt.Sprintf("scsidata%d", tk.n), byteT, true, false)
	for i, w := range din {
		last := i == len(din)-1
		m.ob("data-in", name+" DataSN", w.is(36, 4, Const(32, uint64(i))), "DataSN of Data-In %d is %s", i, w.be(36, 4, 32))
		m.ob("data-in", name+" offset", w.is(40, 4, Resize(at, 32, false)), "the buffer offset of Data-In %d is %s, want %s", i, w.be(40, 4, 32), p.st.simp(at))
		m.ob("data-in", name+" segment", p.holds(LULe(w.dl, c64(int64(m.mrdsl)))), "a Data-In has %s bytes, MaxRecvDataSegmentLength is %d", w.dl, m.mrdsl)
		m.ob("data-in", name+" empty", last || p.holds(LNe(w.dl, c64(0))), "an empty Data-In")
		s, f := w.flag(1, 0), w.flag(1, 7)
		m.ob("data-in", name+" status", s == 0 || s == 1 && last && f == 1, "the status flag of Data-In %d of %d is %d with final bit %d", i, len(din), s, f)
		m.ob("data-in", name+" flags", f >= 0 && (!last || f == 1), "the last Data-In is not final")
		if s == 0 {
			m.ob("residual", name+" early", w.flag(1, 1) == 0 && w.flag(1, 2) == 0, "a residual without a status")
		}
		seq = p.st.simp(Add(seq, w.dl))
		m.ob("data-in", name+" burst", p.holds(LULe(seq, c64(int64(m.burst)))), "a sequence has %s bytes, MaxBurstLength is %d", seq, m.burst)
		if f == 1 {
			seq = c64(0)
		}
		if m.rules["data-in"] || m.rules["*"] {
			in := Slice{Arr: src, Off: at, Len: c64(1 << 40), Cap: c64(1 << 40), Nil: litBool(false)}
			d, ev := w.data()
			if ev == nil {
				m.ob("data-in", name+" content", false, "the data segment is written in pieces")
			} else {
				ok, why := p.sameData(d, ev.St, in, p.st, w.dl)
				m.ob("data-in", name+" content", ok, "Data-In %d does not carry the data from %s on: %s", i, p.st.simp(at), why)
			}
		}
		at = p.st.simp(Add(at, w.dl))
	}
	return at
}
