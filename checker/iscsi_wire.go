package main

import (
	"fmt"
	"os"
	"strings"
)

// wire is one PDU the target sent.
type wire struct {
	p     *iPath
	ev    *Event // the first write
	segs  []Slice
	evs   []*Event
	total *Term
	dl    *Term // the data segment length
}

type iTurn struct {
	k      int // the PDU received, -1 before the first
	conn   string
	evs    []*Event
	pdus   []*wire
	closed map[string]bool // connections closed in this turn
	failed bool            // a read or write failed in this turn
}

// iPath is one path through a script.
type iPath struct {
	c     *Ctx
	e     *iscsiEnv
	m     *Machine
	st    *State
	scn   *iscsiScn
	turns []*iTurn
	name  string
}

// iscsiScn is a script with its environment.
type iscsiScn struct {
	name    string
	script  []pdu
	steps   []step // instead of script
	fail    func(k int, what string) bool
	results []scsiResult
	rem     int               // low two bits of the data-in lengths of the SCSI layer
	min     int               // least number of paths, 0: 1
	raw     bool              // what is sent is not judged
	local   map[string]string // local addresses of the connections
}

func (p *iPath) describe(msg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s\nscript %s, path condition: %s\n", msg, p.scn.name, strings.Join(p.st.FactStrings(), " && "))
	for _, t := range p.turns {
		if t.k >= 0 {
			fmt.Fprintf(&b, "  received PDU %d\n", t.k)
		}
		for _, ev := range t.evs {
			switch ev.Kind {
			case "net", "scsi":
				if ev.Name == "Listen" {
					continue
				}
				var a []string
				for _, x := range ev.Args {
					s := valString(x)
					if len(s) > 80 {
						s = s[:80] + "..."
					}
					a = append(a, s)
				}
				fmt.Fprintf(&b, "    %s(%s) at %s\n", ev.Name, strings.Join(a, ", "), ev.Pos)
				if s, ok := firstSlice(ev); ok && ev.Name == "Write" {
					var h []string
					for i := int64(0); i < 48; i++ {
						x := p.m.ByteAt(ev.St, s, i)
						switch {
						case x == nil:
							h = append(h, "?")
						case x.IsConst():
							h = append(h, fmt.Sprintf("%02x", x.C))
						default:
							t := p.st.simp(x).String()
							if len(t) > 60 {
								t = t[:60] + "..."
							}
							h = append(h, t)
						}
					}
					fmt.Fprintf(&b, "      %s\n", strings.Join(h, " "))
				}
			}
		}
	}
	return b.String()
}

func firstSlice(ev *Event) (Slice, bool) {
	if len(ev.Args) == 0 {
		return Slice{}, false
	}
	s, ok := ev.Args[0].(Slice)
	return s, ok
}

func (p *iPath) ob(rule, construct string, ok bool, f string, a ...any) {
	p.c.Ob(rule, p.scn.name+", "+construct, ok, func() string { return p.describe(fmt.Sprintf(f, a...)) })
}

func (p *iPath) holds(l Lit) bool { return p.st.Holds(l) }
func (p *iPath) eq(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = p.st.simp(a), p.st.simp(b)
	return p.st.Holds(LEq(a, b)) || p.st.Holds(LULe(a, b)) && p.st.Holds(LULe(b, a))
}
func (p *iPath) may(ls ...Lit) bool { return consistent(p.st, ls...) }
func (p *iPath) hb(k, i int) *Term  { return p.e.hb(k, i) }
func (p *iPath) h32(k, i int) *Term { return p.e.hbe(k, i, 4, 32) }

// bit tells whether bit b of byte i of the header of PDU k is set: 1, 0 or -1.
func (p *iPath) bit(k, i int, b uint) int {
	l := LEq(And(p.hb(k, i), Const(8, 1<<b)), Const(8, 0))
	if known, v := p.st.Eval(l); known {
		if v {
			return 0
		}
		return 1
	}
	return -1
}

// turn gives the events after PDU k was received.
func (p *iPath) turn(k int) *iTurn {
	for _, t := range p.turns {
		if t.k == k {
			return t
		}
	}
	return nil
}

func (p *iPath) last() *iTurn { return p.turns[len(p.turns)-1] }

// closed tells whether the target closed the connection.
func (p *iPath) closed() bool {
	for _, t := range p.turns {
		if t.closed["conn1"] {
			return true
		}
	}
	return false
}

func (p *iPath) closedConn(cn string) bool {
	for _, t := range p.turns {
		if t.closed[cn] {
			return true
		}
	}
	return false
}

func (t *iTurn) of(kind, name string) []*Event {
	var out []*Event
	for _, e := range t.evs {
		if e.Kind == kind && (name == "" || e.Name == name) {
			out = append(out, e)
		}
	}
	return out
}

// split attributes the events to the PDUs received.
func (p *iPath) split() {
	t := &iTurn{k: -1, closed: map[string]bool{}}
	p.turns = []*iTurn{t}
	for _, ev := range p.st.Events() {
		if ev.Kind == "net" {
			switch ev.Name {
			case "Received":
				t = &iTurn{k: int(ev.Args[0].(*Term).Int()), conn: connID(ev.Args[1]), closed: map[string]bool{}}
				p.turns = append(p.turns, t)
				continue
			case "Close":
				t.closed[connID(ev.Args[0])] = true
			case "ReadFailed":
				t.failed = t.failed || connID(ev.Args[0]) == t.conn
			case "Write":
				if tv, ok := lastErrOf(p.st, ev); ok && tv && connID(ev.Recv) == t.conn {
					t.failed = true
				}
			}
		}
		t.evs = append(t.evs, ev)
	}
	for _, t := range p.turns {
		if !p.scn.raw {
			p.parse(t)
		}
	}
}

// lastErrOf: the operation certainly failed.
func lastErrOf(st *State, ev *Event) (failed, known bool) {
	if len(ev.Rets) == 0 {
		return false, false
	}
	iv, ok := ev.Rets[len(ev.Rets)-1].(Iface)
	if !ok {
		return false, false
	}
	k, v := st.Eval(iv.Nil)
	return k && !v, k
}

// parse cuts the bytes written in a turn into PDUs.
func (p *iPath) parse(t *iTurn) {
	var cur *wire
	have, failed := c64(0), false
	for _, ev := range t.of("net", "Write") {
		s, ok := firstSlice(ev)
		if !ok {
			continue
		}
		if f, _ := lastErrOf(p.st, ev); f {
			failed = true
		}
		if cn := connID(ev.Recv); t.k >= 0 && cn != t.conn {
			p.ob("frame", fmt.Sprintf("turn %d connection", t.k), false, "the answer to a request on %s is written to %s at %s", t.conn, cn, ev.Pos)
		}
		if cur == nil {
			cur = &wire{p: p, ev: ev}
			have = c64(0)
			if !p.holds(LULe(c64(48), s.Len)) {
				p.ob("frame", fmt.Sprintf("turn %d", t.k), false, "a write of %s bytes at %s does not hold a PDU header", s.Len, ev.Pos)
				return
			}
		}
		cur.segs = append(cur.segs, s)
		cur.evs = append(cur.evs, ev)
		have = Add(have, s.Len)
		if cur.total == nil {
			if cur.dsl() == nil {
				p.ob("frame", fmt.Sprintf("turn %d", t.k), false, "the data segment length of the PDU written at %s is not known", ev.Pos)
				return
			}
			ahs := cur.b(4)
			p.ob("frame", fmt.Sprintf("turn %d AHS", t.k), ahs != nil && p.eq(ahs, Const(8, 0)), "TotalAHSLength of the PDU written at %s is not zero", ev.Pos)
		}
		cur.total = have
		if cur.sized(Sub(have, c64(48))) {
			t.pdus = append(t.pdus, cur)
			cur = nil
		}
	}
	if cur != nil && !failed {
		p.ob("frame", fmt.Sprintf("turn %d", t.k), false, "PDU written at %s: %s bytes follow the header, the data segment length is %s", cur.ev.Pos, Sub(have, c64(48)), p.st.simp(cur.dsl()))
	} else if len(t.pdus) > 0 {
		p.ob("frame", fmt.Sprintf("turn %d", t.k), true, "")
	}
}

// sized: d, the number of bytes after the header, is the data segment length
// rounded up to a multiple of four.
func (w *wire) sized(d *Term) bool {
	p := w.p
	sd := p.st.simp(d)
	if !p.holds(LEq(And(sd, c64(3)), c64(0))) {
		return false
	}
	for pad := int64(0); pad < 4; pad++ {
		c := p.st.simp(Sub(sd, c64(pad)))
		if p.holds(LULt(c, c64(1<<24))) && w.is(5, 3, c) {
			w.dl = Sub(d, c64(pad))
			if c.IsConst() {
				w.dl = c
			}
			return true
		}
	}
	return false
}

// b is byte i of the PDU (i < 48: the header).
func (w *wire) b(i int64) *Term {
	at := int64(0)
	for n, s := range w.segs {
		l := w.p.st.simp(s.Len)
		if !l.IsConst() || i-at < l.Int() {
			t := w.p.m.ByteAt(w.evs[n].St, s, i-at)
			if t == nil {
				return nil
			}
			return w.p.st.simp(t)
		}
		at += l.Int()
	}
	return nil
}

// be is a big endian field.
func (w *wire) be(i, n int64, bits uint8) *Term {
	s := newSum(bits)
	for j := int64(0); j < n; j++ {
		b := w.b(i + j)
		if b == nil {
			return nil
		}
		s.add(Resize(b, bits, false), uint64(1)<<uint(8*(n-1-j)))
	}
	return w.p.st.simp(s.term())
}

func (w *wire) dsl() *Term { return w.be(5, 3, 64) }

// op is the opcode, -1 when not constant.
func (w *wire) op() int {
	b := w.b(0)
	if b == nil || !b.IsConst() {
		return -1
	}
	return int(b.C)
}

// is compares the n byte field at i with a term, byte by byte.
func (w *wire) is(i, n int64, want *Term) bool {
	for j := int64(0); j < n; j++ {
		b := w.b(i + j)
		if b == nil || !w.p.eq(b, Resize(LShr(want, int(8*(n-1-j))), 8, false)) {
			f := w.be(i, n, want.W)
			return f != nil && w.p.eq(f, want)
		}
	}
	return true
}

// isHdr compares n bytes at i with bytes of the header of received PDU k.
func (w *wire) isHdr(i, n int64, k, at int) bool {
	for j := int64(0); j < n; j++ {
		b := w.b(i + j)
		if b == nil || !w.p.eq(b, w.p.hb(k, at+int(j))) {
			return false
		}
	}
	return true
}

// flag is bit b of byte i: 1, 0 or -1.
func (w *wire) flag(i int64, b uint) int {
	x := w.b(i)
	if x == nil {
		return -1
	}
	if k, v := w.p.st.Eval(LEq(And(x, Const(8, 1<<b)), Const(8, 0))); k {
		if v {
			return 0
		}
		return 1
	}
	return -1
}

// data is the data segment as a slice; only for a PDU written at once or with
// its data in the second write.
func (w *wire) data() (Slice, *Event) {
	if len(w.segs) == 1 {
		s := w.segs[0]
		return Slice{Arr: s.Arr, Path: s.Path, Off: Add(s.Off, c64(48)), Len: Sub(s.Len, c64(48)), Cap: Sub(s.Len, c64(48)), Nil: litBool(false)}, w.ev
	}
	if w.p.eq(w.segs[0].Len, c64(48)) {
		return w.segs[1], w.evs[1]
	}
	return Slice{}, nil
}

// holdsBytes: the first n bytes of the data segment from at are those of src.
func (w *wire) holdsBytes(at *Term, src Slice, in *State, n *Term) (bool, string) {
	d, ev := w.data()
	if ev == nil {
		return false, "the data segment is written in pieces"
	}
	d.Off = Add(d.Off, at)
	d.Len = Sub(d.Len, at)
	if !w.p.holds(LULe(n, d.Len)) {
		return false, fmt.Sprintf("the data segment has %s bytes from %s, want %s", d.Len, at, n)
	}
	return w.p.sameData(d, ev.St, src, in, n)
}

// text is the data segment when it is constant.
func (w *wire) text() (string, bool) {
	dl := w.dl
	if dl == nil || !dl.IsConst() {
		return "", false
	}
	var b []byte
	for i := int64(0); i < dl.Int(); i++ {
		x := w.b(48 + i)
		if x == nil || !x.IsConst() {
			return "", false
		}
		b = append(b, byte(x.C))
	}
	return string(b), true
}

// iscsi runs a script and hands every path to f.
func (c *Ctx) iscsi(e *iscsiEnv, s iscsiScn, f func(*iPath)) {
	if os.Getenv("TRACE") != "" {
		fmt.Fprintln(os.Stderr, s.name)
	}
	e.fail, e.results, e.rem = s.fail, s.results, s.rem
	e.m.Panics, e.m.panSeen, e.m.Incompl = nil, map[string]bool{}, nil
	e.leak = func(st *State, locks string) {
		c.Ob("unlocked", s.name+", "+locks, false, func() string { return "a goroutine ends with the lock held: " + locks })
	}
	c.Ob("unlocked", s.name, true, nil)
	if s.steps == nil {
		s.steps = []step{{"conn1", s.script}}
	}
	ends := e.runSteps(s.steps...)
	n := 0
	for _, x := range ends {
		n++
		p := &iPath{c: c, e: e, m: e.m, st: x, scn: &s}
		p.split()
		// every connection waits for its next PDU or has been closed
		for _, cn := range e.conns {
			p.ob("alive", cn, e.waiting(x, cn) || p.closedConn(cn), "%s is neither read from any more nor closed", cn)
		}
		f(p)
	}
	if s.min == 0 {
		s.min = 1
	}
	c.Ob("reachable", s.name, n >= s.min, func() string { return fmt.Sprintf("%d paths", n) })
	for _, pn := range e.m.Panics {
		pn := pn
		c.Ob("no-panic", s.name+", "+pn.Kind+" at "+pn.Pos, false, func() string {
			return fmt.Sprintf("%s\npath condition: %s\nstack: %s", pn.Detail, strings.Join(pn.Facts, " && "), strings.Join(pn.Stack, " <- "))
		})
	}
	c.Ob("no-panic", s.name, true, nil)
	c.Count("iscsi_paths", n)
	c.Count("iscsi_scripts", 1)
	c.Done(e.m, s.name)
}
