package main

import (
	"fmt"
	"sort"
	"strings"
)

// Discovery, sessions beside each other, and failing connections.

// discoveryScripts ask for the targets in different configurations.
type discScn struct {
	iscsiScn
	portals map[string]map[string][]string
	cluster string // the address that stands for all portals
}

func discoveryScripts() []discScn {
	var out []discScn
	cluster := ""
	cfg := func(name string, portals map[string]map[string][]string) {
		for _, im := range []byte{0, 0x40} {
			for _, al := range []string{"SendTargets=All"} {
				t := req(opText|im, 0, 0x80, 0, hset{}.be(20, 4, 0xffffffff))
				t.text = kvText(al)
				out = append(out, discScn{iscsiScn{name: fmt.Sprintf("discovery of %s, opcode %02x", name, opText|im), script: []pdu{seqLogin(""), t}}, portals, cluster})
				t2 := t
				if im == 0 {
					t2.set = hset(t.set).with(sn(0))
				}
				out = append(out, discScn{iscsiScn{name: fmt.Sprintf("discovery of %s twice, opcode %02x", name, opText|im), script: []pdu{seqLogin(""), t, t2}}, portals, cluster})
			}
		}
	}
	cfg("two targets", stdPortals())
	cfg("one target", map[string]map[string][]string{tgtA: {"1": {prtA}}})
	cfg("no target", map[string]map[string][]string{})
	cfg("two portals in a group", map[string]map[string][]string{tgtA: {"1": {prtA, prtB}}})
	cfg("two portal groups", map[string]map[string][]string{tgtA: {"1": {prtA}, "2": {prtB}}})
	cfg("a group without portals", map[string]map[string][]string{tgtA: {"1": {prtA}, "2": {}}, tgtB: {"3": {}}})
	cfg("a target without portal groups", map[string]map[string][]string{tgtA: {}, tgtB: {"7": {prtB, prtA}}})
	cfg("targets that share portals", map[string]map[string][]string{tgtA: {"1": {prtA}, "65535": {prtB, "[2001:db8::1]:3260"}}, tgtB: {"1": {prtA}, "2": {prtB}}, "iqn.2016-09.com.gotgt.gostor:ab": {"1": {prtB}}})
	cluster = "10.9.8.7:3260"
	cfg("two targets behind one address", stdPortals())
	cfg("groups with large tags behind one address", map[string]map[string][]string{tgtA: {"1": {prtA}, "256": {prtB}, "65535": {prtA, prtB}}, tgtB: {}})
	return out
}

func (c *Ctx) discovery(p *iPath, s *discScn) {
	want := map[string]bool{}
	for _, t := range sortedKeys(s.portals) {
		want[t] = true
		for g, ps := range s.portals[t] {
			if s.cluster != "" {
				want[t+" "+s.cluster+","+g] = true
				continue
			}
			for _, x := range ps {
				want[t+" "+x+","+g] = true
			}
		}
	}
	for _, t := range p.turns {
		if t.k < 1 {
			continue
		}
		name := fmt.Sprintf("PDU %d", t.k)
		if len(t.pdus) != 1 || t.pdus[0].op() != inText {
			p.ob("targets", name, false, "SendTargets is not answered with a text response")
			continue
		}
		w := t.pdus[0]
		p.ob("targets", name+" final", w.flag(1, 7) == 1 && w.flag(1, 6) == 0 && w.is(20, 4, Const(32, 0xffffffff)), "the text response is not the last one, or asks for more")
		tx, ok := w.text()
		if !ok {
			p.ob("targets", name, false, "the text is not known")
			continue
		}
		got := map[string]bool{}
		cur, bad := "", ""
		if tx != "" && !strings.HasSuffix(tx, "\x00") {
			bad = "the text does not end with a NUL"
		}
		for _, kv := range strings.Split(strings.TrimSuffix(tx, "\x00"), "\x00") {
			if tx == "" {
				break
			}
			k, v, _ := strings.Cut(kv, "=")
			key := v
			switch k {
			case "TargetName":
				cur = v
			case "TargetAddress":
				key = cur + " " + v
				if cur == "" {
					bad = "an address without a target"
				}
			case "TargetAlias":
				continue
			default:
				bad = kv
			}
			if got[key] {
				bad = key + " twice"
			}
			got[key] = true
		}
		var miss []string
		for k := range want {
			if !got[k] {
				miss = append(miss, k)
			}
		}
		for k := range got {
			if !want[k] {
				bad = "unknown " + k
			}
		}
		sort.Strings(miss)
		p.ob("targets", name, bad == "" && len(miss) == 0, "the targets sent are %q; missing: %v; wrong: %s", tx, miss, bad)
	}
}

// Sessions beside each other.

type sessScn struct {
	iscsiScn
	open    []string            // connections that have to be open at the end
	shut    []string            // connections the target has to close
	refused map[string]bool     // connections whose login has to be refused
	before  map[string][]string // connections closed by the login of another one
	order   map[string][]uint64 // with commands held back: the tags answered after the login, in order
}

func login2(isid, tsih, cid uint64, ini, target string) pdu {
	p := loginReq(1, 3, true, "InitiatorName="+ini, "TargetName="+target, "SessionType=Normal")
	if target == "" {
		p = loginReq(1, 3, true, "InitiatorName="+ini, "SessionType=Discovery")
	}
	p.set = hset(p.set).with(hset{}.be(8, 6, isid).be(14, 2, tsih).be(20, 2, cid))
	return p
}

const iniB = "iqn.1993-08.org.debian:01:y"

func sessionsScripts() []sessScn {
	var out []sessScn
	cmd := func(n int) pdu { return req(opCmd, n, 0x80, 0, edtl(0), cdb0(0), itt(0x11)) }
	wr := func(n int, tag uint64) pdu { return req(opCmd, n, 0xa0, 0, edtl(8), cdb0(0x2a), itt(tag)) }
	do := func(tag uint64) pdu { return req(opDataOut, 0, 0x80, 8, itt(tag), hset{}.be(40, 4, 0)) }
	s1 := func(p ...pdu) step { return step{"conn1", p} }
	s2 := func(p ...pdu) step { return step{"conn2", p} }
	s3 := func(p ...pdu) step { return step{"conn3", p} }
	add := func(name string, s sessScn, steps ...step) {
		s.name = "sessions: " + name
		s.steps = steps
		s.results = []scsiResult{{status: 0}}
		out = append(out, s)
	}
	both := sessScn{open: []string{"conn1", "conn2"}}
	type diff struct {
		name string
		l2   pdu
	}
	for _, d := range []diff{
		{"another ISID", login2(2, 0, 0, iniA, tgtA)},
		{"another initiator", login2(1, 0, 0, iniB, tgtA)},
		{"the initiator with more behind its name", login2(1, 0, 0, iniA+"x", tgtA)},
		{"another ISID in its first byte", login2(1|1<<40, 0, 0, iniA, tgtA)},
		{"another connection ID and ISID", login2(3, 0, 1, iniA, tgtA)},
		{"a discovery session", login2(1, 0, 0, iniA, "")},
	} {
		normal := hasTarget(d.l2)
		if normal {
			add(d.name+", commands on both", both, s1(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(d.l2, cmd(0)), s1(cmd(1)), s2(cmd(1)), s1(probe(2)), s2(probe(2)))
			add(d.name+", a write on each", both, s1(login2(1, 0, 0, iniA, tgtA), wr(0, 7)), s2(d.l2, wr(0, 7)), s1(do(7)), s2(do(7)), s1(probe(1)), s2(probe(1)))
			add(d.name+", data on the wrong connection", both, s1(login2(1, 0, 0, iniA, tgtA), wr(0, 7)), s2(d.l2, do(7)), s1(do(7)), s2(probe(0)), s1(probe(1)))
			for _, f := range []uint64{1, 2, 5} {
				add(fmt.Sprintf("%s, task management function %d", d.name, f), both, s1(login2(1, 0, 0, iniA, tgtA), wr(0, 7)), s2(d.l2, req(opTMF, 0, -1, 0, hset{1: 0x80 | f}.with(lun(lun5)).be(20, 4, 7), itt(9))), s1(do(7)), s2(probe(1)), s1(probe(1)))
			}
		}
		if normal {
			held := both
			held.order = map[string][]uint64{"conn1": {0x22, 0x21}, "conn2": {0x24, 0x23, 0x44}}
			add(d.name+", held commands", held, s1(login2(1, 0, 0, iniA, tgtA), req(opNop, 1, 0x80, 0, itt(0x21))), s2(d.l2, req(opNop, 1, 0x80, 0, itt(0x23))), s1(req(opNop, 0, 0x80, 0, itt(0x22))), s2(req(opNop, 0, 0x80, 0, itt(0x24))), s2(probe0(normal)))
			gap := both
			gap.order = map[string][]uint64{"conn1": {0x41}, "conn2": {0x42, 0x43}}
			add(d.name+", commands held on one", gap, s1(login2(1, 0, 0, iniA, tgtA), req(opNop, 1, 0x80, 0, itt(0x21))), s2(d.l2, req(opNop, 0, 0x80, 0, itt(0x42))), s2(req(opNop, 1, 0x80, 0, itt(0x43))), s1(req(opNop|0x40, 0, 0x80, 0, itt(0x41))))
		}
		add(d.name+", the first logs out", sessScn{open: []string{"conn2"}, shut: []string{"conn1"}}, s1(login2(1, 0, 0, iniA, tgtA)), s2(d.l2), s1(req(opLogout, 0, 0x80, 0)), s2(probe0(normal)))
		add(d.name+", the second logs out", sessScn{open: []string{"conn1"}, shut: []string{"conn2"}}, s1(login2(1, 0, 0, iniA, tgtA)), s2(d.l2), s2(req(opLogout, 0, 0x80, 0)), s1(probe(0)))
	}
	// reinstatement: the same initiator port logs in again
	re := sessScn{open: []string{"conn2"}, shut: []string{"conn1"}, before: map[string][]string{"conn2": {"conn1"}}}
	add("session reinstatement", re, s1(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(login2(1, 0, 0, iniA, tgtA), cmd(0)), s1(cmd(1)), s2(probe(1)))
	add("session reinstatement, another connection ID", re, s1(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(login2(1, 0, 5, iniA, tgtA), cmd(0)), s2(probe(1)))
	add("session reinstatement drops writes", re, s1(login2(1, 0, 0, iniA, tgtA), wr(0, 7)), s2(login2(1, 0, 0, iniA, tgtA), do(7)), s2(probe(0)))
	reHeld := re
	reHeld.order = map[string][]uint64{"conn1": {}, "conn2": {0x11, 0x12, 0x44}}
	add("session reinstatement drops held commands", reHeld, s1(login2(1, 0, 0, iniA, tgtA), req(opCmd, 1, 0x80, 0, edtl(0), cdb0(0), itt(0x33))), s2(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(req(opCmd, 1, 0x80, 0, edtl(0), cdb0(0), itt(0x12))), s2(probe0(true)))
	re3 := sessScn{open: []string{"conn3"}, shut: []string{"conn1", "conn2"}, before: map[string][]string{"conn2": {"conn1"}, "conn3": {"conn2"}}}
	add("session reinstatement twice", re3, s1(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(login2(1, 0, 0, iniA, tgtA), cmd(0)), s3(login2(1, 0, 0, iniA, tgtA), cmd(0)), s3(probe(1)))
	out1 := sessScn{open: []string{"conn2"}, shut: []string{"conn1"}}
	add("login after logout", out1, s1(login2(1, 0, 0, iniA, tgtA), cmd(0), req(opLogout, 1, 0x80, 0)), s2(login2(1, 0, 0, iniA, tgtA), cmd(0)), s2(probe(1)))
	add("login beside a reinstated session", sessScn{open: []string{"conn2", "conn3"}, shut: []string{"conn1"}}, s1(login2(1, 0, 0, iniA, tgtA)), s2(login2(1, 0, 0, iniA, tgtA)), s3(login2(2, 0, 0, iniA, tgtA), cmd(0)), s2(cmd(0), probe(1)), s3(probe(1)))
	// connection reinstatement: the TSIH of the first session is 1
	add("connection reinstatement", re, s1(login2(1, 0, 3, iniA, tgtA)), s2(login2(1, 1, 3, iniA, tgtA)), s2(probeAny()))
	// refused logins leave the others alone
	one := sessScn{open: []string{"conn1"}, shut: []string{"conn2"}, refused: map[string]bool{"conn2": true}}
	bads := map[string]pdu{
		"an unknown target":                     login2(1, 0, 0, iniA, "iqn.2016-09.com.gotgt.gostor:c"),
		"a target of another portal":            login2(1, 0, 0, iniA, tgtB),
		"another connection in the session":     login2(1, 1, 9, iniA, tgtA),
		"the TSIH of another session":           login2(2, 1, 0, iniA, tgtA),
		"the TSIH of another initiator":         login2(1, 1, 0, iniB, tgtA),
		"an unused TSIH":                        login2(1, 77, 0, iniA, tgtA),
		"the TSIH of a session for a discovery": login2(1, 1, 0, iniA, ""),
		"the first TSIH for an unknown target":  login2(1, 1, 0, iniA, "iqn.2016-09.com.gotgt.gostor:c"),
		"the first TSIH at the wrong portal":    login2(1, 1, 0, iniA, tgtB),
		"no name and the first TSIH":            login2(1, 1, 0, "", tgtA),
		"an invalid MaxRecvDataSegmentLength":   {op: 0x43, set: login2(1, 0, 0, iniA, tgtA).set, text: kvText("InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal", "MaxRecvDataSegmentLength=5")},
		"an unknown session type":               {op: 0x43, set: login2(1, 0, 0, iniA, tgtA).set, text: kvText("InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Neither")},
		"a security stage with CHAP":            {op: 0x43, set: hset(login2(1, 0, 0, iniA, tgtA).set).with(hset{1: 0x81}), text: kvText("InitiatorName="+iniA, "TargetName="+tgtA, "AuthMethod=CHAP")},
		"a stage that does not exist":           {op: 0x43, set: hset(login2(1, 0, 0, iniA, tgtA).set).with(hset{1: 0x8b}), text: kvText("InitiatorName="+iniA, "TargetName="+tgtA)},
		"a command":                             cmd(0),
		"a logout":                              req(opLogout, 0, 0x80, 0),
	}
	for _, n := range sortedKeys(bads) {
		add("refused login with "+n, one, s1(login2(1, 0, 0, iniA, tgtA), wr(0, 7)), s2(bads[n]), s2(cmd(0)), s1(do(7), cmd(1)), s1(probe(2)))
		add("refused login with "+n+", then a good one", sessScn{open: []string{"conn1", "conn3"}, shut: []string{"conn2"}, refused: map[string]bool{"conn2": true}}, s1(login2(1, 0, 0, iniA, tgtA)), s2(bads[n]), s3(login2(2, 0, 0, iniA, tgtA), cmd(0)), s1(cmd(0), probe(1)), s3(probe(1)))
	}
	return out
}

func probe0(normal bool) pdu { return req(opNop|0x40, 0, 0x80, 0, itt(0x44)) }
func probeAny() pdu          { return req(opNop|0x40, 0, 0x80, 0, itt(0x44)) }

func hasTarget(p pdu) bool { return strings.Contains(p.text, "TargetName=") }

func (c *Ctx) sessions(p *iPath, s *sessScn) {
	tsihs := map[uint64]string{}
	owner := map[string]uint64{}
	for _, cn := range p.e.conns {
		if s.refused[cn] {
			for _, t := range p.turns {
				if t.conn == cn {
					p.ob("refused", fmt.Sprintf("PDU %d", t.k), len(t.of("scsi", "Execute")) == 0 && p.stage(t) == 0, "a login that is to be refused is not")
				}
			}
			continue
		}
		if strings.HasSuffix(s.name, "connection reinstatement") && cn == "conn2" {
			continue
		}
		if s.order != nil {
			var got []string
			for _, t := range p.turns {
				if t.conn == cn {
					for _, w := range t.pdus {
						if w.op() != inLogin {
							got = append(got, fmt.Sprintf("%s %s", fmt.Sprintf("%02x", w.op()), p.st.simp(w.be(16, 4, 32))))
						}
					}
				}
			}
			p.ob("held", cn, p.answers(cn, s.order[cn]), "the answers on %s are %v; want the tags %x", cn, got, s.order[cn])
			continue
		}
		m := c.monitorConn(p, cn, "answer", "tag", "execute", "status", "data-out", "decode", "statsn", "expcmdsn", "maxcmdsn", "tmf", "logout")
		if m.tsih != nil {
			v := p.st.simp(m.tsih)
			if !v.IsConst() {
				p.ob("tsih", cn, false, "the TSIH is not decided")
				continue
			}
			p.ob("tsih", cn, v.C != 0, "a session has the TSIH 0")
			owner[cn] = v.C
			if o := tsihs[v.C]; o != "" && !inList(s.shut, o) {
				p.ob("tsih", cn+" distinct", false, "%s and %s have the same TSIH %d", o, cn, v.C)
			}
			tsihs[v.C] = cn
		}
	}
	for _, cn := range s.open {
		p.ob("open", cn, !p.closedConn(cn) && p.e.waiting(p.st, cn), "%s is closed, or not read from any more", cn)
	}
	for _, cn := range s.shut {
		p.ob("shut", cn, p.closedConn(cn), "%s is not closed", cn)
	}
	for by, cs := range s.before {
		for _, cn := range cs {
			ok := false
			for _, t := range p.turns {
				if t.conn == by {
					ok = t.closed[cn]
					break
				}
			}
			p.ob("shut", cn+" by "+by, ok, "%s is not closed by the login on %s", cn, by)
		}
	}
}

// answers reports whether what is sent on a connection after the login
// response are the responses to the given task tags, in that order.
func (p *iPath) answers(cn string, tags []uint64) bool {
	n := 0
	for _, t := range p.turns {
		if t.conn != cn {
			continue
		}
		for _, w := range t.pdus {
			if w.op() == inLogin {
				continue
			}
			if n >= len(tags) || !w.is(16, 4, Const(32, tags[n])) {
				return false
			}
			n++
		}
	}
	return n == len(tags)
}

func inList(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// weight counts the map entries and the elements of reference slices that the
// driver keeps.
func (e *iscsiEnv) weight(st *State) string {
	n := map[string]int{}
	seen := map[*Obj]bool{}
	var val func(v Val, in string)
	var obj func(o *Obj)
	val = func(v Val, in string) {
		switch x := v.(type) {
		case Ptr:
			obj(x.Obj)
		case MapV:
			if x.Obj != nil && !seen[x.Obj] {
				seen[x.Obj] = true
				if os := st.get(x.Obj); os != nil {
					for i, en := range os.ents {
						live := !en.Del
						for _, l := range os.ents[i+1:] {
							if k, v := st.Eval(e.m.eqVals(st, en.Key, l.Key)); k && v {
								live = false // written again, or deleted
							}
						}
						if live {
							n["map "+x.Obj.T.String()]++
							val(en.Val, in)
						}
					}
				}
			}
		case Slice:
			if x.Arr != nil && x.Len.IsConst() && x.Arr.T != byteT {
				n["slice "+x.Arr.T.String()] += int(x.Len.C)
				if x.Len.C < 1000 {
					for i := int64(0); i < x.Len.Int(); i++ {
						val(e.m.Read(st, x.Arr, x.Path.index(Add(x.Off, c64(i))), x.Arr.T), in)
					}
				}
			}
		case Iface:
			val(x.V, in)
		case StructV:
			for _, f := range x.F {
				val(f, in)
			}
		case ArrayV:
			for _, f := range x.E {
				val(f, in)
			}
		}
	}
	obj = func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		os := st.get(o)
		if os == nil {
			return
		}
		got := map[string]bool{}
		for i := len(os.layers) - 1; i >= 0; i-- {
			l := os.layers[i]
			var ks []string
			for k := range l.cells {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if !got[k] {
					got[k] = true
					val(l.cells[k], k)
				}
			}
		}
	}
	obj(e.drv)
	var out []string
	for _, k := range sortedKeys(n) {
		out = append(out, fmt.Sprintf("%s: %d", k, n[k]))
	}
	return strings.Join(out, ", ")
}

// leakScripts end the same way any number of times.
func leakScripts() map[string][]step {
	out := map[string][]step{}
	cmd := func(n int) pdu { return req(opCmd, n, 0x80, 0, edtl(0), cdb0(0), itt(0x11)) }
	wr := req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(7))
	out["login and logout"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), cmd(0), req(opLogout, 1, 0x80, 0)}}}
	out["discovery and logout"] = []step{{"", []pdu{login2(1, 0, 0, iniA, ""), req(opLogout, 0, 0x80, 0)}}}
	out["refused login"] = []step{{"", []pdu{login2(1, 0, 0, iniA, "iqn.2016-09.com.gotgt.gostor:c")}}}
	out["login at the wrong portal"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtB)}}}
	out["login with an unknown TSIH"] = []step{{"", []pdu{login2(1, 9, 0, iniA, tgtA)}}}
	out["command before the login"] = []step{{"", []pdu{cmd(0)}}}
	out["logout with a write pending"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), wr, req(opLogout, 1, 0x80, 0)}}}
	out["logout with a command held"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), cmd(1), req(opLogout|0x40, 0, 0x80, 0)}}}
	out["data that does not fit"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), wr, req(opDataOut, 0, 0x80, 12, itt(7), hset{}.be(40, 4, 0))}}}
	out["connection lost"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), cmd(0), cmd(1)}}}
	out["connection lost with a write pending"] = []step{{"", []pdu{login2(1, 0, 0, iniA, tgtA), wr, cmd(1)}}}
	out["connection lost in discovery"] = []step{{"", []pdu{login2(1, 0, 0, iniA, ""), probe(0)}}}
	out["security stage and nothing else"] = []step{{"", []pdu{loginReq(0, 1, true, "InitiatorName="+iniA, "TargetName="+tgtA, "AuthMethod=None"), cmd(0)}}}
	return out
}

func (c *Ctx) leaks(e *iscsiEnv) {
	l := leakScripts()
	for _, name := range sortedKeys(l) {
		name := name
		base := map[string]bool{}
		for n := 1; n <= 3; n++ {
			var steps []step
			k := 0
			lost := map[int]bool{}
			for i := 1; i <= n; i++ {
				for _, s := range l[name] {
					steps = append(steps, step{fmt.Sprintf("conn%d", i), s.pdus})
					k += len(s.pdus)
				}
				lost[k-1] = true
			}
			s := iscsiScn{name: fmt.Sprintf("%s, %d times", name, n), steps: steps, results: []scsiResult{{status: 0}}}
			if strings.HasPrefix(name, "connection lost") {
				s.fail = func(k int, what string) bool { return lost[k] && what == "read" }
			}
			c.iscsi(e, s, func(p *iPath) {
				for _, cn := range e.conns {
					if !p.closedConn(cn) {
						if s.fail == nil {
							p.ob("shut", cn, false, "%s is not closed", cn)
						}
						return // the read did not fail
					}
				}
				w := e.weight(p.st)
				if n == 1 {
					base[w] = true
					return
				}
				p.ob("leak", "", base[w], "the driver keeps more after %d sessions than after one: %s; want one of %v", n, w, sortedKeys(base))
			})
		}
		c.Ob("leak", name+" measured", len(base) > 0, func() string { return "no path ends with the connection closed" })
	}
	// the TSIH of a session that has ended can be used again, and every
	// reinstatement frees what was before
	for n := 1; n <= 3; n++ {
		var steps []step
		for i := 1; i <= n; i++ {
			steps = append(steps, step{fmt.Sprintf("conn%d", i), []pdu{login2(1, 0, 0, iniA, tgtA)}})
		}
		steps = append(steps, step{fmt.Sprintf("conn%d", n), []pdu{req(opLogout, 0, 0x80, 0)}})
		c.iscsi(e, iscsiScn{name: fmt.Sprintf("reinstatement, %d times", n), steps: steps}, func(p *iPath) {
			w := e.weight(p.st)
			if n == 1 {
				e.base = w
			} else {
				p.ob("leak", "", w == e.base, "the driver keeps more after %d sessions than after one: %s; want %s", n, w, e.base)
			}
		})
	}
}

func init() {
	register(&Check{ID: "I12", Rule: "SendTargets=All lists every target once, with each of its portals and the portal group tag, and nothing else. " + iscsiMethod, Floor: 50, Run: func(c *Ctx) {
		for _, s := range discoveryScripts() {
			s := s
			e := newISCSI(c, s.portals)
			e.m.Unroll = 2000
			if s.cluster != "" {
				fn := e.m.P.Func("(*pkg/port/iscsit.ISCSITargetDriver).SetClusterIP")
				if fn == nil {
					panic(Anchor("SetClusterIP"))
				}
				rs := e.m.Run(e.st.fork(), fn, []Val{Ptr{Obj: e.drv}, known(s.cluster)})
				if len(rs) != 1 {
					panic(Anchor("SetClusterIP has no single outcome"))
				}
				e.st = rs[0].St
				e.st.freeze()
			}
			c.iscsi(e, s.iscsiScn, func(p *iPath) { c.discovery(p, &s) })
		}
	}})
	register(&Check{ID: "I13", Rule: "Sessions do not disturb each other, an initiator port has one session with a target and a new one replaces it, refused logins change nothing, every open session has a TSIH of its own, and nothing is kept of a session that has ended. " + iscsiMethod, Floor: 500, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range sessionsScripts() {
			s := s
			c.iscsi(e, s.iscsiScn, func(p *iPath) { c.sessions(p, &s) })
		}
		c.leaks(e)
	}})
}
