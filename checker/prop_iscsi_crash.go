package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// No PDU brings the target down or leaves a connection hanging.

// textModel stands for the parser of key=value text in scripts that name keys
// whose values are arbitrary.
func (e *iscsiEnv) textModel(base []string, free []string) {
	const name = "pkg/util.ParseKVText"
	if len(base) == 0 && len(free) == 0 {
		delete(e.m.Hooks, name)
		return
	}
	e.m.Hooks[name] = func(m *Machine, c *Call) []Result {
		o := m.newObj("text", c.Res.At(0).Type())
		o.Map = true
		st := c.St
		st.mut(o)
		for _, kv := range base {
			k, v, _ := strings.Cut(kv, "=")
			st.mut(o).ents = append(st.mut(o).ents, MapEnt{Key: known(k), Val: known(v)})
		}
		for _, k := range free {
			v := Str{ID: "value of " + k, Len: SymRange(64, "len(value of "+k+")", 0, pduData)}
			st.mut(o).ents = append(st.mut(o).ents, MapEnt{Key: known(k), Val: v})
		}
		return ret(st, MapV{o, litBool(false)})
	}
}

type crashScn struct {
	iscsiScn
	base, free []string
}

var loginKeys = []string{"AuthMethod", "InitiatorAlias", "MaxRecvDataSegmentLength", "InitialR2T", "MaxOutstandingR2T", "ImmediateData",
	"FirstBurstLength", "MaxBurstLength", "DataPDUInOrder", "DataSequenceInOrder", "ErrorRecoveryLevel", "IFMarker", "OFMarker", "DefaultTime2Wait",
	"DefaultTime2Retain", "OFMarkInt", "IFMarkInt", "MaxConnections", "RDMAExtensions", "TargetRecvDataSegmentLength", "InitiatorRecvDataSegmentLength",
	"MaxOutstandingUnexpectedPDUs", "MaxXmitDataSegmentLength", "MaxQueueCmd", "TargetAlias", "TargetAddress", "TargetPortalGroupTag", "SendTargets", "X-org.example"}

func crashScripts() []crashScn {
	var out []crashScn
	add := func(name string, pdus ...pdu) {
		out = append(out, crashScn{iscsiScn: iscsiScn{name: name, script: pdus}})
	}
	ini, typ, tgt := "InitiatorName="+iniA, "SessionType=Normal", "TargetName="+tgtA
	sec := loginReq(0, 1, true, ini, tgt, typ, "AuthMethod=None")
	full := seqLogin(tgtA)
	nop := req(opNop|0x40, 0, 0x80, 0)
	for op := 0; op < 64; op++ {
		for _, b := range []int{0, 0x40} {
			n := op | b
			x := fmt.Sprintf("request %02Xh", n)
			any := anyReq
			if op == opCmd {
				any = func(op, dl int) pdu {
					q := anyReq(op, dl)
					q.set = rem4(23, 1)
					return q
				}
			}
			add(x+" first", anyReq(n, 0), nop)
			add(x+" after the security stage", sec, anyReq(n, 0), nop)
			add(x, full, any(n, 0).withAHS(op%3), nop)
			add(x+" in a discovery session", seqLogin(""), anyReq(n, 0).withAHS(op%3), nop)
			if op != opText && op != opLogin {
				add(x+" with data", full, any(n, 4+op%4), nop)
				add(x+" with data in a discovery session", seqLogin(""), anyReq(n, 4+op%4), nop)
			}
		}
	}
	for op := 0; op < 64; op++ {
		q := anyReq(op, op%4)
		if op == opCmd {
			q.set = rem4(23, 1)
		}
		add(fmt.Sprintf("request %02Xh with the longest additional header", op), full, q.withAHS(255), nop)
	}
	for i := range out {
		out[i].results = []scsiResult{{status: 0, max: 40}, {status: 2, sense: true}}
	}
	k := len(out)
	cmd := req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0))
	rdCmd := req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x12))
	for _, op := range []int{opNop, opCmd, opTMF, opDataOut, opLogout, opText, opSNACK} {
		any := func(n, dl int) pdu {
			q := anyReq(n, dl)
			if op == opCmd {
				q.set = hset(rem4(23, 2)).with(cdb0(0x12))
			}
			return q
		}
		add(fmt.Sprintf("write, request %02Xh", op), full, req(opCmd, 0, 0xa0, 0, edtl(700), cdb0(0x2a)), any(op, 0), nop)
		add(fmt.Sprintf("write, request %02Xh with data", op), full, req(opCmd, 0, 0xa0, 0, edtl(700), cdb0(0x2a)), any(op, 6), nop)
		add(fmt.Sprintf("command, request %02Xh", op), full, cmd, any(op|0x40, 0), nop)
		add(fmt.Sprintf("read, request %02Xh", op), full, rdCmd, any(op, 0), nop)
	}
	add("write, any data, request 05h", full, req(opCmd, 0, 0xa0, 0, edtlBelow(2), cdb0(0x2a), itt(7)), req(opDataOut, 0, -1, -1, itt(7)), anyReq(opDataOut, 0), nop)
	for i := k; i < len(out); i++ {
		out[i].results = []scsiResult{{status: 0, max: 8}, {status: 2, sense: true}}
	}
	// login text
	rd := req(opCmd, 0, 0xc0, 0, edtl(1500), cdb0(0x28))
	wr := req(opCmd, 1, 0xa0, 10, edtl(1500), cdb0(0x2a))
	keys := func(name string, base, free []string, pdus ...pdu) {
		out = append(out, crashScn{iscsiScn: iscsiScn{name: name, script: pdus, results: stdResults()}, base: base, free: free})
	}
	for _, key := range loginKeys {
		keys("login with any value of "+key, []string{ini, typ, tgt}, []string{key}, loginReq(1, 3, true, ini), nop)
		keys("login in the security stage with any value of "+key, []string{ini, typ, tgt}, []string{key}, loginReq(0, 1, true, ini), nop)
	}
	for _, key := range []string{"InitiatorName", "TargetName", "SessionType"} {
		var base []string
		for _, b := range []string{ini, typ, tgt} {
			if !strings.HasPrefix(b, key+"=") {
				base = append(base, b)
			}
		}
		keys("login with any value of "+key, base, []string{key}, loginReq(1, 3, true, ini), nop)
		keys("login in the security stage with any value of "+key, base, []string{key}, loginReq(0, 1, true, ini), loginReq(1, 3, true, ini), nop)
	}
	keys("login with nothing", []string{"X=1"}, nil, loginReq(1, 3, true, ini), nop)
	for _, v := range []string{"0", "1", "511", "512", "513", "16777215", "16777216", "4294967295", "-1", "0x200", "99999999999", "", " 512", "512,1024", "No", "yes", "None"} {
		for _, key := range []string{"MaxRecvDataSegmentLength", "MaxBurstLength", "FirstBurstLength", "MaxXmitDataSegmentLength", "MaxQueueCmd", "MaxOutstandingR2T", "ErrorRecoveryLevel", "ImmediateData", "HeaderDigest"} {
			add("login with "+key+"="+v, seqLogin(tgtA, key+"="+v), rd, wr, nop)
			out[len(out)-1].results = stdResults()
		}
	}
	for _, v := range []string{"", ",", "X", "None", "CRC32C", "CRC32C,X", "X,None", "None,CRC32C", "CRC32C,None,X,Y"} {
		for _, key := range []string{"HeaderDigest", "DataDigest", "AuthMethod"} {
			add("login with "+key+"="+v, seqLogin(tgtA, key+"="+v), rd, nop)
			add("login in the security stage with "+key+"="+v, loginReq(0, 1, true, ini, tgt, typ, key+"="+v), loginReq(1, 3, true, "X=1"), nop)
			out[len(out)-1].results = stdResults()
		}
	}
	for _, key := range []string{"SendTargets", "X-org.example", "TargetName"} {
		out = append(out, crashScn{iscsiScn: iscsiScn{name: "text with any value of " + key, script: []pdu{seqLogin(""), req(opText|0x40, 0, 0x80, 4), nop}}, base: []string{ini, "SessionType=Discovery"}, free: []string{key}})
	}
	for i := range out {
		if out[i].results == nil {
			out[i].results = stdResults()
		}
	}
	return out
}

func init() {
	register(&Check{ID: "I10", Rule: "No sequence of PDUs makes the connection handling panic, get stuck, or leave a connection neither read from nor closed. " + iscsiMethod + " The parser of key=value text is interpreted over all texts of up to 7 bytes; in the scripts with arbitrary values of a key it is replaced by its result.", Floor: 1500, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range crashScripts() {
			e.textModel(s.base, s.free)
			e.m.SymUnroll = 1
			if s.free != nil {
				e.m.SymUnroll = 3
			}
			s.raw = true
			c.iscsi(e, s.iscsiScn, func(p *iPath) {})
		}
		c.anyText(7)
	}})
	register(&Check{ID: "I11", Rule: "A connection on which a read or write fails is closed, nothing is sent on it and no command of it carried out any more, its locks are released, and other connections and a later login of the initiator are served as ever. " + iscsiMethod, Floor: 500, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range failScripts() {
			c.iscsi(e, s, func(p *iPath) { c.failed(p) })
		}
		for _, s := range breakScripts() {
			c.iscsi(e, s, func(p *iPath) { c.failed(p); c.monitorConn(p, "conn2", "*") })
		}
	}})
}

func debugCrash(c *Ctx) {
	e := newISCSI(c, stdPortals())
	for _, s := range crashScripts() {
		if w := os.Getenv("SCRIPT"); w != "" && !strings.Contains(s.name, w) {
			continue
		}
		e.m.SymUnroll = 1
		if s.free != nil {
			e.m.SymUnroll = 3
		}
		e.textModel(s.base, s.free)
		t0 := e.m.Steps
		n := 0
		now := time.Now()
		s.raw = true
		c.iscsi(e, s.iscsiScn, func(p *iPath) { n++ })
		fmt.Println(time.Since(now).Milliseconds(), s.name, n, e.m.Steps-t0, e.m.Incompl, len(e.m.Panics))
	}
}

// anyText judges the parser of key=value text for all texts of up to max bytes.
func (c *Ctx) anyText(max int) {
	p := c.Program("", false)
	m := machineFrom(p, c.Init(p))
	fn := p.Func("pkg/util.ParseKVText")
	if fn == nil {
		panic(Anchor("ParseKVText"))
	}
	for l := 0; l <= max; l++ {
		name := fmt.Sprintf("text of %d bytes", l)
		o := m.symObj(fmt.Sprintf("txt%d", l), byteT, true, false)
		n := c64(int64(l))
		rs := m.Run(m.Base.fork(), fn, []Val{Slice{Arr: o, Off: c64(0), Len: n, Cap: n, Nil: litBool(l == 0)}})
		c.Ob("reachable", name, len(rs) > 0, func() string { return "no path" })
		c.Count("text_paths", len(rs))
		c.panics(m, name)
		c.Done(m, name)
	}
}

// panics reports what may panic.
func (c *Ctx) panics(m *Machine, name string) {
	c.Ob("no-panic", name, true, nil)
	for _, pn := range m.Panics {
		pn := pn
		c.Ob("no-panic", name+", "+pn.Kind+" at "+pn.Pos, false, func() string {
			return fmt.Sprintf("%s\npath condition: %s\nstack: %s", pn.Detail, strings.Join(pn.Facts, " && "), strings.Join(pn.Stack, " <- "))
		})
	}
	m.Panics, m.panSeen = nil, map[string]bool{}
}

// failScn breaks a connection in the midst of a script.
func failScripts() []iscsiScn {
	var out []iscsiScn
	want := []string{"login", "login in two stages", "NOP-Out, 3 bytes over words", "NOP-Out with AHS", "command without data", "two commands", "read, 1 bytes over words", "read with AHS", "write, immediate data",
		"write, solicited data", "write, immediate and solicited data", "task management", "request 10h", "request 10h with data", "logout", "logout after commands", "discovery, SendTargets",
		"discovery, request 01h", "discovery, logout", "write, bursts", "two writes", "write among other commands", "Data-Out of no task", "bidirectional command"}
	name := map[string]bool{}
	for _, w := range want {
		name[w] = true
	}
	rd := session("long read", tgtA, []string{"MaxRecvDataSegmentLength=512"}, req(opCmd, 0, 0xc0, 0, edtl(1500), cdb0(0x28)))
	for _, s := range append(scripts(stdScripts, writeScripts)(), rd) {
		if !name[s.name] && s.name != rd.name {
			continue
		}
		for k := range s.script {
			for _, what := range []string{"read", "write"} {
				k, what := k, what
				q := s
				q.name = fmt.Sprintf("%s, a %s fails at PDU %d", s.name, what, k)
				q.fail = func(i int, w string) bool { return i == k && w == what }
				q.results = []scsiResult{{status: 0}, {status: 2, sense: true}}
				out = append(out, q)
			}
		}
	}
	return out
}

// failed judges what happens once a connection failed.
func (c *Ctx) failed(p *iPath) {
	bad := map[string]string{}
	for _, t := range p.turns {
		// a held command may be carried out by the turn of another connection
		for _, ev := range t.evs {
			switch {
			case ev.Kind == "net" && ev.Name == "ReadFailed":
				bad[connID(ev.Args[0])] = "read"
			case ev.Kind == "net" && ev.Name == "Write":
				cn := connID(ev.Recv)
				if w := bad[cn]; w != "" {
					p.ob("sent", "after a failed "+w+", PDU "+fmt.Sprint(t.k), false, "something is sent on a connection after a %s failed on it, at %s", w, ev.Pos)
				}
				if f, _ := lastErrOf(p.st, ev); f {
					bad[cn] = "write"
				}
			case ev.Kind == "scsi" && ev.Name == "Execute":
				if w := bad[t.conn]; w != "" {
					p.ob("execute", "after a failed "+w+", PDU "+fmt.Sprint(t.k), false, "a command is carried out after a %s failed, at %s", w, ev.Pos)
				}
			}
		}
	}
	for cn, w := range bad {
		p.ob("closed", "after a failed "+w, p.closedConn(cn), "the connection stays open after a failed %s", w)
		p.ob("sent", "after a failed "+w, true, "")
		p.ob("execute", "after a failed "+w, true, "")
	}
}

// breakScripts break one connection while another one is used: the second goes
// on, or takes the place of the first.
func breakScripts() []iscsiScn {
	var out []iscsiScn
	first := map[string][]pdu{
		"idle":         {seqLogin(tgtA)},
		"command":      {seqLogin(tgtA), req(opCmd, 0, 0xc0, 0, edtl(36), cdb0(0x12))},
		"write begun":  {seqLogin(tgtA), req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7))},
		"command held": {seqLogin(tgtA), req(opCmd, 1, 0x80, 0, edtl(0), cdb0(0), itt(8))},
		"discovery":    {seqLogin("")},
		"no login":     nil,
	}
	other := seqLogin(tgtA)
	other.set = hset(other.set).with(hset{8: 0x80, 9: 9, 10: 9, 11: 9, 12: 9, 13: 9})
	again := seqLogin(tgtA)
	for _, n := range sortedKeys(first) {
		l := append(append([]pdu{}, first[n]...), req(opNop|0x40, 0, 0x80, 0, itt(9)))
		lost := len(l) - 1
		use := []pdu{req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 64, itt(7), hset{}.be(40, 4, 0)), req(opCmd, 1, 0xc0, 0, edtl(36), cdb0(0x12), itt(8)), probe(2)}
		for _, what := range []string{"read", "write"} {
			what := what
			out = append(out, iscsiScn{name: fmt.Sprintf("%s, a %s fails, another session", n, what),
				steps:   []step{{"conn1", l[:lost]}, {"conn2", []pdu{other}}, {"conn1", l[lost:]}, {"conn2", use}},
				fail:    func(k int, w string) bool { return k == lost+1 && w == what },
				results: []scsiResult{{status: 0}}})
			out = append(out, iscsiScn{name: fmt.Sprintf("%s, a %s fails, the initiator comes back", n, what),
				steps:   []step{{"conn1", l}, {"conn2", append([]pdu{again}, use...)}},
				fail:    func(k int, w string) bool { return k == lost && w == what },
				results: []scsiResult{{status: 0}}})
		}
	}
	return out
}

func debugFail(c *Ctx) {
	e := newISCSI(c, stdPortals())
	for _, s := range failScripts() {
		if w := os.Getenv("SCRIPT"); w != "" && !strings.Contains(s.name, w) {
			continue
		}
		n := 0
		c.iscsi(e, s, func(p *iPath) { n++; c.failed(p) })
		fmt.Println(s.name, n, e.m.Incompl, len(e.m.Panics))
	}
	for _, s := range breakScripts() {
		if w := os.Getenv("SCRIPT"); w != "" && !strings.Contains(s.name, w) {
			continue
		}
		n := 0
		c.iscsi(e, s, func(p *iPath) { n++; c.failed(p); c.monitorConn(p, "conn2", "*") })
		fmt.Println(s.name, n, e.m.Incompl, len(e.m.Panics))
	}
}
