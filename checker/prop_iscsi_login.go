package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Access: which logins give a session, and what can be done without one.

// loginReq is a login request in a stage.
func loginReq(csg, nsg int, transit bool, keys ...string) pdu {
	fl := csg<<2 | nsg
	if transit {
		fl |= 0x80
	}
	p := pdu{op: 0x43, set: hset{1: uint64(fl)}.be(14, 2, 0).with(sn(sn0))}
	if len(keys) > 0 {
		p.text = kvText(keys...)
	}
	return p
}

// anyReq is a request of which only the opcode byte may be fixed.
func anyReq(op int, dl int) pdu {
	p := pdu{op: byte(op), dl: dl}
	if op < 0 {
		p.op, p.sym0 = 0, true
	}
	return p
}

// gateScn is a script of which the first legal PDUs are requests of a login
// that is to succeed.
type gateScn struct {
	iscsiScn
	legal   int
	session bool // the legal requests open a session
}

// stage gives the state of the login after a login response: 0 not answered or
// refused, 1 goes on, 2 in the full feature phase.
func (p *iPath) stage(t *iTurn) int {
	if len(t.pdus) != 1 || t.pdus[0].op() != inLogin {
		return 0
	}
	w := t.pdus[0]
	cls := w.b(36)
	if cls == nil || !p.eq(cls, Const(8, 0)) {
		return 0
	}
	if b := w.b(1); w.flag(1, 7) != 0 && (b == nil || p.may(LEq(And(b, Const(8, 3)), Const(8, 3)))) {
		return 2
	}
	return 1
}

// refused judges a turn in which nothing but a refusal may happen.
func (p *iPath) refused(t *iTurn, what string) {
	name := fmt.Sprintf("PDU %d", t.k)
	ok := true
	for _, w := range t.pdus {
		cls := w.b(36)
		if !(w.op() == inRej || w.op() == inLogin && cls != nil && p.holds(LNe(cls, Const(8, 0)))) {
			ok = false
			p.ob("gate", name, false, "%s is answered with opcode %02x", what, w.op())
		}
	}
	p.ob("gate", name, ok, "")
	p.ob("execute", name, len(t.of("scsi", "Execute")) == 0, "%s executes a SCSI command", what)
	p.ob("closed", name, t.closed[t.conn], "the connection stays open after %s", what)
}

func (c *Ctx) gate(p *iPath, s *gateScn) {
	shut := false
	for _, t := range p.turns {
		if t.k < 0 {
			continue
		}
		name := fmt.Sprintf("PDU %d", t.k)
		switch {
		case shut:
			p.ob("closed", name+" after the end", len(t.pdus) == 0 && len(t.of("scsi", "Execute")) == 0, "something happens after the connection was to be closed")
		case t.k < s.legal:
			want := 1
			if t.k == s.legal-1 && s.session {
				want = 2
			}
			p.ob("login", name, p.stage(t) == want && !t.closed[t.conn], "a correct login request is not answered with success and the right stage")
			p.ob("execute", name, len(t.of("scsi", "Execute")) == 0, "a login request executes a SCSI command")
		default:
			p.refused(t, "a "+nm(p.e.script[t.k].op)+" without a login")
			shut = true
		}
	}
}

// gateScripts are connections that do not get a session.
func gateScripts() []gateScn {
	var out []gateScn
	cmd := req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x28))
	add := func(name string, legal int, pdus ...pdu) {
		out = append(out, gateScn{iscsiScn: iscsiScn{name: name, script: append(pdus, cmd)}, legal: legal})
	}
	sec := loginReq(0, 1, true, "InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal", "AuthMethod=None")
	secStay := loginReq(0, 0, false, "InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal", "AuthMethod=None")
	var ops []int
	for op := 0; op < 64; op++ {
		if op != opLogin {
			ops = append(ops, op, op|0x40)
		}
	}
	for _, op := range ops {
		add(fmt.Sprintf("request %02Xh first", op), 0, anyReq(op, 0))
		add(fmt.Sprintf("request %02Xh after the security stage", op), 1, sec, anyReq(op, 0))
	}
	add("request with data first", 0, anyReq(opCmd, 4))
	add("request with data in the security stage", 1, secStay, anyReq(opCmd, 4))
	add("ping in the security stage", 1, secStay, anyReq(opNop|0x40, 0))
	bad := func(name string, pdus ...pdu) { add("login: "+name, len(pdus)-1, pdus...) }
	ini, typ := "InitiatorName="+iniA, "SessionType=Normal"
	bad("unknown target", loginReq(1, 3, true, ini, typ, "TargetName=iqn.2016-09.com.gotgt.gostor:c"))
	bad("beginning of a target name", loginReq(1, 3, true, ini, typ, "TargetName=iqn.2016-09.com.gotgt.gostor:"))
	bad("end of a target name", loginReq(1, 3, true, ini, typ, "TargetName=a"))
	bad("target name with more behind it", loginReq(1, 3, true, ini, typ, "TargetName="+tgtA+"b"))
	bad("empty target name", loginReq(1, 3, true, ini, typ, "TargetName="))
	bad("no target name", loginReq(1, 3, true, ini, typ))
	bad("target of another portal", loginReq(1, 3, true, ini, typ, "TargetName="+tgtB))
	bad("no initiator name", loginReq(1, 3, true, typ, "TargetName="+tgtA))
	bad("empty initiator name", loginReq(1, 3, true, "InitiatorName=", typ, "TargetName="+tgtA))
	bad("nothing", loginReq(1, 3, true))
	bad("unknown session type", loginReq(1, 3, true, ini, "SessionType=Other", "TargetName="+tgtA))
	bad("discovery without initiator name", loginReq(1, 3, true, "SessionType=Discovery"))
	bad("CHAP only", loginReq(0, 1, true, ini, typ, "TargetName="+tgtA, "AuthMethod=CHAP"))
	bad("KRB5 and CHAP", loginReq(0, 1, true, ini, typ, "TargetName="+tgtA, "AuthMethod=KRB5,CHAP"))
	bad("no such method", loginReq(0, 1, true, ini, typ, "TargetName="+tgtA, "AuthMethod=Nonesuch"))
	bad("unknown target after the security stage", loginReq(0, 1, true, ini, typ, "TargetName=iqn.2016-09.com.gotgt.gostor:c"), loginReq(1, 3, true, "HeaderDigest=None"))
	bad("target of another portal after the security stage", loginReq(0, 1, true, ini, typ, "TargetName="+tgtB), loginReq(1, 3, true, "HeaderDigest=None"))
	bad("another target after the security stage", sec, loginReq(1, 3, true, "TargetName="+tgtB))
	bad("no names after the security stage", loginReq(0, 1, true, "AuthMethod=None"), loginReq(1, 3, true, "HeaderDigest=None"))
	bad("CHAP after a first answer", secStay, loginReq(0, 1, true, "AuthMethod=CHAP"))
	for _, h := range []uint64{1, 0x100, 0xffff} {
		q := loginReq(1, 3, true, ini, typ, "TargetName="+tgtA)
		q.set = hset(q.set).with(hset{}.be(14, 2, h))
		bad(fmt.Sprintf("TSIH %d of no session", h), q)
	}
	for _, st := range [][2]int{{2, 3}, {3, 3}, {1, 2}, {0, 2}, {2, 0}, {3, 0}, {1, 0}} {
		bad(fmt.Sprintf("from stage %d to %d", st[0], st[1]), loginReq(st[0], st[1], true, ini, typ, "TargetName="+tgtA))
	}
	return out
}

// anyLogin: a login request with everything in its header but the opcode, the
// lengths and the stages arbitrary.
func anyLogin() []iscsiScn {
	var out []iscsiScn
	for _, tn := range []string{tgtA, "iqn.2016-09.com.gotgt.gostor:c"} {
		q := loginReq(1, 3, true, "InitiatorName="+iniA, "TargetName="+tn, "SessionType=Normal")
		delete(q.set, 14)
		delete(q.set, 15)
		for i := 24; i < 28; i++ {
			delete(q.set, i)
		}
		q1 := q
		q1.set = hset(q.set).with(nil)
		delete(q1.set, 1)
		out = append(out, iscsiScn{name: "any login to " + tn, script: []pdu{q}}, iscsiScn{name: "any login in any stage to " + tn, script: []pdu{q1}})
	}
	return out
}

func (c *Ctx) anyLogin(p *iPath) {
	t := p.turn(0)
	if t == nil {
		return
	}
	p.ob("execute", "PDU 0", len(t.of("scsi", "Execute")) == 0, "a login executes a SCSI command")
	good := strings.HasSuffix(p.scn.name, tgtA)
	b := p.hb(0, 1)
	full := []Lit{LEq(And(b, Const(8, 0xcf)), Const(8, 0x87)), LEq(p.e.hbe(0, 14, 2, 16), Const(16, 0))}
	sec := []Lit{LEq(And(b, Const(8, 0xcf)), Const(8, 0x83))}
	switch p.stage(t) {
	case 2:
		ok := good
		for _, l := range full {
			ok = ok && p.holds(p.st.simpLit(l))
		}
		ok = ok || good && p.holds(p.st.simpLit(sec[0]))
		p.ob("gate", "PDU 0", ok, "a session is given for a login request that cannot have one")
	case 0:
		p.refused(t, "a login request")
		p.ob("login", "PDU 0", !good || !p.may(full...), "a correct login request is refused")
	}
}

// inSession: in a discovery session, and after a second login, nothing else is
// reached.
func sessionScripts() []iscsiScn {
	var out []iscsiScn
	for op := 0; op < 64; op++ {
		if op == opLogout || op == opText {
			continue
		}
		for _, im := range []int{0, 0x40} {
			p := anyReq(op|im, 0)
			p.set = hset{24: 0xff, 25: 0xff, 26: 0xff, 27: 0xff}
			n := 0
			if im == 0 && (op == opNop || op == opCmd || op == opTMF) {
				n = 1
			}
			out = append(out, iscsiScn{name: fmt.Sprintf("discovery, request %02Xh", op|im), script: []pdu{seqLogin(""), p, req(opCmd, n, 0xa0, 8, edtl(8), cdb0(0x2a), itt(0x77)), probe(n + 1)}})
		}
	}
	return out
}

func (c *Ctx) inDiscovery(p *iPath) {
	for _, t := range p.turns {
		p.ob("execute", fmt.Sprintf("PDU %d", t.k), len(t.of("scsi", "Execute")) == 0, "a discovery session executes a SCSI command")
		for _, w := range t.pdus {
			op := w.op()
			p.ob("gate", fmt.Sprintf("PDU %d", t.k), t.k <= 0 || op == inRej || op == inNop || op == inTMF, "a request in a discovery session is answered with opcode %02x", op)
			if op == inTMF {
				r := w.b(2)
				p.ob("gate", fmt.Sprintf("PDU %d task management", t.k), r != nil && p.holds(LNe(r, Const(8, 0))), "a task management function is carried out in a discovery session")
			}
		}
	}
}

// otherTarget: a session reaches the target it logged in to and no other.
func otherScripts() []iscsiScn {
	cmd := func(n int) pdu { return req(opCmd, n, 0x80, 0, edtl(0), cdb0(0)) }
	again := func(t string) pdu {
		return loginReq(1, 3, true, "InitiatorName="+iniA, "TargetName="+t, "SessionType=Normal")
	}
	twice := func(t string) pdu {
		p := again(t)
		p.set = hset(p.set).with(sn(sn0))
		return p
	}
	var out []iscsiScn
	out = append(out, iscsiScn{name: "second login in a session", script: []pdu{seqLogin(tgtA), twice(tgtB), cmd(0), probe(1)}})
	out = append(out, iscsiScn{name: "second login to the same target", script: []pdu{seqLogin(tgtA), twice(tgtA), cmd(0), probe(1)}})
	out = append(out, iscsiScn{name: "login after commands", script: []pdu{seqLogin(tgtA), cmd(0), twice(tgtB), cmd(1), probe(2)}})
	out = append(out, iscsiScn{name: "login in a discovery session", script: []pdu{seqLogin(""), twice(tgtA), cmd(0), probe(1)}})
	return out
}

func (c *Ctx) oneTarget(p *iPath) {
	normal := !strings.Contains(p.scn.name, "discovery")
	for _, t := range p.turns {
		name := fmt.Sprintf("PDU %d", t.k)
		if t.k < 1 {
			continue
		}
		op := p.e.script[t.k].op & 0x3f
		ex := t.of("scsi", "Execute")
		n := 0
		if normal && op == opCmd {
			n = 1
		}
		p.ob("execute", name, len(ex) == n, "%d commands are executed", len(ex))
		for _, e := range ex {
			id, ok := e.Args[1].(*Term)
			p.ob("gate", name+" target", ok && p.eq(id, Const(id.W, 0)), "a command goes to target %s, the session is one with target 0", id)
		}
		if op == opLogin {
			ok := len(t.pdus) == 1 && t.pdus[0].op() == inRej
			ok = ok || t.closed[t.conn] && len(t.pdus) == 0
			p.ob("gate", name, ok, "a login request in the full feature phase is not refused")
		}
	}
}

// Negotiation (RFC 7143 13).

type negKey struct {
	name string
	kind string // min, max, and, or, list
	lo   uint64
	hi   uint64
	only string // the only value this target can keep to, if there is one
}

var negKeys = []negKey{
	{"MaxConnections", "min", 1, 65535, "1"},
	{"InitialR2T", "or", 0, 0, "Yes"},
	{"ImmediateData", "and", 0, 0, ""},
	{"MaxBurstLength", "min", 512, 16777215, ""},
	{"FirstBurstLength", "min", 512, 16777215, ""},
	{"DefaultTime2Wait", "max", 0, 3600, ""},
	{"DefaultTime2Retain", "min", 0, 3600, ""},
	{"MaxOutstandingR2T", "min", 1, 65535, "1"},
	{"DataPDUInOrder", "or", 0, 0, "Yes"},
	{"DataSequenceInOrder", "or", 0, 0, "Yes"},
	{"ErrorRecoveryLevel", "min", 0, 2, "0"},
	{"HeaderDigest", "list", 0, 0, "None"},
	{"DataDigest", "list", 0, 0, "None"},
}

var declared = map[string]bool{"InitiatorName": true, "InitiatorAlias": true, "TargetName": true, "SessionType": true, "MaxRecvDataSegmentLength": true}

// answerOK tells whether the answer to an offer is a result of the negotiation.
func answerOK(key, offer, got string) (bool, string) {
	var k *negKey
	for i := range negKeys {
		if negKeys[i].name == key {
			k = &negKeys[i]
		}
	}
	if k == nil {
		switch key {
		case "IFMarker", "OFMarker":
			return got == "No" || got == "Reject" || got == "NotUnderstood", "No: there are no markers"
		}
		return got == "NotUnderstood", "NotUnderstood"
	}
	switch k.kind {
	case "min", "max":
		v, err := strconv.ParseUint(offer, 0, 64)
		if err != nil || v < k.lo || v > k.hi {
			return got == "Reject", "Reject: the value offered is out of range"
		}
		g, err := strconv.ParseUint(got, 0, 64)
		if err != nil || g < k.lo || g > k.hi {
			return false, fmt.Sprintf("a number from %d to %d", k.lo, k.hi)
		}
		if k.only != "" && got != k.only {
			return false, k.only
		}
		if k.kind == "min" {
			return g <= v, fmt.Sprintf("at most %d", v)
		}
		return g >= v, fmt.Sprintf("at least %d", v)
	case "and", "or":
		if offer != "Yes" && offer != "No" {
			return got == "Reject", "Reject: the value offered is none"
		}
		if k.only != "" {
			return got == k.only, k.only
		}
		if k.kind == "and" && offer == "No" {
			return got == "No", "No"
		}
		return got == "Yes" || got == "No", "Yes or No"
	case "list":
		for _, v := range strings.Split(offer, ",") {
			if v == k.only {
				return got == k.only, k.only
			}
		}
		return got == "Reject", "Reject: nothing offered can be chosen"
	}
	return false, ""
}

type negScn struct {
	iscsiScn
	offers [][2]string
	stage0 [][2]string
}

func negScripts() []negScn {
	var out []negScn
	write := req(opCmd, 0, 0xa0, 0, edtl(1<<23), cdb0(0x2a), itt(7))
	add := func(name string, kv ...[2]string) {
		var ks []string
		for _, o := range kv {
			ks = append(ks, o[0]+"="+o[1])
		}
		out = append(out, negScn{iscsiScn{name: "negotiation of " + name, script: []pdu{seqLogin(tgtA, ks...), write}}, kv, nil})
	}
	all := map[string][]string{}
	for _, k := range negKeys {
		var vs []string
		switch k.kind {
		case "min", "max":
			seen := map[uint64]bool{}
			for _, v := range []uint64{0, 1, 2, 3, 8, 20, 21, k.lo - 1, k.lo, k.lo + 1, 4096, 8192, 65535, 65536, 65537, 262143, 262144, 262145, k.hi - 1, k.hi, k.hi + 1, 1<<32 - 1, 1 << 32, 1<<32 + 512} {
				if v < 1<<40 && !seen[v] {
					seen[v] = true
					vs = append(vs, strconv.FormatUint(v, 10))
				}
			}
			vs = append(vs, "0x1000", "0x1", "", "x", "-1", "1 ")
		case "and", "or":
			vs = []string{"Yes", "No", "Maybe", ""}
		case "list":
			vs = []string{"None", "CRC32C", "CRC32C,None", "None,CRC32C", "X-other,None", "X-other", ""}
		}
		all[k.name] = vs
		for _, v := range vs {
			add(k.name+"="+v, [2]string{k.name, v})
		}
	}
	for _, k := range []string{"X-com.example.key", "Unheardof", "SendTargets", "MaxXmitDataSegmentLength", "MaxQueueCmd"} {
		add(k, [2]string{k, "1"})
	}
	for _, k := range []string{"IFMarker", "OFMarker"} {
		add(k+"=No", [2]string{k, "No"})
		add(k+"=Yes", [2]string{k, "Yes"})
	}
	for i := 0; i < 6; i++ {
		var kv [][2]string
		for _, k := range negKeys {
			kv = append(kv, [2]string{k.name, all[k.name][i%len(all[k.name])]})
		}
		add(fmt.Sprintf("all keys, values %d", i), kv...)
		for a, b := 0, len(kv)-1; a < b; a, b = a+1, b-1 {
			kv[a], kv[b] = kv[b], kv[a]
		}
		add(fmt.Sprintf("all keys the other way around, values %d", i), kv...)
	}
	var all20 [][2]string
	for _, kv := range []string{"HeaderDigest=None", "DataDigest=None", "DefaultTime2Wait=2", "DefaultTime2Retain=0", "IFMarker=No", "OFMarker=No", "ErrorRecoveryLevel=0", "InitialR2T=No", "ImmediateData=Yes", "MaxBurstLength=16776192", "FirstBurstLength=262144", "MaxOutstandingR2T=1", "MaxConnections=1", "DataPDUInOrder=Yes", "DataSequenceInOrder=Yes", "MaxRecvDataSegmentLength=262144"} {
		k, v, _ := strings.Cut(kv, "=")
		all20 = append(all20, [2]string{k, v})
	}
	add("what open-iscsi offers", all20...)
	for _, v := range []string{"512", "16777215", "0x200"} {
		add("MaxRecvDataSegmentLength="+v, [2]string{"MaxRecvDataSegmentLength", v})
	}
	for _, m := range []string{"None", "CHAP,None", "None,CHAP"} {
		s := loginReq(0, 1, true, "InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal", "AuthMethod="+m)
		o := loginReq(1, 3, true, "MaxBurstLength=8192", "HeaderDigest=CRC32C,None", "Unheardof=1")
		out = append(out, negScn{iscsiScn{name: "negotiation in two stages, AuthMethod=" + m, script: []pdu{s, o, write}},
			[][2]string{{"MaxBurstLength", "8192"}, {"HeaderDigest", "CRC32C,None"}, {"Unheardof", "1"}}, [][2]string{{"AuthMethod", m}}})
	}
	disc := negScn{iscsiScn{name: "negotiation of a discovery session", script: []pdu{seqLogin("", "HeaderDigest=None", "MaxRecvDataSegmentLength=32768", "DefaultTime2Wait=0")}}, [][2]string{{"HeaderDigest", "None"}, {"DefaultTime2Wait", "0"}}, nil}
	out = append(out, disc)
	return out
}

func (c *Ctx) negotiation(p *iPath, s *negScn) {
	var pairs [][2]string
	burst, imm := uint64(262144), true
	first := true
	check := func(t *iTurn, offers [][2]string, last bool) bool {
		name := fmt.Sprintf("PDU %d", t.k)
		if len(t.pdus) != 1 || t.pdus[0].op() != inLogin {
			p.ob("negotiation", name, false, "the login request is not answered")
			return false
		}
		w := t.pdus[0]
		want := 1
		if last {
			want = 2
		}
		p.ob("negotiation", name+" stage", p.stage(t) == want && !t.closed[t.conn], "the login does not get to its next stage")
		// the response is in the stage of the request and moves on as asked
		p.ob("negotiation", name+" stages", w.b(1) != nil && p.eq(w.b(1), p.hb(t.k, 1)), "the stages of the login response are %s, requested %s", w.b(1), p.hb(t.k, 1))
		p.ob("negotiation", name+" ISID", w.isHdr(8, 6, t.k, 8), "the login response does not carry the ISID of the request")
		p.ob("negotiation", name+" versions", w.is(2, 2, Const(16, 0)), "the versions of the login response are not 0")
		tx, ok := w.text()
		if !ok {
			p.ob("negotiation", name+" text", false, "the text of the login response is not known")
			return false
		}
		if tx != "" && !strings.HasSuffix(tx, "\x00") {
			p.ob("negotiation", name+" text", false, "the text of the login response does not end with a NUL: %q", tx)
		}
		got := map[string]string{}
		for _, kv := range strings.Split(strings.TrimSuffix(tx, "\x00"), "\x00") {
			if tx == "" {
				break
			}
			k, v, ok := strings.Cut(kv, "=")
			_, dup := got[k]
			p.ob("negotiation", name+" text "+k, ok && !dup, "the text of the login response holds %q twice or without a value", k)
			got[k] = v
			pairs = append(pairs, [2]string{k, v})
		}
		offered := map[string]bool{}
		for _, o := range offers {
			offered[o[0]] = true
			v, has := got[o[0]]
			if declared[o[0]] {
				continue
			}
			if !has {
				p.ob("negotiation", name+" "+o[0], false, "%s=%s is not answered, in %q", o[0], o[1], tx)
				continue
			}
			var good bool
			var want string
			if o[0] == "AuthMethod" {
				good, want = v == "None", "None"
			} else {
				good, want = answerOK(o[0], o[1], v)
			}
			p.ob("negotiation", name+" "+o[0], good, "%s=%s is answered with %s, want %s", o[0], o[1], v, want)
			switch {
			case o[0] == "MaxBurstLength":
				if n, err := strconv.ParseUint(v, 0, 64); err == nil {
					burst = n
				}
			case o[0] == "ImmediateData":
				imm = v == "Yes"
			}
		}
		for k, v := range got {
			switch k {
			case "TargetPortalGroupTag":
				p.ob("negotiation", name+" "+k, v == "1" || p.scn.name == "negotiation of a discovery session", "the portal group tag is %s, the target portal belongs to group 1", v)
			case "MaxRecvDataSegmentLength":
				n, err := strconv.ParseUint(v, 0, 64)
				p.ob("negotiation", name+" "+k, err == nil && n >= 512 && n <= 16777215, "%s is %s", k, v)
			case "TargetAlias":
			case "AuthMethod":
				p.ob("negotiation", name+" "+k, v == "None", "%s=%s", k, v)
			default:
				p.ob("negotiation", name+" answers only offers", offered[k] && !declared[k], "%s=%s was not offered", k, v)
			}
		}
		if first && p.scn.name != "negotiation of a discovery session" {
			_, ok := got["TargetPortalGroupTag"]
			p.ob("negotiation", name+" portal group", ok || !last, "the login response has no TargetPortalGroupTag")
		}
		first = false
		return true
	}
	k := 0
	if s.stage0 != nil {
		t := p.turn(0)
		if t == nil || !check(t, s.stage0, false) {
			return
		}
		k = 1
	}
	t := p.turn(k)
	if t == nil || !check(t, s.offers, true) {
		return
	}
	// what was agreed on is kept to
	if t = p.turn(k + 1); t != nil {
		name := fmt.Sprintf("PDU %d", k+1)
		if len(t.pdus) != 1 || t.pdus[0].op() != inR2T {
			p.ob("kept", name, false, "a write is not answered with an R2T")
			return
		}
		n := t.pdus[0].be(44, 4, 32)
		p.ob("kept", name, n != nil && p.holds(LULe(n, Const(32, burst))) && p.holds(LNe(n, Const(32, 0))), "an R2T asks for %s bytes, MaxBurstLength was answered with %d", n, burst)
	}
	_ = imm
}

func init() {
	register(&Check{ID: "I08", Rule: "Before a login has succeeded nothing but a login is answered and the connection ends; a login succeeds for a named initiator, an existing target and one of its own portals only; a session reaches its own target only, a discovery session none. " + iscsiMethod, Floor: 1000, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range gateScripts() {
			s := s
			c.iscsi(e, s.iscsiScn, func(p *iPath) { c.gate(p, &s) })
		}
		for _, s := range anyLogin() {
			c.iscsi(e, s, c.anyLogin)
		}
		for _, s := range sessionScripts() {
			c.iscsi(e, s, c.inDiscovery)
		}
		for _, s := range otherScripts() {
			s.results = []scsiResult{{status: 0}}
			c.iscsi(e, s, c.oneTarget)
		}
	}})
	register(&Check{ID: "I09", Rule: "Every key offered in a login is answered exactly once, with a result of its negotiation function, and what is agreed on is kept to; the stages, ISID and versions of the login response are right. " + iscsiMethod, Floor: 500, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		e.m.Unroll = 2000
		for _, s := range negScripts() {
			s := s
			c.iscsi(e, s.iscsiScn, func(p *iPath) { c.negotiation(p, &s) })
		}
	}})
}
