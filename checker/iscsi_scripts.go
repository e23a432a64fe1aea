package main

import "fmt"

// The CmdSN with which the sessions of the scripts begin: it wraps after one
// command.
const sn0 = 0xffffffff

const (
	opNop, opCmd, opTMF, opLogin, opText, opDataOut, opLogout, opSNACK      = 0, 1, 2, 3, 4, 5, 6, 0x10
	inNop, inResp, inTMF, inLogin, inText, inDataIn, inLogout, inR2T, inRej = 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x31, 0x3f
)

type hset map[int]uint64

func (h hset) be(i, n int, v uint64) hset {
	for j := 0; j < n; j++ {
		h[i+j] = v >> uint(8*(n-1-j)) & 0xff
	}
	return h
}

func (h hset) with(o hset) hset {
	r := hset{}
	for k, v := range h {
		r[k] = v
	}
	for k, v := range o {
		r[k] = v
	}
	return r
}

func sn(n uint32) hset  { return hset{}.be(24, 4, uint64(n)) }
func lun(v uint64) hset { return hset{}.be(8, 8, v) }

const lun5 = 5 << 48

// seqLogin is the login of a normal or a discovery session, with keys added.
func seqLogin(target string, keys ...string) pdu {
	kv := []string{"InitiatorName=" + iniA}
	if target == "" {
		kv = append(kv, "SessionType=Discovery")
	} else {
		kv = append(kv, "TargetName="+target, "SessionType=Normal")
	}
	return pdu{op: 0x43, set: hset{1: 0x87}.be(14, 2, 0).with(sn(sn0)), text: kvText(append(kv, keys...)...)}
}

// req is a request in the full feature phase with the n-th CmdSN of the session.
func req(op byte, n int, flags int, dl int, sets ...hset) pdu {
	h := sn(sn0 + uint32(n))
	if op&0x3f == opCmd || op&0x3f == opDataOut {
		h = h.with(lun(lun5))
	}
	if op&0x3f == opDataOut {
		delete(h, 24)
		delete(h, 25)
		delete(h, 26)
		delete(h, 27)
	}
	if flags >= 0 {
		h[1] = uint64(flags)
	}
	for _, s := range sets {
		h = h.with(s)
	}
	return pdu{op: op, set: h, dl: dl}
}

func (p pdu) withRem(r int) pdu { p.rem = r; return p }
func (p pdu) withAHS(n int) pdu { p.ahs = n; return p }

func probe(n int) pdu { return req(opNop, n, 0x80, 0, hset{}.be(16, 4, 0x70707070)) }

// cdb0 fixes the operation code of a command.
func cdb0(op byte) hset { return hset{32: uint64(op)} }
func edtl(n uint64) hset {
	return hset{}.be(20, 4, n)
}

// edtlBelow bounds the expected data transfer length by 256^k.
func edtlBelow(k int) hset { return hset{}.be(20, 4-k, 0) }

// rem4 fixes the low two bits of byte i.
func rem4(i, r int) hset { return hset{i: 0x100 | uint64(r)} }

// itt fixes the initiator task tag.
func itt(v uint64) hset { return hset{}.be(16, 4, v) }

// session is a script in a session of its own, with a probe at its end.
func session(name, target string, keys []string, pdus ...pdu) iscsiScn {
	n := 0
	s := iscsiScn{name: name, script: []pdu{seqLogin(target, keys...)}}
	if target == tgtB {
		s.local = map[string]string{"conn1": prtB}
	}
	for _, p := range pdus {
		s.script = append(s.script, p)
		if p.op&0x40 == 0 && p.op != opDataOut {
			n++
		}
	}
	s.script = append(s.script, probe(n))
	return s
}

// stdScripts are the requests of the full feature phase, one or two at a time.
func stdScripts() []iscsiScn {
	var out []iscsiScn
	normal := func(name string, pdus ...pdu) { out = append(out, session(name, tgtA, nil, pdus...)) }
	disc := func(name string, pdus ...pdu) { out = append(out, session(name, "", nil, pdus...)) }
	out = append(out, iscsiScn{name: "login", script: []pdu{seqLogin(tgtA)}})
	out = append(out, iscsiScn{name: "login in two stages", script: []pdu{
		{op: 0x43, set: hset{1: 0x81}.be(14, 2, 0).with(sn(sn0)), text: kvText("InitiatorName="+iniA, "TargetName="+tgtA, "SessionType=Normal", "AuthMethod=None")},
		{op: 0x43, set: hset{1: 0x87}.be(14, 2, 0).with(sn(sn0)), text: kvText("HeaderDigest=None")}, probe(0)}})
	for r := 0; r < 4; r++ {
		normal(fmt.Sprintf("NOP-Out, %d bytes over words", r), req(opNop, 0, 0x80, -1, itt(0x01020304)).withRem(r))
	}
	normal("NOP-Out", req(opNop, 0, 0x80, 0))
	normal("NOP-Out without data, immediate", req(opNop|0x40, 0, 0x80, 0))
	normal("NOP-Out with AHS", req(opNop, 0, 0x80, 6, itt(1)).withAHS(2))
	normal("NOP-Out that is no ping", req(opNop, 0, 0x80, 0, itt(0xffffffff)))
	normal("command without data", req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0)))
	normal("command without data, immediate", req(opCmd|0x40, 0, 0x80, 0, edtl(0), cdb0(0)))
	normal("two commands", req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0)), req(opCmd, 1, 0xc0, 0, edtl(36), cdb0(0x12)))
	for r := 0; r < 4; r++ {
		s := session(fmt.Sprintf("read, %d bytes over words", r), tgtA, nil, req(opCmd, 0, 0xc0, 0, edtlBelow(2), rem4(23, r), cdb0(0x28)))
		s.rem = (r + 1) % 4
		out = append(out, s)
	}
	normal("read of nothing", req(opCmd, 0, 0xc0, 0, edtl(0), cdb0(0x28)))
	normal("read with AHS", req(opCmd, 0, 0xc0, 0, edtlBelow(1), rem4(23, 2), cdb0(0x28)).withAHS(3))
	normal("write, immediate data", req(opCmd, 0, 0xa0, 512, edtl(512), cdb0(0x2a)))
	normal("write of nothing", req(opCmd, 0, 0xa0, 0, edtl(0), cdb0(0x2a)))
	normal("write, solicited data", req(opCmd, 0, 0xa0, 0, edtl(1024), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 1024, itt(7), hset{}.be(40, 4, 0)))
	normal("write, immediate and solicited data", req(opCmd, 0, 0xa0, 6, edtl(20), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x00, 10, itt(7), hset{}.be(40, 4, 6)), req(opDataOut, 0, 0x80, 4, itt(7), hset{}.be(40, 4, 16)))
	normal("Data-Out of no task", req(opDataOut, 0, 0x80, 8))
	normal("bidirectional command", req(opCmd, 0, 0xe0, 0, edtlBelow(1), rem4(23, 2), cdb0(0x53)))
	normal("task management", req(opTMF, 0, -1, 0, hset{1: 0x82}))
	for _, op := range []byte{opSNACK, opText, opLogin, 0x07, 0x1c, 0x21, 0x3f} {
		normal(fmt.Sprintf("request %02Xh", op), req(op|0x40, 0, 0x80, 0))
	}
	normal("request 10h with data", req(opSNACK|0x40, 0, 0x80, 5).withAHS(1))
	out = append(out, iscsiScn{name: "logout", script: []pdu{seqLogin(tgtA), req(opLogout, 0, 0x80, 0)}})
	out = append(out, iscsiScn{name: "discovery, logout", script: []pdu{seqLogin(""), req(opLogout, 0, 0x80, 0)}})
	out = append(out, iscsiScn{name: "logout, immediate", script: []pdu{seqLogin(tgtA), req(opLogout|0x40, 0, 0x80, 0)}})
	out = append(out, iscsiScn{name: "discovery, logout, immediate", script: []pdu{seqLogin(""), req(opLogout|0x40, 0, 0x80, 0)}})
	out = append(out, iscsiScn{name: "logout after commands", script: []pdu{seqLogin(tgtA), req(opNop, 0, 0x80, 0, itt(1)), req(opCmd, 1, 0x80, 0, edtl(0), cdb0(0)), req(opLogout|0x40, 2, 0x80, 0)}})
	normal("task management, immediate", req(opTMF|0x40, 0, -1, 0, hset{1: 0x81}))
	text := req(opText, 0, 0x80, 0)
	text.text = kvText("SendTargets=All")
	disc("discovery, SendTargets", text)
	text.op |= 0x40
	disc("discovery, SendTargets, immediate", text)
	text.op &^= 0x40
	text.text = kvText("X-other=1")
	disc("discovery, other text", text)
	for _, op := range []byte{opNop, opCmd, opTMF, opDataOut, opSNACK, opLogin, 0x21} {
		fl := 0x80
		disc(fmt.Sprintf("discovery, request %02Xh", op), req(op|0x40, 0, fl, 0))
	}
	return out
}

// stdResults are the outcomes of the SCSI layer.
func stdResults() []scsiResult {
	return []scsiResult{{status: 0}, {status: 2, sense: true}, {status: 0x18}}
}
