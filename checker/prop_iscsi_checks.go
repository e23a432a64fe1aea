package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func debugScripts(c *Ctx) {
	e := newISCSI(c, stdPortals())
	l := append(append(stdScripts(), readScripts()...), writeScripts()...)
	l = append(append(l, seqScripts()...), longScripts()...)
	for _, s := range negScripts() {
		l = append(l, s.iscsiScn)
	}
	for _, s := range sessionsScripts() {
		l = append(l, s.iscsiScn)
	}
	for _, s := range l {
		if w := os.Getenv("SCRIPT"); w != "" && !strings.Contains(s.name, w) {
			continue
		}
		if s.results == nil {
			s.results = stdResults()
		}
		t0 := e.m.Steps
		t := time.Now()
		n := 0
		c.iscsi(e, s, func(p *iPath) {
			n++
			c.monitor(p, "*")
			if os.Getenv("V") != "" {
				fmt.Println("-----", p.describe(""))
			}
		})
		fmt.Println(s.name, n, e.m.Steps-t0, time.Since(t), e.m.Incompl)
	}
}

// readScripts move data to the initiator in all ways of cutting it up.
func readScripts() []iscsiScn {
	var out []iscsiScn
	for _, q := range []struct {
		name string
		keys []string
		hi   []uint64
	}{
		{"512/1024", []string{"MaxRecvDataSegmentLength=512", "MaxBurstLength=1024"}, []uint64{0, 2, 3, 4, 6, 8}},
		{"700/1600", []string{"MaxRecvDataSegmentLength=700", "MaxBurstLength=1600"}, []uint64{2, 5, 8, 11}},
		{"2048/1024", []string{"MaxRecvDataSegmentLength=2048", "MaxBurstLength=1024"}, []uint64{4, 8}},
		{"512/700", []string{"MaxRecvDataSegmentLength=512", "MaxBurstLength=700"}, []uint64{5}},
		{"16777215/16777215", []string{"MaxRecvDataSegmentLength=16777215", "MaxBurstLength=16777215"}, []uint64{255}},
	} {
		for i, h := range q.hi {
			for r := 0; r < 4; r++ {
				s := session(fmt.Sprintf("read, lengths %s, %02x00h bytes and more, %d over words", q.name, h, r), tgtA, q.keys,
					req(opCmd, 0, 0xc0, 0, edtlBelow(2), hset{22: h}, rem4(23, r), cdb0(0x28)))
				s.rem = (r + i) % 4
				out = append(out, s)
			}
		}
	}
	for r := 0; r < 4; r++ {
		s := session(fmt.Sprintf("read of a multiple of the length, %d over words", r), tgtA, nil, req(opCmd, 0, 0xc0, 0, edtl(16384), cdb0(0x28)))
		s.rem = r
		out = append(out, s)
		s = session(fmt.Sprintf("read to below 256 bytes, %d over words", r), tgtA, nil, req(opCmd, 0, 0xc0, 0, edtlBelow(1), rem4(23, r), cdb0(0x12)))
		s.rem = r
		out = append(out, s)
	}
	return out
}

// longScripts have expected lengths up to 4 GiB.
func longScripts() []iscsiScn {
	var out []iscsiScn
	for r := 0; r < 4; r++ {
		s := session(fmt.Sprintf("read of any length with little data, %d over words", r), tgtA, nil, req(opCmd, 0, 0xc0, 0, rem4(23, r), cdb0(0x28)))
		s.rem = (r + 2) % 4
		s.results = []scsiResult{{status: 0, max: 4000}, {status: 2, sense: true}, {status: 0x18, max: 4000}}
		out = append(out, s)
		out = append(out, session(fmt.Sprintf("start of a write of any length, %d over words", r), tgtA, []string{"MaxBurstLength=4096"}, req(opCmd, 0, 0xa0, 0, rem4(23, r), cdb0(0x2a), itt(7))))
		out = append(out, session(fmt.Sprintf("start of a write of any length with immediate data, %d over words", r), tgtA, nil, req(opCmd, 0, 0xa0, 512, rem4(23, r), cdb0(0x2a), itt(7)),
			req(opDataOut, 0, 0, 100, itt(7), hset{}.be(40, 4, 512))))
	}
	return out
}

// writeScripts move data to the target.
func writeScripts() []iscsiScn {
	var out []iscsiScn
	add := func(name string, keys []string, pdus ...pdu) { out = append(out, session(name, tgtA, keys, pdus...)) }
	off := func(n uint64) hset { return hset{}.be(40, 4, n) }
	add("write, bursts", []string{"MaxBurstLength=1024"}, req(opCmd, 0, 0xa0, 0, edtl(2500), cdb0(0x2a), itt(7)),
		req(opDataOut, 0, 0x80, 1024, itt(7), off(0)), req(opDataOut, 0, 0, 512, itt(7), off(1024)), req(opDataOut, 0, 0x80, 512, itt(7), off(1536)), req(opDataOut, 0, 0x80, 452, itt(7), off(2048)))
	add("write, immediate data and bursts", []string{"MaxBurstLength=512"}, req(opCmd, 0, 0xa0, 100, edtl(700), cdb0(0x2a), itt(7)).withAHS(1),
		req(opDataOut, 0, 0x80, 512, itt(7), off(100)), req(opDataOut, 0, 0x80, 88, itt(7), off(612)))
	add("write, data-out anywhere", nil, req(opCmd, 0, 0xa0, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 100, itt(7)))
	add("write, data-out in two parts, the second anywhere", nil, req(opCmd, 0, 0xa0, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0, 60, itt(7), off(0)), req(opDataOut, 0, 0x80, 40, itt(7)))
	for r := 0; r < 4; r++ {
		add(fmt.Sprintf("write, data-out of any length, %d over words", r), nil, req(opCmd, 0, 0xa0, 0, edtl(1022), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, -1, itt(7), off(0)).withRem(r))
		add(fmt.Sprintf("write of any length, %d over words", r), nil, req(opCmd, 0, 0xa0, 0, edtlBelow(2), rem4(23, r), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, -1, itt(7), off(0)).withRem(r))
		add(fmt.Sprintf("write, any immediate data, %d over words", r), nil, req(opCmd, 0, 0xa0, -1, edtlBelow(2), rem4(23, (r+1)%4), cdb0(0x2a), itt(7)).withRem(r))
	}
	add("write, empty data-out", nil, req(opCmd, 0, 0xa0, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0, 0, itt(7), off(0)), req(opDataOut, 0, 0x80, 100, itt(7), off(0)))
	add("write, no F in the command", nil, req(opCmd, 0, 0x20, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 100, itt(7), off(0)))
	add("write, F too early", nil, req(opCmd, 0, 0xa0, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 40, itt(7), off(0)), req(opDataOut, 0, 0x80, 60, itt(7), off(40)))
	add("write without R2T or immediate data agreed on", []string{"ImmediateData=No"}, req(opCmd, 0, 0xa0, 0, edtl(100), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 100, itt(7), off(0)))
	add("write, immediate data not agreed on", []string{"ImmediateData=No"}, req(opCmd, 0, 0xa0, 100, edtl(100), cdb0(0x2a), itt(7)))
	add("two writes", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opCmd, 1, 0xa0, 0, edtl(32), cdb0(0x2a), itt(8)),
		req(opDataOut, 0, 0x80, 32, itt(8), off(0)), req(opDataOut, 0, 0x80, 64, itt(7), off(0)))
	add("write among other commands", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opCmd, 1, 0x80, 0, edtl(0), cdb0(0), itt(8)),
		req(opNop, 2, 0x80, 0, itt(9)), req(opDataOut, 0, 0x80, 64, itt(7), off(0)))
	add("data-out after the write", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 64, itt(7), off(0)), req(opDataOut, 0, 0x80, 64, itt(7), off(0)))
	add("two writes with one tag", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 64, itt(7), off(0)),
		req(opCmd, 1, 0xa0, 0, edtl(32), cdb0(0x2a), itt(7)), req(opDataOut, 0, 0x80, 32, itt(7), off(0)))
	return out
}

// manyWrites has writes with many tasks or many sequences. The SCSI layer only
// succeeds.
func manyWrites() []iscsiScn {
	var out []iscsiScn
	add := func(name string, keys []string, pdus ...pdu) {
		s := session(name, tgtA, keys, pdus...)
		s.results = []scsiResult{{status: 0}}
		out = append(out, s)
	}
	off := func(n uint64) hset { return hset{}.be(40, 4, n) }
	anyTag := req(opDataOut, 0, 0x80, 64, off(0))
	add("write, data-out of any task", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), anyTag, req(opDataOut, 0, 0x80, 64, itt(7), off(0)))
	add("two writes, data-out of any task", nil, req(opCmd, 0, 0xa0, 0, edtl(64), cdb0(0x2a), itt(7)), req(opCmd, 1, 0xa0, 0, edtl(64), cdb0(0x2a), itt(0x10007)), anyTag)
	const n = 100
	var cmds, data, back []pdu
	for i := 0; i < n; i++ {
		tag := itt(uint64(0x300 + 0x10001*i))
		cmds = append(cmds, req(opCmd, i, 0xa0, 0, edtl(4), cdb0(0x2a), tag))
		data = append(data, req(opDataOut, 0, 0x80, 4, tag, off(0)))
	}
	for i := range data {
		back = append(back, data[n-1-i])
	}
	add(fmt.Sprintf("%d writes, the data in the order of the commands", n), nil, append(cmds[:n:n], data...)...)
	add(fmt.Sprintf("%d writes, the data in the opposite order", n), nil, append(cmds[:n:n], back...)...)
	seq := []pdu{req(opCmd, 0, 0xa0, 0, edtl(512*n), cdb0(0x2a), itt(7))}
	for i := 0; i < n; i++ {
		seq = append(seq, req(opDataOut, 0, 0x80, 512, itt(7), off(uint64(512*i))))
	}
	add(fmt.Sprintf("write in %d sequences", n), []string{"MaxBurstLength=512"}, seq...)
	one := []pdu{req(opCmd, 0, 0xa0, 0, edtl(8*n), cdb0(0x2a), itt(7))}
	for i := 0; i < n; i++ {
		fl := 0
		if i == n-1 {
			fl = 0x80
		}
		one = append(one, req(opDataOut, 0, fl, 8, itt(7), off(uint64(8*i))))
	}
	add(fmt.Sprintf("write in a sequence of %d PDUs", n), nil, one...)
	anyLun := req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(7))
	for i := 8; i < 16; i++ {
		delete(anyLun.set, i)
	}
	add("solicited write to any LUN", nil, anyLun, req(opDataOut, 0, 0x80, 8, itt(7), off(0)))
	return out
}

// senseScripts have sense data of other lengths.
func senseScripts() []iscsiScn {
	var out []iscsiScn
	for _, n := range []int{8, 20, 96, 252} {
		for _, s := range []iscsiScn{
			session(fmt.Sprintf("command with %d bytes of sense data", n), tgtA, nil, req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0))),
			session(fmt.Sprintf("read with %d bytes of sense data", n), tgtA, nil, req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x28))),
			session(fmt.Sprintf("write with %d bytes of sense data", n), tgtA, nil, req(opCmd, 0, 0xa0, 8, edtl(8), cdb0(0x2a))),
		} {
			s.results = []scsiResult{{status: 2, sense: true, senseLen: n}}
			out = append(out, s)
		}
	}
	return out
}

// ahsScripts have additional headers up to the longest.
func ahsScripts() []iscsiScn {
	var out []iscsiScn
	for _, n := range []int{4, 31, 32, 63, 64, 127, 128, 255} {
		out = append(out, session(fmt.Sprintf("NOP-Out with %d words of AHS", n), tgtA, nil, req(opNop, 0, 0x80, 6, itt(1)).withAHS(n)))
		out = append(out, session(fmt.Sprintf("command with %d words of AHS", n), tgtA, nil, req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0)).withAHS(n)))
	}
	return out
}

// cmdScripts are commands of every kind.
func cmdScripts() []iscsiScn {
	var out []iscsiScn
	add := func(name string, target string, pdus ...pdu) { out = append(out, session(name, target, nil, pdus...)) }
	anyLun := func(p pdu) pdu {
		for i := 8; i < 16; i++ {
			delete(p.set, i)
		}
		return p
	}
	add("command to any LUN", tgtA, anyLun(req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0))))
	add("read from any LUN", tgtB, anyLun(req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x28))))
	add("write to any LUN", tgtB, anyLun(req(opCmd, 0, 0xa0, 8, edtl(8), cdb0(0x2a))))
	add("solicited write to any LUN", tgtB, anyLun(req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(7))), req(opDataOut, 0, 0x80, 8, itt(7), hset{}.be(40, 4, 0)))
	add("command to the other target", tgtB, req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0)))
	for _, fl := range []int{0x80, 0x81, 0xc0, 0xa0, 0xe0} {
		add(fmt.Sprintf("any CDB, flags %02Xh, nothing to transfer", fl), tgtA, req(opCmd, 0, fl, 0, edtl(0)))
		add(fmt.Sprintf("any CDB, flags %02Xh, 8 bytes", fl), tgtA, req(opCmd, 0, fl, 8, edtl(8)))
	}
	for _, op := range []byte{0x08, 0x28, 0xa8, 0x88, 0x12, 0x25} {
		add(fmt.Sprintf("operation code %02Xh with R", op), tgtA, req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(op)))
	}
	for _, op := range []byte{0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e, 0x42, 0x15} {
		add(fmt.Sprintf("operation code %02Xh with W", op), tgtA, req(opCmd, 0, 0xa0, 8, edtl(8), cdb0(op)))
	}
	return out
}

// seqScripts are longer histories.
func seqScripts() []iscsiScn {
	var out []iscsiScn
	add := func(name string, pdus ...pdu) { out = append(out, session(name, tgtA, nil, pdus...)) }
	off := func(n uint64) hset { return hset{}.be(40, 4, n) }
	add("mixed requests", req(opNop, 0, 0x80, 4, itt(1)), req(opCmd, 1, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)),
		req(0x07|0x40, 2, 0x80, 0), req(opCmd, 2, 0xc0, 0, edtl(8), cdb0(0x28), itt(3)), req(opTMF, 3, -1, 0, hset{1: 0x81}, itt(4)), req(opNop|0x40, 4, 0x80, 0, itt(5)))
	add("abort of a write", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x81}, itt(4), edtl(2)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	add("abort of one of two writes", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opCmd, 1, 0xa0, 0, edtl(12), cdb0(0x2a), itt(3)), req(opTMF, 2, -1, 0, hset{1: 0x81}, itt(4), edtl(2)),
		req(opDataOut, 0, 0x80, 8, itt(2), off(0)), req(opDataOut, 0, 0x80, 12, itt(3), off(0)))
	add("abort of the other of two writes", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opCmd, 1, 0xa0, 0, edtl(12), cdb0(0x2a), itt(3)), req(opTMF, 2, -1, 0, hset{1: 0x81}, itt(4), edtl(3)),
		req(opDataOut, 0, 0x80, 8, itt(2), off(0)), req(opDataOut, 0, 0x80, 12, itt(3), off(0)))
	add("abort of any task", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x81}, itt(4)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	add("abort of a task that has ended", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)), req(opTMF, 1, -1, 0, hset{1: 0x81}, itt(4), edtl(2)))
	for _, f := range []uint64{2, 5} {
		name := map[uint64]string{2: "ABORT TASK SET", 5: "LOGICAL UNIT RESET"}[f]
		add(name+" of the unit", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x80 | f}.with(lun(lun5)), itt(4)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
		add(name+" of another unit", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x80 | f}.with(lun(6<<48)), itt(4)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	}
	for _, f := range []uint64{2, 5} {
		for _, hi := range []uint64{0, 0x41} {
			u := lun(hi<<56 | 5<<48)
			v := lun(hi << 56)
			delete(v, 9)
			add(fmt.Sprintf("task management function %d for any unit, %02Xh", f, hi), req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), u, itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x80 | f}.with(v), itt(4)), req(opDataOut, 0, 0x80, 8, u, itt(2), off(0)))
		}
		add(fmt.Sprintf("task management function %d for a unit of the same low byte", f), req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x80 | f}.with(lun(0x4105<<48)), itt(4)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	}
	for _, f := range []uint64{0, 3, 4, 6, 7, 8, 9, 0x7f} {
		add(fmt.Sprintf("task management function %d", f), req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opTMF, 1, -1, 0, hset{1: 0x80 | f}, itt(4)), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	}
	add("any task management function", req(opTMF, 0, -1, 0, itt(4)))
	add("logout in the middle", req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opLogout, 1, 0x80, 0), req(opDataOut, 0, 0x80, 8, itt(2), off(0)))
	return out
}

// errScripts let the SCSI layer fail.
func errScripts() []iscsiScn {
	var out []iscsiScn
	for _, s := range []iscsiScn{
		session("SCSI layer fails on a command", tgtA, nil, req(opCmd, 0, 0x80, 0, edtl(0), cdb0(0))),
		session("SCSI layer fails on a read", tgtA, nil, req(opCmd, 0, 0xc0, 0, edtl(8), cdb0(0x28))),
		session("SCSI layer fails on a write", tgtA, nil, req(opCmd, 0, 0xa0, 8, edtl(8), cdb0(0x2a))),
		session("SCSI layer fails on a solicited write", tgtA, nil, req(opCmd, 0, 0xa0, 0, edtl(8), cdb0(0x2a), itt(2)), req(opDataOut, 0, 0x80, 8, itt(2), hset{}.be(40, 4, 0))),
	} {
		s.results = []scsiResult{{err: true}}
		out = append(out, s)
	}
	return out
}

// iscsiCheck registers a check that plays scripts under the monitor.
func iscsiCheck(id, rule string, floor int, rules []string, scripts func() []iscsiScn) {
	register(&Check{ID: id, Rule: rule + " " + iscsiMethod, Floor: floor, Run: func(c *Ctx) {
		e := newISCSI(c, stdPortals())
		for _, s := range scripts() {
			if s.results == nil {
				s.results = stdResults()
			}
			e.local = s.local
			c.iscsi(e, s, func(p *iPath) {
				m := c.monitor(p, rules...)
				p.ob("login", "login", m.phase != "login", "a login as a target's portal allows it does not succeed")
			})
		}
	}})
}

const iscsiMethod = "The connection handler is interpreted abstractly, from the accepted connection on, over scripts of PDUs whose header and data bytes are arbitrary where the script does not fix them; on every path the bytes written to the connection and the commands handed to the SCSI layer are compared with what RFC 7143 asks for. The SCSI layer is replaced by its contract (status, sense data, data length arbitrary)."

func scripts(fs ...func() []iscsiScn) func() []iscsiScn {
	return func() []iscsiScn {
		var out []iscsiScn
		seen := map[string]bool{}
		for _, f := range fs {
			for _, s := range f() {
				if !seen[s.name] {
					seen[s.name] = true
					out = append(out, s)
				}
			}
		}
		return out
	}
}

func init() {
	iscsiCheck("I01", "Every request is answered exactly once, by a PDU of the right type with its initiator task tag, and no connection is closed for a well-formed request.", 300,
		[]string{"answer", "tag", "close", "reject", "execute"}, scripts(stdScripts, writeScripts, seqScripts, cmdScripts, errScripts, longScripts))
	iscsiCheck("I02", "Every PDU sent has a known opcode, no additional header, a data segment of exactly the declared length padded with zeros to a multiple of four, and the input stream is consumed PDU by PDU.", 300,
		[]string{"opcode", "padding", "ttt", "final", "no-data"}, scripts(stdScripts, writeScripts, seqScripts, ahsScripts))
	iscsiCheck("I03", "The Data-In PDUs of a read carry its data in order, without gap or overlap, within the lengths the initiator declared.", 300,
		[]string{"data-in"}, scripts(stdScripts, readScripts))
	iscsiCheck("I04", "The status, the sense data and the residual count sent are those of the command.", 300,
		[]string{"status", "sense", "residual"}, scripts(stdScripts, writeScripts, cmdScripts, readShort, longScripts, senseScripts))
	iscsiCheck("I05", "The SCSI layer gets the CDB, logical unit number, tag, direction, target and buffer the request asks for.", 200,
		[]string{"decode"}, scripts(cmdScripts, stdScripts, longScripts))
	iscsiCheck("I06", "A write is executed when all of its data has arrived, with that data, and R2Ts ask for what is missing.", 200,
		[]string{"data-out", "r2t", "execute"}, scripts(writeScripts, stdScripts, seqScripts, longScripts, manyWrites))
	iscsiCheck("I14", "Pings, task management functions and logouts have the effect they are answered with.", 100,
		[]string{"ping", "tmf", "logout", "execute"}, scripts(pingScripts, seqScripts, stdScripts))
	iscsiCheck("I15", "StatSN, ExpCmdSN and MaxCmdSN of every PDU sent count as RFC 7143 defines.", 300,
		[]string{"statsn", "expcmdsn", "maxcmdsn"}, scripts(stdScripts, seqScripts, writeScripts, numberScripts))
}

func readShort() []iscsiScn {
	var out []iscsiScn
	for _, s := range readScripts() {
		if strings.HasPrefix(s.name, "read to below") || strings.HasPrefix(s.name, "read of a multiple") {
			out = append(out, s)
		}
	}
	return out
}

// pingScripts are pings beyond what the initiator can receive.
func pingScripts() []iscsiScn {
	var out []iscsiScn
	for r := 0; r < 4; r++ {
		out = append(out, session(fmt.Sprintf("ping, MaxRecvDataSegmentLength 512, %d over words", r), tgtA, []string{"MaxRecvDataSegmentLength=512"}, req(opNop, 0, 0x80, -1, itt(0x01020304)).withRem(r).withAHS(r)))
	}
	return out
}

// numberScripts vary what the numbers must not depend on.
func numberScripts() []iscsiScn {
	var out []iscsiScn
	for _, k := range []string{"MaxRecvDataSegmentLength=512", "MaxRecvDataSegmentLength=16777215", "MaxConnections=8", "MaxOutstandingR2T=8", "MaxBurstLength=512"} {
		out = append(out, session("numbers with "+k, tgtA, []string{k}, req(opNop, 0, 0x80, 0, itt(1)), req(opCmd, 1, 0xc0, 0, edtl(1500), cdb0(0x28), itt(3)), req(opNop|0x40, 2, 0x80, 0, itt(5))))
	}
	return out
}
