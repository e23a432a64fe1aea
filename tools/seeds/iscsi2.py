IB = "pkg/port/iscsit/"
IH = '''package iscsit

import (
	"bytes"
	"errors"
	"net"
	"testing"
)

var _, _ = bytes.Equal, errors.New
var _ net.Conn

'''
def iseed(id, prop, edits, demo, needs, breaks):
    seed(id, prop, [(IB + p if "/" not in p else p, a, b) for p, a, b in edits], IH + demo, pkg="pkg/port/iscsit", helper="iscsi_helper.go.txt", needs=needs, breaks=breaks)

iseed("i07-immediate-tmf", "I07", [("cmd.go", """	m.Immediate = 0x40&data[0] == 0x40
	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
""", """	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
	switch m.OpCode {
	case OpNoopOut, OpSCSICmd, OpTextReq, OpLoginReq, OpLogoutReq:
		m.Immediate = 0x40&data[0] == 0x40
	}
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	h := w.hdr(0x42, 0x81)
	h[23] = 0x77
	w.send(h, nil)
	m := w.recv()
	if m == nil || m.op() != 0x22 || m.be(28) != w.cmdSN {
		t.Fatal("the immediate request used a CmdSN", m)
	}
	w.cmd(0xc1, 0, 512, read10(3, 1), nil)
	if m = w.recv(); m == nil || m.op() != 0x25 {
		t.Fatal("no answer to the next command")
	}
}
''', "an immediate task management request, followed by a command", "an immediate request takes up a command number, so the next command is dropped as a duplicate")

iseed("i07-tmf-cmdsn", "I07", [("cmd.go", """	case OpSCSITaskReq:
		m.LUN = parseLUN(data[8:16])
		m.CmdSN = uint32(ParseUint(data[24:28]))
		m.ExpStatSN""", """	case OpSCSITaskReq:
		m.LUN = parseLUN(data[8:16])
		m.ExpStatSN""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	h := w.hdr(0x02, 0x81)
	h[23] = 0x77
	w.send(h, nil)
	if m := w.recv(); m == nil || m.op() != 0x22 {
		t.Fatal("no answer to the task management request")
	}
}
''', "a task management request that is not immediate", "task management requests that are not immediate are taken for old ones and dropped")

iseed("i08-prefix", "I08", [("session.go", """			if t.SCSITarget.Name == conn.loginParam.target {
""", """			if len(conn.loginParam.target) > 20 && t.SCSITarget.Name[:20] == conn.loginParam.target[:20] || t.SCSITarget.Name == conn.loginParam.target {
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	m := w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName[:18]+"t-copy-of-it", "SessionType=Normal")
	_ = bytes.Equal
	if m == nil || m.h[36] != 0 {
		m = w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName2, "SessionType=Normal")
	}
	w = tg.dial()
	m = w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName=" + "iqn.2016-09.verif:tt-more", "SessionType=Normal")
	if m != nil && m.h[36] == 0 {
		t.Fatal("login to a target that does not exist")
	}
}
''', "a login with the name of no target that begins like the name of one", "a login with an unknown target name is accepted and gets another target's units")

iseed("i08-portal-host", "I08", [("iscsit.go", """			if strings.EqualFold(portal, tgtPortal) {
""", """			if strings.EqualFold(portal[:strings.LastIndex(portal, ":")], tgtPortal[:strings.LastIndex(tgtPortal, ":")]) {
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	if err := tg.d.AddiSCSIPortal(tgtName2, 2, "127.0.0.1:9"); err != nil {
		t.Fatal(err)
	}
	w := tg.dial()
	m := w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName2, "SessionType=Normal")
	if m != nil && m.h[36] == 0 {
		t.Fatal("login to a target through a portal it does not have")
	}
}
''', "a target whose portal has the address of another target's portal and a different port", "a target is reachable through a portal that is not one of its own")

iseed("i09-bool-other", "I09", [("session.go", """		return 0, true
	}
	return 0, false
}

func boolKeyInConv""", """		return 0, true
	}
	return 0, value != ""
}

func boolKeyInConv""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	m := w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal", "ImmediateData=Maybe")
	if m == nil || m.h[36] != 0 {
		return
	}
	if !bytes.Contains(m.data, []byte("ImmediateData=Reject")) {
		t.Fatalf("an invalid value is negotiated: %q", m.data)
	}
}
''', "a login that offers a value that is neither Yes nor No for a boolean key", "an invalid offer is taken for No instead of being rejected")

iseed("i09-digest-first", "I09", [("session.go", """	for _, tmpV := range valueArray {
		if strings.EqualFold(tmpV, "crc32c") {
""", """	for i, tmpV := range valueArray {
		if i > 0 && crc == 0 {
			break
		}
		if strings.EqualFold(tmpV, "crc32c") {
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	m := w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal", "HeaderDigest=X-own,None")
	if m == nil || m.h[36] != 0 || !bytes.Contains(m.data, []byte("HeaderDigest=None")) {
		t.Fatalf("None is not chosen from the list: %v", m)
	}
}
''', "a digest list that starts with an algorithm the target does not know", "an offer that contains None is rejected")

iseed("i09-ranges", "I09", [("session.go", """ISCSI_PARAM_DEFAULTTIME2WAIT, true, 2, 0, 3600,""", """ISCSI_PARAM_DEFAULTTIME2WAIT, true, 2, 0, 20,""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	m := w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal", "DefaultTime2Wait=60")
	if m == nil || m.h[36] != 0 || !bytes.Contains(m.data, []byte("DefaultTime2Wait=60")) {
		t.Fatalf("a legal offer is not answered with the greater value: %v", m)
	}
}
''', "an initiator that offers a DefaultTime2Wait above 20 s", "a legal offer is rejected instead of being answered with the maximum")

iseed("i12-first-portal", "I12", [("iscsid.go", """							result = append(result, util.KeyValue{
								Key:   "TargetAddress",
								Value: targetPort,
							})
						}
					}
				} else {
""", """							result = append(result, util.KeyValue{
								Key:   "TargetAddress",
								Value: targetPort,
							})
							if len(result) > 2 {
								break
							}
						}
					}
				} else {
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	for _, n := range []string{tgtName, tgtName2} {
		g := uint16(1)
		if n == tgtName2 {
			g = 2
		}
		for _, p := range []string{"127.0.0.5:1", "127.0.0.6:1"} {
			if err := tg.d.AddiSCSIPortal(n, g, p); err != nil {
				t.Fatal(err)
			}
		}
	}
	w := tg.dial()
	w.discovery()
	w.send(w.hdr(0x04, 0x80), kv("SendTargets=All"))
	m := w.recv()
	if m == nil || bytes.Count(m.data, []byte("TargetAddress=")) != 6 {
		t.Fatalf("not all of the portals: %v", m)
	}
}
''', "more than one target and a target with several portals", "discovery names only the first portal of the later targets")

iseed("i12-cluster", "I12", [("iscsid.go", """						targetPort := fmt.Sprintf("%s,%d", s.clusterIP, tpgt.TPGT)
						result = append(result, util.KeyValue{
							Key:   "TargetAddress",
							Value: targetPort,
						})
""", """						targetPort := fmt.Sprintf("%s,%d", s.clusterIP, tpgt.TPGT&0xff)
						result = append(result, util.KeyValue{
							Key:   "TargetAddress",
							Value: targetPort,
						})
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	tg.d.SetClusterIP("10.0.0.7:3260")
	tg.d.iSCSITargets[tgtName].TPGTs[1].TPGT = 0x301
	w := tg.dial()
	w.discovery()
	w.send(w.hdr(0x04, 0x80), kv("SendTargets=All"))
	m := w.recv()
	if m == nil || !bytes.Contains(m.data, []byte("TargetAddress=10.0.0.7:3260,769")) {
		t.Fatalf("wrong portal group: %v", m)
	}
}
''', "a cluster address and a portal group tag above 255", "discovery gives a wrong portal group tag for the cluster address")

iseed("i13-tsih-reuse", "I13", [("iscsid.go", """	s.TSIHPoolMutex.Lock()
	delete(s.TSIHPool, tsih)
	s.TSIHPoolMutex.Unlock()
""", """	s.TSIHPoolMutex.Lock()
	for i := range s.TSIHPool {
		if i >= tsih && i != ISCSI_UNSPEC_TSIH {
			delete(s.TSIHPool, i)
		}
	}
	s.TSIHPoolMutex.Unlock()
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	a := tg.dial()
	a.login()
	in := func(isid byte) *msg {
		b := tg.dial()
		h := b.hdr(0x43, 0x87)
		copy(h[8:], []byte{0x80, 1, 2, 3, 4, isid})
		b.send(h, kv("InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal"))
		return b.recv()
	}
	m := in(0x77)
	if m == nil || m.h[36] != 0 {
		t.Fatal("second session refused")
	}
	second := m.be(12) & 0xffff
	a.send(a.hdr(0x06, 0x80), nil)
	if r := a.recv(); r == nil || r.op() != 0x26 || !a.closed() {
		t.Fatal("logout")
	}
	for i := byte(0); i < 2; i++ {
		m = in(0x88 + i)
		if m == nil || m.h[36] != 0 {
			t.Fatal("session refused")
		}
		if m.be(12)&0xffff == second {
			t.Fatal("the handle of a session that is still there is given out again")
		}
	}
}
''', "a session ends while one with a higher handle goes on, and two more log in", "two sessions at a time have the same handle")

iseed("i13-fd-stays", "I13", [("iscsid.go", """			if conn.state == CONN_STATE_CLOSE {
				log.Warningf("iscsi connection[%d] closed", conn.cid)
				conn.close()
""", """			if conn.state == CONN_STATE_CLOSE {
				log.Warningf("iscsi connection[%d] closed", conn.cid)
				if conn.session != nil {
					conn.close()
				}
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.send(w.hdr(0x40, 0x80), nil)
	for i := 0; i < 3; i++ {
		m := w.recvFor(1e9)
		if m == nil {
			break
		}
	}
	if !w.closed() {
		t.Fatal("the connection is not closed")
	}
}
''', "a connection whose handling ends before its login is through", "the connection is given up and stays open")

iseed("i10-mrdsl-zero", "I10", [("session.go", '''ISCSI_PARAM_MAX_XMIT_DLENGTH, true, 8192, 512, 16777215,''', '''ISCSI_PARAM_MAX_XMIT_DLENGTH, true, 8192, 0, 16777215,''')], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal", "MaxRecvDataSegmentLength=0")
	w = tg.dial()
	w.login()
}
''', "a login that declares MaxRecvDataSegmentLength=0", "the daemon divides by zero")

iseed("i10-lun-wide", "I10", [("cmd.go", '''	case OpSCSIOut:
		m.LUN = parseLUN(data[8:16])
''', '''	case OpSCSIOut:
		m.LUN = parseLUN(data[8 : 16+m.AHSLen])
''')], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	h := w.hdr(5, 0x80)
	h[4] = 0x20
	w.send(h, make([]byte, 128))
	w.recvFor(2e8)
	w = tg.dial()
	w.login()
}
''', "a Data-Out with a long additional header", "the daemon slices a header beyond its end")

iseed("i11-partial-header", "I11", [("conn.go", '''	if err != nil {
		return -1, err
	}
	return length, nil
''', '''	if err == io.ErrUnexpectedEOF {
		// the rest is on its way
		return length, nil
	}
	if err != nil {
		return -1, err
	}
	return length, nil
''')], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	h := w.hdr(1, 0xa1)
	h[20], h[21], h[22], h[23] = 0, 0, 2, 0
	copy(h[32:], write10(3, 1))
	h[6] = 2
	w.c.Write(h)
	w.c.Write(bytes.Repeat([]byte{0xee}, 500))
	w.c.(interface{ CloseWrite() error }).CloseWrite()
	w.recvFor(1e9)
	if tg.st[0].writes != 0 {
		t.Fatal("a write of which a part is missing is carried out")
	}
	w = tg.dial()
	w.login()
	h = w.hdr(1, 0xa1)
	copy(h[32:], write10(3, 1))
	w.c.Write(h[:40])
	w.c.(interface{ CloseWrite() error }).CloseWrite()
	if m := w.recvFor(1e9); m != nil {
		t.Fatal("a request of which a part is missing is answered")
	}
}
''', "a connection that ends in the midst of a header", "a request of which a part is missing is carried out")

iseed("i11-write-error", "I11", [("iscsid.go", '''				log.Errorf("failed to write data to client: %v", err)
				conn.state = CONN_STATE_CLOSE
				return
''', '''				log.Errorf("failed to write data to client: %v", err)
				if l == 0 {
					conn.state = CONN_STATE_CLOSE
					return
				}
				conn.txIOState = IOSTATE_TX_INIT_AHS
''')], '''
type half struct {
	net.Conn
	n int
	w int
}

func (h *half) Write(b []byte) (int, error) {
	h.n++
	if h.n == 2 {
		h.Conn.Write(b[:20])
		return 20, errors.New("broken")
	}
	if h.n > 2 {
		h.w++
	}
	return h.Conn.Write(b)
}

func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	a, b := net.Pipe()
	h := &half{Conn: b}
	conn := &iscsiConnection{conn: tcp{h}, loginParam: &iscsiLoginParam{}}
	conn.init()
	conn.rxIOState = IOSTATE_RX_BHS
	w := &wire{t: t, c: a, cmdSN: 1, itt: 0x100}
	for p := range tg.d.iSCSITargets[tgtName].TPGTs[1].Portals {
		portal = p
	}
	go tg.d.handler(DATAIN, conn)
	w.login()
	w.cmd(0xc1, 0, 20480, read10(0, 40), nil)
	for {
		if _, err := a.Read(make([]byte, 70000)); err != nil {
			break
		}
	}
	if h.w != 0 {
		t.Fatal("something is sent after a write failed")
	}
}

var portal string

type addr struct{ s string }

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return a.s }

type tcp struct{ net.Conn }

func (tcp) LocalAddr() net.Addr  { return addr{portal} }
func (tcp) RemoteAddr() net.Addr { return addr{"127.0.0.1:9"} }
''', "a write to the connection that fails after a part of it went out, in the midst of a long read", "sending goes on in the midst of a PDU after a failed write")

iseed("i05-group", "I05", [("session.go", "		TPGT:            conn.loginParam.tpgt,\n", "		TPGT:            conn.loginParam.tpgt & 0xff,\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	c := &iscsiConnection{loginParam: &iscsiLoginParam{tpgt: 258, target: tgtName, initiator: iniName}}
	for _, x := range tg.d.iSCSITargets {
		x.TPGTs[258] = &iSCSITPGT{258, map[string]struct{}{}}
	}
	s, err := tg.d.NewISCSISession(c)
	if err != nil || s.TPGT != 258 {
		t.Fatal("portal group", err)
	}
}
''', "a target portal group tag above 255", "commands are handed over with another target port")
iseed("i06-many", "I06", [("session.go", "	*tq = append(*tq, item)\n", "	if len(*tq) == 64 {\n		*tq = (*tq)[1:]\n	}\n	*tq = append(*tq, item)\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	var tags []uint32
	for i := 0; i < 70; i++ {
		tags = append(tags, w.cmd(0xa1, 0, 512, write10(1, 1), nil))
		if m := w.recv(); m == nil || m.op() != 0x31 {
			t.Fatal("no R2T", i, m)
		}
	}
	w.dataOut(tags[0], 0, 0, 0, true, make([]byte, 512))
	if m := w.recv(); m == nil || m.op() != 0x21 {
		t.Fatal("the first write is not executed", m)
	}
}
''', "more than 64 writes of one session that wait for data", "the oldest write is forgotten")
iseed("i02-ahs-long", "I02", [("cmd.go", "	m.AHSLen = int(data[4]) * 4\n", "	m.AHSLen = int(data[4]<<2)\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	h := w.hdr(0x00, 0x80)
	h[4] = 64
	copy(h[20:24], "\\xff\\xff\\xff\\xff")
	w.c.Write(append(h, make([]byte, 256)...))
	if m := w.recv(); m == nil || m.op() != 0x20 {
		t.Fatal("no answer", m)
	}
	w.cmd(0x81, 0, 0, make([]byte, 6), nil)
	if m := w.recv(); m == nil || m.op() != 0x21 {
		t.Fatal("the stream is out of step", m)
	}
}
''', "a PDU with 256 bytes or more of additional headers", "the additional headers are taken for the next PDU")
