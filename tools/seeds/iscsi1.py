IB = "pkg/port/iscsit/"
IH = '''package iscsit

import (
	"bytes"
	"testing"
)

var _ = bytes.Equal

'''
def iseed(id, prop, edits, demo, needs, breaks):
    seed(id, prop, [(IB + p, a, b) for p, a, b in edits], IH + demo, pkg="pkg/port/iscsit", helper="iscsi_helper.go.txt", needs=needs, breaks=breaks)

iseed("i01-bidi", "I01", [("iscsid.go", """			conn.buildRespPackage(OpSCSIResp, task)
			conn.rxTask = nil
			break
		}
		if req.Write {""", """			conn.buildRespPackage(OpSCSIResp, task)
			conn.rxTask = nil
		}
		if req.Write {""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xe1, 0, 512, write10(3, 1), bytes.Repeat([]byte{0xee}, 512))
	m := w.recv()
	if m == nil || m.op() != 0x21 || m.be(16) != i || m.h[3] != 2 {
		t.Fatal("no CHECK CONDITION", m)
	}
	if tg.st[0].writes != 0 {
		t.Fatal("a bidirectional command was executed")
	}
}
''', "a command with both the read and the write flag", "a bidirectional command is refused and executed nevertheless")

iseed("i01-tmf-tag", "I01", [("iscsid.go", """		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
		conn.rxTask = task
""", """		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
		if conn.rxTask == nil {
			conn.rxTask = task
		}
""")  , ("iscsid.go", """		return task.conn.buildRespPackage(OpSCSITaskResp, task)
""", """		err := task.conn.buildRespPackage(OpSCSITaskResp, task)
		task.conn.resp.TaskTag = task.conn.rxTask.tag
		return err
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xa1, 0, 512, write10(3, 1), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T")
	}
	h := w.hdr(0x42, 0x81)
	h[23] = 0x77
	w.send(h, nil)
	if m = w.recv(); m == nil || m.op() != 0x22 || m.be(16) == i || m.be(16) != w.itt {
		t.Fatal("task management response for another request", m)
	}
}
''', "a task management request while a write waits for its data", "the response carries the tag of the pending write")

iseed("i02-ahs", "I02", [("cmd.go", "m.AHSLen = int(data[4]) * 4", "m.AHSLen = int(data[4])")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	// a NOP-Out with two words of additional headers
	h := w.hdr(0x00, 0x80)
	h[4] = 2
	b := append(append([]byte{}, h...), 0, 5, 1, 0, 1, 2, 3, 4)
	w.c.Write(b)
	if m := w.recv(); m == nil || m.op() != 0x20 {
		t.Fatal("no answer", m)
	}
	w.send(w.hdr(0x00, 0x80), nil)
	if m := w.recv(); m == nil || m.op() != 0x20 || m.be(16) != w.itt {
		t.Fatal("the stream is lost", m)
	}
}
''', "a PDU with additional header segments", "a quarter of the additional headers is skipped, the rest is taken for the next PDU")

iseed("i02-text-pad", "I02", [("cmd.go", """	for i := 0; i < 3*4; i++ {
		buf.WriteByte(0x00)
	}
	rd := m.RawData
	for len(rd)%4 != 0 {
		rd = append(rd, 0)
	}
	buf.Write(rd)
	return buf.Bytes()
}

func (m *ISCSICommand) noopInBytes() []byte {""", """	for i := 0; i < 3*4; i++ {
		buf.WriteByte(0x00)
	}
	buf.Write(m.RawData)
	buf.Write(make([]byte, 4-len(m.RawData)%4))
	return buf.Bytes()
}

func (m *ISCSICommand) noopInBytes() []byte {""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.discovery()
	for i := 0; i < 3; i++ {
		// an empty text response has a length that is a multiple of four
		w.send(w.hdr(0x04, 0x80), kv("X=1"))
		if m := w.recv(); m == nil || m.op() != 0x24 || m.be(16) != w.itt {
			t.Fatal("the stream is lost", m)
		}
	}
}
''', "a text response whose length is a multiple of four", "four bytes too many are sent, the initiator loses the stream")

iseed("i03-datasn", "I03", [("iscsid.go", """				resp.DataSN++
				conn.txIOState""", """				if resp.DataSN++; resp.FinalInSeq {
					resp.DataSN = 0
				}
				conn.txIOState""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login("MaxRecvDataSegmentLength=512", "MaxBurstLength=1024")
	w.cmd(0xc1, 0, 8*512, read10(0, 8), nil)
	for i := uint32(0); i < 8; i++ {
		m := w.recv()
		if m == nil || m.op() != 0x25 || m.be(36) != i {
			t.Fatal("Data-In", i, m)
		}
	}
}
''', "a read longer than MaxBurstLength", "DataSN starts again at 0 with every sequence")

iseed("i03-round-up", "I03", [("iscsid.go", "	maxCount := conn.maxSeqCount\n", "	maxCount := (conn.maxBurstLength + segmentLen - 1) / segmentLen\n"),
   ("iscsid.go", """	resp := conn.resp
	segmentLen := conn.maxRecvDataSegmentLength
""", """	resp := conn.resp
	segmentLen := conn.maxRecvDataSegmentLength
	if segmentLen == 0 {
		segmentLen = 8192
	}
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login("MaxRecvDataSegmentLength=700", "MaxBurstLength=1600")
	w.cmd(0xc1, 0, 4*512, read10(0, 4), nil)
	seq := 0
	for {
		m := w.recv()
		if m == nil {
			t.Fatal("no Data-In")
		}
		seq += len(m.data)
		if seq > 1600 {
			t.Fatal("a sequence of", seq)
		}
		if m.h[1]&0x80 != 0 {
			seq = 0
		}
		if m.h[1]&1 != 0 {
			break
		}
	}
}
''', "a burst length that is no multiple of the declared segment length", "a sequence is longer than MaxBurstLength")

iseed("i04-overflow", "I04", [("cmd.go", """			flag |= 0x04
		} else {
			flag |= 0x02
		}
	}
	buf.WriteByte(flag)""", """			flag |= 0x06
		} else {
			flag |= 0x02
		}
	}
	buf.WriteByte(flag)""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xc1, 0, 0, []byte{0x12, 0, 0, 0, 36, 0}, nil)
	_, m := w.read(i)
	if m == nil || m.op() != 0x21 || m.h[1]&6 != 4 || m.be(44) != 36 {
		t.Fatal("overflow", m)
	}
}
''', "a command that has data for an initiator that expects none", "overflow and underflow are both reported")

iseed("i04-sense-as-data", "I04", [("iscsid.go", "if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {", "if scmd.Direction == api.SCSIDataRead && (scmd.SenseBuffer == nil || req.ExpectedDataLen > 1<<24) && req.ExpectedDataLen != 0 {")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xc1, 0, 32769*512, read10(1000, 32769), nil)
	d, m := w.read(i)
	if m == nil || m.op() != 0x21 || m.h[3] != 2 || len(d) != 0 {
		t.Fatal("sense", len(d), m)
	}
}
''', "a failing read of more than 16 MiB", "sense data is sent as the data of the read")

iseed("i05-bhs-shared", "I05", [("iscsid.go", "		buf     []byte = make([]byte, BHS_SIZE)\n", "		buf     []byte = conn.header()\n"),
  ("conn.go", "type iscsiConnection struct {\n", """// header gives the buffer for the next header, two are used in turn.
func (c *iscsiConnection) header() []byte {
	c.bhsNext ^= 1
	if c.bhs[c.bhsNext] == nil {
		c.bhs[c.bhsNext] = make([]byte, BHS_SIZE)
	}
	return c.bhs[c.bhsNext]
}

type iscsiConnection struct {
	bhs     [2][]byte
	bhsNext int

""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xa1, 0, 1024, write10(3, 2), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T", m)
	}
	w.dataOut(i, m.be(20), 0, 0, false, bytes.Repeat([]byte{1}, 512))
	w.dataOut(i, m.be(20), 0, 512, true, bytes.Repeat([]byte{2}, 512))
	_, m = w.read(i)
	if m == nil || m.op() != 0x21 || m.h[3] != 0 || tg.st[0].data[3*512] != 1 || tg.st[0].data[4*512] != 2 {
		t.Fatal("write", m)
	}
}
''', "a write whose data arrives in two Data-Out PDUs", "the CDB of the waiting command is overwritten by a later header")

iseed("i06-stale-task", "I06", [("iscsid.go", """			conn.session.PendingTasksMutex.Lock()
			conn.session.PendingTasks.RemoveByTag(conn.req.TaskTag)
			conn.session.PendingTasksMutex.Unlock()
		}
	case OpNoopOut:""", """			if task.r2tSN > 1 {
				conn.session.PendingTasksMutex.Lock()
				conn.session.PendingTasks.RemoveByTag(conn.req.TaskTag)
				conn.session.PendingTasksMutex.Unlock()
			}
		}
	case OpNoopOut:""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	for k := 0; k < 2; k++ {
		w.itt = 0x500
		i := w.cmd(0xa1, 0, 512, write10(3+k, 1), nil)
		m := w.recv()
		if m == nil || m.op() != 0x31 {
			t.Fatal("no R2T", m)
		}
		w.dataOut(i, m.be(20), 0, 0, true, bytes.Repeat([]byte{byte(0x61 + k)}, 512))
		if _, m = w.read(i); m == nil || m.op() != 0x21 || m.h[3] != 0 {
			t.Fatal("write", m)
		}
	}
	if tg.st[0].data[3*512] != 0x61 || tg.st[0].data[4*512] != 0x62 {
		t.Fatal("the data of the second write went elsewhere")
	}
}
''', "a second write with the task tag of one that has ended", "the data of the second write is taken for the first one")

iseed("i06-burst", "I06", [("conn.go", "		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) {\n", "		if val := conn.loginParam.sessionParam[ISCSI_PARAM_FIRST_BURST].Value; task.r2tCount > int(val) {\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login("MaxBurstLength=1024")
	w.cmd(0xa1, 0, 4096, write10(3, 8), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 || m.be(44) == 0 || m.be(44) > 1024 {
		t.Fatal("R2T", m)
	}
}
''', "a negotiated burst length below the default first burst length", "an R2T asks for more than MaxBurstLength")

iseed("i06-early", "I06", [("iscsid.go", "		} else if task.r2tCount > 0 {\n", "		} else if task.r2tCount >= DataPadding {\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xa1, 0, 512, write10(3, 1), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T", m)
	}
	w.dataOut(i, m.be(20), 0, 0, true, bytes.Repeat([]byte{1}, 509))
	if m = w.recv(); m == nil || m.op() != 0x31 || m.be(40) != 509 || m.be(44) != 3 || tg.st[0].writes != 0 {
		t.Fatal("the command was executed early", m)
	}
}
''', "data-out that ends up to three bytes before the expected length", "the write is executed with incomplete data")

iseed("i14-abort", "I14", [("iscsid.go", "			stask := sess.PendingTasks.RemoveByTag(cmd.ReferencedTaskTag)\n", "			stask := sess.PendingTasks.GetByTag(cmd.ReferencedTaskTag)\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xa1, 0, 512, write10(3, 1), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T", m)
	}
	h := w.hdr(0x42, 0x81)
	h[20], h[21], h[22], h[23] = byte(i>>24), byte(i>>16), byte(i>>8), byte(i)
	w.send(h, nil)
	r := w.recv()
	if r == nil || r.op() != 0x22 || r.h[2] != 0 {
		t.Fatal("abort", r)
	}
	w.dataOut(i, m.be(20), 0, 0, true, bytes.Repeat([]byte{1}, 512))
	w.send(w.hdr(0x00, 0x80), nil)
	if m = w.recv(); m == nil || m.op() != 0x20 || tg.st[0].writes != 0 {
		t.Fatal("the aborted write was executed", m)
	}
}
''', "ABORT TASK of a write that waits for its data, which then arrives", "the aborted write is executed and answered")

iseed("i14-tmf-clear", "I14", [("iscsid.go", """			fallthrough
		case ISCSI_TM_FUNC_TARGET_WARM_RESET, ISCSI_TM_FUNC_TARGET_COLD_RESET, ISCSI_TM_FUNC_TASK_REASSIGN:
			task.result = ISCSI_TMF_RSP_NOT_SUPPORTED
""", """			sess.PendingTasksMutex.Lock()
			sess.PendingTasks = nil
			sess.PendingTasksMutex.Unlock()
			fallthrough
		case ISCSI_TM_FUNC_TARGET_WARM_RESET, ISCSI_TM_FUNC_TARGET_COLD_RESET, ISCSI_TM_FUNC_TASK_REASSIGN:
			task.result = ISCSI_TMF_RSP_NOT_SUPPORTED
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	i := w.cmd(0xa1, 0, 512, write10(3, 1), nil)
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T", m)
	}
	w.send(w.hdr(0x42, 0x84), nil)
	if r := w.recv(); r == nil || r.op() != 0x22 || r.h[2] != 5 {
		t.Fatal("clear task set", r)
	}
	w.dataOut(i, m.be(20), 0, 0, true, bytes.Repeat([]byte{1}, 512))
	if m = w.recv(); m == nil || m.op() != 0x21 || tg.st[0].writes != 1 {
		t.Fatal("the write was lost", m)
	}
}
''', "CLEAR TASK SET while a write waits for its data", "a function answered as not supported drops the pending writes")

iseed("i15-maxcmdsn", "I15", [("conn.go", "		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand\n", "		conn.resp.MaxCmdSN = conn.req.CmdSN + conn.session.MaxQueueCommand + 1\n")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.cmdSN = 1000
	w.login()
	i := w.cmd(0xa1, 0, 1024, write10(3, 2), bytes.Repeat([]byte{1}, 512))
	m := w.recv()
	if m == nil || m.op() != 0x31 {
		t.Fatal("no R2T", m)
	}
	w.dataOut(i, m.be(20), 0, 512, true, bytes.Repeat([]byte{1}, 512))
	_, m = w.read(i)
	if d := m.be(32) - m.be(28); d > 1000 {
		t.Fatal("the window is closed", m.be(28), m.be(32))
	}
}
''', "the response to a write with solicited data", "MaxCmdSN is computed from a PDU without a CmdSN")

iseed("i15-logout", "I15", [("iscsid.go", """		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
	}
	IPMutex.Lock()""", """		conn.resp.ExpCmdSN = cmd.CmdSN + 1
		conn.resp.MaxCmdSN = conn.resp.ExpCmdSN + conn.session.MaxQueueCommand
	}
	IPMutex.Lock()""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login()
	w.send(w.hdr(0x46, 0x80), nil) // immediate
	m := w.recv()
	if m == nil || m.op() != 0x26 || m.be(28) != w.cmdSN {
		t.Fatal("logout", m, w.cmdSN)
	}
}
''', "an immediate logout request", "ExpCmdSN counts a command that was immediate")
