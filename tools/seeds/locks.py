IB = "pkg/port/iscsit/"
IH = '''package iscsit

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

var _, _, _ = bytes.Equal, fmt.Sprint, time.Now
var _ net.Conn
var _ config.Config
var _ scsi.Stats

'''
def iseed(id, prop, edits, demo, needs, breaks):
    seed(id, prop, [(IB + p if "/" not in p else p, a, b) for p, a, b in edits], IH + demo, pkg="pkg/port/iscsit", helper="iscsi_helper.go.txt", needs=needs, breaks=breaks)
SH = '''package scsi

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	uuid "github.com/satori/go.uuid"
)

var _ api.ITNexus
var _ config.Config
var _ uuid.UUID
var _ = fmt.Sprint
var _ = time.Now

func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	wg.Wait()
}

'''
seed("l01-nexus-check", "L01", [("pkg/scsi/target.go", """	var ret bool = true
	target.ITNexusMutex.Lock()
	defer target.ITNexusMutex.Unlock()
	if _, ok := target.ITNexus[itnexus.ID]; !ok {
		target.ITNexus[itnexus.ID] = itnexus
		ret = true
	} else {
		ret = false
	}
	return ret
""", """	if _, ok := target.ITNexus[itnexus.ID]; ok {
		return false
	}
	target.ITNexusMutex.Lock()
	defer target.ITNexusMutex.Unlock()
	target.ITNexus[itnexus.ID] = itnexus
	return true
""")], SH + '''
func TestVerif(t *testing.T) {
	tgt := &api.SCSITarget{ITNexus: map[uuid.UUID]*api.ITNexus{}}
	together(16, func(i int) {
		for k := 0; k < 50000; k++ {
			n := &api.ITNexus{ID: uuid.NewV1()}
			AddITNexus(tgt, n)
			RemoveITNexus(tgt, n)
		}
	})
}
''', needs="two logins to one target at the same time", breaks="AddITNexus looks at the nexus table before it takes the lock: concurrent map read and map write ends the daemon.")
iseed("l01-tsih-twice", "L01", [("iscsid.go", """	s.TSIHPoolMutex.Lock()
	for i = uint16(0); i < ISCSI_MAX_TSIH; i++ {
		exist := s.TSIHPool[i]
		if !exist {
			s.TSIHPool[i] = true
			s.TSIHPoolMutex.Unlock()
			return i
		}
	}
	s.TSIHPoolMutex.Unlock()
	return ISCSI_UNSPEC_TSIH
}
""", """	free := func(i uint16) bool {
		s.TSIHPoolMutex.Lock()
		defer s.TSIHPoolMutex.Unlock()
		return !s.TSIHPool[i]
	}
	for i = uint16(0); i < ISCSI_MAX_TSIH; i++ {
		if free(i) {
			s.TSIHPoolMutex.Lock()
			s.TSIHPool[i] = true
			s.TSIHPoolMutex.Unlock()
			return i
		}
	}
	return ISCSI_UNSPEC_TSIH
}
""")], '''
func TestVerif(t *testing.T) {
	d, _ := NewISCSITargetDriver(scsi.NewSCSITargetService())
	s := d.(*ISCSITargetDriver)
	for r := 0; r < 300; r++ {
		got := make(chan []uint16)
		for i := 0; i < 8; i++ {
			go func() {
				var l []uint16
				for k := 0; k < 20; k++ {
					l = append(l, s.AllocTSIH())
				}
				got <- l
			}()
		}
		seen := map[uint16]bool{}
		for i := 0; i < 8; i++ {
			for _, x := range <-got {
				if seen[x] {
					t.Errorf("TSIH %d given out twice", x)
				}
				seen[x] = true
			}
		}
		for x := range seen {
			s.ReleaseTSIH(x)
		}
		if t.Failed() {
			return
		}
	}
}
''', needs="two logins at the same time", breaks="The TSIH is looked for and marked as used in two critical sections: two sessions can get the same one.")
seed("l01-unmap-shared", "L01", [("pkg/scsi/scsilumap.go", """	globalSCSILUMap.mutex.Lock()
	defer globalSCSILUMap.mutex.Unlock()
	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
""", """	globalSCSILUMap.mutex.RLock()
	lunMap := globalSCSILUMap.TargetsLUNMap[m.TargetName]
	globalSCSILUMap.mutex.RUnlock()
	delete(lunMap, m.LUN)
""")], SH + '''
func TestVerif(t *testing.T) {
	together(8, func(i int) {
		for k := 0; k < 20000; k++ {
			m := LUNMapping{TargetName: "x", LUN: uint64(k % 50), DeviceID: 7}
			switch i % 3 {
			case 0:
				AddLUNMapping(m)
			case 1:
				DelLUNMapping(m)
			case 2:
				GetTargetLUNMap("x")
			}
		}
	})
}
''', needs="a unit is unmapped while another call looks at or changes the mapping", breaks="The LUN map of the target is changed after its lock was released: concurrent map access ends the daemon.")
iseed("l01-stats-map", "L01", [("iscsid.go", """	stats.SCSIIOCount = map[int]int64{}
	for key, value := range s.TargetStats.SCSIIOCount {
		stats.SCSIIOCount[key] = value
	}
	s.mu.RUnlock()
	return stats
""", """	s.mu.RUnlock()
	count := map[int]int64{}
	for key, value := range stats.SCSIIOCount {
		count[key] = value
	}
	stats.SCSIIOCount = count
	return stats
""")], '''
func TestVerif(t *testing.T) {
	EnableStats = true
	d, _ := NewISCSITargetDriver(scsi.NewSCSITargetService())
	s := d.(*ISCSITargetDriver)
	done := make(chan bool)
	for i := 0; i < 6; i++ {
		go func(i int) {
			c := &iscsiConnection{resp: &ISCSICommand{}}
			for k := 0; k < 100000; k++ {
				if i < 3 {
					c.resp.SCSIOpCode = byte(k)
					s.UpdateStats(c)
				} else {
					s.Stats()
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 6; i++ {
		<-done
	}
}
''', needs="statistics are asked for while a command ends", breaks="The table of operation counts is copied after the lock was released: concurrent map iteration and write ends the daemon.")
iseed("l01-session-insert", "L01", [("session.go", """			newSess.Target.SessionsRWMutex.Lock()
			newSess.Target.Sessions[newSess.TSIH] = newSess
			newSess.Target.SessionsRWMutex.Unlock()
		} else {
			log.Infof("Discovery request""", """			newSess.Target.SessionsRWMutex.RLock()
			newSess.Target.Sessions[newSess.TSIH] = newSess
			newSess.Target.SessionsRWMutex.RUnlock()
		} else {
			log.Infof("Discovery request""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	lock := &tg.d.iSCSITargets[tgtName].SessionsRWMutex
	lock.RLock()
	in := make(chan bool)
	w := tg.dial()
	go func() {
		w.loginWith(0x87, 0, "InitiatorName="+iniName, "TargetName="+tgtName, "SessionType=Normal")
		close(in)
	}()
	select {
	case <-in:
		t.Errorf("a session was added while the table was being read")
		lock.RUnlock()
	case <-time.After(time.Second):
		lock.RUnlock()
		<-in
	}
}
''', needs="two logins to one target at the same time, or a login while another one looks for a session", breaks="The session is added to the table of the target under the shared lock: concurrent map access ends the daemon.")
iseed("l02-tsih-used-up", "L02", [("iscsid.go", """			s.TSIHPoolMutex.Unlock()
			return i
		}
	}
	s.TSIHPoolMutex.Unlock()
	return ISCSI_UNSPEC_TSIH
""", """			s.TSIHPoolMutex.Unlock()
			return i
		}
	}
	return ISCSI_UNSPEC_TSIH
""")], '''
func TestVerif(t *testing.T) {
	d, _ := NewISCSITargetDriver(scsi.NewSCSITargetService())
	s := d.(*ISCSITargetDriver)
	for i := 0; i < 65536; i++ {
		s.TSIHPool[uint16(i)] = true
	}
	s.AllocTSIH()
	done := make(chan bool)
	go func() {
		s.ReleaseTSIH(7)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Errorf("no session can end or start any more")
	}
}
''', needs="all session identifying handles are in use", breaks="The lock of the TSIH pool stays held when the pool is used up; no session can end or start afterwards.")
iseed("l02-close-error", "L02", [("iscsid.go", """	s.setClientStatus(false)
	s.mu.Unlock()
	if l != nil {
		s.setState(STATE_SHUTTING_DOWN)
		if err := l.Close(); err != nil {
			return err
		}
""", """	s.setClientStatus(false)
	if l == nil {
		s.mu.Unlock()
		return nil
	}
	s.state = STATE_SHUTTING_DOWN
	if err := l.Close(); err != nil {
		return err
	}
	s.mu.Unlock()
	if l != nil {
""")], '''
func TestVerif(t *testing.T) {
	d, _ := NewISCSITargetDriver(scsi.NewSCSITargetService())
	s := d.(*ISCSITargetDriver)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s.l = l
	s.Close()
	s.Close()
	done := make(chan bool)
	go func() {
		s.Stats()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Errorf("the driver's lock is still held")
	}
}
''', needs="closing the listener fails, as it does the second time", breaks="When closing the listener fails the driver's lock stays held, and every connection hangs.")
iseed("l02-stats-write", "L02", [("iscsid.go", """		if resp.OpCode == OpSCSIResp || resp.OpCode == OpSCSIIn {
			s.UpdateStats(conn)
		}
""", """		if resp.OpCode == OpSCSIResp || resp.OpCode == OpSCSIIn {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.UpdateStats(conn)
		}
"""), ("iscsid.go", """func (s *ISCSITargetDriver) UpdateStats(conn *iscsiConnection) {
	s.mu.Lock()
""", """func (s *ISCSITargetDriver) UpdateStats(conn *iscsiConnection) {
"""), ("iscsid.go", """	s.TargetStats.SCSIIOCount[(int)(conn.resp.SCSIOpCode)] += 1
	s.mu.Unlock()
""", """	s.TargetStats.SCSIIOCount[(int)(conn.resp.SCSIOpCode)] += 1
""")], '''
func TestVerif(t *testing.T) {
	EnableStats = true
	tg := newTarget(t, 65536, 0)
	tg.d.enableStats = true
	tg.d.TargetStats.SCSIIOCount = map[int]int64{}
	w := tg.dial()
	w.login()
	// a long read, whose data is not taken from the connection
	w.cmd(0xc1, 0, 8<<20, read10(0, 16384), nil)
	w.cmd(0xc1, 0, 8<<20, read10(0, 16384), nil)
	time.Sleep(time.Second)
	done := make(chan bool)
	go func() {
		tg.d.Stats()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Errorf("an initiator that does not read blocks the driver")
	}
}
''', needs="statistics are enabled and an initiator stops reading in the middle of a response", breaks="The driver's lock is held while a response is sent, so one slow initiator blocks all the others.")
iseed("l02-dataout-unknown", "L02", [("iscsid.go", """		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		conn.session.PendingTasksMutex.RUnlock()
		if task == nil {
			// data for an aborted task is dropped
			log.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
			conn.rxIOState = IOSTATE_RX_BHS
			s.handler(DATAIN, conn)
			return nil
		}
""", """		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		if task == nil {
			// data for an aborted task is dropped
			log.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
			conn.rxIOState = IOSTATE_RX_BHS
			s.handler(DATAIN, conn)
			return nil
		}
		conn.session.PendingTasksMutex.RUnlock()
""")], '''
func TestVerif(t *testing.T) {
	tg := newTarget(t, 64, 0)
	w := tg.dial()
	w.login("ImmediateData=Yes")
	w.dataOut(0x77777777, 0xffffffff, 0, 0, true, make([]byte, 512))
	d := bytes.Repeat([]byte{7}, 1024)
	itt := w.cmd(0xa1, 0, 1024, write10(0, 2), d[:512])
	_ = itt
	if m := w.recvFor(5 * time.Second); m == nil {
		t.Errorf("a write is never answered")
	}
}
''', needs="Data-Out arrives for a task that was aborted, and then a write", breaks="The lock of the pending tasks stays held after Data-Out for an unknown task; the next write hangs.")
seed("l02-order", "L02", [("pkg/scsi/target.go", """	target.ITNexusMutex.Lock()
	defer target.ITNexusMutex.Unlock()
	delete(target.ITNexus, itnexus.ID)
""", """	target.ITNexusMutex.Lock()
	defer target.ITNexusMutex.Unlock()
	delete(target.ITNexus, itnexus.ID)
	if len(target.ITNexus) == 0 {
		// nobody is connected: take over what was mapped meanwhile
		target.Devices = GetTargetLUNMap(target.Name)
	}
"""), ("pkg/scsi/scsilumap.go", """	defer globalSCSILUMap.mutex.Unlock()
	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
}
""", """	defer globalSCSILUMap.mutex.Unlock()
	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
	for _, t := range NewSCSITargetService().Targets {
		if t.Name == m.TargetName {
			dropUnit(t, m.LUN)
		}
	}
}

// dropUnit takes the unit from a target that nobody is connected to.
func dropUnit(target *api.SCSITarget, lun uint64) {
	target.ITNexusMutex.Lock()
	defer target.ITNexusMutex.Unlock()
	if len(target.ITNexus) == 0 {
		devices := api.LUNMap{}
		for l, d := range target.Devices {
			if l != lun {
				devices[l] = d
			}
		}
		target.Devices = devices
	}
}
""")], SH + '''
func TestVerif(t *testing.T) {
	s := NewSCSITargetService()
	tgt := &api.SCSITarget{Name: "order", ITNexus: map[uuid.UUID]*api.ITNexus{}}
	s.Targets = append(s.Targets, tgt)
	done := make(chan bool)
	go func() {
		together(8, func(i int) {
			for k := 0; k < 20000; k++ {
				if i%2 == 0 {
					DelLUNMapping(LUNMapping{TargetName: "order", LUN: 3})
				} else {
					n := &api.ITNexus{ID: uuid.NewV1()}
					AddITNexus(tgt, n)
					RemoveITNexus(tgt, n)
				}
			}
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Errorf("deadlock")
	}
}
''', needs="a unit is unmapped while the last session of its target ends", breaks="Unmapping takes the nexus lock inside the LUN map lock and the end of a session takes them the other way round: a deadlock.")
