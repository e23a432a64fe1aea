CH='''package backingstore

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

var _ = fmt.Sprint

func disk(t *testing.T, name string, size int) string {
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, make([]byte, size), 0600); err != nil {
		t.Fatal(err)
	}
	return p
}
'''
C=dict(pkg="pkg/scsi/backingstore",helper="empty.go.txt")
seed("c01-colon","C01",[("pkg/scsi/lun.go",'strings.SplitN(bs.Path, ":", 2)','strings.Split(bs.Path, ":")')],CH+'''
func TestVerif(t *testing.T) {
	p := disk(t, "a", 4096)
	if err := os.WriteFile(p+":b", make([]byte, 8192), 0600); err != nil {
		t.Fatal(err)
	}
	lu, err := scsi.NewSCSILu(&config.BackendStorage{DeviceID: 1, Path: "file:" + p + ":b", BlockShift: 9})
	if err != nil || lu.Size != 8192 {
		t.Fatal("another file was opened", err)
	}
}
''',needs="a storage whose file name contains a colon, beside a file with the name up to it",breaks="the unit serves another file",**C)
seed("c01-del","C01",[("pkg/scsi/scsilumap.go","	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)\n","	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)\n	for lun, lu := range globalSCSILUMap.TargetsLUNMap[m.TargetName] {\n		if lu.UUID == m.DeviceID {\n			delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], lun)\n		}\n	}\n")],CH+'''
func TestVerif(t *testing.T) {
	c := &config.Config{
		Storages:     []config.BackendStorage{{DeviceID: 5, Path: "file:" + disk(t, "a", 4096)}},
		ISCSITargets: map[string]config.ISCSITarget{"t": {LUNs: map[string]uint64{"0": 5, "1": 5}}},
	}
	if err := scsi.InitSCSILUMap(c); err != nil {
		t.Fatal(err)
	}
	scsi.DelLUNMapping(scsi.LUNMapping{TargetName: "t", LUN: 1, DeviceID: 5})
	if m := scsi.GetTargetLUNMap("t"); len(m) != 1 || m[0] == nil {
		t.Fatal("LUN 0 is gone", m)
	}
}
''',needs="a device behind two LUNs of a target, one of which is removed",breaks="the other LUN is removed too",**C)
seed("c01-shift","C01",[("pkg/scsi/sbc.go","	if lu.BlockShift == 0 {\n","	if lu.BlockShift == 0 || lu.Size%(1<<lu.BlockShift) != 0 {\n")],CH+'''
func TestVerif(t *testing.T) {
	lu, err := scsi.NewSCSILu(&config.BackendStorage{DeviceID: 1, Path: "file:" + disk(t, "a", 4096+512), BlockShift: 12})
	if err != nil || lu.BlockShift != 12 {
		t.Fatal("block size", err)
	}
}
''',needs="a backing file whose size is not a multiple of the configured block size",breaks="the unit has another block size than configured, so every address means other bytes",**C)
