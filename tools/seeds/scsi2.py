H2=H.replace('"bytes"\n','"bytes"\n\t"encoding/binary"\n').replace('var _ = bytes.Equal','var _ = bytes.Equal\nvar _ = binary.BigEndian')
seed("s09-lun0-list","S09",[("pkg/scsi/spc.go",'''	if _, ok := cmd.Target.Devices[0]; !ok {
		buf.Write(util.MarshalUint64(0))
	}
''','''	if d, ok := cmd.Target.Devices[0]; !ok || !d.Attrs.Online {
		buf.Write(util.MarshalUint64(0))
	}
''')],H2+'''
	b := newBench(t, 16)
	b.lu.Attrs.Online = false
	c := b.do([]byte{0xa0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, nil, 256)
	if n := binary.BigEndian.Uint32(c.InSDBBuffer.Buffer); uint32(c.InSDBBuffer.Resid) != n+8 {
		t.Fatal(n, c.InSDBBuffer.Resid)
	}
'''+T,needs="REPORT LUNS while LUN 0 is offline",breaks="LUN 0 is listed twice and the list is longer than its length field")
seed("s09-unmapped","S09",[("pkg/scsi/scsi.go","		if lun != 0 {\n","		if uint32(lun) != 0 {\n")],H2+'''
	b := newBench(t, 16)
	b.lun = [8]uint8{0, 0, 0, 0, 0, 0, 1, 0}
	c := b.do([]byte{0, 0, 0, 0, 0, 0}, nil, 0)
	b.status(c, 2, 5, 0x24, 0)
'''+T,needs="a LUN whose first four bytes (as the code holds it) are zero",breaks="a command for a LUN that is not mapped is executed on the placeholder unit")
seed("s10-4g","S10",[("pkg/scsi/sbc.go","	if size>>32 != 0 {","	if size>>33 != 0 {")],H2+'''
	b := newBench(t, 16)
	b.lu.Size = (1<<32 + 5) << 9
	c := b.do([]byte{0x25, 0, 0, 0, 0, 0, 0, 0, 0, 0}, nil, 8)
	if n := binary.BigEndian.Uint32(c.InSDBBuffer.Buffer); n != 0xffffffff {
		t.Fatal(n)
	}
'''+T,needs="a unit between 2 and 4 TiB (512 byte blocks)",breaks="READ CAPACITY(10) reports a tiny unit")
seed("s13-qualifier","S13",[("pkg/scsi/spc.go",'''		buf.WriteByte(PQ_DEVICE_NOT_CONNECT | byte(cmd.Device.Attrs.DeviceType))
	}
	//PAGE CODE
	buf.WriteByte(0xB0)''','''		buf.WriteByte(PQ_DEVICE_CONNECTED | byte(cmd.Device.Attrs.DeviceType))
	}
	//PAGE CODE
	buf.WriteByte(0xB0)''')],H2+'''
	b := newBench(t, 16)
	b.lu.Attrs.Online = false
	c := b.do([]byte{0x12, 1, 0xb0, 0, 64, 0}, nil, 64)
	if c.InSDBBuffer.Buffer[0]>>5 == 0 {
		t.Fatal("connected")
	}
'''+T,needs="INQUIRY page B0h of a unit that is offline",breaks="the peripheral qualifier claims a connected unit")
seed("s13-thin","S13",[("pkg/scsi/spc.go",'''	if cmd.Device.Attrs.ThinProvisioning {
		lbpu = 1 << 7
''','''	if cmd.Device.Attrs.ThinProvisioning && cmd.Device.Attrs.Online {
		lbpu = 1 << 7
''')],H2+'''
	b := newBench(t, 16)
	b.lu.Attrs.ThinProvisioning = true
	b.lu.Attrs.Online = false
	c := b.do([]byte{0x12, 1, 0xb2, 0, 64, 0}, nil, 64)
	if c.InSDBBuffer.Buffer[5] != 0x80 {
		t.Fatal("thin provisioning hidden")
	}
'''+T,needs="a thin provisioned unit that is offline",breaks="page B2h hides thin provisioning")
seed("s14-subpage","S14",[("pkg/scsi/spc.go","			if p.PageCode == pcode && p.SubPageCode == subpcode {","			if p.PageCode == pcode && (p.SubPageCode == subpcode || subpcode == 0xff) {")],H2+'''
	b := newBench(t, 16)
	c := b.do([]byte{0x5a, 0, 0x1c, 0xff, 0, 0, 0, 0, 255, 0}, nil, 255)
	b.status(c, 2, 5, 0x24, 0)
'''+T,needs="MODE SENSE for subpage FFh of a page that is not the first one",breaks="a subpage that does not exist is answered with another page")
seed("s14-mode10-dbd","S14",[("pkg/scsi/spc.go","		data[6] = uint8(blkDesctionLen >> 8)\n		data[7] = uint8(blkDesctionLen)\n","		data[6] = uint8(blkDesctionLen >> 8)\n		data[7] = uint8(blkDesctionLen) &^ dbd\n		if pctrl == 2 {\n			data[7] = 8\n		}\n")],H2+'''
	b := newBench(t, 16)
	c := b.do([]byte{0x5a, 8, 0x88, 0, 0, 0, 0, 0, 255, 0}, nil, 255)
	if c.InSDBBuffer.Buffer[7] != 0 {
		t.Fatal("block descriptor length")
	}
'''+T,needs="MODE SENSE(10) of default values with DBD set",breaks="the header announces a block descriptor that is not there")
seed("s15-opcodes","S15",[("pkg/scsi/spc.go","	rctd := int(scb[2] & 0x80)","	rctd := int(scb[2] & 0x80)\n	if rctd != 0 && cmd.InSDBBuffer != nil {\n		scb[6], scb[7] = 0, 1\n	}")],H2+'''
	b := newBench(t, 16)
	c := b.do([]byte{0xa3, 0x0c, 0x80, 0, 0, 0, 0, 0, 0, 16, 0, 0}, nil, 512)
	if c.InSDBBuffer.Resid > 16 {
		t.Fatal(c.InSDBBuffer.Resid)
	}
'''+T,needs="REPORT SUPPORTED OPERATION CODES with timeouts and a short allocation length",breaks="more data than allowed is returned")
seed("s16-shift","S16",[("pkg/scsi/sbc.go","			Offset: lba << cmd.Device.BlockShift,","			Offset: uint64(uint32(lba)) << cmd.Device.BlockShift,")],H2+'''
	b := newBench(t, 16)
	b.lu.Size = 1 << 50
	p := make([]byte, 24)
	p[1], p[3] = 22, 16
	binary.BigEndian.PutUint64(p[8:], 1<<32+7)
	binary.BigEndian.PutUint32(p[16:], 2)
	b.do([]byte{0x42, 0, 0, 0, 0, 0, 0, 0, 24, 0}, p, 0)
	if len(b.st.unmapped) != 1 || b.st.unmapped[0].Offset != (1<<32+7)<<9 {
		t.Fatal(b.st.unmapped)
	}
'''+T,needs="UNMAP behind block 2^32",breaks="other blocks are discarded")
seed("s19-cdb12","S19",[("pkg/scsi/spc.go","	var scsi_command_size = []byte{6, 10, 10, 12, 16, 12, 10, 10}","	var scsi_command_size = []byte{6, 10, 10, 12, 16, 10, 10, 10}")],H2+'''
	b := newBench(t, 16)
	c := b.do([]byte{0xa3, 0x0c, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0}, nil, 1024)
	d := c.InSDBBuffer.Buffer
	n := int(binary.BigEndian.Uint32(d))
	for i := 4; i < 4+n; i += 8 {
		if d[i]>>5 == 5 && d[i+7] != 12 {
			t.Fatal(d[i:i+8])
		}
	}
'''+T,needs="looking at the entries of the 12 byte commands",breaks="wrong CDB lengths")
seed("s17-ws-sector","S17",[("pkg/scsi/sbc.go",'''		if (scb[1]&0x08 != 0) && !dev.Attrs.ThinProvisioning {
			key = ILLEGAL_REQUEST
			asc = ASC_INVALID_FIELD_IN_CDB
			goto sense
		}
''','''		if (scb[1]&0x08 != 0) && !dev.Attrs.ThinProvisioning {
			key = ILLEGAL_REQUEST
			asc = ASC_INVALID_FIELD_IN_CDB
			goto sense
		}
		if scb[1]&0x08 != 0 && opcode == api.WRITE_SAME {
			return api.SAMStatGood
		}
''')],H2+'''
	b := newBench(t, 16)
	b.lu.Attrs.ThinProvisioning = true
	d := fill(512, 5)
	c := b.do([]byte{0x41, 8, 0, 0, 0, 2, 0, 0, 1, 0}, d, 0)
	if c.Result == 0 && !bytes.Equal(b.st.data[1024:1536], d) {
		t.Fatal("GOOD, but nothing was written")
	}
'''+T,needs="WRITE SAME(10) with the UNMAP bit on a thin provisioned unit",breaks="WRITE SAME is acknowledged and nothing is written")
BH='package backingstore\n\nimport (\n\t"bytes"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\n\t"github.com/gostor/gotgt/pkg/api"\n)\n\nvar _ = bytes.Equal\n\nfunc TestVerif(t *testing.T) {\n\tp := filepath.Join(t.TempDir(), "disk")\n\tif err := os.WriteFile(p, bytes.Repeat([]byte{7}, 8192), 0600); err != nil {\n\t\tt.Fatal(err)\n\t}\n\ts, _ := new()\n\tif err := s.Open(&api.SCSILu{}, p); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer s.Close(nil)\n'
seed("b01-read-short","B01",[("pkg/scsi/backingstore/common.go",'''	length, err := bs.file.ReadAt(tmpbuf, offset)
	if err != nil {
''','''	length, err := bs.file.ReadAt(tmpbuf, offset)
	if err == io.EOF && length > 0 {
		return tmpbuf[:length], nil
	}
	if err != nil {
''')],BH+'''
	d, err := s.Read(8000, 1000)
	if err == nil && len(d) != 1000 {
		t.Fatal("short read reported as success", len(d))
	}
'''+T,pkg="pkg/scsi/backingstore",helper="empty.go.txt",needs="a read that crosses the end of the file (it was truncated behind the daemon's back)",breaks="a short read is reported as success")
seed("b01-trunc","B01",[("pkg/scsi/backingstore/common.go","	f, err := os.OpenFile(path, os.O_RDWR, os.ModePerm)\n","	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, os.ModePerm)\n	if err == nil && finfo.Size()%512 != 0 {\n		err = f.Truncate(finfo.Size() &^ 511)\n	}\n")],BH.replace('8192','8200')+'''
	if d, err := os.ReadFile(p); err != nil || len(d) != 8200 {
		t.Fatal("the file was changed by opening it", len(d))
	}
'''+T,pkg="pkg/scsi/backingstore",helper="empty.go.txt",needs="a backing file whose size is not a multiple of 512",breaks="opening it cuts off its tail")
