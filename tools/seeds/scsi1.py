H='package scsi\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\nvar _ = bytes.Equal\n\nfunc TestVerif(t *testing.T) {\n'
T='}\n'
seed("s01-read12-count","S01",[("pkg/scsi/scsi.go","		cnt = binary.BigEndian.Uint32(scb[6:])","		cnt = uint32(binary.BigEndian.Uint16(scb[8:]))")],H+'''
	b := newBench(t, 70000)
	n := 66000 * 512
	c := b.do([]byte{0xa8, 0, 0, 0, 0, 3, 0, 1, 0x01, 0xd0, 0, 0}, nil, n)
	if c.Result != 0 {
		t.Fatal(c.Result)
	}
	if !bytes.Equal(c.InSDBBuffer.Buffer, b.st.data[3*512:3*512+n]) {
		t.Fatal("READ(12) of 66000 blocks returned other data")
	}
'''+T,needs="a 12-byte CDB with a transfer length of 65536 blocks or more",breaks="READ(12) drops the upper half of the transfer length and returns zeros or stale data for the rest")
seed("s02-offset-4g","S02",[("pkg/scsi/backingstore.go","		err = bs.Write(wbuf, int64(offset))\n","		err = bs.Write(wbuf, int64(uint32(offset)))\n")],H+'''
	b := newBench(t, 5<<21)
	d := fill(512, 9)
	c := b.do([]byte{0x2a, 0, 0, 0x80, 0, 2, 0, 0, 1, 0}, d, 0)
	if c.Result != 0 {
		t.Fatal(c.Result)
	}
	o := 0x800002 * 512
	if !bytes.Equal(b.st.data[o:o+512], d) {
		t.Fatal("the block behind 4 GiB was not written")
	}
'''+T,needs="a write behind the first 4 GiB of the unit",breaks="the write lands 4 GiB lower and overwrites other blocks")
seed("s03-sync-beyond","S03",[("pkg/scsi/backingstore.go","			tl = int64(lu.Size - offset)\n","			tl = int64(lu.Size)\n")],H+'''
	b := newBench(t, 16)
	c := b.do([]byte{0x35, 0, 0, 0, 0, 5, 0, 0, 0, 0}, nil, 0)
	if c.Result != 0 {
		t.Fatal(c.Result)
	}
'''+T,needs="SYNCHRONIZE CACHE of length 0 (to the end) that does not start at block 0",breaks="the flush leaves the unit; a store that checks its range fails it")
seed("s04-wv12","S04",[("pkg/scsi/sbc.go",'''			api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16, api.WRITE_SAME, api.WRITE_SAME_16,
''','''			api.WRITE_VERIFY, api.WRITE_VERIFY_16, api.WRITE_SAME, api.WRITE_SAME_16,
''')],H+'''
	b := newBench(t, 16)
	b.lu.Attrs.SWP = true
	c := b.do([]byte{0xae, 0, 0, 0, 0, 3, 0, 0, 0, 1, 0, 0}, fill(512, 1), 0)
	b.status(c, 2, 7, 0x27, 0)
	if b.st.count("write") != 0 {
		t.Fatal("written")
	}
'''+T,needs="WRITE AND VERIFY(12) on a write-protected unit",breaks="a write-protected unit is modified")
seed("s05-fua-dpo","S05",[("pkg/scsi/backingstore.go","(scb[1]&0x8 != 0)) || (pg","(scb[1]&0x18 == 0x8)) || (pg")],H+'''
	b := newBench(t, 16)
	c := b.do([]byte{0x2a, 0x18, 0, 0, 0, 2, 0, 0, 1, 0}, fill(512, 1), 0)
	if c.Result != 0 || b.st.dirty {
		t.Fatal("FUA write acknowledged while dirty", c.Result)
	}
'''+T,needs="a write with FUA and DPO both set, and a crash after the status",breaks="a FUA write is acknowledged before it is flushed")
seed("s06-flush-error","S06",[("pkg/scsi/backingstore.go",'''			if err = bs.DataSync(int64(offset), tl); err != nil {
				key = MEDIUM_ERROR
				asc = ASC_WRITE_ERROR
''','''			if err = bs.DataSync(int64(offset), tl); err != nil && (scb[1]&0x8 != 0) {
				key = MEDIUM_ERROR
				asc = ASC_WRITE_ERROR
''')],H+'''
	b := newBench(t, 16)
	for _, p := range b.lu.ModePages {
		if p.PageCode == 8 && p.SubPageCode == 0 {
			p.Data[0] &^= 4
		}
	}
	b.st.failSync = true
	c := b.do([]byte{0x2a, 0, 0, 0, 0, 2, 0, 0, 1, 0}, fill(512, 1), 0)
	if c.Result != 2 {
		t.Fatal("failed flush reported as", c.Result)
	}
'''+T,needs="write cache disabled in the mode page, FUA clear, and a flush that fails",breaks="the failed flush is not reported")
seed("s07-desc-offline","S07",[("pkg/scsi/scsi.go","		if cmd.Device.Attrs.SenseFormat {","		if cmd.Device.Attrs.SenseFormat && cmd.Device.Attrs.Online {")],H+'''
	b := newBench(t, 16)
	b.lu.Attrs.SenseFormat = true
	b.lu.Attrs.Online = false
	c := b.do([]byte{0x00}, nil, 0)
	if c.Result != 2 || c.SenseBuffer == nil || c.SenseBuffer.Buffer[0] != 0x72 {
		t.Fatal("sense", c.SenseBuffer)
	}
'''+T,needs="descriptor sense selected and the unit offline",breaks="sense data has the wrong format")
seed("s08-sa-mask","S08",[("pkg/scsi/spc.go","	action := uint8(scb[1] & 0x1F)\n","	action := uint8(scb[1] & 0x0F)\n")],H+'''
	b := newBench(t, 16)
	c := b.do([]byte{0xa3, 0x1c, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, nil, 256)
	b.status(c, 2, 5, 0x24, 0)
'''+T,needs="a service action that differs from a supported one in bit 4 only",breaks="an unimplemented service action is executed")
seed("s12-wv12","S12",[("pkg/scsi/backingstore.go","		if !bytes.Equal(wbuf, rbuf) {","		if !bytes.Equal(wbuf, rbuf) && opcode != api.WRITE_VERIFY_12 {")],H+'''
	b := newBench(t, 16)
	b.st.onRead = func(off, n int64, d []byte) { d[0] ^= 1 }
	c := b.do([]byte{0xae, 0, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0}, fill(512, 77), 0)
	b.status(c, 2, 0xe, 0x1d, 0)
'''+T,needs="WRITE AND VERIFY(12) on a store that reads back something else",breaks="the failed verification is not reported")
seed("s18-verify-ejected","S18",[("pkg/scsi/sbc.go",'''		tl  uint32
		err error
	)
	if dev.Attrs.Removable && !dev.Attrs.Online {''','''		tl  uint32
		err error
	)
	if dev.Attrs.Removable && dev.Attrs.Readonly && !dev.Attrs.Online {''')],H+'''
	b := newBench(t, 16)
	b.lu.Attrs.Removable = true
	b.do([]byte{0x1b, 0, 0, 0, 2}, nil, 0)
	c := b.do([]byte{0x2f, 0, 0, 0, 0, 2, 0, 0, 1, 0}, nil, 0)
	b.status(c, 2, 2, 0x3a, 0)
'''+T,needs="eject, then VERIFY",breaks="VERIFY succeeds without a medium")
