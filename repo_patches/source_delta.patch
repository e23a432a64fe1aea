From 7a4a73afa4a30143f92a08d8f4130ac2e723144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 01/57] fix: never truncate sense data to a length taken from
 the CDB

BuildSenseData cut vendor specific commands' sense data down to the value of
CDB byte 4, so the initiator received a CHECK CONDITION whose sense data was
missing its additional sense code. The CDB carries no sense length.
---
 pkg/scsi/scsi.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..1a9b55a 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -151,7 +151,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -191,14 +190,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
 	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
-- 
2.43.0


From 2a5de82db7a3dc28b10799df566c8eb0f100e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 02/57] fix: report backing store errors of READ, SYNCHRONIZE
 CACHE, PRE-FETCH and ORWRITE

A break left the switch instead of the command: the error was dropped and the
initiator was told GOOD for a flush or a read that failed, and ORWRITE went on
to write after its read had failed.
---
 pkg/scsi/backingstore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..882c57f 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,7 +73,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		if cmd.OutSDBBuffer != nil {
@@ -92,7 +92,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
@@ -114,7 +114,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -136,6 +136,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
-- 
2.43.0


From ac99ee1acdf6da76a385e521075cbb115c639a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 03/57] fix: limit a write to the blocks its CDB addresses

The whole data-out buffer was written, so an expected data transfer length
larger than the transfer length overwrote the following blocks and could
extend the backing file past the end of the logical unit.
---
 pkg/scsi/backingstore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 882c57f..a01d17c 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -150,6 +150,10 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	}
 write:
 	if doWrite {
+		// never touch blocks beyond the range the CDB addresses
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
 		err = bs.Write(wbuf, int64(offset))
 		if err != nil {
 			log.Error(err)
-- 
2.43.0


From fcc6965a06ad1c4d40de13c1b4be4c0f28d6bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 04/57] fix: give every SCSI command both data buffers

An initiator that sends a command with the wrong data direction made the
handlers dereference a nil buffer and killed the whole target.
---
 pkg/scsi/scsi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 1a9b55a..018e399 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -90,6 +90,13 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	// a command without a data phase in one direction has an empty buffer there
+	if scmd.InSDBBuffer == nil {
+		scmd.InSDBBuffer = &api.SCSIDataBuffer{}
+	}
+	if scmd.OutSDBBuffer == nil {
+		scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
+	}
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
-- 
2.43.0


From b5f21030e769d5fab6d948bb9f7f9e6481f9c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 05/57] fix: PREVENT ALLOW MEDIUM REMOVAL dereferenced a nil
 I_T nexus record

No transport fills in ITNexusLuInfo, so the command panicked the target.
---
 pkg/scsi/spc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..6a7e1b4 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -539,7 +539,9 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From a49b84a03f9cad8872985055d49a46d66d6711a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 06/57] fix: MODE SENSE with a short allocation length, buffer
 or without a changeable mask

Building the header by the allocation length made the later fixed offsets
panic, the device specific parameter was written past a short buffer, and a
page without a changeable mask was returned shorter than its own length.
---
 pkg/scsi/sbc.go |  9 ++++++---
 pkg/scsi/spc.go | 26 +++++++++++++++-----------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..bb42e0c 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -242,10 +242,13 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	pos := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		pos = 2
+	}
+	// the header may be cut short by the allocation length or the buffer
+	if pos < len(cmd.InSDBBuffer.Buffer) && uint32(pos) < cmd.InSDBBuffer.Resid {
+		cmd.InSDBBuffer.Buffer[pos] = deviceSpecific
 	}
 
 	return api.SAMStatGood
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6a7e1b4..dfe57d8 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -545,6 +545,14 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// changeableMask returns the mask of the parameters of a mode page that can be
+// changed. It follows the current values; a page without one has none.
+func changeableMask(pg *api.ModePage) []byte {
+	mask := make([]byte, pg.Size)
+	copy(mask, pg.Data[pg.Size:])
+	return mask
+}
+
 /*
  * SPCModeSense Implement SCSI MODE SENSE(6) and MODE SENSE(10) command
  * The MODE SENSE command requests the device server to return the specified medium,
@@ -567,7 +575,6 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc            = ASC_INVALID_FIELD_IN_CDB
 		data           []byte
 		allocLen       uint32
-		i              uint32
 	)
 
 	if dbd == 0 {
@@ -580,15 +587,11 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 4)
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 8)
 	}
 	if dbd == 0 {
 		data = append(data, cmd.Device.ModeBlockDescriptor...)
@@ -605,7 +608,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 				data = append(data, pg.Size&0xff)
 			}
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(&pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -625,7 +628,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, pg.PageCode)
 			data = append(data, pg.Size)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -635,7 +638,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, (pg.Size>>8)&0xff)
 			data = append(data, pg.Size&0xff)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(pg)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -651,8 +654,9 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[7] = uint8(blkDesctionLen)
 	}
 	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
+		data = data[:allocLen]
 	}
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	copy(cmd.InSDBBuffer.Buffer, data)
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From dd0128668f0d8ef8a352f93612110a23f9089c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 07/57] fix: READ CAPACITY(16) with a data-in buffer shorter
 than the allocation length

Slicing the buffer at fixed offsets panicked; an allocation length below 8 was
ignored.
---
 pkg/scsi/sbc.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index bb42e0c..6583a3b 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -633,18 +633,20 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		allocationLength uint32
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
-	}
+	data := make([]byte, 32)
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	var lbpme int
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	if uint32(len(data)) > allocationLength {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From f090217d506a7e742cfad2555fb2cbd909a2e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 08/57] fix: REPORT SUPPORTED OPERATION CODES panicked on a
 short buffer

It also ignored the allocation length and wrote the length of the command
timeouts descriptor over the length of the list.
---
 pkg/scsi/spc.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index dfe57d8..acf4389 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -719,14 +719,18 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 		// timeout descriptor
 		if rctd != 0 {
 			// length == 0x0a
-			data[1] = 0x0a
-			for n := 0; n < 12; n++ {
+			data = append(data, 0x00, 0x0a)
+			for n := 0; n < 10; n++ {
 				data = append(data, 0x00)
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	if allocLen := util.GetUnalignedUint32(cmd.SCB[6:10]); uint32(len(data)) > allocLen {
+		data = data[:allocLen]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	return nil
 }
 
-- 
2.43.0


From 59523969f3fb10abce0b7110c48fe96d2f9736db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 09/57] fix: REQUEST SENSE returned no data and read the wrong
 allocation length

The allocation length is CDB byte 4, not a 32 bit field; and the empty sense
buffer left on the command made the transport drop the parameter data.
---
 pkg/scsi/spc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index acf4389..88015ec 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1419,7 +1419,7 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		actualLength     uint32
 	)
 
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
+	allocationLength = uint32(cmd.SCB[4])
 	if allocationLength > cmd.InSDBBuffer.Length {
 		allocationLength = cmd.InSDBBuffer.Length
 	}
@@ -1432,8 +1432,8 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	copy(cmd.InSDBBuffer.Buffer, cmd.SenseBuffer.Buffer[:actualLength])
 	cmd.InSDBBuffer.Resid = uint32(actualLength)
 
-	// reset sense buffer in cmnd
-	cmd.SenseBuffer = &api.SenseBuffer{}
+	// the sense data is the parameter data of this command, not its outcome
+	cmd.SenseBuffer = nil
 
 	return api.SAMStatGood
 }
-- 
2.43.0


From 4c16565c2e2abf5e80160f2bef5f862b9677d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 10/57] fix: INQUIRY truncates to the allocation length and
 reports what it returned

Standard data compared the allocation length with the additional length, so a
length of 69 to 73 returned 74 bytes; a truncated VPD page told the transport
the untruncated length and returned the rest of the buffer.
---
 pkg/scsi/spc.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 88015ec..6c8c9b4 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -317,12 +317,6 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -386,14 +380,12 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	}
+	if int(allocationLength) < len(data) {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From d7165b7380ac2911a874429679b01aa53803eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 11/57] fix: INQUIRY page 83h dereferenced a target port that
 does not exist

---
 pkg/scsi/spc.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6c8c9b4..5620617 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -165,14 +165,16 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
-	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
-	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
-	descBuf.WriteByte(0x00)
-	//length
-	descBuf.WriteByte(byte(len(portName)))
-	//RTPGI
-	descBuf.Write(portName)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+		descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
+		descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
+		descBuf.WriteByte(0x00)
+		//length
+		descBuf.WriteByte(byte(len(portName)))
+		//RTPGI
+		descBuf.Write(portName)
+	}
 
 	data = descBuf.Bytes()
 	pageLength = uint16(len(data))
-- 
2.43.0


From 1ece4ee50029834b2e2acd0d4d3f77994a649f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 12/57] fix: REPORT LUNS accounts for its header and its
 allocation length

The list was limited without the 8 byte header and the remaining length could
wrap below zero; the transport was told the allocation length, not the length
of the list.
---
 pkg/scsi/spc.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 5620617..218299d 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -405,7 +405,7 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
+		data             []byte
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
@@ -417,7 +417,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
 	} else {
@@ -426,7 +425,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
@@ -436,24 +434,25 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	//For LUN0
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
 	}
 
 	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	data = buf.Bytes()
+	if uint32(len(data)) > allocationLength {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
-- 
2.43.0


From 5f84cd2ed51a18664744c61e4978f5ade778aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 13/57] fix: PERSISTENT RESERVE OUT read past the end of a
 short parameter list

---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 218299d..ce907a7 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -930,7 +930,7 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 	)
 	length, _ := SCSICDBBufXLength(cmd.SCB)
 	paramLen = uint32(length)
-	if paramLen != 24 {
+	if paramLen != 24 || len(buf) < 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -1331,7 +1331,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 25 || uint64(len(buf)) < uint64(paramListLen) {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
-- 
2.43.0


From 3fd2ffcc1b9910bafc7ff78685750257202f739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 14/57] fix: SERVICE ACTION IN answered GOOD to service actions
 it does not implement

---
 pkg/scsi/sbc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 6583a3b..9c33c43 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -713,7 +713,8 @@ func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
-- 
2.43.0


From a3362f33d0a1a9ab63ded1fc227d8abe0e951d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 15/57] fix: byte lengths of 4 GiB and more wrapped around

The transfer length in bytes was kept in 32 bits, so a READ of 2^23 blocks was
answered GOOD without data, SYNCHRONIZE CACHE flushed and UNMAP discarded the
wrong range. READ and VERIFY now check the received buffer before allocating
what the CDB asks for.
---
 pkg/api/types.go         |  4 ++--
 pkg/scsi/backingstore.go | 19 ++++++++++++-------
 pkg/scsi/sbc.go          |  8 ++++----
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..c3abe3a 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -178,7 +178,7 @@ type SCSICommand struct {
 	// Command ITN ID
 	ITNexusID     uuid.UUID
 	Offset        uint64
-	TL            uint32
+	TL            uint64
 	SCB           []byte
 	SCBLength     int
 	Lun           [8]uint8
@@ -409,7 +409,7 @@ type LUNMap map[uint64]*SCSILu
 
 type UnmapBlockDescriptor struct {
 	Offset uint64
-	TL     uint32
+	TL     uint64
 }
 
 type ReaderWriterAt interface {
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index a01d17c..6d9bbc1 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -109,7 +109,11 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		// TODO
 		break
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf = make([]byte, int(tl))
+		if int64(cmd.InSDBBuffer.Length) < tl {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
@@ -125,11 +129,6 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
 		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
-		}
 		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
@@ -188,7 +187,13 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf = make([]byte, int(tl))
+		if int64(len(wbuf)) < tl {
+			err = fmt.Errorf("verify of %d bytes with only %d bytes of data", tl, len(wbuf))
+			key = MISCOMPARE
+			asc = ASC_MISCOMPARE_DURING_VERIFY_OPERATION
+			goto sense
+		}
+		wbuf = wbuf[:tl]
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 9c33c43..9424938 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -321,7 +321,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
-			TL:     num << cmd.Device.BlockShift,
+			TL:     uint64(num) << cmd.Device.BlockShift,
 		})
 	}
 
@@ -443,7 +443,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	// Handle residuals
 	switch opcode {
@@ -607,7 +607,7 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
 		goto sense
@@ -734,7 +734,7 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	dev := cmd.Device
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	err, key, asc := bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
-- 
2.43.0


From ec38c681bd4b912b29cda83294177d751477cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 16/57] fix: UNMAP checks write protection and the range it
 discards

---
 pkg/scsi/sbc.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 9424938..db6bab3 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -313,12 +313,26 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
+	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
+
+	if cmd.Device.Attrs.Readonly || cmd.Device.Attrs.SWP {
+		BuildSenseData(cmd, DATA_PROTECT, ASC_WRITE_PROTECT)
+		return api.SAMStatCheckCondition
+	}
+
 	const blockDescLen = 16
 
 	var blockDescs []api.UnmapBlockDescriptor
 	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
 		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+		if blocks := cmd.Device.Size >> cmd.Device.BlockShift; lba > blocks || uint64(num) > blocks-lba {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     uint64(num) << cmd.Device.BlockShift,
-- 
2.43.0


From 94d30cf1f0e20ad07217327aec823a912be6e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 17/57] fix: VERIFY and SYNCHRONIZE CACHE check the range they
 address

VERIFY skipped the check with BYTCHK=0; SYNCHRONIZE CACHE never made it and
computed a negative length for a start beyond the end.
---
 pkg/scsi/sbc.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index db6bab3..19d2b3d 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -596,10 +596,6 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
@@ -620,6 +616,11 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
@@ -747,6 +748,11 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
+	if blocks := dev.Size >> dev.BlockShift; lba > blocks || uint64(tl) > blocks-lba {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
 
-- 
2.43.0


From 4c046e4344103468ad4e0274f82f011daee2874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 18/57] fix: a backing store error is a CHECK CONDITION, not
 BUSY

Sense data only accompanies CHECK CONDITION; BUSY makes the initiator retry a
medium error or a miscompare without ever seeing it.
---
 pkg/scsi/sbc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 19d2b3d..31eb779 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -486,7 +486,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
-- 
2.43.0


From 01a45b188cbe035f75bd686802e429a2148208d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 19/57] fix: ORWRITE combines the data with what is on the
 medium

It wrote the received data as it was.
---
 pkg/scsi/backingstore.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 6d9bbc1..d83824f 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -68,16 +68,19 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
 	case api.ORWRITE_16:
-		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		wbuf = cmd.OutSDBBuffer.Buffer
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
+		rbuf, err = bs.Read(int64(offset), int64(len(wbuf)))
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		wbuf = append([]byte{}, wbuf...)
+		for i := 0; i < len(wbuf) && i < len(rbuf); i++ {
+			wbuf[i] |= rbuf[i]
 		}
 		doWrite = true
 		goto write
-- 
2.43.0


From 6971ffbb01046423b194d04d01304f89f0e926e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 20/57] fix: WRITE SAME answered GOOD without writing anything

The block received (or zeros with NDOB) is now written to every addressed
block; LBDATA and PBDATA, which would need per block contents, are rejected.
---
 pkg/scsi/backingstore.go | 23 +++++++++++++++++++++--
 pkg/scsi/sbc.go          |  4 ++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index d83824f..9ad285d 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -60,6 +60,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		length     int
 		doVerify   bool = false
 		doWrite    bool = false
+		writeSame  bool = false
 		rbuf, wbuf []byte
 		tl         int64 = int64(cmd.TL)
 	)
@@ -109,8 +110,22 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
+		if tl == 0 {
+			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift) - int64(offset)
+		}
+		wbuf = make([]byte, 1<<lu.BlockShift)
+		// without NDOB the block to write is in the data-out buffer
+		if opcode == api.WRITE_SAME || scb[1]&0x01 == 0 {
+			if len(cmd.OutSDBBuffer.Buffer) < len(wbuf) {
+				key = ILLEGAL_REQUEST
+				asc = ASC_INVALID_FIELD_IN_CDB
+				goto sense
+			}
+			copy(wbuf, cmd.OutSDBBuffer.Buffer)
+		}
+		doWrite = true
+		writeSame = true
+		goto write
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		if int64(cmd.InSDBBuffer.Length) < tl {
 			key = ILLEGAL_REQUEST
@@ -157,6 +172,10 @@ write:
 			wbuf = wbuf[:tl]
 		}
 		err = bs.Write(wbuf, int64(offset))
+		// WRITE SAME: the block goes to all the other addressed blocks, too
+		for pos := int64(len(wbuf)); writeSame && err == nil && pos < tl; pos += int64(len(wbuf)) {
+			err = bs.Write(wbuf, int64(offset)+pos)
+		}
 		if err != nil {
 			log.Error(err)
 			key = MEDIUM_ERROR
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 31eb779..080b9f9 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -416,8 +416,8 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		// LBDATA and PBDATA can not both be set
-		if (scb[1] & 0x06) == 0x06 {
+		// We support neither LBDATA nor PBDATA
+		if (scb[1] & 0x06) != 0 {
 			key = ILLEGAL_REQUEST
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
-- 
2.43.0


From a47f3a2d6c87179b81065ede4780c62be72f3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 21/57] fix: descriptor format sense data is 8 bytes long

Its declared length is 8 but only 4 bytes were written, so REQUEST SENSE
sliced past the end.
---
 pkg/scsi/scsi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 018e399..f9f31fc 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -176,6 +176,9 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		senseBuffer.WriteByte(key)
 		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
 		senseBuffer.WriteByte(byte(asc) & 0xff)
+		for i := 0; i < 4; i++ {
+			senseBuffer.WriteByte(0x00)
+		}
 		length = 8
 	} else {
 		// fixed format
-- 
2.43.0


From 2fd00926b5411a090ec1641a2181cb7371a18c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 22/57] fix: START STOP UNIT loaded the medium on eject and
 ejected it on load

---
 pkg/scsi/spc.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index ce907a7..1696c0a 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -38,11 +38,6 @@ func SPCIllegalOp(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCLuOffline(lu *api.SCSILu) error {
-	lu.Attrs.Online = true
-	return nil
-}
-
-func SPCLuOnline(lu *api.SCSILu) error {
 	if luPreventRemoval(lu) {
 		return fmt.Errorf("lu prevent removal")
 	}
@@ -51,6 +46,11 @@ func SPCLuOnline(lu *api.SCSILu) error {
 	return nil
 }
 
+func SPCLuOnline(lu *api.SCSILu) error {
+	lu.Attrs.Online = true
+	return nil
+}
+
 func InquiryPage0x00(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	var (
 		buf               = &bytes.Buffer{}
-- 
2.43.0


From 60c61a0dc4ce89f31b803962cca248d0b15c2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 23/57] fix: StringToByte sliced past the end of a string that
 fits but whose padding does not

---
 pkg/util/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 5ef830f..092c142 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -114,7 +114,9 @@ func StringToByte(str string, align int, maxlength int) []byte {
 	d = align - (length % align)
 
 	if (length + d) > maxlength {
-		data = ([]byte(str))[0:maxlength]
+		if length > maxlength {
+			data = data[0:maxlength]
+		}
 		return data
 	} else {
 		data2 = make([]byte, length+d)
-- 
2.43.0


From 1ebd87ee02b35ee8d38d4732e1df113b5fef8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 24/57] fix: UNMAP read descriptors past the end of its
 parameter list

---
 pkg/scsi/sbc.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 080b9f9..a425109 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -323,12 +323,27 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
-	const blockDescLen = 16
+	const (
+		headerLen    = 8
+		blockDescLen = 16
+	)
+
+	// the block descriptors end where the parameter list, or the length it
+	// gives for them, does
+	data := cmd.OutSDBBuffer.Buffer
+	if pll := int(util.GetUnalignedUint16(cmd.SCB[7:9])); len(data) > pll {
+		data = data[:pll]
+	}
+	if len(data) >= headerLen {
+		if end := headerLen + int(util.GetUnalignedUint16(data[2:4])); len(data) > end {
+			data = data[:end]
+		}
+	}
 
 	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
-		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
-		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+	for off := headerLen; off+blockDescLen <= len(data); off += blockDescLen {
+		lba := binary.BigEndian.Uint64(data[off : off+8])
+		num := binary.BigEndian.Uint32(data[off+8 : off+12])
 		if blocks := cmd.Device.Size >> cmd.Device.BlockShift; lba > blocks || uint64(num) > blocks-lba {
 			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
 			return api.SAMStatCheckCondition
-- 
2.43.0


From 1f08d2866f7b6591752e158919640c4271db85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 25/57] fix: READ CAPACITY(10) returned zeros into a buffer
 shorter than 8 bytes

---
 pkg/scsi/sbc.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index a425109..d6ea4dc 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -545,6 +545,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   = make([]byte, 8)
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -558,20 +559,17 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		copy(data, util.MarshalUint32(uint32(0xffffffff)))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		copy(data, util.MarshalUint32(uint32(size-1)))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
+	copy(data[4:], util.MarshalUint32(uint32(1<<bshift)))
+	// a shorter buffer takes as much of it as it can
+	copy(cmd.InSDBBuffer.Buffer, data)
 	cmd.InSDBBuffer.Resid = 8
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From 268adb3b997d000c7874880b87f87271760747ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 26/57] fix: a command or a write that fails left the iSCSI
 connection open but never read again

---
 pkg/port/iscsit/iscsid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..4aa852d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -408,7 +408,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	}
 
 	if conn.state == CONN_STATE_SCSI {
-		s.scsiCommandHandler(conn)
+		if err := s.scsiCommandHandler(conn); err != nil {
+			log.Error(err)
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
+		}
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
@@ -633,6 +637,7 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
-- 
2.43.0


From 38d717ea0859fef31b2f796f5fe2cb93e4145082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 27/57] fix: Data-Out was placed without regard to its buffer
 offset and past the end of the buffer

---
 pkg/port/iscsit/iscsid.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 4aa852d..1013d47 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -812,11 +812,16 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
 		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+			// data for an aborted task is dropped
+			log.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
+		if int(conn.req.BufferOffset) != task.offset || conn.req.DataLen > len(task.scmd.OutSDBBuffer.Buffer)-task.offset {
+			return fmt.Errorf("Data-Out of %d bytes at %d, expected offset %d of %d", conn.req.DataLen, conn.req.BufferOffset, task.offset, len(task.scmd.OutSDBBuffer.Buffer))
 		}
-		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
+		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData[:conn.req.DataLen])
 		task.offset += conn.req.DataLen
 		task.r2tCount = task.r2tCount - conn.req.DataLen
 		log.Debugf("Final: %v", conn.req.Final)
-- 
2.43.0


From 037d860832360bf7b5b07681f13100e7d9aff924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 28/57] fix: R2T did not name the logical unit and could repeat
 its R2TSN

---
 pkg/port/iscsit/cmd.go    | 7 ++++---
 pkg/port/iscsit/conn.go   | 2 ++
 pkg/port/iscsit/iscsid.go | 7 +------
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..ef41cc5 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -222,7 +222,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		return nil, fmt.Errorf("garbled header")
 	}
 	// TODO: sync.Pool
-	m := &ISCSICommand{}
+	m := &ISCSICommand{RawHeader: data}
 	m.Immediate = 0x40&data[0] == 0x40
 	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
 	m.Final = 0x80&data[1] == 0x80
@@ -491,10 +491,11 @@ func (m *ISCSICommand) r2tRespBytes() []byte {
 	buf.WriteByte(0x00)
 	buf.WriteByte(0x00)
 
-	// Skip through to byte 16
-	for i := 0; i < 3*4; i++ {
+	// Skip through to byte 8
+	for i := 0; i < 4; i++ {
 		buf.WriteByte(0x00)
 	}
+	buf.Write(m.LUN[:])
 	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
 	for i := 0; i < 4; i++ {
 		buf.WriteByte(0x00)
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..bb645ec 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -169,6 +169,8 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 	case OpReady:
 		conn.resp.OpCode = OpReady
 		conn.resp.R2TSN = task.r2tSN
+		task.r2tSN += 1
+		copy(conn.resp.LUN[:], task.cmd.RawHeader[8:16])
 		conn.resp.Final = true
 		conn.resp.BufferOffset = uint32(task.offset)
 		conn.resp.DesiredLength = uint32(task.r2tCount)
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 1013d47..a0dd3ec 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -833,12 +833,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			return nil
 		} else if task.r2tCount > 0 {
 			// prepare to receive more data
-			if task.unsolCount == 0 {
-				task.r2tSN += 1
-			} else {
-				task.r2tSN = 0
-				task.unsolCount = 0
-			}
+			task.unsolCount = 0
 			conn.rxTask = task
 			iscsiExecR2T(conn)
 			break
-- 
2.43.0


From 0b263cec10f1a1bbb814f5d1d07fbf730cc97bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 29/57] fix: only the second byte of the LUN field was looked
 at

---
 pkg/port/iscsit/cmd.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index ef41cc5..e90b2ad 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -217,6 +217,16 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN gives the number of the logical unit that a LUN field addresses
+// with the peripheral device or the flat space method, least significant byte
+// first, or all ones when the field addresses no single level logical unit.
+func parseLUN(data []byte) [8]byte {
+	if data[0] != 0 && data[0]>>6 != 1 || ParseUint(data[2:]) != 0 {
+		return [8]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
+	}
+	return [8]byte{data[1], data[0] & 0x3f}
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -232,7 +242,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -253,7 +263,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
-- 
2.43.0


From 2ac4e992b8597a135a95c105a9d1330cec62e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 30/57] fix: an additional header segment was taken for the
 data segment

---
 pkg/port/iscsit/iscsid.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index a0dd3ec..dfc5618 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -356,7 +356,7 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				return
 			}
 			conn.req = cmd
-			if length == BHS_SIZE && cmd.DataLen != 0 {
+			if length == BHS_SIZE && (cmd.DataLen != 0 || cmd.AHSLen != 0) {
 				conn.rxIOState = IOSTATE_RX_INIT_AHS
 				break
 			}
@@ -366,6 +366,12 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			}
 			final = true
 		case IOSTATE_RX_INIT_AHS:
+			// no additional header segment is in use here
+			if _, err = conn.readData(make([]byte, cmd.AHSLen)); err != nil {
+				log.Error("read AHS failed: ", err)
+				conn.state = CONN_STATE_CLOSE
+				return
+			}
 			conn.rxIOState = IOSTATE_RX_DATA
 			break
 			if hdigest != 0 {
-- 
2.43.0


From 705c6a6b8de3ab3153226d9e1244cd9fcdaa75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 31/57] fix: a request that is not supported was never answered

---
 pkg/port/iscsit/cmd.go    | 34 ++++++++++++++++++++++++++++++++++
 pkg/port/iscsit/conn.go   |  8 +++++++-
 pkg/port/iscsit/iscsid.go |  9 ++-------
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index e90b2ad..33c8d54 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -80,6 +80,9 @@ var opCodeMap = map[OpCode]string{
 
 const DataPadding = 4
 
+// Reject reasons, rfc7143 11.17.1
+const ISCSI_REASON_CMD_NOT_SUPPORTED = 0x05
+
 type ISCSITaskManagementFunc struct {
 	Result            byte
 	TaskFunc          uint32
@@ -164,6 +167,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -519,3 +524,32 @@ func (m *ISCSICommand) r2tRespBytes() []byte {
 
 	return buf.Bytes()
 }
+
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	buf := bytes.Buffer{}
+	buf.WriteByte(byte(OpReject))
+	buf.WriteByte(0x80)
+	buf.WriteByte(m.Result)
+	buf.WriteByte(0x00)
+
+	buf.WriteByte(0x00)
+	buf.Write(util.MarshalUint64(uint64(len(m.RawData)))[5:]) // 5-8
+	// Skip through to byte 16
+	for i := 0; i < 2*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
+	for i := 0; i < 4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
+	for i := 0; i < 3*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(m.RawData)
+
+	return buf.Bytes()
+}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index bb645ec..d98f723 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -202,7 +202,13 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 			}
 		}
 
-	case OpNoopIn, OpReject:
+	case OpReject:
+		conn.resp.OpCode = oc
+		conn.resp.Final = true
+		conn.resp.TaskTag = 0xffffffff
+		conn.resp.Result = ISCSI_REASON_CMD_NOT_SUPPORTED
+		conn.resp.RawData = conn.req.RawHeader
+	case OpNoopIn:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index dfc5618..a235684 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -863,14 +863,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
 	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		log.Errorf("Cannot handle op %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	}
 	conn.rxIOState = IOSTATE_RX_BHS
 	s.handler(DATAIN|DATAOUT, conn)
-- 
2.43.0


From 013d495aa112ca8508588ac8a8152da5f2eda281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 32/57] fix: requests other than Login were carried out before
 the login

---
 pkg/port/iscsit/iscsid.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index a235684..8738b8e 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -420,11 +420,20 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			conn.state = CONN_STATE_CLOSE
 		}
 	} else {
+		if conn.req.OpCode != OpLoginReq && conn.state != CONN_STATE_FULL {
+			log.Warningf("%s before the login, set connection to close", opCodeMap[conn.req.OpCode])
+			conn.state = CONN_STATE_CLOSE
+			return
+		}
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
 		switch conn.req.OpCode {
 		case OpLoginReq:
 			log.Debug("OpLoginReq")
+			if conn.state == CONN_STATE_FULL {
+				iscsiExecReject(conn)
+				break
+			}
 			if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
 				log.Warningf("set connection to close")
-- 
2.43.0


From 73b65ece2b1cda8756e576c6c24c7b9b67fdf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 33/57] fix: StatSN was copied from the request, so pipelined
 requests got the same one

---
 pkg/port/iscsit/conn.go   | 2 --
 pkg/port/iscsit/iscsid.go | 9 +++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index d98f723..a84cbec 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -151,13 +151,11 @@ func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
 	if task == nil {
 		task = conn.rxTask
 	}
 	conn.resp = &ISCSICommand{
 		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
 		TaskTag:         conn.req.TaskTag,
 		ExpectedDataLen: conn.req.ExpectedDataLen,
 	}
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 8738b8e..7e95018 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -463,6 +463,9 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	var cmd = conn.req
 
+	if conn.state == CONN_STATE_FREE {
+		conn.statSN = cmd.ExpStatSN
+	}
 	conn.cid = cmd.ConnID
 	conn.loginParam.iniCSG = cmd.CSG
 	conn.loginParam.iniNSG = cmd.NSG
@@ -509,7 +512,6 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 	cmd := conn.req
 	conn.resp = &ISCSICommand{
 		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
 		TaskTag: cmd.TaskTag,
 	}
 	if conn.session == nil {
@@ -569,7 +571,6 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		OpCode:   OpTextResp,
 		Final:    true,
 		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
 		TaskTag:  cmd.TaskTag,
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
@@ -643,6 +644,10 @@ SendRemainingData:
 			resp.DataLen = transferLen - int(offset)
 		}
 	}
+	resp.StatSN = conn.statSN
+	if resp.OpCode != OpReady && (resp.OpCode != OpSCSIIn || resp.Final) {
+		conn.statSN += 1
+	}
 	for {
 		switch conn.txIOState {
 		case IOSTATE_TX_BHS:
-- 
2.43.0


From 27752ef3c71ac3cc928d66cdb2e59f22b8c3a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 34/57] fix: the connection stayed open and usable after a
 logout

---
 pkg/port/iscsit/iscsid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 7e95018..529eb6d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -527,6 +527,8 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		CurrentHostIP = ""
 	}
 	IPMutex.Unlock()
+	// the connection ends with the response
+	conn.state = CONN_STATE_EXIT
 	return nil
 }
 
@@ -877,6 +879,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
+		s.handler(DATAOUT, conn)
+		return nil
 	default:
 		log.Errorf("Cannot handle op %s", opCodeMap[conn.req.OpCode])
 		iscsiExecReject(conn)
-- 
2.43.0


From bc52d58d297c7884d0aefef7e4711ac869ca1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 35/57] fix: NOP-In did not echo the ping data, and was sent
 when no answer was asked for

---
 pkg/port/iscsit/conn.go   | 1 +
 pkg/port/iscsit/iscsid.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index a84cbec..668bc62 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -211,6 +211,7 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
 		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
+		conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 529eb6d..be8c192 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -873,6 +873,12 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			conn.session.PendingTasksMutex.Unlock()
 		}
 	case OpNoopOut:
+		if req.TaskTag == 0xffffffff {
+			// not a ping, it asks for no answer
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
 		iscsiExecNoopOut(conn)
 	case OpLogoutReq:
 		s.setClientStatus(false)
-- 
2.43.0


From fff0c59f64c77b1576a324cac1887a9cd7313073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 36/57] fix: CmdSN order: ExpCmdSN went astray and requests out
 of order were never answered

---
 pkg/port/iscsit/cmd.go    |  3 ++
 pkg/port/iscsit/conn.go   | 47 ++++++++++++++++++++++-
 pkg/port/iscsit/iscsid.go | 79 +++++++--------------------------------
 3 files changed, 62 insertions(+), 67 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 33c8d54..0f3c360 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -264,6 +264,9 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = parseLUN(data[8:16])
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 668bc62..adb2510 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
+	log "github.com/sirupsen/logrus"
 )
 
 const (
@@ -148,6 +149,50 @@ func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
 	conn.conn = newConn.conn
 }
 
+// inOrder tells whether the request is to be carried out now. A request whose
+// CmdSN is not the next one is held until those before it have come, or ignored
+// if its CmdSN was used before or lies outside of the window (rfc7143 4.2.2.1).
+func (conn *iscsiConnection) inOrder(req *ISCSICommand) bool {
+	sess := conn.session
+	if sess == nil || req.Immediate {
+		return true
+	}
+	switch req.OpCode {
+	case OpNoopOut, OpSCSICmd, OpSCSITaskReq, OpTextReq, OpLogoutReq:
+	default:
+		return true
+	}
+	ahead := req.CmdSN - sess.ExpCmdSN
+	if ahead == 0 {
+		sess.ExpCmdSN += 1
+		return true
+	}
+	if ahead > sess.MaxQueueCommand {
+		log.Errorf("unexpected cmd serial number: (%d, %d)", req.CmdSN, sess.ExpCmdSN)
+		return false
+	}
+	for _, held := range sess.Commands {
+		if held.CmdSN == req.CmdSN {
+			return false
+		}
+	}
+	sess.Commands = append(sess.Commands, req)
+	return false
+}
+
+// nextHeldCommand takes out the held request whose turn it is.
+func (conn *iscsiConnection) nextHeldCommand() *ISCSICommand {
+	if sess := conn.session; sess != nil {
+		for i, req := range sess.Commands {
+			if req.CmdSN == sess.ExpCmdSN {
+				sess.Commands = append(sess.Commands[:i], sess.Commands[i+1:]...)
+				return req
+			}
+		}
+	}
+	return nil
+}
+
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
@@ -210,13 +255,11 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
 	case OpLoginResp:
 		conn.resp.OpCode = OpLoginResp
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index be8c192..4238214 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -333,7 +333,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
 	}
-	for {
+	if req := conn.nextHeldCommand(); req != nil {
+		conn.req = req
+		final = true
+	}
+	for !final {
 		switch conn.rxIOState {
 		case IOSTATE_RX_BHS:
 			log.Debug("rx handler: IOSTATE_RX_BHS")
@@ -407,10 +411,12 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
 			return
 		}
+	}
 
-		if final {
-			break
-		}
+	if !conn.inOrder(conn.req) {
+		conn.rxIOState = IOSTATE_RX_BHS
+		s.handler(DATAIN, conn)
+		return
 	}
 
 	if conn.state == CONN_STATE_SCSI {
@@ -574,8 +580,8 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		Final:    true,
 		NSG:      FullFeaturePhase,
 		TaskTag:  cmd.TaskTag,
-		ExpCmdSN: cmd.CmdSN,
-		MaxCmdSN: cmd.CmdSN,
+		ExpCmdSN: conn.session.ExpCmdSN,
+		MaxCmdSN: conn.session.ExpCmdSN + conn.session.MaxQueueCommand,
 	}
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
@@ -783,7 +789,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
@@ -807,11 +812,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		}
 		task.offset = 0
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			if task.state == taskPending {
-				s.handler(DATAIN, conn)
-				err = nil
-			}
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		} else {
 			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
@@ -825,7 +826,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		// task management function
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		}
 	case OpSCSIOut:
@@ -896,58 +897,6 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 	return nil
 }
 
-func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
-	conn := task.conn
-	sess := conn.session
-	cmd := task.cmd
-	if cmd.Immediate {
-		return s.iscsiExecTask(task)
-	}
-	cmdsn := cmd.CmdSN
-	log.Debugf("CmdSN of command is %d", cmdsn)
-	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
-
-		log.Debugf("process task(%d)", task.cmd.CmdSN)
-		if err := s.iscsiExecTask(task); err != nil {
-			log.Error(err)
-		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
-	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
-			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
-			log.Error(err)
-			return err
-		}
-		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
-		// add this task into queue and set it as a pending task
-		sess.PendingTasksMutex.Lock()
-		task.state = taskPending
-		sess.PendingTasks.Push(task)
-		sess.PendingTasksMutex.Unlock()
-		return fmt.Errorf("pending")
-	}
-
-	return nil
-}
-
 func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 	cmd := task.cmd
 	switch cmd.OpCode {
-- 
2.43.0


From 0dde6b9fe1475e493a0d7d8d850b845e2631e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 37/57] fix: residual counts were lengths, and no data was sent
 as a buffer full of zeros

---
 pkg/port/iscsit/cmd.go  | 27 ++++++++++++---------------
 pkg/port/iscsit/conn.go | 18 +++++++++---------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 0f3c360..000e700 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -102,6 +102,7 @@ type ISCSICommand struct {
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
 	Resid              uint32
+	Overflow           bool
 
 	// Connection ID.
 	ConnID uint16
@@ -313,7 +314,7 @@ func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
 	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
+		if m.Overflow {
 			flag |= 0x04
 		} else {
 			flag |= 0x02
@@ -362,24 +363,21 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	if m.FinalInSeq || m.Final == true {
 		flag |= 0x80
 	}
+	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
+	// the status and the residual count come with the last Data-In
 	if m.HasStatus && m.Final == true {
 		flag |= 0x01
-	}
-	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
-			flag |= 0x02
+		if m.Resid > 0 {
+			if m.Overflow {
+				flag |= 0x04
+			} else {
+				flag |= 0x02
+			}
 		}
+		buf[3] = byte(m.Status)
+		copy(buf[44:], util.MarshalUint32(m.Resid))
 	}
 	buf[1] = flag
-	//buf.WriteByte(0x00)
-	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
-	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
@@ -388,7 +386,6 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index adb2510..4e66287 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -232,16 +232,16 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		if scmd.Result != 0 && scmd.SenseBuffer != nil {
 			length := util.MarshalUint32(scmd.SenseBuffer.Length)
 			conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
-		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
-			if scmd.InSDBBuffer != nil {
-				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
-				} else {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer
-				}
+		} else if scmd.Direction == api.SCSIDataRead && scmd.InSDBBuffer != nil {
+			// the SCSI layer counts the bytes the command has for the initiator
+			actual := scmd.InSDBBuffer.Resid
+			if actual < conn.resp.ExpectedDataLen {
+				conn.resp.Resid = conn.resp.ExpectedDataLen - actual
+				conn.resp.RawData = scmd.InSDBBuffer.Buffer[:actual]
 			} else {
-				conn.resp.RawData = []byte{}
+				conn.resp.Overflow = true
+				conn.resp.Resid = actual - conn.resp.ExpectedDataLen
+				conn.resp.RawData = scmd.InSDBBuffer.Buffer
 			}
 		}
 
-- 
2.43.0


From ac01fc30d845cdba93c2b8b75c61fe22bf382b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 38/57] fix: Data-In segments ignored the
 MaxRecvDataSegmentLength of the initiator

---
 pkg/port/iscsit/conn.go   |  3 +++
 pkg/port/iscsit/iscsid.go | 12 ++++++++----
 pkg/port/iscsit/login.go  |  3 +++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 4e66287..8ff05f0 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -256,6 +256,9 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
 		conn.resp.RawData = conn.req.RawData[:conn.req.DataLen]
+		if max := int(conn.maxRecvDataSegmentLength); len(conn.resp.RawData) > max {
+			conn.resp.RawData = conn.resp.RawData[:max]
+		}
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 4238214..f20956a 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -480,10 +480,6 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
-	conn.maxBurstLength = MaxBurstLength
-	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
-	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
-
 	if conn.loginParam.iniCSG == SecurityNegotiation {
 		if err := conn.processSecurityData(); err != nil {
 			return err
@@ -496,6 +492,14 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 		return err
 	}
 
+	// what the initiator can receive bounds the Data-In segments
+	conn.maxBurstLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
+	conn.maxRecvDataSegmentLength = uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
+	if conn.maxRecvDataSegmentLength > conn.maxBurstLength {
+		conn.maxRecvDataSegmentLength = conn.maxBurstLength
+	}
+	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
+
 	if !conn.loginParam.paramInit {
 		if err := s.BindISCSISession(conn); err != nil {
 			conn.state = CONN_STATE_EXIT
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..63a85ef 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -120,6 +120,9 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		if key == "MaxRecvDataSegmentLength" {
 			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
 			uintVal, ok = defSessKey.conv(val)
+			if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+				return negoKV, fmt.Errorf("invalid value [%s:%s]", key, val)
+			}
 			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
 			continue
 		}
-- 
2.43.0


From b6e874aeaab8daa826c8a09ec8de283aa0e1acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 39/57] fix: login responses ended a stage that the initiator
 had not asked to end, or another one

---
 pkg/port/iscsit/iscsid.go |  9 ++++++-
 pkg/port/iscsit/login.go  | 55 ++++++++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index f20956a..9beb7e2 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -479,13 +479,20 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.iniTrans = cmd.Transit
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
+	if cmd.Cont {
+		return fmt.Errorf("login text that goes on in the next request is not supported")
+	}
 	conn.expCmdSN = cmd.CmdSN
-	if conn.loginParam.iniCSG == SecurityNegotiation {
+	switch conn.loginParam.iniCSG {
+	case LoginOperationalNegotiation:
+	case SecurityNegotiation:
 		if err := conn.processSecurityData(); err != nil {
 			return err
 		}
 		conn.state = CONN_STATE_LOGIN
 		return conn.buildRespPackage(OpLoginResp, nil)
+	default:
+		return fmt.Errorf("login request in stage %s", conn.loginParam.iniCSG)
 	}
 
 	if _, err := conn.processLoginData(); err != nil {
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 63a85ef..ded62d5 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -91,16 +91,41 @@ func (conn *iscsiConnection) processSecurityData() error {
 				// than terminating TCP connection.
 				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
 			}
-			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
 			conn.loginParam.authMethod = AuthNone
 		} else if key == "TargetName" {
 			conn.loginParam.target = val
 		} else if key == "InitiatorName" {
 			conn.loginParam.initiator = val
+		} else if key == "InitiatorAlias" {
+			conn.loginParam.initiatorAlias = val
+		} else if key == "SessionType" {
+			if err := conn.setSessionType(val); err != nil {
+				return err
+			}
 		}
 	}
 
+	// the stage ends when the initiator asks for it
+	conn.loginParam.tgtTrans = conn.loginParam.iniTrans
+	conn.loginParam.tgtNSG = SecurityNegotiation
+	if conn.loginParam.iniTrans {
+		if conn.loginParam.iniNSG != LoginOperationalNegotiation {
+			return fmt.Errorf("reject CSG=%s,NSG=%s", conn.loginParam.iniCSG, conn.loginParam.iniNSG)
+		}
+		conn.loginParam.tgtNSG = LoginOperationalNegotiation
+	}
+	return nil
+}
+
+func (conn *iscsiConnection) setSessionType(val string) error {
+	switch val {
+	case "Normal":
+		conn.loginParam.sessionType = SESSION_NORMAL
+	case "Discovery":
+		conn.loginParam.sessionType = SESSION_DISCOVERY
+	default:
+		return fmt.Errorf("invalid value [SessionType:%s]", val)
+	}
 	return nil
 }
 
@@ -110,7 +135,6 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		ok         bool
 		defSessKey *iscsiSessionKeys
 		negoKV     []util.KeyValue
-		kvChanges  int
 	)
 	loginKV := util.ParseKVText(conn.req.RawData)
 
@@ -137,10 +161,8 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 			conn.loginParam.target = val
 			continue
 		} else if key == "SessionType" {
-			if val == "Normal" {
-				conn.loginParam.sessionType = SESSION_NORMAL
-			} else {
-				conn.loginParam.sessionType = SESSION_DISCOVERY
+			if err := conn.setSessionType(val); err != nil {
+				return negoKV, err
 			}
 			continue
 		}
@@ -158,9 +180,6 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 			if ok {
 				if defSessKey.constValue {
 					//the Negotiation Key cannot be changed! Uses Target default key
-					if uintVal != defSessKey.def {
-						kvChanges++
-					}
 					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
 				} else {
 					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
@@ -169,7 +188,6 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 					} else {
 						// the value out of the acceptable range, Uses target default key
 						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-						kvChanges++
 					}
 				}
 			}
@@ -179,18 +197,13 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		}
 	}
 
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
-		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
-		}
-	} else {
+	if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
 		conn.loginParam.tgtNSG = FullFeaturePhase
 		conn.loginParam.tgtTrans = true
+	} else {
+		//Currently, we just reject these kind of cases
+		return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
+			conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
 	}
 	return negoKV, nil
 }
-- 
2.43.0


From 5fb095b0c205cb1bad4e8596f687d23e8a528c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 40/57] fix: login keys were answered with values outside of
 the offer, or not at all

---
 pkg/port/iscsit/conn.go    |  2 ++
 pkg/port/iscsit/login.go   | 50 ++++++++++++++++++++++----------------
 pkg/port/iscsit/session.go |  9 +++----
 3 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 8ff05f0..5f938cb 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -281,6 +281,8 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 				conn.loginParam.keyDeclared = true
 			}
 			conn.resp.RawData = util.MarshalKVText(negoKeys)
+		} else if _, ok := util.ParseKVText(conn.req.RawData)["AuthMethod"]; ok {
+			conn.resp.RawData = util.MarshalKVText([]util.KeyValue{{"AuthMethod", "None"}})
 		}
 		conn.txTask = nil
 	}
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index ded62d5..bb726c1 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -129,6 +129,20 @@ func (conn *iscsiConnection) setSessionType(val string) error {
 	return nil
 }
 
+// negotiate gives the result of a negotiation (rfc7143 13) in which this side
+// stands for its default.
+func negotiate(key string, offer, def uint) uint {
+	greater := false
+	switch key {
+	case "InitialR2T", "DataPDUInOrder", "DataSequenceInOrder", "DefaultTime2Wait", "OFMarkInt", "IFMarkInt":
+		greater = true
+	}
+	if (offer > def) == greater {
+		return offer
+	}
+	return def
+}
+
 func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 	var (
 		uintVal    uint
@@ -168,32 +182,26 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		}
 
 		defSessKey, ok = sessionKeys[key]
-		if ok {
+		if ok && defSessKey.idx < ISCSI_PARAM_FIRST_LOCAL {
 			uintVal, ok = defSessKey.conv(val)
-
-			//hack here
-			if key == "HeaderDigest" || key == "DataDigest" {
-				if uintVal == DIGEST_ALL {
-					uintVal = DIGEST_NONE
-				}
+			if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+				negoKV = append(negoKV, util.KeyValue{key, "Reject"})
+				continue
 			}
-			if ok {
-				if defSessKey.constValue {
-					//the Negotiation Key cannot be changed! Uses Target default key
-					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-				} else {
-					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
-						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
-					} else {
-						// the value out of the acceptable range, Uses target default key
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-					}
+			if key == "HeaderDigest" || key == "DataDigest" {
+				// a list to choose from, no digest is calculated here
+				if uintVal&DIGEST_NONE == 0 {
+					negoKV = append(negoKV, util.KeyValue{key, "Reject"})
+					continue
 				}
+				uintVal = DIGEST_NONE
+			} else {
+				uintVal = negotiate(key, uintVal, defSessKey.def)
 			}
+			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
 		}
 	}
 
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..eddf58f 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -132,8 +132,6 @@ func digestKeyConv(value string) (uint, bool) {
 			crc |= DIGEST_CRC32C
 		} else if strings.EqualFold(tmpV, "none") {
 			crc |= DIGEST_NONE
-		} else {
-			return crc, false
 		}
 	}
 
@@ -154,7 +152,8 @@ func digestKeyInConv(value uint) string {
 }
 
 func numberKeyConv(value string) (uint, bool) {
-	v, err := strconv.Atoi(value)
+	// decimal or hexadecimal
+	v, err := strconv.ParseUint(value, 0, 32)
 	if err == nil {
 		return uint(v), true
 	}
@@ -200,9 +199,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
-- 
2.43.0


From cdceda10bec6f25b86c05962ed153083b86eae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 41/57] fix: a login naming a session crashed the daemon, and
 the response did not name the session

---
 pkg/port/iscsit/conn.go    | 28 ++++++++++++++++++++++++++--
 pkg/port/iscsit/session.go | 12 ++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 5f938cb..b6ac715 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -17,6 +17,7 @@ limitations under the License.
 package iscsit
 
 import (
+	"fmt"
 	"io"
 	"net"
 	"sort"
@@ -144,9 +145,28 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
-func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
+// ReInstatement puts newConn into the place of conn in its session, where what
+// was under way on conn is dropped.
+func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) error {
+	sess := conn.session
+	sess.ConnectionsRWMutex.Lock()
+	ok := sess.Connections[newConn.cid] == conn
+	if ok {
+		sess.Connections[newConn.cid] = newConn
+	}
+	sess.ConnectionsRWMutex.Unlock()
+	if !ok {
+		return fmt.Errorf("the connection %d is gone", newConn.cid)
+	}
 	conn.close()
-	conn.conn = newConn.conn
+	// wait for the request that is being carried out
+	conn.readLock.Lock()
+	defer conn.readLock.Unlock()
+	sess.Commands = nil
+	sess.PendingTasksMutex.Lock()
+	sess.PendingTasks = nil
+	sess.PendingTasksMutex.Unlock()
+	return nil
 }
 
 // inOrder tells whether the request is to be carried out now. A request whose
@@ -269,6 +289,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.Transit = conn.loginParam.tgtTrans
 		conn.resp.CSG = conn.req.CSG
 		conn.resp.NSG = conn.loginParam.tgtNSG
+		conn.resp.ISID = conn.req.ISID
+		if conn.session != nil {
+			conn.resp.TSIH = conn.session.TSIH
+		}
 		conn.resp.ExpCmdSN = conn.req.CmdSN
 		conn.resp.MaxCmdSN = conn.req.CmdSN
 		if conn.req.CSG != SecurityNegotiation {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index eddf58f..fefcf34 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -379,8 +379,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		return fmt.Errorf("initiator err, invalid request")
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
+	if existSess == nil && conn.loginParam.tsih != 0 {
 		return fmt.Errorf("initiator err, no session")
 	}
 
@@ -425,10 +424,15 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			newSess.Target.Sessions[newSess.TSIH] = newSess
 			newSess.Target.SessionsRWMutex.Unlock()
 		} else {
-			if existConn != nil {
+			if existConn == nil {
+				return fmt.Errorf("initiator err, the session has its only connection already")
+			} else {
 				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
 					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
+				if err = existConn.ReInstatement(conn); err != nil {
+					return err
+				}
+				conn.session = existSess
 			}
 		}
 	}
-- 
2.43.0


From 48d2fc171f54fef375f9464ef64c624889117200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 42/57] fix: sessions and their TSIH were never released, and
 never reinstated

---
 pkg/port/iscsit/iscsid.go  |  2 ++
 pkg/port/iscsit/session.go | 64 +++++++++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9beb7e2..5656713 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -292,6 +292,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 			if conn.state == CONN_STATE_CLOSE {
 				log.Warningf("iscsi connection[%d] closed", conn.cid)
 				conn.close()
+				s.leaveSession(conn)
 				IPMutex.Lock()
 				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
 				if CurrentHostIP == remoteIP {
@@ -308,6 +309,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 	if conn.state == CONN_STATE_CLOSE {
 		log.Warningf("iscsi connection[%d] closed", conn.cid)
 		conn.close()
+		s.leaveSession(conn)
 		IPMutex.Lock()
 		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
 		if CurrentHostIP == remoteIP {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index fefcf34..7f64517 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -317,22 +317,43 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 	}
 	tgt.SessionsRWMutex.RLock()
 	defer tgt.SessionsRWMutex.RUnlock()
-	sess, ok = tgt.Sessions[tsih]
-	if !ok {
-		return nil
-	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
-		return sess
+	// without a TSIH the initiator port names the session
+	for _, sess = range tgt.Sessions {
+		if tsih != ISCSI_UNSPEC_TSIH && sess.TSIH != tsih {
+			continue
+		}
+		if (sess.ISID == isid) && (sess.TPGT == tpgt) && sess.Initiator == iniName {
+			return sess
+		}
 	}
 	return nil
 }
 
 func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
-	target := sess.Target
-	target.SessionsRWMutex.Lock()
-	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	if target := sess.Target; target != nil {
+		target.SessionsRWMutex.Lock()
+		delete(target.Sessions, sess.TSIH)
+		target.SessionsRWMutex.Unlock()
+		scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	}
+	s.ReleaseTSIH(sess.TSIH)
+}
+
+// leaveSession ends the session of a connection that is closed.
+func (s *ISCSITargetDriver) leaveSession(conn *iscsiConnection) {
+	sess := conn.session
+	if sess == nil {
+		return
+	}
+	sess.ConnectionsRWMutex.Lock()
+	last := sess.Connections[conn.cid] == conn
+	if last {
+		delete(sess.Connections, conn.cid)
+	}
+	sess.ConnectionsRWMutex.Unlock()
+	if last {
+		s.UnBindISCSISession(sess)
+	}
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
@@ -367,8 +388,10 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		conn.tid = target.TID
 	}
 
-	existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
-		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	if conn.loginParam.sessionType == SESSION_NORMAL {
+		existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
+			conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	}
 	if existSess != nil {
 		existConn = existSess.LookupConnection(conn.cid)
 	}
@@ -410,7 +433,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
 			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
 				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
+			newSess, err = s.ReInstatement(existSess, conn)
 			if err != nil {
 				return err
 			}
@@ -491,13 +514,16 @@ func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiCo
 	if err != nil {
 		return nil, err
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
-	s.UnBindISCSISession(existSess)
-	for _, tmpConn := range existSess.Connections {
+	existSess.ConnectionsRWMutex.Lock()
+	conns := existSess.Connections
+	existSess.Connections = map[uint16]*iscsiConnection{}
+	existSess.ConnectionsRWMutex.Unlock()
+	if len(conns) != 0 {
+		s.UnBindISCSISession(existSess)
+	}
+	for _, tmpConn := range conns {
 		tmpConn.close()
 	}
-	existSess.Connections = map[uint16]*iscsiConnection{}
 	return newSess, nil
 }
 
-- 
2.43.0


From 5daff95e7fa533d4c565f11f062db29b860ee2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 43/57] fix: a login without an InitiatorName was accepted

---
 pkg/port/iscsit/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 7f64517..bfd4e85 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -366,6 +366,9 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		err       error
 	)
 
+	if conn.loginParam.initiator == "" {
+		return fmt.Errorf("no InitiatorName")
+	}
 	//Find TPGT and Target ID
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
-- 
2.43.0


From 47cebad246465308cbd0aacf4769c7f231749b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 44/57] fix: aborting a task answered twice, and aborting the
 tasks of a LUN left them running

---
 pkg/port/iscsit/iscsid.go  | 18 +++++++-----------
 pkg/port/iscsit/session.go | 10 ++++++++++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 5656713..8abe2a9 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -935,20 +935,16 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			if stask == nil {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
-				// abort this task
+				// abort this task, which gets no response of its own
 				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
-		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+		case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			// abort the tasks of the logical unit
+			sess.PendingTasksMutex.Lock()
+			sess.PendingTasks.RemoveByLUN(cmd.LUN)
+			sess.PendingTasksMutex.Unlock()
+			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index bfd4e85..d17b1ea 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -305,6 +305,16 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
+func (tq *taskQueue) RemoveByLUN(lun [8]uint8) {
+	var rest taskQueue
+	for _, t := range *tq {
+		if t.cmd.LUN != lun {
+			rest = append(rest, t)
+		}
+	}
+	*tq = rest
+}
+
 func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
 	var (
 		tgt  *ISCSITarget
-- 
2.43.0


From 83fa2cd98d63a417b42adc884dfd61ce9be2bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 45/57] fix: a bidirectional command was answered with the
 sense key as its status

---
 pkg/port/iscsit/iscsid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 8abe2a9..ed6b44b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -771,8 +771,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: scmd}
 		task.scmd.OpCode = conn.req.SCSIOpCode
 		if scmd.Direction == api.SCSIDataBidirection {
-			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
 			break
-- 
2.43.0


From f7ca85fe89b46c0faf5e45e452cdb53b087d0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 46/57] fix: writes that took Data-Out were counted as TEST
 UNIT READY

---
 pkg/port/iscsit/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index b6ac715..4f11146 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -242,7 +242,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		}
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
+		// the request at hand may be the Data-Out that completes the command
+		conn.resp.SCSIOpCode = task.cmd.SCSIOpCode
+		conn.resp.ExpectedDataLen = task.cmd.ExpectedDataLen
+		conn.resp.StartTime = task.cmd.StartTime
 		conn.resp.Immediate = true
 		conn.resp.Final = true
 		conn.resp.SCSIResponse = 0x00
-- 
2.43.0


From c68a4950f2347f417f310a391206f97f8617c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 47/57] fix: immediate data that was not agreed on was counted
 but dropped

---
 pkg/port/iscsit/iscsid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index ed6b44b..54d1da5 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -799,6 +799,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
 				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 				task.offset += conn.req.DataLen
+			} else if conn.req.DataLen != 0 {
+				return fmt.Errorf("immediate data of %d bytes without ImmediateData", conn.req.DataLen)
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-- 
2.43.0


From dc6b15eac56844e89e68f701ba3eaa2909870225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 48/57] fix: the command window was the initiator's
 MaxRecvDataSegmentLength, or that length the window

---
 pkg/port/iscsit/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index d17b1ea..f508c1b 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,9 +71,9 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD
+	ISCSI_PARAM_MAX_QUEUE_CMD    = ISCSI_PARAM_FIRST_LOCAL + 1
 	/* must always be last */
-	ISCSI_PARAM_MAX
+	ISCSI_PARAM_MAX = ISCSI_PARAM_FIRST_LOCAL + 2
 )
 
 type ISCSISessionParam struct {
-- 
2.43.0


From a31b71783897563c7b0c78728d9a603e5a376d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 49/57] fix: leave the padding of a data segment out of its
 data

The padding after a text was parsed as part of it: an initiator that
does not send zeros got an answer for a key it never offered.
---
 pkg/port/iscsit/iscsid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 54d1da5..fad3cb6 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -408,6 +408,8 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				conn.state = CONN_STATE_CLOSE
 				return
 			}
+			// the padding is no part of the data
+			cmd.RawData = cmd.RawData[:cmd.DataLen]
 			final = true
 		default:
 			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
-- 
2.43.0


From 3a0c5c89726e81af4e1532d61b63b0408016140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 50/57] fix: lock the nexuses of a target where commands and
 listings read them

The iSCSI target kept a copy of the SCSI target, mutex included, so logins and
commands did not exclude each other on the table of nexuses.
---
 pkg/port/iscsit/iscsit.go  |  4 ++--
 pkg/port/iscsit/session.go |  6 +++---
 pkg/scsi/scsi.go           | 20 +++++++++++++++++++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index 9b0d445..e2963af 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -79,7 +79,7 @@ type iSCSITPGT struct {
 }
 
 type ISCSITarget struct {
-	api.SCSITarget
+	*api.SCSITarget
 	api.SCSITargetDriverCommon
 	// TPGT number is the key
 	TPGTs map[uint16]*iSCSITPGT
@@ -123,7 +123,7 @@ func (tgt *ISCSITarget) FindTPG(portal string) (uint16, error) {
 
 func newISCSITarget(target *api.SCSITarget) *ISCSITarget {
 	return &ISCSITarget{
-		SCSITarget: *target,
+		SCSITarget: target,
 		TPGTs:      make(map[uint16]*iSCSITPGT),
 		Sessions:   make(map[uint16]*ISCSISession),
 	}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index f508c1b..7615e6b 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -344,7 +344,7 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 		target.SessionsRWMutex.Lock()
 		delete(target.Sessions, sess.TSIH)
 		target.SessionsRWMutex.Unlock()
-		scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+		scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
 	}
 	s.ReleaseTSIH(sess.TSIH)
 }
@@ -430,7 +430,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 			//register normal session
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
@@ -452,7 +452,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index f9f31fc..4eb9e3d 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -50,7 +50,23 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 	result := []api.SCSITarget{}
 	s.mutex.RLock()
 	for _, t := range s.Targets {
-		result = append(result, *t)
+		nexus := make(map[uuid.UUID]*api.ITNexus)
+		t.ITNexusMutex.Lock()
+		for id, it := range t.ITNexus {
+			nexus[id] = it
+		}
+		t.ITNexusMutex.Unlock()
+		result = append(result, api.SCSITarget{
+			Name:             t.Name,
+			TID:              t.TID,
+			LID:              t.LID,
+			State:            t.State,
+			Devices:          t.Devices,
+			LUN0:             t.LUN0,
+			TargetPortGroups: t.TargetPortGroups,
+			SCSITargetDriver: t.SCSITargetDriver,
+			ITNexus:          nexus,
+		})
 	}
 	s.mutex.RUnlock()
 	return result, nil
@@ -97,12 +113,14 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	if scmd.OutSDBBuffer == nil {
 		scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
 	}
+	target.ITNexusMutex.Lock()
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
 			break
 		}
 	}
+	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
 	scmd.Device = target.Devices[lun]
-- 
2.43.0


From fb3c84f6b14c31165431052082fda80eccff6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 51/57] fix: keep changes of the LUN mapping away from the map
 commands look into

A target was given the live map, which later mappings change under a lock the
commands do not hold; targets were listed and LUNs mapped without the lock.
---
 pkg/scsi/scsi.go      | 8 +++++---
 pkg/scsi/scsilumap.go | 8 ++++++--
 pkg/scsi/target.go    | 6 ++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 4eb9e3d..50ea53e 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -90,14 +90,16 @@ func (s *SCSITargetService) Resize(size uint64) error {
 // AddCommandQueue add command queue
 func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) error {
 	var (
-		target *api.SCSITarget
-		itn    *api.ITNexus
+		target  *api.SCSITarget
+		devices api.LUNMap
+		itn     *api.ITNexus
 	)
 
 	s.mutex.RLock()
 	for _, t := range s.Targets {
 		if t.TID == tid {
 			target = t
+			devices = t.Devices
 			break
 		}
 	}
@@ -123,7 +125,7 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
-	scmd.Device = target.Devices[lun]
+	scmd.Device = devices[lun]
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..c41bcd0 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -70,11 +70,15 @@ func GetLU(tgtName string, LUN uint64) *api.SCSILu {
 	return lun
 }
 
+// GetTargetLUNMap returns the LUN map of the target as it is now.
 func GetTargetLUNMap(tgtName string) api.LUNMap {
 	globalSCSILUMap.mutex.RLock()
 	defer globalSCSILUMap.mutex.RUnlock()
 
-	lunMap := globalSCSILUMap.TargetsLUNMap[tgtName]
+	lunMap := make(api.LUNMap)
+	for lun, device := range globalSCSILUMap.TargetsLUNMap[tgtName] {
+		lunMap[lun] = device
+	}
 	return lunMap
 }
 
@@ -165,8 +169,8 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	}
 
 	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
-	globalSCSILUMap.mutex.Unlock()
 
 	mappingLUN(LUNMapping{
 		DeviceID:   config.DeviceID,
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..30254aa 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -38,10 +38,12 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
-	s.Targets = append(s.Targets, target)
-	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
+	s.mutex.Lock()
+	target.Devices = GetTargetLUNMap(target.Name)
+	s.Targets = append(s.Targets, target)
+	s.mutex.Unlock()
 	return target, nil
 }
 
-- 
2.43.0


From 893641d56ecfb63ef1a90eb3183358c01323c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 52/57] fix: lock the table of iSCSI targets and their portals

---
 pkg/port/iscsit/iscsid.go  | 15 ++++++++++++++-
 pkg/port/iscsit/session.go |  7 +++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fad3cb6..5ec9b20 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -109,6 +109,8 @@ func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
 }
 
 func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
@@ -127,7 +129,7 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
 			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			s.addPortal(tgtName, uint16(tpgtNumber), portal.Portal)
 		}
 	}
 	return nil
@@ -146,6 +148,13 @@ func (s *ISCSITargetDriver) RereadTargetLUNMap() {
 }
 
 func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.addPortal(tgtName, tpgt, portal)
+}
+
+// addPortal is called with s.mu held.
+func (s *ISCSITargetDriver) addPortal(tgtName string, tpgt uint16, portal string) error {
 	var (
 		ok       bool
 		target   *ISCSITarget
@@ -171,6 +180,8 @@ func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal s
 }
 
 func (s *ISCSITargetDriver) HasPortal(tgtName string, tpgt uint16, portal string) bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	var (
 		ok       bool
 		target   *ISCSITarget
@@ -559,6 +570,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
 		if st == "All" {
+			s.mu.RLock()
 			for name, tgt := range s.iSCSITargets {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
@@ -587,6 +599,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 					}
 				}
 			}
+			s.mu.RUnlock()
 		}
 	}
 
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 7615e6b..9f67ff6 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -321,7 +321,9 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 		sess *ISCSISession
 		ok   bool
 	)
+	s.mu.RLock()
 	tgt, ok = s.iSCSITargets[tgtName]
+	s.mu.RUnlock()
 	if !ok {
 		return nil
 	}
@@ -383,6 +385,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
 	} else {
+		s.mu.RLock()
 		for _, t := range s.iSCSITargets {
 			if t.SCSITarget.Name == conn.loginParam.target {
 				target = t
@@ -390,10 +393,12 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 		}
 		if target == nil {
+			s.mu.RUnlock()
 			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
 		}
 
 		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+		s.mu.RUnlock()
 		if err != nil {
 			return err
 		}
@@ -483,12 +488,14 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		tsih   uint16
 	)
 
+	s.mu.RLock()
 	for _, t := range s.iSCSITargets {
 		if t.TID == conn.tid {
 			target = t
 			break
 		}
 	}
+	s.mu.RUnlock()
 	if target == nil && conn.tid != 0xffff {
 		return nil, fmt.Errorf("No target found with tid(%d)", conn.tid)
 	}
-- 
2.43.0


From 709f3d2b3c59214eec62ff92c01eee9aa22fd31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 53/57] fix: read the address of the connected host under its
 lock

---
 pkg/port/iscsit/iscsid.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 5ec9b20..f125473 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -235,17 +235,20 @@ func (s *ISCSITargetDriver) Run(port int) error {
 		if CurrentHostIP == "" {
 			CurrentHostIP = remoteIP
 		}
+		currentIP := CurrentHostIP
 		IPMutex.Unlock()
 
-		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
+		if s.blockMultipleHostLogin && remoteIP != currentIP {
 			conn.Close()
 			log.Infof("rejecting connection: %s target already connected at %s",
-				remoteIP, CurrentHostIP)
+				remoteIP, currentIP)
 			continue
 		}
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
+		s.mu.Lock()
 		s.setClientStatus(true)
+		s.mu.Unlock()
 
 		iscsiConn := &iscsiConnection{conn: conn,
 			loginParam: &iscsiLoginParam{}}
-- 
2.43.0


From affdf035324b69278ab36c8caa84943bd182edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 54/57] fix: carry out one persistent reservation request at a
 time

All nexuses share the list of registrations, which requests changed without
excluding each other.
---
 pkg/scsi/scsi_pr.go   |  6 ++++++
 pkg/scsi/scsilumap.go |  2 ++
 pkg/scsi/spc.go       | 16 ++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..1eee77c 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,8 @@ limitations under the License.
 package scsi
 
 import (
+	"sync"
+
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/satori/go.uuid"
 )
@@ -43,6 +45,10 @@ type SCSIReservationOperator interface {
 
 var onePROperator SCSIReservationOperator
 
+// reservationMutex is held for the whole of a request that looks at the
+// reservations, which all nexuses share, or changes them.
+var reservationMutex sync.Mutex
+
 func GetSCSIReservationOperator() SCSIReservationOperator {
 	if onePROperator == nil {
 		onePROperator = &SCSISimpleReservationOperator{
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index c41bcd0..a694425 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -121,6 +121,8 @@ func AddLUNMapping(m LUNMapping) error {
 	defer globalSCSILUMap.mutex.Unlock()
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
 		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 1696c0a..319d557 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -799,6 +799,8 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
@@ -835,6 +837,8 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID)
@@ -955,6 +959,8 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
@@ -1016,6 +1022,8 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 
 	ok = reservationCheck(host, cmd)
@@ -1083,6 +1091,8 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 
 	ok = reservationCheck(host, cmd)
@@ -1164,6 +1174,8 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
@@ -1226,6 +1238,8 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
@@ -1327,6 +1341,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 	scsiResOp := GetSCSIReservationOperator()
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
-- 
2.43.0


From 1a512a12ab92cc0223dd7e10c234b2d4f4ce5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 55/57] fix: adding a remote backing store no longer deadlocks
 on the LUN map lock

---
 pkg/scsi/scsilumap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a694425..be81e51 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -95,17 +95,24 @@ func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 }
 
 func AddBackendStorage(bs config.BackendStorage) error {
-	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
+	globalSCSILUMap.mutex.RLock()
 	_, ok := globalSCSILUMap.AllDevices[bs.DeviceID]
+	globalSCSILUMap.mutex.RUnlock()
 	if ok {
 		return fmt.Errorf("device %q already exists", bs.DeviceID)
 	}
 
+	// opening a remote backing store looks it up in the map
 	lu, err := NewSCSILu(&bs)
 	if err != nil {
 		return fmt.Errorf("Init SCSI LU map error: %v", err)
 	}
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
+	if _, ok = globalSCSILUMap.AllDevices[bs.DeviceID]; ok {
+		lu.Storage.Close(lu)
+		return fmt.Errorf("device %q already exists", bs.DeviceID)
+	}
 	globalSCSILUMap.AllDevices[bs.DeviceID] = lu
 	return nil
 }
-- 
2.43.0


From f1528619bf593e44ea6335d9636bea69336592fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 56/57] fix: refuse to map a LUN to a device that does not
 exist

---
 pkg/scsi/scsilumap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index be81e51..dec6c66 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -126,6 +126,9 @@ func DelBackendStorage(deviceID uint64) {
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	if globalSCSILUMap.AllDevices[m.DeviceID] == nil {
+		return fmt.Errorf("device %d of LUN %d does not exist", m.DeviceID, m.LUN)
+	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
 	reservationMutex.Lock()
@@ -157,7 +160,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 7f894480bcb289a4ce94ee8492a7a20921f2c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 57/57] fix: a storage path without a kind of store crashed the
 daemon at startup

---
 pkg/scsi/backingstore.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9ad285d..0bb4210 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -41,9 +41,6 @@ func RegisterBackingStore(name string, f BackingStoreFunc) {
 }
 
 func NewBackingStore(name string) (api.BackingStore, error) {
-	if name == "" {
-		return nil, nil
-	}
 	f, ok := registeredBSPlugins[name]
 	if !ok {
 		return nil, fmt.Errorf("Backend storage %s is not found.", name)
-- 
2.43.0

