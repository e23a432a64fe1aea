prop("S01", "READ returns exactly the addressed bytes of the store",
 "When a READ (6/10/12/16) completes with GOOD status, the data returned to the initiator is byte for byte what the backing store holds at LBA x block size for the requested number of blocks (READ(6) length 0 means 256 blocks), the reported length is that many bytes, and the read changes nothing in the store. A READ of existing blocks on a ready unit whose store does not fail and whose buffer is large enough is never refused.",
 ["inputs", "configurations"], ALLCDB, "Tests read a few fixed LBAs and lengths; the claim is over all 2^64 LBAs, all lengths, block sizes and unit states.",
 SC, [("CDB decoding", "pkg/scsi/scsi.go:getSCSIReadWriteOffset"), ("data movement", "pkg/scsi/backingstore.go:bsPerformCommand")])
prop("S02", "WRITE stores exactly the received bytes at the addressed blocks",
 "When a WRITE or WRITE AND VERIFY (6/10/12/16) completes with GOOD status, the bytes received from the initiator, up to the transfer length, have been written byte for byte at LBA x block size, and nowhere else; nothing beyond the transfer length is ever written. A WRITE to existing blocks of a ready, unprotected unit is refused only when the store fails (or, for WRITE AND VERIFY, when the comparison fails).",
 ["inputs", "configurations"], ALLCDB, "Tests write a few fixed patterns; the claim is over all addresses, lengths, buffer sizes and block sizes.",
 SC, [("CDB decoding", "pkg/scsi/scsi.go:getSCSIReadWriteOffset"), ("data movement", "pkg/scsi/backingstore.go:bsPerformCommand")])
prop("S03", "Medium commands touch only addressed, existing blocks",
 "Every store access of READ, WRITE, WRITE AND VERIFY, VERIFY, ORWRITE, WRITE SAME, SYNCHRONIZE CACHE and PRE-FETCH lies inside the logical unit and inside the range of blocks the CDB addresses. A command that addresses a block beyond the last one is refused with ILLEGAL REQUEST, LOGICAL BLOCK ADDRESS OUT OF RANGE and never completes GOOD, also when LBA plus length exceeds 64 bits; commands whose blocks all exist are never refused with that sense.",
 ["inputs", "configurations"], ALLCDB, "The failing inputs sit at the edges of 32- and 64-bit arithmetic that example tests do not visit.",
 SC, [("range checks", "pkg/scsi/sbc.go:SBCReadWrite, SBCVerify, SBCSyncCache")])
prop("S04", "A write-protected unit is never modified",
 "While a unit is read-only or software write protected, no command writes or discards anything in its backing store, and WRITE, WRITE AND VERIFY, ORWRITE, WRITE SAME, UNMAP and FORMAT UNIT end in CHECK CONDITION (DATA PROTECT, WRITE PROTECTED when that is the reason given) instead of GOOD. DATA PROTECT is never reported for an unprotected unit, and the write-protect bit of the MODE SENSE header equals the protection state.",
 ["inputs", "configurations"], "all 256 operation codes, " + ALLCDB, "Tests do not try every modifying command against every protection state.",
 SC, [("protection checks", "pkg/scsi/sbc.go"), ("WP bit", "pkg/scsi/sbc.go:SBCModeSense")])
prop("S05", "Acknowledged durable writes and cache flushes reached stable storage",
 "A writing command that completes GOOD with FUA set, or with the write cache disabled in the caching mode page, has flushed everything it wrote through the backing store before the status is returned. SYNCHRONIZE CACHE completes GOOD only after a successful flush covering the addressed blocks (all blocks to the end of the unit for length 0), and a failed flush is never reported as GOOD.",
 ["inputs", "crash_points", "fault_sequences"], ALLCDB + "; a crash at any point after the status was returned", "No test crashes the process or fails a flush; the order of flush and status is what matters at every crash point.",
 SC, [("flush after write", "pkg/scsi/backingstore.go:bsPerformCommand"), ("SYNCHRONIZE CACHE", "pkg/scsi/sbc.go:SBCSyncCache")])
prop("S06", "A backing-store error is always reported to the initiator",
 "Whenever a read, write, flush or discard issued to the backing store for a SCSI command fails, the command ends in CHECK CONDITION with MEDIUM ERROR or HARDWARE ERROR sense and never in GOOD (the only exception: a READ for which the store reports end of file is completed with zeros).",
 ["inputs", "fault_sequences"], "all 256 operation codes, " + ALLCDB, "Tests never make a backing store fail.",
 SC, [("store error handling", "pkg/scsi/backingstore.go:bsPerformCommand")])
prop("S07", "Status and sense data are always consistent",
 "Every command ends with one of the statuses GOOD, CHECK CONDITION or RESERVATION CONFLICT; sense data is present exactly when the status is CHECK CONDITION. Sense data has the format the unit is set to (fixed: response code 70h, 18 bytes, additional length 10; descriptor: 72h, 8 bytes, additional length 0), a non-zero sense key, and the length it is declared to have.",
 ["inputs", "configurations"], "all 256 operation codes, " + ALLCDB, "Tests look at a handful of error paths; each of thousands of paths has to build its sense data correctly.",
 SPC, [("sense construction", "pkg/scsi/scsi.go:BuildSenseData"), ("dispatch", "pkg/scsi/scsi.go, pkg/scsi/target.go")])
prop("S08", "Unsupported operation codes and service actions are refused",
 "An operation code the disk does not implement always ends in CHECK CONDITION, ILLEGAL REQUEST, INVALID COMMAND OPERATION CODE without touching the backing store, and no implemented operation code is ever answered that way. An unimplemented service action of SERVICE ACTION IN(16), MAINTENANCE IN, PERSISTENT RESERVE IN or PERSISTENT RESERVE OUT ends in CHECK CONDITION, ILLEGAL REQUEST without touching the store.",
 ["inputs"], "all 256 operation codes and all service actions, " + ALLCDB, "Tests try only a few invalid opcodes.",
 SPC, [("operation table", "pkg/scsi/sbc.go:NewSBCDevice"), ("service actions", "pkg/scsi/spc.go:SPCServiceAction")])
prop("S09", "A command reaches exactly the logical unit its LUN addresses",
 "A command only ever reads, changes or flushes the store, or alters the state, of the logical unit its LUN addresses; a command for a LUN that is not mapped (other than LUN 0) ends in CHECK CONDITION, ILLEGAL REQUEST and touches no unit. REPORT LUNS with a large enough allocation length lists every mapped LUN exactly once in the SAM LUN format, LUN 0 always among them, and its length field says how many there are.",
 ["inputs", "configurations"], "every command and every 64-bit LUN against targets with two units; REPORT LUNS for five sets of mapped units", "Tests use one or two LUNs and never look at what happened to the others.",
 SC, [("addressing", "pkg/scsi/scsi.go:AddCommandQueue"), ("REPORT LUNS", "pkg/scsi/spc.go:SPCReportLuns")])
prop("S10", "READ CAPACITY reports the true size and block length",
 "READ CAPACITY(10) and (16) of a ready unit return the address of its last block (FFFFFFFFh from the 10 byte form when it needs more than 32 bits) and its block length, in big-endian order, for every size of the unit; the thin provisioning bit of the 16 byte form is set exactly for thin provisioned units. The returned length is 8 bytes, or 32 cut to the allocation length.",
 ["inputs", "configurations"], ALLCDB, "Tests use one small disk; the values around 2^32 blocks and short buffers are not visited.",
 SC, [("capacity", "pkg/scsi/sbc.go:SBCReadCapacity, SBCReadCapacity16")])
prop("S13", "INQUIRY data is well-formed and true",
 "Standard INQUIRY and every supported VPD page carry the page code asked for, a length field equal to the data that follows, and a peripheral qualifier that follows the unit's online state; page 00h lists exactly the pages the unit answers, page B2h reports thin provisioning truthfully, and the designators of page 83h fill their page exactly. A page code that is not supported, or one without EVPD, ends in CHECK CONDITION, ILLEGAL REQUEST, INVALID FIELD IN CDB; supported ones are never refused.",
 ["inputs", "configurations"], "every INQUIRY CDB, " + ALLCDB, "Tests look at some fields of some pages of one unit.",
 SPC, [("INQUIRY", "pkg/scsi/spc.go:SPCInquiry")])
prop("S14", "MODE SENSE data is well-formed and complete",
 "MODE SENSE(6) and (10) return a mode data length equal to the data that follows, a block descriptor with the unit's block length exactly when DBD is 0, and then exactly the pages asked for (all of them for page code 3Fh), each with a correct page length. Saved values end in SAVING PARAMETERS NOT SUPPORTED and unknown pages in INVALID FIELD IN CDB; the caching and control pages and the all-pages request are never refused.",
 ["inputs", "configurations"], "every MODE SENSE CDB, " + ALLCDB, "Tests ask for a few pages.",
 SPC, [("MODE SENSE", "pkg/scsi/spc.go:SPCModeSense, pkg/scsi/sbc.go:SBCModeSense")])
prop("S15", "Returned parameter data never exceeds the allocation length",
 "INQUIRY, REQUEST SENSE, MODE SENSE, REPORT LUNS, REPORT SUPPORTED OPERATION CODES, READ CAPACITY(16) and PERSISTENT RESERVE IN never return more bytes than the ALLOCATION LENGTH of their CDB.",
 ["inputs", "configurations"], ALLCDB, "Tests use comfortable allocation lengths.",
 SPC, [("parameter data", "pkg/scsi/spc.go, pkg/scsi/sbc.go, pkg/scsi/scsi_pr.go")])
prop("S16", "UNMAP discards exactly the listed blocks",
 "UNMAP hands the backing store exactly the block ranges of the complete descriptors in its parameter list (LBA and number of blocks, big-endian, times the block size), limited by the parameter list length, the block descriptor data length and the data received. If any listed range leaves the unit, the command ends in LOGICAL BLOCK ADDRESS OUT OF RANGE and nothing is discarded.",
 ["inputs", "configurations"], "parameter lists of every content with up to four descriptors (quick) or five (thorough), any CDB and unit state", "Tests unmap one range; wrong lengths and addresses discard somebody else's data.",
 SC, [("UNMAP", "pkg/scsi/sbc.go:SBCUnmap")])
prop("S17", "WRITE SAME and ORWRITE write the data they define",
 "WRITE SAME(10/16) that completes GOOD has written the one block of data received (or zeros, with NDOB) to every addressed block, in full and nowhere else. ORWRITE(16) that completes GOOD has stored, for every byte of the addressed blocks, the bitwise OR of the old contents and the data received.",
 ["inputs", "configurations"], "WRITE SAME of 1, 2, 3 and 5 blocks, ORWRITE of 1 and 2 blocks, every address, data and unit state", "Tests write constant patterns over a few blocks.",
 SC, [("WRITE SAME, ORWRITE", "pkg/scsi/backingstore.go:bsPerformCommand")])
prop("S19", "REPORT SUPPORTED OPERATION CODES tells the truth",
 "The list REPORT SUPPORTED OPERATION CODES returns has a length field equal to what follows, and every operation code in it is one the unit implements, with the right CDB length.",
 ["inputs", "configurations"], ALLCDB, "The list and the dispatch table are separate; no test compares them.",
 SPC, [("list", "pkg/scsi/spc.go:reportOpcodesAll"), ("dispatch table", "pkg/scsi/sbc.go:NewSBCDevice")])
prop("B01", "Backing stores do what they report",
 "A successful read of the file store or of a remote store returns exactly the bytes at the asked offset, all of the asked length; a successful write has stored all bytes at the asked offset; a successful flush has synchronised the file, or the remote store. The file store opens exactly the configured path for reading and writing without creating or truncating it, reports its size, and reading, flushing, advising or asking for the size never changes the data.",
 ["inputs", "fault_sequences"], "every offset, length and buffer; every outcome of the operating system or the remote side, short transfers included", "Tests never see a short or failed transfer; one that is reported as success loses data silently.",
 ["pkg/scsi/backingstore/common.go", "pkg/scsi/backingstore/remote/remote.go", "pkg/util/util_linux.go"], [("file store", "pkg/scsi/backingstore/common.go:FileBackingStore"), ("remote store", "pkg/scsi/backingstore/remote/remote.go:RemBackingStore")])
prop("C01", "The configured units are the units that are served",
 "A configuration is taken only if every LUN is a number and mapped to a configured device, every device id is there once and every storage names an existing kind of store; taking it never crashes, and a correct one is refused only when a storage cannot be opened. Then each target has exactly the logical units of its mapping, each backed by the storage with that device id, with its path, block size (512 bytes if none is given), thin-provisioning and online setting. Mappings added or removed later take effect when the target reads its map again, and a mapping to a device that does not exist is refused.",
 ["configurations", "histories", "fault_sequences"], "configurations of up to 3 storages, 2 targets and 2 units each; every flag, several block sizes, every outcome of every system call", "Tests use one target with one unit; a unit behind the wrong LUN, target or file silently serves somebody else's data.",
 ["pkg/scsi/scsilumap.go", "pkg/scsi/lun.go", "pkg/scsi/target.go", "pkg/scsi/backingstore.go", "pkg/config/config.go"], [("unit map", "pkg/scsi/scsilumap.go:InitSCSILUMap, AddLUNMapping, GetTargetLUNMap"), ("unit", "pkg/scsi/lun.go:NewSCSILu")])
prop("S11", "No SCSI command can crash the daemon",
 "No SCSI command, whatever its CDB bytes, data length, buffer sizes, transfer direction, unit state or store outcome, makes the command processing panic (index or slice out of range, nil dereference, failed type assertion, division by zero, impossible allocation).",
 ["inputs", "configurations", "fault_sequences"], "all 256 operation codes, both transfer directions, " + ALLCDB, "A single malformed CDB among 2^128 kills every session of the daemon; tests sample well-formed ones.",
 SPC + ["pkg/scsi/scsi_pr.go", "pkg/util/util.go"], [("command processing", "pkg/scsi/target.go:AddCommandQueue")])
prop("S12", "VERIFY and WRITE AND VERIFY really compare",
 "VERIFY with BYTCHK set completes GOOD only if exactly the addressed blocks were read back and equal the data sent by the initiator; WRITE AND VERIFY completes GOOD only if the blocks read back after the write equal the data sent. A difference is reported as MISCOMPARE (MISCOMPARE DURING VERIFY OPERATION), which is never reported without a difference or too little data, and a VERIFY of existing blocks is not refused otherwise.",
 ["inputs", "configurations", "fault_sequences"], ALLCDB, "Tests never make a verification fail at an arbitrary address or length.",
 SC, [("comparison", "pkg/scsi/sbc.go:SBCVerify, pkg/scsi/backingstore.go:bsPerformCommand")])
prop("S18", "Unit readiness follows the medium state",
 "TEST UNIT READY is GOOD exactly when the medium of the unit is available; START STOP UNIT with LOEJ loads (START=1) or ejects (START=0) the medium of a removable unit and changes the state in no other case. Medium access commands on a unit whose medium was ejected end in NOT READY, MEDIUM NOT PRESENT without touching the store, and NOT READY is never reported while the medium is present.",
 ["inputs", "histories"], "every CDB and every unit state reached by any command history", "Tests do not eject media and then try every command.",
 SC, [("START STOP UNIT", "pkg/scsi/sbc.go:SBCStartStop"), ("readiness", "pkg/scsi/sbc.go, pkg/scsi/spc.go:SPCTestUnit")])
IS = ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/cmd.go"]
INOTE = "Every path of the connection handling is covered for each script of PDUs listed by the check; header and data bytes the script does not fix are arbitrary. Lengths are bounded by the scripts (reads to 3 KiB, writes to 64 KiB). Trusted: SSA construction, the interpreter, the models of net, sync and of the SCSI layer's contract; one goroutine per connection runs at a time."
SCR = "every header and data byte the scripts of requests leave open (LUNs, tags, command sequence numbers, CDBs, lengths, padding, additional headers) and every outcome (status, sense data, length) of the SCSI layer"
def iprop(id, title, statement, over, text, why, mech, files=IS, state=None):
    prop(id, title, statement, over, text, why, files, mech, note=INOTE, state=state)
iprop("I01", "Every iSCSI request is answered exactly once, to the one who asked",
 "In the full feature phase every request is answered by exactly one PDU of the type RFC 7143 assigns to it (a SCSI command by its Data-In PDUs and exactly one status, in a SCSI Response or in the last Data-In), carrying the initiator task tag of the request; a NOP-Out with the reserved tag is not answered. Requests the target does not support, or does not support in this kind of session, get exactly one Reject with the reserved tag, a reason and the 48 bytes of the header they reject. A SCSI command is executed exactly once when it is complete, a bidirectional command never, and no well-formed request closes the connection, except a logout.",
 ["inputs", "histories"], SCR, "Tests use one well-behaved initiator with one command at a time.",
 [("dispatch", "pkg/port/iscsit/iscsid.go:rxHandler, scsiCommandHandler"), ("responses", "pkg/port/iscsit/conn.go:buildRespPackage")])
iprop("I02", "Every PDU the target sends is well-formed",
 "Every PDU the target sends has the opcode of a target PDU, a total AHS length of 0, a data segment length equal to the data that follows, and zero bytes padding it to a multiple of four. PDUs that end a request have the final bit set, those without data have an empty data segment, and NOP-In and Text Response carry the reserved target transfer tag. From the input exactly the header, the additional header segments and the padded data segment of each PDU are consumed, whatever their lengths, so that the next PDU is read from where it starts.",
 ["inputs", "histories"], SCR, "A single wrong length loses the stream; tests use few lengths, no additional headers and zero padding.",
 [("building", "pkg/port/iscsit/cmd.go:Bytes"), ("reading", "pkg/port/iscsit/iscsid.go:rxHandler")])
iprop("I03", "Data-In PDUs carry exactly the data read, in order",
 "The Data-In PDUs of a read command carry exactly the bytes the SCSI layer returned, up to the expected data transfer length, in order and without gap or overlap: buffer offsets continue and DataSN counts from 0. No segment is longer than the MaxRecvDataSegmentLength the initiator declared, no sequence longer than MaxBurstLength, only the last PDU may carry the status, and the last one is final.",
 ["inputs", "configurations"], SCR + "; declared segment lengths below, equal to and above the burst length", "Tests read amounts that fit one segment.",
 [("segmentation", "pkg/port/iscsit/iscsid.go:txHandler"), ("Data-In", "pkg/port/iscsit/cmd.go:dataInBytes")])
iprop("I04", "Status, sense data and residuals are those of the command",
 "The status byte sent for a command is the one the SCSI layer ended it with; CHECK CONDITION is sent in a SCSI Response with the sense data of that command preceded by its length, and other statuses carry no sense data. For a read that returns less than the expected data transfer length the underflow bit and the difference are sent, for one with more data than that the overflow bit and the difference, otherwise neither; never both bits.",
 ["inputs", "fault_sequences"], SCR, "Tests do not compare residuals and never see CHECK CONDITION with every length.",
 [("response", "pkg/port/iscsit/conn.go:buildRespPackage"), ("residual", "pkg/port/iscsit/cmd.go:scsiCmdRespBytes, dataInBytes")])
iprop("I05", "The SCSI layer gets exactly the command that was sent",
 "A command handed to the SCSI layer has the 16 CDB bytes, the operation code, the initiator task tag, the data direction and, for reads, the expected data transfer length of the SCSI Command PDU, and goes to the target and the target port the session logged in to. Its logical unit number is the one that peripheral device or flat space addressing encodes in the LUN field; any other LUN field is never taken for such a unit.",
 ["inputs", "configurations"], "every SCSI Command PDU, LUN and CDB, on two targets with a portal each", "Tests use LUN 0 and one target.",
 [("decoding", "pkg/port/iscsit/cmd.go:parseHeader"), ("hand-over", "pkg/port/iscsit/iscsid.go:scsiCommandHandler, iscsiExecTask")])
iprop("I06", "A write is executed with exactly the data sent for it",
 "A write command reaches the SCSI layer when all bytes of its expected data transfer length have arrived, not before, and once, and its buffer then holds every byte of immediate and solicited data at the offset it was sent for. Missing data is asked for by R2Ts with the command's tag and LUN, a usable target transfer tag, R2TSN counting from 0, the offset where the data ends that has arrived, and a length from 1 to MaxBurstLength that stays within the command. Data-Out for an unknown task or outside of what the command still expects never executes anything nor changes the data of a command.",
 ["inputs", "histories"], SCR + "; writes cut into bursts and segments in different ways, interleaved with other commands", "Tests write single blocks; bursts, interleaving and wrong offsets are not tried.",
 [("data-out", "pkg/port/iscsit/iscsid.go:scsiCommandHandler"), ("R2T", "pkg/port/iscsit/cmd.go:r2tRespBytes")])
iprop("I14", "Pings, aborts and logouts do what their answers say",
 "The NOP-In answering a ping returns its ping data, cut to the MaxRecvDataSegmentLength of the initiator. A task management function answered with 'function complete' has been carried out: an aborted write is neither executed nor answered later, and other writes go on; ABORT TASK is answered with 'task does not exist' exactly when there is none with that tag, and functions that are not implemented are refused. A logout is answered with response 0 and then closes the connection.",
 ["inputs", "histories"], SCR, "Tests send one ping with zeros and no task management functions while a command is pending.",
 [("NOP", "pkg/port/iscsit/iscsid.go:iscsiExecNoopOut"), ("task management", "pkg/port/iscsit/iscsid.go:iscsiExecTask"), ("logout", "pkg/port/iscsit/iscsid.go:iscsiExecLogout")])
iprop("I15", "StatSN, ExpCmdSN and MaxCmdSN count correctly",
 "StatSN increases by one with every PDU that carries a status, and is unchanged by Data-In PDUs without status and R2Ts, which carry the next one or none. ExpCmdSN is the CmdSN of the login plus the number of non-immediate commands received since, modulo 2^32, in every PDU sent, and MaxCmdSN is a constant window ahead of it.",
 ["inputs", "histories"], SCR + ", with the command sequence number about to wrap around", "Tests do not look at the numbers; initiators drop a session over one that is off.",
 [("numbering", "pkg/port/iscsit/iscsid.go:txHandler"), ("ExpCmdSN", "pkg/port/iscsit/session.go, pkg/port/iscsit/conn.go")])
iprop("I07", "Numbered requests are carried out exactly once, in CmdSN order",
 "Whatever the order in which numbered requests arrive within the command window, they are carried out and answered in the order of their CmdSN, each exactly once, and none before all those numbered before it have arrived. A request with a number that was used before, or that lies outside of the window, is ignored and changes nothing; immediate requests are carried out when they arrive and use up no number. Nothing that arrives in the window is lost, also when the numbers wrap around.",
 ["inputs", "histories", "schedules"], SCR + "; every distance between the CmdSN received and the one expected, and orders of arrival of up to 128 requests that fill the window", "Tests use an initiator on one connection that sends in order.",
 [("ordering", "pkg/port/iscsit/iscsid.go:rxHandler, inOrder, nextHeldCommand"), ("window", "pkg/port/iscsit/session.go")])
iprop("I08", "Only a valid login opens a session, to its own target only",
 "Before a login has succeeded on a connection nothing but a login request is carried out, and anything else ends the connection. A login succeeds only when it names the initiator and an existing target that is reached through one of the target's own portals, or asks for a discovery session. A session executes SCSI commands on the target it logged in to and on no other; a discovery session executes none and carries out no task management.",
 ["inputs", "histories", "configurations"], SCR + "; logins with every combination of stages, flags, names, portals, session types and TSIH", "Tests log in correctly before they do anything else.",
 [("login", "pkg/port/iscsit/iscsid.go:iscsiExecLogin"), ("binding", "pkg/port/iscsit/session.go:BindISCSISession"), ("gate", "pkg/port/iscsit/iscsid.go:rxHandler")])
iprop("I09", "Login negotiation answers every offer with a legal result",
 "In a login each key that the initiator offers is answered exactly once with the result RFC 7143 defines for the offer and some legal setting of the target (never a value outside of the offer), declared keys are not answered, unknown keys are answered NotUnderstood, and an offer that cannot be answered so is refused. A login response ends a stage only when the initiator asked to, names the stages of the request, and the ISID and a TSIH that is zero only while no session exists. What was agreed on (burst lengths, immediate data, segment lengths, digests) is kept to in the full feature phase.",
 ["inputs", "configurations"], "every negotiable key with values inside, at the edges and outside of its range, malformed and missing values, in each login stage, in combinations with the keys it interacts with", "Tests negotiate with one initiator's defaults.",
 [("negotiation", "pkg/port/iscsit/login.go:processLoginData, pkg/port/iscsit/iscsid.go:iscsiExecLogin"), ("keys", "pkg/port/iscsit/session.go:sessionKeys")])
iprop("I12", "Discovery lists every target with exactly its portals",
 "The answer to SendTargets=All in a discovery session lists every configured target once, each with all the addresses of its portals (or the cluster address, where one is set) with their portal group tags and with nothing that is not configured, as one complete text response.",
 ["configurations", "histories"], "configurations of none to three targets with none to two portal groups of none to two portals, shared and IPv6 portals, with and without a cluster address; asked once and repeatedly, immediate and numbered", "Tests discover one target with one portal.",
 [("SendTargets", "pkg/port/iscsit/iscsid.go:iscsiExecText")])
iprop("I10", "No PDU can crash the daemon or leave a connection hanging",
 "Whatever PDUs an initiator sends, at any point of the login, of a discovery or of a normal session, and whatever values it gives to the login keys, the daemon does not panic and no connection is left neither read from nor closed, with a lock held or in an endless loop. (Running out of memory under an expected data length is not meant.)",
 ["inputs", "histories"], "each of the 64 opcodes, immediate or not, with an arbitrary header, first, after the security stage, in a normal and in a discovery session, with and without data and additional headers, and after a command or an unfinished write; each of 32 login keys with an arbitrary value and with boundary values followed by a read and a write; text of up to 7 arbitrary bytes", "Tests use a correct initiator.",
 [("reception", "pkg/port/iscsit/iscsid.go:rxHandler, scsiCommandHandler"), ("parsing", "pkg/port/iscsit/cmd.go:parseHeader; pkg/util/util.go:ParseKVText"), ("login", "pkg/port/iscsit/login.go")])
iprop("I11", "A broken connection is closed, and affects nothing else",
 "When reading from or writing to a connection fails at any point, the connection is closed, nothing more is sent on it, no command of which a part is missing is carried out, and no lock stays held. Other sessions are served as before, and the initiator can log in again and finds a working target.",
 ["fault_sequences", "histories"], SCR + "; a read or write fails at each PDU of 25 scripts, and on one of two connections in each of six situations", "Tests never lose a connection.",
 [("reception", "pkg/port/iscsit/iscsid.go:rxHandler"), ("sending", "pkg/port/iscsit/iscsid.go:txHandler"), ("the end", "pkg/port/iscsit/iscsid.go:handler; pkg/port/iscsit/session.go:leaveSession")])
iprop("I13", "Sessions are independent, and nothing is left of one that ended",
 "Sessions of different initiators, ISIDs and kinds are independent of each other: commands, data, task tags, task management, command order, logouts and refused logins on one connection have no effect on another one. A login by an initiator port that has a session with the target ends that session first and closes its connection; open sessions have distinct TSIHs other than zero. When a connection is lost, refused or logs out, its connection is closed and nothing is kept of its session, so any number of sessions can follow.",
 ["histories", "schedules", "fault_sequences"], SCR + "; two and three connections whose requests alternate; one to three sessions one after the other that end in each of thirteen ways", "Tests use one connection after the other and never count what is left.",
 [("binding and release", "pkg/port/iscsit/session.go:BindISCSISession, ReInstatement, leaveSession"), ("connections", "pkg/port/iscsit/conn.go")])
LOCK = "static lockset and lock-order analysis over the SSA form and call graph, context-sensitive in access paths and locks held"
LNOTE = "Every access and lock operation that can be reached from any entry of the module is covered, for every schedule. Locks are matched to objects by access path, and by type for the objects a process has one of; a table is a field of a type, objects not yet published are exempt. Trusted: SSA construction, class hierarchy call graph, the assumption that unexported functions without callers in the module are not entered."
LF = ["pkg/scsi/target.go", "pkg/scsi/scsilumap.go", "pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/session.go"]
prop("L01", "Tables shared by connections are only used under their lock",
 "Connections run concurrently with each other and with management calls. Every table they share (targets, mapped logical units, I_T nexuses, reservations, sessions, connections, pending commands, session identifying handles, statistics, portals) has one lock that is held at every access and exclusively at every change, so that no schedule reads a half-made change, loses one, or crashes the daemon with a concurrent map access; a change is not decided by what was read before the lock was released. A record with a lock in it is not copied while it is in use.",
 ["schedules", "histories"], "every interleaving of any number of connections and management calls", "A race shows up in one schedule of millions; tests use one connection, and a concurrent map access ends the whole process.",
 LF, [("target service", "pkg/scsi/target.go"), ("LUN maps", "pkg/scsi/scsilumap.go"), ("sessions", "pkg/port/iscsit/session.go"), ("driver", "pkg/port/iscsit/iscsid.go")], technique=LOCK, note=LNOTE)
prop("L02", "No schedule deadlocks, and no initiator can block the others",
 "Every lock that is taken is released on every path, errors included, and none is taken again by its holder or released without being held. The order in which locks are taken never closes a cycle, so no schedule of connections and management calls deadlocks. No lock that others need is held while waiting for an initiator to send or receive, so one that is slow or stops blocks nobody else.",
 ["schedules", "fault_sequences"], "every interleaving of any number of connections and management calls, every error path", "A lock left held on an error path, or two locks in the other order, hang the daemon in schedules tests do not produce.",
 LF, [("locks", "pkg/scsi/target.go, pkg/scsi/scsilumap.go, pkg/port/iscsit/iscsid.go, pkg/port/iscsit/session.go"), ("waiting", "pkg/port/iscsit/conn.go:readData, write")], technique=LOCK, note=LNOTE)
