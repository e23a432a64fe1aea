package main

import (
	"fmt"
	"go/types"
)

func isGoodStoreOp(e *Event) bool { return !evErr(e) }

// setCDB makes n big-endian bytes of the CDB concrete.
func (e *scsiEnv) setCDB(at, n int, v uint64) {
	for k := 0; k < n; k++ {
		e.m.Write(e.st, e.scb, Path{}.index(c64(int64(at+k))), Const(8, v>>(8*uint(n-1-k))&0xff))
	}
}

// setBuf gives a data buffer a concrete length.
func (e *scsiEnv) setOut(n int64) {
	if e.out == nil {
		return
	}
	l := Const(32, uint64(n))
	e.outLen = l
	e.m.SetField(e.st, e.out, Path{}, "Length", l)
	e.m.SetField(e.st, e.out, Path{}, "Buffer", Slice{Arr: e.outB, Off: c64(0), Len: c64(n), Cap: c64(n), Nil: litBool(false)})
}

func outByte(i int64) *Term { return Sym(8, fmt.Sprintf("out.data[%d]", i)) }

func outBE(i, n int64) *Term {
	var v []Bit
	for k := i + n - 1; k >= i; k-- {
		v = append(v, bitsOf(outByte(k))...)
	}
	for len(v) < 64 {
		v = append(v, Bit{})
	}
	return fromBits(v)
}

// tiled checks that the successful writes cover [from, from+n) block by block,
// in ascending order and exactly once, and that byte j of each block is want(j).
func (o *outcome) tiled(rule string, from *Term, blocks int64, want func(st *State, i *Term) string) {
	bs := int64(1) << o.e.shift
	pos := int64(0)
	for _, w := range o.evs("Write") {
		data, ok := w.Args[0].(Slice)
		off := o.term(w.Args[1])
		if !ok || off == nil || data.Arr == nil {
			o.ob(rule+"-known", false, "a store write of unknown shape")
			return
		}
		n := o.st.simp(data.Len)
		if n.IsConst() && n.C == 0 {
			continue
		}
		if !n.IsConst() || n.C%uint64(bs) != 0 {
			o.obf(rule+"-extent", false, "a write of %v bytes, the block size is %d", n, bs)
			return
		}
		o.obf(rule+"-extent", o.eq(off, Add(from, c64(pos))) && pos+int64(n.C) <= blocks*bs, "writes %d bytes at %v, expected the next block at %v, %d bytes", n.C, off, Add(from, c64(pos)), bs)
		anySeq++
		for b := int64(0); b < int64(n.C); b += bs {
			i := SymRange(64, fmt.Sprintf("any%d", anySeq), 0, uint64(bs-1))
			q := o.st.fork()
			q.Assume(LULt(i, c64(bs)))
			got := o.m.readIn(q, data.Arr, w.St.get(data.Arr), data.Path.index(Add(data.Off, Add(c64(b), i))), types.Typ[types.Uint8])
			o.obf(rule+"-data", valString(got) == want(q, i), "byte i of a block written is %s, want %s", valString(got), want(q, i))
		}
		pos += int64(n.C)
	}
	if o.good() {
		o.obf(rule+"-complete", pos == blocks*bs, "GOOD after writing %d of %d bytes", pos, blocks*bs)
	}
}

func writeSame(c *Ctx) {
	for _, blocks := range []int64{1, 2, 3, 5} {
		for _, outBlocks := range []int64{0, 1, 2} {
			blocks, outBlocks := blocks, outBlocks
			c.scsi(scsiRun{ops: opsOf("wsame"), dirs: "W", prep: func(e *scsiEnv) {
				if e.op == 0x41 {
					e.setCDB(7, 2, uint64(blocks))
				} else {
					e.setCDB(10, 4, uint64(blocks))
				}
				e.setOut(outBlocks << e.shift)
				e.m.SymUnroll = 12
			}}, func(o *outcome) {
				if o.errRet {
					o.ob("wsame-completes", false, "the service returns an error instead of a status")
					return
				}
				o.lba = o.spec.lba()
				from := o.bytes(o.lba)
				ndob := o.spec.op == 0x93 && o.st.Holds(LEq(And(cdb(1), Const(8, 1)), Const(8, 1)))
				if len(o.evs("Unmap")) > 0 {
					o.ob("wsame-discard", o.st.Holds(LEq(And(cdb(1), Const(8, 8)), Const(8, 8))), "discards blocks although UNMAP is 0")
					return
				}
				o.tiled("wsame", from, blocks, func(st *State, i *Term) string {
					if ndob {
						return valString(Const(8, 0))
					}
					v := o.m.readIn(o.e.st.fork(), o.e.outB, o.e.st.get(o.e.outB), Path{}.index(i), types.Typ[types.Uint8])
					return valString(v)
				})
				if o.good() {
					c.Count("wsame_good", 1)
					if !ndob {
						o.ob("wsame-needs-block", outBlocks > 0, "GOOD although no block was received")
					}
					return
				}
				if storeFailed(o) || (!ndob && outBlocks == 0) {
					return
				}
				o.cnt = c64(blocks)
				ls := append(append(o.readyLits(), unprotected()...), o.inRangeLits()...)
				ls = append(ls, LEq(And(cdb(1), Const(8, 0xfe)), Const(8, 0)))
				o.ob("wsame-not-refused", !consistent(o.st, ls...), "a WRITE SAME of existing blocks of a ready, unprotected unit is refused")
			})
		}
	}
	c.Ob("reachable", "GOOD WRITE SAME", c.stats["wsame_good"] > 0, nil)
}

// orWrite runs with blocks of eight bytes, so that the combination is followed
// byte by byte; nothing in the code depends on the block size otherwise.
func orWrite(c *Ctx) {
	for _, blocks := range []int64{1, 2} {
		blocks := blocks
		c.scsi(scsiRun{ops: opsOf("orwrite"), dirs: "W", shifts: []uint{3}, prep: func(e *scsiEnv) {
			e.setCDB(10, 4, uint64(blocks))
			e.setOut(blocks << e.shift)
			e.m.SymUnroll = 40
		}}, func(o *outcome) {
			if o.errRet {
				o.ob("orwrite-completes", false, "the service returns an error instead of a status")
				return
			}
			o.lba = o.spec.lba()
			from, n := o.bytes(o.lba), blocks<<o.e.shift
			pos := int64(0)
			for _, w := range o.evs("Write") {
				data, ok := w.Args[0].(Slice)
				off := o.term(w.Args[1])
				if !ok || off == nil || data.Arr == nil || !o.st.simp(data.Len).IsConst() {
					o.ob("orwrite-known", false, "a store write of unknown shape")
					return
				}
				k := int64(o.st.simp(data.Len).C)
				o.obf("orwrite-extent", o.eq(off, Add(from, c64(pos))) && pos+k <= n, "writes %d bytes at %v, want %d at %v", k, off, n, from)
				for j := int64(0); j < k; j++ {
					got := o.m.ByteAt(w.St, Slice{Arr: data.Arr, Path: data.Path, Off: data.Off, Len: data.Len}, j)
					// the byte read from the same place
					var old *Term
					for _, r := range o.evs("Read") {
						d, ok := r.Rets[0].(Slice)
						ro := o.term(r.Args[0])
						if ok && ro != nil && d.Arr != nil && !evErr(r) {
							at := o.st.simp(Add(Sub(off, ro), c64(j)))
							if at.IsConst() && at.C < uint64(n) {
								old = o.m.ByteAt(o.st, d, int64(at.C))
							}
						}
					}
					if got == nil || old == nil {
						o.obf("orwrite-data", false, "byte %d written has unknown value, or was not read before", j)
						return
					}
					o.obf("orwrite-data", o.eq(got, Or(old, outByte(pos+j))), "byte %d written is %v, want %v", pos+j, got, Or(old, outByte(pos+j)))
				}
				pos += k
			}
			if o.good() {
				c.Count("orwrite_good", 1)
				o.obf("orwrite-complete", pos == n, "GOOD after writing %d of %d bytes", pos, n)
			} else if !storeFailed(o) {
				o.cnt = c64(blocks)
				ls := append(append(append(o.readyLits(), unprotected()...), o.inRangeLits()...), o.noProt()...)
				o.ob("orwrite-not-refused", !consistent(o.st, ls...), "an ORWRITE of existing blocks of a ready, unprotected unit is refused")
			}
		})
	}
	c.Ob("reachable", "GOOD ORWRITE", c.stats["orwrite_good"] > 0, nil)
}

// unmap follows parameter lists of up to four descriptors (any bytes).
func unmap(c *Ctx) {
	lens := []int64{0, 7, 8, 23, 24, 40, 47, 56}
	if c.Tier == "thorough" {
		lens = append(lens, 4, 72, 80, 88)
	}
	for _, n := range lens {
		n := n
		c.scsi(scsiRun{ops: opsOf("unmap"), dirs: "W", prep: func(e *scsiEnv) {
			e.setOut(n)
			e.m.SymUnroll = 12
		}}, func(o *outcome) {
			ruleUnmap(o, n)
		})
	}
	// a long list, all of which is there and inside the unit
	long := int64(300)
	if c.Tier == "thorough" {
		long = 1200
	}
	ent := func(d int64) (uint64, uint64) { return uint64(3*d + 1), uint64(d%7 + 1) }
	c.scsi(scsiRun{ops: opsOf("unmap"), dirs: "W", shifts: []uint{9}, prep: func(e *scsiEnv) {
		n := 8 + 16*long
		e.setOut(n)
		e.m.Unroll = int(n)
		put := func(at, k int64, v uint64) {
			for i := int64(0); i < k; i++ {
				e.m.Write(e.st, e.outB, Path{}.index(c64(at+i)), Const(8, v>>(8*uint(k-1-i))&0xff))
			}
		}
		put(2, 2, uint64(n-8))
		for d := int64(0); d < long; d++ {
			lba, cnt := ent(d)
			put(8+16*d, 8, lba)
			put(16+16*d, 4, cnt)
		}
		e.st.Assume(LEq(cdbBE(7, 2), c64(n)))
		e.st.Assume(LULe(c64(1<<24), LShr(luSize(), int(e.shift))))
	}}, func(o *outcome) {
		if !o.good() {
			return
		}
		k := int64(0)
		for _, e := range o.evs("Unmap") {
			s, ok := e.Args[0].(Slice)
			if !ok || !o.st.simp(s.Len).IsConst() {
				o.ob("unmap-known", false, "a discard of unknown shape")
				return
			}
			for j := int64(0); j < int64(o.st.simp(s.Len).C); j++ {
				p := s.Path.index(Add(s.Off, c64(j)))
				off, _ := o.m.Field(e.St, s.Arr, p, "Offset").(*Term)
				tl, _ := o.m.Field(e.St, s.Arr, p, "TL").(*Term)
				lba, cnt := ent(k)
				k++
				if off == nil || tl == nil || k > long || !o.eq(off, c64(int64(lba<<9))) || !o.eq(tl, c64(int64(cnt<<9))) {
					o.obf("unmap-long-list", false, "descriptor %d of %d discards %v bytes from byte %v", k-1, long, tl, off)
					return
				}
			}
		}
		o.obf("unmap-long-list", k == long, "GOOD after %d of %d descriptors", k, long)
		c.Count("unmap_long", 1)
	})
	c.Ob("reachable", "UNMAP of two blocks", c.stats["unmap_2"] > 0, nil)
	c.Ob("reachable", "UNMAP of a long list", c.stats["unmap_long"] > 0, nil)
}

func ruleUnmap(o *outcome, n int64) {
	if o.errRet {
		o.ob("unmap-completes", false, "the service returns an error instead of a status")
		return
	}
	// descriptors in the list: limited by what was received, the parameter
	// list length of the CDB and the header's block descriptor data length
	lim := func(d int64) []Lit { // d complete descriptors are there
		if n < 8+16*d {
			return nil
		}
		return []Lit{LULe(c64(8+16*d), cdbBE(7, 2)), LULe(c64(16*d), outBE(2, 2))}
	}
	max := (n - 8) / 16
	if n < 8 {
		max = 0
	}
	if len(o.evs("Read", "Write")) > 0 {
		o.ob("unmap-only-discards", false, "an UNMAP reads or writes the store")
	}
	var got []*Event
	k := int64(0)
	for _, e := range o.evs("Unmap") {
		s, ok := e.Args[0].(Slice)
		if !ok || !o.st.simp(s.Len).IsConst() {
			o.ob("unmap-known", false, "a discard of unknown shape")
			return
		}
		got = append(got, e)
		for j := int64(0); j < int64(o.st.simp(s.Len).C); j++ {
			p := s.Path.index(Add(s.Off, c64(j)))
			off, _ := o.m.Field(e.St, s.Arr, p, "Offset").(*Term)
			tl, _ := o.m.Field(e.St, s.Arr, p, "TL").(*Term)
			base := 8 + 16*k
			k++
			if off == nil || tl == nil {
				o.ob("unmap-known", false, "a descriptor of unknown shape")
				return
			}
			ls := lim(k)
			there := ls != nil
			for _, l := range ls {
				there = there && o.st.Holds(l)
			}
			o.obf("unmap-descriptor-exists", there, "descriptor %d may not be part of the parameter list", k-1)
			if base+16 > n {
				return
			}
			lba, cnt := outBE(base, 8), outBE(base+8, 4)
			o.obf("unmap-in-unit", o.le(lba, o.cap()) && o.le(cnt, Sub(o.cap(), lba)), "descriptor %d is not known to lie inside the unit", k-1)
			q := *o
			q.st = o.st.fork()
			q.st.learn(lba, o.cap())
			o.obf("unmap-offset", q.eq(off, q.bytes(lba)), "descriptor %d discards from byte %v, want %v", k-1, off, q.bytes(lba))
			o.obf("unmap-length", q.eq(tl, q.bytes(cnt)), "descriptor %d discards %v bytes, want %v", k-1, tl, q.bytes(cnt))
		}
	}
	if o.good() {
		o.c.Count(fmt.Sprintf("unmap_%d", k), 1)
		// nothing is left out: a further descriptor is not part of the list
		if k < max {
			ls := append(lim(k+1), LNe(outBE(8+16*k+8, 4), c64(0)))
			o.obf("unmap-all", !consistent(o.st, ls...), "GOOD after %d descriptors although there may be another", k)
		}
		return
	}
	if storeFailed(o) {
		return
	}
	if o.senseIs(5, 0x21, 0) {
		o.ob("unmap-range-first", len(got) == 0, "blocks are discarded although a later descriptor is refused")
		// some descriptor must be out of range
		ls := []Lit{}
		for d := int64(0); d < max; d++ {
			lba, cnt := outBE(8+16*d, 8), outBE(8+16*d+8, 4)
			ls = append(ls, LULe(lba, o.cap()), LULe(cnt, Sub(o.cap(), lba)))
		}
		o.ob("unmap-not-refused", !consistent(o.st, ls...), "refused as out of range although all blocks exist")
		return
	}
	ls := append(o.readyLits(), unprotected()...)
	ls = append(ls, LEq(And(cdb(1), Const(8, 1)), Const(8, 0)))
	o.ob("unmap-not-refused", !consistent(o.st, ls...), "an UNMAP on a ready, unprotected unit is refused for no reason of range")
}

func init() {
	register(&Check{ID: "S16", Floor: 30,
		Rule: "UNMAP is interpreted with an arbitrary CDB and parameter lists of every shape up to the tier's number of descriptors (all bytes symbolic), and a list of 300 (thorough 1200) given descriptors. Descriptor i handed to the store equals descriptor i of the list (LBA and count times block size), is proved to be inside the parameter list length, the descriptor data length and the unit; a GOOD path leaves no complete, non-empty descriptor out; nothing is discarded on a refused path.",
		Run:  unmap})
	register(&Check{ID: "S17", Floor: 30,
		Rule: "WRITE SAME(10/16) is interpreted with an arbitrary CDB except for 1, 2, 3 or 5 blocks and 0, 1 or 2 blocks of data: the store writes tile exactly the addressed blocks, an arbitrary byte of each is that byte of the first data-out block (zero with NDOB). ORWRITE(16) is interpreted with 1 or 2 blocks of eight bytes: the writes tile exactly the addressed blocks with old OR new, byte by byte.",
		Run: func(c *Ctx) {
			writeSame(c)
			orWrite(c)
		}})
}
