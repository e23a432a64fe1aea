package main

import "fmt"

// cloneObj makes a second object with the contents of o.
func (m *Machine) cloneObj(st *State, o *Obj, name string) *Obj {
	n := m.newObj(name, o.T)
	st.set(n, st.get(o).clone(st.id))
	return n
}

// units maps LUNs to units; the unit for k uses the store "storage<k>". The
// placeholder for LUN 0 uses "storageP".
func (e *scsiEnv) units(luns ...uint64) map[uint64]*Obj {
	m, st := e.m, e.st
	out := map[uint64]*Obj{}
	dp, _ := m.Field(st, e.tgt, Path{}, "Devices").(MapV)
	os := st.mut(dp.Obj)
	os.ents = nil
	for _, l := range luns {
		o := m.cloneObj(st, e.lu, fmt.Sprintf("lu#%d", l))
		m.SetField(st, o, Path{}, "Storage", Iface{ID: fmt.Sprintf("storage%d", l), Nil: litBool(false)})
		st.mut(dp.Obj).ents = append(st.mut(dp.Obj).ents, MapEnt{Key: c64(int64(l)), Val: Ptr{Obj: o}})
		out[l] = o
	}
	p := m.cloneObj(st, e.lu, "lu#placeholder")
	m.SetField(st, p, Path{}, "Storage", Iface{ID: "storageP", Nil: litBool(false)})
	m.SetField(st, e.tgt, Path{}, "LUN0", Ptr{Obj: p})
	return out
}

func lunAddressing(c *Ctx) {
	lun := Sym(64, "lunkey")
	var ops []byte
	for _, o := range opTable {
		ops = append(ops, o.op)
	}
	ops = append(ops, 0x01, 0xc0)
	for _, cfg := range [][]uint64{{0, 5}, {5, 300}} {
		cfg := cfg
		var env *scsiEnv
		var us map[uint64]*Obj
		name := fmt.Sprintf("units %v", cfg)
		c.scsi(scsiRun{ops: ops, shifts: []uint{9}, prep: func(e *scsiEnv) {
			env, us = e, e.units(cfg...)
		}}, func(o *outcome) {
			o.name += ", " + name
			is := func(l uint64) bool { return o.st.Holds(LEq(lun, Const(64, l))) }
			for _, e := range o.bs {
				r, ok := e.Recv.(Iface)
				if !ok {
					o.ob("lun-store", false, "a store access whose unit is not known")
					continue
				}
				right := false
				for _, l := range cfg {
					right = right || (r.ID == fmt.Sprintf("storage%d", l) && is(l))
				}
				if r.ID == "storageP" {
					right = is(0) && cfg[0] != 0
				}
				o.obf("lun-store", right, "%s of the store of another unit (%s)", e.Name, r.ID)
			}
			for _, l := range cfg {
				if is(l) {
					c.Count(fmt.Sprintf("reached_%d", l), 1)
					continue
				}
				u := us[l]
				same := o.st.get(u).hash() == env.st.get(u).hash()
				o.obf("lun-state", same || !consistent(o.st, LNe(lun, Const(64, l))), "changes the state of LUN %d without being addressed to it", l)
			}
			// not mapped, not LUN 0
			ls := []Lit{LNe(lun, c64(0))}
			for _, l := range cfg {
				ls = append(ls, LNe(lun, Const(64, l)))
			}
			if consistent(o.st, ls...) {
				c.Count("unmapped", 1)
				o.obf("lun-unmapped", !o.errRet && o.senseIs(5, -1, -1) && len(o.bs) == 0, "a command to a LUN that is not mapped ends with status %d, %s, %d store accesses", o.status, o.senseStr(), len(o.bs))
			}
		})
		for _, l := range cfg {
			c.Ob("reachable", fmt.Sprintf("commands to LUN %d", l), c.stats[fmt.Sprintf("reached_%d", l)] > 0, nil)
		}
	}
	c.Ob("reachable", "commands to a LUN that is not mapped", c.stats["unmapped"] > 0, nil)
	var many, more []uint64
	for i := uint64(0); i < 260; i++ {
		many = append(many, i*3)
		more = append(more, i*4+1)
	}
	for _, cfg := range [][]uint64{{}, {0}, {0, 1, 5}, {1, 300}, {0, 255, 256, 16383}, many, more} {
		reportLuns(c, cfg)
	}
}

// lunField is the eight byte LUN structure of SAM (single level).
func lunField(l uint64) uint64 {
	if l <= 0xff {
		return l << 48
	}
	return (l | 0x4000) << 48
}

func reportLuns(c *Ctx, cfg []uint64) {
	name := fmt.Sprint(cfg)
	if len(cfg) > 9 {
		name = fmt.Sprintf("%d to %d (%d)", cfg[0], cfg[len(cfg)-1], len(cfg))
	}
	want := map[uint64]bool{0: true}
	for _, l := range cfg {
		want[lunField(l)] = true
	}
	c.scsi(scsiRun{ops: opsOf("reportluns"), dirs: "R", shifts: []uint{9}, prep: func(e *scsiEnv) {
		e.units(cfg...)
		e.m.Unroll = 2000
		// addressed to LUN 0 (always there)
		lp, _ := fieldPath(Path{}, e.cmd.T, "Lun")
		for i := int64(0); i < 8; i++ {
			e.m.Write(e.st, e.cmd, lp.index(c64(i)), Const(8, 0))
		}
	}}, func(o *outcome) {
		o.name += ", units " + name
		short := LULt(cdbBE(6, 4), c64(16))
		if !o.good() {
			o.obf("luns-refused", o.senseIs(5, 0x24, 0) && o.st.Holds(short), "REPORT LUNS ends with status %d, %s", o.status, o.senseStr())
			return
		}
		o.ob("luns-allocation", !consistent(o.st, short), "GOOD with an allocation length below 16")
		r := o.reply()
		if r == nil {
			return
		}
		n := int64(8 * len(want))
		r.wantBE("luns-length", 0, 4, Const(32, uint64(n)))
		got, q := r.whole()
		if q == nil || o.eq(Resize(r.n, 64, false), r.alloc) && !o.st.Holds(LULe(c64(8+n), r.alloc)) {
			return
		}
		q.obf("luns-size", got == 8+n, "returned %d bytes, want %d", got, 8+n)
		seen := map[uint64]bool{}
		for i := int64(8); i+8 <= got; i += 8 {
			var v uint64
			for k := int64(0); k < 8; k++ {
				b, ok := q.byteC(i + k)
				if !ok {
					q.ob("luns-entry", false, "an entry of unknown value")
					return
				}
				v = v<<8 | b
			}
			q.obf("luns-entry", want[v] && !seen[v], "lists %016xh", v)
			seen[v] = true
		}
		q.obf("luns-complete", len(seen) == len(want), "lists %d of %d units", len(seen), len(want))
		c.Count("reportluns_complete", 1)
	})
	c.Ob("reachable", "complete REPORT LUNS, units "+name, c.stats["reportluns_complete"] > 0, nil)
	c.stats["reportluns_complete_total"] += c.stats["reportluns_complete"]
	c.stats["reportluns_complete"] = 0
}

func init() {
	register(&Check{ID: "S09", Floor: 100,
		Rule: "Every command is interpreted with an arbitrary LUN against targets with two mapped units (LUNs {0,5} and {5,300}) and their own stores: a store access belongs to the unit the LUN is proved to equal, no other unit's record changes, and a path on which the LUN may be neither mapped nor 0 ends in ILLEGAL REQUEST without store access. REPORT LUNS is interpreted for seven sets of units, up to 260 of them: length field, size and the set of eight byte LUN structures are exactly those of the mapped units plus LUN 0.",
		Run:  lunAddressing})
}
