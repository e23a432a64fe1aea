package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: the units a configuration describes are the units that are served.

type cfgStorage struct {
	id    uint64
	path  string
	shift uint64
}

type cfgLUN struct {
	lun string // as in the configuration
	n   uint64
	dev uint64
}

type cfgScn struct {
	name     string
	storages []cfgStorage
	targets  map[string][]cfgLUN
	bad      string // why it has to be refused
}

func cfgScns() []cfgScn {
	d := func(id uint64) cfgStorage {
		return cfgStorage{id: id, path: fmt.Sprintf("file:/disk%d", id), shift: []uint64{9, 12, 0, 11}[id%4]}
	}
	l := func(n, dev uint64) cfgLUN { return cfgLUN{fmt.Sprint(n), n, dev} }
	none := map[string][]cfgLUN{}
	out := []cfgScn{
		{name: "nothing", targets: none},
		{name: "a storage without target", storages: []cfgStorage{d(1)}, targets: none},
		{name: "a target without units", targets: map[string][]cfgLUN{tgtA: {}}},
		{name: "one unit", storages: []cfgStorage{d(1000)}, targets: map[string][]cfgLUN{tgtA: {l(0, 1000)}}},
		{name: "one unit that is not LUN 0", storages: []cfgStorage{d(0)}, targets: map[string][]cfgLUN{tgtA: {l(300, 0)}}},
		{name: "two units", storages: []cfgStorage{d(7), d(1<<40 + 7)}, targets: map[string][]cfgLUN{tgtA: {l(1, 1<<40+7), l(2, 7)}}},
		{name: "units crossed over between two targets", storages: []cfgStorage{d(1), d(2)}, targets: map[string][]cfgLUN{tgtA: {l(0, 2), l(5, 1)}, tgtB: {l(0, 1), l(2, 2)}}},
		{name: "one storage behind two targets and two units", storages: []cfgStorage{d(9)}, targets: map[string][]cfgLUN{tgtA: {l(0, 9), l(1, 9)}, tgtB: {l(16383, 9)}}},
		{name: "two storages of one file", storages: []cfgStorage{{id: 1, path: "file:/disk"}, {id: 2, path: "file:/disk"}}, targets: map[string][]cfgLUN{tgtA: {l(0, 1), l(1, 2)}}},
		{name: "a path with colons", storages: []cfgStorage{{id: 1, path: "file:/a:b:c"}}, targets: map[string][]cfgLUN{tgtA: {l(0, 1)}}},
		{name: "a null store", storages: []cfgStorage{{id: 1, path: "null:"}}, targets: map[string][]cfgLUN{tgtA: {l(0, 1)}}},
		{name: "a unit on a device that is not there", storages: []cfgStorage{d(1)}, targets: map[string][]cfgLUN{tgtA: {l(0, 1), l(1, 2)}}, bad: "a unit is mapped to a device that is not configured"},
		{name: "only a device that is not there", targets: map[string][]cfgLUN{tgtB: {l(0, 0)}}, bad: "a unit is mapped to a device that is not configured"},
		{name: "a device twice", storages: []cfgStorage{d(1), d(2), d(1)}, targets: map[string][]cfgLUN{tgtA: {l(0, 1)}}, bad: "a device id is there twice"},
		{name: "a LUN that is no number", storages: []cfgStorage{d(1)}, targets: map[string][]cfgLUN{tgtA: {{lun: "one", dev: 1}}}, bad: "a LUN is no number"},
		{name: "a negative LUN", storages: []cfgStorage{d(1)}, targets: map[string][]cfgLUN{tgtA: {{lun: "-1", dev: 1}}}, bad: "a LUN is no number"},
		{name: "an unknown store", storages: []cfgStorage{{id: 1, path: "tape:/dev/st0"}}, targets: none, bad: "there is no such kind of store"},
		{name: "a path without store", storages: []cfgStorage{{id: 1, path: "/disk"}}, targets: none, bad: "there is no kind of store"},
		{name: "a path with an empty store", storages: []cfgStorage{{id: 1, path: ":/disk"}}, targets: none, bad: "there is no kind of store"},
	}
	for _, sh := range []uint64{0, 9, 10, 11, 12, 13, 16} {
		s := d(5)
		s.shift = sh
		out = append(out, cfgScn{name: fmt.Sprintf("a block shift of %d", sh), storages: []cfgStorage{s}, targets: map[string][]cfgLUN{tgtA: {l(0, 5)}}})
	}
	return out
}

type cfgEnv struct {
	c    *Ctx
	m    *Machine
	name string
}

func (e *cfgEnv) fn(name string) *ssa.Function {
	f := e.m.P.Func(name)
	if f == nil {
		panic(Anchor("function " + name))
	}
	return f
}

func (e *cfgEnv) run(st *State, name string, args ...Val) []Result {
	rs := e.m.Run(st, e.fn(name), args)
	e.c.Done(e.m, e.name)
	for _, p := range e.m.Panics {
		p := p
		e.c.Ob("config-no-panic", e.name, false, func() string { return p.Kind + " " + p.Detail + " at " + p.Pos })
	}
	e.m.Panics, e.m.panSeen = nil, map[string]bool{}
	return rs
}

func (e *cfgEnv) ob(rule, what string, ok bool, st *State, format string, a ...interface{}) {
	e.c.Ob(rule, e.name+", "+what, ok, func() string { return fmt.Sprintf(format, a...) + "\n" + evText(st.Events()) })
}

func bsAttr(id uint64, f string, i int) string { return fmt.Sprintf("storage%d.%s#%d", id, f, i) }

// storage is the configuration of a storage; what is not identity is symbolic.
func (e *cfgEnv) storage(st *State, arr *Obj, at Path, t types.Type, i int, s cfgStorage) {
	m := e.m
	set := func(f string, v Val) {
		p, ft := fieldPath(at, t, f)
		if ft == nil {
			panic(Anchor("BackendStorage." + f))
		}
		m.Write(st, arr, p, v)
	}
	set("DeviceID", Const(64, s.id))
	set("Path", known(s.path))
	set("Online", m.symVal(bsAttr(s.id, "online", i), types.Typ[types.Bool]))
	set("ThinProvisioning", m.symVal(bsAttr(s.id, "thin", i), types.Typ[types.Bool]))
	set("BlockShift", Const(64, s.shift))
}

func (e *cfgEnv) config(st *State, s cfgScn) *Obj {
	m := e.m
	cfg := m.newStruct(st, "config", "pkg/config.Config")
	_, tmT := fieldPath(Path{}, cfg.T, "ISCSITargets")
	tm := m.newObj("cfg.targets", tmT)
	tm.Map = true
	st.mut(tm)
	tT := under(tmT).(*types.Map).Elem()
	for _, name := range sortedKeys(s.targets) {
		_, lmT := fieldPath(Path{}, tT, "LUNs")
		lm := m.newObj("cfg.luns."+name, lmT)
		lm.Map = true
		st.mut(lm)
		for _, l := range s.targets[name] {
			st.mut(lm).ents = append(st.mut(lm).ents, MapEnt{Key: known(l.lun), Val: Const(64, l.dev)})
		}
		to := m.newObj("cfg.tgt."+name, tT)
		st.mut(to)
		m.SetField(st, to, Path{}, "LUNs", MapV{lm, litBool(false)})
		st.mut(tm).ents = append(st.mut(tm).ents, MapEnt{Key: known(name), Val: m.Read(st, to, Path{}, tT)})
	}
	m.SetField(st, cfg, Path{}, "ISCSITargets", MapV{tm, litBool(false)})
	_, slT := fieldPath(Path{}, cfg.T, "Storages")
	sT := under(slT).(*types.Slice).Elem()
	sa := m.newObj("cfg.storages", sT)
	sa.Arr = true
	st.mut(sa)
	for i, d := range s.storages {
		e.storage(st, sa, Path{}.index(c64(int64(i))), sT, i, d)
	}
	n := c64(int64(len(s.storages)))
	m.SetField(st, cfg, Path{}, "Storages", Slice{Arr: sa, Off: c64(0), Len: n, Cap: n, Nil: litBool(false)})
	return cfg
}

// lunMap is what a map of units holds, by LUN.
func (e *cfgEnv) lunMap(st *State, v Val, what string) (map[uint64]*Obj, bool) {
	out := map[uint64]*Obj{}
	mv, ok := v.(MapV)
	if !ok {
		e.ob("units", what, false, st, "the map of units is not known")
		return nil, false
	}
	if mv.Obj == nil {
		return out, true
	}
	for _, en := range st.get(mv.Obj).ents {
		k, ok := en.Key.(*Term)
		p, isP := en.Val.(Ptr)
		if !ok || !k.IsConst() || !isP {
			e.ob("units", what, false, st, "a unit of unknown number")
			return nil, false
		}
		if en.Del {
			delete(out, k.C)
			continue
		}
		out[k.C] = p.Obj
	}
	return out, true
}

// unit compares a unit with the configuration of its storage.
func (e *cfgEnv) unit(st *State, lu *Obj, i int, s cfgStorage, what string) {
	m := e.m
	term := func(f string) *Term { t, _ := m.Field(st, lu, Path{}, f).(*Term); return t }
	u := term("UUID")
	e.ob("unit", what+" device", u != nil && st.Holds(LEq(u, Const(64, s.id))), st, "the unit is of device %s, want %d", u, s.id)
	sh, want := term("BlockShift"), s.shift
	if want == 0 {
		want = 9 // not configured
	}
	e.ob("unit", what+" block size", sh != nil && st.Holds(LEq(sh, Const(64, want))), st, "the block shift is %s, configured %d", sh, s.shift)
	ap, at := fieldPath(Path{}, lu.T, "Attrs")
	for f, a := range map[string]string{"Online": "online", "ThinProvisioning": "thin"} {
		fp, ft := fieldPath(ap, at, f)
		if ft == nil {
			panic(Anchor("SCSILuPhyAttribute." + f))
		}
		got, want := m.Read(st, lu, fp, ft), m.symVal(bsAttr(s.id, a, i), types.Typ[types.Bool])
		g, ok1 := got.(Lit)
		w, ok2 := want.(Lit)
		same := ok1 && ok2
		if same {
			a := st.fork()
			b := st.fork()
			same = !(a.Assume(g) && a.Assume(w.Not())) && !(b.Assume(g.Not()) && b.Assume(w))
		}
		e.ob("unit", what+" "+f, same, st, "%s of the unit is not the configured one", f)
	}
	iv, _ := m.Field(st, lu, Path{}, "Storage").(Iface)
	if strings.HasPrefix(s.path, "null:") {
		e.ob("unit", what+" store", iv.T != nil && strings.Contains(iv.T.String(), "Null"), st, "the store is a %s", iv.T)
		return
	}
	h := m.findField(st, iv, func(t types.Type) bool { return t.String() == "*os.File" })
	path := strings.SplitN(s.path, ":", 2)[1]
	found := false
	for _, ev := range st.Events() {
		if ev.Name == "os.OpenFile" && !evErr(ev) && h != nil && sameHandle(h, ev.Rets[0]) {
			p, _ := ev.Args[0].(Str)
			found = p.Known && p.S == path
		}
	}
	e.ob("unit", what+" store", found, st, "the store of the unit has not opened %s", path)
}

// units compares the units of all targets with what they should be.
func (e *cfgEnv) units(st *State, s cfgScn, get string) {
	lus := map[uint64]*Obj{}
	names := append(sortedKeys(s.targets), "iqn.2016-09.com.gotgt.gostor:none")
	for _, name := range names {
		what := "units of " + name
		for _, r := range e.run(st.fork(), "pkg/scsi.GetTargetLUNMap", known(name)) {
			got, ok := e.lunMap(r.St, r.Ret, what)
			if !ok {
				continue
			}
			var want []uint64
			for _, l := range s.targets[name] {
				want = append(want, l.n)
				lu := got[l.n]
				e.ob("units", fmt.Sprintf("%s LUN %d", what, l.n), lu != nil, r.St, "LUN %d is not there", l.n)
				if lu == nil {
					continue
				}
				if old := lus[l.dev]; old != nil {
					e.ob("units", fmt.Sprintf("device %d", l.dev), old == lu, r.St, "device %d is behind two units that are not the same", l.dev)
				}
				lus[l.dev] = lu
				for i, d := range s.storages {
					if d.id == l.dev {
						e.unit(r.St, lu, i, d, fmt.Sprintf("%s LUN %d", what, l.n))
					}
				}
			}
			e.ob("units", what, len(got) == len(want), r.St, "%d units, configured %d", len(got), len(want))
			for _, l := range s.targets[name] {
				for _, g := range e.run(r.St.fork(), "pkg/scsi.GetLU", known(name), Const(64, l.n)) {
					p, _ := g.Ret.(Ptr)
					e.ob("units", fmt.Sprintf("%s LUN %d looked up", what, l.n), p.Obj != nil && p.Obj == got[l.n], r.St, "GetLU gives another unit")
				}
			}
		}
	}
	for i, a := range s.storages {
		for _, b := range s.storages[i+1:] {
			if x, y := lus[a.id], lus[b.id]; x != nil && y != nil && a.id != b.id {
				e.ob("units", "devices apart", x != y, st, "devices %d and %d are one unit", a.id, b.id)
			}
		}
	}
}

func configUnits(c *Ctx) {
	p := c.Program("", false)
	init := c.Init(p)
	for _, s := range cfgScns() {
		m := machineFrom(p, init)
		osModels(m)
		m.NonNil = func(n string) bool { return true }
		m.MaxStep = 60_000_000
		// what file it is and its size is arbitrary for the first storage only:
		// they have no part in this property
		for name, v := range map[string]*Term{"os.FileInfo.Mode": Const(32, 0), "os.FileInfo.Size": c64(1 << 20)} {
			v, name := v, name
			m.Invoke[name] = func(m *Machine, c *Call) []Result {
				if c.St.site(name) > 0 {
					return ret(c.St, v)
				}
				return ret(c.St, SymRange(v.W, name, 0, 1<<31-1))
			}
		}
		m.Base = init.FullSt
		e := &cfgEnv{c: c, m: m, name: s.name}
		st := m.Base.fork()
		st.evs = nil
		cfg := e.config(st, s)
		good, paths := 0, 0
		for _, r := range e.run(st, "pkg/scsi.InitSCSILUMap", Ptr{Obj: cfg}) {
			paths++
			ok, known := lastErr(r.St, r.Ret)
			e.ob("config", "result", known, r.St, "whether the configuration was taken is not known")
			if !known {
				continue
			}
			if !ok {
				osErr := false
				for _, ev := range r.St.Events() {
					osErr = osErr || evErr(ev)
				}
				e.ob("config", "taken", s.bad != "" || osErr, r.St, "a correct configuration is refused")
				continue
			}
			good++
			e.ob("config", "refused", s.bad == "", r.St, "the configuration is taken: %s", s.bad)
			if s.bad == "" {
				e.units(r.St, s, "")
				e.target(r.St, s)
			}
		}
		c.Ob("reachable", s.name, paths > 0 && (s.bad != "" || good > 0), nil)
	}
}

// target: a SCSI target has the units of its name, also after a change.
func (e *cfgEnv) target(st *State, s cfgScn) {
	m := e.m
	for _, name := range append(sortedKeys(s.targets), "iqn.2016-09.com.gotgt.gostor:none") {
		st := st.fork()
		svc := m.newStruct(st, "scsiService", "pkg/scsi.SCSITargetService")
		check := func(st *State, tgt *Obj, luns []cfgLUN, what string) {
			got, ok := e.lunMap(st, m.Field(st, tgt, Path{}, "Devices"), what)
			if !ok {
				return
			}
			e.ob("target", what, len(got) == len(luns), st, "the target has %d units, want %d", len(got), len(luns))
			for _, l := range luns {
				lu := got[l.n]
				var id *Term
				if lu != nil {
					id, _ = m.Field(st, lu, Path{}, "UUID").(*Term)
				}
				e.ob("target", fmt.Sprintf("%s LUN %d", what, l.n), id != nil && st.Holds(LEq(id, Const(64, l.dev))), st, "LUN %d is device %s, want %d", l.n, id, l.dev)
			}
		}
		for _, r := range e.run(st, "(*pkg/scsi.SCSITargetService).NewSCSITarget", Ptr{Obj: svc}, c64(0), known("iscsi"), known(name)) {
			tv, _ := r.Ret.(TupleV)
			if len(tv) != 2 {
				continue
			}
			tp, _ := tv[0].(Ptr)
			if ok, kn := lastErr(r.St, r.Ret); !kn || !ok || tp.Obj == nil {
				e.ob("target", "target "+name, false, r.St, "the target is not made")
				continue
			}
			luns := s.targets[name]
			check(r.St, tp.Obj, luns, "target "+name)
			lmT := m.P.mustType("pkg/scsi.LUNMapping")
			lm := func(st *State, n, dev uint64) Val {
				o := m.newObj("mapping", lmT)
				st.mut(o)
				m.SetField(st, o, Path{}, "TargetName", known(name))
				m.SetField(st, o, Path{}, "LUN", Const(64, n))
				m.SetField(st, o, Path{}, "DeviceID", Const(64, dev))
				return m.Read(st, o, Path{}, lmT)
			}
			reread := func(st *State, luns []cfgLUN, what string) {
				for _, q := range e.run(st, "(*pkg/scsi.SCSITargetService).RereadTargetLUNMap", Ptr{Obj: svc}) {
					check(q.St, tp.Obj, luns, what)
				}
			}
			if len(s.storages) > 0 {
				dev := s.storages[len(s.storages)-1].id
				st1 := r.St.fork()
				for _, q := range e.run(st1, "pkg/scsi.AddLUNMapping", lm(st1, 77, dev)) {
					ok, kn := lastErr(q.St, q.Ret)
					e.ob("mapping", "added to "+name, kn && ok, q.St, "a mapping to a device that is there is refused")
					if kn && ok {
						check(q.St.fork(), tp.Obj, luns, "target "+name+" before it looks again")
						reread(q.St, append(luns[:len(luns):len(luns)], cfgLUN{n: 77, dev: dev}), "target "+name+" with another unit")
					}
				}
			}
			st2 := r.St.fork()
			for _, q := range e.run(st2, "pkg/scsi.AddLUNMapping", lm(st2, 78, 987654)) {
				ok, kn := lastErr(q.St, q.Ret)
				e.ob("mapping", "refused at "+name, kn && !ok, q.St, "a mapping to a device that is not there is taken")
				reread(q.St, luns, "target "+name+" after a refused mapping")
			}
			if len(luns) > 0 {
				st3 := r.St.fork()
				for _, q := range e.run(st3, "pkg/scsi.DelLUNMapping", lm(st3, luns[0].n, luns[0].dev)) {
					reread(q.St, luns[1:], "target "+name+" without its first unit")
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C01", Floor: 200,
		Rule: "The constructor of the unit map is interpreted over configurations of every shape (0-3 storages, 0-2 targets, 0-2 units each, seven block sizes; flags and the outcome of every system call arbitrary): on every path that takes the configuration, each target's map holds exactly the configured LUNs, each the unit of its device, whose store has opened the configured path and whose block size and flags are the configured ones; a correct configuration is only refused when a system call failed, and an incorrect one never taken. A target built on it has the same units, and follows additions and removals of a mapping when it looks again; a mapping to a device that is not there is refused.",
		Run:  configUnits})
}
