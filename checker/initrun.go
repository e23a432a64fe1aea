package main

import (
	"go/types"
	"strings"
)

// RunInits interprets the package initialisers so that package variables hold
// their initial values; variables that can change later are then forgotten.
func (m *Machine) RunInits() {
	st := m.Base
	for _, path := range sortedKeys(m.P.SSA) {
		if strings.HasPrefix(path, modPath+"/cmd") || path == modPath {
			continue
		}
		sp := m.P.SSA[path]
		if sp.Pkg.Name() == "main" {
			continue
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		rs := m.Run(st, f, nil)
		if len(rs) == 0 {
			m.incomplete("package initialiser of " + path + " has no normal outcome")
			continue
		}
		st = rs[0].St
	}
	// ... except for the checks that begin with the start of the program
	m.FullSt = st.fork()
	m.FullSt.ownMem()
	m.FullSt.freeze()
	m.FullSt.evs = nil
	m.FullSt.facts, m.FullSt.fset, m.FullSt.bitk, m.FullSt.fown = nil, map[*Term]bool{}, map[Bit]uint8{}, true
	m.FullSt.cnt, m.FullSt.cown, m.FullSt.held = map[string]int{}, true, nil
	// ... and registries (maps of constructors), for the checks that need one
	m.InitSt = st.fork()
	m.InitSt.ownMem()
	for g := range m.P.mutGlobals {
		if t, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Map); ok {
			if _, ok := under(t.Elem()).(*types.Signature); ok {
				continue
			}
		}
		delete(m.InitSt.mem, m.globalObj(g))
	}
	m.InitSt.freeze()
	m.InitSt.evs = nil
	m.InitSt.facts, m.InitSt.fset, m.InitSt.bitk, m.InitSt.fown = nil, map[*Term]bool{}, map[Bit]uint8{}, true
	m.InitSt.cnt, m.InitSt.cown, m.InitSt.held = map[string]int{}, true, nil
	st.ownMem()
	for g := range m.P.mutGlobals {
		delete(st.mem, m.globalObj(g))
	}
	st.freeze()
	st.evs = nil
	st.facts, st.fset, st.bitk, st.fown = nil, map[*Term]bool{}, map[Bit]uint8{}, true
	st.cnt, st.cown = map[string]int{}, true
	st.held = nil
	m.Base = st
	m.Panics = nil
	m.panSeen = map[string]bool{}
}
