package main

// reach collects the objects a value refers to.
func (st *State) reach(v Val, seen map[*Obj]bool) {
	switch x := v.(type) {
	case Ptr:
		st.reachObj(x.Obj, seen)
	case Slice:
		st.reachObj(x.Arr, seen)
	case MapV:
		st.reachObj(x.Obj, seen)
	case ChanV:
		st.reachObj(x.Obj, seen)
	case Iface:
		st.reach(x.V, seen)
	case FuncV:
		for _, b := range x.Bind {
			st.reach(b, seen)
		}
	case StructV:
		for _, f := range x.F {
			st.reach(f, seen)
		}
	case ArrayV:
		for _, f := range x.E {
			st.reach(f, seen)
		}
	case TupleV:
		for _, f := range x {
			st.reach(f, seen)
		}
	case rangeIter:
		st.reach(x.v, seen)
	}
}

func (st *State) reachObj(o *Obj, seen map[*Obj]bool) {
	if o == nil || seen[o] {
		return
	}
	seen[o] = true
	s := st.mem[o] // frozen objects refer to frozen objects only
	if s == nil {
		return
	}
	for _, l := range s.layers {
		for _, v := range l.cells {
			st.reach(v, seen)
		}
		if l.sym != nil {
			st.reach(l.sym.Val, seen)
		}
		if l.reg != nil {
			// the copied elements may be references
			if l.reg.SrcSt != nil {
				for _, m := range l.reg.SrcSt.layers {
					for _, v := range m.cells {
						st.reach(v, seen)
					}
				}
			}
		}
	}
	for _, e := range s.ents {
		st.reach(e.Key, seen)
		st.reach(e.Val, seen)
	}
}

// drop forgets objects made since old (the heap at call entry) that the result
// and the surviving heap no longer refer to.
func (st *State) drop(ret Val, old map[*Obj]bool) {
	fresh := 0
	for o := range st.mem {
		if !old[o] && !st.stays(o) {
			fresh++
		}
	}
	if fresh == 0 {
		return
	}
	seen := map[*Obj]bool{}
	st.reach(ret, seen)
	for _, v := range st.ghost {
		st.reach(v, seen)
	}
	for o := range st.mem {
		if old[o] || st.stays(o) {
			st.reachObj(o, seen)
		}
	}
	st.ownMem()
	for o := range st.mem {
		if !seen[o] && !old[o] && !st.stays(o) {
			delete(st.mem, o)
		}
	}
}

// stays: the object is reachable without the heap made by the running call. An
// object of the frozen heap is, whether or not it has been written since.
func (st *State) stays(o *Obj) bool {
	return o.Sym || o.Ext || isGlobalObj(o) || st.base[o] != nil
}
