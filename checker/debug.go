package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func debugRun(m *Machine, fn *ssa.Function) {
	st := m.Base.fork()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, m.symVal(p.Name(), p.Type()))
	}
	rs := m.Run(st, fn, args)
	for i, r := range rs {
		fmt.Printf("--- result %d: %s\n", i, valString(r.Ret))
		fmt.Println("    facts:", strings.Join(r.St.FactStrings(), " && "))
		for _, e := range r.St.Events() {
			var a []string
			for _, x := range e.Args {
				a = append(a, valString(x))
			}
			fmt.Printf("    ev %s %s(%s) -> %s  %s\n", e.Kind, e.Name, strings.Join(a, ","), valString(TupleV(e.Rets)), e.Pos)
		}
	}
	for _, p := range m.Panics {
		fmt.Printf("PANIC %s %s at %s def=%v stack=%v facts=%v\n", p.Kind, p.Detail, p.Pos, p.Definite, p.Stack[0], p.Facts)
	}
	fmt.Println("incompl:", m.Incompl, "steps", m.Steps, "joins", m.Joins, "widen", m.Widen, "unmod", m.Unmod)
}

func debugSCSI(p *Program, m *Machine, ops []int, dirs string, shift uint, verbose bool) {
	b := newSCSIBase(p, m, shift)
	fmt.Println("base incompl", b.m.Incompl)
	for _, op := range ops {
		for _, d := range dirs {
			b.m.Panics, b.m.panSeen, b.m.Incompl = nil, map[string]bool{}, nil
			s0 := b.m.Steps
			e := b.command(byte(op), string(d))
			rs := e.run()
			fmt.Printf("== op %02x dir %c: %d results, %d panics, steps %d incompl %v\n", op, d, len(rs), len(b.m.Panics), b.m.Steps-s0, b.m.Incompl)
			if verbose {
				for i, r := range rs {
					fmt.Printf("--- result %d: %s\n", i, valString(r.Ret))
					fmt.Println("    Result:", valString(b.m.Field(r.St, e.cmd, Path{}, "Result")), " sense:", valString(b.m.Field(r.St, e.cmd, Path{}, "SenseBuffer")))
					fmt.Println("    facts:", strings.Join(r.St.FactStrings(), " && "))
					for _, e := range r.St.Events() {
						var a []string
						for _, x := range e.Args {
							a = append(a, valString(x))
						}
						fmt.Printf("    ev %s %s(%s) -> %s  %s\n", e.Kind, e.Name, strings.Join(a, ","), valString(TupleV(e.Rets)), e.Pos)
					}
				}
			}
			for _, p := range b.m.Panics {
				fmt.Printf("  PANIC %s %s at %s def=%v stack=%v facts=%v need %v\n", p.Kind, p.Detail, p.Pos, p.Definite, p.Stack[0], p.Facts, p.Lit)
			}
		}
	}
}
