package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
)

func main() {
	if pf := os.Getenv("CKPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1] != "-debug" {
		id := flag.String("property", "", "property id")
		repo := flag.String("repo", "/repo", "repository")
		verif := flag.String("verif", "/verif", "verification directory")
		tier := flag.String("tier", "quick", "quick or thorough")
		flag.Parse()
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(runCheck(*id, *repo, *verif, *tier, seed))
	}
	if len(os.Args) > 2 && os.Args[1] == "-debug" {
		p, err := Load(dbgRepo(), "", false)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if os.Args[2] == "locks" {
			debugLocks(p)
			return
		}
		m := NewMachine(p)
		m.RunInits()
		fmt.Println("init incompl", m.Incompl, "unmod", m.Unmod)
		if os.Args[2] == "scsi" {
			var ops []int
			if len(os.Args) > 3 && os.Args[3] != "all" {
				for _, s := range strings.Split(os.Args[3], ",") {
					n, _ := strconv.ParseInt(s, 0, 32)
					ops = append(ops, int(n))
				}
			} else {
				for i := 0; i < 256; i++ {
					ops = append(ops, i)
				}
			}
			dirs := "RW"
			if len(os.Args) > 4 {
				dirs = os.Args[4]
			}
			debugSCSI(p, m, ops, dirs, 9, len(os.Args) > 5)
			return
		}
		if os.Args[2] == "iscsi" {
			c := &Ctx{Repo: dbgRepo(), obs: map[string]*obRec{}, stats: map[string]int{}, funcs: map[string]bool{}, progs: map[string]*Program{}, inits: map[string]*Machine{}}
			switch os.Args[3] {
			case "crash":
				debugCrash(c)
			case "fail":
				debugFail(c)
			case "text":
				c.anyText(7)
				fmt.Println(c.stats)
			default:
				debugISCSI(c, os.Args[3])
			}
			for _, k := range c.order {
				if c.obs[k].bad {
					fmt.Println("BAD", k, c.obs[k].detail)
				}
			}
			return
		}
		fn := p.Func(os.Args[2])
		if fn == nil {
			for _, f := range p.all {
				fmt.Println(short(f.String()))
			}
			return
		}
		debugRun(m, fn)
	}
}

// dbgRepo is the repository the debugging commands look at.
func dbgRepo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
