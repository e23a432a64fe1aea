package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/gostor/gotgt"

// Program is the type-checked SSA form of the repository's current tree.
type Program struct {
	Root        string
	Fset        *token.FileSet
	Prog        *ssa.Program
	Pkgs        []*packages.Package
	SSA         map[string]*ssa.Package
	mutGlobals  map[*ssa.Global]bool
	storeEvents func(Ptr) bool
	loadEvents  func(Ptr) bool
	all         []*ssa.Function
	Tags        string
}

func (p *Program) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// Load type-checks every package of the repository from source.  Function
// bodies of packages outside the repository are dropped.
func Load(root, tags string, cgo bool) (*Program, error) {
	root, err := filepath.Abs(root)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	env := os.Environ()
	if cgo {
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	env = append(env, "GOWORK=off", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOENV=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  root, Fset: fset, Env: env,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.AllErrors|parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, root+string(filepath.Separator)) && !strings.Contains(filename, "gotgt") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found under %s", root)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type-checking %s: %v", p.PkgPath, e)
		}
		if p.IllTyped && len(p.TypeErrors) > 0 {
			return nil, fmt.Errorf("ill-typed %s: %v", p.PkgPath, p.TypeErrors[0])
		}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	P := &Program{Root: root, Fset: fset, Prog: prog, Pkgs: pkgs, SSA: map[string]*ssa.Package{}, Tags: tags}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		if P.isRepo(p.PkgPath) {
			P.SSA[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	for _, p := range pkgs {
		if P.SSA[p.PkgPath] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
	}
	for _, k := range sortedKeys(P.SSA) {
		P.SSA[k].Build()
	}
	P.collect()
	P.findMutGlobals()
	return P, nil
}

func (p *Program) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.all = append(p.all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, path := range sortedKeys(p.SSA) {
		sp := p.SSA[path]
		for _, nm := range sortedKeys(sp.Members) {
			switch m := sp.Members[nm].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(p.Prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.SliceStable(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
}

// Func finds a function or method by its SSA name without the module prefix,
// e.g. "pkg/scsi.SBCReadWrite" or "(*pkg/scsi.SCSITargetService).AddCommandQueue".
func (p *Program) Func(name string) *ssa.Function {
	for _, f := range p.all {
		if strings.ReplaceAll(f.String(), modPath+"/", "") == name {
			return f
		}
	}
	return nil
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// Type finds a named type, e.g. "pkg/api.SCSICommand".
func (p *Program) Type(name string) types.Type {
	i := strings.LastIndex(name, ".")
	sp := p.SSA[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	if t := sp.Type(name[i+1:]); t != nil {
		return t.Type()
	}
	return nil
}

func (p *Program) Global(name string) *ssa.Global {
	i := strings.LastIndex(name, ".")
	sp := p.SSA[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	return sp.Var(name[i+1:])
}

func inInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	// package mock is a demonstration no daemon links; it flips feature knobs,
	// which are analysed at their default
	if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/mock" {
		return true
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// findMutGlobals marks package variables whose value (or reachable contents)
// can change after package initialisation.
func (p *Program) findMutGlobals() {
	p.mutGlobals = map[*ssa.Global]bool{}
	mutTypes := map[string]bool{}
	var mark func(g *ssa.Global, v ssa.Value, depth int)
	mark = func(g *ssa.Global, v ssa.Value, depth int) {
		if depth > 6 {
			p.mutGlobals[g] = true
			return
		}
		for _, r := range *v.Referrers() {
			if inInit(r.Parent()) {
				continue
			}
			switch t := r.(type) {
			case *ssa.Store:
				if t.Addr == v {
					p.mutGlobals[g] = true
				}
			case *ssa.MapUpdate:
				if t.Map == v {
					p.mutGlobals[g] = true
				}
			case *ssa.FieldAddr:
				mark(g, t, depth+1)
			case *ssa.IndexAddr:
				mark(g, t, depth+1)
			case *ssa.UnOp:
				switch under(t.Type()).(type) {
				case *types.Map, *types.Slice:
					mark(g, t, depth+1)
				}
			case ssa.CallInstruction:
				c := t.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") && len(c.Args) > 0 && c.Args[0] == v {
						p.mutGlobals[g] = true
					}
					continue
				}
				if _, ok := under(v.Type()).(*types.Pointer); ok {
					p.mutGlobals[g] = true // address escapes
				}
			case *ssa.Slice:
				mark(g, t, depth+1)
			}
		}
	}
	// ssa.Global has no referrers: index operands by hand
	uses := map[*ssa.Global][]ssa.Instruction{}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						uses[g] = append(uses[g], in)
					}
				}
				if s, ok := in.(*ssa.Store); ok && !inInit(f) {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							mutTypes[fa.X.Type().String()] = true
						}
					}
				}
			}
		}
	}
	for g, ins := range uses {
		for _, r := range ins {
			if inInit(r.Parent()) {
				continue
			}
			switch t := r.(type) {
			case *ssa.Store:
				if t.Addr == ssa.Value(g) {
					p.mutGlobals[g] = true
				}
			case *ssa.FieldAddr:
				mark(g, t, 1)
			case *ssa.IndexAddr:
				mark(g, t, 1)
			case *ssa.UnOp:
				switch u := under(t.Type()).(type) {
				case *types.Map:
					mark(g, t, 1)
					if hasMutPtr(u.Elem(), mutTypes, 0) {
						p.mutGlobals[g] = true
					}
				case *types.Slice:
					mark(g, t, 1)
					if hasMutPtr(u.Elem(), mutTypes, 0) {
						p.mutGlobals[g] = true
					}
				default:
					if hasMutPtr(t.Type(), mutTypes, 0) {
						p.mutGlobals[g] = true
					}
				}
			default:
				p.mutGlobals[g] = true
			}
		}
	}
}

func hasMutPtr(t types.Type, mut map[string]bool, d int) bool {
	if d > 4 {
		return true
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		return mut[t.String()] || hasMutPtr(u.Elem(), mut, d+1)
	case *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasMutPtr(u.Field(i).Type(), mut, d+1) {
				return true
			}
		}
	case *types.Slice:
		return hasMutPtr(u.Elem(), mut, d+1)
	case *types.Array:
		return hasMutPtr(u.Elem(), mut, d+1)
	}
	return false
}

// constInt is the value of a named integer constant.
func (p *Program) constInt(name string) (int64, bool) {
	i := strings.LastIndex(name, ".")
	for _, pk := range p.SSA {
		if short(pk.Pkg.Path()) != name[:i] {
			continue
		}
		if c, ok := pk.Members[name[i+1:]].(*ssa.NamedConst); ok && c.Value != nil {
			return c.Value.Int64(), true
		}
	}
	return 0, false
}
