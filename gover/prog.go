package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/bgokden/veri/"

type Prog struct {
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      map[string]*ssa.Package // by short path
	impls     map[*types.Interface][]types.Type
	fns       map[string]*ssa.Function
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*cfgLoop
	unrollFns map[string]bool
	gmaps     map[*ssa.Global]*globalMap
	specs     *Specs
}

type globalMap struct {
	keys []*T
	vals []Val
	typ  *types.Map
}

func short(s string) string { return strings.ReplaceAll(s, modPath, "") }

func loadProg() (*Prog, error) {
	cfg := &packages.Config{Dir: repoDir, Env: os.Environ(),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile}
	pk, err := packages.Load(cfg, "./data", "./data/gencoder", "./node", "./util", "./server", "./veriservice", "./state")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	P := &Prog{fset: prog.Fset, ssa: prog, pkgs: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*cfgLoop{}, unrollFns: map[string]bool{modPath + "data/gencoder": true}, gmaps: map[*ssa.Global]*globalMap{}}
	for _, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("package without SSA")
		}
		P.pkgs[short(p.Pkg.Path())] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			P.fns[short(fn.String())] = fn
		}
	}
	// methods that are not reachable are not in AllFunctions
	for _, p := range sp {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							P.fns[short(f.String())] = f
						}
					}
				}
			}
		}
	}
	P.scanGlobals(sp)
	return P, nil
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*cfgLoop {
	l, ok := p.loops[fn]
	if !ok {
		l = findLoops(fn)
		p.loops[fn] = l
	}
	return l
}

func (p *Prog) loopAt(b *ssa.BasicBlock) *cfgLoop { return p.loopsOf(b.Parent())[b] }

func inRepo(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return fn.Synthetic != "" && fn.Blocks != nil
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && fn.Blocks != nil
}

// scanGlobals finds package level maps that are filled in their initialiser and never changed.
func (p *Prog) scanGlobals(sp []*ssa.Package) {
	written := map[*ssa.Global]int{}
	for _, pkg := range sp {
		for _, m := range pkg.Members {
			_ = m
		}
	}
	all := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		all[f] = true
	}
	for _, pkg := range sp {
		if f := pkg.Func("init"); f != nil {
			all[f] = true
		}
	}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						written[g]++
						if f.Name() == "init" && f.Synthetic != "" {
							if mm, ok := x.Val.(*ssa.MakeMap); ok {
								p.gmaps[g] = collectMap(mm)
							}
						}
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							written[g] += 10
						}
					}
				}
			}
		}
	}
	for g, n := range written {
		if n > 1 {
			delete(p.gmaps, g)
		}
	}
	for g, m := range p.gmaps {
		if m == nil {
			delete(p.gmaps, g)
		}
	}
}

func collectMap(mm *ssa.MakeMap) *globalMap {
	gm := &globalMap{typ: mm.Type().Underlying().(*types.Map)}
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if !ok {
				return nil
			}
			var v Val
			val := x.Value
			if ct, ok := val.(*ssa.ChangeType); ok {
				val = ct.X
			}
			switch y := val.(type) {
			case *ssa.Function:
				v = funcRef(y)
			case *ssa.Const:
				v = constVal(y)
			default:
				return nil
			}
			kt, ok := constVal(k).(*T)
			if !ok {
				return nil
			}
			gm.keys = append(gm.keys, kt)
			gm.vals = append(gm.vals, v)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return gm
}

// globalConst: the value of a constant global, nil if unknown.
func (p *Prog) globalConst(ex *Exec, st *State, g *ssa.Global) Val {
	if _, ok := p.gmaps[g]; ok {
		return globalRef(g.String() + "#map")
	}
	return nil
}

func (p *Prog) gmapByRef(ref *T) *globalMap {
	for g, m := range p.gmaps {
		if globalRef(g.String()+"#map") == ref {
			return m
		}
	}
	return nil
}

func (p *Prog) lookupType(name string) types.Type {
	ptr := 0
	for strings.HasPrefix(name, "*") {
		ptr++
		name = name[1:]
	}
	var t types.Type
	if strings.HasPrefix(name, "[]") {
		e := p.lookupType(name[2:])
		if e == nil {
			return nil
		}
		t = types.NewSlice(e)
	} else if strings.HasPrefix(name, "chan ") {
		e := p.lookupType(name[5:])
		if e == nil {
			return nil
		}
		t = types.NewChan(types.SendRecv, e)
	} else if strings.HasPrefix(name, "map[") && strings.Contains(name, "]") {
		i := strings.IndexByte(name, ']')
		k, e := p.lookupType(name[4:i]), p.lookupType(name[i+1:])
		if k == nil || e == nil {
			return nil
		}
		t = types.NewMap(k, e)
	} else if i := strings.LastIndexByte(name, '.'); i >= 0 {
		pk, tn := name[:i], name[i+1:]
		if pk == "pb" {
			pk = "veriservice"
		}
		for sp, pkg := range p.pkgs {
			if sp == pk || strings.HasSuffix(sp, "/"+pk) {
				if o := pkg.Pkg.Scope().Lookup(tn); o != nil {
					t = o.Type()
				}
			}
			for _, imp := range pkg.Pkg.Imports() {
				if imp.Path() == pk || imp.Name() == pk {
					if o := imp.Scope().Lookup(tn); o != nil && t == nil {
						t = o.Type()
					}
				}
			}
		}
	} else {
		for _, b := range types.Typ {
			if b.Name() == name {
				t = b
			}
		}
		if name == "byte" {
			t = types.Typ[types.Uint8]
		}
		if name == "error" {
			t = types.Universe.Lookup("error").Type()
		}
		if name == "any" {
			t = types.NewInterfaceType(nil, nil)
		}
	}
	if t == nil {
		return nil
	}
	for ; ptr > 0; ptr-- {
		t = types.NewPointer(t)
	}
	return t
}
