package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type tokenPos = token.Pos

// Program is the type-checked repository in SSA form.
type Program struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	byPath     map[string]*ssa.Package
	fset       *token.FileSet
	root       string
	funcs      map[string]*ssa.Function // canonical name -> function
	typeByName map[string]types.Type
	genFiles   map[string]bool
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopBlocks
	mods       map[*ssa.Function]*modInfo
	globals    map[*Term]map[string]*Term
	initHeap   map[*Term]map[string]*Term
	errInit    map[string]*Term // what package variables that hold errors are made of
	oneofs     map[string][2]string
	panicSink  func(*State)
	inst       int
	loopSeq    int
	allFns     map[*ssa.Function]bool
	setTypes   map[string]bool
	made       map[types.Type]bool // concrete types the repository turns into interface values
	sole       map[string]types.Type
}

// soleImpl: a private interface of the repository of which every value the
// repository makes has the same type: a call on it runs that type's method.
func (p *Program) soleImpl(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Exported() || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || n.TypeParams().Len() > 0 {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || p.genFiles[p.fset.Position(n.Obj().Pos()).Filename] {
		return nil
	}
	if r, ok := p.sole[typeStr(t)]; ok {
		return r
	}
	if p.made == nil {
		p.made, p.sole = map[types.Type]bool{}, map[string]types.Type{}
		seen := map[string]bool{}
		for fn := range p.allFns {
			if !isRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if m, ok := i.(*ssa.MakeInterface); ok && !seen[typeStr(m.X.Type())] {
						seen[typeStr(m.X.Type())] = true
						p.made[m.X.Type()] = true
					}
				}
			}
		}
	}
	var r types.Type
	for ct := range p.made {
		if types.Implements(ct, it) {
			if r != nil {
				r = nil
				break
			}
			r = ct
		}
	}
	p.sole[typeStr(t)] = r
	return r
}

// libPkgs: libraries of which some functions are looked into.
var libPkgs = []string{"slices", "golang.org/x/exp/slices", "golang.org/x/exp/maps"}

var inlineLib = map[string]bool{"slices.Contains": true, "slices.Index": true, "golang.org/x/exp/slices.Contains": true, "golang.org/x/exp/slices.Index": true,
	"slices.ContainsFunc": true, "slices.IndexFunc": true, "golang.org/x/exp/slices.ContainsFunc": true, "golang.org/x/exp/slices.IndexFunc": true,
	"golang.org/x/exp/maps.Keys": true, "golang.org/x/exp/maps.Values": true}

func Load(root string) (*Program, error) {
	t0 := time.Now()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir: root, Env: env, ParseFile: parseUnrotated(root),
	}
	pkgs, err := packages.Load(cfg, append([]string{"./...", rcPath}, libPkgs...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		if slices.Contains(libPkgs, p.PkgPath) {
			continue
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	if os.Getenv("ZTIME") != "" {
		println("loaded", time.Since(t0).String())
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{}, fset: prog.Fset, root: root, funcs: map[string]*ssa.Function{}, typeByName: map[string]types.Type{}, genFiles: map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopBlocks{}, mods: map[*ssa.Function]*modInfo{}, globals: map[*Term]map[string]*Term{}, initHeap: map[*Term]map[string]*Term{}, errInit: map[string]*Term{}, oneofs: map[string][2]string{}}
	for _, pk := range prog.AllPackages() {
		p.byPath[shortPath(pk.Pkg.Path())] = pk
	}
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			fn := p.fset.Position(f.Pos()).Filename
			if ast.IsGenerated(f) || strings.HasSuffix(fn, ".pb.go") || strings.HasSuffix(fn, ".pb.validate.go") || strings.HasSuffix(fn, ".pb.gw.go") {
				p.genFiles[fn] = true
			}
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				t := tn.Type()
				p.typeByName[typeStr(t)] = t
				p.typeByName[typeStr(types.NewPointer(t))] = types.NewPointer(t)
			}
		}
	}
	if os.Getenv("ZTIME") != "" {
		println("ssa", time.Since(t0).String())
	}
	p.allFns = ssautil.AllFunctions(prog)
	for fn := range p.allFns {
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if isRepo(fn) || fnPkg(fn) == rcPath {
			if fn.Synthetic != "" && p.funcs[fname(fn)] != nil {
				continue
			}
			p.funcs[fname(fn)] = fn
		}
	}
	// generic methods that nothing in the repository uses
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() == 0 {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if fn := prog.FuncValue(nt.Method(i)); fn != nil && p.funcs[fname(fn)] == nil {
					p.funcs[fname(fn)] = fn
				}
			}
		}
	}
	if os.Getenv("ZTIME") != "" {
		println("globals", time.Since(t0).String())
	}
	p.initGlobals()
	if os.Getenv("ZTIME") != "" {
		println("done", time.Since(t0).String())
	}
	return p, nil
}

// Fn looks a function up by its canonical name.
func (p *Program) Fn(name string) *ssa.Function { return p.funcs[name] }

func (p *Program) generated(fn *ssa.Function) bool {
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if !o.Pos().IsValid() {
		return false
	}
	return p.genFiles[p.fset.Position(o.Pos()).Filename]
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f, err := filepath.Rel(p.root, q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopBlocks {
	m, ok := p.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopBlocks{}
		for _, u := range fn.Blocks {
			for _, h := range u.Succs {
				if h.Dominates(u) {
					lb := m[h]
					if lb == nil {
						lb = &loopBlocks{blocks: map[*ssa.BasicBlock]bool{h: true}}
						m[h] = lb
					}
					w := []*ssa.BasicBlock{u}
					for len(w) > 0 {
						x := w[len(w)-1]
						w = w[:len(w)-1]
						if lb.blocks[x] {
							continue
						}
						lb.blocks[x] = true
						w = append(w, x.Preds...)
					}
				}
			}
		}
		p.loops[fn] = m
	}
	return m[b]
}

// oneof finds the field and wrapper type of the variant f of a message.
func (p *Program) oneof(sty types.Type, f string) (string, types.Type) {
	s, ok := sty.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	w := p.typeByName["*"+typeStr(sty)+"_"+f]
	if w == nil {
		w = p.typeByName["*"+typeStr(sty)+"_"+f+"_"]
	}
	if w == nil {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if it, ok := s.Field(i).Type().Underlying().(*types.Interface); ok && types.Implements(w, it) && it.NumMethods() > 0 {
			return s.Field(i).Name(), w
		}
	}
	return "", nil
}

type modInfo struct {
	fields   map[string]bool
	maps     bool
	mapTypes map[string]bool
}

// modSet: the struct fields and map types written by fn or anything it calls in the repository.
func (p *Program) modSet(fn *ssa.Function) *modInfo {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &modInfo{fields: map[string]bool{}, mapTypes: map[string]bool{}}
	p.mods[fn] = m
	for f := range p.reachable(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						st := derefType(fa.X.Type())
						m.fields[typeStr(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				case *ssa.MapUpdate:
					m.maps = true
					m.mapTypes[typeStr(x.Map.Type())] = true
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						m.maps = true
						m.mapTypes[typeStr(x.Call.Args[0].Type())] = true
					}
				case *ssa.Defer:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						m.maps = true
						m.mapTypes[typeStr(x.Call.Args[0].Type())] = true
					}
				}
			}
		}
	}
	return m
}

// reachable: functions of the repository reachable from fn; interface calls
// are resolved to every implementation in the repository.
func (p *Program) reachable(fns ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	w := append([]*ssa.Function{}, fns...)
	for len(w) > 0 {
		f := w[len(w)-1]
		w = w[:len(w)-1]
		if f == nil || seen[f] {
			continue
		}
		if !isRepo(f) && len(f.Blocks) == 0 {
			continue
		}
		if !isRepo(f) && f.Synthetic == "" {
			continue
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			w = append(w, a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						w = append(w, fn)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					w = append(w, p.impls(c.Common())...)
				}
			}
		}
	}
	return seen
}

func (p *Program) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for n, t := range p.typeByName {
		if strings.HasPrefix(n, "rcdb") || strings.HasPrefix(n, "*rcdb") {
			continue
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
			continue
		}
		if pt, ok := t.(*types.Pointer); ok {
			if nt, ok := pt.Elem().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
		}
		if types.Implements(t, it) {
			if m := p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
				out = append(out, m)
			}
		}
	}
	return out
}

// globalOf: the package variable that an address or value is a part of.
func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

// initGlobals evaluates the initialisers of the package variables that are
// written nowhere else.
func (p *Program) initGlobals() {
	written := map[*ssa.Global]bool{}
	for fn := range p.allFns {
		if !isRepo(fn) || strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					if g := globalOf(s.Addr); g != nil {
						written[g] = true
					}
				case *ssa.MapUpdate:
					if g := globalOf(s.Map); g != nil {
						written[g] = true
					}
				case *ssa.UnOp:
					// a map that is handed on may be changed elsewhere
					g, ok := s.X.(*ssa.Global)
					if !ok {
						continue
					}
					if _, isMap := s.Type().Underlying().(*types.Map); !isMap {
						continue
					}
					for _, r := range *s.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							continue
						case *ssa.Call:
							if bi, ok := r.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								continue
							}
						}
						written[g] = true
					}
				}
			}
		}
	}
	// the interface package is mostly generated: only what its errors are is read
	if pk := p.byPath["api"]; pk != nil && pk.Func("init") != nil {
		for _, b := range pk.Func("init").Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !isErrorType(derefType(g.Type())) {
					continue
				}
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if o, ok := u.X.(*ssa.Global); ok {
						p.errInit["api."+g.Name()] = mk(OGlob, shortPath(o.Pkg.Pkg.Path()+"."+o.Name()), 0, nil, nil, nil, derefType(o.Type()))
					}
				}
			}
		}
	}
	for _, path := range []string{"kv_store", "relation_expression_parser", "policy", "relation_graph", "domain", "policy_definition", "types", "zanzi", "server"} {
		pk := p.byPath[path]
		if pk == nil {
			continue
		}
		ini := pk.Func("init")
		if ini == nil {
			continue
		}
		e := NewEng(p, Config{})
		e.quiet = true
		st := newState()
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
				a := e.val(&Frame{}, g)
				st.heap[a] = map[string]*Term{"": tFalse}
			}
		}
		tt := time.Now()
		outs, err := e.Run(ini, nil, st)
		if os.Getenv("ZTIME") != "" {
			println(path, time.Since(tt).String(), e.sites)
		}
		if err != nil || len(outs) != 1 {
			continue
		}
		for b, cells := range outs[0].St.heap {
			if b.Op == OGlob {
				g, _ := pk.Members[b.S[strings.LastIndexByte(b.S, '.')+1:]].(*ssa.Global)
				if g == nil || written[g] {
					continue
				}
				// an error value keeps its name
				if isErrorType(derefType(g.Type())) {
					if v := cells[""]; v != nil {
						p.errInit[b.S[1:]] = e.deepen(outs[0].St, v)
					}
					continue
				}
				// what a pointer leads to may change
				// except where the library makes something unchangeable
				if _, isP := derefType(g.Type()).Underlying().(*types.Pointer); isP {
					if v := cells[""]; v == nil || v.Op != OCall || v.S != "strings.NewReplacer" {
						continue
					}
				}
				nc := map[string]*Term{}
				for q, v := range cells {
					nc[q] = e.deepen(outs[0].St, v)
				}
				p.globals[b] = nc
			}
		}
		// variables captured by function values, if no function value assigns to them
		if !capturedWrites(p, pk) {
			for b, cells := range outs[0].St.heap {
				if b.Op == OObj {
					nc := map[string]*Term{}
					for q, v := range cells {
						nc[q] = e.deepen(outs[0].St, v)
					}
					p.initHeap[b] = nc
				}
			}
		}
	}
}

// capturedWrites: a function value of the package assigns to a captured variable.
func capturedWrites(p *Program, pk *ssa.Package) bool {
	for fn := range p.allFns {
		if fn.Parent() == nil || rootPkg(fn) != pk {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if _, ok := s.Addr.(*ssa.FreeVar); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func rootPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil && fn.Origin() != nil {
		return fn.Origin().Pkg
	}
	return fn.Pkg
}

// deepen makes a value of package initialisation independent of its memory.
func (e *Eng) deepen(st *State, v *Term) *Term {
	return v.subst(func(t *Term) *Term {
		if t.Op == OObj {
			if c, ok := st.heap[t]["#"]; ok {
				return e.deepen(st, c)
			}
			return nil
		}
		return nil
	})
}

// constInt is the value of an integer constant of the repository.
func (p *Program) constInt(name string) (int64, bool) {
	i := strings.LastIndexByte(name, '.')
	for _, pk := range p.pkgs {
		if shortPath(pk.PkgPath) != name[:i] {
			continue
		}
		if c, ok := pk.Types.Scope().Lookup(name[i+1:]).(*types.Const); ok {
			return constant.Int64Val(constant.ToInt(c.Val()))
		}
	}
	return 0, false
}
