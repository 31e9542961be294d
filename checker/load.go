package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chainguard-dev/go-apk"

type Prog struct {
	Dir         string
	Fset        *token.FileSet
	Pkgs        []*packages.Package
	SSA         *ssa.Program
	ByPath      map[string]*ssa.Package
	Syntax      map[string]*packages.Package
	Funcs       []*ssa.Function // every function with a body declared in the module (incl. closures)
	byName      map[string]*ssa.Function
	live        map[*ssa.Function]*liveInfo
	loopHdr     map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	impls       map[*types.Func][]*ssa.Function
	mods        map[*ssa.Function]*modSet
	calleeCache map[*ssa.Function][]*ssa.Function
	callerCache map[*ssa.Function][]*ssa.Function
}

func loadProg(dir string) (*Prog, error) {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	goroot := "/opt/veriftools/go1.23.12/bin"
	out = append(out, "PATH="+goroot+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
	os.Setenv("PATH", goroot+":"+os.Getenv("PATH"))
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: out, Fset: fset, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type-checking %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Fset: fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}, Syntax: map[string]*packages.Package{}, byName: map[string]*ssa.Function{}, live: map[*ssa.Function]*liveInfo{}, loopHdr: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	prog.Build()
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPath[pkgs[i].PkgPath] = sp
		p.Syntax[pkgs[i].PkgPath] = pkgs[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && p.inModule(fn) {
			p.Funcs = append(p.Funcs, fn)
			p.byName[fnName(fn)] = fn
		}
	}
	// AllFunctions only reaches referenced ones; add all declared.
	have := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		have[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		if !have[f] {
			have[f] = true
			p.Funcs = append(p.Funcs, f)
			p.byName[fnName(f)] = f
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range pkgs {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].Pos(), p.Funcs[j].Pos(); a != b {
			return a < b
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	return p, nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return p.inModule(fn.Origin())
	}
	return false
}

// fnName is the qualified name of a function: pkgpath.F, (*pkgpath.T).M, pkgpath.F$1.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.String()
}

// objName is the qualified name of a called function object.
func objName(f *types.Func) string {
	if f == nil {
		return "?"
	}
	return f.FullName()
}

func (p *Prog) fn(name string) *ssa.Function { return p.byName[name] }

// apkFn resolves "pkg/apk.Foo" or "(*pkg/apk.T).Foo" relative to the module.
func (p *Prog) rel(name string) *ssa.Function {
	var full string
	switch {
	case strings.HasPrefix(name, "(*"):
		full = "(*" + modPath + "/" + name[2:]
	case strings.HasPrefix(name, "("):
		full = "(" + modPath + "/" + name[1:]
	default:
		full = modPath + "/" + name
	}
	return p.byName[full]
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest positioned instruction in the block
	b := in.Block()
	if b != nil {
		at := -1
		for i, x := range b.Instrs {
			if x == in {
				at = i
			}
		}
		for i := at; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// ---- liveness ----

type liveInfo struct {
	in  []map[ssa.Value]bool
	num map[ssa.Value]int
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (p *Prog) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := p.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveInfo{in: make([]map[ssa.Value]bool, n), num: map[ssa.Value]int{}}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	k := 0
	number := func(v ssa.Value) { l.num[v] = k; k++ }
	for _, v := range fn.Params {
		number(v)
	}
	for _, v := range fn.FreeVars {
		number(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				number(v)
			}
		}
	}
	// allocs of named results are needed at RunDefers/Recover; keep simple: treat normally.
	changed := true
	var ops []*ssa.Value
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					out[v] = true
				}
				// phi uses from this pred
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(ph.Edges[pi]) {
							out[ph.Edges[pi]] = true
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && tracked(*o) {
						out[*o] = true
					}
				}
			}
			for v := range out {
				if !l.in[bi][v] {
					l.in[bi][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = l
	return l
}

// isBackEdge reports whether from->to is a back edge (to dominates from).
func isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if isBackEdge(p, b) {
			return true
		}
	}
	return false
}

// implementations of an interface method within the module
func (p *Prog) implsOf(m *types.Func) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := p.impls[m]; ok {
		return r
	}
	sig := m.Type().(*types.Signature)
	var out []*ssa.Function
	if sig.Recv() != nil {
		if it, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
			for _, sp := range p.ByPath {
				for _, mem := range sp.Members {
					tn, ok := mem.(*ssa.Type)
					if !ok {
						continue
					}
					for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
						if types.IsInterface(T) || !types.Implements(T, it) {
							continue
						}
						sel := p.SSA.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
						if sel == nil {
							continue
						}
						f := p.SSA.MethodValue(sel)
						if f != nil && len(f.Blocks) > 0 {
							dup := false
							for _, o := range out {
								if o == f || o.Object() == f.Object() {
									dup = true
								}
							}
							if !dup {
								out = append(out, f)
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.impls[m] = out
	return out
}
