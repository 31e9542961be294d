package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// implType finds the named type behind the (interface) value a constructor returns,
// through the helpers it returns the result of.
func implType(ctor *ssa.Function) *types.Named {
	seen := map[ssa.Value]bool{}
	var of func(f *ssa.Function, depth int) *types.Named
	var val func(v ssa.Value, depth int) *types.Named
	val = func(v ssa.Value, depth int) *types.Named {
		if seen[v] || depth > 6 {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return namedOf(x.X.Type())
		case *ssa.ChangeInterface:
			return val(x.X, depth)
		case *ssa.Extract:
			return val(x.Tuple, depth)
		case *ssa.UnOp: // a named result
			for _, r := range *x.X.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x.X {
					if n := val(st.Val, depth); n != nil {
						return n
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if n := val(e, depth); n != nil {
					return n
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				if n := namedOf(x.Type()); n != nil && !types.IsInterface(n) {
					return n
				}
				return of(g, depth+1)
			}
		}
		if n := namedOf(v.Type()); n != nil && !types.IsInterface(n) {
			return n
		}
		return nil
	}
	of = func(f *ssa.Function, depth int) *types.Named {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				if n := val(r.Results[0], depth); n != nil {
					return n
				}
			}
		}
		return nil
	}
	return of(ctor, 0)
}

// ownBody is the function with its function literals and the unexported functions of its
// package it uses, directly or through each other.
func ownBody(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function, depth int)
	add = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || depth > 4 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a, depth)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Parent() == nil && g.Pkg == fn.Pkg && g.Object() != nil && !g.Object().Exported() {
						add(g, depth+1)
					}
				}
			}
		}
	}
	add(fn, 0)
	return out
}

// fromParam reports whether v, in one of the functions of body, is on every way it can be
// reached within them exactly the parameter want.
func fromParam(body []*ssa.Function, v ssa.Value, want *ssa.Parameter, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if x == want {
			return true
		}
		f := x.Parent()
		i := -1
		for k, p := range f.Params {
			if p == x {
				i = k
			}
		}
		n := 0
		for _, g := range body {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if i < 0 || i >= len(ci.Common().Args) || !fromParam(body, ci.Common().Args[i], want, depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.FreeVar:
		f := x.Parent()
		i := -1
		for k, p := range f.FreeVars {
			if p == x {
				i = k
			}
		}
		n := 0
		for _, g := range body {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						n++
						if !fromParam(body, mc.Bindings[i], want, depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.UnOp:
		return fromParam(body, x.X, want, depth+1)
	case *ssa.Alloc: // a captured parameter
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				n++
				if !fromParam(body, st.Val, want, depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}
