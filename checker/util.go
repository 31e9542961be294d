package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func shortFn(n string) string {
	return strings.ReplaceAll(n, modPath+"/", "")
}

func callsIn(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// callees lists the functions f may call or create (static calls, closures, in-module
// implementations of interface methods, function values mentioned).
func (p *Prog) callees(f *ssa.Function) []*ssa.Function {
	if p.calleeCache == nil {
		p.calleeCache = map[*ssa.Function][]*ssa.Function{}
	}
	if r, ok := p.calleeCache[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	var ops []*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, g := range p.implsOf(c.Common().Method) {
					add(g)
				}
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if g, ok := (*o).(*ssa.Function); ok {
					add(g)
				}
			}
		}
	}
	p.calleeCache[f] = out
	return out
}

// reaches: f transitively calls a function whose name satisfies pred.
func (p *Prog) reachSet(pred func(string) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, c := range callsIn(f) {
			cm := c.Common()
			if cm.IsInvoke() {
				if pred(cm.Method.FullName()) {
					res[f] = true
				}
			} else if g := cm.StaticCallee(); g != nil && pred(calleeName(g)) {
				res[f] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if res[f] {
				continue
			}
			for _, g := range p.callees(f) {
				if res[g] {
					res[f] = true
					ch = true
					break
				}
			}
		}
	}
	return res
}

// relevantInline inlines functions that reach an interesting call, and small ones.
func relevantInline(p *Prog, interesting func(string) bool, small int) func(*ssa.Function) bool {
	rs := p.reachSet(interesting)
	return func(f *ssa.Function) bool {
		if rs[f] {
			return true
		}
		return instrCount(f) <= small
	}
}

// recursive reports whether f can reach itself through static calls and
// closures within the module.
func (p *Prog) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	work := p.callees(f)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if g == f {
			return true
		}
		if seen[g] {
			continue
		}
		seen[g] = true
		work = append(work, p.callees(g)...)
	}
	return false
}
