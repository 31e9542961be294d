package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", checkC22, "objects reached through struct fields are built bottom-up, so delegating to a field is a descent", "the set of package names in the indexes and of entries in an archive is finite")
}

// fieldDerived: v is obtained from a field of the first parameter of its function (not the parameter itself).
func fieldDerived(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return rootedInParam(x.X, 0)
	case *ssa.Field:
		return rootedInParam(x.X, 0)
	case *ssa.UnOp:
		return fieldDerived(x.X, d+1)
	case *ssa.TypeAssert:
		return fieldDerived(x.X, d+1)
	case *ssa.ChangeInterface:
		return fieldDerived(x.X, d+1)
	case *ssa.MakeInterface:
		return fieldDerived(x.X, d+1)
	case *ssa.Extract:
		return fieldDerived(x.Tuple, d+1)
	case *ssa.Lookup:
		return fieldDerived(x.X, d+1)
	case *ssa.IndexAddr:
		return fieldDerived(x.X, d+1)
	case *ssa.Index:
		return fieldDerived(x.X, d+1)
	case *ssa.Next:
		return fieldDerived(x.Iter, d+1)
	case *ssa.Range:
		return fieldDerived(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !fieldDerived(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func rootedInParam(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		return rootedInParam(x.X, d+1)
	case *ssa.FieldAddr:
		return rootedInParam(x.X, d+1)
	case *ssa.Field:
		return rootedInParam(x.X, d+1)
	case *ssa.Alloc:
		// the spilled copy of a value receiver
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				return rootedInParam(st.Val, d+1)
			}
		}
	}
	return false
}

// callGraphNoDelegation: calls that are not delegations to a field of the receiver.
func (p *Prog) recEdges(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, isCall := in.(ssa.CallInstruction)
			if isCall && c.Common().IsInvoke() {
				if !fieldDerived(c.Common().Value, 0) {
					for _, g := range p.implsOf(c.Common().Method) {
						// an interface value of unknown origin: only a call on the receiver itself is self-recursion
						if v := c.Common().Value; sameObject(f, v) {
							out[g] = true
						}
					}
				}
			}
			ops = in.Operands(ops[:0])
			for i, o := range ops {
				g, ok := (*o).(*ssa.Function)
				if !ok || !p.inModule(g) {
					continue
				}
				if isCall && i == 0 && g.Signature.Recv() != nil && len(c.Common().Args) > 0 && fieldDerived(c.Common().Args[0], 0) && g == f {
					continue // the same method of a part
				}
				out[g] = true
			}
		}
	}
	return out
}

// sameObject: the interface value is the receiver of f.
func sameObject(f *ssa.Function, v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.Parameter:
			return len(f.Params) > 0 && f.Params[0] == x && f.Signature.Recv() != nil
		default:
			return false
		}
	}
}

func sccs(nodes []*ssa.Function, edges func(*ssa.Function) map[*ssa.Function]bool) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	in := map[*ssa.Function]bool{}
	for _, n := range nodes {
		in[n] = true
	}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		es := edges(f)
		for g := range es {
			if !in[g] {
				continue
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || es[f] {
				out = append(out, c)
			}
		}
	}
	for _, f := range nodes {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

func checkC22(c *Ctx) {
	c.Rule("every cycle of the call graph (static calls and closures; delegation to a field of the receiver is a descent) passes, on every path, a guard that bounds it: a counter compared with a fixed limit and moved towards it, an element found absent from a visited set and added to the set passed on, a strictly smaller argument, or a lookup in a map every entry of which leads from a directory to a different path below it")
	c.Rule("every loop that follows links compares a step counter with a fixed limit")
	c.Rule("an existing node is entered into a directory's children only after it was found not to be a directory, so directories form a tree")
	edges := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		edges[f] = c.P.recEdges(f)
	}
	removed := map[*ssa.Function]map[*ssa.Function]bool{}
	get := func(f *ssa.Function) map[*ssa.Function]bool {
		if removed[f] == nil {
			return edges[f]
		}
		return removed[f]
	}
	work := sccs(c.P.Funcs, get)
	for len(work) > 0 {
		comp := work[0]
		work = work[1:]
		in := map[*ssa.Function]bool{}
		for _, f := range comp {
			in[f] = true
		}
		// the head: called from outside the component, outermost first
		sort.Slice(comp, func(i, j int) bool { return comp[i].String() < comp[j].String() })
		var head *ssa.Function
		for _, f := range comp {
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			ext := false
			for _, g := range c.P.Funcs {
				if !in[g] && edges[g][f] {
					ext = true
				}
			}
			if head == nil || ext && !hasExt(c.P, edges, in, head) {
				head = f
			}
		}
		if head == nil {
			head = comp[0]
		}
		c.checkCycle(head, in, edges)
		var rest []*ssa.Function
		for _, f := range comp {
			if f != head {
				rest = append(rest, f)
			}
		}
		if len(rest) > 0 {
			work = append(work, sccs(rest, get)...)
		}
	}
	c.linkLoops()
	c.treeShape()
}

func hasExt(p *Prog, edges map[*ssa.Function]map[*ssa.Function]bool, in map[*ssa.Function]bool, f *ssa.Function) bool {
	for _, g := range p.Funcs {
		if !in[g] && edges[g][f] {
			return true
		}
	}
	return false
}

func (c *Ctx) checkCycle(f *ssa.Function, comp map[*ssa.Function]bool, edges map[*ssa.Function]map[*ssa.Function]bool) {
	e := NewEngine(c.P)
	e.Inline = func(g *ssa.Function) bool {
		if g == f || comp[g] {
			return g != f
		}
		if instrCount(g) > 60 || len(callsIn(g)) > 6 {
			return false
		}
		// helpers that test or build a set, or compare a counter
		for i := 0; i < g.Signature.Params().Len(); i++ {
			switch t := g.Signature.Params().At(i).Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				if g.Signature.Recv() == nil {
					return true
				}
			case *types.Basic:
				if t.Info()&types.IsInteger != 0 {
					return true
				}
			}
		}
		return false
	}
	var params []*Term
	name := shortFn(f.String())
	set := func(s *State, m, k, v *Term) {
		s.Mark("added", m, k)
		if b, ok := v.isBoolConst(); ok && !b {
			s.Unmark("added", m, k)
		}
	}
	e.KeepFact = func(t *Term) bool {
		return t.Op == "bin" && t.contains(func(x *Term) bool { return x.Op == "param" && isIntType(x.Typ) })
	}
	e.OnInstr = func(s *State, in ssa.Instruction) {
		if r, ok := in.(*ssa.Range); ok {
			s.Unmark("iterating", s.Val(r.X))
		}
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if t.Op == "extract" && t.Fn == "0" && t.Args[0].Op == "inst" && t.Args[0].Fn == "next" && len(t.Args[0].Args) > 0 {
			if m := t.Args[0].Args[0]; val {
				s.Mark("iterating", m)
			} else if !s.HasMark("iterating", m) {
				s.Mark("empty", m)
			}
		}
		if !val && (t.Op == "mapok" || t.Op == "mapget") {
			s.Mark("absent", t.Args[0], t.Args[1])
		}
		if a, b, ok := eqPair(t, val); ok {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[0].Op == "mapget" && p[1].isNil() {
					s.Mark("absent", p[0].Args[0], p[0].Args[1])
				}
			}
		}
		if !val && t.isCall("slices.Contains") {
			s.Mark("absentS", t.Args[0], stripConv(t.Args[1]))
		}
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
		set(s, m, k, v)
		if k.Op == "extract" && k.Fn == "1" && k.Args[0].Op == "inst" && k.Args[0].Fn == "next" {
			// an unconditional copy of every key
			if nx, ok := k.Args[0].Obj.(*ssa.Next); ok && len(in.Block().Preds) == 1 && in.Block().Preds[0] == nx.Block() {
				s.Mark("copyof", m, k.Args[0].Args[0])
			}
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		switch {
		case strings.HasSuffix(ev.Name, "maps.Clone"):
			s.Mark("copyof", ev.Final, ev.Args[0])
		case strings.HasSuffix(ev.Name, "maps.Copy"):
			s.Mark("copyof", ev.Args[0], ev.Args[1])
		}
	}
	n := 0
	ranked := map[int]bool{}
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Static != f {
			if ev.Static != nil && comp[ev.Static] && !ev.WillInline && !recActive(s, ev.Static) {
				c.Undecided("bounded-recursion", shortFn(ev.Static.String())+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "part of a call cycle that is not followed")
			}
			return
		}
		n++
		how := c.boundedBy(s, f, params, ev.Args, ranked)
		c.Check(how != "", "bounded-recursion", name+" called from "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the recursive call is not cut by a visited set, a depth limit or a strictly smaller argument; path: "+s.TraceString())
	}
	e.Run(f, func(s *State) {
		for _, p := range f.Params {
			params = append(params, s.Val(p))
		}
	})
	c.Engine("cycle through "+name, e)
	if n == 0 {
		c.OK("bounded-recursion", name, c.P.pos(f.Pos()), "no recursive call is reachable")
	}
	for j := range ranked {
		for _, h := range c.P.callersOf(f) {
			if comp[h] {
				continue
			}
			c.checkRank(outermost(h), f, j)
		}
	}
}

func recActive(s *State, g *ssa.Function) bool {
	for _, fr := range s.frames {
		if fr.fn == g {
			return true // an inner cycle, judged on its own
		}
	}
	return false
}

// boundedBy names the measure that decreases from the parameters to the arguments.
func (c *Ctx) boundedBy(s *State, f *ssa.Function, params, args []*Term, ranked map[int]bool) string {
	if len(params) != len(args) {
		return ""
	}
	fixed := func(t *Term) bool {
		if _, ok := t.intConst(); ok {
			return true
		}
		if isGlobalLoad(t) {
			return true
		}
		for i, p := range params {
			if t == p && args[i] == p {
				return true
			}
		}
		if t.Op == "load" && t.Args[0].Op == "faddr" && len(params) > 0 && args[0] == params[0] && addrRoot(t.Args[0]) == params[0] {
			return true
		}
		return false
	}
	for i, p := range params {
		a := stripConv(args[i])
		if a == p || a.Typ == nil || p.Typ == nil {
			continue
		}
		if b, ok := p.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			m, k := linear(a)
			if len(m) == 1 && m[p] == 1 && k != 0 {
				for t, v := range s.facts {
					if t.Op == "bin" && t.Fn == "<" && len(t.Args) == 2 {
						lo, hi := t.Args[0], t.Args[1]
						if !v {
							lo, hi = hi, lo
						}
						// lo < hi or lo <= hi
						ml, _ := linear(lo)
						mh, _ := linear(hi)
						if k > 0 && len(ml) == 1 && ml[p] == 1 && fixed(hi) {
							return "depth limit"
						}
						if k < 0 && len(mh) == 1 && mh[p] == 1 && fixed(lo) {
							return "countdown"
						}
					}
					if x, y, ok := neqPair(t, v); ok && k == -1 && (x == p && y.isZero() || y == p && x.isZero()) {
						return "countdown"
					}
				}
			}
		}
		if a.Op == "slice" && len(a.Args) > 1 && a.Args[0] == p {
			if lo, ok := a.Args[1].intConst(); ok && lo > 0 {
				return "shorter slice"
			}
		}
		if a.isCall("path/filepath.Dir") || a.isCall("path.Dir") {
			if stripConv(a.Args[0]) == p {
				for t, v := range s.facts {
					if x, y, ok := neqPair(t, v); ok && (x == p && y == a || y == p && x == a) {
						return "parent directory"
					}
				}
			}
		}
		// a part of the parameter
		if a != p && a.Op == "load" && partOf(a, p) {
			return "part of the argument"
		}
	}
	// visited set
	for _, m := range s.MarksOf("absent") {
		set, key := m.Args[0], m.Args[1]
		from := false
		for i, p := range params {
			if _, isMap := p.Typ.Underlying().(*types.Map); isMap {
				continue
			}
			if _, isPtr := p.Typ.Underlying().(*types.Pointer); isPtr && i == 0 && f.Signature.Recv() != nil {
				continue
			}
			if contains(key, p) || contains(key, args[i]) && args[i].Op != "const" {
				from = true
			}
		}
		if !from {
			continue
		}
		for _, am := range s.MarksOf("added") {
			to, k := am.Args[0], am.Args[1]
			if k != key || to != set && !s.HasMark("copyof", to, set) && !s.HasMark("empty", set) {
				continue
			}
			if to == set {
				// the same set: passed on, or reached through the same object or variable
				return "visited set"
			}
			for i := range params {
				if params[i] == set && stripConv(args[i]) == to {
					return "visited set"
				}
			}
		}
	}
	for _, m := range s.MarksOf("absentS") {
		for i, p := range params {
			a := stripConv(args[i])
			if p == m.Args[0] && a.Op == "pure" && a.Fn == "append" && a.Args[0] == p {
				for _, x := range a.Args[1:] {
					if stripConv(x) == m.Args[1] {
						return "visited list"
					}
				}
			}
		}
	}
	// rank through a map that is passed on unchanged
	for j, p := range params {
		if _, ok := p.Typ.Underlying().(*types.Map); !ok || args[j] != p {
			continue
		}
		for i, q := range params {
			a := stripConv(args[i])
			if a.Op == "mapget" && a.Args[0] == p && a != q {
				k := a.Args[1]
				if k.contains(func(x *Term) bool { return x == q }) {
					ranked[j] = true
					return "rank"
				}
			}
		}
	}
	return ""
}

func contains(t, x *Term) bool { return t.contains(func(y *Term) bool { return y == x }) }

func (t *Term) isZero() bool { n, ok := t.intConst(); return ok && n == 0 }

// partOf: a is read from inside the object p.
func partOf(a, p *Term) bool {
	for i := 0; i < 20; i++ {
		switch a.Op {
		case "load", "faddr", "iaddr", "field", "tassert", "extract":
			a = a.Args[0]
			if a == p {
				return i > 0
			}
		default:
			return false
		}
	}
	return false
}

// checkRank: in h, every entry of the map handed to f leads from a directory to a path directly below it.
func (c *Ctx) checkRank(h, f *ssa.Function, j int) {
	e := NewEngine(c.P)
	e.Inline = func(g *ssa.Function) bool { return g != f && (outermost(g) == h || instrCount(g) <= 80) }
	e.KeepFact = func(t *Term) bool { return true }
	pt := f.Params[j].Type()
	isDirOf := func(k, v *Term) bool {
		k, v = stripConv(k), stripConv(v)
		return (k.isCall("path/filepath.Dir") || k.isCall("path.Dir")) && stripConv(k.Args[0]) == v
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !types.Identical(mu.Map.Type(), pt) {
			return
		}
		site := "entry of the child map in " + enclosing(in)
		var vs []*Term
		if v.Op == "pure" && v.Fn == "append" {
			vs = v.Args[1:]
		} else if v.Op == "inst" && v.Fn == "append" {
			vs = v.Args
		} else {
			if s.IsNil(v) == 1 {
				return
			}
			c.Undecided("bounded-recursion", site, c.P.instrPos(in), "unknown children "+v.String())
			return
		}
		for _, x := range vs {
			ok := false
			if isDirOf(k, x) {
				for t, val := range s.facts {
					if a, b, is := neqPair(t, val); is && (a == k && b == x || a == x && b == k) {
						ok = true
					}
				}
			}
			c.Check(ok, "bounded-recursion", site, c.P.instrPos(in), "the child "+x.String()+" is entered under "+k.String()+" without having been found different from it, so a directory can become its own descendant; path: "+s.TraceString())
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Static == f {
			m := stripConv(ev.Args[j])
			ok := m.Op != "param" && m.Op != "load"
			c.Check(ok, "bounded-recursion", "child map handed to "+shortFn(f.String()), c.P.instrPos(ev.Instr), "the map of children is built elsewhere: "+m.String())
		}
	}
	e.Run(h, nil)
	c.Engine("child map in "+shortFn(h.String()), e)
	c.AtLeast("bounded-recursion", 1, "recursive calls")
}

// linkLoops: loops whose cursor is replaced by a link target.
func (c *Ctx) linkLoops() {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			if !isLoopHeader(b) {
				continue
			}
			loop := loopBlocks(b)
			follows := token.NoPos
			var what string
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					continue
				}
				if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
					if _, isPtr := ph.Type().Underlying().(*types.Pointer); !isPtr {
						continue
					}
				}
				for i, ed := range ph.Edges {
					if !loop[b.Preds[i]] {
						continue
					}
					if linkSource(ed, loop, ph, map[ssa.Value]bool{}) {
						follows = ph.Pos()
						what = ph.Comment
					}
				}
			}
			if what == "" {
				continue
			}
			ok := false
			for bb := range loop {
				iff, isIf := bb.Instrs[len(bb.Instrs)-1].(*ssa.If)
				if !isIf || loop[bb.Succs[0]] && loop[bb.Succs[1]] {
					continue
				}
				if cmp, isB := iff.Cond.(*ssa.BinOp); isB && boundedCounter(cmp, b, loop) {
					ok = true
				}
			}
			pos := c.P.pos(follows)
			c.Check(ok, "bounded-link-loop", "loop over "+what+" in "+shortFn(f.String()), pos, "the loop replaces "+what+" by a link target without counting steps against a limit, so a cycle of links never ends")
		}
	}
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if out[x] {
			continue
		}
		out[x] = true
		work = append(work, x.Preds...)
	}
	return out
}

// linkSource: v is computed in the loop from a link target.
func linkSource(v ssa.Value, loop map[*ssa.BasicBlock]bool, stop *ssa.Phi, seen map[ssa.Value]bool) bool {
	if seen[v] || v == ssa.Value(stop) {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !loop[in.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		n := fieldVar(x.X.Type(), x.Field)
		if n != nil && (strings.EqualFold(n.Name(), "linkTarget") || n.Name() == "Linkname") {
			return true
		}
		return false
	case *ssa.Field:
		n := fieldVar(x.X.Type(), x.Field)
		return n != nil && (strings.EqualFold(n.Name(), "linkTarget") || n.Name() == "Linkname")
	case *ssa.Call:
		n := staticName(x)
		if strings.HasSuffix(n, "Readlink") {
			return true
		}
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Readlink" {
			return true
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && linkSource(*o, loop, stop, seen) {
			return true
		}
	}
	return false
}

// boundedCounter: the comparison bounds an integer cursor of the loop that moves by a constant.
func boundedCounter(cmp *ssa.BinOp, h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	isCounter := func(v ssa.Value) bool {
		for i := 0; i < 3; i++ {
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if _, k := bo.Y.(*ssa.Const); k {
					v = bo.X
				}
			}
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || !loop[ph.Block()] {
			return false
		}
		for i, ed := range ph.Edges {
			if !loop[ph.Block().Preds[i]] {
				continue
			}
			bo, ok := ed.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(ph) {
				return false
			}
			k, isC := bo.Y.(*ssa.Const)
			if !isC || k.Value == nil || constant.Sign(k.Value) == 0 {
				return false
			}
		}
		return true
	}
	outside := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) == 1 {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				switch c.Call.Args[0].Type().Underlying().(type) {
				case *types.Slice, *types.Basic, *types.Array:
					v = c.Call.Args[0]
				}
			}
		}
		in, ok := v.(ssa.Instruction)
		return !ok || !loop[in.Block()]
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return isCounter(cmp.X) && outside(cmp.Y) || isCounter(cmp.Y) && outside(cmp.X)
	}
	return false
}

// treeShape: existing nodes never become children of a second directory unless they are not directories.
func (c *Ctx) treeShape() {
	isChildMap := func(t types.Type) *types.Named {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return nil
		}
		n := namedOf(m.Elem())
		if n == nil {
			return nil
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), t) {
				return n
			}
		}
		return nil
	}
	entries := map[*ssa.Function]bool{}
	holders := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		f = outermost(f)
		if token.IsExported(f.Name()) || d > 4 {
			entries[f] = true
			return
		}
		// a helper: judged in its callers
		n := 0
		for _, g := range c.P.callersOf(f) {
			if outermost(g) != f && !strings.HasPrefix(g.Synthetic, "wrapper") {
				n++
				up(g, d+1)
			}
		}
		if n == 0 {
			entries[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isChildMap(mu.Map.Type()) != nil {
					holders[outermost(f)] = true
				}
			}
		}
	}
	for f := range holders {
		up(f, 0)
	}
	sets := c.P.reachFns(holders)
	for f := range entries {
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool { return sets[g] || instrCount(g) <= 20 }
		e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || isChildMap(mu.Map.Type()) == nil {
				return
			}
			n := isChildMap(mu.Map.Type())
			site := "child set in " + enclosing(in)
			x := stripConv(v)
			if x.Op == "alloc" {
				c.OK("directories-form-a-tree", site, c.P.instrPos(in), "new node")
				return
			}
			ok = false
			for t, val := range s.facts {
				if !val && t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == x && isBoolType(t.Typ) && strings.Contains(strings.ToLower(t.Args[0].Fn+fieldName(t.Args[0])), "dir") {
					ok = true
				}
				if a, b, is := eqPair(t, val); is {
					for _, p := range [][2]*Term{{a, b}, {b, a}} {
						if p[1].isZero() && p[0].Op == "bin" && p[0].Fn == "&" && contains(p[0], x) {
							for _, q := range p[0].Args {
								if kk, isC := constOf(q); isC {
									if u, exact := constant.Uint64Val(kk); exact && u == 1<<31 {
										ok = true
									}
								}
							}
						}
					}
				}
				if !val && isMethod(t, "IsDir") && contains(t, x) {
					ok = true
				}
			}
			_ = n
			c.Check(ok, "directories-form-a-tree", site, c.P.instrPos(in), "an existing node "+x.String()+" becomes an entry of a directory without having been found not to be a directory: a directory can end up below itself, and walking it never ends; path: "+s.TraceString())
		}
		e.Run(f, nil)
		c.Engine("children in "+shortFn(f.String()), e)
	}
	c.AtLeast("directories-form-a-tree", 1, "places entering a node into a directory")
}

func fieldName(t *Term) string {
	if v, ok := t.Obj.(*types.Var); ok {
		return v.Name()
	}
	return ""
}

// reachFns: functions that reach one of the given functions.
func (p *Prog) reachFns(to map[*ssa.Function]bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for f := range to {
		res[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if res[f] {
				continue
			}
			for _, in := range callsIn(f) {
				if g := in.Common().StaticCallee(); g != nil && res[g] {
					res[f] = true
					ch = true
					break
				}
			}
		}
	}
	return res
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
