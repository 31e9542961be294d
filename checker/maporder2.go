package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- slices filled in unspecified order

// unordered follows the slice v, whose elements are in unspecified order from birth (an instruction or a
// loop) on, to every use that depends on the order, and requires a sort on the way.
func (m *morder) unordered(f *ssa.Function, v ssa.Value, r *region, birth ssa.Instruction, construct string) {
	if al, ok := v.(*ssa.Alloc); ok {
		m.unorderedCell(f, al, r, birth, construct, nil)
		return
	}
	m.follow(f, []ssa.Value{v}, r, birth, construct)
}

func (m *morder) unorderedCell(f *ssa.Function, al *ssa.Alloc, r *region, birth ssa.Instruction, construct string, writer *ssa.Function) {
	if al.Parent() != f {
		m.c.Bad("unordered-slice", construct, m.p.instrPos(birth), "a variable of the enclosing function is filled in unspecified order")
		return
	}
	var vs []ssa.Value
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp:
			vs = append(vs, x)
		case *ssa.MakeClosure:
			if x.Fn == ssa.Value(writer) || onlySortArg(x) {
				continue
			}
			i := -1
			for k, b := range x.Bindings {
				if b == ssa.Value(al) {
					i = k
				}
			}
			g := x.Fn.(*ssa.Function)
			for _, uu := range *g.FreeVars[i].Referrers() {
				if ld, ok := uu.(*ssa.UnOp); ok {
					m.follow(g, []ssa.Value{ld}, nil, nil, construct)
				}
			}
		}
	}
	m.follow(f, vs, r, birth, construct)
}

// onlySortArg: the closure is only used as the comparator of a sort.
func onlySortArg(mc *ssa.MakeClosure) bool {
	for _, u := range *mc.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		n := calleeFull(c)
		if !strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "slices.") && !strings.HasPrefix(n, "golang.org/x/exp/slices.") {
			return false
		}
	}
	return true
}

func trimX(n string) string { return strings.TrimPrefix(n, "golang.org/x/exp/") }

// sortCall: the instruction sorts its first argument; total says whether by a total order.
func (m *morder) sortCall(in ssa.Instruction) (arg ssa.Value, isSort bool, total bool, why string) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false, false, ""
	}
	n := trimX(calleeFull(in))
	cm := c.Common()
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return cm.Args[0], true, true, ""
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		g, mc := closureFn(cm.Args[1])
		if g == nil {
			return cm.Args[0], true, false, "the comparator is not known"
		}
		ok, why := m.totalCmp(g, mc)
		return cm.Args[0], true, ok, why
	case "sort.Sort", "sort.Stable":
		if mi, ok := cm.Args[0].(*ssa.MakeInterface); ok {
			if isNamed(mi.X.Type(), "sort.StringSlice") {
				return mi.X, true, true, ""
			}
			sel := m.p.SSA.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less")
			if nt := namedOf(mi.X.Type()); nt != nil {
				sel = m.p.SSA.MethodSets.MethodSet(mi.X.Type()).Lookup(nt.Obj().Pkg(), "Less")
			}
			if sel != nil {
				if less := m.p.SSA.MethodValue(sel); less != nil && len(less.Blocks) > 0 {
					ok, why := m.totalCmp(less, nil)
					return mi.X, true, ok, why
				}
			}
			return mi.X, true, false, "the comparator is not known"
		}
	}
	// a helper that sorts its argument first
	if g := cm.StaticCallee(); g != nil && m.p.inModule(g) && len(g.Blocks) > 0 {
		for i, p := range g.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); !ok || i >= len(cm.Args) {
				continue
			}
			for _, in2 := range g.Blocks[0].Instrs {
				if in2 == in {
					break
				}
				if cc, ok := in2.(*ssa.Call); ok && cc.Call.StaticCallee() != g {
					if a, s, t, _ := m.sortCall(cc); s && t && (stripSlice(a) == ssa.Value(p) || spillOf(stripSlice(a)) == ssa.Value(p)) {
						return cm.Args[i], true, true, ""
					}
				}
			}
		}
	}
	return nil, false, false, ""
}

// spillOf: the parameter a captured variable was initialised with, when nothing else is assigned to it.
func spillOf(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var val ssa.Value
	for _, u := range *al.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if val != nil {
				return v
			}
			val = st.Val
		}
	}
	if val == nil {
		return v
	}
	return val
}

func stripSlice(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			if x.Low == nil && x.High == nil {
				v = x.X
				continue
			}
			return v
		default:
			return v
		}
	}
}

var identPath = regexp.MustCompile(`(?i)(name|path|key|url|uri|id|file|dir)$`)

// totalCmp: some comparison in the comparator is between the same identifying text or number of both elements.
func (m *morder) totalCmp(g *ssa.Function, mc *ssa.MakeClosure) (bool, string) {
	why := "the comparator does not compare an identifying attribute of the elements (their value, name, path, key or identifier)"
	var visit func(h *ssa.Function, d int) bool
	pair := func(a, b ssa.Value) bool {
		pa, oa := elemPath(a, 0)
		pb, ob := elemPath(b, 0)
		if !oa || !ob || pa != pb {
			return false
		}
		if bt, ok := a.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsString|types.IsInteger) == 0 {
			return false
		}
		return pa == "" || identPath.MatchString(pa)
	}
	visit = func(h *ssa.Function, d int) bool {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if pair(x.X, x.Y) {
							return true
						}
					}
				case *ssa.Call:
					n := trimX(calleeFull(x))
					if (n == "cmp.Compare" || n == "strings.Compare" || n == "cmp.Less") && len(x.Call.Args) == 2 && pair(x.Call.Args[0], x.Call.Args[1]) {
						return true
					}
				}
			}
		}
		return false
	}
	if strings.HasPrefix(trimX(fnName(g)), "strings.Compare") || strings.HasPrefix(trimX(fnName(g)), "cmp.Compare") {
		return true, ""
	}
	if visit(g, 0) {
		return true, ""
	}
	return false, why
}

// elemPath: how v is read from an element of the slice being sorted.
func elemPath(v ssa.Value, d int) (string, bool) {
	if d > 20 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Parent().Signature.Params().Len() == 2 {
			// an index, not an element; reached only through IndexAddr
			return "", true
		}
		return "", true
	case *ssa.Alloc:
		// a spilled parameter
		for _, u := range *x.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == v {
				return elemPath(st.Val, d+1)
			}
		}
		return "", false
	case *ssa.IndexAddr:
		if _, ok := x.Index.(*ssa.Parameter); ok {
			return "", true
		}
		return "", false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return elemPath(x.X, d+1)
		}
	case *ssa.FieldAddr:
		p, ok := elemPath(x.X, d+1)
		if n := fieldVar(x.X.Type(), x.Field); n != nil && ok {
			return p + "." + n.Name(), true
		}
	case *ssa.Field:
		p, ok := elemPath(x.X, d+1)
		if n := fieldVar(x.X.Type(), x.Field); n != nil && ok {
			return p + "." + n.Name(), true
		}
	case *ssa.ChangeType:
		return elemPath(x.X, d+1)
	case *ssa.MakeInterface:
		return elemPath(x.X, d+1)
	case *ssa.Convert:
		if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
			return elemPath(x.X, d+1)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && len(x.Call.Args) == 0 {
			p, ok := elemPath(x.Call.Value, d+1)
			return p + "." + x.Call.Method.Name(), ok
		}
		if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(x.Call.Args) == 1 {
			p, ok := elemPath(x.Call.Args[0], d+1)
			return p + "." + g.Name(), ok
		}
	}
	return "", false
}

// follow checks every use of an unordered slice.
func (m *morder) follow(f *ssa.Function, seeds []ssa.Value, r *region, birth ssa.Instruction, construct string) {
	pos := "?"
	if birth != nil {
		pos = m.p.instrPos(birth)
	} else if len(seeds) > 0 {
		pos = m.p.pos(seeds[0].Pos())
	}
	qk := construct + pos
	for _, s := range seeds {
		qk += "," + f.String() + ":" + s.Name()
	}
	if m.queued[qk] {
		return
	}
	m.queued[qk] = true
	m.c.Funcs[f] = true
	group := m.aliases(seeds, r)
	// the sorts of the slice, outside the loop that fills it
	type srt struct {
		in ssa.Instruction
	}
	var sorts []srt
	lossy := ""
	for _, b := range f.Blocks {
		if r != nil && r.header != nil && r.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			a, is, total, why := m.sortCall(in)
			if !is || !group[stripSlice(a)] {
				continue
			}
			if !total {
				lossy = why
				continue
			}
			if r != nil && r.header != nil && !r.header.Dominates(b) {
				continue
			}
			if birth != nil && birth.Parent() == f && r == nil && !instrDominates(birth, in) {
				if _, isDeferSort := in.(*ssa.Defer); !isDeferSort {
					continue
				}
			}
			sorts = append(sorts, srt{in})
		}
	}
	ordered := func(at ssa.Instruction) bool {
		for _, s := range sorts {
			if instrDominates(s.in, at) {
				return true
			}
		}
		return false
	}
	bad := func(at ssa.Instruction, why string) {
		if lossy != "" {
			why += "; " + lossy
		}
		m.c.Bad("unordered-slice", construct, m.p.instrPos(at), why)
	}
	inRegion := func(in ssa.Instruction) bool {
		return r != nil && r.header != nil && r.blocks[in.Block()]
	}
	seen := map[ssa.Value]bool{}
	work := append([]ssa.Value{}, seeds...)
	push := func(v ssa.Value) {
		if !seen[v] {
			work = append(work, v)
		}
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		if vi, ok := v.(ssa.Instruction); ok && !inRegion(vi) {
			if _, isPhi := v.(*ssa.Phi); !isPhi && ordered(vi) {
				continue
			}
		}
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if a, is, _, _ := m.sortCall(u); is && (a == v || stripSlice(a) == v) {
				if g := u.(ssa.CallInstruction).Common().StaticCallee(); g != nil && m.p.inModule(g) {
					// a helper that sorts first: nothing of the order is left
				}
				continue
			}
			if !inRegion(u) {
				if phi, ok := u.(*ssa.Phi); ok {
					all := true
					for i, e := range phi.Edges {
						if e == v {
							pb := phi.Block().Preds[i]
							if !ordered(pb.Instrs[len(pb.Instrs)-1]) && !emptyAt(v, pb, phi.Block()) {
								all = false
							}
						}
					}
					if all {
						continue
					}
					push(phi)
					continue
				}
				if ordered(u) || emptyAt(v, u.Block(), nil) {
					continue
				}
			}
			switch x := u.(type) {
			case *ssa.Phi:
				push(x)
			case *ssa.ChangeType:
				push(x)
			case *ssa.MakeInterface:
				push(x)
			case *ssa.Slice:
				if x.Low == nil && x.High == nil || zeroConst(x.Low) && x.High == nil {
					push(x)
					continue
				}
				if inRegion(u) {
					continue
				}
				bad(u, "a part of the slice is taken while its order is unspecified")
			case *ssa.BinOp:
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, uu := range *al.Referrers() {
						if ld, ok := uu.(*ssa.UnOp); ok && ld.Op == token.MUL && (instrDominates(x, ld) || !instrDominates(ld, x)) {
							push(ld)
						}
					}
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if arr, ok := ia.X.(*ssa.Alloc); ok && variadicOnly(arr) {
						bad(u, "the slice is handed over as a value while its order is unspecified")
						continue
					}
				}
				bad(u, "the slice is stored in "+describe(x.Addr)+" while its order is unspecified")
			case *ssa.IndexAddr:
				m.elementUse(f, x, x.Index, construct, bad)
			case *ssa.Index:
				m.elementUse(f, x, x.Index, construct, bad)
			case *ssa.MapUpdate:
				bad(u, "the slice is stored in a map while its order is unspecified")
			case *ssa.Return:
				for i, res := range x.Results {
					if res == v {
						m.returned(f, i, u, construct, bad)
					}
				}
			case *ssa.Range:
				bad(u, "the elements are visited in unspecified order")
			case ssa.CallInstruction:
				m.sliceCall(f, x, v, construct, bad, push)
			case *ssa.Extract, *ssa.Field, *ssa.TypeAssert:
			default:
				bad(u, "the slice is used while its order is unspecified")
			}
		}
	}
	m.c.OK("unordered-slice", construct, pos, "sorted before every use that depends on its order")
}

func zeroConst(v ssa.Value) bool {
	if v == nil {
		return true
	}
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 0
}

func variadicOnly(al *ssa.Alloc) bool { return al.Comment == "varargs" || al.Comment == "slicelit" }

// aliases: the values that may be the same slice.
func (m *morder) aliases(seeds []ssa.Value, r *region) map[ssa.Value]bool {
	g := map[ssa.Value]bool{}
	work := append([]ssa.Value{}, seeds...)
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if g[v] || v.Referrers() == nil {
			continue
		}
		g[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				work = append(work, x)
			case *ssa.ChangeType:
				work = append(work, x)
			case *ssa.Slice:
				work = append(work, x)
			case *ssa.MakeInterface:
				work = append(work, x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, uu := range *al.Referrers() {
						if ld, ok := uu.(*ssa.UnOp); ok && ld.Op == token.MUL {
							work = append(work, ld)
						}
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) > 0 {
					work = append(work, x)
				}
				switch trimX(calleeFull(x)) {
				case "slices.Collect", "slices.DeleteFunc", "slices.Clone", "slices.Compact", "slices.Grow", "slices.Clip", "slices.AppendSeq":
					work = append(work, x)
				}
			}
		}
	}
	return g
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return a != b
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// elementUse: an element is picked by position.
func (m *morder) elementUse(f *ssa.Function, at ssa.Instruction, idx ssa.Value, construct string, bad func(ssa.Instruction, string)) {
	hdr := innermostLoop(at.Block())
	if hdr == nil {
		bad(at, "an element is picked by its position while the order is unspecified")
		return
	}
	if _, ok := idx.(*ssa.Const); ok {
		bad(at, "an element is picked by its position while the order is unspecified")
		return
	}
	blocks := loopBlocks(hdr)
	// only a store through the address: the slice is being filled
	if ia, ok := at.(*ssa.IndexAddr); ok {
		onlyStore := true
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
				onlyStore = false
			}
		}
		if onlyStore {
			return
		}
	}
	dep, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	v := at.(ssa.Value)
	dep[v], key[v] = true, true
	for _, in := range hdr.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			r := &region{fn: f, blocks: blocks, header: hdr}
			if r.counter(phi) {
				dep[phi] = true
			}
		}
	}
	// the counter advances in the header for range loops
	for _, in := range hdr.Instrs {
		if bo, ok := in.(*ssa.BinOp); ok && dep[bo.X] && bo.Op == token.ADD {
			dep[bo] = true
		}
	}
	m.loop(f, hdr, dep, key, "slice-iteration", shortFn(f.String())+": loop over "+construct, at.Pos())
}

func innermostLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	for d := b; d != nil; d = d.Idom() {
		if isLoopHeader(d) && loopBlocks(d)[b] {
			return d
		}
	}
	return nil
}

func (m *morder) sliceCall(f *ssa.Function, x ssa.CallInstruction, v ssa.Value, construct string, bad func(ssa.Instruction, string), push func(ssa.Value)) {
	cm := x.Common()
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap":
		case "append":
			if c, ok := x.(*ssa.Call); ok {
				push(c)
			}
		case "copy":
			if cm.Args[1] == v {
				push(sliceRoot(cm.Args[0]))
			}
		case "clear":
		default:
			bad(x, "the slice is used by "+bi.Name()+" while its order is unspecified")
		}
		return
	}
	n := trimX(calleeFull(x))
	switch n {
	case "slices.Contains", "slices.ContainsFunc", "slices.Sorted", "slices.SortedFunc", "maps.Keys":
		return
	case "slices.Min", "slices.Max":
		return
	case "slices.Collect", "slices.DeleteFunc", "slices.Clone", "slices.Compact", "slices.Grow", "slices.Clip", "slices.AppendSeq", "slices.Concat", "slices.Reverse":
		if c, ok := x.(*ssa.Call); ok {
			push(c)
		}
		return
	}
	g := cm.StaticCallee()
	if g == nil || !m.p.inModule(g) || len(g.Blocks) == 0 {
		bad(x, "the slice is passed to "+shortFn(n)+" while its order is unspecified")
		return
	}
	for i, a := range cm.Args {
		if a == v && i < len(g.Params) {
			m.param(g, i, construct)
			for k := range m.unordRs[g] {
				_ = k
				if c, ok := x.(*ssa.Call); ok {
					for _, res := range resultsAt(c, k) {
						push(res)
					}
				}
			}
		}
	}
}

func resultsAt(c *ssa.Call, k int) []ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return []ssa.Value{c}
	}
	var out []ssa.Value
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == k {
			out = append(out, e)
		}
	}
	return out
}

// param: the i-th parameter of g may be an unordered slice.
func (m *morder) param(g *ssa.Function, i int, construct string) {
	if m.unordIn[g] == nil {
		m.unordIn[g] = map[int]bool{}
	}
	if m.unordIn[g][i] {
		return
	}
	m.unordIn[g][i] = true
	m.follow(g, []ssa.Value{g.Params[i]}, nil, nil, shortFn(g.String())+": "+g.Params[i].Name()+" given "+construct)
}

// returned: the i-th result of f may be an unordered slice.
func (m *morder) returned(f *ssa.Function, i int, at ssa.Instruction, construct string, bad func(ssa.Instruction, string)) {
	if isExportedFn(f) || f.Parent() != nil {
		bad(at, "the slice is returned while its order is unspecified")
		return
	}
	if m.unordRs[f] == nil {
		m.unordRs[f] = map[int]bool{}
	}
	if m.unordRs[f][i] {
		return
	}
	m.unordRs[f][i] = true
	n := 0
	for _, g := range m.p.Funcs {
		for _, c := range callsIn(g) {
			if c.Common().StaticCallee() != f {
				if c.Common().IsInvoke() {
					for _, h := range m.p.implsOf(c.Common().Method) {
						if h == f {
							n++
							if call, ok := c.(*ssa.Call); ok {
								for _, v := range resultsAt(call, i) {
									m.follow(g, []ssa.Value{v}, nil, call, shortFn(g.String())+": result of "+shortFn(f.String()))
								}
							}
						}
					}
				}
				continue
			}
			n++
			if call, ok := c.(*ssa.Call); ok {
				for _, v := range resultsAt(call, i) {
					m.follow(g, []ssa.Value{v}, nil, call, shortFn(g.String())+": result of "+shortFn(f.String()))
				}
			}
		}
	}
	// used as a value: the callers are not known
	for _, g := range m.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for k, o := range in.Operands(nil) {
					if *o == ssa.Value(f) {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f && k == 0 {
							continue
						}
						bad(at, "the slice is returned while its order is unspecified, to callers that are not known")
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- selection of one element

// selVar is a variable that survives the iteration: a phi of the header or a captured variable.
type selVar struct {
	self  func(ssa.Value) bool
	final func(trail []*ssa.BasicBlock, env map[*ssa.Phi]ssa.Value) (ssa.Value, bool) // nil: unchanged
	start ssa.Value
	loop  *ssa.Phi
	wrote func(b *ssa.BasicBlock) bool
}

func (m *morder) phiVar(r *region, phi *ssa.Phi) *selVar {
	self := func(v ssa.Value) bool { return v == ssa.Value(phi) }
	return &selVar{self: self, start: m.loopStart(r, phi), loop: phi, wrote: func(*ssa.BasicBlock) bool { return false },
		final: func(trail []*ssa.BasicBlock, env map[*ssa.Phi]ssa.Value) (ssa.Value, bool) {
			var nv ssa.Value
			for i, pr := range r.header.Preds {
				if pr == trail[len(trail)-1] {
					nv = phi.Edges[i]
				}
			}
			for {
				q, ok := nv.(*ssa.Phi)
				if !ok || q == phi {
					break
				}
				w, ok := env[q]
				if !ok {
					break
				}
				nv = w
			}
			if nv == ssa.Value(phi) {
				return nil, true
			}
			return nv, true
		}}
}

func (m *morder) cellVar(r *region, al *ssa.Alloc) *selVar {
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(al)
	}
	sv := &selVar{self: isLoad}
	stores := func(b *ssa.BasicBlock) []*ssa.Store {
		var out []*ssa.Store
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				out = append(out, st)
			}
		}
		return out
	}
	sv.wrote = func(b *ssa.BasicBlock) bool { return len(stores(b)) > 0 }
	sv.final = func(trail []*ssa.BasicBlock, env map[*ssa.Phi]ssa.Value) (ssa.Value, bool) {
		var v ssa.Value
		for _, b := range trail {
			for _, st := range stores(b) {
				v = st.Val
			}
		}
		return v, true
	}
	// the value before the loop
	for d := r.header.Idom(); d != nil; d = d.Idom() {
		if ss := stores(d); len(ss) > 0 {
			sv.start = ss[len(ss)-1].Val
			break
		}
	}
	return sv
}

// selection: the carried variable always ends up as the least element of a strict order.
func (m *morder) selection(r *region, sv *selVar) (ok bool, why string) {
	ok, why, _ = m.selection2(r, sv)
	return
}

func (m *morder) selection2(r *region, sv *selVar) (bool, string, map[*ssa.Phi]ssa.Value) {
	type path struct {
		assign ssa.Value // nil: unchanged
		conds  []ssa.Value
		vals   []bool
		trail  []*ssa.BasicBlock
	}
	if sv.start == nil {
		return false, "selection not understood", nil
	}
	var paths []path
	limit := false
	var walk func(b, from *ssa.BasicBlock, p path, env map[*ssa.Phi]ssa.Value)
	walk = func(b, from *ssa.BasicBlock, p path, env map[*ssa.Phi]ssa.Value) {
		if limit || len(paths) > 200 {
			limit = true
			return
		}
		if from != nil && b == r.header {
			v, ok := sv.final(p.trail, env)
			if !ok {
				limit = true
			}
			p.assign = v
			paths = append(paths, p)
			return
		}
		if from != nil && (!r.blocks[b] || isLoopHeader(b)) {
			if r.blocks[b] {
				limit = true
			}
			return
		}
		if b != r.header {
			n := map[*ssa.Phi]ssa.Value{}
			for k, v := range env {
				n[k] = v
			}
			for _, in := range b.Instrs {
				q, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == from {
						n[q] = q.Edges[i]
					}
				}
			}
			env = n
		}
		np := path{conds: p.conds, vals: p.vals, trail: append(append([]*ssa.BasicBlock{}, p.trail...), b)}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			for _, t := range np.trail {
				if sv.wrote(t) {
					limit = true // decided after the selection was made
				}
			}
			for i, s := range b.Succs {
				bp := np
				bp.conds = append(append([]ssa.Value{}, p.conds...), iff.Cond)
				bp.vals = append(append([]bool{}, p.vals...), i == 0)
				walk(s, b, bp, env)
			}
			return
		}
		for _, s := range b.Succs {
			walk(s, b, np, env)
		}
	}
	walk(r.header, nil, path{}, map[*ssa.Phi]ssa.Value{})
	if limit {
		return false, "selection not understood", nil
	}
	// the element assigned
	var elem ssa.Value
	for _, p := range paths {
		if p.assign != nil {
			if elem != nil && elem != p.assign {
				return false, "more than one value is selected", nil
			}
			elem = p.assign
		}
	}
	if elem == nil || !r.depends(elem) {
		return false, "selection not understood", nil
	}
	// companions: other carried variables assigned together with it
	comp := map[*ssa.Phi]ssa.Value{}
	for _, in := range r.header.Instrs {
		q, ok := in.(*ssa.Phi)
		if !ok || q == sv.loop {
			continue
		}
		var ev ssa.Value
		good := true
		for _, p := range paths {
			from := p.trail[len(p.trail)-1]
			var nv ssa.Value
			for i, pr := range r.header.Preds {
				if pr == from {
					nv = q.Edges[i]
				}
			}
			if inner, ok := nv.(*ssa.Phi); ok && inner != q && r.in(inner) {
				// resolve through merge blocks in step with the selection
				w := m.stepPhi(inner, q)
				if w == nil {
					good = false
					continue
				}
				if p.assign == nil {
					nv = q
				} else {
					nv = w
				}
			}
			if p.assign == nil {
				if nv != ssa.Value(q) {
					good = false
				}
			} else {
				if nv == ssa.Value(q) || ev != nil && ev != nv {
					good = false
				}
				ev = nv
			}
		}
		if good && ev != nil {
			comp[q] = ev
		}
	}
	isElem := func(v ssa.Value) bool { return v == elem }
	type cs struct{ init, mlt, meq, klt bool }
	onSel := func(v ssa.Value) bool {
		return mentions(v, func(w ssa.Value) bool {
			if sv.self(w) {
				return true
			}
			q, ok := w.(*ssa.Phi)
			return ok && comp[q] != nil
		}, map[ssa.Value]bool{})
	}
	eval := func(cond ssa.Value, k cs) (bool, bool) {
		neg := false
		for {
			u, ok := cond.(*ssa.UnOp)
			if ok && u.Op == token.NOT {
				neg = !neg
				cond = u.X
				continue
			}
			break
		}
		// the loop's own condition
		if e, ok := cond.(*ssa.Extract); ok {
			if _, ok := e.Tuple.(*ssa.Next); ok {
				return !neg, true
			}
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return false, false
		}
		op := bo.Op
		a, b := bo.X, bo.Y
		if !r.depends(a) && !r.depends(b) {
			// the initial value?
			x, y := a, b
			if !onSel(x) {
				x, y = y, x
			}
			var ini ssa.Value
			if sv.self(x) {
				ini = sv.start
			} else if q, ok := x.(*ssa.Phi); ok && comp[q] != nil {
				ini = m.loopStart(r, q)
			}
			if ini != nil && sameConst(ini, y) {
				if op == token.EQL {
					return k.init != neg, true
				}
				if op == token.NEQ {
					return k.init == neg, true
				}
			}
			if !onSel(a) && !onSel(b) && (op == token.LSS || op == token.GTR) {
				return true, true // the loop's own condition
			}
			return false, false
		}
		// element against what is selected so far
		flip := false
		if onSel(a) && !onSel(b) {
			a, b = b, a
			flip = true
		}
		if onSel(a) || !onSel(b) {
			return false, false
		}
		ca, cb := m.canon(r, a, isElem, comp, elem, 0), m.canon(r, b, sv.self, comp, elem, 0)
		if ca == "" || ca != cb {
			return false, false
		}
		lt, eq := k.mlt, k.meq
		if a == elem {
			lt, eq = k.klt, false
		}
		if k.init {
			return false, false // against the initial value: not known
		}
		if flip {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		var res bool
		switch op {
		case token.LSS:
			res = lt && !eq
		case token.LEQ:
			res = lt || eq
		case token.GTR:
			res = !lt && !eq
		case token.GEQ:
			res = !lt || eq
		case token.EQL:
			res = eq
		case token.NEQ:
			res = !eq
		default:
			return false, false
		}
		return res != neg, true
	}
	assigned := func(k cs) (bool, bool) {
		got, any := false, false
		for _, p := range paths {
			ok := true
			for i, cnd := range p.conds {
				v, known := eval(cnd, k)
				if !known {
					if k.init {
						continue
					}
					return false, false
				}
				if v != p.vals[i] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			sel := p.assign != nil
			if k.init {
				if sel {
					return true, true
				}
				continue
			}
			if any && got != sel {
				return false, false
			}
			got, any = sel, true
		}
		return got, any
	}
	if a, ok := assigned(cs{init: true}); !ok || !a {
		return false, "the first element is not always selected", nil
	}
	for _, t := range [][2]cs{
		{{mlt: true, klt: true}, {}},
		{{mlt: true}, {klt: true}},
		{{meq: true, klt: true}, {meq: true}},
	} {
		x, ok1 := assigned(t[0])
		y, ok2 := assigned(t[1])
		if !ok1 || !ok2 {
			return false, "selection by conditions that are not comparisons of the element with the one selected so far", nil
		}
		if x == y {
			return false, "of two elements with the same measure the one visited first (or last) is selected", nil
		}
	}
	return true, "", comp
}

func (m *morder) stepPhi(inner, q *ssa.Phi) ssa.Value {
	var w ssa.Value
	for _, e := range inner.Edges {
		if e == ssa.Value(q) {
			continue
		}
		if p, ok := e.(*ssa.Phi); ok && p != q {
			x := m.stepPhi(p, q)
			if x == nil || w != nil && w != x {
				return nil
			}
			w = x
			continue
		}
		if w != nil && w != e {
			return nil
		}
		w = e
	}
	return w
}

func (m *morder) loopStart(r *region, phi *ssa.Phi) ssa.Value {
	var v ssa.Value
	for i, e := range phi.Edges {
		if !r.blocks[r.header.Preds[i]] {
			if v != nil && v != e {
				return nil
			}
			v = e
		}
	}
	return v
}

// canon renders v with the element (or the value selected so far) abstracted, so that the same measure of
// both reads the same.
func (m *morder) canon(r *region, v ssa.Value, of func(ssa.Value) bool, comp map[*ssa.Phi]ssa.Value, elem ssa.Value, d int) string {
	if d > 12 {
		return ""
	}
	if of(v) {
		return "•"
	}
	isElem := func(w ssa.Value) bool { return w == elem }
	if q, ok := v.(*ssa.Phi); ok && comp[q] != nil && !of(elem) {
		return m.canon(r, comp[q], isElem, comp, elem, d+1)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			// the value under the element's key
			if k, ok := elem.(*ssa.Extract); ok && k.Tuple == x.Tuple && k.Index == 1 {
				return "lookup(" + m.canon(r, n.Iter.(*ssa.Range).X, of, comp, elem, d+1) + ",•)"
			}
		}
	case *ssa.Lookup:
		return "lookup(" + m.canon(r, x.X, of, comp, elem, d+1) + "," + m.canon(r, x.Index, of, comp, elem, d+1) + ")"
	case *ssa.Call:
		s := ""
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			s = bi.Name()
		} else if g := x.Call.StaticCallee(); g != nil {
			s = g.String()
		} else {
			return ""
		}
		for _, a := range x.Call.Args {
			ca := m.canon(r, a, of, comp, elem, d+1)
			if ca == "" {
				return ""
			}
			s += "," + ca
		}
		return "call(" + s + ")"
	case *ssa.UnOp:
		return x.Op.String() + m.canon(r, x.X, of, comp, elem, d+1)
	case *ssa.FieldAddr:
		return m.canon(r, x.X, of, comp, elem, d+1) + ".f" + itoa(x.Field)
	case *ssa.Field:
		return m.canon(r, x.X, of, comp, elem, d+1) + ".f" + itoa(x.Field)
	case *ssa.Convert:
		return m.canon(r, x.X, of, comp, elem, d+1)
	}
	if !r.in(v) {
		return "v:" + v.Name()
	}
	return ""
}

// emptyAt: b is only reached where the slice v was found to be empty.
func emptyAt(v ssa.Value, from, b *ssa.BasicBlock) bool {
	test := func(p, d *ssa.BasicBlock) bool {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		c, ok := bo.X.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || c.Call.Args[0] != v || !zeroConst(bo.Y) {
			return false
		}
		return bo.Op == token.EQL && p.Succs[0] == d || (bo.Op == token.NEQ || bo.Op == token.GTR) && p.Succs[1] == d
	}
	if b != nil && test(from, b) {
		return true
	}
	for d := from; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 && test(d.Preds[0], d) {
			return true
		}
	}
	return false
}
