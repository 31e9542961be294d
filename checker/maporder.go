package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", checkC20,
		"a map entry's key and values computed from it by pure functions are assumed distinct for distinct entries",
		"the order of log lines, and which of several failures is reported, are not results",
		"a comparator that orders elements by a name, path, key or identifier is total on them")
}

// ---------------------------------------------------------------- the analysis of iterations in unspecified order

// region is code executed once per element of an unordered collection.
type region struct {
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock // nil when the region is a whole function called per element
	dep    map[ssa.Value]bool
	key    map[ssa.Value]bool
	loc    map[ssa.Value]bool // memory the element's own iteration created
	what   string
	pos    token.Pos
}

type morder struct {
	c       *Ctx
	p       *Prog
	unordIn map[*ssa.Function]map[int]bool // parameter may be an unordered slice
	unordRs map[*ssa.Function]map[int]bool // result may be unordered
	seenR   map[*ssa.BasicBlock]bool
	memo    map[string]*effRes
	work    []func()
	queued  map[string]bool
	bads    int
}

type effRes struct{ bad []string }

func checkC20(c *Ctx) {
	c.Rule("the body of every iteration in unspecified order (range over a map, over the keys or values of one, or over a slice built from one that was not sorted since) has only effects that commute: updates of a map keyed by the element, accumulation by a commutative operation, one constant assigned, or elements collected in a slice; and it is left early only with a result that does not depend on the element, or with an error")
	c.Rule("a slice filled in unspecified order is sorted by a total order before any use that depends on its order, on every path; it is never stored or returned unsorted from an exported function")
	c.Rule("a variable that selects one element does so by a strict total order (antisymmetric over every combination of measures, with a tie broken by the key)")
	c.Rule("concurrent goroutines do not append to a common slice or string that is used without being sorted")
	m := &morder{c: c, p: c.P, unordIn: map[*ssa.Function]map[int]bool{}, unordRs: map[*ssa.Function]map[int]bool{}, seenR: map[*ssa.BasicBlock]bool{}, memo: map[string]*effRes{}, queued: map[string]bool{}}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "wrapper") {
			continue
		}
		m.scan(f)
	}
	for len(m.work) > 0 {
		w := m.work[0]
		m.work = m.work[1:]
		w()
	}
	c.AtLeast("map-iteration", 4, "iterations over maps")
	c.AtLeast("unordered-slice", 1, "slices collected from maps")
}

func calleeFull(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		return strings.SplitN(staticName(c), "[", 2)[0]
	}
	return ""
}

// mapIter: maps.Keys/Values/All, sync.Map.Range, reflect's MapKeys.
func unorderedResult(name string) bool {
	switch name {
	case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "maps.Keys", "maps.Values", "maps.All", "(reflect.Value).MapKeys":
		return true
	}
	return false
}

func (m *morder) scan(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					m.mapLoop(f, x)
				}
			case *ssa.Call:
				n := calleeFull(x)
				if unorderedResult(n) {
					m.c.Funcs[f] = true
					m.unordered(f, x, nil, x, shortFn(f.String())+": "+n)
				}
				if n == "(*sync.Map).Range" {
					m.closureBody(f, x, x.Call.Args[1], "sync.Map.Range", true)
				}
				if n == "(*golang.org/x/sync/errgroup.Group).Go" {
					m.concurrent(f, x, x.Call.Args[1])
				}
			case *ssa.Go:
				m.concurrent(f, x, x.Call.Value)
			}
		}
	}
}

func closureFn(v ssa.Value) (*ssa.Function, *ssa.MakeClosure) {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function), x
		case *ssa.Function:
			return x, nil
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return nil, nil
	}
}

func (m *morder) closureBody(f *ssa.Function, at ssa.Instruction, fv ssa.Value, what string, elems bool) {
	g, _ := closureFn(fv)
	construct := shortFn(f.String()) + ": " + what
	if g == nil {
		m.c.Undecided("map-iteration", construct, m.p.instrPos(at), "the function called for each entry is not known")
		return
	}
	dep := map[ssa.Value]bool{}
	key := map[ssa.Value]bool{}
	for i, pr := range g.Params {
		dep[pr] = true
		if i == 0 {
			key[pr] = true
		}
	}
	r := &region{fn: g, dep: dep, key: key, what: construct, pos: at.Pos()}
	bad := m.effects(r, map[string]bool{})
	m.report("map-iteration", construct, m.p.instrPos(at), bad)
}

// concurrent: goroutines run in any order, so what they append to a shared variable is unordered.
func (m *morder) concurrent(f *ssa.Function, at ssa.Instruction, fv ssa.Value) {
	g, mc := closureFn(fv)
	if g == nil || mc == nil {
		return
	}
	m.c.Funcs[g] = true
	construct := shortFn(g.String())
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			i := -1
			for k, v := range g.FreeVars {
				if ssa.Value(v) == st.Addr {
					i = k
				}
			}
			if i < 0 {
				continue
			}
			self := func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				return ok && u.Op == token.MUL && u.X == st.Addr
			}
			if call, ok := st.Val.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && self(call.Call.Args[0]) {
					cell := mc.Bindings[i]
					if al, ok := cell.(*ssa.Alloc); ok && !inOwnLoopOnly(at, al) {
						m.unorderedCell(f, al, nil, at, construct+": appended by concurrent goroutines", g)
					} else {
						m.c.Bad("concurrent-append", construct, m.p.instrPos(st), "goroutines append to a shared slice in the order they happen to run")
					}
				}
			}
			if bo, ok := st.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && self(bo.X) && isStringT(bo.Type()) {
				m.c.Bad("concurrent-append", construct, m.p.instrPos(st), "goroutines extend a shared string in the order they happen to run")
			}
		}
	}
	m.c.OK("concurrent-append", construct, m.p.instrPos(at), "")
}

func inOwnLoopOnly(at ssa.Instruction, al *ssa.Alloc) bool { return false }

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *morder) mapLoop(f *ssa.Function, rg *ssa.Range) {
	m.c.Funcs[f] = true
	var nexts []*ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			nexts = append(nexts, n)
		}
	}
	for _, n := range nexts {
		dep, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, r := range *n.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				if e.Index == 1 {
					dep[e], key[e] = true, true
				}
				if e.Index == 2 {
					dep[e] = true
				}
			}
		}
		m.loop(f, n.Block(), dep, key, "map-iteration", fmt.Sprintf("%s: range over %s", shortFn(f.String()), describe(rg.X)), rg.Pos())
	}
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return describe(x.X)
	case *ssa.FieldAddr:
		if n := fieldVar(x.X.Type(), x.Field); n != nil {
			return n.Name()
		}
	case *ssa.Field:
		if n := fieldVar(x.X.Type(), x.Field); n != nil {
			return n.Name()
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Global:
		return x.Name()
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

func (m *morder) loop(f *ssa.Function, hdr *ssa.BasicBlock, dep, key map[ssa.Value]bool, rule, construct string, pos token.Pos) {
	if m.seenR[hdr] {
		return
	}
	m.seenR[hdr] = true
	m.c.Funcs[f] = true
	if !isLoopHeader(hdr) {
		// a loop body that never runs twice: leaves on the first element
		m.c.Bad(rule, construct, m.p.pos(pos), "the body is left on the first element visited, whichever that is")
		return
	}
	r := &region{fn: f, blocks: loopBlocks(hdr), header: hdr, dep: dep, key: key, what: construct, pos: pos}
	bad := m.effects(r, map[string]bool{})
	m.report(rule, construct, m.p.pos(pos), bad)
}

func (m *morder) report(rule, construct, pos string, bad []string) {
	if len(bad) == 0 {
		m.c.OK(rule, construct, pos, "every effect of the body commutes")
		return
	}
	sort.Strings(bad)
	m.c.Bad(rule, construct, pos, strings.Join(bad, "; "))
}

// ---------------------------------------------------------------- dependence within a region

func (r *region) in(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if in.Parent() != r.fn {
		return false
	}
	return r.blocks == nil || r.blocks[in.Block()]
}

// depends: v varies with the element.
func (r *region) depends(v ssa.Value) bool { return r.dependsOn(v, r.dep, map[ssa.Value]bool{}) }

// keyed: v determines the element (its key, or a text made from it that keeps it apart from the others).
func (r *region) keyed(v ssa.Value) bool { return r.injective(v, map[ssa.Value]bool{}) }

func (r *region) injective(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if r.key[v] {
		return true
	}
	if !r.in(v) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return r.injective(x.X, seen)
	case *ssa.ChangeType:
		return r.injective(x.X, seen)
	case *ssa.MakeInterface:
		return r.injective(x.X, seen)
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		return r.injective(x.X, seen) && !r.depends(x.Y) || r.injective(x.Y, seen) && !r.depends(x.X)
	case *ssa.Phi:
		if x.Block() == r.header {
			return false
		}
		for _, e := range x.Edges {
			if !r.injective(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if r.key[x.X] {
			return true
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, u := range *al.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				n++
				if !r.injective(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch calleeName(g) {
		case "strings.TrimPrefix", "strings.TrimSuffix", "path.Join", "path/filepath.Join", "fmt.Sprintf", "fmt.Sprint", "path/filepath.Clean", "path.Clean", "strings.Clone":
			for _, a := range x.Call.Args {
				if r.injective(a, seen) {
					return true
				}
				if sl, ok := a.(*ssa.Slice); ok {
					if arr, ok := sl.X.(*ssa.Alloc); ok {
						for _, u := range *arr.Referrers() {
							if ia, ok := u.(*ssa.IndexAddr); ok {
								for _, uu := range *ia.Referrers() {
									if st, ok := uu.(*ssa.Store); ok && r.injective(st.Val, seen) {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (r *region) dependsOn(v ssa.Value, base map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if base[v] {
		return true
	}
	if !r.in(v) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		// a variable of the body: what is stored into it
		for _, u := range *x.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == v && r.dependsOn(st.Val, base, seen) {
				return true
			}
			switch a := u.(type) {
			case *ssa.FieldAddr:
				for _, uu := range *a.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == ssa.Value(a) && r.dependsOn(st.Val, base, seen) {
						return true
					}
				}
			case *ssa.IndexAddr:
				for _, uu := range *a.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == ssa.Value(a) && r.dependsOn(st.Val, base, seen) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.Phi:
		if x.Block() == r.header {
			return false // judged as a carried variable
		}
	}
	for _, o := range v.(ssa.Instruction).Operands(nil) {
		if *o != nil && r.dependsOn(*o, base, seen) {
			return true
		}
	}
	return false
}

// local: the memory at v was created by the body itself, or belongs to the element.
func (r *region) local(v ssa.Value) bool {
	for i := 0; i < 40; i++ {
		if r.dep[v] || r.loc[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
			return false
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Field:
			v = x.X
			continue
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Lookup:
			// an entry found under a key of the element
			if r.keyed(x.Index) {
				return true
			}
			v = x.X
			continue
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan:
			return r.in(v)
		case *ssa.Call:
			return r.in(v) && r.depends(v)
		case *ssa.Phi:
			if !r.in(v) || x.Block() == r.header {
				return false
			}
			for _, e := range x.Edges {
				if e != v && !r.local(e) {
					if _, isC := e.(*ssa.Const); !isC {
						return false
					}
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------- effects of a region

func (m *morder) effects(r *region, stack map[string]bool) []string {
	var bad []string
	say := func(in ssa.Instruction, format string, a ...interface{}) {
		bad = append(bad, fmt.Sprintf("%s (%s)", fmt.Sprintf(format, a...), m.p.instrPos(in)))
	}
	accum := "" // an effect that depends on how many elements were seen
	blocks := r.fn.Blocks
	type cellUpd struct {
		addr ssa.Value
		sts  []*ssa.Store
	}
	for _, b := range blocks {
		if r.blocks != nil && !r.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if r.local(x.Map) {
					continue
				}
				if r.blocks == nil && !r.depends(x.Key) && !r.depends(x.Value) {
					continue
				}
				accum = "a map is filled"
				if r.keyed(x.Key) || !r.depends(x.Value) {
					continue
				}
				if m.sortedLater(r, x) {
					continue
				}
				say(in, "the entry of %s under a key that is not the element's own is overwritten by whichever element comes last", describe(x.Map))
			case *ssa.Store:
				if r.local(x.Addr) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if r.keyed(ia.Index) {
						accum = "a slice is filled"
						continue
					}
					if r.depends(x.Val) || r.carried(ia.Index) {
						if r.carried(ia.Index) && r.header != nil {
							accum = "a slice is filled"
							m.unordered(r.fn, sliceRoot(ia.X), r, in, r.what+": fills "+describe(sliceRoot(ia.X)))
							continue
						}
						say(in, "elements are stored by position in the order visited")
					}
					continue
				}
				load := func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					return ok && u.Op == token.MUL && sameAddr(u.X, x.Addr)
				}
				kind, why := m.carriedValue(r, x.Val, load, map[ssa.Value]bool{}, new(ssa.Value))
				switch kind {
				case "same":
				case "acc":
					accum = "a counter is kept"
				case "slice":
					accum = "a slice is filled"
					if r.blocks == nil && r.header == nil {
						say(in, "elements are appended to %s, shared with the caller, in the order visited", describe(x.Addr))
						continue
					}
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						m.unorderedCell(r.fn, al, r, in, r.what+": collects "+al.Comment, nil)
					} else {
						say(in, "elements are appended to %s in the order visited", describe(x.Addr))
					}
				case "inv":
					// the same value whichever element is visited
				default:
					if al, ok := x.Addr.(*ssa.Alloc); ok && r.header != nil {
						ok, w := m.selection(r, m.cellVar(r, al))
						if ok {
							accum = "an element is selected"
							m.c.OK("selection", r.what+": "+al.Comment, m.p.instrPos(x), "the element selected is the least of a strict order, whatever the order of the visits")
							continue
						}
						why += ", " + w
					}
					say(in, "%s is assigned %s", describe(x.Addr), why)
				}
			case *ssa.Send:
				if r.depends(x.X) {
					say(in, "elements are sent on a channel in the order visited")
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly && r.depends(st.Send) {
						say(in, "elements are sent on a channel in the order visited")
					}
				}
			case ssa.CallInstruction:
				if why := m.callEffect(r, x, stack); why != "" {
					say(in, "%s", why)
				}
			}
		}
	}
	if r.header != nil {
		bad = append(bad, m.carriedPhis(r, &accum)...)
		bad = append(bad, m.exits(r, accum)...)
	}
	return bad
}

// sortedLater: the update adds to a list of the map, and every list of the map is sorted afterwards.
func (m *morder) sortedLater(r *region, u *ssa.MapUpdate) bool {
	ap, ok := appendTo(u.Value)
	if !ok || r.header == nil {
		return false
	}
	old := ap.Call.Args[0]
	if e, ok := old.(*ssa.Extract); ok {
		old = e.Tuple
	}
	lk, ok := old.(*ssa.Lookup)
	if !ok || !sameLoad(lk.X, u.Map) {
		return false
	}
	for _, b := range r.fn.Blocks {
		if r.blocks[b] || !r.header.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			a, is, total, _ := m.sortCall(in)
			if !is || !total {
				continue
			}
			e, ok := stripSlice(a).(*ssa.Extract)
			if !ok || e.Index != 2 {
				continue
			}
			n, ok := e.Tuple.(*ssa.Next)
			if !ok {
				continue
			}
			rg, ok := n.Iter.(*ssa.Range)
			if ok && sameLoad(rg.X, u.Map) && n.Block().Dominates(b) && everyIteration(n.Block(), b) {
				return true
			}
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && sameAddr(ua.X, ub.X)
}

// everyIteration: b lies on every way around the loop with the given header.
func everyIteration(hdr, b *ssa.BasicBlock) bool {
	for _, p := range hdr.Preds {
		if hdr.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

func sliceRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				return al
			}
		}
		return v
	}
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		return sameAddr(fa.X, fb.X)
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		return sameAddr(ua.X, ub.X)
	}
	return false
}

// carried: v is a counter carried from one iteration to the next.
func (r *region) carried(v ssa.Value) bool {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			return r.header != nil && r.blocks[x.Block()]
		case *ssa.BinOp:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok && !r.in(al) {
					return true
				}
			}
			return false
		}
		return false
	}
	return false
}

// carriedValue classifies the new value of a variable that survives the iteration.
func (m *morder) carriedValue(r *region, v ssa.Value, self func(ssa.Value) bool, seen map[ssa.Value]bool, inv *ssa.Value) (string, string) {
	if self(v) {
		return "same", ""
	}
	if seen[v] {
		return "same", ""
	}
	seen[v] = true
	setInv := func(v ssa.Value) (string, string) {
		if *inv != nil && !sameConst(*inv, v) {
			return "bad", "different values by different elements"
		}
		*inv = v
		return "inv", ""
	}
	if !r.in(v) {
		if r.dep[v] {
			return "bad", "a value of whichever element comes last"
		}
		return setInv(v)
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == r.header {
			return "bad", "the value of another carried variable"
		}
		out := "same"
		for _, e := range x.Edges {
			k, why := m.carriedValue(r, e, self, seen, inv)
			switch {
			case k == "bad":
				return k, why
			case k == "same":
			case out == "same":
				out = k
			case out != k:
				return "bad", "values of several kinds"
			}
		}
		return out, ""
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if isStringT(x.Type()) {
				if a, _ := m.carriedValue(r, x.X, self, map[ssa.Value]bool{}, new(ssa.Value)); a == "same" || a == "acc" {
					return "bad", "a text extended in the order visited"
				}
				break
			}
			for i, o := range []ssa.Value{x.X, x.Y} {
				k, _ := m.carriedValue(r, o, self, map[ssa.Value]bool{}, new(ssa.Value))
				other := x.Y
				if i == 1 {
					other = x.X
				}
				if (k == "same" || k == "acc") && !mentions(other, self, map[ssa.Value]bool{}) {
					if k == "same" && !selfReach(r, o, self) {
						continue
					}
					return "acc", ""
				}
			}
		case token.SUB:
			if k, _ := m.carriedValue(r, x.X, self, map[ssa.Value]bool{}, new(ssa.Value)); (k == "same" || k == "acc") && selfReach(r, x.X, self) && !mentions(x.Y, self, map[ssa.Value]bool{}) {
				return "acc", ""
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				k, why := m.carriedValue(r, x.Call.Args[0], self, seen, inv)
				if k == "same" || k == "slice" {
					if m.commutingElem(r, x) {
						return "acc", ""
					}
					return "slice", ""
				}
				if k == "bad" {
					return k, why
				}
			case "min", "max":
				for _, a := range x.Call.Args {
					if self(a) {
						return "acc", ""
					}
				}
			}
		}
	}
	if !r.depends(v) && !mentions(v, self, map[ssa.Value]bool{}) {
		return setInv(v)
	}
	return "bad", "a value of whichever element comes last"
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if ca.Value == nil || cb.Value == nil {
		return ca.Value == nil && cb.Value == nil
	}
	return constant.Compare(ca.Value, token.EQL, cb.Value)
}

func selfReach(r *region, v ssa.Value, self func(ssa.Value) bool) bool {
	return mentions(v, self, map[ssa.Value]bool{})
}

func mentions(v ssa.Value, pred func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if pred(v) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch v.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Call, *ssa.Lookup, *ssa.Slice, *ssa.MakeInterface:
		for _, o := range in.Operands(nil) {
			if *o != nil && mentions(*o, pred, seen) {
				return true
			}
		}
	}
	return false
}

// carriedPhis judges the variables the loop carries.
func (m *morder) carriedPhis(r *region, accum *string) []string {
	var bad []string
	companion, late := map[*ssa.Phi]bool{}, map[*ssa.Phi]string{}
	for _, in := range r.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		self := func(v ssa.Value) bool { return v == ssa.Value(phi) }
		if r.counter(phi) {
			*accum = "a counter is kept"
			continue
		}
		kind, why := "same", ""
		var inv ssa.Value
		seen := map[ssa.Value]bool{}
		for i, e := range phi.Edges {
			if !r.blocks[r.header.Preds[i]] {
				continue
			}
			k, w := m.carriedValue(r, e, self, seen, &inv)
			if k == "same" {
				continue
			}
			if kind != "same" && kind != k {
				k, w = "bad", "values of several kinds"
			}
			kind, why = k, w
		}
		switch kind {
		case "acc":
			*accum = "a counter is kept"
		case "slice":
			*accum = "a slice is filled"
			m.unordered(r.fn, phi, r, phi, r.what+": collects "+phi.Comment)
		case "bad":
			if ok, w, comp := m.selection2(r, m.phiVar(r, phi)); ok {
				*accum = "an element is selected"
				m.c.OK("selection", r.what+": "+phi.Comment, m.p.instrPos(phi), "the element selected is the least of a strict order, whatever the order of the visits")
				for q := range comp {
					companion[q] = true
				}
			} else {
				if phi.Comment == "rangeindex" {
					continue
				}
				late[phi] = fmt.Sprintf("%s is assigned %s, %s (%s)", phi.Comment, why, w, m.p.instrPos(phi))
			}
		}
	}
	for phi, w := range late {
		if !companion[phi] {
			bad = append(bad, w)
		}
	}
	return bad
}

func (r *region) counter(phi *ssa.Phi) bool {
	for i, e := range phi.Edges {
		if !r.blocks[r.header.Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
			return false
		}
		if _, k := bo.Y.(*ssa.Const); !k {
			return false
		}
	}
	return true
}

// exits judges the ways the loop is left before every element was visited.
func (m *morder) exits(r *region, accum string) []string {
	var bad []string
	errBlocks := map[*ssa.BasicBlock]bool{}
	early := false
	for b := range r.blocks {
		if b == r.header {
			continue
		}
		for _, s := range b.Succs {
			if r.blocks[s] {
				continue
			}
			if failing(s, r.blocks, map[*ssa.BasicBlock]bool{}) {
				for _, x := range r.fn.Blocks {
					if s.Dominates(x) && len(s.Preds) == 1 {
						errBlocks[x] = true
					}
				}
				errBlocks[s] = true
				continue
			}
			early = true
			if accum != "" {
				bad = append(bad, fmt.Sprintf("the loop can be left early although %s: the outcome depends on which elements were visited before (%s)", accum, m.p.instrPos(b.Instrs[len(b.Instrs)-1])))
			}
		}
	}
	_ = early
	// values of the element used after the loop
	for _, b := range r.fn.Blocks {
		if !r.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if phi, ok := in.(*ssa.Phi); ok && phi.Block() == r.header {
				continue
			}
			if !r.depends(v) {
				continue
			}
			for _, u := range *v.Referrers() {
				ub := u.Block()
				if ub == nil || u.Parent() != r.fn || r.blocks[ub] || errBlocks[ub] {
					continue
				}
				if _, isAppend := appendTo(v); isAppend {
					continue // judged as a carried slice
				}
				if phi, ok := u.(*ssa.Phi); ok {
					onErr := true
					for i, e := range phi.Edges {
						if e == v && !errBlocks[phi.Block().Preds[i]] {
							onErr = false
						}
					}
					if onErr {
						continue
					}
				}
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				bad = append(bad, fmt.Sprintf("a value of the element visited last is used after the loop (%s)", m.p.instrPos(u)))
			}
		}
	}
	// constants chosen by the place where the loop was left are fine: which elements exist decides them
	return bad
}

func appendTo(v ssa.Value) (*ssa.Call, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return c, ok && bi.Name() == "append"
}

// failing: every way on from b ends in a panic or returns a non-nil error.
func failing(b *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, seen map[*ssa.BasicBlock]bool) bool {
	if loop[b] {
		return false
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		if len(x.Results) == 0 {
			return false
		}
		last := x.Results[len(x.Results)-1]
		if !isErrType(last.Type()) {
			return false
		}
		last = spilled(last)
		c, ok := last.(*ssa.Const)
		if ok && c.IsNil() {
			return false
		}
		switch last.(type) {
		case *ssa.Call, *ssa.MakeInterface:
			return true
		}
		// returned where it was found non-nil
		return nonNilAt(last, b)
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !failing(s, loop, seen) {
			return false
		}
	}
	return true
}

// spilled: the value a result variable holds where it is returned.
func spilled(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var last ssa.Value
	for _, in := range ld.Block().Instrs {
		if in == ssa.Instruction(ld) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			last = st.Val
		}
	}
	if last == nil {
		return v
	}
	return last
}

// nonNilAt: b is only reached where v was compared with nil and found different.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		for _, p := range d.Preds {
			if len(d.Preds) != 1 {
				break
			}
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || bo.X != v && bo.Y != v {
				continue
			}
			if bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- calls

var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "errors": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true, "regexp": true, "time": true, "net/url": true, "slices": true, "sort": true, "maps": true, "cmp": true, "math": true, "sync": true, "sync/atomic": true, "context": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true, "log/slog": true, "log": true, "github.com/chainguard-dev/clog": true, "io/fs": true, "reflect": true, "encoding/hex": true, "encoding/base64": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/rsa": true, "crypto/x509": true, "encoding/pem": true, "math/bits": true, "unique": true}

func (m *morder) callEffect(r *region, x ssa.CallInstruction, stack map[string]bool) string {
	cm := x.Common()
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if !r.local(cm.Args[0]) && r.depends(cm.Args[1]) {
				return "elements are copied into a shared slice"
			}
		case "delete":
			if !r.local(cm.Args[0]) && !r.keyed(cm.Args[1]) && r.depends(cm.Args[1]) {
				return ""
			}
		}
		return ""
	}
	anyDep := false
	for _, a := range cm.Args {
		if r.depends(a) {
			anyDep = true
		}
	}
	if cm.IsInvoke() && r.depends(cm.Value) {
		anyDep = true
	}
	var targets []*ssa.Function
	if cm.IsInvoke() {
		if cm.Method.Pkg() == nil || !strings.HasPrefix(cm.Method.Pkg().Path(), modPath) {
			return m.foreignCall(r, x, cm.Method.FullName(), anyDep)
		}
		targets = m.p.implsOf(cm.Method)
		if len(targets) == 0 {
			return ""
		}
	} else if g := cm.StaticCallee(); g != nil {
		if !m.p.inModule(g) || len(g.Blocks) == 0 {
			return m.foreignCall(r, x, calleeName(g), anyDep)
		}
		targets = []*ssa.Function{g}
	} else {
		g, _ := closureFn(cm.Value)
		if g == nil {
			if !anyDep && !r.depends(cm.Value) {
				return ""
			}
			if ts := m.funcsOfType(cm.Value.Type()); len(ts) > 0 {
				for _, t := range ts {
					if why := m.funcEffect(r, t, x, stack); why != "" {
						return why
					}
				}
				return ""
			}
			if r.depends(cm.Value) {
				return "a function taken from the element is called: its effects are not known"
			}
			return "an unknown function is called with the element"
		}
		targets = []*ssa.Function{g}
	}
	for _, g := range targets {
		if why := m.funcEffect(r, g, x, stack); why != "" {
			return why
		}
	}
	return ""
}

// funcsOfType: the functions of the module that are converted to the named function type.
func (m *morder) funcsOfType(t types.Type) []*ssa.Function {
	if _, ok := t.(*types.Named); !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ct, ok := in.(*ssa.ChangeType)
				if !ok || !types.Identical(ct.Type(), t) {
					continue
				}
				g, _ := closureFn(ct.X)
				if g == nil {
					return nil
				}
				out = append(out, g)
			}
		}
	}
	return out
}

// funcEffect: calling g for each element, in any order, has effects that commute.
func (m *morder) funcEffect(r *region, g *ssa.Function, x ssa.CallInstruction, stack map[string]bool) string {
	cm := x.Common()
	args := cm.Args
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	dep, key, loc := map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	sig := g.String()
	for i, a := range args {
		if i >= len(g.Params) {
			break
		}
		if r.depends(a) {
			dep[g.Params[i]] = true
			sig += "|d" + itoa(i)
		}
		if r.keyed(a) {
			key[g.Params[i]] = true
			sig += "|k" + itoa(i)
		}
		if r.local(a) {
			loc[g.Params[i]] = true
			sig += "|l" + itoa(i)
		}
	}
	if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
		for i, bnd := range mc.Bindings {
			if r.depends(bnd) {
				dep[g.FreeVars[i]] = true
				sig += "|fd" + itoa(i)
			}
			if r.keyed(bnd) {
				key[g.FreeVars[i]] = true
				sig += "|fk" + itoa(i)
			}
			if r.local(bnd) {
				loc[g.FreeVars[i]] = true
				sig += "|fl" + itoa(i)
			}
		}
	}
	if _, dyn := cm.Value.(*ssa.MakeClosure); !dyn && !cm.IsInvoke() && cm.StaticCallee() == nil && r.depends(cm.Value) {
		for _, fv := range g.FreeVars {
			dep[fv] = true
		}
		sig += "|dyn"
	}
	if len(dep) == 0 {
		return "" // the same call whatever the element
	}
	if e, ok := m.memo[sig]; ok {
		if len(e.bad) > 0 {
			return e.bad[0]
		}
		return ""
	}
	if stack[sig] || len(stack) > 12 {
		return ""
	}
	stack[sig] = true
	sub := &region{fn: g, dep: dep, key: key, loc: loc, what: r.what, pos: r.pos}
	bad := m.effects(sub, stack)
	delete(stack, sig)
	res := &effRes{}
	if len(bad) > 0 {
		res.bad = []string{"in " + shortFn(g.String()) + ": " + bad[0]}
	}
	if len(stack) == 0 || len(bad) > 0 {
		m.memo[sig] = res
	}
	if len(res.bad) > 0 {
		return res.bad[0]
	}
	return ""
}

var readOnlyMethods = map[string]bool{"Error": true, "String": true, "Name": true, "Mode": true, "Info": true, "IsDir": true, "Type": true, "Size": true, "ModTime": true, "Sys": true, "Err": true, "Done": true, "Value": true, "Is": true, "Unwrap": true, "Deadline": true, "Len": true, "Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "End": true, "SetAttributes": true, "RecordError": true, "SetStatus": true, "Perm": true, "IsRegular": true, "MatchString": true, "FindStringSubmatch": true}

func (m *morder) foreignCall(r *region, x ssa.CallInstruction, name string, anyDep bool) string {
	cm := x.Common()
	if !anyDep {
		return ""
	}
	base := strings.SplitN(name, "[", 2)[0]
	meth := base[strings.LastIndex(base, ".")+1:]
	pkg := ""
	if cm.IsInvoke() {
		if cm.Method.Pkg() != nil {
			pkg = cm.Method.Pkg().Path()
		}
		if readOnlyMethods[meth] || cm.Method.Pkg() == nil {
			return ""
		}
		if r.local(cm.Value) {
			return ""
		}
		return fmt.Sprintf("%s is called on a shared object with the element", shortFn(base))
	}
	g := cm.StaticCallee()
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if o := g.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	// functions handed over to be called
	for _, a := range cm.Args {
		if f, mc := closureFn(a); f != nil && mc != nil && m.p.inModule(f) {
			dep, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
			for i, bnd := range mc.Bindings {
				if r.depends(bnd) {
					dep[f.FreeVars[i]] = true
				}
				if r.keyed(bnd) {
					key[f.FreeVars[i]] = true
				}
			}
			sub := &region{fn: f, dep: dep, key: key, what: r.what, pos: r.pos}
			if bad := m.effects(sub, map[string]bool{}); len(bad) > 0 {
				return bad[0]
			}
		}
	}
	if g.Signature.Recv() != nil {
		if readOnlyMethods[meth] || r.local(cm.Args[0]) {
			return ""
		}
		if strings.HasPrefix(pkg, "go.opentelemetry.io") || pkg == "log/slog" || pkg == "github.com/chainguard-dev/clog" || pkg == "sync" || pkg == "sync/atomic" || pkg == "regexp" || pkg == "golang.org/x/sync/errgroup" {
			return ""
		}
		if _, ok := cm.Args[0].Type().Underlying().(*types.Pointer); !ok {
			return ""
		}
		return fmt.Sprintf("%s is called on a shared object with the element", shortFn(base))
	}
	if purePkgs[pkg] || strings.HasPrefix(pkg, "go.opentelemetry.io") {
		return ""
	}
	if pkg == "fmt" && (strings.HasPrefix(meth, "Sprint") || meth == "Errorf" || meth == "Append") {
		return ""
	}
	if pkg == "os" || pkg == "golang.org/x/sys/unix" || pkg == "syscall" {
		for _, a := range cm.Args {
			if r.keyed(a) {
				return "" // a file of the element's own
			}
		}
	}
	// what the element could be written to
	for _, a := range cm.Args {
		if r.depends(a) || r.local(a) {
			continue
		}
		switch t := a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
			if _, isC := a.(*ssa.Const); isC {
				continue
			}
			if isNamed(a.Type(), "context.Context") {
				continue
			}
			_ = t
			return fmt.Sprintf("%s is called on a shared object with the element", shortFn(base))
		}
	}
	if pkg == "fmt" || pkg == "os" {
		return fmt.Sprintf("%s is called for each element in the order visited", shortFn(base))
	}
	return ""
}

// commutingElem: what is appended are functions built from the element that each update a map under the
// element's key: calling them in any order has the same effect.
func (m *morder) commutingElem(r *region, ap *ssa.Call) bool {
	if len(ap.Call.Args) < 2 {
		return false
	}
	sl, ok := ap.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, u := range *arr.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, uu := range *ia.Referrers() {
			st, ok := uu.(*ssa.Store)
			if !ok {
				continue
			}
			n++
			if !m.commutingFunc(r, st.Val) {
				return false
			}
		}
	}
	return n > 0
}

func (m *morder) commutingFunc(r *region, v ssa.Value) bool {
	for {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		break
	}
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return false
	}
	check := func(mc *ssa.MakeClosure, in *region) bool {
		g := mc.Fn.(*ssa.Function)
		dep, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for i, b := range mc.Bindings {
			if in.depends(b) || in.cellDep(b, in.dep) {
				dep[g.FreeVars[i]] = true
			}
			if in.keyed(b) || in.cellDep(b, in.key) {
				key[g.FreeVars[i]] = true
			}
		}
		return len(m.effects(&region{fn: g, dep: dep, key: key, what: r.what, pos: r.pos}, map[string]bool{})) == 0
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return check(x, r)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || !m.p.inModule(g) {
			return false
		}
		dep, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for i, a := range x.Call.Args {
			if r.depends(a) {
				dep[g.Params[i]] = true
			}
			if r.keyed(a) {
				key[g.Params[i]] = true
			}
		}
		sub := &region{fn: g, dep: dep, key: key}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			rv := ret.Results[0]
			if ct, ok := rv.(*ssa.ChangeType); ok {
				rv = ct.X
			}
			if _, ok := rv.(*ssa.Call); ok && rv != v {
				if !m.commutingFunc(sub, rv) {
					return false
				}
				continue
			}
			mc, ok := rv.(*ssa.MakeClosure)
			if !ok || !check(mc, sub) {
				return false
			}
		}
		return true
	}
	return false
}

// cellDep: a captured variable holds a value of the element.
func (r *region) cellDep(v ssa.Value, base map[ssa.Value]bool) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == v && r.dependsOn(st.Val, base, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}
