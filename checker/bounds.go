package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", checkC17,
		"integer arithmetic on lengths and indices does not overflow",
		"the standard library keeps its documented bounds (Split returns at least one element, Read no more than the buffer holds, a sort calls its comparison with valid indices)")
}

// ---------------------------------------------------------------- difference constraints

// bterm is an integer quantity: an SSA value, the length of one, or zero.
type bterm struct {
	v   ssa.Value // nil: the constant 0
	len bool
}

// a - b <= c
type bcons struct {
	a, b bterm
	c    int64
}

type bounds struct {
	p     *Prog
	depth int
	maps  map[string]bool
}

type bctx struct {
	bd    *bounds
	fn    *ssa.Function
	blk   *ssa.BasicBlock
	cons  []bcons
	neq   []bcons // a - b != c
	alts  []balt  // if a - b <= c then the constraints hold
	seen  map[bterm]bool
	bools map[ssa.Value]int
	busy  []bcons
	nn    map[ssa.Value]bool // values known to be non-nil
	yes   map[ssa.Value]bool // conditions known to hold
}

type balt struct {
	ifc  bcons
	then []bcons
}

var bzero = bterm{}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// bval: the value behind loads of variables assigned once, conversions that keep the value, and captures.
func (x *bctx) bval(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch y := v.(type) {
		case *ssa.ChangeType:
			v = y.X
			continue
		case *ssa.Convert:
			if isIntType(y.X.Type()) && isIntType(y.Type()) && widens(y.X.Type(), y.Type()) {
				v = y.X
				continue
			}
			if isStrOrBytes(y.X.Type()) && isStrOrBytes(y.Type()) {
				v = y.X
				continue
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if w := onlyStore(y.X); w != nil && definedBefore(w, y) {
					v = w
					continue
				}
				if fv, ok := y.X.(*ssa.FreeVar); ok {
					if w := captured(fv); w != nil {
						v = w
						continue
					}
				}
				if w := x.sameLoad(y); w != y {
					return w
				}
			}
		}
		return v
	}
	return v
}

func definedBefore(w ssa.Value, use ssa.Instruction) bool {
	in, ok := w.(ssa.Instruction)
	if !ok {
		return w.Parent() == nil || w.Parent() == use.Parent()
	}
	return in.Parent() == use.Parent() && instrDominates(in, use)
}

// onlyStore: the value of a local variable that is assigned exactly once and whose address goes nowhere else.
func onlyStore(a ssa.Value) ssa.Value {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	for _, u := range *al.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(al) || val != nil {
				return nil
			}
			val = y.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if capturedStores(y, al) {
				return nil
			}
		default:
			return nil
		}
	}
	return val
}

func capturedStores(mc *ssa.MakeClosure, al ssa.Value) bool {
	g := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != al {
			continue
		}
		for _, u := range *g.FreeVars[i].Referrers() {
			switch y := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if capturedStores(y, g.FreeVars[i]) {
					return true
				}
			default:
				return true
			}
		}
	}
	return false
}

// sameLoad: an earlier load of the same place with nothing in between that could change it.
func (x *bctx) sameLoad(ld *ssa.UnOp) ssa.Value {
	key := placeKey(ld.X)
	if key == "" {
		return ld
	}
	// walk backwards through single predecessors
	blk := ld.Block()
	var best ssa.Value = ld
	in := ssa.Instruction(ld)
	idx := len(blk.Instrs)
	for i, y := range blk.Instrs {
		if y == in {
			idx = i
		}
	}
	for steps := 0; steps < 40; steps++ {
		for i := idx - 1; i >= 0; i-- {
			switch y := blk.Instrs[i].(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL && placeKey(y.X) == key && types.Identical(y.Type(), ld.Type()) {
					best = y
				}
			case *ssa.Store:
				k := placeKey(y.Addr)
				if k == key && types.Identical(y.Val.Type(), ld.Type()) {
					return y.Val
				}
				if mayAlias(y.Addr, ld.X) {
					return best
				}
			case ssa.CallInstruction:
				if !x.bd.keeps(y, ld.X) {
					return best
				}
			}
		}
		// the block dominating this one, when every path between them keeps the place
		d := blk.Idom()
		if d == nil {
			return best
		}
		if !(len(blk.Preds) == 1 && blk.Preds[0] == d) && !x.quiet(d, blk, ld) {
			return best
		}
		blk = d
		idx = len(blk.Instrs)
	}
	return best
}

// quiet: no block strictly between d and b changes the place.
func (x *bctx) quiet(d, b *ssa.BasicBlock, ld *ssa.UnOp) bool {
	seen := map[*ssa.BasicBlock]bool{d: true}
	work := append([]*ssa.BasicBlock{}, b.Preds...)
	for len(work) > 0 {
		y := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[y] {
			continue
		}
		seen[y] = true
		for _, in := range y.Instrs {
			switch z := in.(type) {
			case *ssa.Store:
				if mayAlias(z.Addr, ld.X) {
					return false
				}
			case ssa.CallInstruction:
				if !x.bd.keeps(z, ld.X) {
					return false
				}
			}
		}
		work = append(work, y.Preds...)
	}
	return true
}

// placeKey names a field or element path from an SSA value.
func placeKey(a ssa.Value) string {
	switch y := a.(type) {
	case *ssa.FieldAddr:
		if k := placeKey(y.X); k != "" {
			return k + "." + fieldVar(y.X.Type(), y.Field).Name()
		}
	case *ssa.IndexAddr:
		k := placeKey(y.X)
		if k == "" {
			return ""
		}
		if c, ok := constInt(y.Index); ok {
			return k + "[" + itoa(int(c)) + "]"
		}
		return k + "[" + y.Index.Name() + "]"
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if k := placeKey(y.X); k != "" {
				return "*" + k
			}
		}
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Slice, *ssa.TypeAssert, *ssa.Lookup:
		return a.Name()
	case *ssa.Global:
		return y.String()
	}
	return ""
}

// mayAlias: a store to the first place could change the second.
func mayAlias(st, ld ssa.Value) bool {
	return types.Identical(st.Type(), ld.Type()) || lastField(st) != nil && lastField(st) == lastField(ld) || covers(st, ld)
}

func lastField(a ssa.Value) *types.Var {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		return fieldVar(fa.X.Type(), fa.Field)
	}
	return nil
}

// covers: the store replaces a struct that contains the loaded field.
func covers(st, ld ssa.Value) bool {
	fa, ok := ld.(*ssa.FieldAddr)
	for ok {
		if types.Identical(fa.X.Type(), st.Type()) {
			return true
		}
		fa, ok = fa.X.(*ssa.FieldAddr)
	}
	return false
}

// keeps: the call cannot change the place.
func (bd *bounds) keeps(c ssa.CallInstruction, place ssa.Value) bool {
	if _, ok := c.Common().Value.(*ssa.Builtin); ok {
		return true
	}
	if al, ok := place.(*ssa.Alloc); ok && !escapes(al) {
		return true
	}
	f := lastField(place)
	g := c.Common().StaticCallee()
	if g == nil {
		if f == nil {
			return false
		}
		return !bd.fieldAssigned(f)
	}
	if !bd.p.inModule(g) {
		return true // the library does not know the module's places (it may call back, through values of the module)
	}
	if f == nil {
		return false
	}
	return !bd.assigns(g, f, map[*ssa.Function]bool{})
}

func escapes(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch y := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.Store:
			if y.Addr != ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (bd *bounds) fieldAssigned(f *types.Var) bool {
	for _, fn := range bd.p.Funcs {
		if storesField(fn, f) {
			return true
		}
	}
	return false
}

func storesField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if lastField(st.Addr) == f {
					if fa := st.Addr.(*ssa.FieldAddr); !freshAlloc(fa.X) {
						return true
					}
				}
			}
		}
	}
	return false
}

func freshAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func (bd *bounds) assigns(g *ssa.Function, f *types.Var, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	if storesField(g, f) {
		return true
	}
	for _, h := range bd.p.callees(g) {
		if bd.p.inModule(h) && bd.assigns(h, f, seen) {
			return true
		}
	}
	for _, h := range g.AnonFuncs {
		if bd.assigns(h, f, seen) {
			return true
		}
	}
	return false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isStrOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// widens: every value of the first type is a value of the second.
func widens(a, b types.Type) bool {
	if isUnsigned(a) == isUnsigned(b) {
		return intBits(a) <= intBits(b)
	}
	return isUnsigned(a) && intBits(a) < intBits(b)
}

// lin: the integer value as a term plus a constant.
func (x *bctx) lin(v ssa.Value) (bterm, int64) {
	c := int64(0)
	for i := 0; i < 20; i++ {
		v = x.bval(v)
		if k, ok := constInt(v); ok {
			return bzero, c + k
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			if y.Op == token.ADD {
				if k, ok := constInt(x.bval(y.Y)); ok {
					c += k
					v = y.X
					continue
				}
				if k, ok := constInt(x.bval(y.X)); ok {
					c += k
					v = y.Y
					continue
				}
			}
			if y.Op == token.SUB && !isUnsigned(y.Type()) {
				if k, ok := constInt(x.bval(y.Y)); ok {
					c -= k
					v = y.X
					continue
				}
			}
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				t, k := x.linLen(y.Call.Args[0])
				return t, c + k
			}
		}
		return bterm{v: v}, c
	}
	return bterm{v: v}, c
}

// linLen: the length of a string, slice or array as a term plus a constant.
func (x *bctx) linLen(v ssa.Value) (bterm, int64) {
	c := int64(0)
	for i := 0; i < 20; i++ {
		v = x.bval(v)
		if s, ok := constStr(v); ok {
			return bzero, c + int64(len(s))
		}
		if isNilConst(v) {
			return bzero, c
		}
		if n, ok := arrayLen(v.Type()); ok {
			return bzero, c + n
		}
		switch y := v.(type) {
		case *ssa.Slice:
			lo := int64(0)
			if y.Low != nil {
				k, ok := constInt(x.bval(y.Low))
				if !ok {
					return bterm{v, true}, c
				}
				lo = k
			}
			if y.High == nil {
				c -= lo
				v = y.X
				continue
			}
			t, k := x.lin(y.High)
			return t, c + k - lo
		case *ssa.MakeSlice:
			t, k := x.lin(y.Len)
			return t, c + k
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if len(y.Call.Args) == 2 {
					if n, ok := x.fixedLen(y.Call.Args[1]); ok {
						c += n
						v = y.Call.Args[0]
						continue
					}
				}
			}
		}
		return bterm{v, true}, c
	}
	return bterm{v, true}, c
}

func arrayLen(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Len(), true
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

func (x *bctx) fixedLen(v ssa.Value) (int64, bool) {
	t, c := x.linLen(v)
	return c, t == bzero
}

func (x *bctx) add(a bterm, ca int64, b bterm, cb int64, c int64) {
	// (a+ca) - (b+cb) <= c
	k := bcons{a, b, c - ca + cb}
	for _, o := range x.cons {
		if o.a == k.a && o.b == k.b && o.c <= k.c {
			return
		}
	}
	x.cons = append(x.cons, k)
	x.mention(a)
	x.mention(b)
}

func (x *bctx) eq(a bterm, ca int64, b bterm, cb int64) {
	x.add(a, ca, b, cb, 0)
	x.add(b, cb, a, ca, 0)
}

// mention adds what the definition of the term says about it.
func (x *bctx) mention(t bterm) {
	if t.v == nil || x.seen[t] {
		return
	}
	x.seen[t] = true
	if t.len {
		x.add(bzero, 0, t, 0, 0)
		x.lenFacts(t)
		return
	}
	if isUnsigned(t.v.Type()) {
		x.add(bzero, 0, t, 0, 0)
	}
	switch y := t.v.(type) {
	case *ssa.BinOp:
		a, ca := x.lin(y.X)
		b, cb := x.lin(y.Y)
		switch y.Op {
		case token.SUB:
			if isUnsigned(y.Type()) {
				return
			}
			// b >= 0 -> v <= a ; b <= a -> v >= 0
			x.mention(a)
			x.mention(b)
			x.alts = append(x.alts,
				balt{bcons{bzero, b, cb}, []bcons{{t, a, ca}}},
				balt{bcons{b, a, ca - cb}, []bcons{{bzero, t, 0}}})
			// s[:len(s)-k]: with b = len p and a = len s nothing more is needed
		case token.ADD:
			x.mention(a)
			x.mention(b)
			x.alts = append(x.alts,
				balt{bcons{bzero, b, cb}, []bcons{{a, t, -ca}}},
				balt{bcons{bzero, a, ca}, []bcons{{b, t, -cb}}})
			// an index found by searching plus the length of what was found
			for _, p := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
				if s, sep := x.searched(p[0]); s != nil {
					l, cl := x.linLen(sep)
					m, cm := x.lin(p[1])
					if l == m && cm <= cl {
						sl, cs := x.linLen(s)
						x.add(t, 0, sl, cs, 0)
					}
				}
			}
		case token.QUO, token.SHR:
			if k, ok := constInt(x.bval(y.Y)); ok && k > 0 {
				x.mention(a)
				x.alts = append(x.alts, balt{bcons{bzero, a, ca}, []bcons{{bzero, t, 0}, {t, a, ca}}})
			}
		case token.REM:
			if k, ok := constInt(x.bval(y.Y)); ok && k > 0 {
				x.add(t, 0, bzero, 0, k-1)
				x.alts = append(x.alts, balt{bcons{bzero, a, ca}, []bcons{{bzero, t, 0}}})
			} else {
				x.mention(b)
				x.alts = append(x.alts, balt{bcons{bzero, a, ca}, []bcons{{bzero, t, 0}}},
					balt{bcons{bzero, b, cb - 1}, []bcons{{t, b, cb - 1}}})
			}
		}
	case *ssa.Phi:
		// variables that start at constants and only grow, or only shrink
		if lo, ok := x.extreme(y, 1); ok {
			x.add(bzero, lo, t, 0, 0)
		}
		if hi, ok := x.extreme(y, -1); ok {
			x.add(t, 0, bzero, hi, 0)
		}
		x.induction(y)
	case *ssa.Call:
		x.callFacts(y)
	case *ssa.Extract:
		switch z := y.Tuple.(type) {
		case *ssa.Next:
			if z.IsString && y.Index == 1 {
				if rg, ok := z.Iter.(*ssa.Range); ok {
					l, c := x.linLen(rg.X)
					x.add(bzero, 0, t, 0, 0)
					x.add(t, 0, l, c, -1)
				}
			}
		case *ssa.Call:
			if y.Index == 0 {
				n := staticName(z)
				m := n[strings.LastIndex(n, ".")+1:]
				switch {
				case m == "Read" || n == "io.ReadFull" || n == "io.ReadAtLeast" || m == "ReadAt":
					i := 0
					if !z.Call.IsInvoke() {
						i = 1
					}
					if i < len(z.Call.Args) {
						l, c := x.linLen(z.Call.Args[i])
						x.add(bzero, 0, t, 0, 0)
						x.add(t, 0, l, c, 0)
					}
				case m == "Write" || m == "WriteString" || n == "io.Copy" || n == "io.CopyN" || n == "io.CopyBuffer":
					x.add(bzero, 0, t, 0, 0)
				case n == "slices.BinarySearch" || n == "slices.BinarySearchFunc":
					l, c := x.linLen(z.Call.Args[0])
					x.add(bzero, 0, t, 0, 0)
					x.add(t, 0, l, c, 0)
				}
			}
		}
	case *ssa.Parameter:
		x.paramFacts(y)
	}
}

// induction relates the variables that move in step in one loop, and the number of entries of a map already visited.
func (x *bctx) induction(p *ssa.Phi) {
	h := p.Block()
	lo, hi, ok := stepOf(p)
	if !ok {
		return
	}
	p0, pc, ok := x.start(p)
	if !ok {
		return
	}
	for _, in := range h.Instrs {
		q, isPhi := in.(*ssa.Phi)
		if isPhi && q != p && isIntType(q.Type()) {
			ql, qh, ok := stepOf(q)
			if !ok {
				continue
			}
			q0, qc, ok := x.start(q)
			if !ok || q0 != p0 {
				continue
			}
			if hi <= ql {
				x.add(bterm{v: p}, -pc, bterm{v: q}, -qc, 0)
			}
			if lo >= qh {
				x.add(bterm{v: q}, -qc, bterm{v: p}, -pc, 0)
			}
		}
		nx, isNext := in.(*ssa.Next)
		if !isNext || nx.IsString || hi > 1 || p0 != bzero {
			continue
		}
		rg, isRange := nx.Iter.(*ssa.Range)
		iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !isRange || !isIf || h.Succs[0] == h || !h.Succs[0].Dominates(x.blk) || len(h.Succs[0].Preds) != 1 {
			continue
		}
		e, isEx := iff.Cond.(*ssa.Extract)
		if !isEx || e.Tuple != ssa.Value(nx) || e.Index != 0 || x.bd.grows(h, rg.X.Type()) {
			continue
		}
		// fewer entries than there are have been visited before this one
		l, c := x.linLen(rg.X)
		x.add(bterm{v: p}, -pc, l, c, -1)
	}
}

// start: the value before the loop.
func (x *bctx) start(p *ssa.Phi) (bterm, int64, bool) {
	var t bterm
	var c int64
	found := false
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			continue
		}
		u, k := x.lin(e)
		if found && (u != t || k != c) {
			return t, c, false
		}
		t, c, found = u, k, true
	}
	return t, c, found
}

// stepOf: the least and greatest amount added on one round of the loop.
func stepOf(p *ssa.Phi) (lo, hi int64, ok bool) {
	first := true
	n := 0
	var walk func(v ssa.Value, d int64, depth int) bool
	walk = func(v ssa.Value, d int64, depth int) bool {
		n++
		if depth > 12 || n > 200 {
			return false
		}
		if v == ssa.Value(p) {
			if first || d < lo {
				lo = d
			}
			if first || d > hi {
				hi = d
			}
			first = false
			return true
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			if k, ok := constInt(y.Y); ok && y.Op == token.ADD {
				return walk(y.X, d+k, depth+1)
			}
			if k, ok := constInt(y.Y); ok && y.Op == token.SUB && !isUnsigned(y.Type()) {
				return walk(y.X, d-k, depth+1)
			}
		case *ssa.Phi:
			if isLoopHeader(y.Block()) || !p.Block().Dominates(y.Block()) {
				return false
			}
			for _, e := range y.Edges {
				if !walk(e, d, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	back := false
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			back = true
			if !walk(e, 0, 0) {
				return 0, 0, false
			}
		}
	}
	return lo, hi, back && !first
}

// grows: the loop may add entries to a map of the type.
func (bd *bounds) grows(h *ssa.BasicBlock, t types.Type) bool {
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				if types.Identical(y.Map.Type(), t) {
					return true
				}
			case ssa.CallInstruction:
				if _, ok := y.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if g := y.Common().StaticCallee(); g == nil || bd.p.inModule(g) {
					return true
				}
			}
		}
	}
	return false
}

// extreme: the least (dir 1) or greatest (dir -1) constant that reaches the merged value, when it otherwise only moves away from it.
func (x *bctx) extreme(p *ssa.Phi, dir int64) (int64, bool) {
	set := map[*ssa.Phi]bool{p: true}
	work := []*ssa.Phi{p}
	best := int64(0)
	found := false
	for len(work) > 0 {
		y := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range y.Edges {
			b, c := x.lin(e)
			if b == bzero || dir > 0 && (b.len || isUnsigned(b.v.Type())) {
				if !found || c*dir < best*dir {
					best = c
				}
				found = true
				continue
			}
			q, ok := b.v.(*ssa.Phi)
			if b.len || !ok || c*dir < 0 || len(set) > 20 {
				return 0, false
			}
			if !set[q] {
				set[q] = true
				work = append(work, q)
			}
		}
	}
	return best, found
}

// searched: v is the position of sep in s.
func (x *bctx) searched(v ssa.Value) (s, sep ssa.Value) {
	c, ok := x.bval(v).(*ssa.Call)
	if !ok {
		return nil, nil
	}
	switch staticName(c) {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		return c.Call.Args[0], c.Call.Args[1]
	}
	return nil, nil
}

func (x *bctx) callFacts(c *ssa.Call) {
	t := bterm{v: c}
	n := staticName(c)
	if i := strings.IndexByte(n, '['); i > 0 && !strings.HasPrefix(n, "(") {
		n = n[:i]
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			x.add(bzero, 0, t, 0, 0)
			for _, a := range c.Call.Args {
				l, k := x.linLen(a)
				x.add(t, 0, l, k, 0)
			}
		case "cap":
			l, k := x.linLen(c.Call.Args[0])
			x.add(l, k, t, 0, 0)
		case "min":
			for _, a := range c.Call.Args {
				l, k := x.lin(a)
				x.add(t, 0, l, k, 0)
			}
			x.minmax(c, t, false)
		case "max":
			for _, a := range c.Call.Args {
				l, k := x.lin(a)
				x.add(l, k, t, 0, 0)
			}
		}
		return
	}
	switch n {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		x.add(bzero, -1, t, 0, 0)
		l, k := x.linLen(c.Call.Args[0])
		s, ks := x.linLen(c.Call.Args[1])
		if s == bzero {
			// position + length <= len, when found; when not, -1
			if ks > 0 {
				x.add(t, 0, l, k, -1)
			} else {
				x.add(t, 0, l, k, 0)
			}
			x.alts = append(x.alts, balt{bcons{bzero, t, 0}, []bcons{{t, l, k - ks}}})
		} else {
			x.add(t, 0, l, k, 0)
		}
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.LastIndexByte",
		"slices.Index", "slices.IndexFunc", "golang.org/x/exp/slices.Index", "golang.org/x/exp/slices.IndexFunc":
		x.add(bzero, -1, t, 0, 0)
		l, k := x.linLen(c.Call.Args[0])
		x.add(t, 0, l, k, -1)
	case "sort.Search":
		x.add(bzero, 0, t, 0, 0)
		l, k := x.lin(c.Call.Args[0])
		x.add(t, 0, l, k, 0)
	case "sort.SearchStrings", "sort.SearchInts":
		x.add(bzero, 0, t, 0, 0)
		l, k := x.linLen(c.Call.Args[0])
		x.add(t, 0, l, k, 0)
	case "(*bytes.Reader).Len", "(*strings.Reader).Len":
		x.add(bzero, 0, t, 0, 0)
		if mk, ok := x.bval(c.Call.Args[0]).(*ssa.Call); ok && (staticName(mk) == "bytes.NewReader" || staticName(mk) == "strings.NewReader") {
			l, k := x.linLen(mk.Call.Args[0])
			x.add(t, 0, l, k, 0)
		}
	case "strings.Count", "bytes.Count", "(*bytes.Buffer).Len":
		x.add(bzero, 0, t, 0, 0)
	case "math/rand.Intn", "math/rand.Int63n":
		x.add(bzero, 0, t, 0, 0)
		l, k := x.lin(c.Call.Args[0])
		x.add(t, 0, l, k, -1)
	}
}

func (x *bctx) minmax(c *ssa.Call, t bterm, _ bool) {
	lo := int64(1) << 62
	for _, a := range c.Call.Args {
		b, k := x.lin(a)
		if b == bzero {
			lo = min(lo, k)
			continue
		}
		if b.len || isUnsigned(b.v.Type()) {
			lo = min(lo, k)
			continue
		}
		return
	}
	x.add(bzero, lo, t, 0, 0)
}

var reCache = map[string]int{}

// regexGroups: the number of groups of the regular expression the value is.
func (x *bctx) regexGroups(v ssa.Value) (int64, bool) {
	v = x.bval(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			v = globalInit(g)
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		if e, ok2 := v.(*ssa.Extract); ok2 {
			c, ok = e.Tuple.(*ssa.Call)
		}
		if !ok {
			return 0, false
		}
	}
	switch staticName(c) {
	case "regexp.MustCompile", "regexp.Compile":
	default:
		return 0, false
	}
	s, ok := constStr(c.Call.Args[0])
	if !ok {
		if s, ok = foldStr(x.bval(c.Call.Args[0]), 0); !ok {
			return 0, false
		}
	}
	if n, ok := reCache[s]; ok {
		return int64(n), n >= 0
	}
	reCache[s] = -1
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return 0, false
	}
	if _, err := regexp.Compile(s); err != nil {
		return 0, false
	}
	reCache[s] = re.MaxCap()
	return int64(re.MaxCap()), true
}

// foldStr: a string put together from constants.
func foldStr(v ssa.Value, d int) (string, bool) {
	if d > 10 {
		return "", false
	}
	if s, ok := constStr(v); ok {
		return s, true
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		if y.Op == token.ADD {
			a, ok1 := foldStr(y.X, d+1)
			b, ok2 := foldStr(y.Y, d+1)
			return a + b, ok1 && ok2
		}
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
			if iv := globalInit(g); iv != nil {
				return foldStr(iv, d+1)
			}
		}
	}
	return "", false
}

// globalInit: the value a package variable is initialised with, when it is never assigned elsewhere.
func globalInit(g *ssa.Global) ssa.Value {
	if g.Pkg == nil {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						val = st.Val
						n++
						if f.Name() != "init" {
							n += 2
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				rec(a)
			}
		}
		rec(f)
	}
	if n != 1 {
		return nil
	}
	return val
}

// lenFacts: what the definition of a string or slice says about its length.
func (x *bctx) lenFacts(t bterm) {
	switch y := t.v.(type) {
	case *ssa.Slice:
		// s[lo:hi] with a variable lo
		l, cl := x.linLen(y.X)
		lo, clo := x.lin(y.Low)
		x.mention(lo)
		if y.High == nil {
			x.add(t, 0, l, cl, 0) // lo >= 0, or it has panicked before
			if lo.v != nil {
				x.alts = append(x.alts, balt{bcons{bzero, bzero, 0}, []bcons{}})
			}
			// len = len(s) - lo: with one of them known exactly
			_ = clo
		} else {
			hi, chi := x.lin(y.High)
			x.add(t, 0, hi, chi, 0)
			x.add(t, 0, l, cl, 0)
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" {
				for _, a := range y.Call.Args {
					l, c := x.linLen(a)
					x.add(l, c, t, 0, 0)
				}
			}
			return
		}
		n := staticName(y)
		switch n {
		case "strings.Split", "bytes.Split", "strings.SplitAfter", "bytes.SplitAfter":
			if s, ok := constStr(y.Call.Args[1]); ok && s != "" {
				x.add(bzero, 1, t, 0, 0)
			}
		case "strings.SplitN", "bytes.SplitN", "strings.SplitAfterN":
			if s, ok := constStr(y.Call.Args[1]); ok && s != "" {
				if k, ok := constInt(y.Call.Args[2]); ok && k != 0 {
					x.add(bzero, 1, t, 0, 0)
					if k > 0 {
						x.add(t, 0, bzero, k, 0)
					}
				}
			}
		case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch":
			if k, ok := x.regexGroups(y.Call.Args[0]); ok {
				x.add(t, 0, bzero, k+1, 0)
				x.alts = append(x.alts, balt{bcons{bzero, t, -1}, []bcons{{bzero, t, -(k + 1)}}})
				if x.nonNil(y) {
					x.add(bzero, k+1, t, 0, 0)
				}
			}
		case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex":
			x.alts = append(x.alts, balt{bcons{bzero, t, -1}, []bcons{{bzero, t, -2}}})
			if x.nonNil(y) {
				x.add(bzero, 2, t, 0, 0)
			}
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "bytes.TrimSpace", "bytes.TrimPrefix", "bytes.TrimSuffix":
			l, c := x.linLen(y.Call.Args[0])
			x.add(t, 0, l, c, 0)
		case "path/filepath.Base", "path.Base", "path.Clean", "path/filepath.Clean", "path.Dir", "path/filepath.Dir":
			x.add(bzero, 1, t, 0, 0)
		case "slices.Clone":
			l, c := x.linLen(y.Call.Args[0])
			x.eq(t, 0, l, c)
		case "crypto/sha1.Sum":
		}
		if strings.HasPrefix(n, "slices.Clone[") || strings.HasPrefix(n, "golang.org/x/exp/slices.Clone[") {
			l, c := x.linLen(y.Call.Args[0])
			x.eq(t, 0, l, c)
		}
	case *ssa.UnOp:
		// an element of all the matches of a regular expression
		if y.Op == token.MUL {
			if ia, ok := y.X.(*ssa.IndexAddr); ok {
				if c, ok := x.bval(ia.X).(*ssa.Call); ok {
					switch staticName(c) {
					case "strings.Fields", "bytes.Fields":
						x.add(bzero, 1, t, 0, 0)
					case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindAllSubmatch":
						if k, ok := x.regexGroups(c.Call.Args[0]); ok {
							x.add(bzero, k+1, t, 0, 0)
							x.add(t, 0, bzero, k+1, 0)
						}
					}
				}
			}
			if g, ok := y.X.(*ssa.Global); ok {
				if iv := globalInit(g); iv != nil {
					if n, ok := x.fixedLen(iv); ok {
						x.add(bzero, n, t, 0, 0)
						x.add(t, 0, bzero, n, 0)
					}
				}
			}
		}
	case *ssa.Phi:
		lo := int64(1) << 62
		for _, e := range y.Edges {
			l, c := x.linLen(e)
			if l == t && c >= 0 {
				continue
			}
			if l != bzero {
				c = max(0, c)
				if l.v != nil {
					// at least what is known of it without conditions
					c = 0
				}
			}
			lo = min(lo, c)
		}
		if lo > 0 && lo < 1<<62 {
			x.add(bzero, lo, t, 0, 0)
		}
		// slices that grow together
		for _, in := range y.Block().Instrs {
			q, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if q == y || !hasLen(q.Type()) {
				continue
			}
			same := true
			for i := range y.Edges {
				a, ca := x.linLen(y.Edges[i])
				b, cb := x.linLen(q.Edges[i])
				if ca != cb || !(a == b || a == t && b == (bterm{q, true})) {
					same = false
				}
			}
			if same {
				x.eq(t, 0, bterm{q, true}, 0)
			}
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			_ = c
		}
	}
}

// nonNil: the value was compared with nil.
func (x *bctx) nonNil(v ssa.Value) bool {
	return x.nn[v]
}

// conds adds the conditions under which the block is reached.
func (x *bctx) conds(b *ssa.BasicBlock) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		x.cond(iff.Cond, p.Succs[0] == d, 0)
	}
}

func (x *bctx) edgeCond(p, to *ssa.BasicBlock) {
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		x.cond(iff.Cond, p.Succs[0] == to, 0)
	}
}

func (x *bctx) cond(c ssa.Value, outcome bool, depth int) {
	if depth > 6 {
		return
	}
	if outcome {
		x.yes[c] = true
	}
	switch y := c.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			x.cond(y.X, !outcome, depth+1)
		} else if w := x.bval(y); w != c {
			x.cond(w, outcome, depth+1)
		}
	case *ssa.Phi:
		// a && b or a || b kept in a variable
		var only ssa.Value
		var from *ssa.BasicBlock
		for i, e := range y.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != outcome {
				continue
			}
			if only != nil {
				return
			}
			only = e
			from = y.Block().Preds[i]
		}
		if only != nil {
			x.cond(only, outcome, depth+1)
			x.edgeCond(from, y.Block())
			x.conds(from)
		}
	case *ssa.Call:
		x.predicate(y, outcome, depth)
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			switch staticName(call) {
			case "strings.CutPrefix", "strings.CutSuffix":
				if outcome && y.Index == 1 {
					a, ca := x.linLen(call.Call.Args[0])
					b, cb := x.linLen(call.Call.Args[1])
					x.add(b, cb, a, ca, 0)
				}
			}
		}
	case *ssa.BinOp:
		op := y.Op
		if !outcome {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				return
			}
		}
		if isIntType(y.X.Type()) {
			a, ca := x.lin(y.X)
			b, cb := x.lin(y.Y)
			switch op {
			case token.EQL:
				x.eq(a, ca, b, cb)
			case token.NEQ:
				x.mention(a)
				x.mention(b)
				x.neq = append(x.neq, bcons{a, b, cb - ca})
			case token.LSS:
				x.add(a, ca, b, cb, -1)
			case token.LEQ:
				x.add(a, ca, b, cb, 0)
			case token.GTR:
				x.add(b, cb, a, ca, -1)
			case token.GEQ:
				x.add(b, cb, a, ca, 0)
			}
			return
		}
		for _, p := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
			if s, ok := constStr(p[1]); ok {
				a, ca := x.linLen(p[0])
				if op == token.EQL {
					x.eq(a, ca, bzero, int64(len(s)))
				} else if op == token.NEQ && s == "" {
					x.add(bzero, 1, a, ca, 0)
				}
			}
			if isNilConst(p[1]) {
				v := x.bval(p[0])
				if op == token.NEQ {
					x.nn[v] = true
					delete(x.seen, bterm{v, true})
					if _, ok := v.Type().Underlying().(*types.Slice); ok {
						x.mention(bterm{v, true})
					}
				} else {
					if _, ok := v.Type().Underlying().(*types.Slice); ok {
						x.eq(bterm{v, true}, 0, bzero, 0)
					}
					x.nilErr(v)
				}
			}
		}
		if b, ok := y.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && op == token.EQL {
			a, ca := x.linLen(y.X)
			c2, cc := x.linLen(y.Y)
			x.eq(a, ca, c2, cc)
		}
	}
}

// predicate: what a true or false answer of a call says about lengths.
func (x *bctx) predicate(c *ssa.Call, outcome bool, depth int) {
	switch staticName(c) {
	case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix", "strings.Contains", "bytes.Contains":
		if outcome {
			a, ca := x.linLen(c.Call.Args[0])
			b, cb := x.linLen(c.Call.Args[1])
			x.add(b, cb, a, ca, 0)
		}
		return
	}
	// a predicate of the module: its answer implies what it tests
	g := c.Call.StaticCallee()
	if g == nil || !x.bd.p.inModule(g) || len(g.Blocks) == 0 || depth > 3 {
		return
	}
	x.imported(c, g, func(r *ssa.Return) int {
		if len(r.Results) != 1 {
			return -1
		}
		if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) == outcome {
				return 1
			}
			return 0
		}
		return 2
	}, outcome)
}

// nilErr: the error of a call of the module is nil: what holds at its successful returns holds of the arguments and results.
func (x *bctx) nilErr(v ssa.Value) {
	var call *ssa.Call
	switch y := v.(type) {
	case *ssa.Extract:
		call, _ = y.Tuple.(*ssa.Call)
		if call != nil && y.Index != call.Call.Signature().Results().Len()-1 {
			return
		}
	case *ssa.Call:
		call = y
	}
	if call == nil || !isErrType(v.Type()) {
		return
	}
	g := call.Call.StaticCallee()
	if g == nil || !x.bd.p.inModule(g) || len(g.Blocks) == 0 {
		return
	}
	n := g.Signature.Results().Len()
	x.imported(call, g, func(r *ssa.Return) int {
		e := spilled(r.Results[n-1])
		if isNilConst(e) {
			return 1
		}
		if (&failure{p: x.bd.p}).fails(e, r.Block()) {
			return 0
		}
		return 2
	}, true)
}

// imported: the bounds on the lengths of arguments and results that hold at every return with the answer.
func (x *bctx) imported(call *ssa.Call, g *ssa.Function, answers func(*ssa.Return) int, outcome bool) {
	if x.bd.depth > 2 {
		return
	}
	x.bd.depth++
	defer func() { x.bd.depth-- }()
	type pt struct {
		of   bterm // at the call
		inG  func(r *ssa.Return, y *bctx) (bterm, int64)
		size bool
	}
	var pts []pt
	for i, p := range g.Params {
		i, p := i, p
		if i >= len(call.Call.Args) {
			break
		}
		if hasLen(p.Type()) {
			l, c := x.linLen(call.Call.Args[i])
			if l == bzero || c != 0 {
				continue
			}
			pts = append(pts, pt{of: l, inG: func(_ *ssa.Return, y *bctx) (bterm, int64) { return y.linLen(p) }})
		} else if isIntType(p.Type()) {
			l, c := x.lin(call.Call.Args[i])
			if l == bzero || c != 0 {
				continue
			}
			pts = append(pts, pt{of: l, inG: func(_ *ssa.Return, y *bctx) (bterm, int64) { return y.lin(p) }})
		}
	}
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		i := i
		var v ssa.Value = call
		if res.Len() > 1 {
			v = nil
			if e := extractOf(call, i); e != nil {
				v = e
			}
		}
		if v == nil {
			continue
		}
		if hasLen(res.At(i).Type()) {
			pts = append(pts, pt{of: bterm{v, true}, inG: func(r *ssa.Return, y *bctx) (bterm, int64) { return y.linLen(spilled(r.Results[i])) }})
		} else if isIntType(res.At(i).Type()) {
			pts = append(pts, pt{of: bterm{v: v}, inG: func(r *ssa.Return, y *bctx) (bterm, int64) { return y.lin(spilled(r.Results[i])) }})
		}
	}
	if len(pts) == 0 || len(pts) > 8 {
		return
	}
	pts = append(pts, pt{of: bzero, inG: func(*ssa.Return, *bctx) (bterm, int64) { return bzero, 0 }})
	n := 0
	const inf = int64(1) << 60
	best := map[[2]int]int64{}
	for _, r := range returnsOf(g) {
		a := answers(r)
		if a < 0 {
			return
		}
		if a == 0 {
			continue
		}
		y := x.bd.at(g, r.Block())
		if a == 2 && len(r.Results) == 1 {
			y.cond(r.Results[0], outcome, 1)
		}
		n++
		var ts []bterm
		var cs []int64
		for _, p := range pts {
			t, c := p.inG(r, y)
			y.mention(t)
			ts = append(ts, t)
			cs = append(cs, c)
		}
		y.close()
		for i := range pts {
			for j := range pts {
				if i == j {
					continue
				}
				d := y.dist(ts[i], ts[j])
				if d < inf {
					d += cs[i] - cs[j]
				}
				k := [2]int{i, j}
				if o, ok := best[k]; !ok && n == 1 || ok && d > o {
					best[k] = d
				}
			}
		}
	}
	if n == 0 {
		return
	}
	for k, d := range best {
		if d < inf {
			x.add(pts[k[0]].of, 0, pts[k[1]].of, 0, d)
		}
	}
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// dist: the least c with a - b <= c that follows.
func (x *bctx) dist(a, b bterm) int64 {
	const inf = int64(1) << 60
	if a == b {
		return 0
	}
	d := map[bterm]int64{a: 0}
	for i := 0; i < len(x.cons)+1; i++ {
		ch := false
		for _, c := range x.cons {
			// a - c.a <= d(c.a); c.a - c.b <= c.c
			if da, ok := d[c.a]; ok {
				if o, ok := d[c.b]; !ok || da+c.c < o {
					d[c.b] = da + c.c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
		if i > 60 {
			break
		}
	}
	if v, ok := d[b]; ok {
		return v
	}
	return inf
}

// infeasible: the constraints contradict each other, so the place is not reached.
func (x *bctx) infeasible() bool {
	seen := map[bterm]bool{}
	for _, c := range x.cons {
		if seen[c.a] {
			continue
		}
		seen[c.a] = true
		// a cycle of negative length through c.a
		for _, e := range x.cons {
			if e.b == c.a {
				if d := x.dist(c.a, e.a); d < 1<<59 && d+e.c < 0 {
					return true
				}
			}
		}
	}
	return false
}

func (x *bctx) close() {
	for i := 0; i < 8; i++ {
		n := len(x.cons)
		for _, a := range x.alts {
			if x.dist(a.ifc.a, a.ifc.b) <= a.ifc.c {
				for _, t := range a.then {
					x.add(t.a, 0, t.b, 0, t.c)
				}
			}
		}
		for _, q := range x.neq {
			if x.dist(q.a, q.b) == q.c {
				x.add(q.a, 0, q.b, 0, q.c-1)
			}
			if x.dist(q.b, q.a) == -q.c {
				x.add(q.b, 0, q.a, 0, -q.c-1)
			}
		}
		if len(x.cons) == n {
			return
		}
	}
}

// at: everything known where the block is entered.
func (bd *bounds) at(fn *ssa.Function, b *ssa.BasicBlock) *bctx {
	x := &bctx{bd: bd, fn: fn, blk: b, seen: map[bterm]bool{}, nn: map[ssa.Value]bool{}, yes: map[ssa.Value]bool{}}
	x.conds(b)
	// a function literal runs after it was made
	for f, d := fn, 0; f.Parent() != nil && d < 4; f, d = f.Parent(), d+1 {
		if mc := makerOf(f); mc != nil {
			x.conds(mc.Block())
		}
	}
	return x
}

// goal: a + ca - (b + cb) <= c, as values.
type bgoal struct {
	a, b       ssa.Value
	alen, blen bool
	c          int64
}

func (x *bctx) side(v ssa.Value, l bool) (bterm, int64) {
	if v == nil {
		return bzero, 0
	}
	if l {
		return x.linLen(v)
	}
	return x.lin(v)
}

// prove the goal where the instruction is.
func (bd *bounds) prove(fn *ssa.Function, b *ssa.BasicBlock, g bgoal, hyp []bgoal, depth int) bool {
	x := bd.at(fn, b)
	return bd.proveIn(x, g, hyp, depth)
}

func (bd *bounds) proveIn(x *bctx, g bgoal, hyp []bgoal, depth int) bool {
	for _, h := range hyp {
		a, ca := x.side(h.a, h.alen)
		b, cb := x.side(h.b, h.blen)
		x.add(a, ca, b, cb, h.c)
	}
	a, ca := x.side(g.a, g.alen)
	b, cb := x.side(g.b, g.blen)
	x.mention(a)
	x.mention(b)
	x.close()
	need := g.c - ca + cb
	if x.dist(a, b) <= need || x.infeasible() {
		return true
	}
	if depth > 6 {
		return false
	}
	// case split on a merged value
	for _, t := range []bterm{a, b} {
		phi, ok := t.v.(*ssa.Phi)
		if !ok || phi.Parent() != x.fn {
			continue
		}
		ng := bgoal{c: need, a: a.v, alen: a.len, b: b.v, blen: b.len}
		all := true
		for i, e := range phi.Edges {
			pred := phi.Block().Preds[i]
			eg := ng
			if ng.a == ssa.Value(phi) {
				eg.a = e
			}
			if ng.b == ssa.Value(phi) {
				eg.b = e
			}
			// the other side must mean the same there
			if o := otherSide(ng, phi); o != nil {
				if in, ok := o.(ssa.Instruction); ok && !in.Block().Dominates(pred) {
					all = false
					break
				}
				if op, ok := o.(*ssa.Phi); ok && op.Block() == phi.Block() && o != ssa.Value(phi) {
					if ng.a == ssa.Value(op) {
						eg.a = op.Edges[i]
					}
					if ng.b == ssa.Value(op) {
						eg.b = op.Edges[i]
					}
				}
			}
			nh := append([]bgoal{}, hyp...)
			if phi.Block().Dominates(pred) {
				nh = append(nh, ng)
			}
			y := bd.at(x.fn, pred)
			y.edgeCond(pred, phi.Block())
			if len(hyp) < 5 && !bd.proveIn(y, eg, nh, depth+1) {
				all = false
				break
			}
			if len(hyp) >= 5 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	// the callers of an unexported function guarantee it
	if x.callerSide(a) && x.callerSide(b) && (a.v != nil || b.v != nil) {
		return bd.atCallers(x.fn, bgoal{a: a.v, alen: a.len, b: b.v, blen: b.len, c: need}, depth+1)
	}
	// or what is missing between two quantities of theirs, or of those of an enclosing function
	if depth <= 2 && len(hyp) == 0 {
		for f := x.fn; f != nil; f = f.Parent() {
			if f.Parent() == nil && isExportedFn(f) {
				break
			}
			if bd.betweenParams(x, f, a, b, need, depth) {
				return true
			}
		}
	}
	return false
}

func (bd *bounds) betweenParams(x *bctx, f *ssa.Function, a, b bterm, need int64, depth int) bool {
	theirs := func(t bterm) bool {
		if f == x.fn {
			return x.callerSide(t)
		}
		p, ok := t.v.(*ssa.Parameter)
		return t.v == nil || ok && p.Parent() == f
	}
	terms := []bterm{bzero}
	have := map[bterm]bool{bzero: true}
	mention := func(t bterm) {
		if !have[t] && theirs(t) {
			have[t] = true
			terms = append(terms, t)
		}
	}
	for _, c := range x.cons {
		mention(c.a)
		mention(c.b)
	}
	mention(a)
	mention(b)
	for _, t1 := range terms {
		d1 := x.dist(a, t1)
		if d1 >= 1<<59 {
			continue
		}
		for _, t2 := range terms {
			d2 := x.dist(t2, b)
			if d2 >= 1<<59 || t1 == t2 || f == x.fn && t1 == a && t2 == b {
				continue
			}
			if bd.atCallers(f, bgoal{a: t1.v, alen: t1.len, b: t2.v, blen: t2.len, c: need - d1 - d2}, depth+1) {
				return true
			}
		}
	}
	return false
}

func otherSide(g bgoal, phi *ssa.Phi) ssa.Value {
	if g.a == ssa.Value(phi) {
		return g.b
	}
	return g.a
}

func (x *bctx) callerSide(t bterm) bool {
	switch y := t.v.(type) {
	case nil:
		return true
	case *ssa.Parameter:
		return y.Parent() == x.fn
	case *ssa.UnOp:
		// a captured variable
		if fv, ok := y.X.(*ssa.FreeVar); ok && y.Op == token.MUL {
			return captured(fv) != nil
		}
	case *ssa.FreeVar:
		return true
	}
	return false
}

// captured: the one value a captured variable holds.
func captured(fv *ssa.FreeVar) ssa.Value {
	mc := makerOf(fv.Parent())
	if mc == nil {
		return nil
	}
	for i, v := range fv.Parent().FreeVars {
		if v == fv {
			if w := onlyStore(mc.Bindings[i]); w != nil && definedBefore(w, mc) {
				return w
			}
		}
	}
	return nil
}

func makerOf(g *ssa.Function) *ssa.MakeClosure {
	if g.Parent() == nil {
		return nil
	}
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
				return mc
			}
		}
	}
	return nil
}

func (bd *bounds) atCallers(fn *ssa.Function, g bgoal, depth int) bool {
	if depth > 6 {
		return false
	}
	if fn.Parent() != nil {
		return bd.atMaker(fn, g, depth)
	}
	if isExportedFn(fn) {
		return false
	}
	sites := bd.sites(fn)
	if len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		sub := func(v ssa.Value) ssa.Value {
			if p, ok := v.(*ssa.Parameter); ok {
				for i, q := range fn.Params {
					if p == q && i < len(s.Common().Args) {
						return s.Common().Args[i]
					}
				}
			}
			return v
		}
		ng := g
		ng.a, ng.b = sub(g.a), sub(g.b)
		if (ng.a == g.a && g.a != nil) || (ng.b == g.b && g.b != nil) {
			return false
		}
		if !bd.prove(s.Parent(), s.Block(), ng, nil, depth+1) {
			return false
		}
	}
	return true
}

// atMaker: a closure's captured values, where it is made; and the indices a sort hands to its comparison.
func (bd *bounds) atMaker(fn *ssa.Function, g bgoal, depth int) bool {
	mc := makerOf(fn)
	if mc == nil {
		return false
	}
	sub := func(v ssa.Value) (ssa.Value, bool) {
		switch y := v.(type) {
		case nil:
			return nil, true
		case *ssa.UnOp:
			if fv, ok := y.X.(*ssa.FreeVar); ok {
				w := captured(fv)
				return w, w != nil
			}
		case *ssa.FreeVar:
			for i, q := range fn.FreeVars {
				if q == y {
					return mc.Bindings[i], true
				}
			}
		}
		return nil, false
	}
	ng := g
	var ok1, ok2 bool
	ng.a, ok1 = sub(g.a)
	ng.b, ok2 = sub(g.b)
	if !ok1 || !ok2 {
		return false
	}
	return bd.prove(mc.Parent(), mc.Block(), ng, nil, depth+1)
}

// sites: the calls of an unexported function, when all of its uses are calls.
func (bd *bounds) sites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range bd.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					out = append(out, c)
					for _, a := range c.Common().Args {
						if a == ssa.Value(fn) {
							return nil
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						return nil
					}
				}
			}
		}
	}
	return out
}

// paramFacts: an index method of sort.Interface is called with valid indices; nothing else is known of a parameter.
func (x *bctx) paramFacts(p *ssa.Parameter) {
	f := p.Parent()
	if f.Parent() != nil && isIntType(p.Type()) {
		x.sortIndex(p)
		return
	}
	if f.Signature.Recv() == nil || len(f.Params) != 3 || f.Name() != "Less" && f.Name() != "Swap" {
		return
	}
	if !isIntType(f.Params[1].Type()) || !isIntType(f.Params[2].Type()) || !hasMethod(f.Signature.Recv().Type(), "Len") {
		return
	}
	x.add(bzero, 0, bterm{v: p}, 0, 0)
	if hasLen(f.Params[0].Type()) {
		l, c := x.linLen(f.Params[0])
		x.add(bterm{v: p}, 0, l, c, -1)
	}
}

// sortIndex: sort.Slice hands its comparison valid indices of the slice, sort.Search those below its bound.
func (x *bctx) sortIndex(p *ssa.Parameter) {
	f := p.Parent()
	mc := makerOf(f)
	if mc == nil {
		return
	}
	t := bterm{v: p}
	for _, u := range *mc.Referrers() {
		c, ok := u.(ssa.CallInstruction)
		if !ok {
			continue
		}
		switch staticName(c) {
		case "sort.Search":
			x.add(bzero, 0, t, 0, 0)
			l, k := x.lin(c.Common().Args[0])
			x.add(t, 0, l, k, -1)
		case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
			sl := c.Common().Args[0]
			if mi, ok := sl.(*ssa.MakeInterface); ok {
				sl = mi.X
			}
			x.add(bzero, 0, t, 0, 0)
			l, k := x.linLen(sl)
			x.add(t, 0, l, k, -1)
			ld, ok := sl.(*ssa.UnOp)
			if !ok {
				continue
			}
			for i, b := range mc.Bindings {
				if b != ld.X || capturedStores(mc, b) {
					continue
				}
				for _, w := range *f.FreeVars[i].Referrers() {
					if y, ok := w.(*ssa.UnOp); ok {
						l, k := x.linLen(y)
						x.add(t, 0, l, k, -1)
					}
				}
			}
		}
	}
}

// indexMap: a value found in a map kept beside a slice is an index into it.
func (bd *bounds) indexMap(x *bctx, idx, seq ssa.Value) bool {
	sf, sbase := fieldLoad(seq)
	return sf != nil && bd.indexMapOf(x, idx, sf, sbase, 0)
}

func (bd *bounds) indexMapOf(x *bctx, idx ssa.Value, sf *types.Var, sbase ssa.Value, depth int) bool {
	idx = x.bval(idx)
	if p, ok := idx.(*ssa.Parameter); ok && depth < 4 && p.Parent() == x.fn && x.fn.Parent() == nil && !isExportedFn(x.fn) {
		// handed in, together with what holds the map and the slice
		at := func(v ssa.Value) int {
			for i, q := range x.fn.Params {
				if v == ssa.Value(q) {
					return i
				}
			}
			return -1
		}
		i, j := at(p), at(sbase)
		sites := bd.sites(x.fn)
		if i < 0 || j < 0 || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if !bd.indexMapOf(bd.at(s.Parent(), s.Block()), s.Common().Args[i], sf, s.Common().Args[j], depth+1) {
				return false
			}
		}
		return true
	}
	var m ssa.Value
	switch y := idx.(type) {
	case *ssa.Extract:
		if nx, ok := y.Tuple.(*ssa.Next); ok && y.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				m = rg.X
				break
			}
		}
		lk, _ := y.Tuple.(*ssa.Lookup)
		if lk == nil || y.Index != 0 {
			return false
		}
		m = lk.X
		found := false
		for v := range x.yes {
			if e, ok := v.(*ssa.Extract); ok && e.Tuple == ssa.Value(lk) && e.Index == 1 {
				found = true
			}
		}
		if !found {
			return false
		}
	default:
		return false
	}
	mf, mbase := fieldLoad(m)
	if mf == nil || sf == nil || mbase != sbase {
		return false
	}
	key := mf.Pkg().Path() + mf.Name() + sf.Name()
	if v, ok := bd.maps[key]; ok {
		return v
	}
	bd.maps[key] = false
	good := true
	for _, fn := range bd.p.Funcs {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.MapUpdate:
					f, base := fieldLoad(y.Map)
					if f != mf {
						continue
					}
					ok := false
					// the index of the element appended right after, or of one that is there
					grown := false
					var before ssa.Value
					for _, z := range b.Instrs[i+1:] {
						if st, ok := z.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && lastField(fa) == sf && fa.X == base {
								if app := appended(st.Val); app != nil {
									if f2, b2 := fieldLoad(app); f2 == sf && b2 == base {
										grown = true
										before = app
									}
								}
							}
						}
					}
					z := bd.at(fn, b)
					if grown {
						t, c := z.lin(y.Value)
						l, k := z.linLen(before)
						ok = t == l && c == k || bd.proveIn(z, bgoal{a: y.Value, b: before, blen: true}, nil, 0)
						ok = ok && bd.prove(fn, b, bgoal{b: y.Value}, nil, 0)
					}
					if !ok {
						good = false
					}
				case *ssa.Store:
					switch lastField(y.Addr) {
					case sf:
						fa := y.Addr.(*ssa.FieldAddr)
						if app := appended(y.Val); app != nil {
							if f2, b2 := fieldLoad(app); f2 == sf && b2 == fa.X {
								continue
							}
						}
						if !freshAlloc(fa.X) {
							good = false
						}
					case mf:
						fa := y.Addr.(*ssa.FieldAddr)
						if _, ok := y.Val.(*ssa.MakeMap); !ok || !freshAlloc(fa.X) {
							good = false
						}
					}
				}
			}
		}
	}
	bd.maps[key] = good
	return good
}

func appended(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func fieldLoad(v ssa.Value) (*types.Var, ssa.Value) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil, nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil, nil
	}
	return fieldVar(fa.X.Type(), fa.Field), fa.X
}

// ---------------------------------------------------------------- lengths of slices kept in fields

// mstate: length of the field now, minus a, is at least k; the non-nil values are known to be so.
type mstate struct {
	base ssa.Value
	a    bterm
	cur  bool // a is the length of the field itself
	k    int64
	nn   []ssa.Value
}

func (m *mstate) key(b *ssa.BasicBlock) string {
	s := itoa(b.Index) + "|" + m.base.Name() + "|"
	if m.cur {
		s += "cur"
	} else if m.a.v != nil {
		s += m.a.v.Name()
		if m.a.len {
			s += "#"
		}
	}
	for _, v := range m.nn {
		s += "," + v.Name()
	}
	return s
}

// memProof follows the control flow backwards from an index into a slice kept in a field, looking for the place it was made long enough.
func (bd *bounds) memProof(fn *ssa.Function, b *ssa.BasicBlock, idx, seq ssa.Value) bool {
	x := bd.at(fn, b)
	f, base := fieldLoad(seq)
	if f == nil {
		return false
	}
	ld := seq.(*ssa.UnOp)
	if ld.Block() != b {
		return false
	}
	start := 0
	for i, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			start = i + 1
		}
	}
	var nn []ssa.Value
	for v := range x.nn {
		if _, ok := v.(*ssa.Phi); ok {
			nn = append(nn, v)
		}
	}
	sortVals(nn)
	t, c := x.lin(idx)
	up := mstate{base: base, a: t, k: c + 1, nn: nn}
	if !bd.back(x, fn, f, b, start, up, map[string]int64{}) {
		return false
	}
	// and not negative: len - n with n at most the length
	if bd.prove(fn, b, bgoal{b: idx}, nil, 0) {
		return true
	}
	if t.len && t.v != nil {
		lf, lb := fieldLoad(t.v)
		if lf == f && lb == base {
			return bd.back(x, fn, f, b, start, mstate{base: base, k: -c, nn: nn}, map[string]int64{})
		}
	}
	return false
}

func sortVals(vs []ssa.Value) {
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			if vs[j].Name() < vs[i].Name() {
				vs[i], vs[j] = vs[j], vs[i]
			}
		}
	}
}

func (bd *bounds) back(x *bctx, fn *ssa.Function, f *types.Var, b *ssa.BasicBlock, i int, m mstate, seen map[string]int64) bool {
	done := func() bool { return (m.cur || m.a == bzero) && m.k <= 0 }
	for i--; i >= 0; i-- {
		if done() {
			return true
		}
		switch y := b.Instrs[i].(type) {
		case *ssa.Alloc:
			if ssa.Value(y) == m.base {
				return false
			}
			for j, v := range m.nn {
				if v == ssa.Value(y) {
					m.nn = append(append([]ssa.Value{}, m.nn[:j]...), m.nn[j+1:]...)
					break
				}
			}
		case *ssa.UnOp:
			if m.a.len && m.a.v == ssa.Value(y) {
				if lf, lb := fieldLoad(y); lf == f && lb == m.base {
					m.cur = true
					m.a = bzero
				}
			}
		case *ssa.Store:
			fa, ok := y.Addr.(*ssa.FieldAddr)
			if !ok || lastField(fa) != f {
				if types.Identical(y.Addr.Type(), m.base.Type()) {
					return false
				}
				continue
			}
			if fa.X != m.base {
				return false
			}
			l, c := x.linLen(y.Val)
			if l == bzero {
				return m.a == bzero && !m.cur && c >= m.k
			}
			lf, lb := fieldLoad(l.v)
			if lf != f || lb != m.base || !l.len || l.v.(*ssa.UnOp).Block() != b {
				return false
			}
			if m.cur {
				return false
			}
			m.k -= c
		case ssa.CallInstruction:
			if bi, ok := y.Common().Value.(*ssa.Builtin); ok {
				_ = bi
				continue
			}
			g := y.Common().StaticCallee()
			if g != nil && !bd.p.inModule(g) {
				continue
			}
			if g == nil && !bd.fieldAssigned(f) || g != nil && !bd.assigns(g, f, map[*ssa.Function]bool{}) {
				continue
			}
			return false
		}
	}
	if done() {
		return true
	}
	// the same requirement, or a stronger one, is already being discharged here
	k := m.key(b)
	if w, ok := seen[k]; ok && m.k <= w {
		return true
	}
	seen[k] = m.k
	if len(b.Preds) == 0 || m.k > 64 || m.k < -64 {
		return false
	}
	for pi, p := range b.Preds {
		n := m
		sub := func(v ssa.Value) ssa.Value {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
				return ph.Edges[pi]
			}
			return v
		}
		n.base = sub(m.base)
		if m.a.v != nil && !m.a.len {
			if w := sub(m.a.v); w != m.a.v {
				t, c := x.lin(w)
				n.a = t
				n.k += c
			}
		}
		n.nn = nil
		dead := false
		for _, v := range m.nn {
			w := sub(v)
			if isNilConst(w) {
				dead = true
			}
			n.nn = append(n.nn, w)
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && !dead {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && p.Succs[0] != p.Succs[1] {
				isEq := (bo.Op == token.EQL) == (p.Succs[0] == b)
				for _, v := range n.nn {
					if isEq && (bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
						dead = true
					}
				}
			}
		}
		if dead {
			continue
		}
		if !bd.back(x, fn, f, p, len(p.Instrs), n, seen) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- the property

func checkC17(c *Ctx) {
	c.Rule("every index into a string, slice or array and every bound of a slice expression in the module is shown to be within the length, by difference constraints from the branch conditions that dominate it, the definitions of the values, the documented results of the standard library, the successful returns of the module's own helpers and, for unexported helpers, every call site")
	bd := &bounds{p: c.P, maps: map[string]bool{}}
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" && fn.Parent() == nil {
			continue
		}
		if o := outermost(fn); o.Pkg != nil && o.Pkg.Pkg.Path() == modPath+"/pkg/fs" {
			continue // filesystems move data; they do not parse it
		}
		c.Funcs[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bd.instr(c, fn, b, in)
			}
		}
	}
	c.AtLeast("in-range", 20, "index and slice expressions")
}

func (bd *bounds) instr(c *Ctx, fn *ssa.Function, b *ssa.BasicBlock, in ssa.Instruction) {
	other := func(g bgoal) bool {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		return bd.indexMap(bd.at(fn, b), ia.Index, ia.X) || bd.memProof(fn, b, ia.Index, ia.X)
	}
	check := func(what string, gs ...bgoal) {
		name := what + " in " + outermost(fn).String()
		name = strings.ReplaceAll(name, modPath+"/", "")
		for _, g := range gs {
			if !bd.prove(fn, b, g, nil, 0) && !other(g) {
				c.Bad("in-range", name, c.P.instrPos(in), "not shown to be within range")
				return
			}
		}
		c.OK("in-range", name, c.P.instrPos(in), "")
	}
	index := func(what string, seq, idx ssa.Value) {
		if n, ok := arrayLen(seq.Type()); ok {
			if k, ok := constInt(idx); ok && k >= 0 && k < n {
				return
			}
			check(what, bgoal{b: idx}, bgoal{a: idx, c: n - 1})
			return
		}
		check(what, bgoal{b: idx}, bgoal{a: idx, b: seq, blen: true, c: -1})
	}
	switch y := in.(type) {
	case *ssa.IndexAddr:
		index("index", y.X, y.Index)
	case *ssa.Index:
		index("index", y.X, y.Index)
	case *ssa.Lookup:
		if _, ok := y.X.Type().Underlying().(*types.Map); !ok {
			index("index", y.X, y.Index)
		}
	case *ssa.Slice:
		if y.Low == nil && y.High == nil {
			return
		}
		var gs []bgoal
		n, isArr := arrayLen(y.X.Type())
		top := func(v ssa.Value) {
			if isArr {
				gs = append(gs, bgoal{a: v, c: n})
			} else {
				gs = append(gs, bgoal{a: v, b: y.X, blen: true})
			}
		}
		if y.Low != nil {
			gs = append(gs, bgoal{b: y.Low})
		}
		if y.High != nil {
			gs = append(gs, bgoal{b: y.High})
			top(y.High)
			if y.Low != nil {
				gs = append(gs, bgoal{a: y.Low, b: y.High})
			}
		} else {
			top(y.Low)
		}
		check("slice", gs...)
	case *ssa.SliceToArrayPointer:
		n, _ := arrayLen(y.Type())
		check("conversion", bgoal{b: y.X, blen: true, c: -n})
	}
}
