package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", checkC28,
		"archive/tar and the operating system report no negative sizes",
		"a device number is passed between signed and unsigned 64-bit integers without loss")
}

type irange struct{ lo, hi *big.Int }

func rangeOf(lo, hi int64) irange { return irange{big.NewInt(lo), big.NewInt(hi)} }

func typeRange(t types.Type) (irange, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return irange{}, false
	}
	n := uint(intBits(t))
	one := big.NewInt(1)
	if isUnsigned(t) {
		h := new(big.Int).Lsh(one, n)
		return irange{big.NewInt(0), h.Sub(h, one)}, true
	}
	h := new(big.Int).Lsh(one, n-1)
	return irange{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}, true
}

func (r irange) within(o irange) bool { return r.lo.Cmp(o.lo) >= 0 && r.hi.Cmp(o.hi) <= 0 }
func (r irange) union(o irange) irange {
	if r.lo == nil {
		return o
	}
	if o.lo == nil {
		return r
	}
	if o.lo.Cmp(r.lo) < 0 {
		r.lo = o.lo
	}
	if o.hi.Cmp(r.hi) > 0 {
		r.hi = o.hi
	}
	return r
}
func (r irange) meet(o irange) irange {
	if o.lo.Cmp(r.lo) > 0 {
		r.lo = o.lo
	}
	if o.hi.Cmp(r.hi) < 0 {
		r.hi = o.hi
	}
	return r
}

var nonNeg = rangeOf(0, math.MaxInt64)

type numCheck struct {
	c      *Ctx
	p      *Prog
	bd     *bounds
	stores map[*types.Var][]ssa.Value
	busyF  map[*types.Var]bool
	busyV  map[ssa.Value]bool
	exact  map[ssa.Value]string // values that are a number as it was read, and where from
}

// parsedNumber: the call yields a number parsed from text; bits is the width it was asked to check, 0 if unknown.
func parsedNumber(ci ssa.CallInstruction) (bits uint, unsigned, ok bool) {
	n := staticName(ci)
	switch n {
	case "strconv.Atoi":
		return 64, false, true
	case "strconv.ParseInt", "strconv.ParseUint":
		u := n == "strconv.ParseUint"
		a := ci.Common().Args
		if k, isK := constInt(a[2]); isK {
			if k == 0 {
				k = 64
			}
			return uint(k), u, true
		}
		return 64, u, true
	case "strconv.ParseFloat":
		return 0, false, true
	}
	if strings.HasPrefix(n, "(*gopkg.in/ini.v1.Key).") {
		switch n[strings.LastIndex(n, ".")+1:] {
		case "Int", "Int64":
			return 64, false, true
		case "Uint", "Uint64":
			return 64, true, true
		case "Float64":
			return 0, false, true
		}
	}
	return 0, false, false
}

// rng: a range the value is certainly within.
func (n *numCheck) rng(v ssa.Value, d int) irange {
	nat, ok := typeRange(v.Type())
	if !ok {
		return irange{}
	}
	if d > 12 || n.busyV[v] {
		return nat
	}
	n.busyV[v] = true
	defer delete(n.busyV, v)
	out := nat
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nat
		}
		i, ok := new(big.Int).SetString(x.Value.ExactString(), 10)
		if ok {
			out = irange{i, i}
		}
	case *ssa.Convert:
		if _, ok := typeRange(x.X.Type()); ok {
			if r := n.rng(x.X, d+1); r.within(nat) {
				out = r
			}
		}
	case *ssa.ChangeType:
		out = n.rng(x.X, d+1)
	case *ssa.Phi:
		var r irange
		for _, e := range x.Edges {
			if _, isPhi := e.(*ssa.Phi); isPhi && n.busyV[e] {
				continue // covered by the other edges of the cycle
			}
			r = r.union(n.rng(e, d+1))
		}
		if r.lo != nil {
			out = r
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.AND:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := constInt(o); ok && k >= 0 {
					return rangeOf(0, k)
				}
			}
			if !isUnsigned(x.Type()) {
				break
			}
		case token.REM:
			if k, ok := constInt(x.Y); ok && k > 0 {
				r := n.rng(x.X, d+1)
				if r.lo.Sign() >= 0 {
					return rangeOf(0, k-1)
				}
				return rangeOf(-(k - 1), k-1)
			}
		case token.SHR:
			if k, ok := constInt(x.Y); ok && k >= 0 && k < 64 {
				r := n.rng(x.X, d+1)
				return irange{new(big.Int).Rsh(r.lo, uint(k)), new(big.Int).Rsh(r.hi, uint(k))}
			}
		case token.QUO:
			if k, ok := constInt(x.Y); ok && k > 0 {
				r := n.rng(x.X, d+1)
				return irange{new(big.Int).Quo(r.lo, big.NewInt(k)), new(big.Int).Quo(r.hi, big.NewInt(k))}
			}
		case token.ADD:
			// sums of counts: nothing reads 2^63 bytes
			if n.growing(x.X) && n.rng(x.Y, d+1).within(nonNeg) || n.growing(x.Y) && n.rng(x.X, d+1).within(nonNeg) {
				return nonNeg.meet(nat)
			}
			a, b := n.rng(x.X, d+1), n.rng(x.Y, d+1)
			s := irange{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
			if s.within(nat) {
				out = s
			} else if a.within(nonNeg) && b.within(nonNeg) {
				out = nonNeg.meet(nat)
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			out = n.callRange(call, x.Index, nat, d)
		}
	case *ssa.Call:
		out = n.callRange(x, 0, nat, d)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			out = n.fieldRange(fieldVar(a.X.Type(), a.Field), nat, d)
		case *ssa.Alloc, *ssa.FreeVar:
			out = n.cellRange(a, nat, d)
		}
	case *ssa.Field:
		out = n.fieldRange(fieldVar(x.X.Type(), x.Field), nat, d)
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() == nil && !isExportedFn(f) {
			sites := n.bd.sites(f)
			var r irange
			for _, s := range sites {
				for i, q := range f.Params {
					if q == x && i < len(s.Common().Args) {
						r = r.union(n.at(s.Common().Args[i], s.Block(), nat, d+1))
					}
				}
			}
			if r.lo != nil {
				out = r
			}
		}
	}
	if out.lo == nil {
		return nat
	}
	return out
}

// at: the range of a value within a block, using the conditions known there.
func (n *numCheck) at(v ssa.Value, b *ssa.BasicBlock, want irange, d int) irange {
	r := n.rng(v, d)
	if r.lo == nil {
		return r
	}
	if r.lo.Cmp(want.lo) < 0 && want.lo.IsInt64() && want.lo.Int64() > -(1<<40) {
		if n.bd.prove(b.Parent(), b, bgoal{b: v, c: -want.lo.Int64()}, nil, 0) {
			r.lo = want.lo
		}
	}
	if r.hi.Cmp(want.hi) > 0 && want.hi.IsInt64() && want.hi.Int64() < 1<<40 {
		if n.bd.prove(b.Parent(), b, bgoal{a: v, c: want.hi.Int64()}, nil, 0) {
			r.hi = want.hi
		}
	}
	return r
}

// growing: the running value of a sum whose range is being determined.
func (n *numCheck) growing(v ssa.Value) bool {
	if lf, _ := fieldLoad(v); lf != nil && n.busyF[lf] {
		return true
	}
	if !n.busyV[v] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL
	}
	return false
}

func (n *numCheck) cellRange(a ssa.Value, nat irange, d int) irange {
	al, ok := a.(*ssa.Alloc)
	if fv, isFV := a.(*ssa.FreeVar); isFV {
		if w, isA := captured(fv).(*ssa.Alloc); isA {
			al, ok = w, true
		}
	}
	if !ok {
		return nat
	}
	r := rangeOf(0, 0)
	var fns []*ssa.Function
	var addf func(f *ssa.Function)
	addf = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, g := range f.AnonFuncs {
			addf(g)
		}
	}
	addf(al.Parent())
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				same := func(x ssa.Value) bool {
					if x == ssa.Value(al) {
						return true
					}
					if fv, ok := x.(*ssa.FreeVar); ok {
						return captured(fv) == ssa.Value(al)
					}
					return false
				}
				switch y := in.(type) {
				case *ssa.Store:
					if same(y.Addr) {
						r = r.union(n.at(y.Val, b, nat, d+1))
					} else if same(y.Val) {
						return nat
					}
				case ssa.CallInstruction:
					for _, x := range y.Common().Args {
						if same(x) {
							return nat
						}
					}
				}
			}
		}
	}
	return r
}

func (n *numCheck) callRange(call *ssa.Call, idx int, nat irange, d int) irange {
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap", "copy":
			return nonNeg
		case "min", "max":
			var r irange
			for _, a := range call.Call.Args {
				q := n.rng(a, d+1)
				if r.lo == nil {
					r = q
					continue
				}
				if bi.Name() == "min" {
					if q.hi.Cmp(r.hi) < 0 {
						r.hi = q.hi
					}
					if q.lo.Cmp(r.lo) < 0 {
						r.lo = q.lo
					}
				} else {
					if q.lo.Cmp(r.lo) > 0 {
						r.lo = q.lo
					}
					if q.hi.Cmp(r.hi) > 0 {
						r.hi = q.hi
					}
				}
			}
			return r
		}
		return nat
	}
	if idx == 0 {
		if bits, u, ok := parsedNumber(call); ok && bits > 0 && bits <= 64 {
			one := big.NewInt(1)
			if u {
				h := new(big.Int).Lsh(one, bits)
				return irange{big.NewInt(0), h.Sub(h, one)}.meet(nat)
			}
			h := new(big.Int).Lsh(one, bits-1)
			return irange{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}.meet(nat)
		}
		name := staticName(call)
		switch {
		case name == "io.Copy" || name == "io.CopyN" || name == "io.CopyBuffer" || name == "io.ReadFull" || name == "io.ReadAtLeast":
			return nonNeg
		case call.Call.IsInvoke() || call.Call.StaticCallee() != nil && !n.p.inModule(call.Call.StaticCallee()):
			m := name[strings.LastIndex(name, ".")+1:]
			switch m {
			case "Size", "Len", "Read", "Write", "ReadAt", "WriteAt", "WriteTo", "ReadFrom", "WriteString", "Seek", "Buffered":
				if !strings.Contains(m, "Index") {
					return nonNeg.meet(nat)
				}
			}
		}
	}
	g := call.Call.StaticCallee()
	if g == nil || !n.p.inModule(g) || len(g.Blocks) == 0 {
		return nat
	}
	var r irange
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			r = r.union(n.at(ret.Results[idx], b, nat, d+1))
		}
	}
	if r.lo == nil {
		return nat
	}
	return r
}

// fieldRange: of a field of the module, everything the module stores in it; of the standard library, what is known.
func (n *numCheck) fieldRange(fv *types.Var, nat irange, d int) irange {
	if fv.Pkg() == nil {
		return nat
	}
	if fv.Pkg().Path() == "archive/tar" && fv.Name() == "Size" {
		return nonNeg
	}
	if !strings.HasPrefix(fv.Pkg().Path(), modPath) || n.busyF[fv] {
		return nat
	}
	n.busyF[fv] = true
	defer delete(n.busyF, fv)
	r := rangeOf(0, 0)
	for _, v := range n.stores[fv] {
		if lf, _ := fieldLoad(v); lf != nil && n.busyF[lf] {
			continue // a copy
		}
		if in, ok := v.(ssa.Instruction); ok {
			r = r.union(n.at(v, in.Block(), nonNeg, d+1))
		} else {
			r = r.union(n.rng(v, d+1))
		}
	}
	return r
}

// device: the conversion only moves a device number between Go's int and the kernel's 64-bit type.
func device(x *ssa.Convert) bool {
	if intBits(x.Type()) != 64 || intBits(x.X.Type()) != 64 {
		return false
	}
	v := x.X
	if call, ok := v.(*ssa.Call); ok && strings.HasSuffix(staticName(call), "unix.Mkdev") {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "Rdev" {
			return true
		}
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			nm := staticName(y)
			if !strings.HasSuffix(nm, "unix.Major") && !strings.HasSuffix(nm, "unix.Minor") {
				return false
			}
		default:
			return false
		}
	}
	return len(*x.Referrers()) > 0
}

var headerNumbers = map[string]bool{"Uid": true, "Gid": true, "Mode": true, "Size": true, "Devmajor": true, "Devminor": true}

func headerNumber(fv *types.Var) bool {
	return fv.Pkg() != nil && fv.Pkg().Path() == "archive/tar" && headerNumbers[fv.Name()]
}

// sources: every value that is a number as it was read, followed through conversions, merges, helpers and results.
func (n *numCheck) sources() {
	n.exact = map[ssa.Value]string{}
	cells := map[ssa.Value]string{}
	for ch := true; ch; {
		ch = false
		set := func(v ssa.Value, s string) {
			if s != "" && n.exact[v] == "" {
				n.exact[v] = s
				ch = true
			}
		}
		for _, f := range n.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Extract:
						call, ok := x.Tuple.(*ssa.Call)
						if !ok {
							break
						}
						if _, _, ok := parsedNumber(call); ok && x.Index == 0 {
							set(x, "parsed by "+shortFn(staticName(call)))
						}
						if g := call.Call.StaticCallee(); g != nil && n.p.inModule(g) {
							set(x, n.returned(g, x.Index))
						}
					case *ssa.Call:
						g := x.Call.StaticCallee()
						if g == nil || !n.p.inModule(g) {
							break
						}
						if _, ok := typeRange(x.Type()); ok {
							set(x, n.returned(g, 0))
						}
						for i, a := range x.Call.Args {
							if i < len(g.Params) && n.exact[a] != "" {
								if _, ok := typeRange(a.Type()); ok {
									set(g.Params[i], n.exact[a])
								}
							}
						}
					case *ssa.UnOp:
						if x.Op != token.MUL {
							break
						}
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							if fv := fieldVar(fa.X.Type(), fa.Field); headerNumber(fv) {
								set(x, "header field "+fv.Name())
							}
						}
						set(x, cells[x.X])
						if fv, ok := x.X.(*ssa.FreeVar); ok {
							set(x, cells[captured(fv)])
						}
					case *ssa.Field:
						if fv := fieldVar(x.X.Type(), x.Field); headerNumber(fv) {
							set(x, "header field "+fv.Name())
						}
					case *ssa.Store:
						if s := n.exact[x.Val]; s != "" {
							c := x.Addr
							if fv, ok := c.(*ssa.FreeVar); ok {
								c = captured(fv)
							}
							if al, ok := c.(*ssa.Alloc); ok && cells[al] == "" {
								cells[al] = s
								ch = true
							}
						}
					case *ssa.Convert:
						if _, ok := typeRange(x.Type()); ok {
							set(x, n.exact[x.X])
						}
					case *ssa.ChangeType:
						set(x, n.exact[x.X])
					case *ssa.Phi:
						for _, e := range x.Edges {
							set(x, n.exact[e])
						}
					}
				}
			}
		}
	}
}

func (n *numCheck) returned(g *ssa.Function, idx int) string {
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			if s := n.exact[spilled(ret.Results[idx])]; s != "" {
				return s
			}
		}
	}
	return ""
}

// kept: the computed value is stored in an object or returned, so that it stands for the number.
func (n *numCheck) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				return true
			case *ssa.Alloc:
				for _, q := range *a.Referrers() {
					if u, ok := q.(*ssa.UnOp); ok && n.kept(u, seen) {
						return true
					}
				}
			}
		case *ssa.Return:
			return true
		case *ssa.Convert:
			if _, ok := typeRange(x.Type()); ok && n.kept(x, seen) {
				return true
			}
		case *ssa.ChangeType:
			if n.kept(x, seen) {
				return true
			}
		case *ssa.Phi:
			if n.kept(x, seen) {
				return true
			}
		case *ssa.MakeInterface:
			// written out
			if n.formatted(x) {
				return true
			}
		case ssa.CallInstruction:
			if g := x.Common().StaticCallee(); g != nil {
				for i, a := range x.Common().Args {
					if a == v && n.p.inModule(g) && i < len(g.Params) && n.kept(g.Params[i], seen) {
						return true
					}
				}
			} else if x.Common().IsInvoke() {
				return true // handed to a filesystem
			}
		}
	}
	return false
}

// formatted: the value becomes part of text that is written to a file.
func (n *numCheck) formatted(v ssa.Value) bool {
	f := v.(ssa.Instruction).Parent()
	for _, ci := range callsIn(f) {
		nm := staticName(ci)
		if nm == "fmt.Sprintf" || nm == "fmt.Fprintf" || nm == "strconv.FormatInt" || nm == "fmt.Appendf" {
			for _, a := range ci.Common().Args {
				if usesValue(a, v, 0) {
					return true
				}
			}
		}
	}
	return false
}

// usesValue: the variadic slice holds the value.
func usesValue(a, v ssa.Value, d int) bool {
	if a == v {
		return true
	}
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Val == v {
					return true
				}
			}
		}
	}
	return false
}

func checkC28(c *Ctx) {
	c.Rule("every conversion to an integer type that cannot represent all values of the operand's type: the operand's range, from the width its parser was asked to check, the conditions that dominate the conversion, or everything the module stores in the field it is loaded from, fits the target type (device numbers may move between the signed and unsigned 64-bit types)")
	c.Rule("a number parsed from text: the error of the parse is not discarded and every path after it returns an error; conversions with a default are not used")
	c.Rule("a parsed number or a numeric field of an archive header is not masked, divided, shifted, multiplied or replaced by a constant depending on its magnitude before it is stored, returned or written (masks that keep all twelve mode bits excepted)")
	c.Rule("a configuration file is mapped onto a structure with numeric fields strictly, and the error is reported")
	n := &numCheck{c: c, p: c.P, bd: &bounds{p: c.P}, stores: map[*types.Var][]ssa.Value{}, busyF: map[*types.Var]bool{}, busyV: map[ssa.Value]bool{}}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						fv := fieldVar(fa.X.Type(), fa.Field)
						n.stores[fv] = append(n.stores[fv], st.Val)
					}
				}
			}
		}
	}
	n.sources()
	ec := &errCheck{c: c, p: c.P, io: map[*ssa.Function]bool{}, ccM: map[string]int{}}
	ec.ra = newResAnalysis(c.P)
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		c.Funcs[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n.instr(f, b, in, ec)
			}
		}
	}
	c.AtLeast("fits", 5, "narrowing conversions")
	c.AtLeast("parsed", 5, "numbers parsed from text")
	c.AtLeast("kept exactly", 8, "uses of numbers that were read")
	c.AtLeast("strict", 1, "mappings of configuration files")
}

func (n *numCheck) instr(f *ssa.Function, b *ssa.BasicBlock, in ssa.Instruction, ec *errCheck) {
	c := n.c
	switch x := in.(type) {
	case *ssa.Convert:
		dst, ok := typeRange(x.Type())
		if !ok {
			return
		}
		what := "conversion to " + types.TypeString(x.Type(), (*types.Package).Name) + " in " + shortFn(f.String())
		if bt, isB := x.X.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsFloat != 0 {
			if n.kept(x, map[ssa.Value]bool{}) {
				c.Bad("fits", what, c.P.instrPos(x), "from a floating point number, which does not represent every integer")
			}
			return
		}
		src, ok := typeRange(x.X.Type())
		if !ok || src.within(dst) {
			return
		}
		if device(x) {
			c.OK("fits", what, c.P.instrPos(x), "device number")
			return
		}
		r := n.at(x.X, b, dst, 0)
		c.Check(r.within(dst), "fits", what+" at "+c.P.instrPos(x), c.P.instrPos(x), "the operand may be as low as "+r.lo.String()+" or as high as "+r.hi.String())
	case *ssa.BinOp:
		if _, ok := typeRange(x.Type()); !ok {
			return
		}
		src := n.exact[x.X]
		if src == "" {
			src = n.exact[x.Y]
		}
		if src == "" {
			return
		}
		switch x.Op {
		case token.AND, token.AND_NOT:
			k, ok := constInt(x.Y)
			if !ok {
				k, ok = constInt(x.X)
			}
			if strings.HasSuffix(src, "Mode") && ok {
				if x.Op == token.AND && k&0o7777 == 0o7777 || x.Op == token.AND_NOT && k&0o7777 == 0 {
					c.OK("kept exactly", "mode masked in "+shortFn(f.String()), c.P.instrPos(x), "")
					return
				}
			}
		case token.REM, token.QUO, token.SHR, token.SHL, token.MUL, token.XOR:
		default:
			return
		}
		c.Check(!n.kept(x, map[ssa.Value]bool{}), "kept exactly", "number "+src+" in "+shortFn(f.String()), c.P.instrPos(x), "a different value ("+x.Op.String()+") takes its place")
	case *ssa.Phi:
		if n.exact[x] == "" {
			return
		}
		for i, e := range x.Edges {
			if _, ok := constInt(e); !ok {
				continue
			}
			if n.clamps(x.Block().Preds[i], x, x.Block()) && n.kept(x, map[ssa.Value]bool{}) {
				c.Bad("kept exactly", "number "+n.exact[x]+" in "+shortFn(f.String()), c.P.instrPos(x), "a constant takes its place depending on its magnitude")
			}
		}
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		if src := n.exact[x.Val]; src != "" {
			c.OK("kept exactly", "number "+src+" stored in "+fv.Name()+" by "+shortFn(f.String()), c.P.instrPos(x), "")
			return
		}
		if _, isK := constInt(x.Val); !isK {
			return
		}
		for _, b2 := range f.Blocks {
			for _, in2 := range b2.Instrs {
				st, ok := in2.(*ssa.Store)
				if !ok || n.exact[st.Val] == "" {
					continue
				}
				fa2, ok := st.Addr.(*ssa.FieldAddr)
				if ok && fieldVar(fa2.X.Type(), fa2.Field) == fv && b2.Dominates(b) && b2 != b {
					if n.clampsOn(b, func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						if !ok {
							return v == st.Val || n.exact[v] == n.exact[st.Val] && n.exact[v] != ""
						}
						fa3, ok := u.X.(*ssa.FieldAddr)
						return ok && fieldVar(fa3.X.Type(), fa3.Field) == fv
					}, b2) {
						c.Bad("kept exactly", "number stored in "+fv.Name()+" by "+shortFn(f.String()), c.P.instrPos(x), "a constant takes its place depending on its magnitude")
					}
				}
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if _, isK := constInt(v); !isK || n.returned(f, i) == "" {
				continue
			}
			failing := false
			for _, r := range x.Results {
				r = spilled(r)
				if isErrType(r.Type()) && !isNilConst(r) {
					failing = true
				}
			}
			if failing {
				continue
			}
			if n.clampsOn(b, func(v ssa.Value) bool { return n.exact[v] != "" }, nil) {
				c.Bad("kept exactly", "number returned by "+shortFn(f.String()), c.P.instrPos(x), "a constant takes its place depending on its magnitude")
			}
		}
	case ssa.CallInstruction:
		name := staticName(x)
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			call := x.(*ssa.Call)
			for _, a := range call.Call.Args {
				if n.exact[a] != "" && n.kept(call, map[ssa.Value]bool{}) {
					c.Bad("kept exactly", "number "+n.exact[a]+" in "+shortFn(f.String()), c.P.instrPos(x), "limited to another value")
				}
			}
			return
		}
		if strings.HasSuffix(name, "fs.FileMode).Perm") {
			if call, ok := x.(*ssa.Call); ok && n.headerMode(call.Call.Args[0], 0) {
				c.Check(!n.kept(call, map[ssa.Value]bool{}), "kept exactly", "mode of an archive header in "+shortFn(f.String()), c.P.instrPos(x), "the set-id and sticky bits are dropped")
			}
			return
		}
		if strings.HasPrefix(name, "(*gopkg.in/ini.v1.Key).Must") {
			m := name[strings.LastIndex(name, ".")+1:]
			if strings.Contains(m, "Int") || strings.Contains(m, "Float") {
				c.Bad("parsed", shortFn(name)+" in "+enclosing(x), c.P.instrPos(x), "a malformed number is replaced by a default")
			}
			return
		}
		n.mapping(f, x, name, ec)
		bits, _, ok := parsedNumber(x)
		if !ok {
			return
		}
		what := shortFn(name) + " in " + enclosing(x)
		call, isCall := x.(*ssa.Call)
		if !isCall {
			return
		}
		val := extractOf(call, 0)
		if bits == 0 {
			if val != nil && len(*val.Referrers()) > 0 {
				c.Bad("parsed", what, c.P.instrPos(x), "floating point numbers do not represent every integer")
			}
			return
		}
		n.reported(f, call, 1, what, "parsed", ec)
	}
}

// reported: the error of the call leads to an error being returned.
func (n *numCheck) reported(f *ssa.Function, call *ssa.Call, idx int, what, rule string, ec *errCheck) {
	c := n.c
	errv := extractOf(call, idx)
	if call.Call.Signature().Results().Len() == 1 {
		errv = call
	}
	if errv == nil || len(*errv.Referrers()) == 0 {
		c.Bad(rule, what, c.P.instrPos(call), "the error is discarded")
		return
	}
	// a question whether the text is a number
	if val := extractOf(call, 0); rule == "parsed" && (val == nil || len(*val.Referrers()) == 0) && !returnsError(f) {
		c.OK(rule, what, c.P.instrPos(call), "only asks whether the text is a number")
		return
	}
	fl := &failure{p: c.P, fn: f, call: call, errv: errv}
	fl.derive()
	sw := fl.swallowed(ec)
	if len(sw) == 0 {
		c.OK(rule, what, c.P.instrPos(call), "")
	}
	for _, at := range sw {
		c.Bad(rule, what, c.P.instrPos(call), "after a failure, success may be reported ("+c.P.instrPos(at)+")")
	}
}

// headerMode: the value is the file mode of an archive header.
func (n *numCheck) headerMode(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	if n.exact[v] != "" && strings.HasSuffix(n.exact[v], "Mode") {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		nm := staticName(x)
		if strings.HasSuffix(nm, ".FileInfo") && strings.Contains(nm, "archive/tar.Header") {
			return true
		}
		if strings.HasSuffix(nm, "FileInfo).Mode") || strings.HasSuffix(nm, "DirEntry).Type") {
			if x.Call.IsInvoke() {
				return n.headerMode(x.Call.Value, d+1)
			}
		}
	case *ssa.ChangeInterface:
		return n.headerMode(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n.headerMode(e, d+1) {
				return true
			}
		}
	}
	return false
}

// clamps: the edge into the merge is taken depending on the magnitude of a number that was read.
func (n *numCheck) clamps(pred *ssa.BasicBlock, phi *ssa.Phi, to *ssa.BasicBlock) bool {
	rel := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if rel[v] || n.exact[v] == "" {
			return
		}
		rel[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.Convert:
			add(x.X)
		}
	}
	add(phi)
	is := func(v ssa.Value) bool { return rel[v] && v != ssa.Value(phi) }
	if n.clampsOn(pred, is, nil) {
		return true
	}
	if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok {
		return n.magnitude(iff.Cond, is)
	}
	return false
}

func (n *numCheck) magnitude(cond ssa.Value, is func(ssa.Value) bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch bo.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			for {
				if cv, ok := o.(*ssa.Convert); ok && !is(o) {
					o = cv.X
					continue
				}
				break
			}
			if is(o) {
				return true
			}
		}
	}
	return false
}

// clampsOn: a condition that leads to the block compares the number's magnitude.
func (n *numCheck) clampsOn(b *ssa.BasicBlock, is func(ssa.Value) bool, from *ssa.BasicBlock) bool {
	for x, d := b, 0; x != nil && d < 50; d++ {
		if x == from {
			return false
		}
		dom := x.Idom()
		if dom == nil {
			return false
		}
		if iff, ok := dom.Instrs[len(dom.Instrs)-1].(*ssa.If); ok && n.magnitude(iff.Cond, is) {
			// x is on one side only
			for _, s := range dom.Succs {
				if s == x && len(s.Preds) == 1 {
					return true
				}
			}
		}
		// reached from several comparisons at once
		if len(x.Preds) > 1 {
			all := true
			for _, p := range x.Preds {
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok || !n.magnitude(iff.Cond, is) {
					all = false
				}
			}
			if all {
				return true
			}
		}
		x = dom
	}
	return false
}

// mapping: reflection-based mapping of a configuration file.
func (n *numCheck) mapping(f *ssa.Function, x ssa.CallInstruction, name string, ec *errCheck) {
	c := n.c
	if !strings.Contains(name, "gopkg.in/ini.v1") {
		return
	}
	m := name[strings.LastIndex(name, ".")+1:]
	strict := strings.HasPrefix(m, "StrictMapTo")
	if !strict && m != "MapTo" && m != "MapToWithMapper" {
		return
	}
	call, ok := x.(*ssa.Call)
	if !ok {
		c.Bad("strict", shortFn(name)+" in "+enclosing(x), c.P.instrPos(x), "the error is discarded")
		return
	}
	var target types.Type
	for _, a := range x.Common().Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
				target = p.Elem()
				break
			}
		}
	}
	what := shortFn(name) + " in " + enclosing(x)
	if target == nil {
		c.Bad("strict", what, c.P.instrPos(x), "the structure that is filled in is not known")
		return
	}
	if st, ok := target.Underlying().(*types.Struct); ok {
		numeric := false
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				numeric = true
				c.Check(intBits(b) == 64 && b.Info()&types.IsInteger != 0, "strict", "field "+st.Field(i).Name(), c.P.pos(st.Field(i).Pos()), "a field narrower than 64 bits is filled in without a range check")
			}
		}
		if numeric && !strict {
			c.Bad("strict", what, c.P.instrPos(x), "a number that does not parse leaves its field unset without an error")
			return
		}
	}
	n.reported(f, call, 0, what, "strict", ec)
}
