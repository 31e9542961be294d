package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", checkC11,
		"errors of (*http.Client).Do and of the standard transport quote URLs without their password (net/http strips it)",
		"library functions whose error may quote an argument are those taking a string; errors about other arguments carry no URL",
		"a location is one for a request when it is an http:// or https:// URL; what the program takes for a local path is not a request")
}

const secSrc = uint64(1) << 63

type secret struct {
	c      *Ctx
	p      *Prog
	fns    []*ssa.Function
	known  map[*ssa.Function]bool
	val    map[ssa.Value]uint64
	src    map[ssa.Value]bool // values found to be locations
	param  map[*ssa.Function]map[int]bool
	ret    map[*ssa.Function][]uint64
	retWhy map[*ssa.Function][]string
	field  map[*types.Var]string
	why    map[ssa.Value]string
	tuple  map[ssa.Value][]uint64
	local  map[*ssa.BasicBlock]bool
	bind   map[*ssa.FreeVar]ssa.Value
	change bool
	fieldF map[*types.Var]bool
}

// carries: values of the type can hold text.
func carries(t types.Type) bool { return carriesD(t, 0) }

func carriesD(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return true
		}
		return carriesD(u.Elem(), d+1)
	case *types.Array:
		return carriesD(u.Elem(), d+1)
	case *types.Map:
		return carriesD(u.Elem(), d+1) || carriesD(u.Key(), d+1)
	case *types.Pointer:
		return carriesD(u.Elem(), d+1)
	case *types.Interface:
		return u.NumMethods() == 0 || isErrType(t) || isNamed(t, "fmt.Stringer")
	case *types.Chan:
		return carriesD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesD(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func stringish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// transparent: the results are made of the arguments.
func transparent(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, pre := range []string{"strings.", "fmt.S", "fmt.A", "path.", "path/filepath.", "bytes.", "errors.", "slices.", "maps.", "sort.", "net/url.QueryE", "net/url.PathE", "net/url.QueryU", "net/url.PathU", "net/url.JoinPath", "strconv.Quote", "go.lsp.dev/uri.", "unicode/utf8.", "html.", "regexp."} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return n == "fmt.Errorf"
}

// prefixArgs: which arguments of a call its result starts with.
func prefixArg(ci *ssa.Call) ssa.Value {
	n := staticName(ci)
	args := ci.Common().Args
	if len(args) == 0 {
		return nil
	}
	switch n {
	case "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimRight", "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft",
		"strings.Fields", "strings.Split", "strings.SplitN", "strings.Cut", "strings.CutSuffix", "strings.CutPrefix", "strings.ToLower", "strings.Clone",
		"strings.ReplaceAll", "strings.Replace", "net/url.JoinPath", "path.Join", "path/filepath.Join", "go.lsp.dev/uri.New", "go.lsp.dev/uri.Parse", "go.lsp.dev/uri.File", "net/url.PathUnescape", "net/url.QueryUnescape":
		return args[0]
	case "fmt.Sprintf":
		k, ok := args[0].(*ssa.Const)
		if !ok || k.Value == nil || len(args) < 2 {
			return nil
		}
		f := constant.StringVal(k.Value)
		if strings.HasPrefix(f, "%s") || strings.HasPrefix(f, "%v") {
			return variadicElem(args[1], 0)
		}
		return nil
	case "fmt.Sprint":
		return variadicElem(args[0], 0)
	}
	return nil
}

// variadicElem finds what was put at index i of a variadic slice.
func variadicElem(v ssa.Value, i int64) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	for _, r := range *sl.X.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok || k.Int64() != i {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
				x := st.Val
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				return x
			}
		}
	}
	return nil
}

// ---- blocks that deal with local files

func remoteTest(p *Prog, v ssa.Value, depth int) (string, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	if staticName(call) == "strings.HasPrefix" {
		if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
			s := constant.StringVal(k.Value)
			if s == "https://" || s == "http://" {
				return s, true
			}
		}
	}
	g := call.Call.StaticCallee()
	if depth < 3 && g != nil && p.inModule(g) && g.Signature.Results().Len() == 1 && isBoolType(g.Signature.Results().At(0).Type()) {
		seen := map[string]bool{}
		for _, ci := range callsIn(g) {
			if c, ok := ci.(*ssa.Call); ok {
				if s, ok := remoteTest(p, c, depth+1); ok {
					seen[s] = true
				}
			}
		}
		if seen["both"] || seen["https://"] && seen["http://"] {
			return "both", true
		}
	}
	return "", false
}

func (s *secret) markLocal(f *ssa.Function) {
	not := map[*ssa.BasicBlock]map[string]bool{}
	learn := func(b *ssa.BasicBlock, what string) {
		for _, d := range f.Blocks {
			if b.Dominates(d) {
				if not[d] == nil {
					not[d] = map[string]bool{}
				}
				not[d][what] = true
			}
		}
	}
	var test func(v ssa.Value, when bool, to *ssa.BasicBlock, depth int)
	test = func(v ssa.Value, when bool, to *ssa.BasicBlock, depth int) {
		if depth > 4 {
			return
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				test(x.X, !when, to, depth+1)
			}
		case *ssa.Call:
			if w, ok := remoteTest(s.p, x, 0); ok && !when {
				learn(to, w)
			}
		case *ssa.Phi:
			// a || b: every edge is true or one of the tests
			if when {
				return
			}
			for i, e := range x.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil {
					pr := x.Block().Preds[i]
					if constant.BoolVal(k.Value) {
						if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] == x.Block() {
							test(iff.Cond, false, to, depth+1)
						}
					} else {
						return
					}
					continue
				}
				test(e, false, to, depth+1)
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				k, ok := o[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) != "file" {
					continue
				}
				u, ok := bareValue(o[0]).(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if ok && isNamed(fa.X.Type(), "net/url.URL") && fieldVar(fa.X.Type(), fa.Field).Name() == "Scheme" && when == (x.Op == token.EQL) {
					learn(to, "both")
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		for i, when := range []bool{true, false} {
			if len(b.Succs[i].Preds) == 1 {
				test(iff.Cond, when, b.Succs[i], 0)
			}
		}
	}
	for b, m := range not {
		if m["both"] || m["http://"] && m["https://"] {
			s.local[b] = true
		}
	}
}

func bareValue(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// ---- where locations come from

func (s *secret) root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FreeVar:
			b := s.bind[x]
			if b == nil {
				return v
			}
			v = b
		default:
			return v
		}
	}
}

func (s *secret) callees(ci ssa.CallInstruction) []*ssa.Function {
	cm := ci.Common()
	if cm.IsInvoke() {
		return s.p.implsOf(cm.Method)
	}
	switch x := cm.Value.(type) {
	case *ssa.MakeClosure:
		if g, ok := x.Fn.(*ssa.Function); ok {
			return []*ssa.Function{g}
		}
	case *ssa.Function:
		if s.p.inModule(x) && len(x.Blocks) > 0 {
			return []*ssa.Function{x}
		}
	default:
		v := s.root(cm.Value)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a function variable assigned once
			var st *ssa.Store
			n := 0
			if al, ok := s.root(u.X).(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if x, ok := r.(*ssa.Store); ok && x.Addr == al {
						st = x
						n++
					}
				}
			}
			if n == 1 {
				v = st.Val
			}
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			if g, ok := mc.Fn.(*ssa.Function); ok {
				return []*ssa.Function{g}
			}
		}
		if g, ok := v.(*ssa.Function); ok && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
	}
	return nil
}

// argFor gives the argument bound to parameter i of a callee.
func argFor(ci ssa.CallInstruction, i int) ssa.Value {
	cm := ci.Common()
	if cm.IsInvoke() {
		if i == 0 {
			return cm.Value
		}
		i--
	}
	if i < len(cm.Args) {
		return cm.Args[i]
	}
	return nil
}

func (s *secret) addFn(g *ssa.Function) {
	if g == nil || s.known[g] || len(g.Blocks) == 0 || !s.p.inModule(g) && g.Synthetic == "" {
		return
	}
	s.known[g] = true
	s.fns = append(s.fns, g)
	for _, a := range g.AnonFuncs {
		s.addFn(a)
	}
	s.markLocal(g)
}

// location marks v as the text of a location, and what it was made from.
func (s *secret) location(v ssa.Value, sites map[*ssa.Function][]ssa.CallInstruction) {
	if v == nil {
		return
	}
	v = s.root(v)
	if _, ok := v.(*ssa.Const); ok || s.src[v] {
		return
	}
	if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return
	}
	if in, ok := v.(ssa.Instruction); ok && s.local[in.Block()] {
		return
	}
	s.src[v] = true
	next := func(w ssa.Value) { s.location(w, sites) }
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, ci := range sites[f] {
				if !s.local[ci.Block()] {
					next(argFor(ci, i))
				}
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !s.local[x.Block().Preds[i]] {
				next(e)
			}
		}
	case *ssa.BinOp:
		next(x.X)
	case *ssa.ChangeType:
		next(x.X)
	case *ssa.Convert:
		next(x.X)
	case *ssa.MakeInterface:
		next(x.X)
	case *ssa.TypeAssert:
		next(x.X)
	case *ssa.Slice:
		next(x.X)
	case *ssa.Index:
		next(x.X)
	case *ssa.IndexAddr:
		next(x.X)
	case *ssa.Lookup:
		next(x.X)
	case *ssa.Next:
		next(x.Iter)
	case *ssa.Range:
		next(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.fromCall(c, x.Index, next)
		} else {
			next(x.Tuple)
		}
	case *ssa.UnOp:
		next(x.X)
	case *ssa.FieldAddr:
		s.fromField(fieldVar(x.X.Type(), x.Field), next)
	case *ssa.Field:
		s.fromField(fieldVar(x.X.Type(), x.Field), next)
	case *ssa.Alloc:
		s.storesTo(x, next)
	case *ssa.Global:
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == x {
						next(st.Val)
					}
				}
			}
		}
	case *ssa.Call:
		s.fromCall(x, 0, next)
	}
}

func (s *secret) storesTo(a ssa.Value, next func(ssa.Value)) {
	var all func(addr ssa.Value, depth int)
	all = func(addr ssa.Value, depth int) {
		refs := addr.Referrers()
		if refs == nil || depth > 6 {
			return
		}
		for _, r := range *refs {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == addr && !s.local[y.Block()] {
					next(y.Val)
				}
			case *ssa.IndexAddr:
				all(y, depth+1)
			case *ssa.MakeClosure:
				g := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == addr {
						all(g.FreeVars[i], depth+1)
					}
				}
			}
		}
	}
	all(a, 0)
}

func (s *secret) fromField(fv *types.Var, next func(ssa.Value)) {
	if fv == nil || fv.Pkg() == nil || !strings.HasPrefix(fv.Pkg().Path(), modPath) || s.fieldF[fv] {
		return
	}
	s.fieldF[fv] = true
	if s.field[fv] == "" {
		s.field[fv] = "the field " + fv.Name() + " holds a location"
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && !s.local[b] {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
						next(st.Val)
					}
				}
			}
		}
	}
}

func (s *secret) fromCall(x *ssa.Call, idx int, next func(ssa.Value)) {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
		for _, a := range x.Call.Args {
			next(a)
		}
		return
	}
	if gs := s.callees(x); len(gs) > 0 {
		for _, g := range gs {
			s.addFn(g)
			for _, b := range g.Blocks {
				if s.local[b] {
					continue
				}
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) && !isErrType(r.Results[idx].Type()) {
					next(r.Results[idx])
				}
			}
		}
		return
	}
	next(prefixArg(x))
}

// ---- forward

func (s *secret) set(v ssa.Value, t uint64, why string) {
	if t == 0 {
		return
	}
	if s.val[v]|t != s.val[v] {
		s.val[v] |= t
		s.change = true
	}
	if s.why[v] == "" && why != "" {
		s.why[v] = why
	}
}

// bits of v where it is used in block b
func (s *secret) bits(v ssa.Value, b *ssa.BasicBlock) uint64 {
	if v == nil || b != nil && s.local[b] {
		return 0
	}
	r := s.root(v)
	t := s.val[r]
	if r != v && b != nil {
		// from an enclosing function
		if rf := parentOf(r); rf != nil && rf != b.Parent() {
			return s.closed(t, rf)
		}
	}
	return t
}

func parentOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

// closed: the taint, with parameters replaced by what callers pass.
func (s *secret) closed(t uint64, f *ssa.Function) uint64 {
	if t&secSrc != 0 {
		return secSrc
	}
	for i := 0; i < 62 && t != 0; i++ {
		if t&(1<<i) != 0 && s.param[f][i] {
			return secSrc
		}
	}
	return 0
}

func (s *secret) eff(v ssa.Value, b *ssa.BasicBlock) bool {
	return s.closed(s.bits(v, b), b.Parent()) != 0
}

func (s *secret) setField(fv *types.Var, why string) {
	if fv == nil || fv.Pkg() == nil || !strings.HasPrefix(fv.Pkg().Path(), modPath) {
		return
	}
	if s.field[fv] == "" {
		if why == "" {
			why = "a location is stored in it"
		}
		s.field[fv] = why
		s.change = true
	}
}

// cleanURL: the URL was given no user, or its user was removed.
func cleanURL(v ssa.Value, at ssa.Instruction) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	var cleared []*ssa.Store
	var whole []ssa.Instruction
	fieldOnly := true
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if fieldVar(x.X.Type(), x.Field).Name() != "User" {
				continue
			}
			for _, q := range *x.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok || st.Addr != x {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
					cleared = append(cleared, st)
				} else if c, ok := st.Val.(*ssa.Call); ok && staticName(c) == "net/url.User" {
					cleared = append(cleared, st)
				} else {
					whole = append(whole, st)
				}
			}
		case *ssa.Store:
			if ld, ok := x.Val.(*ssa.UnOp); ok && x.Addr == v && ld.Op == token.MUL && ld.X != v {
				if al, ok := ld.X.(*ssa.Alloc); ok && cleanURL(al, ld) {
					cleared = append(cleared, x)
					continue
				}
			}
			if x.Addr == v {
				whole = append(whole, x)
			} else {
				fieldOnly = false
			}
		}
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
		return false
	}
	for _, st := range cleared {
		if !before(st, at) {
			continue
		}
		ok := true
		for _, w := range whole {
			if !before(w, st) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	_, local := v.(*ssa.Alloc)
	return local && fieldOnly && len(whole) == 0
}

// formatted: what formatting a value of the type shows.
func (s *secret) formatted(t types.Type, b *ssa.BasicBlock, depth int) string {
	if b != nil && s.local[b] || depth > 3 {
		return ""
	}
	for _, n := range []string{"net/url.URL", "net/url.Userinfo", "net/http.Request", "net/http.Response"} {
		if isNamed(t, n) {
			return "a " + n + " is formatted, which shows the password of the URL"
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		for _, n := range []string{"net/url.URL", "net/url.Userinfo", "net/http.Request", "net/http.Response"} {
			if isNamed(pt.Elem(), n) {
				return "a " + n + " is formatted, which shows the password of the URL"
			}
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 || isErrType(t) {
			return ""
		}
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
				return ""
			}
		}
		for _, sp := range s.p.ByPath {
			for _, mem := range sp.Members {
				tn, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.Implements(T, it) {
						if w := s.formatted(T, b, depth+1); w != "" {
							return w
						}
					}
				}
			}
		}
		return ""
	}
	n := namedOf(t)
	if n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		for _, m := range []string{"Error", "String", "Format"} {
			sel := s.p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), m)
			if sel == nil {
				continue
			}
			g := s.p.SSA.MethodValue(sel)
			if g == nil || m == "Format" {
				return ""
			}
			s.addFn(g)
			if r := s.ret[g]; len(r) == 1 && s.closed(r[0], g) != 0 {
				return "the text of a " + n.Obj().Name() + " shows a location: " + s.retWhy[g][0]
			}
			return ""
		}
		u := n.Underlying()
		if st, ok := u.(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				if w := s.field[fv]; w != "" {
					return "formatting a " + n.Obj().Name() + " shows its field " + fv.Name() + ": " + w
				}
				if depth < 2 {
					if _, isp := fv.Type().Underlying().(*types.Pointer); isp && namedOf(fv.Type()) != nil && !isNamed(fv.Type(), "net/url.URL") && !isNamed(fv.Type(), "net/url.Userinfo") {
						continue // printed as an address
					}
					if _, isf := fv.Type().Underlying().(*types.Interface); isf {
						continue
					}
					if w := s.formatted(fv.Type(), b, depth+1); w != "" {
						return w
					}
				}
			}
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return s.formatted(sl.Elem(), b, depth+1)
	}
	return ""
}

func (s *secret) step(f *ssa.Function) {
	for i, q := range f.Params {
		if i < 62 && carries(q.Type()) {
			s.set(q, 1<<i, "")
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && s.src[v] && !s.local[b] {
				if carries(v.Type()) {
					s.set(v, secSrc, "the location at "+s.p.instrPos(in))
				}
			}
			from := func(v ssa.Value, ops ...ssa.Value) {
				if !carries(v.Type()) || s.local[b] {
					return
				}
				for _, o := range ops {
					if t := s.bits(o, b); t != 0 {
						s.set(v, t, s.why[s.root(o)])
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Phi:
				if carries(x.Type()) {
					for i, e := range x.Edges {
						pr := b.Preds[i]
						if t := s.bits(e, pr); t != 0 && !s.local[b] {
							s.set(x, t, s.why[s.root(e)])
						}
					}
				}
			case *ssa.BinOp:
				from(x, x.X, x.Y)
			case *ssa.ChangeType:
				from(x, x.X)
			case *ssa.Convert:
				from(x, x.X)
			case *ssa.ChangeInterface:
				from(x, x.X)
				if carries(x.Type()) && !carries(x.X.Type()) {
					if w := s.formatted(x.X.Type(), b, 0); w != "" {
						s.set(x, secSrc, w)
					}
				}
			case *ssa.MakeInterface:
				from(x, x.X)
				if carries(x.Type()) {
					if w := s.formatted(x.X.Type(), b, 0); w != "" {
						s.set(x, secSrc, w)
					}
				}
			case *ssa.TypeAssert:
				if x.CommaOk {
					s.tupleSet(x, 0, s.bits(x.X, b), s.why[s.root(x.X)], x.AssertedType)
				} else {
					from(x, x.X)
				}
			case *ssa.Slice:
				from(x, x.X)
			case *ssa.Index:
				from(x, x.X)
			case *ssa.IndexAddr:
				from(x, x.X)
			case *ssa.Lookup:
				if x.CommaOk {
					s.tupleSet(x, 0, s.bits(x.X, b), s.why[s.root(x.X)], x.Type().(*types.Tuple).At(0).Type())
				} else {
					from(x, x.X)
				}
			case *ssa.Range:
				if t := s.bits(x.X, b); t != 0 {
					s.set(x, t, s.why[s.root(x.X)])
				}
			case *ssa.Next:
				tp := x.Type().(*types.Tuple)
				s.tupleSet(x, 1, s.val[x.Iter], s.why[x.Iter], tp.At(1).Type())
				s.tupleSet(x, 2, s.val[x.Iter], s.why[x.Iter], tp.At(2).Type())
			case *ssa.Extract:
				if tu := s.tuple[x.Tuple]; x.Index < len(tu) && carries(x.Type()) {
					s.set(x, tu[x.Index], s.why[x.Tuple])
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					s.load(x, x.X, b)
				} else if x.Op == token.ARROW {
					from(x, x.X)
				}
			case *ssa.Field:
				s.fieldLoad(x, fieldVar(x.X.Type(), x.Field), b)
			case *ssa.Store:
				t := s.bits(x.Val, b)
				if t == 0 {
					continue
				}
				s.store(x.Addr, t, b, s.why[s.root(x.Val)])
			case *ssa.MapUpdate:
				if t := s.bits(x.Value, b) | s.bits(x.Key, b); t != 0 {
					s.container(x.Map, t, b, s.why[s.root(x.Value)])
				}
			case *ssa.Send:
				if t := s.bits(x.X, b); t != 0 {
					s.container(x.Chan, t, b, s.why[s.root(x.X)])
				}
			case *ssa.Return:
				r := s.ret[f]
				if r == nil {
					r = make([]uint64, len(x.Results))
					s.ret[f] = r
					s.retWhy[f] = make([]string, len(x.Results))
				}
				for i, v := range x.Results {
					t := s.bits(v, b)
					if !carries(v.Type()) {
						t = 0
					}
					if r[i]|t != r[i] {
						r[i] |= t
						s.change = true
						if s.retWhy[f][i] == "" {
							s.retWhy[f][i] = s.why[s.root(v)]
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				s.call(ci, b)
			}
		}
	}
}

func (s *secret) tupleSet(v ssa.Value, i int, t uint64, why string, typ types.Type) {
	if t == 0 || !carries(typ) {
		return
	}
	tu := s.tuple[v]
	for len(tu) <= i {
		tu = append(tu, 0)
	}
	if tu[i]|t != tu[i] {
		tu[i] |= t
		s.change = true
	}
	s.tuple[v] = tu
	if s.why[v] == "" {
		s.why[v] = why
	}
}

func (s *secret) fieldLoad(v ssa.Value, fv *types.Var, b *ssa.BasicBlock) {
	if fv == nil || !carries(v.Type()) || s.local[b] {
		return
	}
	if w := s.field[fv]; w != "" {
		s.set(v, secSrc, w)
	}
	if fv.Pkg() != nil && fv.Pkg().Path() == "net/url" && fv.Name() == "URL" {
		s.set(v, secSrc, "the URL kept in a url.Error")
	}
}

func (s *secret) load(v *ssa.UnOp, addr ssa.Value, b *ssa.BasicBlock) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		s.fieldLoad(v, fieldVar(fa.X.Type(), fa.Field), b)
		return
	}
	if carries(v.Type()) {
		if t := s.bits(addr, b); t != 0 {
			s.set(v, t, s.why[s.root(addr)])
		}
	}
}

func (s *secret) store(addr ssa.Value, t uint64, b *ssa.BasicBlock, why string) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if s.closed(t, b.Parent()) != 0 {
			s.setField(fieldVar(fa.X.Type(), fa.Field), why)
		}
		return
	}
	s.container(addr, t, b, why)
}

// container: something tainted was put into what v denotes.
func (s *secret) container(v ssa.Value, t uint64, b *ssa.BasicBlock, why string) {
	for d := 0; d < 12; d++ {
		r := s.root(v)
		if rf := parentOf(r); rf != nil && rf != b.Parent() {
			t = s.closed(t, b.Parent())
		}
		if t == 0 {
			return
		}
		if _, ok := r.(*ssa.Const); ok {
			return
		}
		s.set(r, t, why)
		switch x := r.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if s.closed(t, b.Parent()) != 0 {
					s.setField(fieldVar(fa.X.Type(), fa.Field), why)
				}
				return
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FieldAddr:
			if s.closed(t, b.Parent()) != 0 {
				s.setField(fieldVar(x.X.Type(), x.Field), why)
			}
			return
		default:
			return
		}
	}
}

func (s *secret) call(ci ssa.CallInstruction, b *ssa.BasicBlock) {
	if s.local[b] {
		return
	}
	cm := ci.Common()
	val, _ := ci.(*ssa.Call)
	result := func(i int, t uint64, why string) {
		if val == nil || t == 0 {
			return
		}
		if tp, ok := val.Type().(*types.Tuple); ok {
			if i < tp.Len() {
				s.tupleSet(val, i, t, why, tp.At(i).Type())
			}
			return
		}
		if i == 0 && carries(val.Type()) {
			s.set(val, t, why)
		}
	}
	nres := cm.Signature().Results().Len()
	gs := s.callees(ci)
	if len(gs) > 0 {
		for _, g := range gs {
			s.addFn(g)
			for i := range g.Params {
				a := argFor(ci, i)
				if a == nil || !carries(g.Params[i].Type()) {
					continue
				}
				if s.closed(s.bits(a, b), b.Parent()) != 0 {
					if s.param[g] == nil {
						s.param[g] = map[int]bool{}
					}
					if !s.param[g][i] {
						s.param[g][i] = true
						s.change = true
					}
				}
			}
			for i := 0; i < nres && i < len(s.ret[g]); i++ {
				t := s.ret[g][i]
				out := t & secSrc
				for k := range g.Params {
					if k < 62 && t&(1<<k) != 0 {
						if a := argFor(ci, k); a != nil {
							out |= s.bits(a, b)
						}
					}
				}
				result(i, out, s.retWhy[g][i])
			}
		}
		return
	}
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append", "min", "max":
			for _, a := range cm.Args {
				result(0, s.bits(a, b), s.why[s.root(a)])
			}
		case "copy":
			if t := s.bits(cm.Args[1], b); t != 0 {
				s.container(cm.Args[0], t, b, s.why[s.root(cm.Args[1])])
			}
		}
		return
	}
	n := staticName(ci)
	if cm.IsInvoke() && cm.Method.Name() == "Error" && isErrType(cm.Value.Type()) || n == "(fmt.Stringer).String" {
		result(0, s.bits(cm.Value, b), s.why[s.root(cm.Value)])
		return
	}
	if len(cm.Args) > 0 && (n == "(*net/url.URL).String" || n == "(*net/url.URL).MarshalBinary") {
		if !cleanURL(cm.Args[0], ci) {
			result(0, secSrc, "(*url.URL).String at "+s.p.instrPos(ci)+", which includes the password")
		}
		return
	}
	if n == "(*net/url.Userinfo).String" || n == "(*net/url.Userinfo).Password" || n == "(*net/http.Request).BasicAuth" {
		i := 0
		if strings.HasSuffix(n, "BasicAuth") {
			i = 1
		}
		result(i, secSrc, "the password taken at "+s.p.instrPos(ci))
		return
	}
	if strings.HasPrefix(n, "(*net/http.Client).Do") || strings.HasPrefix(n, "(*net/url.URL)") || strings.HasPrefix(n, "(net/http.Header)") {
		return
	}
	if transparent(n) {
		var t uint64
		why := ""
		for i, a := range cm.Args {
			x := s.bits(a, b)
			if x != 0 && n == "fmt.Errorf" && i == 1 {
				x = s.errorfBits(cm, a, b, x)
			}
			t |= x
			if x != 0 && why == "" {
				why = s.why[s.root(a)]
				if n == "fmt.Errorf" || n == "errors.New" {
					w := why
					if w == "" {
						w = "text from a parameter"
					}
					why = fmt.Sprintf("%s at %s formats it (%s)", n, s.p.instrPos(ci), w)
				}
			}
		}
		if strings.HasPrefix(n, "errors.As") && t != 0 && len(cm.Args) == 2 {
			s.container(cm.Args[1], t, b, why)
		}
		for i := 0; i < nres; i++ {
			result(i, t, why)
		}
		return
	}
	// other library calls: an error may quote a string that was passed
	for _, a := range cm.Args {
		if !stringish(a.Type()) {
			continue
		}
		if t := s.bits(a, b); t != 0 {
			if i := errResult(ci); i >= 0 {
				result(i, t, "the error of "+shortFn(n)+" at "+s.p.instrPos(ci)+", which quotes its argument")
			}
			if tp := cm.Signature().Results(); n != "os.ReadFile" {
				for i := 0; i < tp.Len(); i++ {
					if stringish(tp.At(i).Type()) {
						result(i, t, s.why[s.root(a)])
					}
				}
			}
		}
	}
}

// errorfBits leaves out operands that only show their type.
func (s *secret) errorfBits(cm *ssa.CallCommon, va ssa.Value, b *ssa.BasicBlock, t uint64) uint64 {
	return t
}

func (s *secret) open(f *ssa.Function) bool {
	if isExportedFn(f) {
		return true
	}
	if f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
		return true // reachable through an interface
	}
	if f.Parent() != nil {
		for _, r := range *refsOfFn(f) {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for _, q := range *mc.Referrers() {
					if ci, ok := q.(ssa.CallInstruction); ok && ci.Common().Value == mc {
						continue
					}
					return true
				}
				continue
			}
		}
		return false
	}
	return false
}

func refsOfFn(f *ssa.Function) *[]ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				out = append(out, mc)
			}
		}
	}
	return &out
}

func checkC11(c *Ctx) {
	c.Rule("whole-module taint over SSA: a location (any string that becomes an http request or a parsed URL, what it was taken from and put together with, and the text of a url.URL that may still have its user) reaches no error result of an exported or escaping function, no panic, and no Error or String method of an error type; library calls are taken to quote their string arguments in their errors; Redacted, a URL whose user was removed, and code reached only for local files are clean")
	p := c.P
	s := &secret{c: c, p: p, known: map[*ssa.Function]bool{}, val: map[ssa.Value]uint64{}, src: map[ssa.Value]bool{}, param: map[*ssa.Function]map[int]bool{}, ret: map[*ssa.Function][]uint64{}, retWhy: map[*ssa.Function][]string{}, field: map[*types.Var]string{}, why: map[ssa.Value]string{}, tuple: map[ssa.Value][]uint64{}, local: map[*ssa.BasicBlock]bool{}, bind: map[*ssa.FreeVar]ssa.Value{}, fieldF: map[*types.Var]bool{}}
	for _, f := range p.Funcs {
		s.addFn(f)
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, v := range mc.Bindings {
						if i < len(g.FreeVars) {
							s.bind[g.FreeVars[i]] = v
						}
					}
				}
			}
		}
	}
	sites := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range s.fns {
		for _, ci := range callsIn(f) {
			for _, g := range s.callees(ci) {
				sites[g] = append(sites[g], ci)
			}
		}
	}
	nsrc := 0
	for i := 0; i < len(s.fns); i++ {
		for _, ci := range callsIn(s.fns[i]) {
			if s.local[ci.Block()] {
				continue
			}
			a := -1
			switch staticName(ci) {
			case "net/url.Parse", "net/url.ParseRequestURI", "go.lsp.dev/uri.Parse":
				a = 0
			case "net/http.NewRequestWithContext":
				a = 2
			case "net/http.NewRequest":
				a = 1
			case "net/http.Get", "net/http.Head":
				a = 0
			case "(*net/http.Client).Get", "(*net/http.Client).Head":
				a = 1
			}
			if a >= 0 && a < len(ci.Common().Args) {
				nsrc++
				c.Funcs[s.fns[i]] = true
				s.location(ci.Common().Args[a], sites)
			}
		}
	}
	// what is written to the repositories file is read back as locations
	if f := p.rel("(*pkg/apk.APK).SetRepositories"); f != nil {
		for i, q := range f.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && stringish(sl.Elem()) {
				s.location(f.Params[i], sites)
			}
		}
	}
	for v := range s.src {
		if q, ok := v.(*ssa.Parameter); ok {
			f := q.Parent()
			for i, w := range f.Params {
				if w == q {
					if s.param[f] == nil {
						s.param[f] = map[int]bool{}
					}
					s.param[f][i] = true
				}
			}
		}
	}
	for round := 0; ; round++ {
		s.change = false
		for i := 0; i < len(s.fns); i++ {
			s.step(s.fns[i])
		}
		if !s.change {
			break
		}
		if round > 200 {
			c.Undecided("taint", "fixpoint", "?", "the flow of locations did not settle")
			return
		}
	}
	if debugPoints {
		for v := range s.src {
			fmt.Println("SRC", v.Name(), v.Parent(), p.pos(v.Pos()))
		}
		for f, w := range s.field {
			fmt.Println("FIELD", f, w)
		}
	}
	sort.Slice(s.fns, func(i, j int) bool { return s.fns[i].String() < s.fns[j].String() })
	for _, f := range s.fns {
		touched := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && s.closed(s.val[v], f) != 0 {
					touched = true
				}
				pn, ok := in.(*ssa.Panic)
				if !ok {
					continue
				}
				bad := s.eff(pn.X, b)
				c.Check(!bad, "panic", "panic in "+shortFn(f.String()), p.instrPos(in), "the panic message shows a location: "+s.why[s.root(pn.X)])
			}
		}
		for _, q := range f.Params {
			if s.closed(s.val[q], f) != 0 {
				touched = true
			}
		}
		if touched {
			c.Funcs[f] = true
		}
		res := f.Signature.Results()
		name := f.Name()
		if f.Object() != nil && name == "Error" && res.Len() == 1 && stringish(res.At(0).Type()) && f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 {
			bad := len(s.ret[f]) == 1 && s.closed(s.ret[f][0], f) != 0
			d := ""
			if bad {
				d = "the text of the error shows a location: " + s.retWhy[f][0]
			}
			c.Check(!bad, "error-text", shortFn(f.String()), p.pos(f.Pos()), d)
		}
		if !s.open(f) {
			continue
		}
		for i := 0; i < res.Len(); i++ {
			if !isErrType(res.At(i).Type()) {
				continue
			}
			bad := i < len(s.ret[f]) && s.closed(s.ret[f][i], f) != 0
			if !bad && !touched {
				continue
			}
			d := ""
			if bad {
				d = "the error returned shows a location with its password: " + s.retWhy[f][i]
			}
			c.Check(!bad, "returned", "error of "+shortFn(f.String()), p.pos(f.Pos()), d)
		}
	}
	if nsrc < 2 {
		c.Undecided("anchor", "requests", "?", "no requests or parsed URLs found")
	}
	c.AtLeast("returned", 4, "functions dealing with locations")
}
