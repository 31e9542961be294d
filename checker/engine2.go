package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simple applies the transfer function of a non-control instruction.
func (e *Engine) simple(s *State, in ssa.Instruction) {
	fr := s.top()
	switch x := in.(type) {
	case *ssa.Alloc:
		name := x.Comment
		if name == "" {
			name = "new"
		}
		fr.env[x] = s.instance(x, "alloc", name, x.Type(), x)
	case *ssa.UnOp:
		v := s.Val(x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = s.Load(v, x.Type())
		case token.ARROW:
			t := s.instance(x, "inst", "recv", x.Type(), x, v)
			fr.env[x] = t
		case token.NOT:
			if b, ok := v.isBoolConst(); ok {
				fr.env[x] = e.Bool(!b)
			} else if v.Op == "un" && v.Fn == "!" {
				fr.env[x] = v.Args[0]
			} else {
				fr.env[x] = e.T.mk("un", "!", x.Type(), nil, v)
			}
		default:
			if c, ok := constOf(v); ok && x.Op == token.SUB {
				r := constant.UnaryOp(token.SUB, c, 0)
				fr.env[x] = e.T.mk("const", r.ExactString(), x.Type(), r)
				return
			}
			fr.env[x] = e.T.mk("un", x.Op.String(), x.Type(), nil, v)
		}
	case *ssa.BinOp:
		a, b := s.Val(x.X), s.Val(x.Y)
		ca, oka := constOf(a)
		cb, okb := constOf(b)
		if oka && okb && ca.Kind() == cb.Kind() {
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				if ca.Kind() == constant.Int || (ca.Kind() == constant.String && x.Op == token.ADD) {
					r := constant.BinaryOp(ca, x.Op, cb)
					fr.env[x] = e.T.mk("const", r.ExactString(), x.Type(), r)
					return
				}
			}
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			t := e.T.mk("bin", x.Op.String(), x.Type(), nil, a, b)
			if r := s.Truth(t); r >= 0 {
				fr.env[x] = e.Bool(r == 1)
			} else {
				fr.env[x] = t
			}
			return
		}
		fr.env[x] = e.T.mk("bin", x.Op.String(), x.Type(), nil, a, b)
	case *ssa.FieldAddr:
		fr.env[x] = e.faddr(s.Val(x.X), fieldVar(x.X.Type(), x.Field))
	case *ssa.Field:
		fr.env[x] = e.fieldOf(s.Val(x.X), fieldVar(x.X.Type(), x.Field), x.Field)
	case *ssa.IndexAddr:
		fr.env[x] = e.T.mk("iaddr", "", x.Type(), nil, s.Val(x.X), s.Val(x.Index))
	case *ssa.Index:
		fr.env[x] = e.T.mk("index", "", x.Type(), nil, s.Val(x.X), s.Val(x.Index))
	case *ssa.Slice:
		base := s.Val(x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
				fr.env[x] = base
				return
			}
			fr.env[x] = e.T.mk("slice", "", x.Type(), nil, base)
			return
		}
		lo, hi := e.Int(0), e.T.mk("nil", "", nil, nil)
		if x.Low != nil {
			lo = s.Val(x.Low)
		}
		if x.High != nil {
			hi = s.Val(x.High)
		}
		fr.env[x] = e.T.mk("slice", "", x.Type(), nil, base, lo, hi)
	case *ssa.Store:
		a, v := s.Val(x.Addr), s.Val(x.Val)
		if e.OnStore != nil {
			e.OnStore(s, a, v, x)
		}
		s.Store(a, v)
	case *ssa.MapUpdate:
		m, k, v := s.Val(x.Map), s.Val(x.Key), s.Val(x.Value)
		if e.OnMapSet != nil {
			e.OnMapSet(s, m, k, v, x)
		}
		s.bumpMap(m, x)
		s.mem[e.T.mk("mapaddr", "", nil, nil, m, k)] = v
	case *ssa.Lookup:
		m, k := s.Val(x.X), s.Val(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			fr.env[x] = e.T.mk("index", "", x.Type(), nil, m, k)
			return
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var v, ok *Term
		if mv, has := s.mem[e.T.mk("mapaddr", "", nil, nil, m, k)]; has {
			v, ok = mv, e.Bool(true)
		} else {
			tag := s.havoc[m]
			v = e.T.mk("mapget", tag, et, nil, m, k)
			ok = e.T.mk("mapok", tag, types.Typ[types.Bool], nil, m, k)
		}
		if x.CommaOk {
			fr.env[x] = e.T.mk("aggr", "tuple", nil, nil, v, ok)
		} else {
			fr.env[x] = v
		}
	case *ssa.Extract:
		fr.env[x] = e.Extract(s.Val(x.Tuple), x.Index, x.Type())
	case *ssa.MakeSlice:
		fr.env[x] = s.instance(x, "inst", "makeslice", x.Type(), x, s.Val(x.Len))
	case *ssa.MakeMap:
		fr.env[x] = s.instance(x, "inst", "makemap", x.Type(), x)
	case *ssa.MakeChan:
		fr.env[x] = s.instance(x, "inst", "makechan", x.Type(), x)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, s.Val(b))
		}
		f := x.Fn.(*ssa.Function)
		fr.env[x] = e.T.mk("closure", f.String(), x.Type(), f, bs...)
	case *ssa.ChangeType:
		fr.env[x] = s.Val(x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = s.Val(x.X)
	case *ssa.MakeInterface:
		v := s.Val(x.X)
		if v.isNil() {
			v = e.T.mk("conv", "typednil", x.X.Type(), nil, v)
		}
		fr.env[x] = v
	case *ssa.Convert:
		v := s.Val(x.X)
		if c, ok := constOf(v); ok && c.Kind() == constant.Int {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				fr.env[x] = e.T.mk("const", c.ExactString(), x.Type(), c)
				return
			}
		}
		fr.env[x] = e.T.mk("conv", "", x.Type(), nil, v)
	case *ssa.TypeAssert:
		v := s.Val(x.X)
		var val, ok *Term
		known := -1
		if v.Typ != nil && !types.IsInterface(v.Typ) && !v.isNil() {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				known = b2i(types.Implements(v.Typ, it))
			} else {
				known = b2i(types.Identical(v.Typ, x.AssertedType))
			}
		}
		switch known {
		case 1:
			val, ok = v, e.Bool(true)
		case 0:
			val, ok = e.zero(x.AssertedType), e.Bool(false)
		default:
			val = e.T.mk("tassert", "", x.AssertedType, nil, v)
			ok = e.T.mk("tassertok", "", x.AssertedType, nil, v)
		}
		if x.CommaOk {
			fr.env[x] = e.T.mk("aggr", "tuple", nil, nil, val, ok)
		} else {
			fr.env[x] = val
		}
	case *ssa.Range:
		fr.env[x] = e.T.mk("pure", "range", x.Type(), nil, s.Val(x.X))
	case *ssa.Next:
		fr.env[x] = s.instance(x, "inst", "next", x.Type(), x, s.Val(x.Iter).arg0())
	case *ssa.Select:
		var chans []*Term
		for _, st := range x.States {
			chans = append(chans, s.Val(st.Chan))
			if st.Dir == types.SendOnly && e.OnSend != nil {
				e.OnSend(s, s.Val(st.Chan), s.Val(st.Send), x)
			}
		}
		fr.env[x] = s.instance(x, "inst", "select", x.Type(), x, chans...)
	case *ssa.Send:
		if e.OnSend != nil {
			e.OnSend(s, s.Val(x.Chan), s.Val(x.X), x)
		}
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = s.instance(in, "inst", fmt.Sprintf("%T", in), v.Type(), in)
		}
	}
}

func (t *Term) arg0() *Term {
	if len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

func (s *State) bumpMap(m *Term, in ssa.Instruction) {
	for a := range s.mem {
		if a.Op == "mapaddr" && a.Args[0] == m {
			delete(s.mem, a)
		}
	}
	s.havoc[m] = fmt.Sprintf("m%d", s.e.site(in))
	for f := range s.facts {
		if f.contains(func(x *Term) bool {
			return (x.Op == "mapget" || x.Op == "mapok") && x.Args[0] == m
		}) {
			delete(s.facts, f)
		}
	}
}

func (s *State) callOperands(c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, s.Val(c.Value))
		for _, a := range c.Args {
			args = append(args, s.Val(a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, s.Val(a))
	}
	return s.Val(c.Value), args
}

// Pure library functions: equal arguments give equal results and nothing is written.
var purePrefixes = []string{"strings.", "path/filepath.", "path.", "strconv.", "encoding/hex.", "encoding/base64.", "(*encoding/base64.Encoding).", "net/url.", "(*net/url.URL).", "(net/url.Values).", "(*net/url.Userinfo).", "errors.Is", "fmt.Sprint", "os.IsNotExist", "os.IsExist", "os.IsPermission", "(io/fs.FileMode).", "(error).Error", "(io/fs.FileInfo).", "(time.Time).", "(time.Duration).", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "unicode.", "unicode/utf8.", "(*os.File).Name", "go.lsp.dev/uri.", "(go.lsp.dev/uri.URI).", "(*regexp.Regexp).", "net/http.CanonicalHeaderKey", "slices.Contains", "slices.Index", "(io/fs.DirEntry).", "(context.Context).", "path/filepath.Walk!", "golang.org/x/sys/unix.M", "crypto/sha1.Sum", "crypto/sha256.Sum", "math.", "(encoding/hex.", "(reflect.", "(*archive/tar.Header).FileInfo", "(net/http.Header).Get"}

// Library calls that do not write through the pointers they are given (for the store abstraction).
var readOnlyPrefixes = []string{"fmt.", "errors.", "(*log", "log.", "github.com/chainguard-dev/clog.", "(*github.com/chainguard-dev/clog.", "(*log/slog.", "log/slog.", "go.opentelemetry.io/", "(go.opentelemetry.io/", "(*go.opentelemetry.io/", "net/http.NewRequest", "(*net/http.Client).Do", "(*net/http.Request).WithContext", "(*net/http.Request).Clone", "(*net/http.Request).SetBasicAuth", "(*net/http.Request).BasicAuth", "context.", "os.", "(*os.File).Name", "sort.", "runtime.", "time.", "encoding/json.Marshal", "(net/http.Header).", "net/http.", "(*sync.", "(*golang.org/x/sync/errgroup.", "golang.org/x/sync/errgroup.", "bytes.NewReader", "github.com/klauspost/compress/gzip.NewReader", "archive/tar.NewReader", "archive/tar.NewWriter", "bufio.New", "io.NopCloser", "io.TeeReader", "io.MultiWriter"}

func hasAnyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func isPureName(n string) bool {
	if n == "path/filepath.Walk" || n == "path/filepath.WalkDir" || n == "path/filepath.Glob" || n == "path/filepath.EvalSymlinks" || n == "path/filepath.Abs" || n == "strings.NewReader" || n == "strings.NewReplacer" || n == "time.Now" || n == "strings.Map" || n == "strings.FieldsFunc" || n == "strings.IndexFunc" || n == "(context.Context).Done" || n == "(context.Context).Err" || strings.HasPrefix(n, "math/rand") {
		return false
	}
	return hasAnyPrefix(n, purePrefixes)
}

func calleeName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n := fn.String()
	if strings.HasPrefix(n, "golang.org/x/exp/slices.") {
		n = n[len("golang.org/x/exp/"):] // the forerunner of the standard package
	}
	return n
}

type resolved struct {
	fn       *ssa.Function
	bindings []*Term
	name     string
	obj      *types.Func
	builtin  string
}

func (e *Engine) resolve(c *ssa.CallCommon, fnT *Term, args []*Term) resolved {
	if c.IsInvoke() {
		r := resolved{obj: c.Method, name: c.Method.FullName()}
		recv := args[0]
		if recv.Typ != nil && !types.IsInterface(recv.Typ) && !recv.isNil() {
			sel := e.P.SSA.MethodSets.MethodSet(recv.Typ).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				if f := e.P.SSA.MethodValue(sel); f != nil {
					r.fn = f
					r.name = calleeName(f)
					if o, ok := f.Object().(*types.Func); ok {
						r.obj = o
					}
				}
			}
		}
		return r
	}
	switch fnT.Op {
	case "builtin":
		return resolved{builtin: fnT.Fn, name: fnT.Fn}
	case "func", "closure":
		f := fnT.Obj.(*ssa.Function)
		r := resolved{fn: f, name: calleeName(f)}
		if fnT.Op == "closure" {
			r.bindings = fnT.Args
		}
		if o, ok := f.Object().(*types.Func); ok {
			r.obj = o
		}
		return r
	}
	return resolved{name: "dyn"}
}

// finish assigns the result of an opaque/modelled call and advances.
func (e *Engine) finish(s *State, instr ssa.CallInstruction, res *Term) {
	fr := s.top()
	if c, ok := instr.(*ssa.Call); ok {
		if res != nil {
			fr.env[c] = res
		}
		fr.idx++
	}
}

func (e *Engine) resultType(instr ssa.CallInstruction) types.Type {
	if v := instr.Value(); v != nil {
		return v.Type()
	}
	return nil
}

func (e *Engine) pushFrame(s *State, instr ssa.CallInstruction, r resolved, args []*Term, mode int, group, result *Term) bool {
	fn := r.fn
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], call: instr, mode: mode, group: group, result: result}
	fr.ctx = s.top().ctx + fmt.Sprintf("/%d", e.site(instr))
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = e.T.mkInst("inst", "cbarg:"+p.Name(), fmt.Sprintf("cb%d%s", i, fr.ctx), p.Type(), nil)
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(r.bindings) {
			fr.env[p] = r.bindings[i]
		}
	}
	e.Funcs[fn] = true
	s.frames = append(s.frames, fr)
	s.note(instr.Pos(), "(call "+fn.Name()+")")
	return true
}

func (e *Engine) canInline(s *State, fn *ssa.Function, name string) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if !e.P.inModule(fn) {
		return false
	}
	if e.Boundary[name] {
		return false
	}
	if len(s.frames) >= e.MaxDepth {
		return false
	}
	for _, f := range s.frames {
		if f.fn == fn {
			return false
		}
	}
	if e.Inline != nil {
		return e.Inline(fn)
	}
	return true
}

func instrCount(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (e *Engine) call(s *State, instr ssa.CallInstruction, fnT *Term, args []*Term, deferred, isGo bool) {
	common := instr.Common()
	if fnT != nil && fnT.Op == "closure" && len(fnT.Args) == 1 && !common.IsInvoke() {
		// a method value: call the method with the bound receiver
		w := fnT.Obj.(*ssa.Function)
		if o, ok := w.Object().(*types.Func); ok && strings.HasPrefix(w.Synthetic, "bound method") {
			if m := e.P.SSA.FuncValue(o); m != nil {
				args = append([]*Term{fnT.Args[0]}, args...)
				fnT = e.T.mk("func", m.String(), m.Signature, m)
			}
		}
	}
	r := e.resolve(common, fnT, args)
	if r.builtin != "" {
		e.builtin(s, instr, r.builtin, args)
		return
	}
	ev := &CallEvent{Instr: instr, Name: r.name, Static: r.fn, Obj: r.obj, Args: args, Deferred: deferred, Go: isGo}
	ev.WillInline = e.canInline(s, r.fn, r.name)
	if e.OnCall != nil {
		e.OnCall(s, ev)
		if s.dead {
			return
		}
	}
	if ev.Result == nil && r.name == "errors.As" && len(args) == 2 {
		ev.Result = e.errorsAs(s, args[0], args[1])
	}
	if ev.Result != nil {
		e.finish(s, instr, ev.Result)
		e.post(s, ev, ev.Result)
		return
	}
	if ev.WillInline && !ev.NoInline {
		mode := 0
		if isGo {
			mode = 1
		}
		e.pushFrame(s, instr, r, args, mode, nil, nil)
		e.park(s)
		return
	}
	typ := e.resultType(instr)
	name := r.name
	// control models
	switch name {
	case "slices.ContainsFunc", "slices.IndexFunc":
		fT := args[1]
		if fT.Op == "closure" || fT.Op == "func" {
			rr := e.resolve(&ssa.CallCommon{}, fT, nil)
			if e.canInline(s, rr.fn, rr.name) {
				t := s.clone()
				no := e.Bool(false)
				if name == "slices.IndexFunc" {
					no = e.Int(-1)
				}
				e.finish(t, instr, no)
				if e.OnNone != nil {
					e.OnNone(t, args[0], fT)
				}
				e.park(t)
				if s.IsNil(args[0]) == 1 {
					s.dead = true
					return
				}
				idx := s.instance(instr, "inst", "elemidx", types.Typ[types.Int], nil)
				el := e.T.mk("load", "", rr.fn.Params[0].Type(), nil, e.T.mk("iaddr", "", types.NewPointer(rr.fn.Params[0].Type()), nil, args[0], idx))
				yes := e.Bool(true)
				if name == "slices.IndexFunc" {
					yes = idx
					s.Assume(e.T.mk("bin", "<", types.Typ[types.Bool], nil, idx, e.Int(0)), false)
				}
				e.pushFrame(s, instr, rr, []*Term{el}, 3, nil, yes)
				e.park(s)
				return
			}
		}
	case "(*sync.Once).Do", "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo":
		fT := args[1]
		if fT.Op == "closure" || fT.Op == "func" {
			rr := e.resolve(&ssa.CallCommon{Value: nil}, fT, nil)
			if e.canInline(s, rr.fn, rr.name) {
				once := name == "(*sync.Once).Do"
				if once {
					t := s.clone()
					t.Mark("onceskip", args[0])
					e.finish(t, instr, nil)
					e.park(t)
					e.pushFrame(s, instr, rr, nil, 1, nil, nil)
				} else {
					e.pushFrame(s, instr, rr, nil, 2, args[0], nil)
				}
				e.park(s)
				return
			}
		}
	case "(*golang.org/x/sync/errgroup.Group).Wait":
		if s.HasMark("grouperr", args[0]) {
			res := s.instance(instr, "inst", name, typ, r.obj, args...)
			s.Assume(e.EqTerm(res, e.Nil()), false)
			e.finish(s, instr, res)
			return
		}
		e.finish(s, instr, e.Nil())
		return
	}
	var res *Term
	switch {
	case isPureName(name):
		as := args
		if len(as) > 0 && as[len(as)-1].Op == "slice" && common.Signature().Variadic() {
			as = append(append([]*Term(nil), as[:len(as)-1]...), s.expandVariadic(as[len(as)-1])...)
		}
		if name == "errors.Is" && as[0].isNil() {
			res = e.Bool(false)
			break
		}
		res = e.T.mk("pure", name, typ, r.obj, as...)
	default:
		as := append([]*Term(nil), args...)
		if len(as) > 0 && as[len(as)-1].Op == "slice" && common.Signature().Variadic() {
			as = append(as[:len(as)-1], s.expandVariadic(args[len(args)-1])...)
		}
		if typ == nil {
			typ = types.NewTuple()
		}
		label := fmt.Sprintf("%d%s", e.site(instr), s.top().ctx)
		s.stale(label)
		for i := range as {
			as[i] = s.substStale(as[i], label)
		}
		for i := range args {
			args[i] = s.substStale(args[i], label)
		}
		ev.Args = args
		res = e.T.mkInst("inst", name, label, typ, r.obj, as...)
		e.effects(s, r, args, name, "c"+label)
	}
	// callbacks handed to code outside the analysed set may run
	if e.MayRunCallbacks && !isPureName(name) {
		for _, a := range args {
			if (a.Op == "closure" || a.Op == "func") && !isGo {
				rr := e.resolve(&ssa.CallCommon{}, a, nil)
				if e.canInline(s, rr.fn, rr.name) {
					t := s.clone()
					e.finish(t, instr, res)
					e.post(t, ev, res)
					e.park(t)
					e.pushFrame(s, instr, rr, nil, 1, nil, res)
					s.note(instr.Pos(), "(callback)")
					e.park(s)
					return
				}
			}
		}
	}
	e.finish(s, instr, res)
	e.post(s, ev, res)
}

// OnPost is invoked after a call that was not inlined, with its result term.
// errorsAs decides errors.As for error types of the module, whose values only the module's own code makes.
func (e *Engine) errorsAs(s *State, err, target *Term) *Term {
	if target.Typ == nil {
		return nil
	}
	pt, ok := target.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n := namedOf(pt.Elem())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if _, isIface := n.Underlying().(*types.Interface); isIface {
		return nil
	}
	const (
		unknown = iota
		no
		yes
	)
	var found *Term
	var look func(t *Term, d int) int
	look = func(t *Term, d int) int {
		if d > 10 {
			return unknown
		}
		if t.isNil() {
			return no
		}
		if t.Op == "aggr" || t.Op == "alloc" || t.Op == "conv" {
			if t.Typ != nil && types.Identical(t.Typ, pt.Elem()) {
				found = t
				return yes
			}
			return unknown
		}
		if t.isCall("fmt.Errorf") && len(t.Args) > 0 {
			f, ok := t.Args[0].strConst()
			if !ok {
				return unknown
			}
			if !strings.Contains(f, "%w") {
				return no
			}
			r := no
			for _, a := range t.Args[1:] {
				if a.Typ != nil && !types.Identical(a.Typ.Underlying(), types.Universe.Lookup("error").Type().Underlying()) {
					if !types.Identical(a.Typ, pt.Elem()) {
						continue
					}
				}
				switch look(a, d+1) {
				case yes:
					return yes
				case unknown:
					r = unknown
				}
			}
			return r
		}
		if t.isCall("errors.New") {
			return no
		}
		c := t
		if c.Op == "extract" {
			c = c.Args[0]
		}
		if c.Op == "inst" || c.Op == "pure" {
			// made by the library, or by a package that cannot know the type
			if !strings.Contains(c.Fn, n.Obj().Pkg().Path()+".") && !strings.Contains(c.Fn, "$") && c.Fn != "" && strings.Contains(c.Fn, ".") && !e.takesModuleFunc(c) {
				return no
			}
		}
		return unknown
	}
	switch look(err, 0) {
	case yes:
		s.Store(target, found)
		return e.Bool(true)
	case no:
		return e.Bool(false)
	}
	s.havocPtr(target, "as"+itoa(err.id))
	return nil
}

// takesModuleFunc: the call was handed a function of the module whose error it may pass on.
func (e *Engine) takesModuleFunc(c *Term) bool {
	for _, a := range c.Args {
		if a.Op == "closure" || a.Op == "func" {
			return true
		}
	}
	return false
}

func (e *Engine) post(s *State, ev *CallEvent, res *Term) {
	ev.Final = res
	for _, f := range ev.PostFact {
		if !s.Assume(f.T, f.V) {
			s.dead = true
			return
		}
	}
	if e.OnPost != nil {
		e.OnPost(s, ev)
	}
}

func (s *State) expandVariadic(t *Term) []*Term {
	if t.Op == "slice" && len(t.Args) == 1 && t.Args[0].Op == "alloc" {
		al := t.Args[0]
		if p, ok := al.Typ.Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok && arr.Len() < 32 {
				var out []*Term
				for i := int64(0); i < arr.Len(); i++ {
					out = append(out, s.Load(s.e.T.mk("iaddr", "", types.NewPointer(arr.Elem()), nil, al, s.e.Int(i)), arr.Elem()))
				}
				return out
			}
		}
	}
	return []*Term{t}
}

// effects applies what an opaque call may write.
func (e *Engine) effects(s *State, r resolved, args []*Term, name, tag string) {
	if r.fn != nil && e.P.inModule(r.fn) && len(r.fn.Blocks) > 0 {
		ms := e.P.modSet(r.fn)
		s.applyMod(ms, tag)
		for _, a := range args {
			if p, ok := ptrElem(a.Typ); ok {
				if _, isS := structOf(p); !isS && (a.Op == "alloc" || a.Op == "faddr") {
					s.havocAll(a, tag)
				}
			}
		}
		return
	}
	if r.fn == nil && r.obj != nil {
		for _, f := range e.P.implsOf(r.obj) {
			s.applyMod(e.P.modSet(f), tag)
		}
	}
	if hasAnyPrefix(name, readOnlyPrefixes) {
		return
	}
	for _, a := range args {
		if a.Op == "slice" && len(a.Args) == 1 {
			for _, el := range s.expandVariadic(a) {
				if el.Op == "alloc" || el.Op == "faddr" {
					s.havocAll(el, tag)
				}
			}
			if a.Args[0].Op == "alloc" {
				s.havocAll(a.Args[0], tag)
			}
			continue
		}
		if a.Op == "closure" {
			// the callee may run it and write captured variables
			if f, ok := a.Obj.(*ssa.Function); ok {
				s.applyMod(e.P.modSet(f), tag)
			}
			for _, b := range a.Args {
				if b.Op == "alloc" && writtenInClosure(a.Obj.(*ssa.Function), b, a) {
					s.havocAll(b, tag)
				}
			}
			continue
		}
		if _, ok := ptrElem(a.Typ); ok {
			s.havocAll(a, tag)
		}
	}
}

func writtenInClosure(f *ssa.Function, b, cl *Term) bool {
	for i, x := range cl.Args {
		if x == b && i < len(f.FreeVars) {
			fv := f.FreeVars[i]
			if fv.Referrers() == nil {
				return true
			}
			for _, rr := range *fv.Referrers() {
				switch y := rr.(type) {
				case *ssa.Store:
					if y.Addr == fv {
						return true
					}
				case *ssa.UnOp:
				default:
					return true
				}
			}
		}
	}
	return false
}

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// havocAll forgets what is stored at or under p, and facts about it.
func (s *State) havocAll(p *Term, tag string) {
	s.havocPtr(p, tag)
	for f := range s.facts {
		if f.contains(func(x *Term) bool { return x.Op == "load" && addrPrefix(p, x.Args[0]) }) {
			delete(s.facts, f)
		}
	}
}

type modSet struct {
	fields  map[*types.Var]bool
	globals map[string]bool
	maps    bool
}

func (s *State) applyMod(ms *modSet, tag string) {
	hit := func(a *Term) bool {
		for x := a; ; x = x.Args[0] {
			if x.Op == "faddr" {
				if fv, ok := x.Obj.(*types.Var); ok && ms.fields[fv] {
					return true
				}
			}
			if x.Op == "gaddr" && ms.globals[x.Fn] {
				return true
			}
			if x.Op != "faddr" && x.Op != "iaddr" {
				return false
			}
		}
	}
	for a := range s.mem {
		if a.Op == "mapaddr" {
			if ms.maps && a.Args[0].Op != "alloc" {
				delete(s.mem, a)
				s.havoc[a.Args[0]] = tag
			}
			continue
		}
		if hit(a) && !s.privateRoot(addrRoot(a)) {
			delete(s.mem, a)
			s.havoc[a] = tag
		}
	}
	for f := range s.facts {
		if f.contains(func(x *Term) bool {
			if x.Op == "load" && hit(x.Args[0]) {
				return true
			}
			return ms.maps && (x.Op == "mapget" || x.Op == "mapok") && x.Args[0].Op == "load" && hit(x.Args[0].Args[0])
		}) {
			delete(s.facts, f)
		}
	}
	// loads of these fields from now on are new values
	for fv := range ms.fields {
		s.fieldHavoc(fv, tag)
	}
}

// privateRoot: a local allocation that never escapes (approximated: alloc of non-heap).
func (s *State) privateRoot(r *Term) bool {
	if r.Op != "alloc" {
		return false
	}
	if al, ok := r.Obj.(*ssa.Alloc); ok {
		return !al.Heap
	}
	return false
}

// fieldHavoc records a new version for field fv of every object whose field value is live.
func (s *State) fieldHavoc(fv *types.Var, tag string) {
	// versions are attached to concrete addresses seen in live terms
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "load" && x.Args[0].Op == "faddr" && x.Args[0].Obj == any(fv) {
				seen[x.Args[0]] = true
			}
			return true
		})
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			visit(t)
		}
	}
	for m := range s.marks {
		visit(m)
	}
	for a := range seen {
		s.havoc[a] = tag
	}
}

// modSet computes the struct fields, globals and maps a module function may write, transitively.
func (p *Prog) modSet(fn *ssa.Function) *modSet {
	if p.mods == nil {
		p.mods = map[*ssa.Function]*modSet{}
	}
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &modSet{fields: map[*types.Var]bool{}, globals: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	var addr func(v ssa.Value)
	addr = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			m.fields[fieldVar(x.X.Type(), x.Field)] = true
		case *ssa.Global:
			m.globals[x.String()] = true
		case *ssa.IndexAddr:
			addr(x.X)
			if u, ok := x.X.(*ssa.UnOp); ok {
				addr(u.X)
			}
		}
	}
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					addr(x.Addr)
					// whole struct store
				case *ssa.MapUpdate:
					m.maps = true
				case *ssa.MakeClosure:
					rec(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					if c.IsInvoke() {
						for _, g := range p.implsOf(c.Method) {
							rec(g)
						}
						continue
					}
					if g := c.StaticCallee(); g != nil {
						rec(g)
						if !p.inModule(g) && !hasAnyPrefix(g.String(), readOnlyPrefixes) && !isPureName(g.String()) {
							for _, a := range c.Args {
								addr(a)
							}
						}
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m.maps = true
					}
				}
			}
		}
	}
	rec(fn)
	p.mods[fn] = m
	return m
}

func (e *Engine) builtin(s *State, instr ssa.CallInstruction, name string, args []*Term) {
	typ := e.resultType(instr)
	ev := &CallEvent{Instr: instr, Name: "builtin." + name, Args: args}
	if e.OnCall != nil {
		e.OnCall(s, ev)
		if s.dead {
			return
		}
	}
	if ev.Result != nil {
		e.finish(s, instr, ev.Result)
		return
	}
	var res *Term
	switch name {
	case "len":
		if c, ok := args[0].strConst(); ok {
			res = e.Int(int64(len(c)))
		} else if vs := args[0]; vs.isNil() {
			res = e.Int(0)
		} else if vs.Op == "slice" && len(vs.Args) == 1 && vs.Args[0].Op == "alloc" {
			if p, ok := ptrElem(vs.Args[0].Typ); ok {
				if arr, ok := p.Underlying().(*types.Array); ok {
					res = e.Int(arr.Len())
				}
			}
		}
		if res == nil {
			tag := ""
			if args[0].Typ != nil {
				if _, ok := args[0].Typ.Underlying().(*types.Map); ok {
					tag = s.havoc[args[0]]
				}
			}
			if tag != "" {
				res = e.T.mk("pure", "len", typ, nil, args[0], e.T.mk("const", tag, nil, nil))
			} else {
				res = e.T.mk("pure", "len", typ, nil, args[0])
			}
		}
	case "cap", "real", "imag", "complex", "min", "max":
		res = e.T.mk("pure", name, typ, nil, args...)
	case "append":
		as := args
		if len(args) == 2 {
			as = append([]*Term{args[0]}, s.expandVariadic(args[1])...)
		}
		if termDepth(args[0]) > 6 || args[0].Op == "pure" && args[0].Fn == "append" && len(args[0].Args) > 6 {
			res = s.instance(instr, "inst", "append", typ, nil, as[1:]...)
		} else {
			res = e.T.mk("pure", "append", typ, nil, as...)
		}
	case "copy":
		if args[0].Op == "slice" && args[0].Args[0].Op == "alloc" {
			s.havocAll(args[0].Args[0], fmt.Sprintf("cp%d", e.site(instr)))
		}
		res = s.instance(instr, "inst", "copy", typ, nil, args...)
	case "delete":
		s.bumpMap(args[0], instr)
	case "close", "print", "println", "clear":
	case "recover":
		res = e.Nil()
	case "panic":
		s.dead = true
		return
	default:
		if typ != nil {
			res = s.instance(instr, "inst", "builtin."+name, typ, nil, args...)
		}
	}
	e.finish(s, instr, res)
	e.post(s, ev, res)
}
