package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", checkC31,
		"closing is release: the error of the close itself is judged by C18",
		"a value handed to the caller, or stored in an object that outlives the call, is the holder's to release")
}

// A resource obtained by a function of the module and what is known to hold it.
type resKind int

const (
	resOpen resKind = iota // to be closed
	resTemp                // a temporary name, to be removed or renamed
	resDir                 // a temporary directory, to be removed or renamed
)

type owner struct {
	p     *Prog
	fn    *ssa.Function
	kind  resKind
	level map[ssa.Value]int            // 2: the resource, 1: something that holds it
	cells map[ssa.Value]map[string]int // local variables: field path -> level
	errv  ssa.Value
	succ  bool // owed when the error is nil
	fail  bool // owed when the error is not nil
	start ssa.Instruction
	escIn map[ssa.Instruction]bool // stores that hand it to an object that outlives the call
}

// ownInfo: when a result of a function is to be released by its caller.
type ownInfo struct {
	succ, fail bool
	viaParam   map[int]bool // on success it is held by the object passed as that argument
}

type resAnalysis struct {
	p      *Prog
	owned  map[*ssa.Function]map[int]*ownInfo
	busy   map[*ssa.Function]bool
	takes  map[string]bool
	tbusy  map[string]bool
	wrapM  map[string]map[int]bool
	closeM map[*ssa.Function]bool
}

func (ra *resAnalysis) resourceType(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*os.File", "*net/http.Response", "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser", "io/fs.File", "io/fs.ReadDirFile", "io.Closer", "io.ReadSeekCloser":
		return true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && hasMethod(t, "Close")
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// closerType: closing a value of this type of the module gives back what it holds.
func (ra *resAnalysis) closerType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return true
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	sel := ra.p.SSA.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "Close")
	if sel == nil {
		return false
	}
	f := ra.p.SSA.MethodValue(sel)
	if f == nil {
		return false
	}
	return ra.releasing(f, 0)
}

func (ra *resAnalysis) releasing(f *ssa.Function, d int) bool {
	if v, ok := ra.closeM[f]; ok {
		return v
	}
	ra.closeM[f] = false
	for _, c := range callsIn(f) {
		n := staticName(c)
		if n == "os.RemoveAll" || n == "os.Remove" || strings.HasSuffix(n, ".Close") {
			ra.closeM[f] = true
			return true
		}
		if g := c.Common().StaticCallee(); g != nil && d < 3 && ra.p.inModule(g) && ra.releasing(g, d+1) {
			ra.closeM[f] = true
			return true
		}
	}
	return false
}

// acquired lists the results of the call that the caller has to release.
func (ra *resAnalysis) acquired(c ssa.CallInstruction) map[int]*ownInfo {
	if _, ok := c.(*ssa.Call); !ok {
		return nil
	}
	first := map[int]*ownInfo{0: {succ: true}}
	cm := c.Common()
	n := staticName(c)
	switch n {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "os.MkdirTemp":
		return first
	}
	if netCalls[n] {
		return first
	}
	res := cm.Signature().Results()
	if cm.IsInvoke() {
		if n == "(net/http.RoundTripper).RoundTrip" {
			return first
		}
		if res.Len() == 2 && isErrType(res.At(1).Type()) && ra.resourceType(res.At(0).Type()) {
			return first
		}
		return nil
	}
	if g := cm.StaticCallee(); g != nil && ra.p.inModule(g) && len(g.Blocks) > 0 {
		out := map[int]*ownInfo{}
		for i, oi := range ra.ownedResults(g) {
			n := &ownInfo{succ: oi.succ, fail: oi.fail}
			for k := range oi.viaParam {
				if k < len(cm.Args) && localObject(cm.Args[k]) {
					n.succ = true
				}
			}
			if n.succ || n.fail {
				out[i] = n
			}
		}
		return out
	}
	return nil
}

// ownedResults: which results of g are, or hold, a resource obtained in g.
func (ra *resAnalysis) ownedResults(g *ssa.Function) map[int]*ownInfo {
	if r, ok := ra.owned[g]; ok {
		return r
	}
	if ra.busy[g] {
		return nil
	}
	ra.busy[g] = true
	out := map[int]*ownInfo{}
	at := func(i int) *ownInfo {
		if out[i] == nil {
			out[i] = &ownInfo{viaParam: map[int]bool{}}
		}
		return out[i]
	}
	for _, c := range callsIn(g) {
		for _, o := range ra.instances(g, c) {
			if o.kind == resTemp {
				continue
			}
			for _, l := range ra.leaks(o, false) {
				r, ok := l.at.(*ssa.Return)
				if !ok || len(r.Results) == 0 {
					continue
				}
				ev := spilled(r.Results[len(r.Results)-1])
				hasErr := isErrType(ev.Type())
				for i, v := range r.Results {
					if v = spilled(v); isNilConst(v) || !o.holds(v) {
						continue
					}
					oi := at(i)
					switch {
					case !hasErr || isNilConst(ev):
						oi.succ = true
					case o.isErr(ev):
						oi.succ = oi.succ || o.succ
						oi.fail = oi.fail || o.fail
					case ra.failValue(ev, r.Block()):
						oi.fail = true
					default:
						if debugRes {
							println("both", g.String(), ra.p.instrPos(r), o.start.String(), ev.String())
						}
						oi.succ, oi.fail = true, true
					}
				}
			}
			for in := range o.escIn {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for k, p := range g.Params {
					if fa.X == ssa.Value(p) || spillOf(fa.X) == ssa.Value(p) {
						for _, r := range returnsOf(g) {
							for i, v := range r.Results {
								if o.holds(v) {
									at(i).viaParam[k] = true
								}
							}
						}
					}
				}
			}
		}
	}
	delete(ra.busy, g)
	ra.owned[g] = out
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// failValue: the error is certainly not nil where it is returned.
func (ra *resAnalysis) failValue(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Call:
		switch staticName(x) {
		case "fmt.Errorf", "errors.New", "errors.Join":
			return true
		}
	case *ssa.MakeInterface:
		return true
	}
	return nonNilAt(v, b)
}

func returnsOf(g *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range g.Blocks {
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

func extractOf(c *ssa.Call, i int) ssa.Value {
	if _, ok := c.Type().(*types.Tuple); !ok {
		if i == 0 {
			return c
		}
		return nil
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func (ra *resAnalysis) instances(f *ssa.Function, c ssa.CallInstruction) []*owner {
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil
	}
	var out []*owner
	for i, oi := range ra.acquired(c) {
		n := staticName(c)
		kinds := []resKind{resOpen}
		if n == "os.MkdirTemp" {
			kinds = []resKind{resDir}
		} else if n == "os.CreateTemp" && !inTempDir(ra.p, c) {
			kinds = append(kinds, resTemp)
		}
		var errv ssa.Value
		if tup, ok := call.Type().(*types.Tuple); ok && tup.Len() > 0 && isErrType(tup.At(tup.Len()-1).Type()) {
			errv = extractOf(call, tup.Len()-1)
		}
		for _, k := range kinds {
			o := ra.newOwner(f, k, call)
			o.errv, o.succ, o.fail = errv, oi.succ, oi.fail
			if v := extractOf(call, i); v != nil {
				o.level[v] = 2
			}
			ra.spread(o)
			out = append(out, o)
		}
	}
	return out
}

func (ra *resAnalysis) newOwner(f *ssa.Function, k resKind, start ssa.Instruction) *owner {
	return &owner{p: ra.p, fn: f, kind: k, level: map[ssa.Value]int{}, cells: map[ssa.Value]map[string]int{}, escIn: map[ssa.Instruction]bool{}, start: start}
}

// cellOf: the local variable an address belongs to, and the field path in it.
func cellOf(a ssa.Value) (ssa.Value, string) {
	path := ""
	for i := 0; i < 20; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldVar(x.X.Type(), x.Field).Name() + path
			a = x.X
		case *ssa.IndexAddr:
			path = "[]" + path
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, ""
			}
			// a variable that only ever points to one local object
			v := spillOf(x)
			if v == ssa.Value(x) {
				return nil, ""
			}
			a = v
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.FreeVar:
			return a, path
		default:
			return nil, ""
		}
	}
	return nil, ""
}

func (o *owner) setLevel(v ssa.Value, l int) bool {
	if l > 0 && o.level[v] < l {
		o.level[v] = l
		return true
	}
	return false
}

func (o *owner) setCell(root ssa.Value, path string, l int) bool {
	m := o.cells[root]
	if m == nil {
		m = map[string]int{}
		o.cells[root] = m
	}
	if l > m[path] {
		m[path] = l
		return true
	}
	return false
}

func (o *owner) loadCell(root ssa.Value, path string) int {
	best := 0
	for p, l := range o.cells[root] {
		switch {
		case p == path:
			best = max(best, l)
		case strings.HasPrefix(path, p), strings.HasPrefix(p, path):
			best = max(best, 1)
		}
	}
	return best
}

// holds: the value is the resource, or an object that holds it.
func (o *owner) holds(v ssa.Value) bool { return o.lvl(v) > 0 }

func (o *owner) lvl(v ssa.Value) int {
	if l := o.level[v]; l > 0 {
		return l
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		if len(o.cells[v]) > 0 {
			return 1
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		if root, path := cellOf(v); root != nil {
			if o.loadCell(root, path) > 0 {
				return 1
			}
		}
	case *ssa.FreeVar:
		if len(o.cells[v]) > 0 {
			return 1
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if root, path := cellOf(x.X); root != nil {
				return o.loadCell(root, path)
			}
		}
	}
	return 0
}

// carries: values of the type can keep the resource reachable.
func (o *owner) carries(t types.Type) bool {
	if isErrType(t) {
		return false
	}
	switch types.TypeString(t, nil) {
	case "io/fs.FileInfo", "io/fs.DirEntry", "io/fs.FileMode", "[]io/fs.DirEntry", "*archive/tar.Header", "net/http.Header", "context.Context", "time.Time":
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return o.kind != resOpen && u.Info()&types.IsString != 0
	case *types.Slice:
		return o.carries(u.Elem())
	case *types.Array:
		return o.carries(u.Elem())
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return false
		}
		return true
	}
	return true
}

// spread computes what may hold the resource, in f and the closures created in it.
func (ra *resAnalysis) spread(o *owner) {
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	add(o.fn)
	for ch := true; ch; {
		ch = false
		up := func(v ssa.Value, l int) {
			if l > 0 && o.carries(v.Type()) && o.setLevel(v, l) {
				ch = true
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							up(x, o.lvl(e))
						}
					case *ssa.ChangeType:
						up(x, o.lvl(x.X))
					case *ssa.Convert:
						up(x, o.lvl(x.X))
					case *ssa.ChangeInterface:
						up(x, o.lvl(x.X))
					case *ssa.MakeInterface:
						up(x, o.lvl(x.X))
					case *ssa.TypeAssert:
						if tup, ok := x.Type().(*types.Tuple); !ok {
							up(x, o.lvl(x.X))
						} else if o.lvl(x.X) > 0 && o.carries(tup.At(0).Type()) && o.setLevel(x, o.lvl(x.X)) {
							ch = true
						}
					case *ssa.Extract:
						if l := o.level[x.Tuple]; l > 0 {
							up(x, l)
						}
					case *ssa.BinOp:
						if x.Op == token.ADD {
							up(x, min(1, max(o.lvl(x.X), o.lvl(x.Y))))
						}
					case *ssa.Field:
						up(x, o.lvl(x.X))
					case *ssa.UnOp:
						if x.Op != token.MUL {
							continue
						}
						if root, path := cellOf(x.X); root != nil {
							up(x, o.loadCell(root, path))
						} else if fa, ok := x.X.(*ssa.FieldAddr); ok {
							// the body of the response is the response
							if l := o.lvl(fa.X); l > 0 && (l == 1 || resourceField(fa)) {
								up(x, l)
							}
						} else if ia, ok := x.X.(*ssa.IndexAddr); ok {
							up(x, min(1, o.lvl(ia.X)))
						}
					case *ssa.Store:
						l := o.lvl(x.Val)
						if l == 0 {
							continue
						}
						if root, path := cellOf(x.Addr); root != nil {
							if _, fv := root.(*ssa.FreeVar); fv && f == o.fn {
								o.escIn[in] = true
							} else if o.setCell(root, path, l) {
								ch = true
							}
						} else {
							base := x.Addr
							for {
								if fa, ok := base.(*ssa.FieldAddr); ok {
									base = fa.X
									continue
								}
								if ia, ok := base.(*ssa.IndexAddr); ok {
									base = ia.X
									continue
								}
								break
							}
							if o.lvl(base) == 0 {
								o.escIn[in] = true
							}
						}
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						for i, bv := range x.Bindings {
							fv := g.FreeVars[i]
							if l := o.lvl(bv); l > 0 {
								if _, isCell := bv.(*ssa.Alloc); !isCell {
									if _, isFV := bv.(*ssa.FreeVar); !isFV {
										up(fv, l)
									}
								}
								up(x, 1)
							}
							// captured variables share their contents
							if o.share(bv, fv) {
								ch = true
							}
						}
					case *ssa.Call:
						if in == o.start {
							continue
						}
						cm := x.Common()
						if bi, ok := cm.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" {
								for _, a := range cm.Args {
									up(x, min(1, o.lvl(a)))
								}
							}
							continue
						}
						ra.callSpread(o, x, func(i, l int) {
							if tup, ok := x.Type().(*types.Tuple); ok {
								if i < tup.Len() && o.carries(tup.At(i).Type()) {
									if e := extractOf(x, i); e != nil && o.setLevel(e, l) {
										ch = true
									}
								}
								return
							}
							up(x, l)
						})
					}
				}
			}
		}
	}
}

func resourceField(fa *ssa.FieldAddr) bool {
	return isNamed(fa.X.Type(), "net/http.Response") && fieldVar(fa.X.Type(), fa.Field).Name() == "Body"
}

func (o *owner) share(a, b ssa.Value) bool {
	ch := false
	for p, l := range o.cells[a] {
		ch = o.setCell(b, p, l) || ch
	}
	for p, l := range o.cells[b] {
		ch = o.setCell(a, p, l) || ch
	}
	return ch
}

// callSpread: which results of a call hold the resource because an argument does.
func (ra *resAnalysis) callSpread(o *owner, x *ssa.Call, set func(i, l int)) {
	cm := x.Common()
	n := staticName(x)
	args := cm.Args
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	nres := 1
	if tup, ok := x.Type().(*types.Tuple); ok {
		nres = tup.Len()
	}
	for i, a := range args {
		l := o.lvl(a)
		if l == 0 {
			continue
		}
		if g := cm.StaticCallee(); g != nil && ra.p.inModule(g) && len(g.Blocks) > 0 {
			for r := range ra.wraps(g, i, o.kind) {
				set(r, 1)
			}
			continue
		}
		if strings.HasSuffix(n, ").Name") && o.kind == resTemp {
			set(0, 2)
			continue
		}
		switch n {
		case "path/filepath.Clean", "path.Clean":
			set(0, l)
			continue
		case "io.Copy", "io.ReadAll", "os.ReadFile", "os.Stat", "os.Lstat", "path/filepath.Base":
			continue
		}
		for r := 0; r < nres; r++ {
			set(r, 1)
		}
	}
}

// wraps: the results of g that hold its i-th parameter.
func (ra *resAnalysis) wraps(g *ssa.Function, i int, k resKind) map[int]bool {
	key := fmt.Sprint(g.String(), i, k)
	if r, ok := ra.wrapM[key]; ok {
		return r
	}
	ra.wrapM[key] = nil
	o := ra.paramOwner(g, i, k)
	out := map[int]bool{}
	if o != nil {
		for _, r := range returnsOf(g) {
			for j, v := range r.Results {
				if o.holds(v) {
					out[j] = true
				}
			}
		}
	}
	ra.wrapM[key] = out
	return out
}

func (ra *resAnalysis) paramOwner(g *ssa.Function, i int, k resKind) *owner {
	if i >= len(g.Params) {
		return nil
	}
	o := ra.newOwner(g, k, nil)
	o.level[g.Params[i]] = 2
	ra.spread(o)
	return o
}

// takesParam: g releases its i-th parameter, or stores it where it outlives the call, on every path.
func (ra *resAnalysis) takesParam(g *ssa.Function, i int, k resKind) bool {
	key := fmt.Sprint(g.String(), i, k)
	if r, ok := ra.takes[key]; ok {
		return r
	}
	ra.takes[key] = false
	if o := ra.paramOwner(g, i, k); o != nil && len(g.Blocks) > 0 {
		ra.takes[key] = len(ra.leaks(o, false)) == 0
	}
	return ra.takes[key]
}

func isCloseName(n string) bool {
	m := n[strings.LastIndex(n, ".")+1:]
	return m == "Close" || m == "CloseFile"
}

// discharges: after the instruction the function no longer owes the release.
func (ra *resAnalysis) discharges(o *owner, in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return o.escIn[in]
	case *ssa.Send:
		return o.holds(x.X)
	case *ssa.MapUpdate:
		if !o.holds(x.Value) {
			return false
		}
		return !localObject(x.Map)
	case ssa.CallInstruction:
		cm := x.Common()
		n := staticName(x)
		_, isGo := x.(*ssa.Go)
		_, isDefer := x.(*ssa.Defer)
		if cm.IsInvoke() {
			if isCloseName(n) {
				return o.closable(ra, cm.Value)
			}
			return false
		}
		if isCloseName(n) && len(cm.Args) > 0 {
			return o.closable(ra, cm.Args[0])
		}
		if o.kind != resOpen && (n == "os.Remove" || n == "os.RemoveAll" || n == "os.Rename" && !testedErr(x)) {
			return o.lvl(cm.Args[0]) == 2
		}
		if strings.HasPrefix(n, "(*sync.Map).") || strings.HasPrefix(n, "(*container/list.List).Push") {
			for _, a := range cm.Args[1:] {
				if o.holds(a) {
					return true
				}
			}
			return false
		}
		// a function literal called, deferred or handed over, or bound method value
		if depth > 4 {
			return false
		}
		if g, _ := closureFn(cm.Value); g != nil && g.Parent() != nil {
			return ra.literal(o, g, isDefer, depth) || isGo && ra.literal(o, g, true, depth)
		}
		if g := cm.StaticCallee(); g != nil && ra.p.inModule(g) && len(g.Blocks) > 0 {
			for i, a := range cm.Args {
				if o.holds(a) && ra.takesParam(g, i, o.kind) && (o.lvl(a) == 2 || ra.closerType(a.Type()) || !isCloserParam(a.Type())) {
					return true
				}
				if lit, mc := closureFn(a); lit != nil && mc != nil && ra.literal(o, lit, false, depth) {
					return true
				}
			}
			return false
		}
		for _, a := range cm.Args {
			if lit, mc := closureFn(a); lit != nil && mc != nil {
				if ra.literal(o, lit, false, depth) {
					return true
				}
			}
			// a method value such as f.Close given to be called later
			if mc, ok := a.(*ssa.MakeClosure); ok && o.holds(a) && isCloseName(strings.TrimSuffix(mc.Fn.(*ssa.Function).Name(), "$bound")) {
				return true
			}
		}
	}
	return false
}

func isCloserParam(t types.Type) bool { return hasMethod(t, "Close") }

// literal: the function literal releases the resource (on every path, or, when it is deferred, on some).
func (ra *resAnalysis) literal(o *owner, g *ssa.Function, some bool, depth int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	if some {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ra.discharges(o, in, depth+1) {
					return true
				}
			}
		}
		return false
	}
	return len(ra.walk(o, g, g.Blocks[0], 0, depth+1, false)) == 0
}

// closable: closing the value releases the resource.
func (o *owner) closable(ra *resAnalysis, v ssa.Value) bool {
	l := o.lvl(v)
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		v = ci.X
	}
	if l == 2 {
		return o.kind == resOpen || ra.closerType(v.Type())
	}
	return l == 1 && ra.closerType(v.Type())
}

// localObject: the value belongs to an object created in this function.
func localObject(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Alloc); ok {
				w := spillOf(x)
				if w == v {
					return false
				}
				v = w
				continue
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
	return false
}

type leak struct {
	at  ssa.Instruction
	why string
}

func (ra *resAnalysis) leaks(o *owner, viaReturn bool) []leak {
	if o.start == nil {
		return ra.walk(o, o.fn, o.fn.Blocks[0], 0, 0, viaReturn)
	}
	for _, x := range callsIn(o.fn) {
		if d, ok := x.(*ssa.Defer); ok && instrDominates(d, o.start) && ra.discharges(o, d, 0) {
			return nil
		}
	}
	b := o.start.Block()
	for i, in := range b.Instrs {
		if in == o.start {
			return ra.walk(o, o.fn, b, i+1, 0, viaReturn)
		}
	}
	return nil
}

// walk follows the control flow from an instruction and reports the exits reached while still owing the release.
func (ra *resAnalysis) walk(o *owner, f *ssa.Function, b0 *ssa.BasicBlock, i0 int, depth int, viaReturn bool) []leak {
	var out []leak
	type node struct {
		b     *ssa.BasicBlock
		later bool // another one has been obtained since; this one is in a collection
	}
	seen := map[node]bool{}
	var rec func(b *ssa.BasicBlock, i int, later bool)
	rec = func(b *ssa.BasicBlock, i int, later bool) {
		if i == 0 && isLoopHeader(b) {
			// closing every element of the collection that holds it
			lb := loopBlocks(b)
			if o.start == nil || !lb[o.start.Block()] {
				for x := range lb {
					for _, in := range x.Instrs {
						if ra.discharges(o, in, depth) {
							return
						}
					}
				}
			}
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == o.start {
				if !o.collected(f) {
					out = append(out, leak{in, "obtained again while the previous one is still held"})
					return
				}
				later = true
				continue
			}
			if ra.discharges(o, in, depth) {
				return
			}
			switch x := in.(type) {
			case *ssa.Return:
				if viaReturn {
					for _, v := range x.Results {
						if v = spilled(v); !isNilConst(v) && o.holds(v) {
							return
						}
					}
				}
				out = append(out, leak{in, "not released on a path to this return"})
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				for k, s := range b.Succs {
					if !later && o.absentOn(x.Cond, k == 0) || o.renamedOn(x.Cond, k == 0) {
						continue
					}
					if !seen[node{s, later}] {
						seen[node{s, later}] = true
						rec(s, 0, later)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[node{s, later}] {
				seen[node{s, later}] = true
				rec(s, 0, later)
			}
		}
	}
	rec(b0, i0, false)
	return out
}

// testedErr: the error of the call is compared with nil.
func testedErr(x ssa.CallInstruction) bool {
	v := x.Value()
	if v == nil {
		return false
	}
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (spilled(bo.X) == ssa.Value(v) || spilled(bo.Y) == ssa.Value(v)) {
				return true
			}
		}
	}
	return false
}

// renamedOn: with that outcome of the condition the temporary name was given its final name.
func (o *owner) renamedOn(cond ssa.Value, outcome bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if o.kind == resOpen || !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if c, ok := spilled(v).(*ssa.Call); ok && staticName(c) == "os.Rename" && o.lvl(c.Call.Args[0]) == 2 {
			return (bo.Op == token.EQL) == outcome
		}
	}
	return false
}

// collected: the resource is appended to a slice.
func (o *owner) collected(f *ssa.Function) bool {
	for _, c := range callsIn(f) {
		cm := c.Common()
		if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(cm.Args) == 2 && o.holds(cm.Args[1]) {
			return true
		}
	}
	return false
}

// absentOn: when the condition has that outcome the resource was not obtained.
func (o *owner) absentOn(cond ssa.Value, outcome bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return o.absentOn(x.X, !outcome)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		a, b := x.X, x.Y
		if c, ok := a.(*ssa.Const); ok && c.Value == nil {
			a, b = b, a
		}
		c, ok := b.(*ssa.Const)
		isNil := ok && c.IsNil()
		eq := (x.Op == token.EQL) == outcome
		if o.isErr(a) {
			if isNil {
				return eq && !o.succ || !eq && !o.fail
			}
			return eq && !o.fail // equal to a particular error
		}
		if isNil && o.level[a] == 2 {
			return eq
		}
		for _, z := range []ssa.Value{x.X, x.Y} {
			if ld, ok := stripSlice(z).(*ssa.UnOp); ok {
				if gl, ok := ld.X.(*ssa.Global); ok && gl.String() == "net/http.NoBody" {
					return eq
				}
			}
		}
	case *ssa.Call:
		switch staticName(x) {
		case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission":
			return outcome && !o.fail && o.isErr(x.Call.Args[0])
		}
	}
	return false
}

func (o *owner) isErr(v ssa.Value) bool {
	if o.errv == nil {
		return false
	}
	v = spilled(v)
	if v == o.errv {
		return true
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	// variables assigned on several branches: only the branches that come after the call count
	after := blocksFrom(o.start.Block())
	n := 0
	for i, e := range phi.Edges {
		if !after[phi.Block().Preds[i]] {
			continue
		}
		if e != o.errv {
			return false
		}
		n++
	}
	return n > 0
}

// blocksFrom: the block and those reachable from it.
func blocksFrom(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, s := range x.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return seen
}

func newResAnalysis(p *Prog) *resAnalysis {
	return &resAnalysis{p: p, owned: map[*ssa.Function]map[int]*ownInfo{}, busy: map[*ssa.Function]bool{}, takes: map[string]bool{}, tbusy: map[string]bool{}, wrapM: map[string]map[int]bool{}, closeM: map[*ssa.Function]bool{}}
}

func checkC31(c *Ctx) {
	c.Rule("ownership of every file, response, reader, opened object or temporary directory obtained by a function of the module: on every control-flow path from where it was obtained to a return, it is closed (removed or renamed for temporary names), deferred to be, part of what is returned, or stored in an object that outlives the call; paths on which the call that obtains it failed are excluded")
	c.Rule("a temporary file outside a temporary directory is removed or renamed on every such path")
	c.Rule("a field of a closable object is overwritten by a newly obtained resource only after the previous one was closed or found absent")
	ra := newResAnalysis(c.P)
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		for _, call := range callsIn(f) {
			for _, o := range ra.instances(f, call) {
				c.Funcs[f] = true
				rule := "released"
				if o.kind != resOpen {
					rule = "temporary"
				}
				what := shortFn(staticName(call)) + " in " + enclosing(call)
				ls := ra.leaks(o, true)
				if len(ls) == 0 {
					c.OK(rule, what, c.P.instrPos(call), "")
				}
				for _, l := range ls {
					c.Bad(rule, what, c.P.instrPos(call), l.why+" ("+c.P.instrPos(l.at)+")")
				}
				for st := range o.escIn {
					ra.replaced(c, o, st)
					ra.handedUp(c, o, st, what)
				}
			}
		}
	}
	c.AtLeast("released", 15, "acquisitions")
	c.AtLeast("temporary", 1, "temporary files or directories")
}

// handedUp: a function literal leaves the resource in a variable of the function that creates it.
func (ra *resAnalysis) handedUp(c *Ctx, o *owner, in ssa.Instruction, what string) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	root, path := cellOf(st.Addr)
	if root == nil {
		root, path = rootOf(st.Addr)
	}
	fv, ok := root.(*ssa.FreeVar)
	if !ok || o.fn.Parent() == nil {
		return
	}
	idx := -1
	for i, v := range o.fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	par := o.fn.Parent()
	for _, b := range par.Blocks {
		for _, x := range b.Instrs {
			mc, ok := x.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(o.fn) {
				continue
			}
			bv := mc.Bindings[idx]
			if _, ok := bv.(*ssa.FreeVar); ok {
				continue
			}
			up := ra.newOwner(par, o.kind, nil)
			up.setCell(bv, path, 2)
			ra.spread(up)
			up.start = mc
			ls := ra.leaks(up, true)
			if len(ls) == 0 {
				c.OK("released", what+", kept by "+shortFn(par.String()), c.P.instrPos(mc), "")
			}
			for _, l := range ls {
				if l.at == mc {
					continue
				}
				c.Bad("released", what+", kept by "+shortFn(par.String()), c.P.instrPos(mc), l.why+" ("+c.P.instrPos(l.at)+")")
			}
		}
	}
}

// rootOf: the variable an element belongs to, through slices held in variables.
func rootOf(a ssa.Value) (ssa.Value, string) {
	path := ""
	for i := 0; i < 20; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldVar(x.X.Type(), x.Field).Name() + path
			a = x.X
		case *ssa.IndexAddr:
			path = "[]" + path
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.Alloc, *ssa.FreeVar:
			return a, path
		default:
			return nil, ""
		}
	}
	return nil, ""
}

// replaced: the previous value of the field was closed before the new one is stored.
func (ra *resAnalysis) replaced(c *Ctx, o *owner, in ssa.Instruction) {
	st := in.(*ssa.Store)
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !hasMethod(fa.X.Type(), "Close") || !ra.closerType(fa.X.Type()) {
		return
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	f := in.Parent()
	if len(f.Params) == 0 || fa.X != ssa.Value(f.Params[0]) && spillOf(fa.X) != ssa.Value(f.Params[0]) {
		return
	}
	isField := func(v ssa.Value) bool {
		v = stripSlice(v)
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		x, ok := ld.X.(*ssa.FieldAddr)
		return ok && fieldVar(x.X.Type(), x.Field) == fv
	}
	closes := func(g *ssa.Function) bool {
		for _, cc := range callsIn(g) {
			if isCloseName(staticName(cc)) {
				v := cc.Common().Value
				if !cc.Common().IsInvoke() {
					v = cc.Common().Args[0]
				}
				if isField(v) {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	reached := false
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, x := range b.Instrs {
			if x == in {
				reached = true
				return
			}
			if cc, ok := x.(*ssa.Call); ok {
				if isCloseName(staticName(cc)) {
					v := cc.Call.Value
					if !cc.Call.IsInvoke() {
						v = cc.Call.Args[0]
					}
					if isField(v) {
						return
					}
				}
				if g := cc.Call.StaticCallee(); g != nil && c.P.inModule(g) && closes(g) {
					return
				}
			}
			if iff, ok := x.(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isField(bo.X) || isField(bo.Y)) {
					nilEdge := 0
					if bo.Op == token.NEQ {
						nilEdge = 1
					}
					for k, s := range b.Succs {
						if k != nilEdge && !seen[s] {
							rec(s)
						}
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				rec(s)
			}
		}
	}
	rec(f.Blocks[0])
	c.Check(!reached, "replaced", enclosing(in)+": "+fv.Name(), c.P.instrPos(in), "the previous value of the field is closed or absent on every path to the assignment")
}

// inTempDir: the directory of the temporary file is itself a temporary directory its creator removes.
func inTempDir(p *Prog, in ssa.CallInstruction) bool {
	return tempDirValue(p, in.Common().Args[0], map[ssa.Value]bool{})
}

func tempDirValue(p *Prog, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			return staticName(call) == "os.MkdirTemp"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !tempDirValue(p, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		n := 0
		for _, g := range p.callersOf(f) {
			for _, cc := range callsIn(g) {
				if cc.Common().StaticCallee() == f {
					n++
					if !tempDirValue(p, cc.Common().Args[idx], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	case *ssa.UnOp:
		if w := spillOf(x); w != v {
			return tempDirValue(p, w, seen)
		}
		if w := spilled(x); w != v {
			return tempDirValue(p, w, seen)
		}
	}
	return false
}

// inside: g is a closure created (transitively) in f.
func inside(g, f *ssa.Function) bool {
	for ; g != nil; g = g.Parent() {
		if g == f {
			return true
		}
	}
	return false
}

var debugRes = os.Getenv("CHK_DEBUG") != ""
