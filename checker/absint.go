package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small abstract interpreter for functions whose outcome depends only on how their inputs
// relate to one another. Inputs are names; a branch on an undetermined relation between two
// names, or between a name and a constant, is followed both ways, and the relations chosen on
// the way are kept, so that at every return the result can be compared with what the relations
// known there require. Small finite domains are enumerated by fixing names to constants.

type av struct {
	k    byte // k constant, s name, a aggregate, p pointer, l slice, f function, n nil, m map, t term, w stream
	c    constant.Value
	key  string
	el   []*av
	cell *acell
	path []int
	lo   int
	n    int
	fn   *ssa.Function
	mp   *amap
	w    *strm
	ctr  *ssa.BasicBlock // a counter of the loop with this header
}

type acell struct {
	v    *av
	name string
}

type amap struct {
	keys []string
	kv   []*av
	vals map[string]*av
	elem types.Type
}

type absStop struct{ why string }

type absint struct {
	p       *Prog
	conc    map[string]constant.Value
	globals map[*ssa.Global]*acell
	trace   []int
	sizes   []int
	pos     int
	ival    map[string][2]int64
	rel     map[string]uint8 // relation of a pair of names: 1 <, 2 =, 4 >
	uneven  map[*ssa.BasicBlock]bool
	symIter map[*ssa.BasicBlock]int
	steps   int
	limit   int // of paths
	depth   int
	calls   map[string][]*av
	rules   func(call *ssa.Call, name string, args []*av) (*av, bool)
	term    func(key string) *av // a name with a meaning
	types   map[string]types.Type
	lens    func(v *av) *av // the length of a term
	equal   func(x, y *av) *av
	least   func(key string) int64 // the least length of a name
	fn      map[*ssa.Function]bool
	open    bool                   // structs that are not known become structs of names
	defers  bool                   // deferred calls are run
	ptrs    bool                   // pointers have identity, maps are followed entry by entry
	cutEnd  func(v *av, n int) *av // a term without its last n bytes

	deferred func(x *ssa.Defer, args []*av) // those of other modules
}

func newAbsint(p *Prog) *absint {
	return &absint{p: p, limit: 400000, conc: map[string]constant.Value{}, globals: map[*ssa.Global]*acell{}, fn: map[*ssa.Function]bool{}}
}

func (a *absint) reset() {
	a.pos, a.steps, a.depth = 0, 0, 0
	a.ival = map[string][2]int64{}
	a.rel = map[string]uint8{}
	a.uneven = map[*ssa.BasicBlock]bool{}
	a.symIter = map[*ssa.BasicBlock]int{}
	a.calls = map[string][]*av{}
}

// explore runs the function along every path; leaf is called at every return, cut for every path given up.
func (a *absint) explore(fn *ssa.Function, args func() []*av, leaf func(res []*av), cut func(why string)) (paths int, complete bool) {
	var res []*av
	return a.paths(func() { res = a.call(fn, args(), nil) }, func() { leaf(res) }, cut)
}

// paths runs the function once for every combination of choices.
func (a *absint) paths(run func(), leaf func(), cut func(why string)) (paths int, complete bool) {
	a.trace, a.sizes = nil, nil
	for n := 0; ; n++ {
		if n > a.limit {
			return n, false
		}
		a.reset()
		why := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(absStop); ok {
						why = s.why
						return
					}
					panic(r)
				}
			}()
			run()
			why = "-"
		}()
		if why == "-" {
			leaf()
		} else {
			cut(why)
		}
		// next combination of choices
		a.trace, a.sizes = a.trace[:a.pos], a.sizes[:a.pos]
		i := a.pos - 1
		for i >= 0 && a.trace[i]+1 >= a.sizes[i] {
			i--
		}
		if i < 0 {
			return n + 1, true
		}
		a.trace[i]++
		a.trace, a.sizes = a.trace[:i+1], a.sizes[:i+1]
	}
}

func (a *absint) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if a.pos == len(a.trace) {
		a.trace = append(a.trace, 0)
		a.sizes = append(a.sizes, n)
	}
	v := a.trace[a.pos]
	a.pos++
	return v
}

func stop(why string) { panic(absStop{why}) }

func konst(c constant.Value) *av { return &av{k: 'k', c: c} }
func konstInt(i int64) *av       { return konst(constant.MakeInt64(i)) }
func konstBool(b bool) *av       { return konst(constant.MakeBool(b)) }

func (a *absint) name(key string) *av {
	if c, ok := a.conc[key]; ok {
		return konst(c)
	}
	return &av{k: 's', key: key}
}

func (v *av) text() string {
	switch v.k {
	case 'k':
		return v.c.ExactString()
	case 's':
		return v.key
	case 'n':
		return "nil"
	case 'f':
		return v.fn.String()
	case 'a':
		var s []string
		for _, e := range v.el {
			s = append(s, e.text())
		}
		return "{" + strings.Join(s, ",") + "}"
	case 'p':
		return "&" + v.cell.name + fmt.Sprint(v.path)
	case 'l':
		var s []string
		arr := v.cell.v
		for i := 0; i < v.n; i++ {
			s = append(s, arr.el[v.lo+i].text())
		}
		return "[" + strings.Join(s, ",") + "]"
	case 'm':
		return "map"
	case 't':
		var s []string
		for _, e := range v.el {
			s = append(s, e.text())
		}
		return v.key + "(" + strings.Join(s, ",") + ")"
	case 'w':
		return "stream"
	}
	return "?"
}

func term(op string, args ...*av) *av { return &av{k: 't', key: op, el: args} }

func isStr(v *av) bool { return v.k == 'k' && v.c.Kind() == constant.String }

func konstStr(s string) *av { return konst(constant.MakeString(s)) }

// parts: the pieces of a text, constants merged.
func parts(v *av) []*av {
	if v.k == 't' && v.key == "cat" {
		return v.el
	}
	if isStr(v) && v.str() == "" {
		return nil
	}
	return []*av{v}
}

func cat(vs ...*av) *av {
	var out []*av
	for _, v := range vs {
		for _, p := range parts(v) {
			if n := len(out); n > 0 && isStr(p) && isStr(out[n-1]) {
				out[n-1] = konstStr(out[n-1].str() + p.str())
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return konstStr("")
	case 1:
		return out[0]
	}
	return term("cat", out...)
}

func prefixOf(v *av) string {
	if ps := parts(v); len(ps) > 0 && isStr(ps[0]) {
		return ps[0].str()
	}
	return ""
}

func (v *av) isInt() bool { return v.k == 'k' && v.c.Kind() == constant.Int }
func (v *av) i64() int64  { n, _ := constant.Int64Val(v.c); return n }
func (v *av) str() string { return constant.StringVal(v.c) }
func (v *av) boolv() bool { return constant.BoolVal(v.c) }

func (a *absint) zero(t types.Type) *av {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return konst(constant.MakeString(""))
		case u.Info()&types.IsBoolean != 0:
			return konstBool(false)
		case u.Info()&types.IsNumeric != 0:
			return konstInt(0)
		}
	case *types.Struct:
		v := &av{k: 'a'}
		for i := 0; i < u.NumFields(); i++ {
			v.el = append(v.el, a.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &av{k: 'a'}
		if u.Len() > 4096 {
			return a.name("zero array")
		}
		z := a.zero(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			v.el = append(v.el, z)
		}
		return v
	}
	return &av{k: 'n'}
}

func getPath(v *av, path []int) *av {
	for _, i := range path {
		if v.k != 'a' || i >= len(v.el) || i < 0 {
			return nil
		}
		v = v.el[i]
	}
	return v
}

func setPath(v *av, path []int, w *av) *av {
	if len(path) == 0 {
		return w
	}
	if v.k != 'a' || path[0] >= len(v.el) || path[0] < 0 {
		stop("a store the analysis does not follow")
	}
	n := &av{k: 'a', el: append([]*av{}, v.el...)}
	n.el[path[0]] = setPath(v.el[path[0]], path[1:], w)
	return n
}

type aframe struct {
	env   map[ssa.Value]*av
	fn    *ssa.Function
	binds []*av
	later []func()
}

// postpone: a deferred call of a function of the module is run when the function returns.
func (a *absint) postpone(f *aframe, x *ssa.Defer) {
	var args []*av
	for _, v := range x.Call.Args {
		args = append(args, a.val(f, v))
	}
	g := x.Call.StaticCallee()
	var binds []*av
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		binds = a.val(f, mc).el
	}
	if g == nil || !a.p.inModule(g) || len(g.Blocks) == 0 {
		if a.deferred != nil {
			f.later = append(f.later, func() { a.deferred(x, args) })
		}
		return
	}
	f.later = append(f.later, func() { a.call(g, args, binds) })
}

func (a *absint) val(f *aframe, v ssa.Value) *av {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return a.zero(x.Type())
		}
		return konst(x.Value)
	case *ssa.Function:
		return &av{k: 'f', fn: x}
	case *ssa.Global:
		c := a.globals[x]
		if c == nil {
			c = &acell{v: a.name("global " + x.Name()), name: x.Name()}
			a.globals[x] = c
		}
		return &av{k: 'p', cell: c}
	case *ssa.FreeVar:
		for i, q := range f.fn.FreeVars {
			if q == x && i < len(f.binds) {
				return f.binds[i]
			}
		}
	}
	if r := f.env[v]; r != nil {
		return r
	}
	return a.name("unknown " + v.Name() + " of " + f.fn.Name())
}

func (a *absint) call(fn *ssa.Function, args []*av, binds []*av) []*av {
	a.depth++
	defer func() { a.depth-- }()
	if a.depth > 30 {
		stop("calls too deep")
	}
	a.fn[fn] = true
	f := &aframe{env: map[ssa.Value]*av{}, fn: fn, binds: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	visits := map[*ssa.BasicBlock]int{}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		visits[b]++
		header := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				header = true
			}
		}
		if header {
			if visits[b] == 1 {
				a.symIter[b] = 0
			}
			if visits[b] > 70 || a.symIter[b] > 4 {
				if a.uneven[b] || a.symIter[b] <= 4 {
					stop("a loop that does not treat all rounds alike")
				}
				stop("bound")
			}
		}
		// merged values, all at once
		var phis []*ssa.Phi
		var vals []*av
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					v := a.val(f, ph.Edges[i])
					if header && v.isInt() {
						w := *v
						w.ctr = b
						v = &w
					}
					phis = append(phis, ph)
					vals = append(vals, v)
					break
				}
			}
		}
		for i, ph := range phis {
			f.env[ph] = vals[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			a.steps++
			if a.steps > 200000 {
				stop("too many steps")
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.RunDefers:
				for i := len(f.later) - 1; i >= 0; i-- {
					f.later[i]()
				}
				f.later = nil
			case *ssa.Return:
				var out []*av
				for _, r := range x.Results {
					out = append(out, a.val(f, r))
				}
				return out
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				if a.truth(a.val(f, x.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Panic:
				stop("panic")
			case *ssa.Store:
				a.store(a.val(f, x.Addr), a.val(f, x.Val))
			case *ssa.MapUpdate:
				m := a.val(f, x.Map)
				k := a.val(f, x.Key)
				if a.ptrs && m.k == 'n' {
					stop("panic")
				}
				if a.ptrs && !(m.k == 'm' && a.keyed(k)) {
					stop("a map the analysis does not follow")
				}
				if m.k == 'm' && a.keyed(k) {
					t := k.text()
					if m.mp.vals[t] == nil {
						m.mp.keys = append(m.mp.keys, t)
						m.mp.kv = append(m.mp.kv, k)
					}
					m.mp.vals[t] = a.val(f, x.Value)
				}
			case *ssa.Defer:
				if a.defers {
					a.postpone(f, x)
				}
			case *ssa.Go, *ssa.Send:
			case ssa.Value:
				f.env[x] = a.instr(f, x)
			}
		}
		if next == nil {
			stop("panic")
		}
		prev, b = b, next
	}
}

// keyed: whether a value can be told from every other as a key of a map.
func (a *absint) keyed(k *av) bool {
	return k.k == 'k' || a.ptrs && k.k == 'p'
}

// nextEntry: the entries of a map, in any order.
func (a *absint) nextEntry(it *av) *av {
	m, st := it.el[0], it.el[1].cell
	if st.v.k == 'k' { // at the start
		st.v = &av{k: 'a'}
	}
	if m.k == 'n' {
		return &av{k: 'a', el: []*av{konstBool(false), {k: 'n'}, {k: 'n'}}}
	}
	if m.k != 'm' {
		stop("a map the analysis does not follow")
	}
	var left []int
	for i, k := range m.mp.keys {
		seen := false
		for _, s := range st.v.el {
			if s.key == k {
				seen = true
			}
		}
		if !seen && m.mp.vals[k] != nil {
			left = append(left, i)
		}
	}
	if len(left) == 0 {
		return &av{k: 'a', el: []*av{konstBool(false), {k: 'n'}, {k: 'n'}}}
	}
	i := left[a.choose(len(left))]
	st.v = &av{k: 'a', el: append(append([]*av{}, st.v.el...), &av{k: 's', key: m.mp.keys[i]})}
	return &av{k: 'a', el: []*av{konstBool(true), m.mp.kv[i], m.mp.vals[m.mp.keys[i]]}}
}

func (m *amap) drop(key string) {
	for i, k := range m.keys {
		if k == key {
			m.keys = append(append([]string{}, m.keys[:i]...), m.keys[i+1:]...)
			m.kv = append(append([]*av{}, m.kv[:i]...), m.kv[i+1:]...)
			break
		}
	}
	delete(m.vals, key)
}

func (a *absint) store(p, v *av) {
	if p.k != 'p' {
		return
	}
	p.cell.v = setPath(p.cell.v, p.path, v)
}

func (a *absint) load(p *av) *av {
	switch p.k {
	case 'p':
		if p.cell.v.k == 's' && len(p.path) > 0 {
			k := p.cell.v.key
			for _, i := range p.path {
				k += "." + itoa(i)
			}
			return a.name(k)
		}
		if r := getPath(p.cell.v, p.path); r != nil {
			return r
		}
	case 's':
		return a.name("*" + p.key)
	case 'n':
		stop("panic")
	}
	return a.name("load " + p.text())
}

func (a *absint) elem(seq *av, i *av) *av {
	switch {
	case seq.k == 'l' && i.isInt():
		n := int(i.i64())
		if n < 0 || n >= seq.n {
			stop("panic")
		}
		return getPath(seq.cell.v, []int{seq.lo + n})
	case seq.k == 'a' && i.isInt():
		n := int(i.i64())
		if n < 0 || n >= len(seq.el) {
			stop("panic")
		}
		return seq.el[n]
	case seq.k == 'k' && seq.c.Kind() == constant.String && i.isInt():
		s := seq.str()
		n := int(i.i64())
		if n < 0 || n >= len(s) {
			stop("panic")
		}
		return konstInt(int64(s[n]))
	}
	if p := prefixOf(seq); seq.k == 't' && i.isInt() && i.i64() >= 0 && i.i64() < int64(len(p)) {
		return konstInt(int64(p[i.i64()]))
	}
	if seq.k == 's' && i.isInt() {
		l := a.length(seq)
		// an element that does not exist ends the run
		if l.k == 's' {
			lo, hi := a.bounds(l.key)
			if lo <= i.i64() {
				lo = i.i64() + 1
			}
			if lo > hi {
				stop("panic")
			}
			a.ival[l.key] = [2]int64{lo, hi}
		}
		return a.named(seq.key + "[" + i.text() + "]")
	}
	return a.named(seq.text() + "[" + i.text() + "]")
}

// named: a name, which the client may know more about.
func (a *absint) named(key string) *av {
	if c, ok := a.conc[key]; ok {
		return konst(c)
	}
	if a.term != nil {
		if v := a.term(key); v != nil {
			return v
		}
	}
	return &av{k: 's', key: key}
}

func (a *absint) length(v *av) *av {
	switch v.k {
	case 'l':
		return konstInt(int64(v.n))
	case 'a':
		return konstInt(int64(len(v.el)))
	case 'n':
		return konstInt(0)
	case 'm':
		return konstInt(int64(len(v.mp.keys)))
	case 'k':
		if v.c.Kind() == constant.String {
			return konstInt(int64(len(v.str())))
		}
	}
	if v.k == 't' && a.lens != nil {
		if r := a.lens(v); r != nil {
			return r
		}
	}
	k := "len(" + v.text() + ")"
	if _, ok := a.ival[k]; !ok {
		a.ival[k] = [2]int64{0, math.MaxInt64}
		if a.least != nil && v.k == 's' {
			a.ival[k] = [2]int64{a.least(v.key), math.MaxInt64}
		}
	}
	return a.named(k)
}

func (a *absint) bounds(key string) (int64, int64) {
	if r, ok := a.ival[key]; ok {
		return r[0], r[1]
	}
	return math.MinInt64, math.MaxInt64
}

// truth decides a condition, choosing when it is not determined.
func (a *absint) truth(v *av) bool {
	switch {
	case v.k == 'k':
		return v.boolv()
	case v.k == 's':
		lo, hi := a.bounds("?" + v.key)
		if lo == math.MinInt64 {
			lo = int64(a.choose(2))
			hi = lo
			a.ival["?"+v.key] = [2]int64{lo, hi}
		}
		return hi == 1
	}
	stop("a condition the analysis does not follow")
	return false
}

// relate determines how two values compare, choosing among what is possible for the question asked.
func (a *absint) compare(op token.Token, x, y *av) *av {
	if x.k == 'k' && y.k == 'k' {
		for _, c := range []*av{x, y} {
			if c.ctr != nil {
				a.uneven[c.ctr] = true
			}
		}
		return konstBool(constant.Compare(x.c, op, y.c))
	}
	if x.k == 'n' || y.k == 'n' {
		o := x
		if x.k == 'n' {
			o = y
		}
		var isNil bool
		switch {
		case o.k == 'n':
			isNil = true
		case o.k == 's':
			if strings.HasPrefix(o.key, "error ") || o.key == "global EOF" {
				break
			}
			isNil = a.truth(&av{k: 's', key: o.key + " is nil"})
		}
		return konstBool(isNil == (op == token.EQL))
	}
	if a.ptrs && x.k == 'p' && y.k == 'p' {
		return konstBool((x.cell == y.cell && fmt.Sprint(x.path) == fmt.Sprint(y.path)) == (op == token.EQL))
	}
	if x.k == 'a' && y.k == 'a' && len(x.el) == len(y.el) {
		eq := true
		for i := range x.el {
			if !a.truth(a.compare(token.EQL, x.el[i], y.el[i])) {
				eq = false
				break
			}
		}
		return konstBool(eq == (op == token.EQL))
	}
	if a.equal != nil && (op == token.EQL || op == token.NEQ) && (x.k == 't' || y.k == 't' || x.k == 'w' || y.k == 'w') {
		if r := a.equal(x, y); r != nil {
			return konstBool(a.truth(r) == (op == token.EQL))
		}
	}
	if a.lens != nil && (op == token.EQL || op == token.NEQ) {
		if x.k == 's' && isStr(y) && y.str() == "" {
			return a.compare(op, a.length(x), konstInt(0))
		}
		if y.k == 's' && isStr(x) && x.str() == "" {
			return a.compare(op, a.length(y), konstInt(0))
		}
	}
	if x.k == 't' {
		x = &av{k: 's', key: x.text()}
	}
	if y.k == 't' {
		y = &av{k: 's', key: y.text()}
	}
	if x.k == 'k' && y.k == 's' {
		return a.compare(mirror(op), y, x)
	}
	if x.k == 's' && y.k == 'k' && y.c.Kind() == constant.Int {
		if y.ctr != nil {
			a.symIter[y.ctr]++
		}
		c := y.i64()
		lo, hi := a.bounds(x.key)
		// the parts of the range below, at and above c
		var poss [3]bool
		poss[0], poss[1], poss[2] = lo < c, lo <= c && c <= hi, hi > c
		neq := a.rel[x.key+"|"+y.text()]
		if neq == 5 {
			poss[1] = false
		}
		yes, no := false, false
		for i, p := range poss {
			if p {
				if holds(op, i) {
					yes = true
				} else {
					no = true
				}
			}
		}
		ans := yes
		if yes && no {
			ans = a.choose(2) == 0
		}
		var keep [3]bool
		for i, p := range poss {
			keep[i] = p && holds(op, i) == ans
		}
		switch {
		case keep[0] && keep[1] && !keep[2]:
			hi = min(hi, c)
		case keep[0] && !keep[1] && !keep[2]:
			hi = min(hi, c-1)
		case !keep[0] && keep[1] && !keep[2]:
			lo, hi = c, c
		case !keep[0] && keep[1] && keep[2]:
			lo = max(lo, c)
		case !keep[0] && !keep[1] && keep[2]:
			lo = max(lo, c+1)
		case keep[0] && !keep[1] && keep[2]:
			a.rel[x.key+"|"+y.text()] = 5
		}
		a.ival[x.key] = [2]int64{lo, hi}
		return konstBool(ans)
	}
	if a.open && x.k == 's' && y.k == 's' && x.key != y.key && (strings.HasPrefix(x.key, "error new ") || strings.HasPrefix(y.key, "error new ")) {
		return konstBool(op == token.NEQ)
	}
	if x.k == 's' && (y.k == 's' || y.k == 'k') {
		if y.k == 's' && x.key == y.key {
			return konstBool(op == token.EQL || op == token.LEQ || op == token.GEQ)
		}
		yk := y.text()
		flip := yk < x.key
		key := x.key + "|" + yk
		if flip {
			key = yk + "|" + x.key
		}
		m, ok := a.rel[key]
		if !ok {
			m = 7
		}
		if y.k == 's' {
			m &= a.relByRange(x.key, yk, flip)
		}
		var mask uint8
		for i := 0; i < 3; i++ {
			j := i
			if flip {
				j = 2 - i
			}
			if holds(op, i) {
				mask |= 1 << j
			}
		}
		yes, no := m&mask, m&^mask
		ans := yes != 0
		if yes != 0 && no != 0 {
			ans = a.choose(2) == 0
		}
		if ans {
			a.rel[key] = yes
		} else {
			a.rel[key] = no
		}
		return konstBool(ans)
	}
	return konstBool(a.truth(&av{k: 's', key: x.text() + op.String() + y.text()}))
}

func (a *absint) relByRange(x, y string, flip bool) uint8 {
	xl, xh := a.bounds(x)
	yl, yh := a.bounds(y)
	m := uint8(0)
	if xl < yh {
		m |= 1
	}
	if xl <= yh && yl <= xh {
		m |= 2
	}
	if xh > yl {
		m |= 4
	}
	if flip {
		m = m&2 | m>>2&1 | m<<2&4
	}
	return m
}

// relation: what is known of how two names compare: 1 <, 2 =, 4 >.
func (a *absint) relation(x, y *av) uint8 {
	if x.k == 'k' && y.k == 'k' {
		switch {
		case constant.Compare(x.c, token.LSS, y.c):
			return 1
		case constant.Compare(x.c, token.GTR, y.c):
			return 4
		}
		return 2
	}
	if x.k != 's' || y.k != 's' {
		return 7
	}
	flip := y.key < x.key
	key := x.key + "|" + y.key
	if flip {
		key = y.key + "|" + x.key
	}
	m, ok := a.rel[key]
	if !ok {
		m = 7
	}
	m &= a.relByRange(x.key, y.key, flip)
	if flip {
		m = m&2 | m>>2&1 | m<<2&4
	}
	return m
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// holds: whether the comparison is true when the left side is less (0), equal (1) or greater (2).
func holds(op token.Token, i int) bool {
	switch op {
	case token.EQL:
		return i == 1
	case token.NEQ:
		return i != 1
	case token.LSS:
		return i == 0
	case token.LEQ:
		return i <= 1
	case token.GTR:
		return i == 2
	case token.GEQ:
		return i >= 1
	}
	return false
}

func (a *absint) instr(f *aframe, v ssa.Value) *av {
	switch x := v.(type) {
	case *ssa.Alloc:
		return &av{k: 'p', cell: &acell{v: a.zero(deref(x.Type())), name: x.Name()}}
	case *ssa.UnOp:
		o := a.val(f, x.X)
		switch x.Op {
		case token.MUL:
			return a.load(o)
		case token.NOT:
			return konstBool(!a.truth(o))
		case token.SUB:
			if o.isInt() {
				return konst(constant.UnaryOp(token.SUB, o.c, 0))
			}
		}
		return a.named(x.Op.String() + o.text())
	case *ssa.FieldAddr:
		o := a.val(f, x.X)
		if o.k == 'p' {
			if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok && a.open {
				if v := getPath(o.cell.v, o.path); v != nil && v.k == 's' {
					n := &av{k: 'a'}
					for i := 0; i < st.NumFields(); i++ {
						n.el = append(n.el, a.named(v.key+"."+itoa(i)))
					}
					o.cell.v = setPath(o.cell.v, o.path, n)
				}
			}
			return &av{k: 'p', cell: o.cell, path: append(append([]int{}, o.path...), x.Field)}
		}
		return &av{k: 'p', cell: &acell{v: a.named("*" + o.text() + "." + itoa(x.Field)), name: "field"}}
	case *ssa.Field:
		o := a.val(f, x.X)
		if o.k == 'a' && x.Field < len(o.el) {
			return o.el[x.Field]
		}
		return a.named(o.text() + "." + itoa(x.Field))
	case *ssa.IndexAddr:
		o, i := a.val(f, x.X), a.val(f, x.Index)
		if o.k == 'l' && i.isInt() {
			n := int(i.i64())
			if n < 0 || n >= o.n {
				stop("panic")
			}
			return &av{k: 'p', cell: o.cell, path: []int{o.lo + n}}
		}
		if o.k == 'p' && i.isInt() {
			n := int(i.i64())
			if t := getPath(o.cell.v, o.path); t != nil && t.k == 'a' && (n < 0 || n >= len(t.el)) {
				stop("panic")
			}
			return &av{k: 'p', cell: o.cell, path: append(append([]int{}, o.path...), n)}
		}
		return &av{k: 'p', cell: &acell{v: a.elem(o, i), name: "element"}}
	case *ssa.Index:
		return a.elem(a.val(f, x.X), a.val(f, x.Index))
	case *ssa.Lookup:
		m, k := a.val(f, x.X), a.val(f, x.Index)
		if mt, isMap := x.X.Type().Underlying().(*types.Map); isMap && a.ptrs && m.k == 'n' {
			if x.CommaOk {
				return &av{k: 'a', el: []*av{a.zero(mt.Elem()), konstBool(false)}}
			}
			return a.zero(mt.Elem())
		}
		if m.k == 'm' && a.keyed(k) {
			r, ok := m.mp.vals[k.text()]
			if !ok {
				r = a.zero(m.mp.elem)
			}
			if x.CommaOk {
				return &av{k: 'a', el: []*av{r, konstBool(ok)}}
			}
			return r
		}
		if m.k == 'm' {
			// one of the entries, or none
			i := a.choose(len(m.mp.keys) + 1)
			var r *av
			if i < len(m.mp.keys) {
				r = m.mp.vals[m.mp.keys[i]]
			} else {
				r = a.zero(m.mp.elem)
			}
			if x.CommaOk {
				return &av{k: 'a', el: []*av{r, konstBool(i < len(m.mp.keys))}}
			}
			return r
		}
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			return a.elem(m, k)
		}
		if x.CommaOk {
			return &av{k: 'a', el: []*av{a.named(m.text() + "[" + k.text() + "]"), a.named(m.text() + " has " + k.text())}}
		}
		return a.named(m.text() + "[" + k.text() + "]")
	case *ssa.MakeMap:
		return &av{k: 'm', mp: &amap{vals: map[string]*av{}, elem: x.Type().Underlying().(*types.Map).Elem()}}
	case *ssa.MakeSlice:
		n := a.val(f, x.Len)
		if n.isInt() && n.i64() >= 0 && n.i64() < 64 {
			arr := &av{k: 'a'}
			for i := int64(0); i < n.i64(); i++ {
				arr.el = append(arr.el, a.zero(x.Type().Underlying().(*types.Slice).Elem()))
			}
			return &av{k: 'l', cell: &acell{v: arr, name: x.Name()}, n: int(n.i64())}
		}
		return a.named("make " + x.Name())
	case *ssa.Slice:
		return a.slice(f, x)
	case *ssa.BinOp:
		l, r := a.val(f, x.X), a.val(f, x.Y)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && b.Info()&types.IsString != 0 && !(l.k == 'k' && r.k == 'k') {
			return cat(l, r)
		}
		v := a.binop(x.Op, l, r)
		if v.k == 's' && a.types != nil {
			a.types[v.key] = x.Type()
		}
		return v
	case *ssa.ChangeType:
		return a.val(f, x.X)
	case *ssa.ChangeInterface:
		return a.val(f, x.X)
	case *ssa.MakeInterface:
		return a.val(f, x.X)
	case *ssa.Convert:
		o := a.val(f, x.X)
		if _, ok := typeRange(x.Type()); ok {
			if r, ok := typeRange(x.X.Type()); ok {
				d, _ := typeRange(x.Type())
				if o.k == 'k' || r.within(d) {
					return o
				}
				if t := a.types[o.text()]; t != nil {
					if r, ok := typeRange(t); ok && r.within(d) {
						return o
					}
				}
			}
		}
		if textual(x.Type()) && textual(x.X.Type()) {
			return o
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && o.isInt() {
			return konstStr(string(rune(o.i64())))
		}
		return a.named("convert " + o.text())
	case *ssa.MakeClosure:
		r := &av{k: 'f', fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.el = append(r.el, a.val(f, b))
		}
		return r
	case *ssa.Extract:
		t := a.val(f, x.Tuple)
		if t.k == 'a' && x.Index < len(t.el) {
			return t.el[x.Index]
		}
		return a.named(t.text() + "#" + itoa(x.Index))
	case *ssa.TypeAssert:
		o := a.val(f, x.X)
		if x.CommaOk && o.k == 'w' {
			return &av{k: 'a', el: []*av{o, konstBool(true)}}
		}
		if x.CommaOk {
			return &av{k: 'a', el: []*av{o, a.named(o.text() + " is " + x.AssertedType.String())}}
		}
		return o
	case *ssa.Call:
		return a.invoke(f, x)
	case *ssa.Range:
		return &av{k: 'a', el: []*av{a.val(f, x.X), {k: 'p', cell: &acell{v: konstInt(0), name: x.Name()}}}}
	case *ssa.Next:
		it := a.val(f, x.Iter)
		if a.ptrs && !x.IsString && it.k == 'a' {
			return a.nextEntry(it)
		}
		if x.IsString && it.k == 'a' {
			i := it.el[1].cell.v
			if i.i64() > 4 {
				stop("bound")
			}
			if !a.truth(a.compare(token.LSS, i, a.length(it.el[0]))) {
				return &av{k: 'a', el: []*av{konstBool(false), konstInt(0), konstInt(0)}}
			}
			it.el[1].cell.v = konstInt(i.i64() + 1)
			return &av{k: 'a', el: []*av{konstBool(true), i, a.elem(it.el[0], i)}}
		}
	}
	return a.named("unknown " + v.Name() + " of " + f.fn.Name())
}

func (a *absint) slice(f *aframe, x *ssa.Slice) *av {
	o := a.val(f, x.X)
	part := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		w := a.val(f, v)
		if !w.isInt() {
			return 0, false
		}
		return int(w.i64()), true
	}
	switch {
	case o.k == 'p':
		arr := getPath(o.cell.v, o.path)
		if arr != nil && arr.k == 'a' && len(o.path) == 0 {
			lo, ok1 := part(x.Low, 0)
			hi, ok2 := part(x.High, len(arr.el))
			if ok1 && ok2 && lo <= hi && hi <= len(arr.el) && lo >= 0 {
				return &av{k: 'l', cell: o.cell, lo: lo, n: hi - lo}
			}
		}
		if arr != nil && arr.k == 's' && x.High != nil {
			if hi, ok := part(x.High, -1); ok && hi == 0 {
				return &av{k: 'l', cell: &acell{v: &av{k: 'a'}, name: x.Name()}}
			}
		}
	case o.k == 'l':
		lo, ok1 := part(x.Low, 0)
		hi, ok2 := part(x.High, o.n)
		if ok1 && ok2 && lo <= hi && hi <= len(o.cell.v.el)-o.lo && lo >= 0 {
			return &av{k: 'l', cell: o.cell, lo: o.lo + lo, n: hi - lo}
		}
	case o.k == 'k' && o.c.Kind() == constant.String:
		s := o.str()
		lo, ok1 := part(x.Low, 0)
		hi, ok2 := part(x.High, len(s))
		if ok1 && ok2 {
			if lo < 0 || hi > len(s) || lo > hi {
				stop("panic")
			}
			return konst(constant.MakeString(s[lo:hi]))
		}
	case o.k == 't':
		p := prefixOf(o)
		lo, ok1 := part(x.Low, 0)
		hi, ok2 := part(x.High, -1)
		if ok1 && ok2 && lo >= 0 && lo <= len(p) {
			if x.High == nil {
				rest := parts(o)
				if p != "" {
					rest = rest[1:]
				}
				return cat(append([]*av{konstStr(p[lo:])}, rest...)...)
			}
			if hi >= lo && hi <= len(p) {
				return konstStr(p[lo:hi])
			}
		}
	}
	if o.k == 't' && a.cutEnd != nil && x.Low == nil && x.High != nil {
		h := strings.TrimPrefix(a.val(f, x.High).text(), "(len("+o.text()+")-")
		if n, err := strconv.Atoi(strings.TrimSuffix(h, ")")); err == nil && n > 0 {
			if r := a.cutEnd(o, n); r != nil {
				return r
			}
		}
	}
	k := o.text() + "["
	if x.Low != nil {
		k += a.val(f, x.Low).text()
	}
	k += ":"
	if x.High != nil {
		k += a.val(f, x.High).text()
	}
	return a.named(k + "]")
}

func (a *absint) binop(op token.Token, x, y *av) *av {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return a.compare(op, x, y)
	}
	if x.k == 'k' && y.k == 'k' {
		ctr := x.ctr
		if ctr == nil {
			ctr = y.ctr
		}
		if ctr != nil && op != token.ADD {
			a.uneven[ctr] = true
		}
		var r constant.Value
		switch op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(y.c)
			if !ok || s > 64 {
				stop("a shift the analysis does not follow")
			}
			r = constant.Shift(x.c, op, uint(s))
		case token.QUO:
			if y.isInt() && constant.Sign(y.c) == 0 {
				stop("panic")
			}
			r = constant.BinaryOp(x.c, token.QUO_ASSIGN, y.c)
		case token.REM:
			if constant.Sign(y.c) == 0 {
				stop("panic")
			}
			r = constant.BinaryOp(x.c, op, y.c)
		default:
			r = constant.BinaryOp(x.c, op, y.c)
		}
		return &av{k: 'k', c: r, ctr: ctr}
	}
	for _, c := range []*av{x, y} {
		if c.ctr != nil {
			a.uneven[c.ctr] = true
		}
	}
	return a.named("(" + x.text() + op.String() + y.text() + ")")
}

func (a *absint) tuple(call *ssa.Call, key string) *av {
	res := call.Call.Signature().Results()
	if res.Len() == 1 {
		return a.named(key)
	}
	t := &av{k: 'a'}
	for i := 0; i < res.Len(); i++ {
		t.el = append(t.el, a.named(key+"#"+itoa(i)))
	}
	return t
}

func (a *absint) sign(x, y *av) *av {
	if a.truth(a.compare(token.LSS, x, y)) {
		return konstInt(-1)
	}
	if a.truth(a.compare(token.GTR, x, y)) {
		return konstInt(1)
	}
	return konstInt(0)
}

func (a *absint) invoke(f *aframe, call *ssa.Call) *av {
	cm := call.Common()
	var args []*av
	for _, x := range cm.Args {
		args = append(args, a.val(f, x))
	}
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		return a.builtin(call, bi.Name(), args)
	}
	name := staticName(call)
	if i := strings.Index(name, "["); i > 0 && !strings.HasPrefix(name, "(") {
		name = name[:i]
	}
	if a.rules != nil {
		rargs := args
		if cm.IsInvoke() {
			rargs = append([]*av{a.val(f, cm.Value)}, args...)
		}
		if r, ok := a.rules(call, name, rargs); ok {
			return r
		}
	}
	str := func(i int) (string, bool) {
		if i < len(args) && args[i].k == 'k' && args[i].c.Kind() == constant.String {
			return args[i].str(), true
		}
		return "", false
	}
	s0, ok0 := str(0)
	s1, ok1 := str(1)
	switch name {
	case "cmp.Compare", "strings.Compare":
		return a.sign(args[0], args[1])
	case "cmp.Less":
		return a.compare(token.LSS, args[0], args[1])
	case "cmp.Or":
		if args[0].k == 'l' {
			for i := 0; i < args[0].n; i++ {
				e := a.elem(args[0], konstInt(int64(i)))
				if i == args[0].n-1 || !a.truth(a.compare(token.EQL, e, konstInt(0))) {
					return e
				}
			}
		}
	case "slices.Compare":
		return a.compareSeq(args[0], args[1])
	case "slices.Index", "slices.Contains":
		if args[0].k == 'l' {
			for i := 0; i < args[0].n; i++ {
				if a.truth(a.compare(token.EQL, a.elem(args[0], konstInt(int64(i))), args[1])) {
					if name == "slices.Index" {
						return konstInt(int64(i))
					}
					return konstBool(true)
				}
			}
			if name == "slices.Index" {
				return konstInt(-1)
			}
			return konstBool(false)
		}
	case "fmt.Errorf", "errors.New":
		return &av{k: 's', key: "error " + call.Name() + " of " + f.fn.Name()}
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return konstBool(strings.HasPrefix(s0, s1))
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return konstBool(strings.HasSuffix(s0, s1))
		}
	case "strings.Contains":
		if ok0 && ok1 {
			return konstBool(strings.Contains(s0, s1))
		}
	case "strings.ContainsRune":
		if ok0 && args[1].isInt() {
			return konstBool(strings.ContainsRune(s0, rune(args[1].i64())))
		}
	case "strings.TrimPrefix":
		if ok0 && ok1 {
			return konst(constant.MakeString(strings.TrimPrefix(s0, s1)))
		}
	case "strings.TrimSuffix":
		if ok0 && ok1 {
			return konst(constant.MakeString(strings.TrimSuffix(s0, s1)))
		}
	case "strings.TrimLeft":
		if ok0 && ok1 {
			return konst(constant.MakeString(strings.TrimLeft(s0, s1)))
		}
	case "strings.Trim":
		if ok0 && ok1 {
			return konst(constant.MakeString(strings.Trim(s0, s1)))
		}
	case "strings.ToLower":
		if ok0 {
			return konst(constant.MakeString(strings.ToLower(s0)))
		}
	case "strings.ReplaceAll":
		s2, ok2 := str(2)
		if ok0 && ok1 && ok2 {
			return konst(constant.MakeString(strings.ReplaceAll(s0, s1, s2)))
		}
	}
	g := cm.StaticCallee()
	var binds []*av
	if g == nil && !cm.IsInvoke() {
		if fv := a.val(f, cm.Value); fv.k == 'f' {
			g, binds = fv.fn, fv.el
		}
	} else if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
		binds = a.val(f, mc).el
	}
	if g != nil && a.p.inModule(g) && len(g.Blocks) > 0 {
		res := a.call(g, args, binds)
		if len(res) == 1 {
			return res[0]
		}
		return &av{k: 'a', el: res}
	}
	var ks []string
	for _, x := range args {
		ks = append(ks, x.text())
		// what it points to may change
		if x.k == 'p' {
			x.cell.v = a.name("after " + call.Name() + " " + x.cell.name)
		}
	}
	if name == "" {
		name = call.Name()
	}
	return a.tuple(call, name+"("+strings.Join(ks, ",")+")")
}

// compareSeq: element by element, then by length.
func (a *absint) compareSeq(x, y *av) *av {
	for i := int64(0); i < 5; i++ {
		c := konstInt(i)
		xi := a.truth(a.compare(token.LSS, c, a.length(x)))
		yi := a.truth(a.compare(token.LSS, c, a.length(y)))
		switch {
		case !xi && !yi:
			return konstInt(0)
		case !xi:
			return konstInt(-1)
		case !yi:
			return konstInt(1)
		}
		if s := a.sign(a.elem(x, c), a.elem(y, c)); s.i64() != 0 {
			return s
		}
	}
	stop("bound")
	return nil
}

func (a *absint) builtin(call *ssa.Call, name string, args []*av) *av {
	switch name {
	case "delete":
		if a.ptrs && args[0].k == 'm' {
			if !a.keyed(args[1]) {
				stop("a map the analysis does not follow")
			}
			args[0].mp.drop(args[1].text())
			return &av{k: 'n'}
		}
	case "clear":
		if a.ptrs && args[0].k == 'm' {
			args[0].mp.keys, args[0].mp.kv, args[0].mp.vals = nil, nil, map[string]*av{}
			return &av{k: 'n'}
		}
	case "len":
		return a.length(args[0])
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			less := a.truth(a.compare(token.LSS, x, r))
			if less == (name == "min") {
				r = x
			}
		}
		return r
	case "copy":
		if len(args) == 2 && args[0].k == 's' && strings.HasPrefix(args[0].key, "make ") && (args[1].k == 's' || args[1].k == 'l') {
			*args[0] = *args[1]
			return a.length(args[1])
		}
	case "append":
		if len(args) == 2 && a.length(args[0]).k == 'k' && a.length(args[0]).i64() == 0 && args[1].k == 's' {
			return args[1]
		}
		if len(args) == 2 && (args[0].k == 'l' || args[0].k == 'n') && (args[1].k == 'l' || args[1].k == 'n') {
			arr := &av{k: 'a'}
			for _, s := range args {
				for i := 0; i < s.n; i++ {
					arr.el = append(arr.el, s.cell.v.el[s.lo+i])
				}
			}
			return &av{k: 'l', cell: &acell{v: arr, name: call.Name()}, n: len(arr.el)}
		}
	}
	var ks []string
	for _, x := range args {
		ks = append(ks, x.text())
	}
	if call.Call.Signature().Results().Len() == 0 {
		return &av{k: 'n'}
	}
	return a.named(name + "(" + strings.Join(ks, ",") + ")")
}

// initGlobals evaluates the package's variable initialisation, as far as it is constant.
func (a *absint) initGlobals(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	var gs []*ssa.Global
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		a.globals[g] = &acell{v: a.zero(deref(g.Type())), name: g.Name()}
	}
	old := a.rules
	a.rules = func(call *ssa.Call, name string, args []*av) (*av, bool) {
		if g := call.Call.StaticCallee(); g != nil && (g.Pkg != pkg || strings.HasPrefix(g.Name(), "init")) && (strings.HasPrefix(g.Name(), "init") || a.p.inModule(g)) {
			return &av{k: 'n'}, true
		}
		if strings.HasPrefix(name, "regexp.MustCompile") && len(args) == 1 && args[0].k == 'k' {
			return a.name("regexp:" + args[0].str()), true
		}
		if old != nil {
			return old(call, name, args)
		}
		return nil, false
	}
	a.explore(fn, func() []*av { return nil }, func([]*av) {}, func(string) {})
	a.rules = old
	// a variable assigned anywhere else is not constant
	for _, f := range a.p.Funcs {
		if f.Pkg != pkg && f.Parent() == nil {
			continue
		}
		if f == fn {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						a.globals[g] = &acell{v: a.name("global " + g.Name()), name: g.Name()}
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							a.globals[g] = &acell{v: a.name("global " + g.Name()), name: g.Name()}
						}
					}
				}
			}
		}
	}
}

// textual: a string or a slice of bytes.
func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
