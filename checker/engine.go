package main

import (
	"container/heap"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is a path-sensitive interprocedural dataflow analysis over SSA (property
// simulation): abstract states carry value numbers of live values, a store abstraction,
// branch facts and rule marks; equal states are merged.
type Engine struct {
	P        *Prog
	T        *TermTable
	Boundary map[string]bool // in-module functions never inlined
	Inline   func(fn *ssa.Function) bool
	MaxDepth int
	Cap      int // per program point, before facts are dropped
	MaxSteps int

	OnCall          func(s *State, c *CallEvent)
	OnPost          func(s *State, c *CallEvent) // after an opaque call; c.Final is its result
	OnFact          func(s *State, atom *Term, val bool)
	OnNone          func(s *State, slice, pred *Term)                       // slices.ContainsFunc/IndexFunc found no element
	OnReturn        func(s *State, fr *Frame, rets []*Term, in *ssa.Return) // every function return (before pop)
	OnStore         func(s *State, addr, val *Term, in ssa.Instruction)
	NoStore         func(addr *Term) bool // addresses whose contents are not tracked
	OnMapSet        func(s *State, m, k, v *Term, in ssa.Instruction)
	OnSend          func(s *State, ch, v *Term, in ssa.Instruction)
	OnEnd           func(s *State, rets []*Term) // entry function returned
	OnPanic         func(s *State, v *Term, in ssa.Instruction)
	OnInstr         func(s *State, in ssa.Instruction)
	KeepFact        func(t *Term) bool
	KeepSumMark     func(tag string) bool // marks kept when their object stands for several loop iterations
	PruneMark       func(tag string) bool // marks dropped once the objects they name are dead
	MayRunCallbacks bool                  // closures handed to external functions may run

	// statistics
	Steps, States, Merged, Widened int
	Funcs                          map[*ssa.Function]bool
	Undecided                      []string

	modcache  map[*ssa.Function]map[string]bool
	queue     stateQueue
	joined    map[[20]byte]map[*Term]bool
	pending   map[[20]byte]*State
	rpos      map[*ssa.Function]map[*ssa.BasicBlock]int
	seq       int
	points    map[string]int
	pointDesc map[string]string
	siteNo    map[ssa.Instruction]int
}

type Deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	idx    int
	call   ssa.CallInstruction
	defers []Deferred
	ctx    string
	mode   int // 0 normal, 1 discard result, 2 errgroup
	group  *Term
	result *Term // value of the outer call when mode!=0
	// contents of memory when each loop header was last reached (immutable maps)
	hdrMem map[*ssa.BasicBlock]map[*Term]*Term
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	note string
}

type State struct {
	e      *Engine
	frames []*Frame
	mem    map[*Term]*Term
	havoc  map[*Term]string
	facts  map[*Term]bool
	marks  map[*Term]bool
	trace  *Trace
	dead   bool
	parked bool
	hasKey bool
	pkey   [20]byte
	prio   []int
	seq    int
}

type CallEvent struct {
	Instr      ssa.CallInstruction
	Name       string
	Static     *ssa.Function
	Obj        *types.Func
	Args       []*Term // receiver first
	Deferred   bool
	Go         bool
	WillInline bool
	Result     *Term // set by hook to override
	NoInline   bool  // set by hook
	PostFact   []FactVal
	Final      *Term // result term (set for PostCall)
}
type FactVal struct {
	T *Term
	V bool
}

func NewEngine(p *Prog) *Engine {
	return &Engine{P: p, T: newTermTable(), Boundary: map[string]bool{}, MaxDepth: 14, Cap: 48, MaxSteps: 3000000,
		Funcs: map[*ssa.Function]bool{}, modcache: map[*ssa.Function]map[string]bool{}, points: map[string]int{}, siteNo: map[ssa.Instruction]int{}, MayRunCallbacks: true}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{e: s.e, mem: make(map[*Term]*Term, len(s.mem)), havoc: make(map[*Term]string, len(s.havoc)), facts: make(map[*Term]bool, len(s.facts)), marks: make(map[*Term]bool, len(s.marks)), trace: s.trace}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]Deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.havoc {
		n.havoc[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.marks {
		n.marks[k] = v
	}
	return n
}

// ---- marks ----
func (s *State) Mark(tag string, args ...*Term) {
	s.marks[s.e.T.mk("mark", tag, nil, nil, args...)] = true
}
func (s *State) Unmark(tag string, args ...*Term) {
	delete(s.marks, s.e.T.mk("mark", tag, nil, nil, args...))
}
func (s *State) HasMark(tag string, args ...*Term) bool {
	return s.marks[s.e.T.mk("mark", tag, nil, nil, args...)]
}
func (s *State) MarksOf(tag string) []*Term {
	var r []*Term
	for m := range s.marks {
		if m.Fn == tag {
			r = append(r, m)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (s *State) TraceString() string {
	var pts []string
	for t := s.trace; t != nil; t = t.prev {
		pts = append(pts, s.e.P.pos(t.pos)+t.note)
	}
	for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
		pts[i], pts[j] = pts[j], pts[i]
	}
	var out []string
	for i, x := range pts {
		if i == 0 || pts[i-1] != x {
			out = append(out, x)
		}
	}
	if len(out) > 60 {
		out = append([]string{"…"}, out[len(out)-60:]...)
	}
	return strings.Join(out, " -> ")
}

func (s *State) note(pos token.Pos, n string) { s.trace = &Trace{s.trace, pos, n} }

// ---- terms ----

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	return e.T.mk("const", c.Value.ExactString(), c.Type(), c.Value)
}
func (e *Engine) Nil() *Term { return e.T.mk("nil", "", nil, nil) }
func (e *Engine) Bool(b bool) *Term {
	v := constant.MakeBool(b)
	return e.T.mk("const", v.ExactString(), types.Typ[types.Bool], v)
}
func (e *Engine) Int(i int64) *Term {
	v := constant.MakeInt64(i)
	return e.T.mk("const", v.ExactString(), types.Typ[types.Int], v)
}
func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var v constant.Value
		switch {
		case u.Info()&types.IsBoolean != 0:
			v = constant.MakeBool(false)
		case u.Info()&types.IsString != 0:
			v = constant.MakeString("")
		case u.Info()&types.IsInteger != 0:
			v = constant.MakeInt64(0)
		case u.Info()&types.IsFloat != 0:
			v = constant.MakeFloat64(0)
		default:
			return e.Nil()
		}
		return e.T.mk("const", v.ExactString(), t, v)
	case *types.Struct, *types.Array:
		return e.T.mk("zero", types.TypeString(t, nil), t, nil)
	}
	return e.Nil()
}

func (e *Engine) Extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "aggr" && i < len(t.Args) {
		return t.Args[i]
	}
	return e.T.mk("extract", fmt.Sprint(i), typ, nil, t)
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func (e *Engine) fieldOf(v *Term, fv *types.Var, idx int) *Term {
	switch v.Op {
	case "aggr":
		if idx < len(v.Args) {
			return v.Args[idx]
		}
	case "zero":
		return e.zero(fv.Type())
	case "load":
		// field of a loaded struct = load of the field address
		if len(v.Args) == 1 {
			return e.T.mk("load", v.Fn, fv.Type(), nil, e.faddr(v.Args[0], fv))
		}
	}
	return e.T.mk("field", fv.Name(), fv.Type(), fv, v)
}
func (e *Engine) faddr(base *Term, fv *types.Var) *Term {
	return e.T.mk("faddr", fv.Name(), types.NewPointer(fv.Type()), fv, base)
}

func addrRoot(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.Args[0]
	}
	return a
}
func addrPrefix(p, a *Term) bool {
	for {
		if p == a {
			return true
		}
		if a.Op != "faddr" && a.Op != "iaddr" {
			return false
		}
		if a.Op == "iaddr" && a.Args[0].Op == "slice" && a.Args[0].Args[0] == p {
			return true
		}
		a = a.Args[0]
	}
}

func (s *State) havocTag(addr *Term) string {
	for a := addr; ; a = a.Args[0] {
		if t, ok := s.havoc[a]; ok {
			return t
		}
		if a.Op != "faddr" && a.Op != "iaddr" && a.Op != "slice" {
			return ""
		}
	}
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// Load reads the abstract store.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	e := s.e
	if e.NoStore != nil && e.NoStore(addr) {
		return e.T.mk("inst", "untracked", typ, nil, addr)
	}
	if addr.Op == "iaddr" && addr.Args[0].Op == "slice" && addr.Args[0].Args[0].Op == "alloc" && len(addr.Args[0].Args) == 1 {
		addr = e.T.mk("iaddr", "", addr.Typ, nil, addr.Args[0].Args[0], addr.Args[1])
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// containing struct stored as a whole?
	if addr.Op == "faddr" {
		if pv, ok := s.lookupWhole(addr.Args[0]); ok {
			if fv, ok := addr.Obj.(*types.Var); ok {
				if st, ok := structOf(elemOr(addr.Args[0].Typ)); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == fv.Name() {
							return e.fieldOf(pv, fv, i)
						}
					}
				}
			}
		}
	}
	tag := s.havocTag(addr)
	root := addrRoot(addr)
	if st, ok := structOf(typ); ok {
		any := false
		for a := range s.mem {
			if a != addr && addrPrefix(addr, a) {
				any = true
				break
			}
		}
		if any {
			var args []*Term
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				args = append(args, s.Load(e.faddr(addr, fv), fv.Type()))
			}
			return e.T.mk("aggr", "", typ, nil, args...)
		}
	}
	if root.Op == "alloc" && tag == "" && typ != nil {
		ok := true
		for a := addr; a != root; a = a.Args[0] {
			if a.Op == "iaddr" {
				ok = false // an element: may have been stored under another index
				if _, isc := a.Args[1].intConst(); isc {
					ok = true
					for m := range s.mem {
						if m.Op == "iaddr" && m.Args[0] == a.Args[0] {
							if _, c := m.Args[1].intConst(); !c {
								ok = false
							}
						}
					}
				}
			}
		}
		if ok {
			return e.zero(typ)
		}
	}
	return e.T.mk("load", tag, typ, nil, addr)
}

func elemOr(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (s *State) lookupWhole(a *Term) (*Term, bool) {
	if v, ok := s.mem[a]; ok {
		return v, true
	}
	if a.Op == "faddr" {
		if pv, ok := s.lookupWhole(a.Args[0]); ok {
			if st, ok := structOf(elemOr(a.Args[0].Typ)); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == a.Fn {
						return s.e.fieldOf(pv, st.Field(i), i), true
					}
				}
			}
		}
	}
	return nil, false
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func (s *State) Store(addr, v *Term) {
	e := s.e
	if addr.Op == "iaddr" && addr.Args[0].Op == "slice" && addr.Args[0].Args[0].Op == "alloc" && len(addr.Args[0].Args) == 1 {
		addr = e.T.mk("iaddr", "", addr.Typ, nil, addr.Args[0].Args[0], addr.Args[1])
	}
	root := addrRoot(addr)
	for a := range s.mem {
		if a == addr {
			continue
		}
		if addrPrefix(addr, a) {
			delete(s.mem, a)
			continue
		}
		// may alias
		if a.Op == addr.Op && a.Op == "faddr" && a.Fn == addr.Fn {
			ra := addrRoot(a)
			if ra != root && ra.Op != "alloc" && root.Op != "alloc" {
				delete(s.mem, a)
			}
		}
		if a.Op == "iaddr" && addr.Op == "iaddr" && a.Args[0] == addr.Args[0] {
			_, c1 := a.Args[1].intConst()
			_, c2 := addr.Args[1].intConst()
			if !(c1 && c2) {
				delete(s.mem, a)
			}
		}
	}
	// facts about loads that this store invalidates
	if addr.Op == "faddr" || addr.Op == "gaddr" {
		for f := range s.facts {
			if f.contains(func(x *Term) bool {
				if x.Op != "load" {
					return false
				}
				a := x.Args[0]
				if a == addr {
					return true
				}
				return a.Op == "faddr" && addr.Op == "faddr" && a.Fn == addr.Fn && addrRoot(a).Op != "alloc" && root.Op != "alloc"
			}) {
				delete(s.facts, f)
			}
		}
	}
	if addr.sum || e.NoStore != nil && e.NoStore(addr) {
		return // several objects: weak update
	}
	s.mem[addr] = v
}

func (s *State) havocPtr(p *Term, tag string) {
	for a := range s.mem {
		if addrPrefix(p, a) {
			delete(s.mem, a)
		}
	}
	s.havoc[p] = tag
}

// ---- conditions ----

func (e *Engine) norm(t *Term) (*Term, bool) {
	neg := false
	for {
		if t.Op == "un" && t.Fn == "!" {
			t = t.Args[0]
			neg = !neg
			continue
		}
		if t.Op == "bin" {
			a, b := t.Args[0], t.Args[1]
			switch t.Fn {
			case "!=":
				t = e.T.mk("bin", "==", t.Typ, nil, a, b)
				neg = !neg
				continue
			case ">":
				t = e.T.mk("bin", "<", t.Typ, nil, b, a)
			case ">=":
				t = e.T.mk("bin", "<", t.Typ, nil, a, b)
				neg = !neg
			case "<=":
				t = e.T.mk("bin", "<", t.Typ, nil, b, a)
				neg = !neg
			case "==":
				if v, ok := a.isBoolConst(); ok {
					t = b
					if !v {
						neg = !neg
					}
					continue
				}
				if v, ok := b.isBoolConst(); ok {
					t = a
					if !v {
						neg = !neg
					}
					continue
				}
				if b.id < a.id {
					t = e.T.mk("bin", "==", t.Typ, nil, b, a)
				}
			}
		}
		return t, neg
	}
}

func (e *Engine) EqTerm(a, b *Term) *Term {
	if b.id < a.id {
		a, b = b, a
	}
	return e.T.mk("bin", "==", types.Typ[types.Bool], nil, a, b)
}

// Truth returns 1 true, 0 false, -1 unknown.
func (s *State) Truth(c *Term) int {
	e := s.e
	t, neg := e.norm(c)
	r := s.truth0(t)
	if r >= 0 && neg {
		return 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *State) truth0(t *Term) int {
	if v, ok := t.isBoolConst(); ok {
		return b2i(v)
	}
	if v, ok := s.facts[t]; ok {
		return b2i(v)
	}
	if t.Op == "bin" {
		a, b := t.Args[0], t.Args[1]
		ca, oka := constOf(a)
		cb, okb := constOf(b)
		switch t.Fn {
		case "==":
			if a == b && !a.sum {
				return 1
			}
			if oka && okb {
				return b2i(constant.Compare(ca, token.EQL, cb))
			}
			if a.isNil() {
				a, b = b, a
			}
			if b.isNil() {
				if s.nonNil(a) {
					return 0
				}
				return -1
			}
			// a freshly made error is no package-level sentinel
			if isFreshErr(a) && isGlobalLoad(b) || isFreshErr(b) && isGlobalLoad(a) {
				return 0
			}
			// x == c where x == c' known
			if okb || oka {
				x, c := a, cb
				if oka {
					x, c = b, ca
				}
				for f, v := range s.facts {
					if v && f.Op == "bin" && f.Fn == "==" {
						var other *Term
						if f.Args[0] == x {
							other = f.Args[1]
						} else if f.Args[1] == x {
							other = f.Args[0]
						} else {
							continue
						}
						if co, ok := constOf(other); ok {
							return b2i(constant.Compare(co, token.EQL, c))
						}
					}
				}
			}
		case "<":
			if oka && okb && ca.Kind() == cb.Kind() {
				return b2i(constant.Compare(ca, token.LSS, cb))
			}
			if a == b {
				return 0
			}
			if okb && a.Op == "bin" && a.Fn == "+" && a.Args[0].Op == "inst" && a.Args[0].Fn == "rangeindex" && cb.Kind() == constant.Int && constant.Sign(cb) <= 0 {
				return 0
			}
			// len(x) < 0
			if okb && a.Op == "pure" && a.Fn == "len" && cb.Kind() == constant.Int && constant.Sign(cb) <= 0 {
				return 0
			}
		}
	}
	if t.Op == "pure" && t.Fn == "errors.Is" && len(t.Args) == 2 {
		if s.IsNil(t.Args[0]) == 1 {
			return 0
		}
	}
	return -1
}

func isFreshErr(t *Term) bool { return t.isCall("fmt.Errorf") || t.isCall("errors.New") }

func isGlobalLoad(t *Term) bool { return t.Op == "load" && t.Args[0].Op == "gaddr" }

func constOf(t *Term) (constant.Value, bool) {
	if t.Op == "const" {
		c, ok := t.Obj.(constant.Value)
		return c, ok
	}
	return nil, false
}

// IsNil: 1 nil, 0 non-nil, -1 unknown.
func (s *State) IsNil(t *Term) int {
	if t.isNil() {
		return 1
	}
	return s.Truth(s.e.EqTerm(t, s.e.Nil()))
}

var nonNilFuncs = map[string]bool{"fmt.Errorf": true, "errors.New": true}

func (s *State) nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "gaddr", "aggr", "zero", "const", "faddr", "iaddr":
		return true
	case "stale":
		return strings.HasPrefix(t.Fn, "alloc:") || nonNilFuncs[strings.TrimPrefix(t.Fn, "inst:")]
	case "inst", "pure":
		if nonNilFuncs[t.Fn] || t.Fn == "makemap" || t.Fn == "makeslice" || t.Fn == "makechan" {
			return true
		}
		if t.Fn == "errors.Join" {
			for _, a := range t.Args {
				if s.IsNil(a) == 0 {
					return true
				}
			}
		}
		if t.Typ != nil {
			if _, ok := structOf(t.Typ); ok {
				return true
			}
		}
	case "load":
		if t.Args[0].Op == "gaddr" && t.Typ != nil && t.Typ.String() == "error" {
			return true
		}
	}
	return false
}

// Assume adds cond==val; returns false if contradictory.
func (s *State) Assume(c *Term, val bool) bool {
	e := s.e
	t, neg := e.norm(c)
	if neg {
		val = !val
	}
	switch s.truth0(t) {
	case 1:
		return val
	case 0:
		return !val
	}
	s.facts[t] = val
	if t.Op == "pure" && t.Fn == "errors.Is" && val {
		s.facts[e.EqTerm(t.Args[0], e.Nil())] = false
	}
	if (t.Op == "pure" || t.Op == "inst") && t.Fn == "errors.As" && val && len(t.Args) > 0 {
		s.facts[e.EqTerm(t.Args[0], e.Nil())] = false
	}
	if t.Op == "pure" && (t.Fn == "os.IsNotExist" || t.Fn == "os.IsPermission" || t.Fn == "os.IsExist") && val {
		s.facts[e.EqTerm(t.Args[0], e.Nil())] = false
	}
	if e.OnFact != nil {
		e.OnFact(s, t, val)
	}
	return true
}

// ---- values ----

func (s *State) Val(v ssa.Value) *Term { return s.valIn(s.top(), v) }

func (s *State) valIn(fr *Frame, v ssa.Value) *Term {
	e := s.e
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.T.mk("gaddr", x.String(), x.Type(), x)
	case *ssa.Function:
		return e.T.mk("func", x.String(), x.Type(), x)
	case *ssa.Builtin:
		return e.T.mk("builtin", x.Name(), x.Type(), x)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := e.T.mk("inst", "undef:"+v.Name(), v.Type(), nil)
	return t
}

func (e *Engine) site(in ssa.Instruction) int {
	n, ok := e.siteNo[in]
	if !ok {
		n = len(e.siteNo) + 1
		e.siteNo[in] = n
	}
	return n
}

// instance makes the opaque result of instruction in; previous instances go stale.
func (s *State) instance(in ssa.Instruction, op, name string, typ types.Type, obj any, args ...*Term) *Term {
	e := s.e
	fr := s.top()
	label := fmt.Sprintf("%d%s", e.site(in), fr.ctx)
	// args must not contain the previous instance
	s.stale(label)
	for i, a := range args {
		args[i] = s.substStale(a, label)
	}
	t := e.T.mkInst(op, name, label, typ, obj, args...)
	return t
}

func (tt *TermTable) mkInst(op, name, label string, typ types.Type, obj any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op + "|" + name + "@" + label)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{Op: op, Fn: name, Args: args, Typ: typ, Obj: obj, id: len(tt.all)}
	lid := tt.labelID(label)
	set := map[int]bool{lid: true}
	for _, a := range args {
		for _, l := range a.leafs {
			set[l] = true
		}
	}
	for l := range set {
		t.leafs = append(t.leafs, l)
	}
	sort.Ints(t.leafs)
	t.label = lid
	t.sum = op == "stale"
	for _, a := range args {
		t.sum = t.sum || a.sum
	}
	tt.m[k] = t
	tt.all = append(tt.all, t)
	return t
}

func (s *State) stale(label string) {
	lid := s.e.T.labelID(label)
	// quick check
	touch := false
	for m := range s.marks {
		if m.hasLeaf(lid) {
			touch = true
			break
		}
	}
	if !touch {
		for f := range s.facts {
			if f.hasLeaf(lid) {
				touch = true
				break
			}
		}
	}
	if !touch {
	outer:
		for _, fr := range s.frames {
			for _, v := range fr.env {
				if v.hasLeaf(lid) {
					touch = true
					break outer
				}
			}
			for _, d := range fr.defers {
				for _, a := range d.args {
					if a.hasLeaf(lid) {
						touch = true
						break outer
					}
				}
				if d.fn != nil && d.fn.hasLeaf(lid) {
					touch = true
					break outer
				}
			}
		}
	}
	if !touch {
		for a, v := range s.mem {
			if a.hasLeaf(lid) || v.hasLeaf(lid) {
				touch = true
				break
			}
		}
	}
	if !touch {
		for a := range s.havoc {
			if a.hasLeaf(lid) {
				touch = true
				break
			}
		}
	}
	if !touch {
		return
	}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term { return s.e.T.subst(t, lid, memo) }
	for _, fr := range s.frames {
		for k, v := range fr.env {
			if v.hasLeaf(lid) {
				fr.env[k] = sub(v)
			}
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if d.fn != nil {
				d.fn = sub(d.fn)
			}
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = sub(a)
			}
			d.args = na
		}
		if fr.group != nil {
			fr.group = sub(fr.group)
		}
	}
	nm := make(map[*Term]*Term, len(s.mem))
	clash := map[*Term]bool{}
	for a, v := range s.mem {
		na, nv := sub(a), sub(v)
		if o, dup := nm[na]; dup && o != nv {
			clash[na] = true
			continue
		}
		nm[na] = nv
	}
	for a := range nm {
		if clash[a] || a.sum {
			delete(nm, a)
		}
	}
	s.mem = nm
	nh := make(map[*Term]string, len(s.havoc))
	for a, v := range s.havoc {
		nh[sub(a)] = v
	}
	s.havoc = nh
	stid := s.e.T.labelID(fmt.Sprintf("stale%d", lid))
	nf := make(map[*Term]bool, len(s.facts))
	for f, v := range s.facts {
		if f.hasLeaf(stid) {
			continue
		}
		if f.hasLeaf(lid) {
			f2 := sub(f)
			if e := s.e; e.KeepFact == nil || !e.KeepFact(f2) {
				continue
			}
			if _, dup := s.facts[f2]; dup {
				continue
			}
			nf[f2] = v
			continue
		}
		nf[f] = v
	}
	s.facts = nf
	nk := make(map[*Term]bool, len(s.marks))
	for f, v := range s.marks {
		if f.hasLeaf(lid) {
			f = sub(f)
			if s.e.KeepSumMark == nil || !s.e.KeepSumMark(f.Fn) {
				continue
			}
		}
		nk[f] = v
	}
	s.marks = nk
}

func (s *State) substStale(t *Term, label string) *Term {
	lid := s.e.T.labelID(label)
	if !t.hasLeaf(lid) {
		return t
	}
	return s.e.T.subst(t, lid, map[*Term]*Term{})
}

func (tt *TermTable) labelID(label string) int {
	id, ok := tt.labels[label]
	if !ok {
		id = len(tt.labels) + 1
		if tt.labels == nil {
			tt.labels = map[string]int{}
		}
		tt.labels[label] = id
		tt.labelNames = append(tt.labelNames, label)
	}
	return id
}

func (tt *TermTable) staleTerm(lid int, of *Term) *Term {
	l := fmt.Sprintf("stale%d", lid)
	if t, ok := tt.stales[lid]; ok {
		return t
	}
	if tt.stales == nil {
		tt.stales = map[int]*Term{}
	}
	var t *Term
	if of == nil {
		return tt.mkInst("stale", "?", l, nil, nil)
	}
	t = tt.mkInst("stale", of.Op+":"+of.Fn, l, of.Typ, of.Obj)
	tt.stales[lid] = t
	return t
}

func (tt *TermTable) subst(t *Term, lid int, memo map[*Term]*Term) *Term {
	if !t.hasLeaf(lid) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.label == lid {
		r = tt.staleTerm(lid, t)
	} else {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = tt.subst(a, lid, memo)
		}
		if t.label != 0 {
			// rebuild under the same label
			r = tt.rebuild(t, args)
		} else {
			r = tt.mk(t.Op, t.Fn, t.Typ, t.Obj, args...)
		}
	}
	memo[t] = r
	return r
}

func (tt *TermTable) rebuild(t *Term, args []*Term) *Term {
	return tt.mkInst(t.Op, t.Fn, tt.labelNames[t.label-1], t.Typ, t.Obj, args...)
}

// ---- running ----

func (e *Engine) Run(entry *ssa.Function, setup func(s *State)) {
	s := &State{e: e, mem: map[*Term]*Term{}, havoc: map[*Term]string{}, facts: map[*Term]bool{}, marks: map[*Term]bool{}}
	fr := &Frame{fn: entry, env: map[ssa.Value]*Term{}, block: entry.Blocks[0]}
	for i, p := range entry.Params {
		fr.env[p] = e.T.mk("param", fmt.Sprintf("%s:%d", p.Name(), i), p.Type(), p)
	}
	for i, p := range entry.FreeVars {
		fr.env[p] = e.T.mk("param", fmt.Sprintf("free:%s:%d", p.Name(), i), p.Type(), p)
	}
	s.frames = []*Frame{fr}
	e.Funcs[entry] = true
	if setup != nil {
		setup(s)
	}
	e.points = map[string]int{}
	e.joined = map[[20]byte]map[*Term]bool{}
	e.pending = map[[20]byte]*State{}
	e.pushRaw(s)
	for e.queue.Len() > 0 {
		s := heap.Pop(&e.queue).(*State)
		if s.hasKey {
			delete(e.pending, s.pkey)
			s.facts = copyFacts(e.joined[s.pkey])
			s.hasKey = false
		}
		s.parked = false
		e.run(s)
		if e.Steps > e.MaxSteps {
			if debugPoints {
				e.dumpPoints()
			}
			e.Undecided = append(e.Undecided, fmt.Sprintf("step limit exceeded exploring %s", entry))
			e.queue = nil
			return
		}
	}
}

func copyFacts(f map[*Term]bool) map[*Term]bool {
	r := make(map[*Term]bool, len(f))
	for k, v := range f {
		r[k] = v
	}
	return r
}

// queue of abstract states in topological order (callee before the rest of its caller, blocks
// in reverse postorder), so that states meet at joins before the analysis goes on.
type stateQueue []*State

func (q stateQueue) Len() int { return len(q) }
func (q stateQueue) Less(i, j int) bool {
	a, b := q[i].prio, q[j].prio
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return q[i].seq < q[j].seq
}
func (q stateQueue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *stateQueue) Push(x any)   { *q = append(*q, x.(*State)) }
func (q *stateQueue) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

func (e *Engine) rpo(b *ssa.BasicBlock) int {
	fn := b.Parent()
	m, ok := e.rpos[fn]
	if !ok {
		m = map[*ssa.BasicBlock]int{}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for i := len(b.Succs) - 1; i >= 0; i-- {
				dfs(b.Succs[i])
			}
			post = append(post, b)
		}
		dfs(fn.Blocks[0])
		for i, b := range post {
			m[b] = len(post) - i
		}
		if e.rpos == nil {
			e.rpos = map[*ssa.Function]map[*ssa.BasicBlock]int{}
		}
		e.rpos[fn] = m
	}
	return m[b]
}

// pushRaw queues s unless it is already queued or dead.
func (e *Engine) pushRaw(s *State) {
	if s.dead || s.parked {
		return
	}
	s.prio = s.prio[:0]
	for _, fr := range s.frames {
		s.prio = append(s.prio, e.rpo(fr.block), fr.idx)
	}
	s.parked = true
	e.seq++
	s.seq = e.seq
	heap.Push(&e.queue, s)
}

// park joins s with the states already seen at its program point and queues it when that
// added anything.
func (e *Engine) park(s *State) {
	if s.dead || s.parked {
		return
	}
	if !e.atPoint(s) {
		s.dead = true
		return
	}
	if p, ok := e.pending[s.pkey]; ok && p != s {
		s.dead = true // merged into the queued state (facts are taken from joined)
		return
	}
	e.pending[s.pkey] = s
	s.hasKey = true
	e.pushRaw(s)
}

// run executes s until it ends or forks.
func (e *Engine) run(s *State) {
	for !s.dead && !s.parked {
		fr := s.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.idx]
		e.Steps++
		if e.Steps > e.MaxSteps {
			return
		}
		if e.OnInstr != nil {
			e.OnInstr(s, in)
		}
		switch x := in.(type) {
		case *ssa.Phi:
			fr.idx++ // already evaluated on entry
		case *ssa.If:
			c := s.Val(x.Cond)
			switch s.Truth(c) {
			case 1:
				e.enter(s, fr.block.Succs[0])
			case 0:
				e.enter(s, fr.block.Succs[1])
			default:
				t := s.clone()
				pos := x.Cond.Pos()
				if t.Assume(c, false) {
					t.note(pos, "(no)")
					e.enter(t, fr.block.Succs[1])
					e.pushRaw(t)
				}
				if s.Assume(c, true) {
					s.note(pos, "(yes)")
					e.enter(s, fr.block.Succs[0])
				} else {
					s.dead = true
				}
			}
		case *ssa.Jump:
			e.enter(s, fr.block.Succs[0])
		case *ssa.Return:
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, s.Val(r))
			}
			if e.OnReturn != nil {
				e.OnReturn(s, fr, rets, x)
				if s.dead {
					return
				}
			}
			if len(s.frames) == 1 {
				if e.OnEnd != nil {
					s.note(x.Pos(), "(return)")
					e.OnEnd(s, rets)
				}
				return
			}
			e.popReturn(s, rets)
		case *ssa.Panic:
			if e.OnPanic != nil {
				e.OnPanic(s, s.Val(x.X), x)
			}
			return
		case *ssa.IndexAddr:
			if _, sl := x.X.Type().Underlying().(*types.Slice); sl && s.Val(x.X).isNil() {
				return // no element to take: the path ends here (bounds are C17)
			}
			e.simple(s, in)
			fr.idx++
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				fr.idx++
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			e.call(s, d.instr, d.fn, d.args, true, false)
		case *ssa.Defer:
			fnT, args := s.callOperands(&x.Call)
			// a defer statement in a loop: keep the latest registration (older ones name stale objects)
			for i, d := range fr.defers {
				if d.instr == x {
					fr.defers = append(append([]Deferred(nil), fr.defers[:i]...), fr.defers[i+1:]...)
					break
				}
			}
			fr.defers = append(fr.defers, Deferred{x, fnT, args})
			fr.idx++
		case *ssa.Go:
			fnT, args := s.callOperands(&x.Call)
			fr.idx++
			e.call(s, x, fnT, args, false, true)
		case *ssa.Call:
			fnT, args := s.callOperands(&x.Call)
			e.call(s, x, fnT, args, false, false)
		default:
			e.simple(s, in)
			fr.idx++
		}
	}
}

func (e *Engine) popReturn(s *State, rets []*Term) {
	fr := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	cl := s.top()
	switch fr.mode {
	case 0:
		if c, ok := fr.call.(*ssa.Call); ok {
			switch len(rets) {
			case 0:
			case 1:
				cl.env[c] = rets[0]
			default:
				cl.env[c] = e.T.mk("aggr", "tuple", nil, nil, rets...)
			}
		}
	case 1, 2, 3:
		if fr.mode == 3 && (len(rets) != 1 || !s.Assume(rets[0], true)) {
			s.dead = true
			return
		}
		if fr.mode == 2 && len(rets) == 1 {
			switch s.IsNil(rets[0]) {
			case 0:
				s.Mark("grouperr", fr.group)
			case -1:
				t := s.clone()
				if t.Assume(e.EqTerm(rets[0], e.Nil()), false) {
					t.Mark("grouperr", fr.group)
					t.finishCall(fr)
					e.park(t)
				}
				if !s.Assume(e.EqTerm(rets[0], e.Nil()), true) {
					s.dead = true
					return
				}
			}
		}
		if c, ok := fr.call.(*ssa.Call); ok && fr.result != nil {
			cl.env[c] = fr.result
		}
	}
	s.finishCall(fr)
	e.park(s)
}

func (s *State) finishCall(fr *Frame) {
	cl := s.top()
	if fr.mode != 0 {
		if c, ok := fr.call.(*ssa.Call); ok && fr.result != nil {
			cl.env[c] = fr.result
		}
	}
	if _, ok := fr.call.(*ssa.Call); ok {
		cl.idx++
	}
	// Go: idx already advanced; Defer: stay on RunDefers
}

// enter moves s to block b, evaluating phis; false if the state was already seen.
func (e *Engine) enter(s *State, b *ssa.BasicBlock) bool {
	fr := s.top()
	from := fr.block
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	hdr := isLoopHeader(b)
	back := isBackEdge(from, b)
	if hdr && unrollable(b) {
		s.iteration(b, back)
		hdr, back = false, false
	}
	type pv struct {
		p *ssa.Phi
		t *Term
	}
	var pvs []pv
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := s.Val(ph.Edges[pi])
		if hdr {
			t = e.loopPhi(s, ph, t, back)
		}
		pvs = append(pvs, pv{ph, t})
	}
	for _, x := range pvs {
		fr.env[x.p] = x.t
	}
	if back {
		e.widenLoop(s, b)
	}
	if hdr {
		snap := map[*Term]*Term{}
		for a, v := range s.mem {
			snap[a] = v
		}
		hm := map[*ssa.BasicBlock]map[*Term]*Term{b: snap}
		for h, m := range fr.hdrMem {
			if h != b {
				hm[h] = m
			}
		}
		fr.hdrMem = hm
	}
	fr.block = b
	fr.idx = 0
	if len(b.Preds) > 1 {
		e.park(s)
	}
	return true
}

// unrollable: b heads a loop over a literal with a few elements, which is followed element by element.
func unrollable(b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != b {
		return false
	}
	n := int64(-1)
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.Int {
			n = y.Int64()
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if sl, ok := y.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						n = at.Len()
					}
				}
			}
		}
	}
	if n < 0 || n > 4 {
		return false
	}
	x := cmp.X
	start := int64(0)
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD {
		if k, ok := add.Y.(*ssa.Const); !ok || k.Int64() != 1 {
			return false
		}
		x, start = add.X, -1
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != b {
		return false
	}
	for i, ed := range ph.Edges {
		if isBackEdge(b.Preds[i], b) {
			add, ok := ed.(*ssa.BinOp)
			if !ok || add.Op != token.ADD || add.X != ssa.Value(ph) {
				return false
			}
			if k, ok := add.Y.(*ssa.Const); !ok || k.Int64() != 1 {
				return false
			}
			continue
		}
		k, ok := ed.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != start {
			return false
		}
	}
	return true
}

// iteration gives each round of an unrolled loop its own instances.
func (s *State) iteration(b *ssa.BasicBlock, back bool) {
	fr := s.top()
	tag := fmt.Sprintf("~%d:", b.Index)
	k := 0
	if i := strings.LastIndex(fr.ctx, tag); i >= 0 && !strings.Contains(fr.ctx[i:], "/") {
		rest := fr.ctx[i+len(tag):]
		fmt.Sscanf(rest, "%d", &k)
		end := strings.Index(rest, "~")
		if end < 0 {
			end = len(rest)
		}
		fr.ctx = fr.ctx[:i] + rest[end:]
	}
	if back {
		fr.ctx += fmt.Sprintf("%s%d", tag, k+1)
	}
}

func (e *Engine) loopPhi(s *State, ph *ssa.Phi, t *Term, back bool) *Term {
	// constants that are bools or nil, params, allocations, functions are kept
	if _, ok := t.isBoolConst(); ok {
		return t
	}
	if t.isNil() {
		return t
	}
	isInt := false
	if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		isInt = true
	}
	if isInt && !plainIntPhi(ph) {
		if ph.Comment == "rangeindex" {
			return s.instance(ph, "inst", "rangeindex", ph.Type(), ph)
		}
		return s.instance(ph, "inst", "phi", ph.Type(), ph)
	}
	if !back {
		return t
	}
	switch t.Op {
	case "param", "alloc", "gaddr", "func", "closure", "const":
		return t
	case "inst":
		return t
	case "extract":
		if t.Args[0].Op == "inst" {
			return t
		}
	}
	if len(t.leafs) == 0 && termDepth(t) < 6 {
		return t
	}
	// keep if it does not depend on the loop's own phis
	if termDepth(t) < 8 && !t.contains(func(x *Term) bool { return x.Op == "stale" || x.Obj == ssa.Value(ph) }) {
		return t
	}
	return s.instance(ph, "inst", "phi", ph.Type(), ph)
}

// plainIntPhi: the integer only ever takes constants or results of calls, so it needs no widening.
func plainIntPhi(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	calls := 0
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			_, isCall := x.Tuple.(*ssa.Call)
			calls++
			return isCall
		case *ssa.Const:
			return true
		}
		return false
	}
	return ok(ph) && calls > 0
}

// widenLoop abstracts memory cells whose contents grow from iteration to iteration.
func (e *Engine) widenLoop(s *State, hdr *ssa.BasicBlock) {
	before := s.top().hdrMem[hdr]
	for a, v := range s.mem {
		if before[a] == v && !v.sum {
			continue // not modified by the iteration
		}
		switch v.Op {
		case "const", "nil", "param", "alloc", "inst", "func", "closure", "gaddr", "zero":
			if !v.sum {
				continue
			}
		case "extract", "load", "faddr", "iaddr", "mapget", "tassert", "pure":
			if !v.sum && termDepth(v) < 6 && v.Fn != "append" {
				continue
			}
		default:
			if len(v.leafs) == 0 {
				continue
			}
		}
		label := fmt.Sprintf("w%d.%d%s", a.id, e.site(hdr.Instrs[0]), s.top().ctx)
		s.mem[a] = e.T.mkInst("inst", "mphi", label, v.Typ, nil)
	}
}

func termDepth(t *Term) int {
	d := 0
	for _, a := range t.Args {
		if x := termDepth(a); x > d {
			d = x
		}
		if d > 20 {
			break
		}
	}
	return d + 1
}

// atPoint prunes dead information and joins s with the states seen before at the same
// program point with the same values, store and rule marks: branch facts are intersected.
// It reports whether the join added behaviour.
func (e *Engine) atPoint(s *State) bool {
	s.prune()
	k, pk := s.key()
	s.pkey = k
	if f, ok := e.joined[k]; ok {
		inter := map[*Term]bool{}
		for t, v := range f {
			if w, has := s.facts[t]; has && w == v {
				inter[t] = v
			}
		}
		if len(inter) == len(f) {
			e.Merged++
			return false
		}
		e.joined[k] = inter
		s.facts = copyFacts(inter)
		return true
	}
	e.points[pk]++
	if debugPoints {
		if e.pointDesc == nil {
			e.pointDesc = map[string]string{}
		}
		e.pointDesc[pk] = fmt.Sprintf("%s b%d.%d depth%d %s", s.top().fn, s.top().block.Index, s.top().idx, len(s.frames), e.P.pos(s.top().block.Instrs[0].Pos()))
		if e.points[pk] == 40 || e.points[pk] == 41 {
			fmt.Println("=====", pk)
			s.dump()
		}
	}
	if e.points[pk] > 40*e.Cap {
		e.Undecided = append(e.Undecided, "too many abstract states at "+e.P.pos(s.top().block.Instrs[0].Pos())+" in "+s.top().fn.String())
		return false
	}
	e.joined[k] = copyFacts(s.facts)
	e.States++
	return true
}

func (s *State) prune() {
	e := s.e
	for i, fr := range s.frames {
		li := e.P.liveness(fr.fn)
		var liveAt func(v ssa.Value) bool
		if i == len(s.frames)-1 && fr.idx == 0 {
			in := li.in[fr.block.Index]
			liveAt = func(v ssa.Value) bool {
				if in[v] {
					return true
				}
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == fr.block {
					return true
				}
				return false
			}
		} else {
			set := e.liveAfter(fr)
			liveAt = func(v ssa.Value) bool { return set[v] }
		}
		for v := range fr.env {
			if !liveAt(v) {
				delete(fr.env, v)
			}
		}
	}
	reach := map[int]bool{}
	addT := func(t *Term) {
		for _, l := range t.leafs {
			reach[l] = true
		}
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			addT(t)
		}
		for _, d := range fr.defers {
			if d.fn != nil {
				addT(d.fn)
			}
			for _, a := range d.args {
				addT(a)
			}
		}
		if fr.group != nil {
			addT(fr.group)
		}
		if fr.result != nil {
			addT(fr.result)
		}
	}
	for m := range s.marks {
		if e.PruneMark == nil || !e.PruneMark(m.Fn) {
			addT(m)
		}
	}
	sub := func(t *Term) bool {
		for _, l := range t.leafs {
			if !reach[l] {
				return false
			}
		}
		return true
	}
	kept := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for a, v := range s.mem {
			if !kept[a] && sub(addrRoot(a)) {
				kept[a] = true
				ch = true
				addT(v)
				addT(a)
			}
		}
	}
	for a := range s.mem {
		if !kept[a] {
			delete(s.mem, a)
		}
	}
	if e.PruneMark != nil {
		for m := range s.marks {
			if e.PruneMark(m.Fn) && !sub(m) {
				delete(s.marks, m)
			}
		}
	}
	for a := range s.havoc {
		if !sub(a) {
			delete(s.havoc, a)
		}
	}
	for f := range s.facts {
		if !sub(f) {
			delete(s.facts, f)
		}
	}
}

func (e *Engine) liveAfter(fr *Frame) map[ssa.Value]bool {
	li := e.P.liveness(fr.fn)
	set := map[ssa.Value]bool{}
	b := fr.block
	for _, su := range b.Succs {
		for v := range li.in[su.Index] {
			set[v] = true
		}
		for pi, pr := range su.Preds {
			if pr != b {
				continue
			}
			for _, in := range su.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if tracked(ph.Edges[pi]) {
					set[ph.Edges[pi]] = true
				}
			}
		}
	}
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i >= fr.idx; i-- {
		ops = b.Instrs[i].Operands(ops[:0])
		for _, o := range ops {
			if *o != nil && tracked(*o) {
				set[*o] = true
			}
		}
	}
	return set
}

func (s *State) key() ([20]byte, string) {
	h := sha1.New()
	var buf [8]byte
	w := func(n int) {
		binary.LittleEndian.PutUint64(buf[:], uint64(n))
		h.Write(buf[:])
	}
	var pk strings.Builder
	for _, fr := range s.frames {
		w(-1)
		h.Write([]byte(fr.ctx))
		fmt.Fprintf(&pk, "%p:%d:%d:%s;", fr.fn, fr.block.Index, fr.idx, fr.ctx)
		w(fr.block.Index)
		w(fr.idx)
		w(fr.mode)
		h.Write([]byte(fr.fn.String()))
		li := s.e.P.liveness(fr.fn)
		type kv struct{ k, v int }
		var kvs []kv
		for k, v := range fr.env {
			kvs = append(kvs, kv{li.num[k], v.id})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, x := range kvs {
			w(x.k)
			w(x.v)
		}
		w(-2)
		for _, d := range fr.defers {
			w(s.e.site(d.instr))
			if d.fn != nil {
				w(d.fn.id)
			}
			for _, a := range d.args {
				w(a.id)
			}
		}
		if fr.group != nil {
			w(fr.group.id)
		}
		if fr.result != nil {
			w(fr.result.id)
		}
	}
	w(-3)
	pairs := func(get func(func(a, b int))) {
		var ps [][2]int
		get(func(a, b int) { ps = append(ps, [2]int{a, b}) })
		sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
		for _, p := range ps {
			w(p[0])
			w(p[1])
		}
		w(-4)
	}
	pairs(func(f func(a, b int)) {
		for a, v := range s.mem {
			f(a.id, v.id)
		}
	})
	if s.e.KeepFact != nil {
		pairs(func(f func(a, b int)) {
			for a, v := range s.facts {
				if s.e.KeepFact(a) {
					f(a.id, b2i(v))
				}
			}
		})
	}
	pairs(func(f func(a, b int)) {
		for a := range s.marks {
			f(a.id, 1)
		}
	})
	var hs []string
	for a, v := range s.havoc {
		hs = append(hs, fmt.Sprintf("%d=%s", a.id, v))
	}
	sort.Strings(hs)
	h.Write([]byte(strings.Join(hs, ",")))
	// point key includes marks so that widening is per rule state
	var ms []int
	for a := range s.marks {
		ms = append(ms, a.id)
	}
	sort.Ints(ms)
	fmt.Fprint(&pk, ms)
	var k [20]byte
	copy(k[:], h.Sum(nil))
	return k, pk.String()
}
