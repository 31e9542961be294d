package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// A Term is a hash-consed symbolic value number.
type Term struct {
	Op    string // const nil param alloc gaddr faddr iaddr load inst pure extract bin un field closure func aggr conv slice mapget mapok mapaddr tassert tassertok index stale builtin
	Fn    string // function name (inst, pure), field name, const text, operator, site label
	Args  []*Term
	Typ   types.Type
	Obj   any // *ssa.Function for closure/func; *types.Func for callee
	id    int
	leafs []int // label ids of instance leaves (sorted)
	label int   // own label id (instances)
	sum   bool  // stands for values of several loop iterations
}

type TermTable struct {
	m          map[string]*Term
	all        []*Term
	labels     map[string]int
	labelNames []string
	stales     map[int]*Term
}

func newTermTable() *TermTable { return &TermTable{m: map[string]*Term{}} }

func (tt *TermTable) mk(op, fn string, typ types.Type, obj any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(fn)
	if op == "conv" || op == "tassert" || op == "tassertok" {
		sb.WriteByte('|')
		sb.WriteString(types.TypeString(typ, nil))
	}
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{Op: op, Fn: fn, Args: args, Typ: typ, Obj: obj, id: len(tt.all)}
	set := map[int]bool{}
	for _, a := range args {
		for _, l := range a.leafs {
			set[l] = true
		}
	}
	for l := range set {
		t.leafs = append(t.leafs, l)
	}
	for _, a := range args {
		t.sum = t.sum || a.sum
	}
	sort.Ints(t.leafs)
	tt.m[k] = t
	tt.all = append(tt.all, t)
	return t
}

func (t *Term) hasLeaf(id int) bool {
	i := sort.SearchInts(t.leafs, id)
	return i < len(t.leafs) && t.leafs[i] == id
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	as := func(from int) string {
		var ss []string
		for _, a := range t.Args[from:] {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, ", ")
	}
	short := func(s string) string {
		if i := strings.LastIndex(s, "/"); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch t.Op {
	case "const":
		return t.Fn
	case "nil":
		return "nil"
	case "param", "freevar":
		return t.Fn
	case "alloc":
		return "&" + t.Fn
	case "gaddr":
		return "&" + short(t.Fn)
	case "faddr":
		return t.Args[0].str(d-1) + "." + t.Fn
	case "iaddr", "index":
		return t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	case "load":
		return "*" + t.Args[0].str(d-1)
	case "field":
		return t.Args[0].str(d-1) + "." + t.Fn
	case "inst":
		return short(t.Fn) + "(" + as(0) + ")"
	case "pure":
		return short(t.Fn) + "(" + as(0) + ")"
	case "extract":
		return t.Args[0].str(d-1) + "#" + t.Fn
	case "bin":
		return "(" + t.Args[0].str(d-1) + t.Fn + t.Args[1].str(d-1) + ")"
	}
	return t.Op + ":" + short(t.Fn) + "(" + as(0) + ")"
}

// walk visits t and subterms; f returns false to stop descending.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(pred func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

func (t *Term) isNil() bool { return t.Op == "nil" }
func (t *Term) isBoolConst() (bool, bool) {
	if t.Op == "const" && t.Fn == "true" {
		return true, true
	}
	if t.Op == "const" && t.Fn == "false" {
		return false, true
	}
	return false, false
}
func (t *Term) intConst() (int64, bool) {
	if t.Op == "const" {
		if c, ok := t.Obj.(constant.Value); ok && c.Kind() == constant.Int {
			return constant.Int64Val(c)
		}
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t.Op == "const" {
		if c, ok := t.Obj.(constant.Value); ok && c.Kind() == constant.String {
			return constant.StringVal(c), true
		}
	}
	return "", false
}

// isCall reports whether t is the result term of a call to the named function
// ("pkgpath.Func" or "(*pkgpath.T).M"), pure or opaque.
func (t *Term) isCall(name string) bool {
	return (t.Op == "inst" || t.Op == "pure") && t.Fn == name
}
