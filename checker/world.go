package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", checkC15, "GetInstalled lists the installed database (C13, C16)")
}

// crossScan decides, along a path, that every element of one collection was compared with every element of another.
// It follows nested index loops in either order, membership helpers of package slices and sets built from one side.
type crossScan struct {
	e     *Engine
	side  func(s *State, coll *Term) int // 1, 2: the collection; 0: neither
	elem  func(t *Term) int              // 1, 2: t is the compared part of an element of that collection
	found func(s *State, why string)     // equal elements on this path
	one   bool                           // side 1 is a single element
}

func (x *crossScan) name(k int) string { return "scan" + itoa(k) }

// set: flags of a side; in (inside an iteration), ok (this iteration did its work), bad (an iteration was left without), inner
func (x *crossScan) mark(s *State, k int, f string) { s.Mark(x.name(k) + f) }
func (x *crossScan) has(s *State, k int, f string) bool {
	return s.HasMark(x.name(k) + f)
}
func (x *crossScan) clear(s *State, k int, f ...string) {
	for _, n := range f {
		s.Unmark(x.name(k) + n)
	}
}

// innermost: the side whose loop was entered last and not left.
func (x *crossScan) innermost(s *State) int {
	for k := 1; k <= 2; k++ {
		if x.has(s, k, "in") && x.has(s, k, "top") {
			return k
		}
	}
	return 0
}

// covered: the current iteration of the innermost loop, if any, did its part for the whole other side.
func (x *crossScan) covered(s *State) {
	if k := x.innermost(s); k != 0 {
		x.mark(s, k, "ok")
		x.mark(s, k, "full")
	} else if x.one {
		s.Mark("scancomplete")
	}
}

// reset: a new single element is looked at.
func (x *crossScan) reset(s *State) {
	x.clear(s, 2, "in", "top", "ok", "full", "bad", "partial", "set")
	s.Unmark("scancomplete")
}

// exhausted: nothing of one side is left.
func (x *crossScan) exhausted(s *State) {
	if x.innermost(s) != 0 {
		x.covered(s)
	} else {
		s.Mark("scancomplete")
	}
}

func (x *crossScan) complete(s *State) bool { return s.HasMark("scancomplete") }

func (x *crossScan) loopFact(s *State, coll *Term, enter bool) {
	k := x.side(s, coll)
	if k == 0 {
		return
	}
	o := 3 - k
	if x.has(s, k, "in") {
		if !x.has(s, k, "ok") {
			x.mark(s, k, "bad")
		}
		if !x.has(s, k, "full") {
			x.mark(s, k, "partial") // compared with single elements of the other side only
		}
	}
	if enter {
		if !x.has(s, k, "in") {
			x.clear(s, k, "bad", "partial", "set")
			if x.has(s, o, "in") {
				x.clear(s, o, "top")
			}
		}
		x.mark(s, k, "in")
		x.mark(s, k, "top")
		x.clear(s, k, "ok", "full")
		return
	}
	bad := x.has(s, k, "bad") || x.has(s, k, "partial") && !x.has(s, o, "in") && !x.one
	collected := x.has(s, k, "set")
	x.clear(s, k, "in", "top", "ok", "bad", "full", "partial")
	if x.has(s, o, "in") {
		x.mark(s, o, "top")
	}
	if !bad && !collected {
		x.exhausted(s)
	}
}

func (x *crossScan) fact(s *State, t *Term, val bool) {
	if t.Op == "bin" && t.Fn == "<" && t.Args[1].Op == "pure" && t.Args[1].Fn == "len" {
		if fr := s.top(); inLoop(fr.block) {
			x.loopFact(s, t.Args[1].Args[0], val)
		}
	}
	if c := emptyFact(t, val); c != nil && x.side(s, c) != 0 && !inLoop(s.top().block) {
		x.exhausted(s)
	}
	pair := func(a, b *Term) bool {
		k, l := x.elem(a), x.elem(b)
		return k != 0 && l == 3-k
	}
	if a, b, ok := eqPair(t, val); ok && pair(a, b) {
		x.found(s, "equal elements")
	}
	if a, b, ok := neqPair(t, val); ok && pair(a, b) {
		if k := x.innermost(s); k != 0 {
			x.mark(s, k, "ok")
		}
	}
	if t.isCall("slices.Contains") && len(t.Args) == 2 {
		k, l := x.side(s, t.Args[0]), x.elem(t.Args[1])
		if k != 0 && l == 3-k {
			if val {
				x.found(s, "membership")
			} else {
				x.covered(s)
			}
		}
	}
	if t.Op == "mapok" || t.Op == "mapget" {
		for _, m := range s.MarksOf("scanset") {
			if m.Args[0] != t.Args[0] {
				continue
			}
			n, _ := m.Args[1].intConst()
			if l := x.elem(t.Args[1]); l == 3-int(n) {
				if val {
					x.found(s, "membership in a set")
				} else if !x.has(s, int(n), "in") && !s.HasMark("scansetbad", t.Args[0]) {
					x.covered(s)
				}
			}
		}
		// a set no loop has put anything into: only when its side was found empty
		if !val && x.elem(t.Args[1]) != 0 && t.Args[0].isCall("makemap") && s.HasMark("scanemptyset") {
			x.covered(s)
		}
	}
}

func (x *crossScan) mapSet(s *State, m, k *Term) {
	if n := x.elem(k); n != 0 {
		s.Mark("scanset", m, x.e.Int(int64(n)))
		if x.innermost(s) == n {
			x.mark(s, n, "ok")
			x.mark(s, n, "set")
		}
	} else {
		s.Mark("scansetbad", m)
	}
}

// inLoop: the block can be reached again from itself.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// none: no element of the slice satisfied the predicate.
func (x *crossScan) none(s *State, slice, pred *Term) {
	k := x.side(s, slice)
	if k == 0 || pred.Op != "closure" {
		return
	}
	other, elem := closureEq(s, pred)
	if other != nil && elem != nil && x.elem(other) == 3-k {
		// the element side: what elem selects from a fresh element
		probe := x.e.T.mk("load", "", elem.Params[0].Type(), nil, x.e.T.mk("iaddr", "", types.NewPointer(elem.Params[0].Type()), nil, slice, x.e.Int(0)))
		if sel := closureSel(x.e, elem, probe); sel != nil && x.elem(sel) == k {
			x.covered(s)
		}
	}
}

// closureEq: the predicate compares a part of its argument with a captured value; that value, and the function.
func closureEq(s *State, clo *Term) (other *Term, f *ssa.Function) {
	f, _ = clo.Obj.(*ssa.Function)
	if f == nil || len(f.Blocks) != 1 || len(f.Params) != 1 {
		return nil, nil
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil, nil
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return nil, nil
	}
	var val func(v ssa.Value) *Term
	val = func(v ssa.Value) *Term {
		switch y := v.(type) {
		case *ssa.FreeVar:
			for i, fv := range f.FreeVars {
				if fv == y && i < len(clo.Args) {
					return clo.Args[i]
				}
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if a := val(y.X); a != nil {
					return s.Load(a, y.Type())
				}
			}
		case *ssa.FieldAddr:
			if a := val(y.X); a != nil {
				return s.e.faddr(a, fieldVar(y.X.Type(), y.Field))
			}
		}
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if o := val(v); o != nil {
			return o, f
		}
	}
	return nil, nil
}

// closureSel: the part of the argument the predicate compares.
func closureSel(e *Engine, f *ssa.Function, arg *Term) *Term {
	ret := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	b := ret.Results[0].(*ssa.BinOp)
	var val func(v ssa.Value) *Term
	val = func(v ssa.Value) *Term {
		switch y := v.(type) {
		case *ssa.Parameter:
			return arg
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if a := val(y.X); a != nil {
					return e.T.mk("load", "", y.Type(), nil, a)
				}
			}
		case *ssa.FieldAddr:
			if a := val(y.X); a != nil {
				return e.faddr(a, fieldVar(y.X.Type(), y.Field))
			}
		}
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if o := val(v); o != nil {
			return o
		}
	}
	return nil
}

func checkC15(c *Ctx) {
	c.Rule("on every path of FixateWorld that reaches a function unpacking packages: resolving succeeded (indexes, world and dependency resolution returned no error), the installed database was read without error, every computed conflict was compared with the name of every installed package, and none was equal")
	entry := c.Fn("(*pkg/apk.APK).FixateWorld")
	install := c.P.rel("(*pkg/apk.APK).InstallPackages")
	nameF := namedField(c.P, "pkg/apk", "Package", "Name")
	hdrName := stdField(c.P, "archive/tar", "Header", "Name")
	if entry == nil || install == nil || nameF == nil || hdrName == nil {
		c.Undecided("anchor", "InstallPackages", "?", "InstallPackages, Package.Name or tar.Header.Name not found")
		return
	}
	const pk = modPath + "/pkg/apk."
	getDeps := "(*" + pk + "PkgResolver).GetPackagesWithDependencies"
	getInst := "(*" + pk + "APK).GetInstalled"
	must := map[string]string{getDeps: "resolving dependencies", getInst: "reading the installed database", "(*" + pk + "APK).GetWorld": "reading the world", "(*" + pk + "APK).GetRepositoryIndexes": "fetching the indexes"}
	// what unpacks: InstallPackages, and anything below it that creates files from archive entries
	creates := c.P.staticReach(c.P.fileCreators(hdrName))
	aboveInstall := c.P.staticReach(map[*ssa.Function]bool{install: true})
	if !creates[install] {
		c.Undecided("anchor", "InstallPackages", "?", "InstallPackages does not reach a function that creates files from archive entries")
		return
	}
	sink := func(f *ssa.Function) bool {
		return f == install || f != nil && creates[f] && !aboveInstall[f]
	}
	e := NewEngine(c.P)
	e.KeepSumMark = func(string) bool { return true }
	e.Inline = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Pkg.Pkg != entry.Pkg.Pkg || sink(f) {
			return false
		}
		_, b := must[f.String()]
		return !b
	}
	isRes := func(t *Term, fn string, i string) bool {
		return t.Op == "extract" && t.Fn == i && t.Args[0].isCall(fn)
	}
	elemOf := func(t *Term, fn, i string) bool {
		return t.Op == "load" && t.Args[0].Op == "iaddr" && isRes(t.Args[0].Args[0], fn, i)
	}
	x := &crossScan{e: e}
	x.side = func(s *State, coll *Term) int {
		if isRes(coll, getDeps, "1") {
			return 1
		}
		if isRes(coll, getInst, "0") {
			if s.IsNil(e.Extract(coll.Args[0], 1, nil)) != 1 {
				return 0
			}
			return 2
		}
		return 0
	}
	x.elem = func(t *Term) int {
		if elemOf(t, getDeps, "1") {
			return 1
		}
		// names of installed packages (through the embedded Package)
		if b := fieldBase(t, nameF); b != nil {
			if b.contains(func(y *Term) bool { return elemOf(y, getInst, "0") }) {
				return 2
			}
		}
		return 0
	}
	x.found = func(s *State, why string) { s.Mark("conflict") }
	e.OnNone = x.none
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) { x.mapSet(s, m, k) }
	e.OnFact = func(s *State, t *Term, val bool) {
		x.fact(s, t, val)
		if y := eqNil(t); y != nil && val {
			s.Unmark("unchecked", y)
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		if ev.Final == nil {
			return
		}
		if _, ok := must[ev.Name]; ok {
			sig := ev.Static.Signature
			n := sig.Results().Len() - 1
			er := e.Extract(ev.Final, n, nil)
			s.Mark("unchecked", er)
			if ev.Name == getDeps {
				s.Mark("resolved")
			}
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if !sink(ev.Static) {
			return
		}
		site := shortFn(ev.Static.String()) + " called in " + enclosing(ev.Instr)
		pos := c.P.instrPos(ev.Instr)
		c.Check(s.HasMark("resolved"), "resolved-before-install", site, pos, "packages are unpacked without the world having been resolved; path: "+s.TraceString())
		for _, m := range s.MarksOf("unchecked") {
			er := m.Args[0]
			c.Bad("errors-stop-install", site+": "+must[er.Args[0].Fn], pos, "packages are unpacked although "+must[er.Args[0].Fn]+" may have failed; path: "+s.TraceString())
		}
		if len(s.MarksOf("unchecked")) == 0 {
			c.OK("errors-stop-install", site, pos, "no error outstanding")
		}
		c.Check(x.complete(s), "conflicts-checked", site, pos, "packages are unpacked before every computed conflict was compared with every installed package; path: "+s.TraceString())
		c.Check(!s.HasMark("conflict"), "conflict-stops-install", site, pos, "packages are unpacked although a conflicting package is installed; path: "+s.TraceString())
	}
	e.Run(entry, nil)
	c.Engine(entry.Name(), e)
	c.AtLeast("conflicts-checked", 1, "calls that unpack packages")
}

// fileCreators: functions that create or remove files under names taken from archive headers.
func (p *Prog) fileCreators(nameF *types.Var) map[*ssa.Function]bool {
	named := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, in := range callsIn(f) {
			n := staticName(in)
			if in.Common().IsInvoke() {
				n = in.Common().Method.FullName()
			}
			switch fsOp(n) {
			case "OpenFile", "Create", "WriteFile", "Remove":
				args := in.Common().Args
				if !in.Common().IsInvoke() {
					args = args[1:]
				}
				if len(args) > 0 && usesField(args[0], nameF, 0) {
					named[f] = true
				}
			}
		}
	}
	return named
}
