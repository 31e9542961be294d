package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", checkC23, "sync.Mutex provides mutual exclusion", "a node is not shared before it is stored in a directory")
}

func isMutex(t types.Type) (rw, ok bool) {
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false, false
	}
	return n.Obj().Name() == "RWMutex", n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func checkC23(c *Ctx) {
	c.Rule("lockset: every access to the contents (or replacement) of a map field of an in-memory node happens on a path holding that same node's mutex (exclusively for writes), except on a node allocated on that path")
	c.Rule("atomicity: an entry inserted after a lookup of the same name is inserted in the critical section of that lookup")
	c.Rule("lock typestate: Lock only while no node lock is held, Unlock only of a held lock, no lock held when an exported operation returns, and no call that may lock a node while one is held")
	ctor := c.Fn("pkg/fs.NewMemFS")
	if ctor == nil {
		return
	}
	pkg := ctor.Pkg.Pkg
	// node types reachable from the returned implementation
	prot := map[*types.Var]bool{}
	mus := map[*types.Var]bool{}
	implTypes := map[*types.Named]bool{}
	var reach func(t types.Type)
	reach = func(t types.Type) {
		n := namedOf(t)
		if n == nil || implTypes[n] || n.Obj().Pkg() != pkg {
			if m, ok := t.Underlying().(*types.Map); ok && n == nil {
				reach(m.Elem())
			}
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		implTypes[n] = true
		has := false
		var maps []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := isMutex(f.Type()); ok {
				has = true
				mus[f] = true
			}
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				maps = append(maps, f)
			}
			reach(f.Type())
		}
		if has {
			for _, f := range maps {
				prot[f] = true
			}
		}
	}
	if n := implType(ctor); n != nil {
		reach(n)
	}
	if len(prot) == 0 || len(mus) == 0 {
		c.Undecided("anchor", "node type", c.P.pos(ctor.Pos()), "no node type with a mutex and map fields is reachable from NewMemFS")
		return
	}
	lockName := func(n string) (lock, read, ok bool) {
		switch n {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return true, false, true
		case "(*sync.RWMutex).RLock":
			return true, true, true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return false, false, true
		case "(*sync.RWMutex).RUnlock":
			return false, true, true
		}
		return false, false, false
	}
	// functions that touch protected state or node locks
	touch := map[*ssa.Function]bool{}
	locks := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					fv := fieldVar(fa.X.Type(), fa.Field)
					if prot[fv] || mus[fv] {
						touch[f] = true
					}
					if mus[fv] {
						locks[f] = true
					}
				}
			}
		}
	}
	close := func(set map[*ssa.Function]bool) map[*ssa.Function]bool {
		r := map[*ssa.Function]bool{}
		for f := range set {
			r[f] = true
		}
		for ch := true; ch; {
			ch = false
			for _, f := range c.P.Funcs {
				if r[f] || f.Pkg == nil || f.Pkg.Pkg != pkg {
					continue
				}
				for _, g := range c.P.callees(f) {
					if r[g] {
						r[f] = true
						ch = true
						break
					}
				}
			}
		}
		return r
	}
	reachTouch, reachLock := close(touch), close(locks)
	covered := map[ssa.Instruction]bool{}
	protBase := func(t *Term) (*Term, *types.Var) {
		for f := range prot {
			if b := fieldBase(t, f); b != nil {
				return b, f
			}
		}
		return nil, nil
	}
	selfContained := map[*ssa.Function]bool{}
	run := func(entry *ssa.Function, dry bool) (clean bool) {
		clean = true
		check := func(ok bool, rule, construct, pos, detail string) {
			if dry {
				clean = clean && ok
				return
			}
			c.Check(ok, rule, construct, pos, detail)
		}
		e := NewEngine(c.P)
		e.Inline = func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg == pkg && (f == entry || !selfContained[f]) && (reachTouch[f] || instrCount(f) <= 30)
		}
		held := func(s *State, base *Term, write bool) bool {
			if base.Op == "alloc" && !base.sum {
				return true
			}
			for m := range mus {
				if s.HasMark("held", base, e.faddr(base, m)) {
					return true
				}
				if !write && s.HasMark("rheld", base, e.faddr(base, m)) {
					return true
				}
			}
			return false
		}
		access := func(s *State, base *Term, fv *types.Var, write bool, in ssa.Instruction) {
			kind := "read"
			if write {
				kind = "write"
			}
			site := fmt.Sprintf("%s of %s in %s", kind, fv.Name(), enclosing(in))
			if !dry {
				covered[in] = true
			}
			check(held(s, base, write), "guarded-access", site, c.P.instrPos(in), "accessed without holding the lock of "+base.String()+"; entry "+entry.Name()+"; path: "+s.TraceString())
		}
		e.OnInstr = func(s *State, in ssa.Instruction) {
			mapOp := func(m ssa.Value, write bool) {
				if b, fv := protBase(s.Val(m)); b != nil {
					access(s, b, fv, write, in)
				}
			}
			switch x := in.(type) {
			case *ssa.Lookup:
				mapOp(x.X, false)
				if b, fv := protBase(s.Val(x.X)); b != nil && x.CommaOk {
					for _, tag := range []string{"looked", "stale"} {
						for _, m := range s.MarksOf(tag) {
							s.Unmark(tag, m.Args...)
						}
					}
					s.Mark("looked", b, e.faddr(b, fv), s.Val(x.Index))
				}
			case *ssa.Range:
				mapOp(x.X, false)
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					mapOp(r.X, false)
				}
			case *ssa.MapUpdate:
				mapOp(x.Map, true)
				if b, fv := protBase(s.Val(x.Map)); b != nil {
					fa, k := e.faddr(b, fv), s.Val(x.Key)
					if s.HasMark("looked", b, fa, k) || s.HasMark("stale", b, fa, k) {
						check(s.HasMark("looked", b, fa, k), "check-then-insert", fv.Name()+" in "+enclosing(in), c.P.instrPos(in), "inserted on the strength of a lookup made in an earlier critical section: another insertion can have happened in between; path: "+s.TraceString())
					}
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && prot[fieldVar(fa.X.Type(), fa.Field)] {
					access(s, s.Val(fa.X), fieldVar(fa.X.Type(), fa.Field), false, in)
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && prot[fieldVar(fa.X.Type(), fa.Field)] {
					access(s, s.Val(fa.X), fieldVar(fa.X.Type(), fa.Field), true, in)
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					for _, a := range x.Common().Args {
						mapOp(a, b.Name() == "delete" || b.Name() == "clear")
					}
				}
			}
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			lock, read, ok := lockName(ev.Name)
			tag := "held"
			if read {
				tag = "rheld"
			}
			pos := c.P.instrPos(ev.Instr)
			if !ok {
				for _, a := range ev.Args {
					if b, fv := protBase(a); b != nil && !ev.WillInline && ev.Static != nil && !strings.HasPrefix(ev.Name, "builtin.") {
						access(s, b, fv, true, ev.Instr)
					}
				}
				if ev.Static != nil && reachLock[ev.Static] && !ev.WillInline {
					n := len(s.MarksOf("held")) + len(s.MarksOf("rheld"))
					check(n == 0, "no-nested-locking", "call of "+shortFn(ev.Name)+" in "+enclosing(ev.Instr), pos, "a function that locks nodes is called while holding a node's lock")
				}
				return
			}
			a := ev.Args[0]
			isNode := false
			if a.Op == "faddr" {
				fv, _ := a.Obj.(*types.Var)
				isNode = mus[fv]
			}
			if !isNode {
				return
			}
			if !dry {
				covered[ev.Instr] = true
			}
			base := a.Args[0]
			site := shortFn(ev.Name) + " in " + enclosing(ev.Instr)
			if lock {
				n := len(s.MarksOf("held")) + len(s.MarksOf("rheld"))
				check(n == 0, "no-nested-locking", site, pos, "a node's lock is acquired while a node's lock is already held (the two may be the same node); entry "+entry.Name()+"; path: "+s.TraceString())
				s.Mark(tag, base, a)
				return
			}
			check(s.HasMark(tag, base, a), "unlock-of-held", site, pos, "unlocks a lock that is not held on this path; path: "+s.TraceString())
			s.Unmark(tag, base, a)
			for _, m := range s.MarksOf("looked") {
				if m.Args[0] == base {
					s.Unmark("looked", m.Args...)
					s.Mark("stale", m.Args...)
				}
			}
		}
		e.PruneMark = func(tag string) bool { return tag == "looked" || tag == "stale" }
		e.KeepSumMark = func(string) bool { return true }
		e.OnEnd = func(s *State, rets []*Term) {
			n := len(s.MarksOf("held")) + len(s.MarksOf("rheld"))
			check(n == 0, "released-on-return", entry.Name(), c.P.pos(entry.Pos()), "returns while still holding a node's lock; path: "+s.TraceString())
		}
		e.Run(entry, nil)
		if dry {
			return clean && len(e.Undecided) == 0
		}
		c.Engine(shortFn(entry.String()), e)
		return clean
	}
	// Helpers that take and release locks on their own are analysed once, as
	// operations of their own, and may then only be called with no lock held;
	// every other helper is analysed inside its callers.
	var helpers []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg == pkg && reachLock[f] && f.Synthetic == "" && f.Parent() == nil && len(f.Blocks) > 0 {
			helpers = append(helpers, f)
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range helpers {
			if !selfContained[f] && (instrCount(f) > 60 || c.P.recursive(f)) && run(f, true) {
				selfContained[f] = true
				ch = true
			}
		}
	}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != pkg || !reachTouch[f] || f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		if selfContained[f] {
			run(f, false)
			continue
		}
		r := f.Signature.Recv()
		if r == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n := namedOf(r.Type())
		st, _ := n.Underlying().(*types.Struct)
		mine := implTypes[n]
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if m := namedOf(st.Field(i).Type()); m != nil && implTypes[m] {
				mine = true
			}
		}
		if mine {
			run(f, false)
		}
	}
	// completeness: every access to protected state is on an analysed path
	for f := range touch {
		if f == ctor || outermost(f) == ctor {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var fa *ssa.FieldAddr
				switch x := in.(type) {
				case *ssa.UnOp:
					fa, _ = x.X.(*ssa.FieldAddr)
				case *ssa.Store:
					fa, _ = x.Addr.(*ssa.FieldAddr)
				}
				if fa == nil || !prot[fieldVar(fa.X.Type(), fa.Field)] {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh || covered[in] {
					continue
				}
				if len(c.P.callersOf(f)) == 0 && (f.Object() == nil || !f.Object().Exported()) && f.Parent() == nil {
					continue // dead
				}
				c.Undecided("access-analysed", fieldVar(fa.X.Type(), fa.Field).Name()+" in "+shortFn(f.String()), c.P.instrPos(in), "not reached from any analysed operation")
			}
		}
	}
	c.AtLeast("guarded-access", 2, "accesses to node maps")
	c.AtLeast("no-nested-locking", 1, "lock acquisitions")
	c.AtLeast("released-on-return", 5, "exported operations")
}
