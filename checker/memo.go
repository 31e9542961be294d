package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", checkC02, "distinct key sets have distinct digests (collision resistance of the hash used for the memo key)")

}

// syncMapOp: operations of a sync.Map and the position of their key.
func syncMapOp(name string) (op string, ok bool) {
	if strings.HasPrefix(name, "(*sync.Map).") {
		return strings.TrimPrefix(name, "(*sync.Map)."), true
	}
	return "", false
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" || t.Op == "iface" || t.Op == "makeinterface" {
		t = t.Args[0]
	}
	return t
}

// coversKeys: the memo key determines the contents of the caller's key set.
func coversKeys(k, keys *Term, fed func(h *Term) bool) bool {
	found := false
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t == keys {
			found = true
			return
		}
		if t.Op == "pure" && (t.Fn == "len" || t.Fn == "cap") {
			return
		}
		if t.Op == "bin" && t.Fn != "+" {
			return
		}
		if t.Op == "mapget" && t.Args[0] == keys || t.Op == "extract" && t.Fn == "2" && t.Args[0].Op == "inst" && t.Args[0].Fn == "next" && len(t.Args[0].Args) > 0 && t.Args[0].Args[0] == keys {
			found = true
			return
		}
		if t.Op == "extract" && t.Fn == "1" && t.Args[0].Op == "inst" && t.Args[0].Fn == "next" {
			return // names only
		}
		if isMethod(t, "Sum") || isMethod(t, "Sum64") || isMethod(t, "Sum32") || isMethod(t, "String") {
			if len(t.Args) > 0 && fed(t.Args[0]) {
				found = true
				return
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(k)
	return found
}

func checkC02(c *Ctx) {
	c.Rule("typestate from GetRepositoryIndexes: at every access to a memo of loaded indexes (sync.Map or map store, load, load-or-store) on a path where neither the ignore option nor an exact exemption of that index was tested true, the memo key determines the contents of the caller's keys; on the other paths the key differs from every such key")
	c.Rule("the key under which an index is stored is the key under which it is looked up")
	entry := c.Fn("pkg/apk.GetRepositoryIndexes")
	ign := optionField(c.P, c.Fn("pkg/apk.WithIgnoreSignatures"))
	exempt := optionField(c.P, c.Fn("pkg/apk.WithIgnoreSignatureForIndexes"))
	if entry == nil || ign == nil || exempt == nil {
		c.Undecided("anchor", "GetRepositoryIndexes and its options", "-", "not found")
		return
	}
	idxT := "pkg/apk.APKIndex"
	_ = idxT
	holdsIndex := func(t types.Type) bool { return typeHolds(t, modPath+"/pkg/apk.APKIndex", 0) }
	memoOps := func(n string) bool {
		if _, ok := syncMapOp(n); ok {
			return true
		}
		return n == "(*sync.Once).Do"
	}
	e := NewEngine(c.P)
	rs := c.P.reachSet(memoOps)
	loader := c.P.reachSet(func(n string) bool { return n == nFromArch || n == nParseIdx })
	e.Inline = func(f *ssa.Function) bool {
		if rs[f] {
			return true
		}
		if loader[f] {
			return false
		}
		return instrCount(f) <= 120
	}
	var keysT *Term
	fedSet := map[*Term]bool{}
	fed := func(h *Term) bool { return fedSet[stripConv(h)] }
	type acc struct {
		key  *Term
		in   ssa.Instruction
		what string
		tr   string
	}
	var required, free []acc
	covered := map[ssa.Instruction]bool{}
	access := func(s *State, in ssa.Instruction, op string, key *Term) {
		covered[in] = true
		site := op + " in " + enclosing(in)
		pos := c.P.instrPos(in)
		k := stripConv(key)
		exempted := s.HasMark("ignored")
		for _, m := range s.MarksOf("exempt") {
			u := m.Args[0]
			if k.contains(func(x *Term) bool { return x == u }) || sharesLeaf(k, u) {
				exempted = true
			}
		}
		if exempted {
			free = append(free, acc{k, in, site, s.TraceString()})
			return
		}
		decided := s.HasMark("ignfalse") && s.HasMark("exemptdone")
		if !decided {
			decided = noOptions(s, e, ign, exempt)
		}
		c.Check(decided, "policy-decided", site, pos, "the memo key is chosen without settling whether this index is exempt from verification, so an index loaded unverified is stored under the key of verified ones; path: "+s.TraceString())
		ok := coversKeys(k, keysT, fed)
		c.Check(ok, "key-carries-policy", site, pos, "an index that must be verified against the caller's keys is memoized under "+k.String()+", which does not determine those keys: an index accepted under another policy can be returned; path: "+s.TraceString())
		required = append(required, acc{k, in, site, ""})
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if val && isFieldLoad(t, ign) {
			s.Mark("ignored")
		}
		if !val && isFieldLoad(t, ign) {
			s.Mark("ignfalse")
		}
		if !val && t.Op == "bin" && t.Fn == "<" && t.Args[1].Op == "pure" && t.Args[1].Fn == "len" && isFieldLoad(t.Args[1].Args[0], exempt) {
			s.Mark("exemptdone") // every entry was looked at
		}
		if a, b, ok := eqPair(t, val); ok {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				hole := func(x *Term) bool {
					return x.Op == "load" && x.Args[0].Op == "iaddr" && isFieldLoad(x.Args[0].Args[0], exempt)
				}
				if p[0].contains(hole) && !p[1].contains(hole) && sameShape(p[0], p[1], hole) {
					s.Mark("exempt", p[1])
				}
			}
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if op, ok := syncMapOp(ev.Name); ok {
			if op == "Range" || op == "Clear" {
				c.Undecided("key-carries-policy", op+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "memo access without a key")
				return
			}
			access(s, ev.Instr, "sync.Map."+op, ev.Args[1])
			if op == "Store" || op == "Load" {
				for _, m := range s.MarksOf("memokey") {
					if stripConv(ev.Args[1]) != m.Args[0] && sharesLeaf(m.Args[0], ev.Args[1]) {
						// keys for the same resource on one path agree
						c.Check(false, "one-key", "sync.Map."+op+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the index is looked up under "+stripConv(ev.Args[1]).String()+" but stored under "+m.Args[0].String()+"; path: "+s.TraceString())
					}
				}
				s.Mark("memokey", stripConv(ev.Args[1]))
				c.OK("one-key", "sync.Map."+op+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "")
			}
			return
		}
		if strings.HasPrefix(ev.Name, "slices.") && len(ev.Args) > 0 && isFieldLoad(ev.Args[0], exempt) {
			s.Mark("exemptdone")
		}
		// flows into a digest
		for i, h := range ev.Args {
			if h.Op != "inst" && h.Op != "alloc" && h.Op != "conv" && h.Op != "iface" {
				continue
			}
			for j, a := range append(append([]*Term(nil), ev.Args...), variadics(s, ev.Args)...) {
				if j == i {
					continue
				}
				a = stripConv(a)
				if a.Op == "mapget" && a.Args[0] == keysT || a.Op == "extract" && a.Fn == "2" && a.Args[0].Op == "inst" && a.Args[0].Fn == "next" && len(a.Args[0].Args) > 0 && a.Args[0].Args[0] == keysT {
					fedSet[stripConv(h)] = true
				}
			}
		}
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if ok && holdsIndex(mu.Value.Type()) {
			access(s, in, "map store", k)
		}
	}
	e.Run(entry, func(s *State) {
		for _, p := range entry.Params {
			if m, ok := p.Type().Underlying().(*types.Map); ok && types.TypeString(m.Elem(), nil) == "[]byte" {
				keysT = s.Val(p)
			}
		}
	})
	c.Engine("GetRepositoryIndexes", e)
	if keysT == nil {
		c.Undecided("anchor", "keys parameter of GetRepositoryIndexes", c.P.pos(entry.Pos()), "not found")
		return
	}
	for _, f := range free {
		clash := false
		for _, r := range required {
			clash = clash || f.key == r.key
		}
		c.Check(!clash, "policies-apart", f.what, c.P.instrPos(f.in), "an index loaded without verification shares the memo key "+f.key.String()+" with verified ones; path: "+f.tr)
	}
	// every memo of indexes was seen
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			op, ok := syncMapOp(staticName(in))
			if !ok || covered[in] || (op != "Store" && op != "LoadOrStore" && op != "Swap") {
				continue
			}
			if mi, ok := in.Common().Args[2].(*ssa.MakeInterface); ok && holdsIndex(mi.X.Type()) {
				c.Undecided("key-carries-policy", "sync.Map."+op+" in "+shortFn(f.String()), c.P.instrPos(in), "a memo of indexes not reached from GetRepositoryIndexes")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && !covered[in] && holdsIndex(mu.Value.Type()) && globalMap(mu.Map) {
					c.Undecided("key-carries-policy", "map store in "+shortFn(f.String()), c.P.instrPos(in), "a memo of indexes not reached from GetRepositoryIndexes")
				}
				// a package-level variable holding an index is a memo without a key
				if st, ok := in.(*ssa.Store); ok && holdsIndex(st.Val.Type()) {
					if _, ok := st.Addr.(*ssa.Global); ok && f.Name() != "init" {
						c.Bad("key-carries-policy", "package variable set in "+shortFn(f.String()), c.P.instrPos(in), "an index is kept in a package-level variable without any key")
					}
				}
			}
		}
	}
	c.AtLeast("key-carries-policy", 1, "memo accesses for verified indexes")
	c.AtLeast("policies-apart", 1, "memo accesses for unverified indexes")
}

// noOptions: the options in force are still the untouched zero values, i.e. nothing is exempt.
func noOptions(s *State, e *Engine, ign, exempt *types.Var) bool {
	for a := range s.mem {
		o := addrRoot(a)
		if o.Op != "alloc" {
			continue
		}
		pt, ok := o.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n := namedOf(pt.Elem())
		if n == nil || !fieldOwner(n, ign) {
			continue
		}
		i := s.Load(e.faddr(o, ign), ign.Type())
		x := s.Load(e.faddr(o, exempt), exempt.Type())
		if v, ok := i.isBoolConst(); ok && !v && s.IsNil(x) == 1 {
			return true
		}
	}
	return false
}

// globalMap: the map is reached from a package-level variable or a struct field.
func globalMap(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		switch u.X.(type) {
		case *ssa.Global, *ssa.FieldAddr:
			return true
		}
	}
	return false
}

func variadics(s *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if a.Op == "slice" {
			out = append(out, s.expandVariadic(a)...)
		}
	}
	return out
}

// sharesLeaf: some non-constant leaf of u occurs in k.
func sharesLeaf(k, u *Term) bool {
	leaves := map[*Term]bool{}
	u.walk(func(x *Term) bool {
		if len(x.Args) == 0 && (x.Op == "param" || x.Op == "inst") {
			leaves[x] = true
		}
		return true
	})
	return k.contains(func(x *Term) bool { return leaves[x] })
}

func typeHolds(t types.Type, full string, d int) bool {
	if d > 4 {
		return false
	}
	if isNamed(t, full) {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return typeHolds(x.Elem(), full, d+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if typeHolds(x.Field(i).Type(), full, d+1) {
				return true
			}
		}
	case *types.Slice:
		return typeHolds(x.Elem(), full, d+1)
	}
	return false
}
