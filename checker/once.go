package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", checkC27, "sync.Once runs its function at most once and blocks other callers until it has returned; sync.Map is linearizable")
}

// persistent: every value that can reach v is a package-level variable (its address or contents) of the module.
func (p *Prog) persistent(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.UnOp:
		return p.persistent(x.X, seen)
	case *ssa.FieldAddr:
		return p.persistent(x.X, seen)
	case *ssa.Field:
		return p.persistent(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.persistent(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return p.persistent(x.X, seen)
	case *ssa.FreeVar:
		f := x.Parent()
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			found := false
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						found = true
						if !p.persistent(mc.Bindings[i], seen) {
							return false
						}
					}
				}
			}
			return found
		}
	case *ssa.Alloc:
		// a local variable cell (captured parameter): what is stored in it
		if _, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); !ok {
			return false
		}
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				n++
				if !p.persistent(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		n := 0
		for _, g := range p.Funcs {
			for _, in := range callsIn(g) {
				if in.Common().StaticCallee() == f {
					n++
					if !p.persistent(in.Common().Args[idx], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	case *ssa.Call:
		// an accessor returning the shared object
		g := x.Call.StaticCallee()
		if g == nil || !p.inModule(g) {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				n++
				if !p.persistent(r.Results[0], seen) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// keyCovers: k determines the resource (a URL taken from one of the fetch's arguments, or one of its string arguments).
func keyCovers(k *Term, fetchArgs []*Term) bool {
	args := map[*Term]bool{}
	for _, a := range fetchArgs {
		args[stripConv(a)] = true
	}
	isArg := func(x *Term) bool {
		x = stripConv(x)
		return args[x] || x.contains(func(y *Term) bool { return args[y] && y.Op == "param" })
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		t = stripConv(t)
		if args[t] {
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		}
		if (isMethod(t, "URL") || isMethod(t, "String")) && len(t.Args) > 0 && isArg(t.Args[0]) {
			return true
		}
		switch {
		case t.Op == "bin" && t.Fn == "+", t.isCall("fmt.Sprintf"), t.isCall("fmt.Sprint"), t.isCall("strings.Join"):
			for _, a := range t.Args {
				if walk(a) {
					return true
				}
			}
		case t.Op == "struct":
			for _, a := range t.Args {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	return walk(k)
}

func checkC27(c *Ctx) {
	c.Rule("every fetch made by a memoizing function happens inside the function given to the once object returned by LoadOrStore for the key, or under the memo's lock after a recorded modification time was found missing or outdated, or after the stored outcome was found absent")
	c.Rule("the once function stores, under the same key and in the same map that is then loaded, a value carrying the results and the error of every fetch it made; it may return without storing only after a successful direct request, and absence is then served by a request rather than a panic")
	c.Rule("what the memoizing function returns after the lookup is taken from the loaded value, including its error")
	c.Rule("the key determines the resource that is fetched; entries are never deleted; the memo is a package-level object; the memoized fetch is bypassed only where a configuration field says the memo does not apply")
	const onceDo = "(*sync.Once).Do"
	expensiveName := func(n string) bool {
		switch n {
		case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Head", "(net/http.RoundTripper).RoundTrip":
			return true
		}
		return strings.HasSuffix(n, ".ExpandApk") || strings.HasSuffix(n, ".IndexFromArchive")
	}
	rs := c.P.reachSet(expensiveName)
	memo := func(f *ssa.Function) bool {
		for _, in := range callsIn(f) {
			n := staticName(in)
			if _, ok := syncMapOp(n); ok || n == onceDo {
				return true
			}
		}
		return false
	}
	entries := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var addEntry func(f *ssa.Function, d int)
	addEntry = func(f *ssa.Function, d int) {
		f = outermost(f)
		hasFn := false
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				hasFn = true
			}
		}
		if d < 3 && (hasFn || f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "sync.Once")) {
			for _, g := range c.P.callersOf(f) {
				addEntry(g, d+1)
			}
			return
		}
		// the shared result may be looked up by a caller of the function that fills it
		looks := false
		var scan func(g *ssa.Function, d int)
		seen := map[*ssa.Function]bool{}
		scan = func(g *ssa.Function, d int) {
			if g == nil || seen[g] || d > 3 || !c.P.inModule(g) {
				return
			}
			seen[g] = true
			for _, in := range callsIn(g) {
				if n := staticName(in); n == "(*sync.Map).Load" {
					looks = true
				}
				if h := in.Common().StaticCallee(); h != nil && (memo(h) || h.Parent() != nil) {
					scan(h, d+1)
				}
			}
		}
		scan(f, 0)
		if !looks && d < 3 {
			for _, g := range c.P.callersOf(f) {
				addEntry(g, d+1)
			}
			return
		}
		if !entries[f] {
			entries[f] = true
			order = append(order, f)
		}
	}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if staticName(in) == onceDo {
				addEntry(f, 0)
			}
		}
	}
	fetchers := map[*ssa.Function]bool{}
	for _, f := range order {
		c.checkMemo(f, rs, memo, expensiveName, fetchers)
	}
	c.AtLeast("fetch-once", 2, "fetches made by memoizing functions")
	c.AtLeast("outcome-stored", 2, "once functions")
	c.AtLeast("outcome-shared", 2, "memoizing functions")

	// the memo objects are shared by the whole process
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			n := staticName(in)
			op, ok := syncMapOp(n)
			if !ok {
				continue
			}
			site := "sync.Map." + op + " in " + shortFn(f.String())
			switch op {
			case "Delete", "LoadAndDelete", "Clear", "Range", "CompareAndDelete", "Swap", "CompareAndSwap":
				c.Bad("never-forgotten", site, c.P.instrPos(in), "an entry of a memo is removed or replaced, so the resource can be fetched again")
			default:
				c.OK("never-forgotten", site, c.P.instrPos(in), "")
			}
			c.Check(c.P.persistent(in.Common().Args[0], map[ssa.Value]bool{}), "memo-shared", site, c.P.instrPos(in), "the memo used here does not always belong to a package-level object, so its outcomes are not shared within the process")
		}
	}
	// bypasses
	for g := range fetchers {
		for _, h := range c.P.callersOf(g) {
			if entries[outermost(h)] || onlyFrom(c.P, h, entries, 0) {
				continue
			}
			c.checkBypass(outermost(h), g)
		}
	}
}

// onlyFrom: h is only called from the memoizing functions.
func onlyFrom(p *Prog, h *ssa.Function, entries map[*ssa.Function]bool, d int) bool {
	h = outermost(h)
	if entries[h] {
		return true
	}
	if d > 3 || isExportedFn(h) {
		return false
	}
	cs := p.callersOf(h)
	for _, g := range cs {
		if outermost(g) == h || !onlyFrom(p, g, entries, d+1) {
			return false
		}
	}
	return len(cs) > 0
}

// checkBypass: h calls the memoized fetch g directly only where a configuration field is unset.
func (c *Ctx) checkBypass(h, g *ssa.Function) {
	e := NewEngine(c.P)
	e.Inline = func(f *ssa.Function) bool { return f != g && outermost(f) == h }
	var common map[string]bool
	n := 0
	type off struct {
		s string
	}
	facts := func(s *State) map[string]bool {
		out := map[string]bool{}
		for t, v := range s.facts {
			// an unset field of a parameter: nil pointer or false flag
			if !v && t.Op == "load" && isBoolType(t.Typ) && t.Args[0].Op == "faddr" {
				out["!"+t.String()] = true
			}
			if a, b, ok := eqPair(t, v); ok {
				if a.isNil() {
					a, b = b, a
				}
				if b.isNil() && a.Op == "load" && a.Args[0].Op == "faddr" {
					out["nil "+a.String()] = true
				}
			}
		}
		return out
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Static != g {
			return
		}
		n++
		fs := facts(s)
		if common == nil {
			common = fs
		} else {
			for k := range common {
				if !fs[k] {
					delete(common, k)
				}
			}
		}
	}
	e.KeepFact = func(t *Term) bool { return true }
	e.Run(h, nil)
	c.Engine("bypass in "+shortFn(h.String()), e)
	site := shortFn(h.String()) + " -> " + shortFn(g.String())
	if n == 0 {
		c.OK("bypass-configured", site, c.P.pos(h.Pos()), "not reachable")
		return
	}
	c.Check(len(common) > 0, "bypass-configured", site, c.P.pos(h.Pos()), "the memoized fetch is called directly on paths that no single unset configuration field accounts for, so the resource is fetched again without sharing its outcome")
}

func (c *Ctx) checkMemo(entry *ssa.Function, rs map[*ssa.Function]bool, memo func(*ssa.Function) bool, netName func(string) bool, fetchers map[*ssa.Function]bool) {
	name := shortFn(entry.String())
	e := NewEngine(c.P)
	pureURL(e)
	oldCall := e.OnCall
	rsMemo := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if memo(f) {
			rsMemo[f] = true
		}
	}
	e.Inline = func(f *ssa.Function) bool {
		if rsMemo[f] || outermost(f) == entry {
			return true
		}
		if f.Parent() != nil && rsMemo[outermost(f)] {
			return true
		}
		if !rs[f] {
			return instrCount(f) <= 120
		}
		// a helper that sends one request and returns the response
		r := f.Signature.Results()
		return r.Len() > 0 && isNamed(r.At(0).Type(), "net/http.Response") && instrCount(f) <= 60
	}
	isFetch := func(ev *CallEvent) bool {
		if netName(ev.Name) {
			return true
		}
		return ev.Static != nil && rs[ev.Static] && !(ev.WillInline && !ev.NoInline)
	}
	nostore, missPanic := "", ""
	var onceKeys []*Term
	e.KeepFact = func(t *Term) bool { return true }
	e.OnCall = func(s *State, ev *CallEvent) {
		if oldCall != nil {
			oldCall(s, ev)
		}
		site := shortFn(ev.Name) + " in " + enclosing(ev.Instr)
		pos := c.P.instrPos(ev.Instr)
		if op, ok := syncMapOp(ev.Name); ok {
			k := stripConv(ev.Args[1])
			switch op {
			case "LoadOrStore":
				onceKeys = append(onceKeys, k)
				s.Mark("key", k, ev.Args[0])
			case "Store":
				s.Mark("store", k, ev.Args[0], ev.Args[2])
				v := ev.Args[2]
				carries := func(x *Term) bool { return v == x || v.contains(func(y *Term) bool { return y == x }) }
				for _, m := range s.MarksOf("fetched") {
					r := m.Args[0]
					ok, why := storedAll(s, e, r, carries)
					c.Check(ok, "outcome-stored", site, pos, "the stored outcome does not carry "+why+" of "+shortFn(r.Fn)+", so callers that did not run the fetch see a different outcome; path: "+s.TraceString())
				}
			case "Load":
				for _, m := range s.MarksOf("key") {
					c.Check(m.Args[0] == k, "one-key", site, pos, "the outcome is looked up under "+k.String()+" but the fetch is deduplicated under "+m.Args[0].String()+"; path: "+s.TraceString())
				}
				for _, m := range s.MarksOf("store") {
					c.Check(m.Args[0] == k && m.Args[1] == ev.Args[0], "one-key", site, pos, "the outcome is looked up under "+k.String()+" but was stored under "+m.Args[0].String()+" (or in another map); path: "+s.TraceString())
				}
				if len(s.MarksOf("fetched")) > 0 && len(s.MarksOf("store")) == 0 && !s.HasMark("nostore") {
					c.Bad("outcome-stored", site, pos, "the outcome is looked up before it was stored; path: "+s.TraceString())
				}
			}
			return
		}
		if ev.Name == "(*sync.Once).Do" {
			o := ev.Args[0]
			ok := o.contains(func(x *Term) bool { return x.isCall("(*sync.Map).LoadOrStore") })
			c.Check(ok, "once-per-key", site, pos, "the once object guarding the fetch is "+o.String()+", not the one LoadOrStore returns for the key, so concurrent requests can fetch twice; path: "+s.TraceString())
			if _, isF := ev.Args[1].Obj.(*ssa.Function); !isF {
				c.Undecided("once-per-key", site, pos, "the function run once is not known: "+ev.Args[1].String())
			}
			return
		}
		switch {
		case strings.HasPrefix(ev.Name, "(*sync.Mutex)."), strings.HasPrefix(ev.Name, "(*sync.RWMutex)."):
			if strings.HasSuffix(ev.Name, ".Lock") {
				s.Mark("locked")
			} else if strings.HasSuffix(ev.Name, ".Unlock") {
				s.Unmark("locked")
			}
			return
		}
		if !isFetch(ev) {
			return
		}
		in := onceDepth(s)
		switch {
		case in >= 0:
			c.OK("fetch-once", site, pos, "inside the once function")
			if ev.Static != nil && c.P.inModule(ev.Static) {
				fetchers[ev.Static] = true
			}
			if len(onceKeys) > 0 {
				ok := false
				for _, k := range onceKeys {
					args := append([]*Term(nil), ev.Args...)
					ok = ok || keyCovers(k, args) || keyCovers(k, originsOf(s, args))
				}
				c.Check(ok, "key-names-resource", site, pos, "the key does not determine the resource fetched here, so different resources share one outcome; key: "+onceKeys[len(onceKeys)-1].String()+"; path: "+s.TraceString())
			}
		case s.HasMark("locked"):
			// a lookup that found nothing, or a comparison with the recorded value
			c.Check(s.HasMark("consulted"), "fetch-once", site, pos, "fetched under the lock without consulting what was recorded for the key; path: "+s.TraceString())
			s.Mark("lockfetch")
		default:
			ok := false
			for t, v := range s.facts {
				if !v && t.Op == "extract" && t.Fn == "1" && t.Args[0].isCall("(*sync.Map).Load") {
					ok = true
				}
			}
			c.Check(ok, "fetch-once", site, pos, "fetched outside the once function although an outcome may already be stored; path: "+s.TraceString())
		}
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if t.contains(func(x *Term) bool { return x.Op == "mapget" || x.Op == "mapok" }) {
			s.Mark("consulted")
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		if isFetch(ev) && (onceDepth(s) >= 0 || s.HasMark("locked")) {
			direct := "call"
			if netName(ev.Name) {
				direct = "direct"
			}
			s.Mark("fetched", ev.Final, e.T.mk("const", direct, nil, nil))
		}
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) { s.Mark("recorded") }
	e.OnReturn = func(s *State, fr *Frame, rets []*Term, in *ssa.Return) {
		if fr.call == nil || staticName(fr.call) != "(*sync.Once).Do" {
			return
		}
		site := "once function of " + name
		if len(s.MarksOf("store")) > 0 {
			c.OK("outcome-stored", site, c.P.instrPos(in), "")
			return
		}
		// leaving without an outcome
		s.Mark("nostore")
		ok := len(s.MarksOf("fetched")) > 0
		for _, m := range s.MarksOf("fetched") {
			r := m.Args[0]
			if m.Args[1].Fn != "direct" || s.IsNil(e.Extract(r, 1, nil)) != 1 {
				ok = false
			}
		}
		c.Check(ok, "outcome-stored", site, c.P.instrPos(in), "the once function can return without storing an outcome after a fetch that failed or was not a plain request, so callers see no outcome or fetch again; path: "+s.TraceString())
		if nostore == "" {
			nostore = s.TraceString()
		}
	}
	e.OnPanic = func(s *State, v *Term, in ssa.Instruction) {
		for t, val := range s.facts {
			if !val && t.Op == "extract" && t.Fn == "1" && t.Args[0].isCall("(*sync.Map).Load") {
				missPanic = c.P.instrPos(in)
			}
		}
	}
	e.OnEnd = func(s *State, rets []*Term) {
		if s.HasMark("lockfetch") {
			c.Check(s.HasMark("recorded"), "fetch-once", "recording in "+name, c.P.pos(entry.Pos()), "fetched under the lock without recording it for the key, so every request fetches again; path: "+s.TraceString())
			c.Check(len(s.MarksOf("store")) > 0, "outcome-stored", "locked fetch of "+name, c.P.pos(entry.Pos()), "fetched under the lock but the outcome is not stored; path: "+s.TraceString())
		}
		fetched := len(s.MarksOf("fetched")) > 0 || len(s.MarksOf("onceskip")) > 0
		fromLoad := func(x *Term) bool {
			return x.Op == "extract" && x.Fn == "0" && x.Args[0].isCall("(*sync.Map).Load")
		}
		miss, tested := false, false
		for t, v := range s.facts {
			if !v && t.Op == "extract" && t.Fn == "1" && t.Args[0].isCall("(*sync.Map).Load") {
				miss = true
			}
			// some part of the stored outcome other than its error was found present
			if x := emptyFact(t, !v); x != nil && !isErrType(x.Typ) && x.contains(fromLoad) && emptyFact(t, v) == nil {
				tested = true
			}
			if a, b, ok := neqPair(t, v); ok && (a.isNil() && b.contains(fromLoad) && !isErrType(b.Typ) || b.isNil() && a.contains(fromLoad) && !isErrType(a.Typ)) {
				tested = true
			}
		}
		if !fetched && !s.HasMark("lockfetch") || miss || len(rets) == 0 {
			return
		}
		er := rets[len(rets)-1]
		ok := er.contains(fromLoad) || s.nonNil(er) || s.IsNil(er) == 1 && tested
		c.Check(ok, "outcome-shared", "error of "+name, c.P.pos(entry.Pos()), "the error returned is "+er.String()+", not the stored one; path: "+s.TraceString())
		for _, r := range rets[:len(rets)-1] {
			ok := r.contains(fromLoad) || s.IsNil(r) == 1 || tested && r.Op == "alloc"
			c.Check(ok, "outcome-shared", "result of "+name, c.P.pos(entry.Pos()), "the result returned is "+r.String()+", not the stored one; path: "+s.TraceString())
		}
	}
	e.Run(entry, nil)
	c.Engine(name, e)
	if nostore != "" {
		c.Check(missPanic == "", "outcome-stored", "missing outcome in "+name, missPanic, "the once function may leave no outcome, and its absence panics; path: "+nostore)
	}
}

// onceDepth: index of the frame running a once function, or -1.
func onceDepth(s *State) int {
	for i, fr := range s.frames {
		if fr.call != nil && staticName(fr.call) == "(*sync.Once).Do" {
			return i
		}
	}
	return -1
}

// storedAll: the stored value carries the results of the fetch.
func storedAll(s *State, e *Engine, r *Term, carries func(*Term) bool) (bool, string) {
	tup, ok := r.Typ.(*types.Tuple)
	if !ok {
		return carries(r), "the result"
	}
	if tup.Len() == 0 {
		return true, ""
	}
	last := s.MarksOf("fetched")
	ei := tup.Len() - 1
	er := e.Extract(r, ei, tup.At(ei).Type())
	if s.IsNil(er) != 1 && !carries(er) {
		return false, "the error"
	}
	if len(last) > 0 && s.IsNil(er) == 1 {
		// superseded by a later fetch
		for _, m := range last {
			if m.Args[0] != r {
				return true, ""
			}
		}
	}
	for i := 0; i < ei; i++ {
		x := e.Extract(r, i, tup.At(i).Type())
		if !carries(x) && !(r.isCall("(*net/http.Client).Do") && s.IsNil(er) == 1) {
			return false, "result " + itoa(i)
		}
	}
	return true, ""
}

// originsOf: the requests that cloned requests among args were cloned from.
func originsOf(s *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		a.walk(func(x *Term) bool {
			if x.isCall("(*net/http.Request).Clone") || x.isCall("(*net/http.Request).WithContext") {
				out = append(out, x.Args[0])
			}
			return true
		})
	}
	return out
}

func isErrType(t types.Type) bool { return t != nil && types.TypeString(t, nil) == "error" }
