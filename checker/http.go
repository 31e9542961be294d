package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- shared helpers

var netCalls = map[string]bool{
	"(*net/http.Client).Do": true, "(*net/http.Client).Get": true, "(*net/http.Client).Head": true,
	"(*net/http.Client).Post": true, "(*net/http.Client).PostForm": true,
	"net/http.Get": true, "net/http.Head": true, "net/http.Post": true, "net/http.PostForm": true,
	"(*net/http.Transport).RoundTrip": true, "(net/http.RoundTripper).RoundTrip": true,
	"net.Dial": true, "net.DialTimeout": true, "(*net.Dialer).Dial": true, "(*net.Dialer).DialContext": true,
}

func staticName(c ssa.CallInstruction) string {
	cm := c.Common()
	if cm.IsInvoke() {
		return cm.Method.FullName()
	}
	if g := cm.StaticCallee(); g != nil {
		return calleeName(g)
	}
	return ""
}

// callersOf lists the static callers of every function.
func (p *Prog) callersOf(f *ssa.Function) []*ssa.Function {
	if p.callerCache == nil {
		p.callerCache = map[*ssa.Function][]*ssa.Function{}
		for _, g := range p.Funcs {
			for _, h := range p.callees(g) {
				p.callerCache[h] = append(p.callerCache[h], g)
			}
		}
	}
	return p.callerCache[f]
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func isExportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

// exportedRoots climbs from f to the nearest exported functions that reach it.
func (p *Prog) exportedRoots(f *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		if isExportedFn(g) {
			res[g] = true
			return
		}
		if g.Parent() != nil {
			rec(g.Parent())
		}
		for _, h := range p.callersOf(g) {
			rec(h)
		}
	}
	rec(f)
	return res
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		n, _ := types.Unalias(t).(*types.Named)
		return n
	}
}

func isNamed(t types.Type, full string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

// obtainers returns the functions in which values of the given named type enter, climbing
// from the given functions while they receive them as parameters or captured variables.
func (p *Prog) obtainers(fs []*ssa.Function, typ string) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		climb := false
		for _, x := range f.Params {
			climb = climb || isNamed(x.Type(), typ)
		}
		captured := false
		for _, x := range f.FreeVars {
			captured = captured || isNamed(x.Type(), typ)
		}
		if captured && f.Parent() != nil {
			rec(f.Parent())
		}
		if climb {
			cs := p.callersOf(f)
			if len(cs) == 0 && !captured {
				set[f] = true
			}
			for _, g := range cs {
				rec(g)
			}
		}
		if !climb && !captured {
			set[f] = true
			return
		}
		// also obtained locally?
		for _, c := range callsIn(f) {
			if v, ok := c.(ssa.Value); ok {
				t := v.Type()
				if tp, ok := t.(*types.Tuple); ok {
					for i := 0; i < tp.Len(); i++ {
						if isNamed(tp.At(i).Type(), typ) {
							set[f] = true
						}
					}
				} else if isNamed(t, typ) {
					set[f] = true
				}
			}
		}
	}
	for _, f := range fs {
		rec(f)
	}
	var out []*ssa.Function
	for f := range set {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isFieldNamed(t *Term, typ, field string) *Term {
	if t.Op == "load" && t.Args[0].Op == "faddr" {
		if fv, ok := t.Args[0].Obj.(*types.Var); ok && fv.Name() == field && isNamed(ptrTo(t.Args[0].Args[0]), typ) {
			return t.Args[0].Args[0]
		}
	}
	return nil
}

// ptrTo returns the type a base term of a field address points to; falls back to its own type.
func ptrTo(t *Term) types.Type { return t.Typ }

func stdField(p *Prog, pkg, typ, field string) *types.Var {
	for _, f := range p.Funcs {
		if f.Pkg == nil {
			continue
		}
		for _, im := range f.Pkg.Pkg.Imports() {
			if im.Path() == pkg {
				if o := im.Scope().Lookup(typ); o != nil {
					if st, ok := o.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i).Name() == field {
								return st.Field(i)
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// fieldBase: t loads field fv of some object; the object's address is returned.
func fieldBase(t *Term, fv *types.Var) *Term {
	if t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Obj == any(fv) {
		return t.Args[0].Args[0]
	}
	if t.Op == "field" && t.Obj == any(fv) {
		return t.Args[0]
	}
	return nil
}

func enclosing(in ssa.Instruction) string { return shortFn(in.Parent().String()) }

// ---------------------------------------------------------------- C06

func init() {
	register("C06", checkC06, "net/http sets Response.StatusCode to the status received")
	register("C07", checkC07, "a request sent through the caching transport's http.Client reaches the network only through that transport")
	register("C10", checkC10, "net/http sends an Authorization header only with the request it was set on, and drops it on cross-host redirects")
	register("C29", checkC29, "net/http aborts a request when its context is done")
}

func checkC06(c *Ctx) {
	c.Rule("typestate over *http.Response: every consumption of resp.Body (passed to a call other than Close or a discarding copy, returned as a value, stored in a longer-lived object, sent) is preceded on its path by a test that established resp.StatusCode == 200 (any 2xx under InitKeyring; 200 or 206 where a body is kept for a resumable reader)")
	body := stdField(c.P, "net/http", "Response", "Body")
	status := stdField(c.P, "net/http", "Response", "StatusCode")
	if body == nil || status == nil {
		c.Undecided("anchor", "net/http.Response", "?", "not used in the module")
		return
	}
	var users []*ssa.Function
	want := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		use := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == body {
					use = true
				}
			}
		}
		if use {
			users = append(users, f)
			want[f] = true
		}
	}
	entries := c.P.obtainers(users, "net/http.Response")
	covered := map[*ssa.Function]bool{}
	touches := func(f *ssa.Function) bool {
		for _, x := range f.Params {
			if isNamed(x.Type(), "net/http.Response") {
				return true
			}
		}
		for _, x := range f.FreeVars {
			if isNamed(x.Type(), "net/http.Response") {
				return true
			}
		}
		r := f.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if isNamed(r.At(i).Type(), "net/http.Response") {
				return true
			}
		}
		return want[f]
	}
	for _, entry := range entries {
		if debugPoints {
			fmt.Println("C06 entry", entry)
		}
		c.Funcs[entry] = true
		keys := true
		roots := c.P.exportedRoots(entry)
		for r := range roots {
			keys = keys && r.Name() == "InitKeyring"
		}
		keys = keys && len(roots) > 0
		e := NewEngine(c.P)
		e.Inline = func(f *ssa.Function) bool { return touches(f) || instrCount(f) <= 30 }
		e.OnInstr = func(s *State, in ssa.Instruction) { covered[in.Parent()] = true }
		e.OnFact = func(s *State, t *Term, val bool) {
			if t.Op != "bin" || len(t.Args) != 2 {
				return
			}
			op := t.Fn
			l, r := t.Args[0], t.Args[1]
			base := fieldBase(l, status)
			k, isK := r.intConst()
			for i := 0; i < 2 && base == nil && op == "=="; i++ { // class test: status/100 == k
				q, o := t.Args[i], t.Args[1-i]
				if q.Op == "bin" && q.Fn == "/" {
					if d, ok := q.Args[1].intConst(); ok && d == 100 {
						if b := fieldBase(q.Args[0], status); b != nil {
							if n, ok := o.intConst(); ok && val {
								s.Mark("st", b, e.Int(n*100), e.Int(n*100+99))
							}
							return
						}
					}
				}
			}
			if base == nil {
				base = fieldBase(r, status)
				k, isK = l.intConst()
				switch op {
				case "<":
					op = ">"
				case ">":
					op = "<"
				case "<=":
					op = ">="
				case ">=":
					op = "<="
				}
			}
			if base == nil || !isK {
				return
			}
			if !val {
				switch op {
				case "==":
					op = "!="
				case "<":
					op = ">="
				case ">":
					op = "<="
				case "<=":
					op = ">"
				case ">=":
					op = "<"
				case "!=":
					op = "=="
				}
			}
			switch op {
			case "==":
				s.Mark("st", base, e.Int(k), e.Int(k))
			case ">=":
				s.Mark("st", base, e.Int(k), e.Int(1000))
			case ">":
				s.Mark("st", base, e.Int(k+1), e.Int(1000))
			case "<":
				s.Mark("st", base, e.Int(0), e.Int(k-1))
			case "<=":
				s.Mark("st", base, e.Int(0), e.Int(k))
			}
		}
		rng := func(s *State, base *Term) (int64, int64) {
			lo, hi := int64(0), int64(1000)
			for _, m := range s.MarksOf("st") {
				if m.Args[0] != base {
					continue
				}
				a, _ := m.Args[1].intConst()
				b, _ := m.Args[2].intConst()
				if a > lo {
					lo = a
				}
				if b < hi {
					hi = b
				}
			}
			return lo, hi
		}
		consume := func(s *State, base *Term, keep bool, what string, in ssa.Instruction, fallback token.Pos) {
			lo, hi := rng(s, base)
			ok := lo == 200 && hi == 200
			if keep {
				ok = ok || lo == 206 && hi == 206
				if ok {
					s.Mark("kept", base)
				}
			} else if s.HasMark("kept", base) {
				ok = ok || lo == 206 && hi == 206 // read by the object that keeps it
			}
			if keys {
				ok = ok || lo >= 200 && hi <= 299
			}
			pos := c.P.pos(fallback)
			site := what + " in " + shortFn(entry.String())
			if in != nil {
				pos = c.P.instrPos(in)
				site = what + " in " + enclosing(in)
			}
			c.Check(ok, "body-after-status", site, pos, fmt.Sprintf("the response body is used on a path where the status may be anything in [%d,%d]; path: %s", lo, hi, s.TraceString()))
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			if ev.WillInline || strings.HasSuffix(ev.Name, ".Close") {
				return
			}
			if (ev.Name == "io.Copy" || ev.Name == "io.CopyN") && strings.Contains(ev.Args[0].String(), "io.Discard") {
				return
			}
			for _, a := range ev.Args {
				if b := fieldBase(a, body); b != nil {
					consume(s, b, false, "body passed to "+shortFn(ev.Name), ev.Instr, 0)
				}
			}
		}
		e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
			if b := fieldBase(val, body); b != nil && addr.Op == "faddr" {
				if addr.Obj == any(body) {
					return // handed on together with its status
				}
				consume(s, b, true, "body kept", in, 0)
			}
		}
		e.OnSend = func(s *State, ch, v *Term, in ssa.Instruction) {
			if b := fieldBase(v, body); b != nil {
				consume(s, b, false, "body sent", in, 0)
			}
		}
		e.OnEnd = func(s *State, rets []*Term) {
			for _, r := range rets {
				if b := fieldBase(r, body); b != nil {
					consume(s, b, false, "body returned", nil, entry.Pos())
				}
			}
		}
		e.Run(entry, nil)
		c.Engine(shortFn(entry.String()), e)
	}
	for _, f := range users {
		c.Check(covered[f], "body-user-analysed", shortFn(f.String()), c.P.pos(f.Pos()), "function handles a response body but no analysed path reaches it")
	}
	c.AtLeast("body-after-status", 2, "uses of a response body")
	c.AtLeast("body-user-analysed", 2, "functions handling response bodies")
}

// ---------------------------------------------------------------- C07

// paramField finds the struct field that parameter named/typed as given of an option
// constructor ends up in.
func paramFields(ctor *ssa.Function, pred func(types.Type) bool) []*types.Var {
	var out []*types.Var
	if ctor == nil {
		return nil
	}
	fs := ownBody(ctor)
	for _, an := range fs {
		for _, b := range an.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						fv := fieldVar(fa.X.Type(), fa.Field)
						if fv != nil && pred(fv.Type()) {
							out = append(out, fv)
						}
					}
				}
			}
		}
	}
	return out
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// fieldCopies closes a set of fields under "stored from a load of a member".
func (p *Prog) fieldCopies(seed []*types.Var) map[*types.Var]bool {
	set := map[*types.Var]bool{}
	for _, f := range seed {
		set[f] = true
	}
	from := func(v ssa.Value) *types.Var {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldVar(fa.X.Type(), fa.Field)
			}
		case *ssa.Field:
			return fieldVar(x.X.Type(), x.Field)
		}
		return nil
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						if src := from(st.Val); src != nil && set[src] {
							d := fieldVar(fa.X.Type(), fa.Field)
							if d != nil && !set[d] && types.Identical(d.Type(), src.Type()) {
								set[d] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return set
}

func checkC07(c *Ctx) {
	c.Rule("effect gating: in the caching transport every path from RoundTrip to a network call passes a test that found its offline flag false")
	c.Rule("routing: with a cache configured, the client used by InitKeyring, FetchPackage and GetRepositoryIndexes is an http.Client whose Transport is the caching transport carrying the cache's own offline flag; GetRepositoryIndexes issues requests only through the client it was given")
	with := c.Fn("pkg/apk.WithCache")
	withClient := c.Fn("pkg/apk.WithHTTPClient")
	if with == nil || withClient == nil {
		return
	}
	seed := paramFields(with, isBoolType)
	if len(seed) == 0 {
		c.Undecided("anchor", "offline flag", c.P.pos(with.Pos()), "WithCache stores no boolean")
		return
	}
	flags := c.P.fieldCopies(seed)
	clientF := optionField(c.P, withClient)
	transportF := stdField(c.P, "net/http", "Client", "Transport")
	isFlag := func(t *Term) bool {
		for f := range flags {
			if fieldBase(t, f) != nil {
				return true
			}
		}
		return false
	}
	visited := map[ssa.Instruction]string{}
	netReach := func(n string) bool { return netCalls[n] || strings.HasSuffix(n, ").RoundTrip") }
	cacheNil := func(t *Term) bool {
		x := eqNil(t)
		if x == nil {
			return false
		}
		n := namedOf(x.Typ)
		if n == nil {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if flags[st.Field(i)] && n.Obj().Pkg().Path() == modPath+"/pkg/apk" && x.Op == "load" {
				return true
			}
		}
		return false
	}
	newEngine := func() *Engine {
		e := NewEngine(c.P)
		e.Inline = relevantInline(c.P, netReach, 40)
		e.OnFact = func(s *State, t *Term, val bool) {
			if !val && isFlag(t) {
				s.Mark("online")
			}
			if val && cacheNil(t) {
				s.Mark("nocache")
			}
			if x := eqNil(t); val && x != nil && x.Op == "extract" && x.Args[0].isCall("os.Open") {
				s.Mark("opened", x.Args[0])
			}
		}
		return e
	}
	gated := func(s *State, cl *Term) bool {
		if transportF == nil {
			return false
		}
		t := s.Load(s.e.faddr(cl, transportF), transportF.Type())
		if t == nil || t.Typ == nil {
			return false
		}
		n := namedOf(t.Typ)
		for t.Op == "conv" || t.Op == "iface" {
			t = t.Args[0]
			n = namedOf(t.Typ)
		}
		if n == nil {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if flags[st.Field(i)] {
				v := s.Load(s.e.faddr(t, st.Field(i)), st.Field(i).Type())
				return isFlag(v) || s.Truth(v) == 1
			}
		}
		return false
	}
	// 1: the caching transport
	nT := 0
	for _, f := range c.P.Funcs {
		if f.Name() != "RoundTrip" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		n := namedOf(f.Signature.Recv().Type())
		has := false
		if n != nil {
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					has = has || flags[st.Field(i)]
				}
			}
		}
		if !has {
			continue
		}
		nT++
		e := newEngine()
		e.OnCall = func(s *State, ev *CallEvent) {
			if netCalls[ev.Name] && !ev.WillInline {
				visited[ev.Instr] = "transport"
				c.Check(s.HasMark("online"), "network-only-online", shortFn(ev.Name)+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "a request is sent on a path where the offline flag was not found false; path: "+s.TraceString())
			}
		}
		e.Run(f, nil)
		c.Engine(shortFn(f.String()), e)
	}
	if nT == 0 {
		c.Undecided("anchor", "caching transport", "?", "no RoundTrip method on a type carrying the offline flag")
	}
	c.AtLeast("network-only-online", 1, "network calls in the caching transport")
	// 2: users of the APK's client
	for _, name := range []string{"(*pkg/apk.APK).InitKeyring", "(*pkg/apk.APK).FetchPackage", "(*pkg/apk.APK).GetRepositoryIndexes"} {
		f := c.Fn(name)
		if f == nil {
			continue
		}
		e := newEngine()
		e.Boundary[modPath+"/pkg/apk.WithHTTPClient"] = true
		e.Boundary[modPath+"/pkg/apk.GetRepositoryIndexes"] = true
		e.OnCall = func(s *State, ev *CallEvent) {
			site := shortFn(ev.Name) + " in " + enclosing(ev.Instr)
			free := s.HasMark("nocache") || s.HasMark("online")
			switch {
			case netCalls[ev.Name] && !ev.WillInline:
				visited[ev.Instr] = "client"
				c.Check(free || gated(s, ev.Args[0]), "routed-through-cache", site, c.P.instrPos(ev.Instr), "a cache is configured but the request does not go through its transport; path: "+s.TraceString())
			case ev.Name == modPath+"/pkg/apk.WithHTTPClient":
				if gated(s, ev.Args[0]) {
					s.Mark("given")
				}
			case ev.Name == modPath+"/pkg/apk.GetRepositoryIndexes":
				c.Check(free || s.HasMark("given"), "routed-through-cache", site, c.P.instrPos(ev.Instr), "a cache is configured but the index request is not given its client; path: "+s.TraceString())
			}
		}
		e.Run(f, nil)
		c.Engine(name, e)
	}
	c.AtLeast("routed-through-cache", 1, "routed requests")
	// 3: index requests use the client they are given
	if g := c.Fn("pkg/apk.GetRepositoryIndexes"); g != nil && clientF != nil {
		e := newEngine()
		e.OnCall = func(s *State, ev *CallEvent) {
			if ev.Name == "dyn" {
				s.Mark("configured")
			}
			if netCalls[ev.Name] && !ev.WillInline {
				visited[ev.Instr] = "given"
				if !s.HasMark("configured") {
					return // no option was applied, hence no client given
				}
				c.Check(fieldBase(ev.Args[0], clientF) != nil, "index-client", shortFn(ev.Name)+" in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "an index is requested through a client other than the one supplied by the caller: "+ev.Args[0].String())
			}
		}
		e.Run(g, nil)
		c.Engine("GetRepositoryIndexes", e)
	}
	c.AtLeast("index-client", 1, "index requests")
	// 4: no other network call
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if !netCalls[staticName(in)] {
				continue
			}
			site := shortFn(staticName(in)) + " in " + enclosing(in)
			if visited[in] != "" {
				c.OK("network-call-covered", site, c.P.instrPos(in), visited[in])
				continue
			}
			// reached only while reading an already obtained body, or outside the property
			roots := c.P.exportedRoots(f)
			bad := ""
			for r := range roots {
				switch r.Name() {
				case "InitKeyring", "FetchPackage", "GetRepositoryIndexes", "RoundTrip":
					bad = r.Name()
				}
			}
			c.Check(bad == "", "network-call-covered", site, c.P.instrPos(in), "network call reachable from "+bad+" that the offline analysis did not reach")
		}
	}
}

// ---------------------------------------------------------------- C10

func checkC10(c *Ctx) {
	c.Rule("provenance: at every (*http.Request).SetBasicAuth / Authorization header the user and password are the userinfo of the very URL the request is built from, or the entry of the credential map looked up under exactly that URL's Host")
	c.Rule("provenance: the options that configure credentials file them under exactly the domain argument given")
	userF := stdField(c.P, "net/url", "URL", "User")
	hostF := stdField(c.P, "net/url", "URL", "Host")
	reqURLF := stdField(c.P, "net/http", "Request", "URL")
	if userF == nil || hostF == nil {
		c.Undecided("anchor", "net/url.URL", "?", "not used")
		return
	}
	reach := func(n string) bool {
		return n == "(*net/http.Request).SetBasicAuth" || strings.HasPrefix(n, "net/http.NewRequest")
	}
	visited := map[ssa.Instruction]bool{}
	run := func(f *ssa.Function) {
		e := NewEngine(c.P)
		e.Inline = relevantInline(c.P, reach, 60)
		sameURL := func(a *Term, u *Term) bool { // a: URL string term a request was built from; u: *url.URL term
			if a == u {
				return true
			}
			if a.isCall("(*net/url.URL).String") && a.Args[0] == u {
				return true
			}
			for x := u; x != nil; {
				switch {
				case x.Op == "extract" && x.Fn == "0":
					x = x.Args[0]
				case x.isCall("net/url.Parse") || x.isCall("net/url.ParseRequestURI") || strings.HasPrefix(x.Fn, "go.lsp.dev/uri.") && len(x.Args) > 0:
					x = x.Args[0]
					if x == a {
						return true
					}
				case x.Op == "conv" || x.Op == "pure" && x.Fn == "convert":
					x = x.Args[0]
				default:
					return false
				}
			}
			return false
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			switch {
			case ev.Name == "(*net/http.Request).SetBasicAuth", ev.Name == "(net/http.Header).Set" && len(ev.Args) > 1 && authHeader(ev.Args[1]), ev.Name == "(net/http.Header).Add" && len(ev.Args) > 1 && authHeader(ev.Args[1]):
				visited[ev.Instr] = true
				site := "SetBasicAuth in " + enclosing(ev.Instr)
				pos := c.P.instrPos(ev.Instr)
				req := ev.Args[0]
				var url, reqT *Term
				for _, m := range s.MarksOf("req") {
					if req.contains(func(x *Term) bool { return x == m.Args[0] }) {
						url = m.Args[1]
						reqT = m.Args[0]
					}
				}
				sameURL := func(a, u *Term) bool {
					if b := fieldBase(u, reqURLF); b != nil && b.contains(func(x *Term) bool { return x == reqT }) {
						return true
					}
					return sameURL(a, u)
				}
				if url == nil {
					c.Undecided("credential-provenance", site, pos, "cannot find the request's URL")
					return
				}
				for i, cr := range ev.Args[1:] {
					if ev.Name != "(*net/http.Request).SetBasicAuth" && i == 0 {
						continue
					}
					ok := false
					why := "credential " + cr.String() + " comes from neither the request's own URL nor the entry for its host"
					cr.walk(func(x *Term) bool {
						if b := fieldBase(x, userF); b != nil && sameURL(url, b) {
							ok = true
						}
						if x.Op == "mapget" || x.Op == "extract" && x.Args[0].Op == "mapget" {
							m := x
							if x.Op == "extract" {
								m = x.Args[0]
							}
							if len(m.Args) > 1 {
								if b := fieldBase(m.Args[1], hostF); b != nil && sameURL(url, b) {
									ok = true
								}
							}
						}
						if x.Op == "inst" && x.Fn == "next" {
							for _, mk := range s.MarksOf("hosteq") {
								if mk.Args[0].contains(func(y *Term) bool { return y == x }) && sameURL(url, mk.Args[1]) {
									ok = true
								}
							}
						}
						return true
					})
					c.Check(ok, "credential-provenance", site, pos, why+"; path: "+s.TraceString())
				}
			}
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			if val && t.Op == "bin" && t.Fn == "==" {
				for i := 0; i < 2; i++ {
					if b := fieldBase(t.Args[i], hostF); b != nil {
						s.Mark("hosteq", t.Args[1-i], b)
					}
				}
			}
		}
		e.OnPost = func(s *State, ev *CallEvent) {
			switch ev.Name {
			case "net/http.NewRequestWithContext":
				s.Mark("req", ev.Final, ev.Args[2])
			case "net/http.NewRequest":
				s.Mark("req", ev.Final, ev.Args[1])
			}
		}
		pureURL(e)
		e.Run(f, nil)
		c.Engine(shortFn(f.String()), e)
	}
	for _, n := range []string{"(*pkg/apk.APK).InitKeyring", "(*pkg/apk.APK).FetchPackage", "pkg/apk.GetRepositoryIndexes"} {
		if f := c.Fn(n); f != nil {
			run(f)
		}
	}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if staticName(in) == "(*net/http.Request).SetBasicAuth" {
				c.Check(visited[in], "credential-site-covered", "SetBasicAuth in "+enclosing(in), c.P.instrPos(in), "credentials are attached outside the analysed request paths")
			}
		}
	}
	c.AtLeast("credential-provenance", 1, "places that attach credentials")
	// configuration
	for _, n := range []string{"pkg/apk.WithAuth", "pkg/apk.WithIndexAuth"} {
		ctor := c.Fn(n)
		if ctor == nil {
			continue
		}
		found := 0
		fs := ownBody(ctor)
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					found++
					k := stripLoad(mu.Key)
					good := false
					switch x := k.(type) {
					case *ssa.FreeVar, *ssa.Parameter:
						good = fromParam(fs, x, ctor.Params[0], 0)
					}
					c.Check(good, "credential-filed-under-domain", shortFn(ctor.String()), c.P.instrPos(in), "the key of the credential map is not exactly the domain argument")
				}
			}
		}
		if found == 0 {
			c.Undecided("anchor", n, c.P.pos(ctor.Pos()), "stores nothing in a credential map")
		}
	}
	// the APK passes its own map entries on unchanged
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if staticName(in) != modPath+"/pkg/apk.WithIndexAuth" || f.Pkg == nil {
				continue
			}
			a := in.Common().Args[0]
			ok := false
			if ex, isEx := stripLoad(a).(*ssa.Extract); isEx && ex.Index == 1 {
				_, ok = ex.Tuple.(*ssa.Next)
			}
			if p, isP := stripLoad(a).(*ssa.Parameter); isP {
				ok = p != nil
			}
			c.Check(ok, "credential-passed-on", "WithIndexAuth in "+enclosing(in), c.P.instrPos(in), "credentials are passed on under a key other than the one they were configured for")
		}
	}
}

func authHeader(t *Term) bool {
	s, ok := t.strConst()
	return ok && strings.EqualFold(s, "authorization")
}

func stripLoad(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			// load of a local: single store
			if al, ok := x.X.(*ssa.Alloc); ok {
				var st *ssa.Store
				n := 0
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						st = s
						n++
					}
				}
				if n == 1 {
					v = st.Val
					continue
				}
				return v
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return fv
			}
			return v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// bindsParam: free variable fv of closure f is bound to parameter p (or a cell holding only it).
func bindsParam(f *ssa.Function, fv *ssa.FreeVar, p *ssa.Parameter) bool {
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if idx < 0 || f.Parent() == nil {
		return false
	}
	ok := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, isMC := in.(*ssa.MakeClosure)
			if !isMC || mc.Fn != f {
				continue
			}
			v := mc.Bindings[idx]
			if al, isA := v.(*ssa.Alloc); isA {
				n := 0
				for _, r := range *al.Referrers() {
					if s, isS := r.(*ssa.Store); isS && s.Addr == al {
						n++
						v = s.Val
					}
				}
				if n != 1 {
					return false
				}
			}
			if v == p {
				ok = true
				continue
			}
			if fv2, isF := v.(*ssa.FreeVar); isF && bindsParam(f.Parent(), fv2, p) {
				ok = true
				continue
			}
			return false
		}
	}
	return ok
}

// pureURL models the URL accessors of package values as pure.
func pureURL(e *Engine) {
	prev := e.OnCall
	e.OnCall = func(s *State, ev *CallEvent) {
		if prev != nil {
			prev(s, ev)
		}
		if ev.Static == nil && len(ev.Args) == 1 && strings.HasPrefix(ev.Name, "("+modPath+"/") {
			switch {
			case strings.HasSuffix(ev.Name, ").URL"), strings.HasSuffix(ev.Name, ").PackageName"), strings.HasSuffix(ev.Name, ").ChecksumString"):
				ev.Result = e.T.mk("pure", ev.Name, types.Typ[types.String], nil, ev.Args[0])
			}
		}
	}
}

// ---------------------------------------------------------------- C29

const ctxType = "context.Context"

func checkC29(c *Ctx) {
	c.Rule("provenance: every *http.Request sent is built with NewRequestWithContext / WithContext / Clone from a context that derives from a context parameter (through WithX wrappers, tracer Start, captured variables or fields that are only ever assigned such contexts); context-free constructors and client shortcuts are not used where a context is available")
	hasCtx := func(f *ssa.Function) bool {
		for g := f; g != nil; g = g.Parent() {
			for _, p := range g.Params {
				if isNamed(p.Type(), ctxType) || isNamed(p.Type(), "net/http.Request") {
					return true
				}
				if n := namedOf(p.Type()); n != nil {
					if st, ok := n.Underlying().(*types.Struct); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
						for i := 0; i < st.NumFields(); i++ {
							if isNamed(st.Field(i).Type(), ctxType) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	var derived func(v ssa.Value, seen map[ssa.Value]bool) string
	freeVar := func(fv *ssa.FreeVar, seen map[ssa.Value]bool) string {
		f := fv.Parent()
		idx := -1
		for i, x := range f.FreeVars {
			if x == fv {
				idx = i
			}
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					if w := derived(mc.Bindings[idx], seen); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	derived = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return ""
		case *ssa.FreeVar:
			return freeVar(x, seen)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if w := derived(ed, seen); w != "" {
					return w
				}
			}
			return ""
		case *ssa.Alloc: // cell
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					if w := derived(st.Val, seen); w != "" {
						return w
					}
				}
			}
			return ""
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch y := x.X.(type) {
				case *ssa.FieldAddr:
					return "" // field invariant checked separately
				case *ssa.Global:
					return "a package-level context is used"
				default:
					return derived(y, seen)
				}
			}
		case *ssa.Field:
			return ""
		case *ssa.Extract:
			return derived(x.Tuple, seen)
		case *ssa.MakeInterface:
			return derived(x.X, seen)
		case *ssa.ChangeInterface:
			return derived(x.X, seen)
		case *ssa.TypeAssert:
			return derived(x.X, seen)
		case *ssa.Const:
			return "a nil context is used"
		case *ssa.Call:
			n := staticName(x)
			switch n {
			case "context.Background", "context.TODO", "context.WithoutCancel":
				return shortFn(n) + " at " + c.P.instrPos(x)
			case "(*net/http.Request).Context":
				return ""
			}
			var args []ssa.Value
			if x.Common().IsInvoke() {
				args = append(args, x.Common().Value)
			}
			args = append(args, x.Common().Args...)
			found := false
			for _, a := range args {
				if isNamed(a.Type(), ctxType) {
					found = true
					if w := derived(a, seen); w != "" {
						return w
					}
				}
			}
			if g := x.Common().StaticCallee(); g != nil && c.P.inModule(g) && len(g.Blocks) > 0 {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, r := range ret.Results {
							if isNamed(r.Type(), ctxType) {
								if w := derived(r, seen); w != "" {
									return w
								}
							}
						}
					}
				}
				return ""
			}
			if !found {
				return "the context comes from " + shortFn(n) + ", which is not given the caller's"
			}
			return ""
		}
		return "cannot trace the context (" + fmt.Sprintf("%T", v) + ")"
	}
	var reqDerived func(v ssa.Value, seen map[ssa.Value]bool) string
	reqDerived = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return ""
		case *ssa.FreeVar:
			f := x.Parent()
			for i, y := range f.FreeVars {
				if y != x {
					continue
				}
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							if w := reqDerived(mc.Bindings[i], seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if w := reqDerived(ed, seen); w != "" {
					return w
				}
			}
			return ""
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					if w := reqDerived(st.Val, seen); w != "" {
						return w
					}
				}
			}
			return ""
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				return "the request is taken from a field without attaching a context"
			}
			return reqDerived(x.X, seen)
		case *ssa.Extract:
			return reqDerived(x.Tuple, seen)
		case *ssa.Const:
			return ""
		case *ssa.Call:
			switch n := staticName(x); n {
			case "net/http.NewRequestWithContext", "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
				return "" // context operand checked at that call
			case "net/http.NewRequest":
				return "the request is built without a context"
			default:
				if g := x.Common().StaticCallee(); g != nil && c.P.inModule(g) {
					for _, b := range g.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, r := range ret.Results {
								if isNamed(r.Type(), "net/http.Request") {
									if w := reqDerived(r, seen); w != "" {
										return w
									}
								}
							}
						}
					}
					return ""
				}
				return "cannot trace the request (" + n + ")"
			}
		}
		return "cannot trace the request"
	}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		for _, in := range callsIn(f) {
			n := staticName(in)
			pos := c.P.instrPos(in)
			args := in.Common().Args
			site := shortFn(n) + " in " + enclosing(in)
			switch n {
			case "net/http.NewRequestWithContext":
				c.Funcs[f] = true
				w := derived(args[0], map[ssa.Value]bool{})
				c.Check(w == "" || !hasCtx(f), "request-context", site, pos, w)
			case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
				w := derived(args[1], map[ssa.Value]bool{})
				c.Check(w == "" || !hasCtx(f), "request-context", site, pos, w)
			case "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
				c.Funcs[f] = true
				i := 1
				if in.Common().IsInvoke() {
					i = 0
				}
				w := reqDerived(args[i], map[ssa.Value]bool{})
				c.Check(w == "" || !hasCtx(f), "sent-with-context", site, pos, w)
			default:
				if netCalls[n] {
					c.Check(!hasCtx(f), "sent-with-context", site, pos, "a request is sent without the available context")
					continue
				}
				g := in.Common().StaticCallee()
				if g == nil || !c.P.inModule(g) {
					continue
				}
				for _, a := range args {
					if isNamed(a.Type(), ctxType) {
						w := derived(a, map[ssa.Value]bool{})
						c.Check(w == "" || !hasCtx(f), "context-passed-on", site, pos, w)
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNamed(st.Val.Type(), ctxType) {
					w := derived(st.Val, map[ssa.Value]bool{})
					fv := fieldVar(fa.X.Type(), fa.Field)
					c.Check(w == "", "context-field", fv.Name()+" in "+enclosing(in), c.P.instrPos(in), w)
				}
			}
		}
	}
	c.AtLeast("request-context", 2, "request constructions")
	c.AtLeast("sent-with-context", 2, "requests sent")
	c.AtLeast("context-passed-on", 2, "calls that pass a context on")
}
