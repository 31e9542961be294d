package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", checkC04, "ExpandApk computes ControlHash and PackageHash from the section files (C03)")
	register("C05", checkC05, "rename within a directory is atomic", "files of a temporary directory are trusted by nobody else")
}

// nameLeaf follows a file name built from directory + encoded hash + constant
// suffixes to the value the name stands for.
func nameLeaf(t *Term, pred func(*Term) bool) (leaf *Term, suffix string) {
	for i := 0; i < 20; i++ {
		if l := leafThrough(t, pred); l != nil {
			return l, suffixOf(t) + suffix
		}
		switch {
		case t.isCall("path/filepath.Join") || t.isCall("path.Join"):
			t = t.Args[len(t.Args)-1]
		case t.isCall("strings.TrimSuffix"):
			if k, ok := t.Args[1].strConst(); ok {
				suffix = "-" + k + suffix
			}
			t = t.Args[0]
		default:
			return nil, ""
		}
	}
	return nil, ""
}

func suffixOf(t *Term) string {
	switch {
	case t.Op == "bin" && t.Fn == "+":
		if k, ok := t.Args[1].strConst(); ok {
			return suffixOf(t.Args[0]) + k
		}
	case t.isCall("fmt.Sprintf"):
		if k, ok := t.Args[0].strConst(); ok {
			if i := strings.IndexByte(k, '%'); i >= 0 && len(k) > i+1 {
				return k[i+2:]
			}
		}
	case t.isCall("strings.TrimSuffix"):
		if k, ok := t.Args[1].strConst(); ok {
			if s := suffixOf(t.Args[0]); strings.HasSuffix(s, k) {
				return strings.TrimSuffix(s, k)
			}
		}
	}
	return ""
}

func normSuffix(s string) string {
	if i := strings.Index(s, "-"); i >= 0 && strings.HasSuffix(s[:i], s[i+1:]) {
		return strings.TrimSuffix(s[:i], s[i+1:])
	}
	return s
}

func checkC04(c *Ctx) {
	c.Rule("every os.Rename of a section file of an expanded package puts it at a name whose last element is that section's own hash (control hash for signature and control, data hash for both data files) followed by a suffix of its own; a decompressed data file is only created from the data file it sits next to")
	c.Rule("every expanded package assembled from existing files takes its control section from the name of the requested package's index checksum, and its data section from the name of the data hash read from that very control file, using the suffixes the writer uses")
	fld := map[string]*types.Var{}
	for _, n := range []string{"ControlFile", "SignatureFile", "PackageFile", "TarFile", "ControlHash", "PackageHash"} {
		fld[n] = namedField(c.P, "pkg/expandapk", "APKExpanded", n)
		if fld[n] == nil {
			c.Undecided("anchor", "APKExpanded."+n, "?", "field not found")
			return
		}
	}
	fileFor := map[*types.Var]string{fld["ControlFile"]: "ControlFile", fld["SignatureFile"]: "SignatureFile", fld["PackageFile"]: "PackageFile", fld["TarFile"]: "TarFile"}
	hashFor := map[string]*types.Var{"ControlFile": fld["ControlHash"], "SignatureFile": fld["ControlHash"], "PackageFile": fld["PackageHash"], "TarFile": fld["PackageHash"]}
	suffix := map[string]map[string]string{}
	addSuffix := func(role, sfx, pos string) {
		sfx = normSuffix(sfx)
		if suffix[role] == nil {
			suffix[role] = map[string]string{}
		}
		suffix[role][sfx] = pos
	}
	hasE := func(f *ssa.Function) *ssa.Parameter {
		for _, p := range f.Params {
			if isExpPtr(p.Type()) {
				return p
			}
		}
		return nil
	}
	ren := c.P.reachSet(func(n string) bool { return n == "os.Rename" })
	expPkg := namedFieldPkg(c.P, "pkg/expandapk")
	covered := map[ssa.Instruction]bool{}
	small := func(f *ssa.Function) bool {
		if hasE(f) != nil && ren[f] {
			return true
		}
		for _, p := range f.Params {
			if types.IsInterface(p.Type()) && strings.Contains(types.TypeString(p.Type(), nil), "Reader") {
				return false
			}
		}
		return instrCount(f) <= 40
	}
	for _, f := range c.P.Funcs {
		if hasE(f) == nil || !ren[f] || f.Synthetic != "" {
			continue
		}
		// outermost only
		inner := false
		for _, in := range c.P.callersOf(f) {
			if g := outermost(in); hasE(g) != nil && ren[g] && g != f && g.Pkg == f.Pkg {
				inner = true
			}
		}
		if inner || f.Parent() != nil {
			continue
		}
		f := f
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool {
			if g.Signature.Recv() != nil && isExpPtr(g.Signature.Recv().Type()) && f.Pkg != g.Pkg {
				return false
			}
			return small(g)
		}
		var E *Term
		e.OnCall = func(s *State, ev *CallEvent) {
			switch ev.Name {
			case "io.Copy", "io.CopyBuffer":
				s.Mark("copied", ev.Args[0], ev.Args[1])
				return
			case "os.Rename":
			default:
				return
			}
			src, dst := ev.Args[0], ev.Args[1]
			pos := c.P.instrPos(ev.Instr)
			role := ""
			for fv, r := range fileFor {
				if src == e.T.mk("load", "", nil, nil, e.faddr(E, fv)) || fieldBase(src, fv) == E {
					role = r
				}
			}
			if role == "" {
				covered[ev.Instr] = true
				site := "os.Rename in " + enclosing(ev.Instr)
				// creating a file the package refers to
				dr := ""
				for fv, r := range fileFor {
					if fieldBase(dst, fv) == E || dst == s.Load(e.faddr(E, fv), fv.Type()) {
						dr = r
					}
				}
				if dr == "" {
					c.Check(!dst.contains(func(x *Term) bool { return x == E }), "filed-under-own-hash", site, pos, "a file that is not a section of the package is renamed to "+dst.String())
					return
				}
				ok := false
				if dr == "TarFile" {
					for _, m := range s.MarksOf("copied") {
						h, r := m.Args[0], m.Args[1]
						if src.contains(func(x *Term) bool { return x == h }) && r.contains(func(x *Term) bool { return fieldBase(x, fld["PackageFile"]) == E }) {
							ok = true
						}
					}
				}
				c.Check(ok, "decompressed-from-sibling", site, pos, "the file renamed to "+dst.String()+" was not decompressed from the package's own data file; path: "+s.TraceString())
				return
			}
			covered[ev.Instr] = true
			hv := s.Load(e.faddr(E, hashFor[role]), hashFor[role].Type())
			leaf, sfx := nameLeaf(dst, func(x *Term) bool { return x == hv })
			c.Check(leaf != nil, "filed-under-own-hash", role+" in "+enclosing(ev.Instr), pos, role+" is renamed to "+dst.String()+", which is not named after "+hashFor[role].Name()+"; path: "+s.TraceString())
			if leaf != nil {
				addSuffix(role, sfx, pos)
			}
		}
		e.Run(f, func(s *State) {
			for _, p := range f.Params {
				if isExpPtr(p.Type()) {
					E = s.frames[0].env[p]
				}
			}
		})
		c.Engine(shortFn(f.String()), e)
	}
	// assembling an expanded package from existing files
	reads := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg == expPkg || !returnsExp(f) {
			continue
		}
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && al.Heap && isNamed(al.Type(), expType) {
					makes = true
				}
			}
		}
		if !makes {
			continue
		}
		reads++
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool {
			if g.Pkg == expPkg {
				return false
			}
			return small(g) || hasE(g) != nil
		}
		e.OnEnd = func(s *State, rets []*Term) {
			if len(rets) == 0 || rets[0].isNil() || rets[0].Op != "alloc" || len(rets) > 1 && s.IsNil(rets[len(rets)-1]) == 0 {
				return
			}
			pos := c.P.pos(f.Pos())
			at := func(n string) *Term { return s.Load(e.faddr(rets[0], fld[n]), fld[n].Type()) }
			isChk := func(x *Term) bool { return isMethod(x, "ChecksumString") }
			ctl := at("ControlFile")
			fromCtl := func(x *Term) bool {
				switch {
				case x.Op == "bin" || x.Op == "slice" || x.Op == "conv" || x.Op == "pure":
					return false
				case isMethod(x, "EncodeToString"), x.Op == "extract" && (isMethod(x.Args[0], "DecodeString") || x.Args[0].isCall("encoding/hex.DecodeString")):
					return false
				}
				return x.contains(func(y *Term) bool {
					return (y.isCall("os.Open") || y.isCall("os.ReadFile") || y.isCall("os.OpenFile")) && y.Args[0] == ctl || isMethod(y, "ControlData") && y.Args[0] == rets[0]
				})
			}
			nm := shortFn(f.String())
			l, sfx := nameLeaf(ctl, isChk)
			c.Check(l != nil, "taken-by-index-checksum", "ControlFile in "+nm, pos, "the control section is taken from "+ctl.String()+", which is not named after the requested package's checksum; path: "+s.TraceString())
			if l != nil {
				addSuffix("ControlFile", sfx, pos)
			}
			c.Check(leafThrough(at("ControlHash"), isChk) != nil && leafThrough(at("ControlHash"), isChk) == l, "taken-by-index-checksum", "ControlHash in "+nm, pos, "the control hash is not the checksum the file was found under: "+at("ControlHash").String())
			if sg := at("SignatureFile"); sg.strOr() != "" {
				sl, sfx := nameLeaf(sg, isChk)
				c.Check(sl != nil && sl == l, "taken-by-index-checksum", "SignatureFile in "+nm, pos, "the signature is taken from "+sg.String())
				if sl != nil {
					addSuffix("SignatureFile", sfx, pos)
				}
			}
			pf := at("PackageFile")
			pl, psfx := nameLeaf(pf, fromCtl)
			c.Check(pl != nil, "data-by-control-hash", "PackageFile in "+nm, pos, "the data section is taken from "+pf.String()+", which is not named after the data hash read from the control section used; path: "+s.TraceString())
			if pl != nil {
				addSuffix("PackageFile", psfx, pos)
			}
			c.Check(pl != nil && leafThrough(at("PackageHash"), fromCtl) != nil, "data-by-control-hash", "PackageHash in "+nm, pos, "the data hash is not the one read from the control section: "+at("PackageHash").String())
			tl, tsfx := nameLeaf(at("TarFile"), fromCtl)
			c.Check(tl != nil, "data-by-control-hash", "TarFile in "+nm, pos, "the decompressed data is taken from "+at("TarFile").String())
			if tl != nil {
				addSuffix("TarFile", tsfx, pos)
			}
		}
		e.Run(f, nil)
		c.Engine(shortFn(f.String()), e)
	}
	for role, m := range suffix {
		d := ""
		for k, p := range m {
			d += fmt.Sprintf("%q at %s ", k, p)
		}
		c.Check(len(m) == 1, "same-suffix", role, "pkg/apk", "writer and reader of the cache disagree on the name of "+role+": "+d)
		for r2, m2 := range suffix {
			if r2 < role && hashFor[r2] == hashFor[role] {
				for k := range m {
					_, clash := m2[k]
					c.Check(!clash, "distinct-suffix", r2+"/"+role, "pkg/apk", "both sections are filed under the same name")
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if staticName(in) == "os.Rename" && hasE(outermost(f)) != nil && !covered[in] {
				c.Undecided("rename-covered", "os.Rename in "+shortFn(f.String()), c.P.instrPos(in), "not reached by the analysis")
			}
		}
	}
	c.AtLeast("filed-under-own-hash", 1, "renames of package sections")
	c.AtLeast("taken-by-index-checksum", 1, "uses of cached control sections")
	c.AtLeast("data-by-control-hash", 1, "uses of cached data sections")
}

func (t *Term) strOr() string {
	if k, ok := t.strConst(); ok {
		return k
	}
	return "?"
}

func returnsExp(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && isExpPtr(r.At(0).Type())
}

func namedFieldPkg(p *Prog, rel string) *ssa.Package {
	for _, f := range p.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+rel {
			return f.Pkg
		}
	}
	return nil
}

// pathOrigins collects where the leading part of a path string comes from.
type pathOrigins struct {
	p     *Prog
	seen  map[ssa.Value]bool
	final []string // origins that are not temporary
	temp  int
	pos   []string
}

func (o *pathOrigins) visit(v ssa.Value) {
	if o.seen[v] {
		return
	}
	o.seen[v] = true
	bad := func(w string) { o.final = append(o.final, w) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
			return
		}
		bad("constant " + x.String())
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.visit(e)
		}
	case *ssa.ChangeType:
		o.visit(x.X)
	case *ssa.Convert:
		o.visit(x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			o.visit(x.X)
			return
		}
		bad(x.String())
	case *ssa.Extract:
		o.call(x.Tuple, x.Index)
	case *ssa.Call:
		o.call(x, 0)
	case *ssa.MakeInterface:
		o.visit(x.X)
	case *ssa.Slice:
		o.visit(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			o.addr(x.X)
			return
		}
		bad(x.String())
	case *ssa.Field:
		o.field(fieldVar(x.X.Type(), x.Field))
	case *ssa.FreeVar:
		o.freeVar(x)
	case *ssa.Parameter:
		f := x.Parent()
		if isExportedFn(f) {
			bad("parameter " + x.Name() + " of exported " + shortFn(f.String()))
			return
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, g := range o.p.Funcs {
			for _, in := range callsIn(g) {
				if in.Common().StaticCallee() == f && idx < len(in.Common().Args) {
					n++
					o.visit(in.Common().Args[idx])
				}
			}
		}
		if n == 0 {
			bad("parameter " + x.Name() + " of " + shortFn(f.String()))
		}
	default:
		bad(v.String())
	}
}

func (o *pathOrigins) freeVar(x *ssa.FreeVar) {
	f := x.Parent()
	i := -1
	for k, v := range f.FreeVars {
		if v == x {
			i = k
		}
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				o.visit(mc.Bindings[i])
			}
		}
	}
}

// addr: a load through this address.
func (o *pathOrigins) addr(a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		o.field(fieldVar(x.X.Type(), x.Field))
	case *ssa.FreeVar:
		f := x.Parent()
		for k, v := range f.FreeVars {
			if v != x {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						o.addr(mc.Bindings[k])
					}
				}
			}
		}
	case *ssa.Alloc:
		o.stores(x)
	case *ssa.IndexAddr:
		o.addr(x.X)
	case *ssa.UnOp:
		o.visit(x)
	default:
		o.final = append(o.final, "load of "+a.String())
	}
}

func (o *pathOrigins) stores(a ssa.Value) {
	if o.seen[a] {
		return
	}
	o.seen[a] = true
	n := 0
	var scan func(a ssa.Value)
	scan = func(a ssa.Value) {
		for _, r := range *a.Referrers() {
			switch st := r.(type) {
			case *ssa.Store:
				if st.Addr == a {
					n++
					o.visit(st.Val)
				}
			case *ssa.MakeClosure:
				g := st.Fn.(*ssa.Function)
				for i, b := range st.Bindings {
					if b == a {
						scan(g.FreeVars[i])
					}
				}
			}
		}
	}
	scan(a)
	if n == 0 {
		o.final = append(o.final, "unset variable")
	}
}

func (o *pathOrigins) field(fv *types.Var) {
	n := 0
	for _, f := range o.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
					n++
					o.visit(st.Val)
				}
			}
		}
	}
	if n == 0 {
		o.final = append(o.final, "field "+fv.Name())
	}
}

func firstVararg(v ssa.Value) ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
								return st.Val
							}
						}
					}
				}
			}
		}
	}
	return nil
}

func (o *pathOrigins) call(v ssa.Value, idx int) {
	c, ok := v.(*ssa.Call)
	if !ok {
		o.final = append(o.final, v.String())
		return
	}
	n := staticName(c)
	args := c.Call.Args
	switch n {
	case "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempDir", "io/ioutil.TempFile":
		if idx == 0 {
			o.temp++
			return
		}
	case "path/filepath.Join", "path.Join":
		if f := firstVararg(args[0]); f != nil {
			o.visit(f)
			return
		}
	case "fmt.Sprintf":
		if k, ok := args[0].(*ssa.Const); ok && strings.HasPrefix(constant.StringVal(k.Value), "%s") {
			if f := firstVararg(args[1]); f != nil {
				o.visit(f)
				return
			}
		}
	case "strings.TrimSuffix", "path/filepath.Clean", "path/filepath.Dir", "path.Dir", "path/filepath.FromSlash":
		o.visit(args[0])
		return
	case "os.Create", "os.OpenFile", "os.Open":
		if idx == 0 {
			o.visit(args[0])
			return
		}
	case "(*os.File).Name":
		o.visit(args[0])
		return
	}
	if g := c.Call.StaticCallee(); g != nil && o.p.inModule(g) && len(g.Blocks) > 0 {
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				o.visit(r.Results[idx])
			}
		}
		return
	}
	o.final = append(o.final, shortFn(n))
}

// fileWriters: creates or truncates the file named by argument 0.
func createsFile(in ssa.CallInstruction) bool {
	switch staticName(in) {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate":
		return true
	case "os.OpenFile":
		if k, ok := in.Common().Args[1].(*ssa.Const); ok {
			return k.Int64()&0x3 != 0 || k.Int64()&(0x40|0x200) != 0
		}
		return true
	}
	return false
}

func checkC05(c *Ctx) {
	c.Rule("who-may-write: outside the directory-backed filesystem, every file opened for writing, creating or truncating lies in a temporary directory or is itself a fresh temporary file (provenance of the path over all assignments and callers)")
	c.Rule("typestate: at every os.Rename of a file written on the path, all writes, flushes and the close of that file have been tested successful, the close came last, and the temporary file was not created in another directory")
	c.Rule("ExpandApk returns success only after every file it created was closed, and every write and flush to it tested, successfully")
	dirTypes := map[*ssa.Function]bool{}
	if impl, _, _ := dirFSTypes(c); impl != nil {
		for _, f := range c.P.Funcs {
			if f.Pkg != nil && f.Pkg.Pkg == impl.Obj().Pkg() {
				dirTypes[f] = true // target filesystem, not a published file
			}
		}
	}
	for _, f := range c.P.Funcs {
		if dirTypes[f] {
			continue
		}
		for _, in := range callsIn(f) {
			if !createsFile(in) {
				continue
			}
			o := &pathOrigins{p: c.P, seen: map[ssa.Value]bool{}}
			o.visit(in.Common().Args[0])
			site := shortFn(staticName(in)) + " in " + shortFn(f.String())
			c.Check(len(o.final) == 0, "written-under-temporary-name", site, c.P.instrPos(in), "a file is opened for writing under a name that is not inside a temporary directory: it comes from "+strings.Join(o.final, ", "))
		}
	}
	ren := c.P.reachSet(func(n string) bool { return n == "os.Rename" })
	covered := map[ssa.Instruction]bool{}
	fileParam := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isNamed(p.Type(), "os.File") || isNamed(p.Type(), expType) {
				return true
			}
			if types.IsInterface(p.Type()) && strings.Contains(types.TypeString(p.Type(), nil), "Writer") {
				return true
			}
		}
		return false
	}
	isTemp := func(n string) bool { return n == "os.CreateTemp" || n == "os.Create" || n == "os.OpenFile" }
	install := func(e *Engine, entry *ssa.Function) {
		handles := func(t *Term) []*Term {
			var hs []*Term
			seen := map[*Term]bool{}
			t.walk(func(x *Term) bool {
				if x.Op == "extract" && x.Fn == "0" && len(x.Args) == 1 && (x.Args[0].Op == "inst") && isTemp(x.Args[0].Fn) && !seen[x] {
					seen[x] = true
					hs = append(hs, x)
				}
				return true
			})
			return hs
		}
		e.OnPost = func(s *State, ev *CallEvent) {
			if ev.Final == nil || ev.Deferred {
				return
			}
			if isTemp(ev.Name) {
				return
			}
			if bufferingWriter(ev.Name) {
				for _, h := range handles(ev.Args[0]) {
					s.Mark("buf", h, ev.Final)
				}
				return
			}
			rt := ev.Instr.Common().Signature().Results()
			if rt.Len() == 0 || !types.Identical(rt.At(rt.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
				return
			}
			errT := ev.Final
			if rt.Len() > 1 {
				errT = e.Extract(ev.Final, rt.Len()-1, nil)
			}
			flush := len(ev.Args) == 1 && (strings.HasSuffix(ev.Name, ").Flush") || strings.HasSuffix(ev.Name, ").Close"))
			for i, a := range ev.Args {
				for _, h := range handles(a) {
					a.walk(func(x *Term) bool {
						if x.Op == "inst" && bufferingWriter(x.Fn) {
							if flush && x == a {
								s.Mark("flushing", h, x, errT)
							} else {
								s.Mark("buf", h, x)
							}
						}
						return true
					})
					if ev.Name == "(*os.File).Close" && i == 0 {
						s.Mark("closing", h, errT)
						continue
					}
					if strings.HasPrefix(ev.Name, "(*os.File).") && (strings.HasSuffix(ev.Name, "Stat") || strings.HasSuffix(ev.Name, "Read") || strings.HasSuffix(ev.Name, "Seek")) {
						continue
					}
					if strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "os.Re") {
						continue
					}
					s.Mark("pend", h, errT)
					s.Unmark("closed", h)
				}
			}
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			x := eqNil(t)
			if t.isCall("errors.Is") && isGlobalNamed(t.Args[1], "EOF") {
				x = t.Args[0]
			}
			if a, b, ok := eqPair(t, val); ok {
				if isGlobalNamed(a, "EOF") {
					x = b
				} else if isGlobalNamed(b, "EOF") {
					x = a
				}
			}
			if x == nil || !val {
				return
			}
			xs := []*Term{x}
			if x.isCall("errors.Join") {
				xs = append(xs, x.Args...)
			}
			for _, x := range xs {
				for _, m := range s.MarksOf("pend") {
					if m.Args[1] == x {
						s.Unmark("pend", m.Args...)
					}
				}
				for _, m := range s.MarksOf("flushing") {
					if m.Args[2] == x {
						s.Unmark("flushing", m.Args...)
						s.Unmark("buf", m.Args[0], m.Args[1])
					}
				}
				for _, m := range s.MarksOf("closing") {
					if m.Args[1] == x {
						s.Unmark("closing", m.Args...)
						s.Mark("closed", m.Args[0])
					}
				}
			}
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			if ev.Name != "os.Rename" {
				return
			}
			covered[ev.Instr] = true
			src := ev.Args[0]
			site := "os.Rename in " + enclosing(ev.Instr)
			pos := c.P.instrPos(ev.Instr)
			hs := handles(src)
			if len(hs) == 0 {
				// by path: the handle created under it
				for _, m := range s.MarksOf("made") {
					if m.Args[1] == src {
						hs = append(hs, m.Args[0])
					}
				}
			}
			if len(hs) == 0 {
				if fieldOfTerm(src) != nil && isNamed(addrRoot(src.Args[0]).Typ, expType) || src.Op == "load" && src.Args[0].Op == "faddr" && isNamed(src.Args[0].Args[0].Typ, expType) {
					c.OK("complete-before-rename", site+" ("+fieldOfTerm(src).Name()+")", pos, "section file completed by ExpandApk")
					return
				}
				c.Undecided("complete-before-rename", site, pos, "cannot tell which file is published: "+src.String())
				return
			}
			for _, h := range hs {
				why := ""
				if !s.HasMark("closed", h) {
					why = "the file has not been closed successfully"
				}
				for _, m := range s.MarksOf("pend") {
					if m.Args[0] == h {
						why = "the result of " + m.Args[1].String() + " has not been tested"
					}
				}
				if unflushed(s, h) {
					why = "a buffered writer on the file has not been flushed successfully"
				}
				c.Check(why == "", "complete-before-rename", site, pos, why+" before the file is renamed to its final name; path: "+s.TraceString())
				if mk := h.Args[0]; mk.Fn == "os.CreateTemp" {
					d := mk.Args[0]
					k, isK := d.strConst()
					other := isK && k == "" || d.isCall("os.TempDir")
					c.Check(!other, "same-directory", site, pos, "the temporary file is created in the system's temporary directory, so the rename is not atomic")
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if !ren[f] || dirTypes[f] || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		direct := false
		fs := append([]*ssa.Function{f}, f.AnonFuncs...)
		for _, g := range fs {
			for _, in := range callsIn(g) {
				if staticName(in) == "os.Rename" && len(in.Common().Args) == 2 {
					direct = true
				}
			}
		}
		// analyse from a function that obtains the file itself
		if !direct && !callsDirect(f, ren, fileParam) {
			continue
		}
		if fileParam(f) && !isNamed(paramType(f, expType), expType) || !isExportedFn(f) && handedFile(f) {
			continue
		}
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool {
			return !returnsExp(g) && (g.Parent() != nil || fileParam(g) || ren[g] || instrCount(g) <= 40) && instrCount(g) < 400
		}
		install(e, f)
		e.Run(f, nil)
		c.Engine(shortFn(f.String()), e)
	}
	for _, f := range c.P.Funcs {
		if dirTypes[f] {
			continue
		}
		for _, in := range callsIn(f) {
			if staticName(in) == "os.Rename" && !covered[in] {
				c.Undecided("complete-before-rename", "os.Rename in "+shortFn(f.String()), c.P.instrPos(in), "not reached by the analysis")
			}
		}
	}
	c.AtLeast("complete-before-rename", 1, "renames to a final name")
	c.AtLeast("written-under-temporary-name", 1, "files opened for writing")
	// section files
	if x := c.Fn("pkg/expandapk.ExpandApk"); x != nil {
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool { return g.Pkg == x.Pkg && !returnsExp(g) && instrCount(g) < 400 }
		install(e, x)
		e.KeepSumMark = func(string) bool { return true }
		post := e.OnPost
		e.OnPost = func(s *State, ev *CallEvent) {
			post(s, ev)
			if ev.Final == nil {
				return
			}
			if isTemp(ev.Name) {
				s.Mark("made", e.Extract(ev.Final, 0, nil), ev.Args[0])
			}
			if ev.Name == "(*os.File).Close" && !ev.Deferred {
				mine := false
				for _, m := range s.MarksOf("made") {
					mine = mine || m.Args[0] == ev.Args[0]
				}
				if !mine {
					s.Mark("ownedclose", ev.Final)
				}
			}
		}
		e.OnStore = func(s *State, addr, v *Term, in ssa.Instruction) {
			if addr.Op != "faddr" {
				return
			}
			for _, m := range s.MarksOf("made") {
				if m.Args[0] == v {
					// owned by a writer object from here on
					s.Unmark("made", m.Args...)
					s.Mark("owned")
					s.Unmark("ownedclosed")
				}
			}
		}
		fact := e.OnFact
		e.OnFact = func(s *State, t *Term, val bool) {
			fact(s, t, val)
			if x := eqNil(t); x != nil && val && s.HasMark("ownedclose", x) {
				s.Unmark("ownedclose", x)
				s.Mark("ownedclosed")
			}
		}
		e.OnEnd = func(s *State, rets []*Term) {
			if len(rets) < 2 || s.IsNil(rets[1]) == 0 {
				return
			}
			if s.HasMark("owned") {
				c.Check(s.HasMark("ownedclosed"), "sections-complete", "section file being written", c.P.pos(x.Pos()), "ExpandApk succeeds although the file the last section is written to has not been closed successfully; path: "+s.TraceString())
			}
			for _, m := range s.MarksOf("made") {
				h := m.Args[0]
				why := ""
				if !s.HasMark("closed", h) {
					why = "has not been closed successfully"
				}
				for _, p := range s.MarksOf("pend") {
					if p.Args[0] == h {
						why = "was written to by " + p.Args[1].String() + ", whose result has not been tested"
					}
				}
				if unflushed(s, h) {
					why = "is written through a buffered writer that has not been flushed successfully"
				}
				c.Check(why == "", "sections-complete", "file created by "+h.Args[0].Fn, c.P.pos(x.Pos()), "ExpandApk succeeds although the file "+why+"; path: "+s.TraceString())
			}
		}
		e.Run(x, nil)
		c.Engine("ExpandApk", e)
	}
}

func paramType(f *ssa.Function, full string) types.Type {
	for _, p := range f.Params {
		if isNamed(p.Type(), full) {
			return p.Type()
		}
	}
	return types.Typ[types.Int]
}

// callsDirect: f calls a function that takes the file to publish.
func callsDirect(f *ssa.Function, ren map[*ssa.Function]bool, fileParam func(*ssa.Function) bool) bool {
	for _, in := range callsIn(f) {
		if g := in.Common().StaticCallee(); g != nil && ren[g] && fileParam(g) && (!isNamed(paramType(g, expType), expType) || !isExportedFn(g) && handedFile(g)) {
			return true
		}
	}
	return false
}

func bufferingWriter(n string) bool {
	for _, w := range []string{"bufio.NewWriter", "bufio.NewWriterSize", "tar.NewWriter", "gzip.NewWriter", "gzip.NewWriterLevel", "zlib.NewWriter"} {
		if n == w || strings.HasSuffix(n, "/"+w) {
			return true
		}
	}
	return false
}

func unflushed(s *State, h *Term) bool {
	for _, m := range s.MarksOf("buf") {
		if m.Args[0] == h {
			return true
		}
	}
	return false
}

// handedFile: the function is handed an open file.
func handedFile(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNamed(p.Type(), "os.File") {
			return true
		}
	}
	return false
}
