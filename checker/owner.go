package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", checkC12,
		"the target filesystem honours O_EXCL, Remove and Open as os does, and links never replace an existing entry",
		"a filesystem that accepts whole archive entries (WriteHeader) applies the same policy itself")
}

const tarNext = "(*archive/tar.Reader).Next"

// fsOp: the operation of the module's filesystem interfaces the name denotes.
func fsOp(name string) string {
	if strings.HasPrefix(name, "("+modPath+"/pkg/fs.") || strings.HasPrefix(name, "(*"+modPath+"/pkg/fs.") || strings.HasPrefix(name, "(io/fs.") {
		return name[strings.LastIndex(name, ".")+1:]
	}
	if strings.HasPrefix(name, "io/fs.") {
		return name[len("io/fs."):]
	}
	return ""
}

func isDigest(t *Term) bool {
	pax := func(x *Term) bool {
		if isMethod(x, "Sum") {
			return true
		}
		if x.Op == "mapget" && x.Args[0].Typ != nil && x.Args[0].Typ.String() == "map[string]string" {
			return true
		}
		if x.Op == "load" && x.Args[0].Op == "faddr" || x.Op == "field" {
			if sl, ok := x.Typ.(*types.Slice); ok {
				b, ok := sl.Elem().(*types.Basic)
				return ok && b.Kind() == types.Byte
			}
		}
		return false
	}
	return leafThrough(t, pax) != nil
}

// ownerField: the field of APK that tells which package wrote a file.
func ownerField(p *Prog) *types.Var {
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/pkg/apk" {
			continue
		}
		o := f.Pkg.Pkg.Scope().Lookup("APK")
		if o == nil {
			return nil
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			m, ok := st.Field(i).Type().Underlying().(*types.Map)
			if ok && isNamed(m.Elem(), modPath+"/pkg/apk.Package") {
				return st.Field(i)
			}
		}
		return nil
	}
	return nil
}

func checkC12(c *Ctx) {
	c.Rule("typestate per archive entry under InstallPackages: a name from the archive is removed from the target filesystem only on paths where the recorded owner was looked up under that name, the owner was found not to replace the new package, the contents were found to differ, and either both origins were found equal and non-empty or the new package was found to replace the owner")
	c.Rule("archive entries are opened for writing only with O_CREATE|O_EXCL, and no other creating or truncating operation is applied to their names")
	c.Rule("before the next entry is read (or the archive is reported as installed) every regular entry has been created, or was found identical to the existing file, or its owner was found to replace the new package; the recorded owner of a name is set to the new package exactly when the entry was created by it")
	entry := c.Fn("(*pkg/apk.APK).InstallPackages")
	nameF := stdField(c.P, "archive/tar", "Header", "Name")
	typeF := stdField(c.P, "archive/tar", "Header", "Typeflag")
	ownF := ownerField(c.P)
	pf := func(n string) *types.Var { return namedField(c.P, "pkg/apk", "Package", n) }
	pname, porigin, preplaces := pf("Name"), pf("Origin"), pf("Replaces")
	if entry == nil || nameF == nil || typeF == nil || ownF == nil || pname == nil || porigin == nil || preplaces == nil {
		c.Undecided("anchor", "fields", "?", "tar.Header.Name/Typeflag, Package.Name/Origin/Replaces or the owner map of APK not found")
		return
	}
	entries, named := c.P.unpackers(entry, nameF)
	for f := range named {
		ok := false
		for _, en := range entries {
			ok = ok || f == en || c.P.staticReach(map[*ssa.Function]bool{f: true})[en]
		}
		c.Check(ok, "entry-covered", "files created in "+shortFn(f.String()), c.P.pos(f.Pos()), "files are created under names from archive headers outside the installation of a package")
	}
	for _, en := range entries {
		c.ownership(en, nameF, typeF, ownF, pname, porigin, preplaces)
	}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if k := in.Common(); k.IsInvoke() && k.Method.Name() == "WriteHeader" && isNamed(k.Value.Type(), modPath+"/pkg/apk.WriteHeaderer") {
				c.lazyOwnership(f, ownF, typeF, nameF)
				break
			}
		}
	}
	c.AtLeast("replaced-only-when-allowed", 1, "removals of existing files")
	c.AtLeast("exclusive-create", 1, "files created from archive entries")
	c.AtLeast("entry-settled", 1, "entries read while installing")
	c.AtLeast("owner-recorded", 1, "owners recorded")
}

// unpackers: the functions under entry that unpack an archive onto the filesystem: they read its entries, and create
// files under their names. Also all functions that create files under such names.
func (p *Prog) unpackers(entry *ssa.Function, nameF *types.Var) ([]*ssa.Function, map[*ssa.Function]bool) {
	named := p.fileCreators(nameF)
	nexts := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, in := range callsIn(f) {
			if staticName(in) == tarNext {
				nexts[f] = true
			}
		}
	}
	reads, creates := p.staticReach(nexts), p.staticReach(named)
	both := func(f *ssa.Function) bool { return reads[f] && creates[f] }
	var entries []*ssa.Function
	under := map[*ssa.Function]bool{}
	var down func(f *ssa.Function)
	down = func(f *ssa.Function) {
		if under[f] {
			return
		}
		under[f] = true
		lower := false
		for _, g := range p.staticCallees(f) {
			if both(g) {
				lower = true
				down(g)
			}
		}
		if !lower {
			entries = append(entries, f)
		}
	}
	if both(entry) {
		down(entry)
	}
	return entries, named
}

// usesField: v is computed from a load of the field.
func usesField(v ssa.Value, fv *types.Var, d int) bool {
	if d > 6 {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
			return true
		}
		return usesField(y.X, fv, d+1)
	case *ssa.Field:
		return fieldVar(y.X.Type(), y.Field) == fv
	case *ssa.Phi:
		for _, e := range y.Edges {
			if usesField(e, fv, d+1) {
				return true
			}
		}
	case *ssa.BinOp:
		return usesField(y.X, fv, d+1) || usesField(y.Y, fv, d+1)
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if usesField(a, fv, d+1) {
				return true
			}
		}
	case *ssa.Parameter:
		// the name alone handed to a helper
		f := y.Parent()
		for i, p := range f.Params {
			if p != y {
				continue
			}
			if refs := f.Referrers(); refs != nil {
				for _, r := range *refs {
					if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(f) && i < len(ci.Common().Args) && usesField(ci.Common().Args[i], fv, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) ownership(entry *ssa.Function, nameF, typeF, ownF, pname, porigin, preplaces *types.Var) {
	e := NewEngine(c.P)
	e.Inline = func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg == entry.Pkg.Pkg
	}
	// entryOf: the archive entry a name belongs to.
	var entryOf func(n *Term) *Term
	entryOf = func(n *Term) *Term {
		if h := fieldBase(n, nameF); h != nil {
			return h
		}
		if n.isCall("path.Clean") || n.isCall("path/filepath.Clean") || n.Op == "conv" {
			return entryOf(n.Args[0])
		}
		return nil
	}
	fromArchive := func(n *Term) bool {
		return n.contains(func(x *Term) bool { return fieldBase(x, nameF) != nil || x.isCall(tarNext) })
	}
	ownerOf := func(t *Term) *Term { // pk -> the name it was looked up under
		if t != nil && (t.Op == "mapget" || t.Op == "extract") {
			m := t
			if t.Op == "extract" {
				m = t.Args[0]
			}
			if m.Op == "mapget" && fieldBase(m.Args[0], ownF) != nil {
				return m.Args[1]
			}
		}
		return nil
	}
	// elemOfReplaces: t is an element of some package's list of replaced names.
	elemOfReplaces := func(t *Term) *Term {
		if t.Op == "load" && t.Args[0].Op == "iaddr" {
			return fieldBase(t.Args[0].Args[0], preplaces)
		}
		if t.Op == "index" {
			return fieldBase(t.Args[0], preplaces)
		}
		return nil
	}
	isHdr := func(s *State, h *Term) *Term {
		for _, m := range s.MarksOf("entry") {
			if e.Extract(m.Args[0], 0, nil) == h {
				return h
			}
		}
		return nil
	}
	scanned, needScan := false, false
	// lookups of a package name in the Replaces of another: who lists whom
	member := func(t *Term) (lister, listed *Term) {
		nameOf := func(x *Term) *Term { return fieldBase(x, pname) }
		if (t.isCall("slices.Contains")) && len(t.Args) == 2 {
			if b := fieldBase(t.Args[0], preplaces); b != nil {
				return b, nameOf(t.Args[1])
			}
		}
		return nil, nil
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if b := elemOfReplaces(k); b != nil {
			s.Mark("setof", m, b)
		} else if k.Typ != nil && isStrOrBytes(k.Typ) {
			s.Mark("mixed", m)
		}
		if fieldBase(m, ownF) != nil {
			h := entryOf(k)
			site := "owner recorded in " + enclosing(in)
			if h == nil {
				c.Check(false, "owner-recorded", site, c.P.instrPos(in), "the owner is recorded under something other than the name of an archive entry")
				return
			}
			if isHdr(s, h) == nil {
				return // entries taken from elsewhere: checked by lazyEntries
			}
			ok := s.HasMark("written", h)
			c.Check(ok, "owner-recorded", site, c.P.instrPos(in), "a package is recorded as the owner of a file it did not create; path: "+s.TraceString())
			s.Mark("owned", h)
		}
	}
	inSet := func(s *State, t *Term, op string) (lister, listed *Term) {
		if t.Op != op || len(t.Args) < 2 {
			return nil, nil
		}
		for _, m := range s.MarksOf("setof") {
			if m.Args[0] == t.Args[0] && !s.HasMark("mixed", m.Args[0]) {
				return m.Args[1], fieldBase(t.Args[1], pname)
			}
		}
		// a set that stayed empty
		return nil, nil
	}
	lists := func(s *State, lister, listed *Term) {
		if lister == nil || listed == nil {
			return
		}
		s.Mark("lists", lister, listed)
	}
	listsNot := func(s *State, lister, listed *Term) {
		if lister == nil || listed == nil {
			return
		}
		s.Mark("listsnot", lister, listed)
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		// reading the archive ended
		if x := eqNil(t); x != nil {
			if nx := errOfCall(x, tarNext); nx != nil && !val {
				s.Mark("done", nx)
			}
			if val {
				for _, m := range s.MarksOf("open") {
					if x.Op == "extract" && x.Args[0] == m.Args[0] {
						s.Mark("written", m.Args[1])
					}
				}
			}
		}
		if val && t.isCall("errors.Is") {
			if nx := errOfCall(t.Args[0], tarNext); nx != nil {
				s.Mark("done", nx)
			}
		}
		if a, b, ok := eqPair(t, val); ok {
			if isDigest(a) && isDigest(b) {
				for _, m := range s.MarksOf("entry") {
					s.Mark("done", m.Args[0])
				}
			}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if nx := errOfCall(p[0], tarNext); nx != nil && isGlobalNamed(p[1], "EOF") {
					s.Mark("done", nx)
				}
				if h := fieldBase(p[0], typeF); h != nil {
					if n, ok := p[1].intConst(); ok && n != '0' && n != 0 {
						s.Mark("other", h)
					}
				}
				if l := elemOfReplaces(p[0]); l != nil {
					lists(s, l, fieldBase(p[1], pname))
				}
				if x, y := fieldBase(p[0], porigin), fieldBase(p[1], porigin); x != nil && y != nil {
					s.Mark("sameorigin", x, y)
				}
			}
		}
		if a, b, ok := neqPair(t, val); ok {
			if isDigest(a) && isDigest(b) {
				s.Mark("differs")
			}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if h := fieldBase(p[0], typeF); h != nil {
					if n, ok := p[1].intConst(); ok && n == '0' {
						s.Mark("other", h)
					}
				}
				if x, k := p[1].strConst(); k && x == "" {
					if b := fieldBase(p[0], porigin); b != nil {
						s.Mark("hasorigin", b)
					}
				}
				if n, k := p[1].intConst(); k && n == 0 && p[0].Op == "pure" && p[0].Fn == "len" {
					if b := fieldBase(p[0].Args[0], porigin); b != nil {
						s.Mark("hasorigin", b)
					}
				}
				if l, n := elemOfReplaces(p[0]), fieldBase(p[1], pname); l != nil && n != nil && ownerOf(l) != nil && ownerOf(n) == nil {
					scanned = true
				}
			}
		}
		// 0 < len(origin)
		if val && t.Op == "bin" && t.Fn == "<" && t.Args[1].Op == "pure" && t.Args[1].Fn == "len" {
			if b := fieldBase(t.Args[1].Args[0], porigin); b != nil {
				s.Mark("hasorigin", b)
			}
		}
		// the end of a list of replaced names was reached
		if !val && t.Op == "bin" && t.Fn == "<" && t.Args[1].Op == "pure" && t.Args[1].Fn == "len" {
			if l := fieldBase(t.Args[1].Args[0], preplaces); l != nil {
				s.Mark("exhausted", l)
			}
		}
		if l, n := member(t); l != nil {
			if val {
				lists(s, l, n)
			} else {
				listsNot(s, l, n)
			}
		}
		if l, n := inSet(s, t, "mapok"); l != nil {
			if val {
				lists(s, l, n)
			} else {
				listsNot(s, l, n)
			}
		}
		if l, n := inSet(s, t, "mapget"); l != nil && val {
			lists(s, l, n)
		}
		if (t.Op == "mapok" || t.Op == "mapget") && val && t.Args[0].isCall("makemap") {
			filled := s.HasMark("mixed", t.Args[0])
			for _, m := range s.MarksOf("setof") {
				filled = filled || m.Args[0] == t.Args[0]
			}
			if !filled {
				s.Mark("infeasible") // nothing was ever put into this map
			}
		}
		if val && t.isCall("strings.HasPrefix") && len(t.Args) == 2 {
			if p, ok := t.Args[1].strConst(); ok && p == "." {
				if h := fieldBase(t.Args[0], nameF); h != nil {
					s.Mark("other", h)
				}
			}
		}
	}
	settle := func(s *State, nx *Term, site, pos string) {
		if s.HasMark("infeasible") {
			return
		}
		h := e.Extract(nx, 0, nil)
		ok := s.HasMark("done", nx) || s.HasMark("other", h)
		if s.HasMark("written", h) {
			c.Check(s.HasMark("owned", h), "owner-recorded", site, pos, "a file was created but its owner is not recorded; path: "+s.TraceString())
			return
		}
		for _, m := range s.MarksOf("lists") {
			if ownerOf(m.Args[0]) != nil && entryOf(ownerOf(m.Args[0])) == h {
				ok = true
			}
		}
		c.Check(ok, "entry-settled", site, pos, "a regular entry is left behind that was neither created nor found identical nor belongs to a package that replaces this one; path: "+s.TraceString())
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Name == tarNext {
			for _, m := range s.MarksOf("entry") {
				if nx := m.Args[0]; nx.Args[0] == ev.Args[0] {
					if s.HasMark("installing") {
						settle(s, nx, "entry read in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr))
					}
					s.Unmark("entry", nx)
				}
			}
			return
		}
		op := fsOp(ev.Name)
		if op == "" || len(ev.Args) < 2 || !fromArchive(ev.Args[1]) {
			return
		}
		site := op + " in " + enclosing(ev.Instr)
		pos := c.P.instrPos(ev.Instr)
		switch op {
		case "Create", "WriteFile", "Truncate", "Rename", "RemoveAll":
			c.Bad("exclusive-create", site, pos, "an archive entry's name is passed to an operation that replaces existing content; path: "+s.TraceString())
		case "OpenFile":
			fl, ok := ev.Args[2].intConst()
			if !ok {
				c.Undecided("exclusive-create", site, pos, "open flags are not constant")
				return
			}
			if fl&int64(os.O_WRONLY|os.O_RDWR|os.O_TRUNC|os.O_CREATE|os.O_APPEND) == 0 {
				return
			}
			c.Check(fl&int64(os.O_CREATE) != 0 && fl&int64(os.O_EXCL) != 0, "exclusive-create", site, pos, "an archive entry is opened for writing without O_CREATE|O_EXCL")
			if h := entryOf(ev.Args[1]); h == nil {
				c.Undecided("exclusive-create", site, pos, "the name is derived from an archive entry in an unknown way")
			}
		case "Remove":
			h := entryOf(ev.Args[1])
			if h == nil {
				c.Bad("replaced-only-when-allowed", site, pos, "a name derived from an archive entry is removed; path: "+s.TraceString())
				return
			}
			if s.HasMark("infeasible") {
				return
			}
			why := removable(s, h, entryOf, ownerOf, e)
			for _, m := range s.MarksOf("exhausted") {
				byLookup := false
				for _, l := range s.MarksOf("listsnot") {
					byLookup = byLookup || l.Args[0] == m.Args[0]
				}
				if ownerOf(m.Args[0]) != nil && !byLookup {
					needScan = true
				}
			}
			if why == "" && !s.HasMark("differs") {
				why = "the contents were not found to differ"
			}
			c.Check(why == "", "replaced-only-when-allowed", site, pos, "an existing file is removed although "+why+"; path: "+s.TraceString())
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		if ev.Final == nil {
			return
		}
		if ev.Name == tarNext {
			s.Mark("entry", ev.Final)
		}
		switch fsOp(ev.Name) {
		case "OpenFile":
			if len(ev.Args) > 2 {
				if fl, ok := ev.Args[2].intConst(); ok && fl&int64(os.O_CREATE) != 0 {
					if h := entryOf(ev.Args[1]); h != nil {
						s.Mark("open", ev.Final, h)
						s.Mark("installing")
					}
				}
			}
		case "MkdirAll", "Symlink", "Link":
			if len(ev.Args) > 1 && fromArchive(ev.Args[1]) {
				s.Mark("installing")
			}
		}
	}
	e.Run(entry, nil)
	c.Engine(entry.Name(), e)
	c.Check(scanned || !needScan, "replaced-only-when-allowed", "scan of the owner's list in "+shortFn(entry.String()), c.P.pos(entry.Pos()), "the list of names the owner replaces is walked without comparing its elements with the name of the new package")
}

// lazyOwnership: filesystems that take whole entries report which ones they installed.
func (c *Ctx) lazyOwnership(f *ssa.Function, ownF, typeF, nameF *types.Var) {
	e := NewEngine(c.P)
	e.Inline = func(g *ssa.Function) bool { return g.Pkg != nil && g.Pkg.Pkg == f.Pkg.Pkg }
	e.KeepSumMark = func(string) bool { return true }
	settle := func(s *State, site, pos string) {
		for _, m := range s.MarksOf("taken") {
			w := m.Args[0]
			if !s.HasMark("other", w) {
				c.Check(s.HasMark("owned", w), "owner-recorded", site, pos, "an entry was installed but its owner is not recorded; path: "+s.TraceString())
			}
		}
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		for _, m := range s.MarksOf("taken") {
			w := m.Args[0]
			if t.Op == "extract" && t == e.Extract(w, 0, nil) {
				if val {
					s.Mark("installed", w)
				} else {
					s.Mark("other", w)
				}
			}
			if a, b, ok := neqPair(t, val); ok {
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if n, ok := p[1].intConst(); ok && n == '0' && fieldBase(p[0], typeF) != nil {
						s.Mark("other", w)
					}
				}
			}
			if x := eqNil(t); x != nil && !val && x.Op == "extract" && x.Args[0] == w {
				s.Mark("other", w)
			}
		}
	}
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if fieldBase(m, ownF) == nil {
			return
		}
		ok := false
		for _, t := range s.MarksOf("taken") {
			w := t.Args[0]
			if s.HasMark("installed", w) {
				ok = true
				s.Mark("owned", w)
			}
		}
		site := "owner recorded in " + enclosing(in)
		c.Check(ok, "owner-recorded", site, c.P.instrPos(in), "a package is recorded as the owner of an entry that was not installed; path: "+s.TraceString())
		c.Check(fieldBase(k, nameF) != nil, "owner-recorded", "key of "+site, c.P.instrPos(in), "the owner is recorded under something other than the entry's name")
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if strings.HasSuffix(ev.Name, ".WriteHeader") && len(ev.Args) == 4 {
			settle(s, "entry handed over in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr))
			for _, m := range s.MarksOf("taken") {
				w := m.Args[0]
				for _, n := range []string{"installed", "other", "owned", "taken"} {
					s.Unmark(n, w)
				}
			}
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		if strings.HasSuffix(ev.Name, ".WriteHeader") && len(ev.Args) == 4 && ev.Final != nil {
			s.Mark("taken", ev.Final)
		}
	}
	e.OnReturn = func(s *State, fr *Frame, r []*Term, in *ssa.Return) {
		if fr.fn != f {
			return
		}
		if len(r) > 0 && s.IsNil(r[len(r)-1]) != 1 {
			return
		}
		settle(s, "end of "+shortFn(f.String()), c.P.pos(f.Pos()))
	}
	e.Run(f, nil)
	c.Engine(f.Name(), e)
}

// removable: why the file of the entry must not be removed here, or "".
func removable(s *State, h *Term, entryOf func(*Term) *Term, ownerOf func(*Term) *Term, e *Engine) string {
	owns := func(pk *Term) bool { n := ownerOf(pk); return n != nil && entryOf(n) == h }
	allowed, protected := false, true
	for _, m := range s.MarksOf("sameorigin") {
		x, y := m.Args[0], m.Args[1]
		if owns(y) && !owns(x) && (s.HasMark("hasorigin", x) || s.HasMark("hasorigin", y)) {
			allowed = true
		}
	}
	for _, m := range s.MarksOf("lists") {
		if owns(m.Args[1]) && !owns(m.Args[0]) {
			allowed = true
		}
		if owns(m.Args[0]) && !owns(m.Args[1]) {
			return "its owner was found to replace the new package"
		}
	}
	for _, m := range s.MarksOf("listsnot") {
		if owns(m.Args[0]) && !owns(m.Args[1]) {
			protected = false
		}
	}
	for _, m := range s.MarksOf("exhausted") {
		if owns(m.Args[0]) {
			protected = false
		}
	}
	if !allowed {
		return "neither a shared non-empty origin nor a replacement of the owner was established"
	}
	if protected {
		return "its owner was not found not to replace the new package"
	}
	return ""
}

// staticCallees: functions called directly, and function literals made.
func (p *Prog) staticCallees(f *ssa.Function) []*ssa.Function {
	out := append([]*ssa.Function(nil), f.AnonFuncs...)
	for _, in := range callsIn(f) {
		if g := in.Common().StaticCallee(); g != nil && p.inModule(g) {
			out = append(out, g)
		}
	}
	return out
}

// staticReach: functions that reach one of the given ones through direct calls and function literals.
func (p *Prog) staticReach(to map[*ssa.Function]bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for f := range to {
		res[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if res[f] {
				continue
			}
			for _, g := range p.staticCallees(f) {
				if res[g] {
					res[f] = true
					ch = true
					break
				}
			}
		}
	}
	return res
}
