package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", checkC08, "filepath.Join/Clean/Rel behave as documented", "symbolic links already on disk are out of scope, as the property says")
	register("C25", checkC25, "the in-memory overlay implements the metadata operations it is asked for")
}

// osPathArgs lists which arguments of an operating-system call are paths.
func osPathArgs(name string, sig *types.Signature, n int) []int {
	pk := ""
	for _, p := range []string{"os.", "golang.org/x/sys/unix.", "syscall.", "io/ioutil."} {
		if strings.HasPrefix(name, p) {
			pk = p
		}
	}
	if pk == "" || sig == nil || sig.Recv() != nil {
		return nil
	}
	fn := strings.TrimPrefix(name, pk)
	switch fn {
	case "Getenv", "LookupEnv", "Setenv", "Unsetenv", "Expand", "ExpandEnv", "Hostname", "NewSyscallError", "IsPathSeparator", "NewFile":
		return nil
	case "Symlink":
		return []int{1}
	case "Symlinkat":
		return []int{2}
	case "Link", "Rename":
		return []int{0, 1}
	}
	for i := 0; i < sig.Params().Len() && i < n; i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return []int{i}
		}
	}
	return nil
}

// dirFSTypes finds the implementation type returned by DirFS, its base field and its overlay field.
func dirFSTypes(c *Ctx) (impl *types.Named, base, overlay *types.Var) {
	ctor := c.Fn("pkg/fs.DirFS")
	if ctor == nil {
		return
	}
	if n := implType(ctor); n != nil && n.Obj().Pkg() == ctor.Pkg.Pkg {
		impl = n
	}
	if impl == nil {
		c.Undecided("anchor", "DirFS", c.P.pos(ctor.Pos()), "cannot find the type DirFS returns")
		return
	}
	st, _ := impl.Underlying().(*types.Struct)
	full := ctor.Signature.Results().At(0).Type()
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), full) {
			overlay = st.Field(i)
		}
	}
	for _, f := range ownBody(ctor) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == impl {
						v := fieldVar(fa.X.Type(), fa.Field)
						if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
							base = v
						}
					}
				}
			}
		}
	}
	if base == nil || overlay == nil {
		c.Undecided("anchor", "DirFS", c.P.pos(ctor.Pos()), "cannot find the base directory and overlay fields")
	}
	return
}

func methodsOf(p *Prog, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == n && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isJoinCall(t *Term) bool {
	return t.isCall("path/filepath.Join") || t.isCall("path.Join")
}

func checkC08(c *Ctx) {
	c.Rule("path provenance: in every method of the type DirFS returns (and of the file objects it creates), each path handed to an os/unix call is, on that path through the code, either the base directory itself, Join(base, x) after a whole-element containment test (filepath.Rel not escaping, prefix base+separator, or filepath.IsLocal), or Join(base, Clean(\"/\"+x))")
	impl, base, overlay := dirFSTypes(c)
	if impl == nil || base == nil || overlay == nil {
		return
	}
	isBase := func(t *Term) bool {
		for t.isCall("path/filepath.Clean") {
			t = t.Args[0]
		}
		return fieldBase(t, base) != nil
	}
	rooted := func(t *Term) bool { // cleaned absolute path: cannot contain ..
		if t.isCall("path/filepath.Clean") || t.isCall("path.Clean") {
			x := t.Args[0]
			if x.Op == "bin" && x.Fn == "+" {
				if s, ok := x.Args[0].strConst(); ok && strings.HasPrefix(s, "/") {
					return true
				}
			}
		}
		if isJoinCall(t) && len(t.Args) > 0 {
			if s, ok := t.Args[0].strConst(); ok && strings.HasPrefix(s, "/") {
				return true
			}
		}
		return false
	}
	inside := func(s *State, t *Term) bool {
		if isBase(t) {
			return true
		}
		if isJoinCall(t) && len(t.Args) == 2 && isBase(t.Args[0]) {
			if rooted(t.Args[1]) || s.HasMark("local", t.Args[1]) {
				return true
			}
		}
		if s.HasMark("inside", t) {
			return true
		}
		return s.HasMark("relerr", t) && s.HasMark("notdotdot", t) && s.HasMark("notparent", t)
	}
	relOf := func(x *Term, i string) *Term {
		if x.Op == "extract" && x.Fn == i && x.Args[0].isCall("path/filepath.Rel") && isBase(x.Args[0].Args[0]) {
			return x.Args[0].Args[1]
		}
		return nil
	}
	clean := func(t *Term) bool {
		return isJoinCall(t) || t.isCall("path/filepath.Clean") || t.isCall("path.Clean")
	}
	methods := methodsOf(c.P, impl)
	visited := map[ssa.Instruction]bool{}
	type fieldUse struct {
		fv     *types.Var
		guards map[*types.Var]bool
		site   string
	}
	uses := map[string]*fieldUse{}
	mk := func() *Engine {
		e := NewEngine(c.P)
		e.Inline = func(f *ssa.Function) bool {
			// stay within the directory-backed implementation: not the overlay
			if r := f.Signature.Recv(); r != nil && namedOf(r.Type()) != impl {
				return instrCount(f) <= 25
			}
			return instrCount(f) <= 120
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			if x := eqNil(t); x != nil && val {
				if p := relOf(x, "1"); p != nil {
					s.Mark("relerr", p)
				}
			}
			if t.Op == "bin" && t.Fn == "==" {
				for i := 0; i < 2; i++ {
					if val && isBase(t.Args[1-i]) && clean(t.Args[i]) {
						s.Mark("inside", t.Args[i])
					}
					k, ok := t.Args[1-i].strConst()
					if p := relOf(t.Args[i], "0"); p != nil && ok && k == ".." && !val {
						s.Mark("notdotdot", p)
					}
				}
			}
			if t.isCall("strings.HasPrefix") {
				if k, ok := t.Args[1].strConst(); ok && !val {
					if p := relOf(t.Args[0], "0"); p != nil {
						if k == ".." || k == "../" {
							s.Mark("notparent", p)
						}
						if k == ".." {
							s.Mark("notdotdot", p)
						}
					}
				}
				if val && clean(t.Args[0]) {
					x := t.Args[1]
					if x.Op == "bin" && x.Fn == "+" && isBase(x.Args[0]) {
						if k, ok := x.Args[1].strConst(); ok && k == "/" {
							s.Mark("inside", t.Args[0])
						}
					}
				}
			}
			if val && t.isCall("path/filepath.IsLocal") {
				s.Mark("local", t.Args[0])
				if p := relOf(t.Args[0], "0"); p != nil {
					s.Mark("inside", p)
				}
			}
		}
		return e
	}
	for _, m := range methods {
		if m.Object() == nil || !m.Object().Exported() {
			continue // analysed from the exported methods that call it
		}
		e := mk()
		e.OnCall = func(s *State, ev *CallEvent) {
			if ev.Static == nil || ev.WillInline {
				return
			}
			idx := osPathArgs(ev.Name, ev.Static.Signature, len(ev.Args))
			if idx == nil {
				return
			}
			visited[ev.Instr] = true
			for _, i := range idx {
				site := fmt.Sprintf("%s arg %d in %s via %s", ev.Name, i, enclosing(ev.Instr), m.Name())
				c.Check(inside(s, ev.Args[i]), "path-inside-base", site, c.P.instrPos(ev.Instr), "the path "+ev.Args[i].String()+" is not confined to the base directory; path: "+s.TraceString())
			}
		}
		e.Run(m, nil)
		c.Engine(shortFn(m.String()), e)
	}
	for _, m := range methods {
		for _, f := range append([]*ssa.Function{m}, m.AnonFuncs...) {
			for _, in := range callsIn(f) {
				if g := in.Common().StaticCallee(); g != nil && osPathArgs(calleeName(g), g.Signature, 9) != nil && !visited[in] && len(c.P.callersOf(m)) > 0 {
					c.Undecided("path-inside-base", calleeName(g)+" in "+shortFn(f.String()), c.P.instrPos(in), "not reached from any exported method")
				}
			}
		}
	}
	// OS calls of helper types: paths kept in fields
	pkgPath := impl.Obj().Pkg().Path()
	made := map[*types.Named]bool{}
	for _, m := range methods {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if n := namedOf(al.Type()); n != nil {
						made[n] = true
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath || f.Synthetic != "" {
			continue
		}
		// only objects the directory-backed filesystem hands out
		recv := outermost(f).Signature.Recv()
		if recv == nil || !made[namedOf(recv.Type())] {
			continue
		}
		has := false
		for _, in := range callsIn(f) {
			if g := in.Common().StaticCallee(); g != nil && osPathArgs(calleeName(g), g.Signature, 9) != nil && !visited[in] {
				has = true
			}
		}
		if !has {
			continue
		}
		e := mk()
		e.OnFact = func(s *State, t *Term, val bool) {
			if x := eqNil(t); x != nil && !val {
				s.Mark("nonnil", x)
			}
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			if ev.Static == nil || ev.WillInline || visited[ev.Instr] {
				return
			}
			for _, i := range osPathArgs(ev.Name, ev.Static.Signature, len(ev.Args)) {
				a := ev.Args[i]
				site := fmt.Sprintf("%s arg %d in %s", ev.Name, i, enclosing(ev.Instr))
				fv := fieldOfTerm(a)
				if fv == nil {
					c.Bad("path-inside-base", site, c.P.instrPos(ev.Instr), "the path "+a.String()+" is not confined to the base directory")
					continue
				}
				u := &fieldUse{fv: fv, guards: map[*types.Var]bool{}, site: site}
				for _, mk := range s.MarksOf("nonnil") {
					if g := fieldOfTerm(mk.Args[0]); g != nil {
						u.guards[g] = true
					}
				}
				if old := uses[site]; old != nil {
					for g := range old.guards {
						if !u.guards[g] {
							delete(old.guards, g)
						}
					}
				} else {
					uses[site] = u
				}
			}
		}
		e.Run(f, nil)
		c.Engine(shortFn(f.String()), e)
	}
	for _, u := range uses {
		for _, m := range methods {
			e := mk()
			e.OnReturn = func(s *State, fr *Frame, rets []*Term, in *ssa.Return) {
				if len(s.frames) > 1 {
					return
				}
				for a := range s.mem {
					if a.Op != "faddr" || a.Obj != any(u.fv) || a.Args[0].Op != "alloc" {
						continue
					}
					escapes := false
					for _, r := range rets {
						escapes = escapes || r.contains(func(x *Term) bool { return x == a.Args[0] })
					}
					if !escapes {
						continue
					}
					ok := inside(s, s.mem[a])
					for g := range u.guards {
						v := s.Load(e.faddr(a.Args[0], g), g.Type())
						ok = ok || s.IsNil(v) == 1
					}
					site := fmt.Sprintf("%s set in %s, used by %s", u.fv.Name(), m.Name(), u.site)
					c.Check(ok, "stored-path-inside-base", site, c.P.instrPos(in), "the stored path "+s.mem[a].String()+" is later given to the operating system but is not confined to the base directory")
				}
			}
			e.Run(m, nil)
		}
	}
	c.AtLeast("path-inside-base", 6, "operating-system calls taking a path")
}

func fieldOfTerm(t *Term) *types.Var {
	if t.Op == "load" && t.Args[0].Op == "faddr" || t.Op == "field" {
		o := t.Obj
		if t.Op == "load" {
			o = t.Args[0].Obj
		}
		fv, _ := o.(*types.Var)
		return fv
	}
	return nil
}

// ---------------------------------------------------------------- C25

func checkC25(c *Ctx) {
	c.Rule("paired update: on every successful return of a mutating method of the directory-backed filesystem, the overlay's method of the same name has been called with the caller's own arguments and its error returned or found nil; and unless the path established that the name is not the variant living on disk, the matching operating-system call has been made with the sanitised name and succeeded (chmod/chown: attempted)")
	c.Rule("metadata queries (Readlink, Lstat, Readnod, xattrs; Mode and Sys of Stat and directory entries) are answered from the overlay's result")
	impl, base, overlay := dirFSTypes(c)
	if impl == nil || base == nil || overlay == nil {
		return
	}
	st := impl.Underlying().(*types.Struct)
	var caseMap *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			caseMap = st.Field(i)
		}
	}
	diskOps := map[string][]string{
		"Create": {"os.Create", "os.OpenFile"}, "OpenFile": {"os.OpenFile", "os.Create"}, "WriteFile": {"os.WriteFile", "os.OpenFile", "os.Create"},
		"Link": {"os.Link"}, "Symlink": {"os.Symlink"}, "Mkdir": {"os.Mkdir", "os.MkdirAll"}, "MkdirAll": {"os.MkdirAll"},
		"Mknod": {"golang.org/x/sys/unix.Mknod", "os.WriteFile", "syscall.Mknod"}, "Chmod": {"os.Chmod"}, "Chown": {"os.Chown", "os.Lchown"},
		"Remove": {"os.Remove", "os.RemoveAll"}, "SetXattr": nil, "RemoveXattr": nil,
	}
	query := map[string]bool{"Readlink": true, "Lstat": true, "Readnod": true, "GetXattr": true, "ListXattrs": true}
	overlayCall := func(ev *CallEvent) string {
		if len(ev.Args) == 0 || fieldBase(ev.Args[0], overlay) == nil {
			return ""
		}
		return ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	}
	byName := map[string]*ssa.Function{}
	for _, m := range methodsOf(c.P, impl) {
		byName[m.Name()] = m
	}
	inline := func(f *ssa.Function) bool {
		if r := f.Signature.Recv(); r != nil && namedOf(r.Type()) != impl {
			return false
		}
		return instrCount(f) <= 120
	}
	var names []string
	for n := range diskOps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		m := byName[name]
		if m == nil {
			c.Undecided("anchor", name, "?", "the directory-backed filesystem has no such method")
			continue
		}
		isDisk := map[string]bool{}
		for _, d := range diskOps[name] {
			isDisk[d] = true
		}
		e := NewEngine(c.P)
		e.Inline = inline
		var params []*Term
		resTerm := func(t *Term) *Term {
			for t.Op == "extract" {
				t = t.Args[0]
			}
			return t
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			if x := eqNil(t); x != nil {
				if caseMap != nil && fieldBase(x, caseMap) != nil {
					if val {
						s.Mark("casesensitive")
					}
					return
				}
				if val {
					s.Mark("okres", resTerm(x))
				}
			}
			// name is not the variant on disk
			if caseMap != nil && !val {
				isVar := func(x *Term) bool {
					return x.contains(func(y *Term) bool {
						return y.Op == "mapget" && fieldBase(y.Args[0], caseMap) != nil
					})
				}
				if t.Op == "bin" && t.Fn == "==" && (isVar(t.Args[0]) || isVar(t.Args[1])) {
					s.Mark("notondisk")
				}
				if t.Op == "mapok" || t.Op == "extract" && t.Args[0].Op == "mapok" {
					if name == "Remove" {
						s.Mark("notondisk")
					}
				}
			}
			if name == "OpenFile" && t.Op == "bin" && t.Fn == "==" {
				// flag & O_CREATE tested
				for i := 0; i < 2; i++ {
					x := t.Args[i]
					if x.Op == "bin" && x.Fn == "&" && len(params) > 2 && (x.Args[0] == params[2] || x.Args[1] == params[2]) {
						k, _ := t.Args[1-i].intConst()
						if (k == 0) == val {
							s.Mark("nocreate")
						}
					}
				}
			}
		}
		e.OnPost = func(s *State, ev *CallEvent) {
			if o := overlayCall(ev); o == name && len(params) > 1 {
				good := ev.Args[1] == params[1]
				for _, p := range params[2:] {
					if p.Typ != nil {
						if _, isSlice := p.Typ.Underlying().(*types.Slice); isSlice && name == "WriteFile" {
							continue // content lives on disk
						}
					}
					found := false
					for _, a := range ev.Args[2:] {
						found = found || a.contains(func(x *Term) bool { return x == p })
					}
					good = good && found
				}
				if good {
					s.Mark("overlay", resTerm(ev.Final))
				} else {
					s.Mark("overlaybad")
				}
			}
			if isDisk[ev.Name] {
				good := true
				idx := osPathArgs(ev.Name, ev.Static.Signature, len(ev.Args))
				if len(idx) > 0 {
					p := ev.Args[idx[len(idx)-1]]
					namep := params[1]
					if name == "Link" || name == "Symlink" {
						namep = params[2]
					}
					good = p.contains(func(x *Term) bool { return x == namep })
				}
				switch name {
				case "Chmod", "Chown":
					for _, q := range params[2:] {
						found := false
						for _, a := range ev.Args[1:] {
							found = found || a.contains(func(x *Term) bool { return x == q })
						}
						good = good && found
					}
				}
				if good {
					s.Mark("disk", resTerm(ev.Final))
				}
			}
		}
		e.OnEnd = func(s *State, rets []*Term) {
			errT := rets[len(rets)-1]
			if s.IsNil(errT) == 0 {
				return
			}
			if name == "OpenFile" && s.HasMark("nocreate") {
				return
			}
			pos := c.P.pos(m.Pos())
			ok := false
			succeeded := func(r *Term) bool {
				return s.HasMark("okres", r) || resTerm(errT) == r || s.HasMark("okres", resTerm(r))
			}
			returnsOf := func(tag string) bool {
				for _, mk := range s.MarksOf(tag) {
					if succeeded(mk.Args[0]) {
						return true
					}
				}
				return false
			}
			// an error result that is returned unchecked must be the one of a paired call
			ok = returnsOf("overlay")
			c.Check(ok, "overlay-updated", name, pos, "a success return is reached without the overlay's "+name+" having succeeded with the caller's arguments; path: "+s.TraceString())
			if diskOps[name] == nil || s.HasMark("notondisk") && !s.HasMark("casesensitive") {
				return
			}
			okd := returnsOf("disk")
			if name == "Chmod" || name == "Chown" {
				okd = len(s.MarksOf("disk")) > 0
			}
			c.Check(okd, "disk-updated", name, pos, "a success return is reached without "+strings.Join(diskOps[name], " or ")+" having succeeded although the name lives on disk; path: "+s.TraceString())
		}
		e.Run(m, func(s *State) {
			for _, p := range m.Params {
				params = append(params, s.frames[0].env[p])
			}
		})
		c.Engine(name, e)
	}
	c.AtLeast("overlay-updated", 13, "mutating methods")
	c.AtLeast("disk-updated", 11, "mutating methods with a disk part")
	// queries
	var qs []string
	for n := range query {
		qs = append(qs, n)
	}
	sort.Strings(qs)
	for _, name := range qs {
		m := byName[name]
		if m == nil {
			c.Undecided("anchor", name, "?", "the directory-backed filesystem has no such method")
			continue
		}
		e := NewEngine(c.P)
		e.Inline = inline
		var p1 *Term
		e.OnPost = func(s *State, ev *CallEvent) {
			if overlayCall(ev) == name && ev.Args[1] == p1 {
				s.Mark("overlay", ev.Final)
			}
		}
		e.OnEnd = func(s *State, rets []*Term) {
			if s.IsNil(rets[len(rets)-1]) == 0 {
				return
			}
			ok := false
			for _, mk := range s.MarksOf("overlay") {
				ok = ok || rets[0].contains(func(x *Term) bool { return x == mk.Args[0] })
			}
			c.Check(ok, "metadata-from-overlay", name, c.P.pos(m.Pos()), "the answer does not come from the overlay; path: "+s.TraceString())
		}
		e.Run(m, func(s *State) { p1 = s.frames[0].env[m.Params[1]] })
		c.Engine(name, e)
	}
	// Stat: Mode and Sys
	if m := byName["Stat"]; m == nil {
		c.Undecided("anchor", "Stat", "?", "no Stat method")
	} else {
		e := NewEngine(c.P)
		e.Inline = inline
		e.OnPost = func(s *State, ev *CallEvent) {
			if overlayCall(ev) == "Stat" {
				s.Mark("overlay", ev.Final)
			}
		}
		e.OnEnd = func(s *State, rets []*Term) {
			if s.IsNil(rets[1]) == 0 {
				return
			}
			r := rets[0]
			for r.Op == "iface" || r.Op == "conv" {
				r = r.Args[0]
			}
			fromOverlay := func(t *Term) bool {
				for _, mk := range s.MarksOf("overlay") {
					if t.contains(func(x *Term) bool { return x == mk.Args[0] }) {
						return true
					}
				}
				return false
			}
			if fromOverlay(r) {
				c.OK("metadata-from-overlay", "Stat", c.P.pos(m.Pos()), "")
				return
			}
			n := namedOf(r.Typ)
			for _, q := range []string{"Mode", "Sys"} {
				ok := false
				if n != nil {
					if fv := delegateField(c.P, n, q); fv != nil {
						ok = fromOverlay(s.Load(e.faddr(r, fv), fv.Type()))
					}
				}
				c.Check(ok, "metadata-from-overlay", "Stat()."+q, c.P.pos(m.Pos()), "the "+q+" of Stat's result does not come from the overlay; path: "+s.TraceString())
			}
		}
		e.Run(m, nil)
		c.Engine("Stat", e)
	}
	// directory entries: Type and Info().Mode/Sys from the overlay's ReadDir
	if m := byName["ReadDir"]; m != nil {
		e := NewEngine(c.P)
		e.Inline = inline
		e.OnPost = func(s *State, ev *CallEvent) {
			if overlayCall(ev) == "ReadDir" {
				s.Mark("overlay", ev.Final)
			}
		}
		seen := 0
		e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
			if addr.Op != "faddr" {
				return
			}
			fv, ok := addr.Obj.(*types.Var)
			if !ok || addr.Args[0].Typ == nil {
				return
			}
			n := namedOf(addr.Args[0].Typ)
			if n == nil || n.Obj().Pkg() != impl.Obj().Pkg() || delegateField(c.P, n, "Type") != fv {
				return
			}
			seen++
			ok = false
			for _, mk := range s.MarksOf("overlay") {
				ok = ok || val.contains(func(x *Term) bool { return x == mk.Args[0] })
			}
			c.Check(ok, "metadata-from-overlay", "ReadDir entry "+fv.Name(), c.P.instrPos(in), "the type of a directory entry does not come from the overlay")
		}
		e.Run(m, nil)
		c.Engine("ReadDir", e)
		if seen == 0 {
			c.Undecided("anchor", "ReadDir", c.P.pos(m.Pos()), "cannot find how directory entries are built")
		}
	}
	c.AtLeast("metadata-from-overlay", 8, "metadata queries")
}

// delegateField: method name of n returns the result of the same method on one of n's fields.
func delegateField(p *Prog, n *types.Named, name string) *types.Var {
	for _, f := range methodsOf(p, n) {
		if f.Name() != name {
			continue
		}
		var res *types.Var
		var blocks []*ssa.BasicBlock
		for _, g := range ownBody(f) {
			blocks = append(blocks, g.Blocks...)
		}
		for _, b := range blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != name {
					continue
				}
				if u, ok := c.Common().Value.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						res = fieldVar(fa.X.Type(), fa.Field)
					}
				}
				if fl, ok := c.Common().Value.(*ssa.Field); ok {
					res = fieldVar(fl.X.Type(), fl.Field)
				}
			}
		}
		return res
	}
	return nil
}
