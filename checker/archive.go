package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", checkArchives, "archive/tar ignores access and change times unless a format is requested or the header came from an archive", "a directory walk visits entries in a fixed order (C20)")
}

const (
	tarWriteHeader = "(*archive/tar.Writer).WriteHeader"
	tarNewWriter   = "archive/tar.NewWriter"
	tarCtx         = modPath + "/pkg/tarball.Context"
)

// archiveWriters: the lowest functions that open a tar writer and write headers to it, climbed
// to the function that is given the options or the time to use.
func (p *Prog) archiveWriters() []*ssa.Function {
	hdr, nw := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, in := range callsIn(f) {
			if g := in.Common().StaticCallee(); g != nil {
				switch calleeName(g) {
				case tarWriteHeader:
					hdr[f] = true
				case tarNewWriter:
					nw[f] = true
				}
			}
		}
	}
	h, w := p.staticReach(hdr), p.staticReach(nw)
	both := map[*ssa.Function]bool{}
	for f := range h {
		if w[f] {
			both[f] = true
		}
	}
	set := map[*ssa.Function]bool{}
	for f := range both {
		low := true
		for _, g := range p.staticCallees(f) {
			if both[g] && g != f {
				low = false
			}
		}
		if low {
			set[f] = true
		}
	}
	// climb
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() == nil && (archiveRole(f) != "" || f.Object() != nil && f.Object().Exported()) {
			out[f] = true
			return
		}
		n := 0
		if f.Parent() != nil {
			climb(f.Parent())
			n++
		}
		for _, g := range p.callersOf(f) {
			climb(g)
			n++
		}
		if n == 0 {
			out[f] = true
		}
	}
	for f := range set {
		climb(f)
	}
	var fs []*ssa.Function
	for f := range out {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

func archiveRole(f *ssa.Function) string {
	if epochParam(f) != nil {
		return "epoch"
	}
	for _, p := range f.Params {
		if isNamed(p.Type(), tarCtx) {
			return "context"
		}
	}
	return ""
}

func epochParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && isNamed(pt.Elem(), "time.Time") {
			return p
		}
	}
	return nil
}

// sameInstant strips conversions that keep the instant written to an archive.
func sameInstant(t *Term) *Term {
	for {
		n := ""
		if t.Op == "inst" || t.Op == "pure" {
			n = t.Fn
		}
		switch n {
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round", "(time.Time).Truncate":
			if n == "(time.Time).Round" || n == "(time.Time).Truncate" {
				if k, ok := t.Args[1].intConst(); !ok || k > 1e9 {
					return t
				}
			}
			t = t.Args[0]
			continue
		}
		return t
	}
}

func clearedTime(t *Term) bool {
	t = sameInstant(t)
	if t.Op == "zero" || t.Op == "nil" {
		return true
	}
	if t.isCall("time.Unix") {
		a, ok := t.Args[0].intConst()
		b, ok2 := t.Args[1].intConst()
		return ok && ok2 && a == 0 && b == 0
	}
	if t.Op == "aggr" {
		for _, a := range t.Args {
			if n, ok := a.intConst(); (!ok || n != 0) && !a.isNil() {
				return false
			}
		}
		return true
	}
	return false
}

func checkArchives(c *Ctx) {
	c.Rule("at every (*tar.Writer).WriteHeader reached from a writer configured by a tarball.Context: ModTime is the configured source date epoch, access and change times are that or cleared; the per-path overrides were looked up under the name with and without a leading slash and, when present, provide mode, owner, group and names; otherwise the owner/group override, else the remapping, and the name overrides are what the header carries")
	c.Rule("at every WriteHeader reached from a function given a time to use: when the time is present, ModTime is that time and access and change times are cleared")
	c.Rule("other archives take their times from constants; no archive or compression header takes a time from the clock; every option stores its own argument; the time handed to the scripts archive is the caller's")
	hf := map[string]*types.Var{}
	for _, n := range []string{"ModTime", "AccessTime", "ChangeTime", "Uid", "Gid", "Uname", "Gname", "Mode", "Name"} {
		if hf[n] = stdField(c.P, "archive/tar", "Header", n); hf[n] == nil {
			c.Undecided("anchor", "tar.Header."+n, "?", "field not found")
			return
		}
	}
	cf := map[string]*types.Var{}
	for _, n := range []string{"SourceDateEpoch", "OverrideUIDGID", "UID", "GID", "OverrideUname", "OverrideGname", "remapUIDs", "remapGIDs", "overridePerms"} {
		if cf[n] = namedField(c.P, "pkg/tarball", "Context", n); cf[n] == nil {
			c.Undecided("anchor", "tarball.Context."+n, "?", "field not found")
			return
		}
	}
	setsFormat := false
	ff := stdField(c.P, "archive/tar", "Header", "Format")
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == ff {
						setsFormat = true
					}
				}
			}
		}
	}
	ws := c.P.archiveWriters()
	roles := map[string]int{}
	for _, f := range ws {
		role := archiveRole(f)
		roles[role]++
		groups := [][]string{nil}
		if role == "context" {
			groups = [][]string{{"Mode"}, {"Uid"}, {"Gid"}, {"Uname"}, {"Gname"}}
		}
		for _, g := range groups {
			c.archiveRun(f, role, g, hf, cf, setsFormat)
		}
	}
	if roles["epoch"] == 0 || roles["context"] == 0 {
		c.Undecided("anchor", "archive writers", "?", "no writer configured by a tarball.Context or given a time was found")
	}
	c.AtLeast("normalised-time", 1, "headers written")
	c.AtLeast("override", 3, "override obligations")
	c.epochFlow(ws)
	c.optionStores()
	c.clockHeaders()
}

func (c *Ctx) archiveRun(entry *ssa.Function, role string, group []string, hf, cf map[string]*types.Var, setsFormat bool) {
	e := NewEngine(c.P)
	e.MayRunCallbacks = true
	e.Cap = 1000
	hs := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if g := in.Common().StaticCallee(); g != nil && calleeName(g) == tarWriteHeader {
				hs[f] = true
			}
		}
	}
	reach := c.P.staticReach(hs)
	pkg := entry.Pkg
	// helpers that touch header fields or options matter
	touch := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					v := fieldVar(fa.X.Type(), fa.Field)
					for _, m := range []map[string]*types.Var{hf, cf} {
						for _, w := range m {
							if v == w {
								touch[f] = true
							}
						}
					}
				}
			}
		}
	}
	touches := c.P.staticReach(touch)
	e.Inline = func(f *ssa.Function) bool {
		if f.Pkg != pkg {
			return false
		}
		return reach[f] || touches[f] || f.Parent() != nil || instrCount(f) <= 40
	}
	isOpt := func(t *Term) bool {
		return t.contains(func(x *Term) bool {
			if x.Op == "faddr" {
				for _, v := range cf {
					if x.Obj == any(v) {
						return true
					}
				}
			}
			return false
		})
	}
	// one group of fields at a time; the others are not tracked
	tracked := map[*types.Var]bool{hf["ModTime"]: true, hf["AccessTime"]: true, hf["ChangeTime"]: true, hf["Name"]: true}
	opts := map[string]string{"Uid": "OverrideUIDGID", "Gid": "OverrideUIDGID", "Uname": "OverrideUname", "Gname": "OverrideGname"}
	keep := map[*types.Var]bool{}
	for _, g := range group {
		tracked[hf[g]] = true
		if o := opts[g]; o != "" {
			keep[cf[o]] = true
		}
	}
	hdrFields := map[*types.Var]bool{}
	if st, ok := c.hdrType(hf["Name"]); ok {
		for i := 0; i < st.NumFields(); i++ {
			hdrFields[st.Field(i)] = true
		}
	}
	if role == "context" {
		e.NoStore = func(a *Term) bool {
			fv, ok := a.Obj.(*types.Var)
			return a.Op == "faddr" && ok && hdrFields[fv] && !tracked[fv]
		}
	}
	e.KeepFact = func(t *Term) bool {
		if role == "context" {
			return t.contains(func(x *Term) bool {
				fv, ok := x.Obj.(*types.Var)
				return x.Op == "faddr" && ok && keep[fv]
			})
		}
		return eqNil(t) != nil && eqNil(t).Op == "param"
	}
	var recv, epoch *Term
	n := 0
	e.OnFact = func(s *State, t *Term, val bool) {
		if role != "context" || t.Op != "mapok" {
			return
		}
		for _, n := range []string{"overridePerms", "remapUIDs", "remapGIDs"} {
			if n == "remapUIDs" && group[0] != "Uid" || n == "remapGIDs" && group[0] != "Gid" {
				continue
			}
			if t.Args[0] == s.Load(e.faddr(recv, cf[n]), cf[n].Type()) {
				s.Mark("looked:"+n+":"+itoa(b2i(val)), t.Args[0], t.Args[1])
			}
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Name != tarWriteHeader || len(ev.Args) < 2 {
			return
		}
		n++
		h := ev.Args[1]
		site := enclosing(ev.Instr)
		pos := c.P.instrPos(ev.Instr)
		hload := func(n string) *Term { return s.Load(e.faddr(h, hf[n]), hf[n].Type()) }
		switch role {
		case "context":
			opt := func(n string) *Term { return s.Load(e.faddr(recv, cf[n]), cf[n].Type()) }
			sde := opt("SourceDateEpoch")
			c.Check(sameInstant(hload("ModTime")) == sde, "normalised-time", site+" ModTime", pos, "a header is written whose ModTime is not the configured source date epoch; path: "+s.TraceString())
			for _, f := range []string{"AccessTime", "ChangeTime"} {
				v := hload(f)
				c.Check(clearedTime(v) || sameInstant(v) == sde || !setsFormat && madeHere(h), "normalised-time", site+" "+f, pos, "a header is written whose "+f+" is neither cleared nor the source date epoch; path: "+s.TraceString())
			}
			c.overrides(s, e, h, group[0], site, pos, hload, opt, hf, cf)
		case "epoch":
			switch s.IsNil(epoch) {
			case 1:
				c.OK("normalised-time", site+" without a time", pos, "no time given")
			default:
				want := s.Load(epoch, hf["ModTime"].Type())
				c.Check(sameInstant(hload("ModTime")) == want, "normalised-time", site+" ModTime", pos, "a header is written whose ModTime is not the time the caller gave; path: "+s.TraceString())
				for _, f := range []string{"AccessTime", "ChangeTime"} {
					v := hload(f)
					c.Check(clearedTime(v) || !setsFormat && madeHere(h), "normalised-time", site+" "+f, pos, "a header is written whose "+f+" is not cleared; path: "+s.TraceString())
				}
			}
		default:
			v := sameInstant(hload("ModTime"))
			ok := clearedTime(v) || isOpt(v)
			if !ok && v.Op == "load" && v.Args[0].Obj == any(hf["ModTime"]) {
				if fi := infoOf(v.Args[0].Args[0]); fi != nil {
					ok = c.fixedModTime(fi)
				}
			}
			c.Check(ok, "normalised-time", site+" ModTime", pos, "a header is written whose ModTime is not fixed ("+v.String()+"); path: "+s.TraceString())
		}
	}
	e.Run(entry, func(s *State) {
		for _, p := range entry.Params {
			if isNamed(p.Type(), tarCtx) {
				recv = s.Val(p)
			}
		}
		if p := epochParam(entry); p != nil {
			epoch = s.Val(p)
		}
	})
	c.Engine(shortFn(entry.String()), e)
	if n == 0 {
		c.Undecided("anchor", shortFn(entry.String()), c.P.pos(entry.Pos()), "no header written on any analysed path")
	}
}

// madeHere: the header is the result of tar.FileInfoHeader, whose format is left to the writer.
func madeHere(h *Term) bool { return infoOf(h) != nil }

func infoOf(h *Term) *Term {
	if h.Op == "extract" && h.Fn == "0" && h.Args[0].isCall("archive/tar.FileInfoHeader") {
		return h.Args[0].Args[0]
	}
	return nil
}

// fixedModTime: the ModTime method of the concrete FileInfo calls nothing and reads no variable.
func (c *Ctx) fixedModTime(fi *Term) bool {
	if fi.Typ == nil {
		return false
	}
	var named *types.Named
	fi.walk(func(x *Term) bool {
		if named == nil && x.Typ != nil {
			if n := namedOf(x.Typ); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				named = n
			}
		}
		return named == nil
	})
	if named == nil {
		return false
	}
	for _, f := range c.P.Funcs {
		if f.Name() != "ModTime" || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != named {
			continue
		}
		var blocks []*ssa.BasicBlock
		own := map[*ssa.Function]bool{}
		for _, g := range ownBody(f) {
			blocks = append(blocks, g.Blocks...)
			own[g] = true
		}
		for _, b := range blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g == nil || calleeName(g) != "time.Unix" && !own[g] {
						return false
					}
				case *ssa.FieldAddr:
					return false
				case *ssa.Field:
					return false
				case *ssa.UnOp:
					if _, ok := x.X.(*ssa.Global); ok {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func (c *Ctx) overrides(s *State, e *Engine, h *Term, field, site, pos string, hload, opt func(string) *Term, hf, cf map[string]*types.Var) {
	name := hload("Name")
	perms := opt("overridePerms")
	// what is known about lookups of a table
	lookup := func(opt string, tab *Term, key func(*Term) bool) (int, *Term) {
		for _, r := range []int{1, 0} {
			for _, m := range s.MarksOf("looked:" + opt + ":" + itoa(r)) {
				if key(m.Args[1]) {
					return r, m
				}
			}
		}
		if tab.isNil() || tab.isCall("makemap") {
			return 0, nil
		}
		return -1, nil
	}
	plain := func(k *Term) bool { return k == name }
	slash := func(k *Term) bool {
		if k.Op != "bin" || k.Fn != "+" || k.Args[1] != name {
			return false
		}
		str, ok := k.Args[0].strConst()
		return ok && str == "/"
	}
	entryField := func(t, key *Term, f string) bool {
		b := fieldBase(t, hf[f])
		if b == nil {
			return false
		}
		if b.Op == "mapget" && b.Args[0] == key.Args[0] && b.Args[1] == key.Args[1] {
			return true
		}
		return b.contains(func(x *Term) bool {
			return x.Op == "mapget" && x.Args[0] == key.Args[0] && x.Args[1] == key.Args[1]
		})
	}
	r0, k0 := lookup("overridePerms", perms, plain)
	r1, k1 := lookup("overridePerms", perms, slash)
	trace := func() string { return "; path: " + s.TraceString() }
	v := hload(field)
	if r0 == 1 || r1 == 1 {
		ok := r0 == 1 && entryField(v, k0, field) || r1 == 1 && entryField(v, k1, field)
		c.Check(ok, "override", site+" per-path "+field, pos, "the "+field+" configured for this path is not what the header carries ("+v.String()+")"+trace())
		return
	}
	c.Check(r0 == 0, "override", site+" lookup by name for "+field, pos, "a header is written without looking up the overrides for its name"+trace())
	c.Check(r1 == 0, "override", site+" lookup by rooted name for "+field, pos, "a header is written without looking up the overrides for its name with a leading slash"+trace())
	cfg := map[string]string{"Uid": "UID", "Gid": "GID", "Uname": "OverrideUname", "Gname": "OverrideGname"}[field]
	switch field {
	case "Uid", "Gid":
		tabName := "remap" + cfg + "s"
		switch s.Truth(opt("OverrideUIDGID")) {
		case 1:
			c.Check(v == opt(cfg), "override", site+" "+field, pos, "the configured "+cfg+" is not what the header carries ("+v.String()+")"+trace())
		case 0:
			r, m := lookup(tabName, opt(tabName), func(k *Term) bool { return fieldBase(k, hf[field]) == h })
			switch r {
			case 1:
				ok := v.contains(func(x *Term) bool { return x.Op == "mapget" && x.Args[0] == m.Args[0] && x.Args[1] == m.Args[1] })
				c.Check(ok, "override", site+" remapped "+field, pos, "the remapped "+field+" is not what the header carries ("+v.String()+")"+trace())
			case 0:
				c.OK("override", site+" remapped "+field, pos, "")
			default:
				c.Bad("override", site+" remapped "+field, pos, "a header is written without consulting the remapping of "+field+trace())
			}
		default:
			c.Bad("override", site+" "+field, pos, "a header is written without consulting the configured owner override"+trace())
		}
	case "Uname", "Gname":
		o := opt(cfg)
		if v == o || v.isCall("cmp.Or") && v.contains(func(x *Term) bool { return x == o }) {
			c.OK("override", site+" "+field, pos, "")
			return
		}
		c.Check(s.Truth(e.EqTerm(o, e.zero(cf[cfg].Type()))) == 1, "override", site+" "+field, pos, "the configured "+cfg+" is not what the header carries ("+v.String()+")"+trace())
	}
}

// hdrType: the struct type of tar.Header.
func (c *Ctx) hdrType(name *types.Var) (*types.Struct, bool) {
	for _, im := range name.Pkg().Scope().Names() {
		if im == "Header" {
			st, ok := name.Pkg().Scope().Lookup(im).Type().Underlying().(*types.Struct)
			return st, ok
		}
	}
	return nil, false
}

func (c *Ctx) nbad(rule string) int {
	k := 0
	for _, o := range c.obs {
		if o.Rule == rule && o.Status != "ok" {
			k++
		}
	}
	return k
}

// epochFlow: the time given to the scripts archive is, through every caller, the parameter of an exported function.
func (c *Ctx) epochFlow(ws []*ssa.Function) {
	seen := map[*ssa.Parameter]bool{}
	var back func(p *ssa.Parameter)
	var value func(v ssa.Value, site string, pos string, d int)
	value = func(v ssa.Value, site, pos string, d int) {
		switch x := v.(type) {
		case *ssa.Parameter:
			back(x)
			return
		case *ssa.FreeVar:
			if b := freeBinding(x); b != nil && d < 6 {
				value(b, site, pos, d+1)
				return
			}
		case *ssa.UnOp:
			if d < 6 {
				value(x.X, site, pos, d+1)
				return
			}
		case *ssa.Alloc:
			ok := 0
			for _, r := range *x.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(x) {
					value(st.Val, site, pos, d+1)
					ok++
				}
			}
			if ok == 1 {
				return
			}
		case *ssa.Phi:
			if d < 6 {
				for _, ed := range x.Edges {
					value(ed, site, pos, d+1)
				}
				return
			}
		}
		c.Bad("epoch-flow", site, pos, "the time handed to the scripts archive is not the one the caller was given")
	}
	back = func(p *ssa.Parameter) {
		if seen[p] {
			return
		}
		seen[p] = true
		f := p.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == p {
				idx = i
			}
		}
		if f.Object() != nil && f.Object().Exported() {
			c.OK("epoch-flow", shortFn(f.String()), c.P.pos(f.Pos()), "time parameter of an exported function")
		}
		for _, g := range c.P.Funcs {
			for _, in := range callsIn(g) {
				if in.Common().StaticCallee() == f && idx < len(in.Common().Args) {
					site := "call of " + shortFn(f.String()) + " in " + shortFn(g.String())
					pos := c.P.instrPos(in)
					nb := c.nbad("epoch-flow")
					value(in.Common().Args[idx], site, pos, 0)
					if c.nbad("epoch-flow") == nb {
						c.OK("epoch-flow", site, pos, "")
					}
				}
			}
		}
	}
	for _, f := range ws {
		if p := epochParam(f); p != nil {
			back(p)
		}
	}
	c.AtLeast("epoch-flow", 1, "hand-overs of the time")
}

// freeBinding: what a captured variable is bound to where the function literal is made.
func freeBinding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if f.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// optionStores: each option of a tarball.Context stores its own argument in its own field.
func (c *Ctx) optionStores() {
	want := map[string]map[string]string{
		"WithSourceDateEpoch": {"SourceDateEpoch": "0"},
		"WithOverrideUIDGID":  {"OverrideUIDGID": "true", "UID": "0", "GID": "1"},
		"WithOverrideUname":   {"OverrideUname": "0"},
		"WithOverrideGname":   {"OverrideGname": "0"},
		"WithRemapUIDs":       {"remapUIDs": "0"},
		"WithRemapGIDs":       {"remapGIDs": "0"},
		"WithOverridePerms":   {"overridePerms": "map"},
		"WithSkipClose":       {"SkipClose": "0"},
		"WithUseChecksums":    {"UseChecksums": "0"},
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.P.rel("pkg/tarball." + n)
		if f == nil {
			c.Undecided("anchor", n, "?", "option not found")
			continue
		}
		fields := want[n]
		got := map[string]string{}
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !isNamed(fa.X.Type(), tarCtx) {
						continue
					}
					fl := fieldVar(fa.X.Type(), fa.Field).Name()
					d := c.optionValue(f, st.Val, 0)
					if o, dup := got[fl]; dup && o != d {
						d = "several values"
					}
					got[fl] = d
					// executed whenever the option is applied
					for _, b2 := range g.Blocks {
						for _, in2 := range b2.Instrs {
							if _, ret := in2.(*ssa.Return); ret && !b.Dominates(b2) {
								got[fl] = "only on some paths"
							}
						}
					}
				}
			}
			for _, h := range g.AnonFuncs {
				rec(h)
			}
			for _, in := range callsIn(g) {
				if h := in.Common().StaticCallee(); h != nil && h != g && h.Pkg == f.Pkg && h.Object() != nil && !h.Object().Exported() {
					rec(h)
				}
			}
		}
		rec(f)
		var fns []string
		for fl := range fields {
			fns = append(fns, fl)
		}
		sort.Strings(fns)
		for _, fl := range fns {
			g := got[fl]
			ok := g == fields[fl] || g == "0" && fields[fl] == "map"
			if fl == "SkipClose" || fl == "UseChecksums" {
				continue
			}
			c.Check(ok, "option", n+" "+fl, c.P.pos(f.Pos()), "option "+n+" sets "+fl+" to "+g+" instead of its argument")
		}
	}
	c.AtLeast("option", 7, "options")
}

// optionValue describes a stored value: the index of the parameter of f it is, "true", "map" when it
// is a map filled with every element of a parameter, or a description.
func (c *Ctx) optionValue(f *ssa.Function, v ssa.Value, d int) string {
	if d > 8 {
		return "something else"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value.ExactString()
	case *ssa.Parameter:
		if x.Parent() == f {
			for i, p := range f.Params {
				if p == x {
					return itoa(i)
				}
			}
		}
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		for _, g := range c.P.callersOf(x.Parent()) {
			for _, in := range callsIn(g) {
				if in.Common().StaticCallee() == x.Parent() && (g == f || g.Parent() == f) {
					return c.optionValue(f, in.Common().Args[idx], d+1)
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeBinding(x); b != nil {
			return c.optionValue(f, b, d+1)
		}
	case *ssa.UnOp:
		return c.optionValue(f, x.X, d+1)
	case *ssa.ChangeType:
		return c.optionValue(f, x.X, d+1)
	case *ssa.Alloc:
		r := ""
		for _, u := range *x.Referrers() {
			if st, is := u.(*ssa.Store); is && st.Addr == ssa.Value(x) {
				if r != "" {
					return "several values"
				}
				r = c.optionValue(f, st.Val, d+1)
			}
		}
		return r
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && strings.HasSuffix(calleeName(g), "maps.Clone") {
			return c.optionValue(f, x.Call.Args[0], d+1)
		}
		if g := x.Call.StaticCallee(); g != nil && c.P.inModule(g) && len(g.Blocks) > 0 {
			r := ""
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
						o := c.optionValue(f, ret.Results[0], d+1)
						if r != "" && o != r {
							return "several values"
						}
						r = o
					}
				}
			}
			return r
		}
	case *ssa.MakeMap:
		n := 0
		for _, u := range *x.Referrers() {
			mu, ok := u.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			n++
			if !loopAlways(mu.Block()) {
				return "a table missing some elements"
			}
		}
		if n == 0 {
			// filled through a copy
			for _, u := range *x.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && strings.HasSuffix(calleeName(g), "maps.Copy") {
						return c.optionValue(f, ci.Common().Args[1], d+1)
					}
				}
				if st, ok := u.(*ssa.Store); ok {
					if al, ok := st.Addr.(*ssa.Alloc); ok {
						for _, v := range *al.Referrers() {
							if ld, ok := v.(*ssa.UnOp); ok {
								for _, w := range *ld.Referrers() {
									if mu, ok := w.(*ssa.MapUpdate); ok {
										n++
										if !loopAlways(mu.Block()) {
											return "a table missing some elements"
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if n > 0 {
			return "map"
		}
	}
	return "something else"
}

// loopAlways: every iteration of the innermost loop around b runs b, and the loop is left only from its header.
func loopAlways(b *ssa.BasicBlock) bool {
	var hdr *ssa.BasicBlock
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && reachesWithout(b, p, h) {
				hdr = h
			}
		}
		if hdr != nil {
			break
		}
	}
	if hdr == nil {
		return false
	}
	for _, p := range hdr.Preds {
		if hdr.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

func reachesWithout(from, to, without *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{without: true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	if from == without {
		return true
	}
	return rec(from)
}

// clockHeaders: no time from the clock is stored in an archive or compression header.
func (c *Ctx) clockHeaders() {
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := namedOf(fa.X.Type())
				if nt == nil || nt.Obj().Pkg() == nil || nt.Obj().Name() != "Header" || !strings.HasSuffix(nt.Obj().Pkg().Path(), "gzip") && nt.Obj().Pkg().Path() != "archive/tar" {
					continue
				}
				if !isNamed(st.Val.Type(), "time.Time") {
					continue
				}
				n++
				c.Check(!fromClock(st.Val, map[ssa.Value]bool{}), "no-clock", enclosing(in)+" "+fieldVar(fa.X.Type(), fa.Field).Name(), c.P.instrPos(in), "a header takes its time from the clock or from a file on disk")
			}
		}
	}
}

func fromClock(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		n := ""
		if g := x.Call.StaticCallee(); g != nil {
			n = calleeName(g)
		} else if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
		}
		if n == "time.Now" || n == "ModTime" || n == "time.Since" {
			return true
		}
		for _, a := range x.Call.Args {
			if fromClock(a, seen) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromClock(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		return fromClock(x.X, seen)
	case *ssa.Extract:
		return fromClock(x.Tuple, seen)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) && fromClock(st.Val, seen) {
				return true
			}
		}
	}
	return false
}
