package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const expType = modPath + "/pkg/expandapk.APKExpanded"

func init() {
	register("C03", checkC03, "SHA-1/SHA-256, gzip and tar behave as documented", "a section found in the package cache under a hash has that hash (C04)")
}

func isExpPtr(t types.Type) bool {
	_, ok := t.(*types.Pointer)
	return ok && isNamed(t, expType)
}

func checkC03(c *Ctx) {
	c.Rule("typestate: on every path of InstallPackages, an expanded package reaches a function that writes to the target filesystem (directly, or through the shared slice/channel read by the installer) only with the facts [control hash == index checksum, or no index checksum] and [data section hash == .PKGINFO data hash, or none declared]")
	c.Rule("ExpandApk succeeds only after a tar reader over the package stream ran to io.EOF, and each regular-file entry read from it was either without checksum or compared equal to a hash of that entry's content")
	c.Rule("ExpandApk pairs each hash with the file it was computed from, by index, and each hash covers the stream its gzip reader consumed up to its end")
	checkC03Install(c)
	checkC03Expand(c)
}

func checkC03Install(c *Ctx) {
	entry := c.Fn("(*pkg/apk.APK).InstallPackages")
	ctlF := namedField(c.P, "pkg/expandapk", "APKExpanded", "ControlHash")
	datF := namedField(c.P, "pkg/expandapk", "APKExpanded", "PackageHash")
	dhF := namedField(c.P, "pkg/apk", "Package", "DataHash")
	if entry == nil || ctlF == nil || datF == nil || dhF == nil {
		c.Undecided("anchor", "hash fields", "?", "APKExpanded.ControlHash/PackageHash or Package.DataHash not found")
		return
	}
	// functions that write to the target filesystem
	writes := c.P.reachSet(func(n string) bool {
		return strings.HasPrefix(n, "("+modPath+"/pkg/") && (strings.HasSuffix(n, ").OpenFile") || strings.HasSuffix(n, ").WriteFile") || strings.HasSuffix(n, ").WriteHeader"))
	})
	hasExp := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isExpPtr(p.Type()) {
				return true
			}
		}
		return false
	}
	touches := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					fv := fieldVar(fa.X.Type(), fa.Field)
					if fv == ctlF || fv == datF || fv == dhF {
						touches[f] = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if touches[f] || f.Pkg == nil || f.Pkg.Pkg != entry.Pkg.Pkg {
				continue
			}
			for _, g := range c.P.callees(f) {
				if touches[g] && g.Pkg == f.Pkg {
					touches[f] = true
					ch = true
					break
				}
			}
		}
	}
	describes := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return hasExp(f) && r.Len() > 0 && isNamed(r.At(0).Type(), modPath+"/pkg/apk.Package")
	}
	e := NewEngine(c.P)
	e.Inline = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Pkg.Pkg != entry.Pkg.Pkg || describes(f) {
			return false
		}
		if hasExp(f) && writes[f] {
			return false
		}
		return touches[f] || instrCount(f) <= 40
	}
	isChk := func(t *Term) bool { return isMethod(t, "ChecksumString") }
	isDH := func(t *Term) bool { return fieldBase(t, dhF) != nil }
	chain := func(t *Term, f func(*Term)) {
		leafThrough(t, func(x *Term) bool { f(x); return false })
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if x := emptyFact(t, val); x != nil {
			if l := leafThrough(x, isChk); l != nil {
				s.Mark("nochk")
			}
			if l := leafThrough(x, isDH); l != nil {
				s.Mark("nodh", fieldBase(l, dhF))
			}
		}
		if a, b, ok := eqPair(t, val); ok {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if leafThrough(p[1], isChk) != nil {
					recv := leafThrough(p[1], isChk).Args[0]
					chain(p[0], func(x *Term) { s.Mark("ctl", x, recv) })
				}
				if r := leafThrough(p[1], isDH); r != nil {
					chain(p[0], func(x *Term) { s.Mark("dat", x, fieldBase(r, dhF)) })
				}
			}
		}
	}
	verified := func(s *State, E, slot *Term) (bool, string) {
		if E.isNil() {
			return true, ""
		}
		hash := func(fv *types.Var) *Term { return s.Load(e.faddr(E, fv), fv.Type()) }
		okCtl := s.HasMark("nochk")
		for _, m := range s.MarksOf("ctl") {
			if m.Args[0] != hash(ctlF) {
				continue
			}
			if r := m.Args[1]; slot != nil && r.Op == "load" && r.Args[0].Op == "iaddr" && r.Args[0].Args[1] != slot {
				return false, "the control hash was compared with the checksum of a different package"
			}
			okCtl = true
		}
		if !okCtl {
			return false, "the control hash has not been compared with the index checksum"
		}
		of := func(I *Term) bool { return I.contains(func(x *Term) bool { return x == E }) }
		for _, m := range s.MarksOf("nodh") {
			if of(m.Args[0]) {
				return true, ""
			}
		}
		for _, m := range s.MarksOf("dat") {
			if m.Args[0] == hash(datF) && of(m.Args[1]) {
				return true, ""
			}
		}
		return false, "the data section hash has not been compared with the declared data hash"
	}
	expIn := func(v *Term) []*Term {
		if v == nil || v.Typ == nil {
			return nil
		}
		if isExpPtr(v.Typ) {
			return []*Term{v}
		}
		var r []*Term
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isExpPtr(st.Field(i).Type()) {
					r = append(r, e.fieldOf(v, st.Field(i), i))
				}
			}
		}
		return r
	}
	published := 0
	var pubs []func()
	type use struct {
		site, pos, why string
		shared         bool
	}
	var uses []use
	publish := func(s *State, v, slot *Term, in ssa.Instruction) {
		for _, E := range expIn(v) {
			if E.isNil() {
				continue
			}
			ok, why := verified(s, E, slot)
			published++
			if !ok {
				pubs = append(pubs, func() {
					c.Bad("verified-before-publish", "expanded package shared in "+enclosing(in), c.P.instrPos(in), why+"; path: "+s.TraceString())
				})
			} else {
				pubs = append(pubs, func() {
					c.OK("verified-before-publish", "expanded package shared in "+enclosing(in), c.P.instrPos(in), "")
				})
			}
		}
	}
	e.OnStore = func(s *State, addr, v *Term, in ssa.Instruction) {
		for a := addr; a.Op == "iaddr" || a.Op == "faddr"; a = a.Args[0] {
			if a.Op == "iaddr" {
				publish(s, v, a.Args[1], in)
				break
			}
		}
	}
	e.OnSend = func(s *State, ch, v *Term, in ssa.Instruction) { publish(s, v, nil, in) }
	e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) { publish(s, v, nil, in) }
	e.OnCall = func(s *State, ev *CallEvent) {
		if ev.Static == nil || !writes[ev.Static] || ev.WillInline {
			return
		}
		for _, a := range ev.Args {
			for _, E := range expIn(a) {
				ok, why := verified(s, E, nil)
				shared := E.Op == "load" && (E.Args[0].Op == "iaddr" || E.Args[0].Op == "faddr") || E.Op == "field" || E.Op == "recv" || E.Op == "mapget" || E.Op == "extract"
				u := use{"installation by " + shortFn(ev.Name) + " in " + enclosing(ev.Instr), c.P.instrPos(ev.Instr), why + " of " + E.String() + "; path: " + s.TraceString(), shared}
				if ok {
					u.why = ""
				}
				uses = append(uses, u)
			}
		}
	}
	e.Run(entry, nil)
	c.Engine("InstallPackages", e)
	needPub := false
	for _, u := range uses {
		switch {
		case u.why == "":
			c.OK("verified-before-install", u.site, u.pos, "")
		case u.shared && published > 0:
			// read from a container: every package put there must be verified
			needPub = true
			c.OK("verified-before-install", u.site, u.pos, "taken from a container of verified packages")
		default:
			c.Bad("verified-before-install", u.site, u.pos, u.why)
		}
	}
	if needPub {
		for _, p := range pubs {
			p()
		}
	}
	c.AtLeast("verified-before-install", 1, "calls installing an expanded package")
	// every in-module call of an installing function is in view
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			g := in.Common().StaticCallee()
			if g == nil || !hasExp(g) || !writes[g] || !c.P.inModule(g) || e.Funcs[f] {
				continue
			}
			if hasExp(f) && writes[f] {
				continue // inside the installer itself
			}
			c.Undecided("install-covered", "call of "+shortFn(g.String())+" in "+shortFn(f.String()), c.P.instrPos(in), "expanded packages are installed outside InstallPackages")
		}
	}
}

func checkC03Expand(c *Ctx) {
	entry := c.Fn("pkg/expandapk.ExpandApk")
	typ := stdField(c.P, "archive/tar", "Header", "Typeflag")
	pax := stdField(c.P, "archive/tar", "Header", "PAXRecords")
	if entry == nil || typ == nil || pax == nil {
		c.Undecided("anchor", "tar.Header", "?", "archive/tar.Header fields not found")
		return
	}
	const next = "(*archive/tar.Reader).Next"
	own := func(r *Term) bool { // re-reading a file it wrote itself
		return r.contains(func(x *Term) bool { return x.isCall("os.Open") || x.isCall("os.OpenFile") })
	}
	e := NewEngine(c.P)
	rs := c.P.reachSet(func(n string) bool {
		return n == next || strings.HasSuffix(n, ").Sum") || n == "io.TeeReader" || n == "io.Copy" || strings.HasPrefix(n, "(*github.com/klauspost/compress/gzip.Reader)") || strings.HasPrefix(n, "(*compress/gzip.Reader)")
	})
	e.Inline = func(f *ssa.Function) bool {
		return f.Pkg == entry.Pkg && f.Signature.Recv() == nil && (rs[f] || instrCount(f) < 60)
	}
	hdrOf := func(t *Term, fv *types.Var) *Term { return fieldBase(t, fv) }
	isPax := func(h *Term) func(*Term) bool {
		return func(t *Term) bool {
			return (t.Op == "mapget" || t.Op == "mapok") && hdrOf(t.Args[0], pax) != nil && (h == nil || hdrOf(t.Args[0], pax) == h)
		}
	}
	nextOf := func(h *Term) *Term { // header term -> Next call
		if h != nil && h.Op == "extract" && h.Args[0].isCall(next) {
			return h.Args[0]
		}
		return nil
	}
	discharge := func(s *State, h *Term) {
		if nextOf(h) != nil {
			s.Mark("done", h.Args[0])
		}
	}
	// a hash object h fed by a copy from reader r
	isSum := func(t *Term) *Term {
		if isMethod(t, "Sum") && len(t.Args) > 0 {
			return t.Args[0]
		}
		return nil
	}
	settle := func(s *State, nx *Term, in ssa.Instruction) {
		if own(nx.Args[0]) {
			return
		}
		site := "entry read in " + enclosing(in)
		c.Check(s.HasMark("done", nx), "entry-checksum-compared", site, c.P.instrPos(in), "an archive entry is left behind although it may be a regular file whose checksum has not been compared with its content; path: "+s.TraceString())
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		// end of archive or error
		if val && t.isCall("errors.Is") {
			if nx := errOfCall(t.Args[0], next); nx != nil && isGlobalNamed(t.Args[1], "EOF") {
				s.Mark("done", nx)
				s.Mark("eof", nx.Args[0])
			}
		}
		if x := eqNil(t); x != nil {
			if nx := errOfCall(x, next); nx != nil && !val {
				s.Mark("done", nx)
			}
		}
		if a, b, ok := eqPair(t, val); ok {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if nx := errOfCall(p[0], next); nx != nil && isGlobalNamed(p[1], "EOF") {
					s.Mark("done", nx)
					s.Mark("eof", nx.Args[0])
				}
				if h := hdrOf(p[0], typ); h != nil {
					if n, ok := p[1].intConst(); ok && n != '0' && n != 0 {
						discharge(s, h)
					}
				}
			}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				sl := leafThrough(p[0], func(x *Term) bool { return isSum(x) != nil })
				if sl == nil {
					continue
				}
				w := isSum(sl)
				if l := leafThrough(p[1], isPax(nil)); l != nil {
					h := hdrOf(l.Args[0], pax)
					if nx := nextOf(h); nx != nil && s.HasMark("hashed", w, nx.Args[0]) {
						discharge(s, h)
					}
				}
			}
		}
		if a, b, ok := neqPair(t, val); ok {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if h := hdrOf(p[0], typ); h != nil {
					if n, ok := p[1].intConst(); ok && n == '0' {
						discharge(s, h)
					}
				}
			}
		}
		if x := emptyFact(t, val); x != nil {
			if h := hdrOf(x, pax); h != nil {
				discharge(s, h)
			}
			if l := leafThrough(x, isPax(nil)); l != nil && l.Op == "mapget" {
				discharge(s, hdrOf(l.Args[0], pax))
			}
		}
		if !val && t.Op == "mapok" && hdrOf(t.Args[0], pax) != nil {
			discharge(s, hdrOf(t.Args[0], pax))
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		switch {
		case ev.Name == next:
			for _, m := range s.MarksOf("entry") {
				if nx := m.Args[0]; nx.Args[0] == ev.Args[0] {
					settle(s, nx, ev.Instr)
					s.Unmark("entry", nx)
				}
			}
		case (ev.Name == "io.Copy" || ev.Name == "io.CopyBuffer") && len(ev.Args) >= 2:
			s.Mark("hashed", ev.Args[0], ev.Args[1])
			s.Mark("drained", ev.Args[1])
		case gzipReset(ev.Name):
			s.Mark("src", ev.Args[0], ev.Args[1])
		case strings.HasSuffix(ev.Name, ").Sum"):
			h := ev.Args[0]
			ok := false
			for _, m := range s.MarksOf("hashed") {
				ok = ok || m.Args[0] == h
			}
			fed := func(r *Term) bool { return r.isCall("io.TeeReader") && r.Args[1] == h }
			for _, m := range s.MarksOf("src") {
				if !fed(m.Args[1]) {
					continue
				}
				for _, d := range s.MarksOf("drained") {
					r := d.Args[0]
					for r.isCall("io.TeeReader") || r.isCall("bufio.NewReader") || r.isCall("bufio.NewReaderSize") {
						r = r.Args[0]
					}
					ok = ok || r == m.Args[0]
				}
			}
			c.Check(ok, "hash-covers-stream", "Sum in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the hash is taken although the reader it is attached to has not been read to its end through a copy; path: "+s.TraceString())
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		if ev.Name == next && ev.Final != nil {
			s.Mark("entry", ev.Final)
		}
		if gzipNew(ev.Name) && ev.Final != nil {
			s.Mark("src", e.Extract(ev.Final, 0, nil), ev.Args[0])
		}
	}
	fld := func(n string) *types.Var { return namedField(c.P, "pkg/expandapk", "APKExpanded", n) }
	e.OnEnd = func(s *State, rets []*Term) {
		if len(rets) != 2 || s.IsNil(rets[1]) == 0 || rets[0].isNil() {
			return
		}
		pos := c.P.pos(entry.Pos())
		for _, m := range s.MarksOf("entry") {
			if !own(m.Args[0].Args[0]) {
				c.Check(s.HasMark("done", m.Args[0]), "entry-checksum-compared", "last entry before ExpandApk succeeds", pos, "the last entry read may be a regular file whose checksum was not compared; path: "+s.TraceString())
			}
		}
		eof := false
		for _, m := range s.MarksOf("eof") {
			eof = eof || !own(m.Args[0])
		}
		c.Check(eof, "archive-read-to-end", "successful return of ExpandApk", pos, "succeeds without having read the data section's entries to the end of the archive; path: "+s.TraceString())
		at := func(n string) *Term {
			if fv := fld(n); fv != nil {
				return s.Load(e.faddr(rets[0], fv), fv.Type())
			}
			return nil
		}
		idx := func(t *Term) *Term {
			if t != nil && t.Op == "load" && t.Args[0].Op == "iaddr" {
				return t.Args[0].Args[1]
			}
			return nil
		}
		ch, cf, ph, pf := idx(at("ControlHash")), idx(at("ControlFile")), idx(at("PackageHash")), idx(at("PackageFile"))
		if ch != nil && cf != nil {
			c.Check(ch == cf, "hash-of-its-own-file", "ControlHash", pos, "the control hash belongs to a different stream than the control file; path: "+s.TraceString())
		}
		if ph != nil && pf != nil {
			c.Check(ph == pf, "hash-of-its-own-file", "PackageHash", pos, "the data hash belongs to a different stream than the data file; path: "+s.TraceString())
		}
		if cf != nil && pf != nil {
			c.Check(cf != pf, "hash-of-its-own-file", "control and data sections", pos, "control and data section are the same stream")
		}
	}
	e.Run(entry, nil)
	c.Engine("ExpandApk", e)
	c.AtLeast("entry-checksum-compared", 1, "archive entries read while expanding")
	c.AtLeast("hash-covers-stream", 1, "hash computations")
	c.AtLeast("archive-read-to-end", 1, "successful returns")
}

func gzipNew(n string) bool {
	return n == "github.com/klauspost/compress/gzip.NewReader" || n == "compress/gzip.NewReader"
}

func gzipReset(n string) bool {
	return n == "(*github.com/klauspost/compress/gzip.Reader).Reset" || n == "(*compress/gzip.Reader).Reset"
}

// errOfCall: t is the error result of a call of name.
func errOfCall(t *Term, name string) *Term {
	if t.Op == "extract" && t.Args[0].isCall(name) {
		if n, ok := t.Args[0].Typ.(*types.Tuple); ok && t.Fn != itoa(n.Len()-1) {
			return nil
		}
		return t.Args[0]
	}
	if t.isCall(name) {
		return t
	}
	return nil
}

func itoa(n int) string { return strconv.Itoa(n) }

func isGlobalNamed(t *Term, name string) bool {
	if t.Op == "load" && t.Args[0].Op == "gaddr" {
		return strings.HasSuffix(t.Args[0].Fn, "."+name)
	}
	return false
}
