package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", func(c *Ctx) { checkInstallOrder(c, "C13") }, "GetInstalled lists the installed database (C16, C18)", "a goroutine of an errgroup that returns an error makes Wait return an error")
	register("C14", func(c *Ctx) { checkInstallOrder(c, "C14") }, "closing a channel happens before a receive that returns because of it (Go memory model)")
}

// cell: an element of a slice, or a field of such an element.
type slot struct {
	base *Term
	path string
	idx  *Term
}

func slotOf(addr *Term) (slot, bool) {
	path := ""
	for {
		switch addr.Op {
		case "faddr":
			path = "." + addr.Fn + path
			addr = addr.Args[0]
		case "load":
			addr = addr.Args[0]
			path = "*" + path
		case "iaddr":
			if path == "*" {
				path = "" // elements that are pointers
			}
			return slot{addr.Args[0], path, addr.Args[1]}, true
		default:
			return slot{}, false
		}
	}
}

// fromZero: the index starts at zero and grows by one with each iteration of its loop.
func fromZero(t *Term) bool {
	k := int64(0)
	if t.Op == "bin" && t.Fn == "+" {
		for i := 0; i < 2; i++ {
			if n, ok := t.Args[i].intConst(); ok {
				k = n
				t = t.Args[1-i]
				break
			}
		}
	}
	ph, ok := t.Obj.(*ssa.Phi)
	if !ok || t.Op != "inst" {
		return false
	}
	init, step := false, true
	for i, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && !isBackEdge(ph.Block().Preds[i], ph.Block()) {
			if n, ok := constant.Int64Val(c.Value); ok && n+k == 0 {
				init = true
				continue
			}
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			step = false
			continue
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Int64() != 1 {
			step = false
		}
	}
	return init && step
}

// spawns: the goroutine starts the current frame runs under, outermost first, and the calls leading to the first.
func spawns(s *State) (sites []ssa.Instruction, calls []ssa.Instruction) {
	for i, fr := range s.frames {
		if i == 0 || fr.call == nil {
			continue
		}
		_, isGo := fr.call.(*ssa.Go)
		if len(sites) == 0 {
			calls = append(calls, fr.call)
		}
		if fr.mode == 2 || isGo {
			sites = append(sites, fr.call)
		}
	}
	if len(sites) == 0 {
		calls = nil
	}
	return
}

type spawnAccess struct {
	spawn ssa.Instruction
	base  *Term
	path  string
	site  string
	pos   string
	ready bool
	val   *Term
	ok    bool
	why   string
}

func checkInstallOrder(c *Ctx, id string) {
	entry := c.Fn("(*pkg/apk.APK).InstallPackages")
	hdrName := stdField(c.P, "archive/tar", "Header", "Name")
	nameF := namedField(c.P, "pkg/apk", "Package", "Name")
	ownF := ownerField(c.P)
	if entry == nil || hdrName == nil || nameF == nil || ownF == nil {
		c.Undecided("anchor", "fields", "?", "tar.Header.Name, Package.Name or the owner map of APK not found")
		return
	}
	order, rec := id == "C14", id == "C13"
	if order {
		c.Rule("the function that unpacks a package is reached from InstallPackages through at most one goroutine start, which is executed at most once per call; in that goroutine it runs inside a loop whose index starts at 0 and grows by 1, on the package taken from the slot of that index")
		c.Rule("a slot filled by a download goroutine is read elsewhere only after receiving from the channel of the same index (or after all goroutines were waited for); the channel of index j is closed only after slot j was set to the package expanded for element j of the request, without error, and every goroutine that closes one closes it before it reports success")
	} else {
		c.Rule("AddInstalledPackage runs only after every goroutine of the request was waited for without error and on paths where no unpacking failed; what it records was stored in the same iteration that unpacked that package")
		c.Rule("each package of the request is unpacked only on paths where its name was compared with every installed package and found absent, and skipped only where it was found present; the installer reports success only at the end of its list")
		c.Rule("InstallPackages reports success only after every unpacked package was recorded; the files recorded exclude exactly those whose recorded owner is another package")
	}
	units := map[*ssa.Function]bool{}
	es, _ := c.P.unpackers(entry, hdrName)
	for _, f := range es {
		units[f] = true
	}
	for _, f := range c.P.Funcs {
		for _, in := range callsIn(f) {
			if k := in.Common(); k.IsInvoke() && k.Method.Name() == "WriteHeader" && isNamed(k.Value.Type(), modPath+"/pkg/apk.WriteHeaderer") {
				units[f] = true
			}
		}
	}
	above := c.P.staticReach(units)
	const getInst = "(*" + modPath + "/pkg/apk.APK).GetInstalled"
	const addInst = "(*" + modPath + "/pkg/apk.APK).AddInstalledPackage"
	checks := c.P.staticReachName(getInst)
	// helpers that record, start goroutines or wait for them
	for f := range c.P.reachSet(func(n string) bool {
		return n == addInst || n == "(*golang.org/x/sync/errgroup.Group).Wait" || n == "(*golang.org/x/sync/errgroup.Group).Go"
	}) {
		if !isExportedFn(f) {
			checks[f] = true
		}
	}
	headers := map[*ssa.BasicBlock]bool{} // loops that unpack
	dbLoops := map[*ssa.BasicBlock]bool{} // loops that record
	filters := map[*ssa.Function]bool{}   // predicates that drop files
	stores := map[string][]spawnAccess{}  // by base+path
	loads := map[string][]spawnAccess{}   // by base+path
	sinkSpawn := map[ssa.Instruction]bool{}
	paired := map[string]map[string]bool{} // channel cells -> slot cells set before closing
	keyOf := func(cl slot) string { return itoa(cl.base.id) + cl.path }

	run := func(final bool) {
		stores, loads = map[string][]spawnAccess{}, map[string][]spawnAccess{}
		e := NewEngine(c.P)
		e.MayRunCallbacks = true
		e.Inline = func(f *ssa.Function) bool {
			if f.Pkg == nil || f.Pkg.Pkg != entry.Pkg.Pkg || units[f] {
				return false
			}
			n := f.String()
			if n == getInst || n == addInst {
				return false
			}
			return above[f] || f.Parent() != nil || checks[f] || instrCount(f) <= 40
		}
		e.KeepSumMark = func(tag string) bool { return tag == "slotset" }
		chk := func(want bool, ok bool, rule, site, pos, msg string) {
			if final && want {
				c.Check(ok, rule, site, pos, msg)
			}
		}
		// ---- is the package already installed?
		x := &crossScan{e: e, one: true}
		x.side = func(s *State, coll *Term) int {
			if coll.Op == "extract" && coll.Fn == "0" && coll.Args[0].isCall(getInst) && s.IsNil(e.Extract(coll.Args[0], 1, nil)) == 1 {
				return 2
			}
			return 0
		}
		isInst := func(t *Term) bool {
			return t.Op == "load" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0].Op == "extract" && t.Args[0].Args[0].Args[0].isCall(getInst)
		}
		x.elem = func(t *Term) int {
			if isMethod(t, "PackageName") {
				return 1
			}
			if b := fieldBase(t, nameF); b != nil {
				if b.contains(isInst) {
					return 2
				}
				return 1
			}
			return 0
		}
		x.found = func(s *State, why string) { s.Mark("present") }
		e.OnNone = x.none
		e.OnMapSet = func(s *State, m, k, v *Term, in ssa.Instruction) { x.mapSet(s, m, k) }

		// ---- one iteration of the installer
		settle := func(s *State, site, pos string) {
			if !s.HasMark("iter") {
				return
			}
			s.Unmark("iter")
			if s.HasMark("failed") {
				chk(rec, false, "failure-stops", site, pos, "the installer goes on although unpacking a package failed; path: "+s.TraceString())
			}
			un, st := s.HasMark("unpacked"), s.HasMark("storedany")
			chk(rec, un || s.HasMark("present"), "every-package-handled", site, pos, "a package of the request is passed over although it was not found installed; path: "+s.TraceString())
			if un {
				chk(rec, s.HasMark("storedunpacked"), "recorded-iff-unpacked", site, pos, "an unpacked package is not kept for recording; path: "+s.TraceString())
			} else {
				chk(rec, !st, "recorded-iff-unpacked", site, pos, "a package that was not unpacked is kept for recording; path: "+s.TraceString())
			}
			for _, m := range s.MarksOf("stored") {
				s.Unmark("stored", m.Args...)
			}
			for _, n := range []string{"unpacked", "present", "storedunpacked", "storedany"} {
				s.Unmark(n)
			}
			for _, m := range s.MarksOf("unpackedpkg") {
				s.Unmark("unpackedpkg", m.Args...)
			}
			x.reset(s)
		}
		settleDB := func(s *State, site, pos string) {
			if !s.HasMark("dbiter") {
				return
			}
			s.Unmark("dbiter")
			chk(rec, s.HasMark("dbdone1"), "all-recorded", site, pos, "a package that was unpacked is passed over when recording; path: "+s.TraceString())
			s.Unmark("dbdone1")
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			fr := s.top()
			pos := "?"
			if len(fr.block.Instrs) > 0 {
				pos = c.P.instrPos(fr.block.Instrs[len(fr.block.Instrs)-1])
			}
			if t.Op == "bin" && t.Fn == "<" && headers[fr.block] {
				settle(s, "next package in "+shortFn(fr.fn.String()), pos)
				if val {
					s.Mark("iter")
				} else {
					s.Mark("listdone")
				}
			}
			if t.Op == "bin" && t.Fn == "<" && dbLoops[fr.block] {
				settleDB(s, "next record in "+shortFn(fr.fn.String()), pos)
				if val {
					s.Mark("dbiter")
				} else {
					s.Mark("dblistdone")
				}
			}
			if t.Op == "bin" && t.Fn == "<" && t.Args[1].Op == "pure" && t.Args[1].Fn == "len" && inLoop(fr.block) {
				if l := t.Args[1].Args[0]; l.Op == "load" && l.Typ != nil && strings.HasSuffix(l.Typ.String(), "[]archive/tar.Header") {
					if cl, ok := slotOf(l.Args[0]); ok && len(stores[keyOf(cl)]) > 0 {
						if s.HasMark("fileiter") {
							if known, same := s.ownerMarks(); !s.HasMark("filekept") && (known != 1 || same != 0) {
								s.Mark("filebad")
							}
							s.Unmark("filekept")
						}
						s.clearOwnerMarks()
						if val {
							s.Mark("fileiter")
						} else {
							if !s.HasMark("filebad") {
								s.Mark("filterdone", cl.idx)
							}
							s.Unmark("fileiter")
							s.Unmark("filebad")
						}
					}
				}
			}
			ownerFact(s, t, val, ownF)
			x.fact(s, t, val)
			if n := eqNil(t); n != nil {
				if val && n.Op == "load" && n.Typ != nil && isNamed(n.Typ, modPath+"/pkg/apk.Package") {
					if _, ok := slotOf(n.Args[0]); ok {
						s.Mark("dbdone1") // nothing was unpacked for this slot
					}
				}
				for _, m := range s.MarksOf("unpackerr") {
					if m.Args[0] == n {
						s.Unmark("unpackerr", n)
						if !val {
							s.Mark("failed")
						}
					}
				}
				for _, m := range s.MarksOf("adderr") {
					if m.Args[0] == n {
						s.Unmark("adderr", n)
						if val {
							s.Mark("dbdone1")
						} else {
							s.Mark("failed")
						}
					}
				}
			}
			if a := emptyFact(t, val); a != nil && a.Op == "param" && !inLoop(fr.block) {
				s.Mark("listdone")
				s.Mark("dblistdone")
			}
			// which case of a select was taken
			if a, b, ok := eqPair(t, val); ok {
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if n, k := p[1].intConst(); k && p[0].Op == "extract" && p[0].Fn == "0" && p[0].Args[0].isCall("select") && n >= 0 && int(n) < len(p[0].Args[0].Args) {
						s.Mark("recv", p[0].Args[0].Args[n])
					}
				}
			}
		}
		received := func(s *State, idx *Term) bool {
			for _, m := range s.MarksOf("recv") {
				ch := m.Args[0]
				if ch.Op == "load" {
					if cl, ok := slotOf(ch.Args[0]); ok && cl.idx == idx {
						return true
					}
				}
			}
			return s.HasMark("waited")
		}
		e.OnInstr = func(s *State, in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.UnOp:
				switch y.Op {
				case token.ARROW:
					s.Mark("recv", s.Val(y.X))
				case token.MUL:
					if cl, ok := slotOf(s.Val(y.X)); ok {
						sites, _ := spawns(s)
						var sp ssa.Instruction
						if len(sites) > 0 {
							sp = sites[len(sites)-1]
						}
						loads[keyOf(cl)] = append(loads[keyOf(cl)], spawnAccess{spawn: sp, base: cl.base, path: cl.path, site: "slot read in " + enclosing(in), pos: c.P.instrPos(in), ready: received(s, cl.idx)})
					}
				}
			}
		}
		e.OnStore = func(s *State, addr, v *Term, in ssa.Instruction) {
			cl, ok := slotOf(addr)
			if !ok || !cl.base.isCall("makeslice") {
				return
			}
			sites, _ := spawns(s)
			if len(sites) == 0 {
				return
			}
			a := spawnAccess{spawn: sites[len(sites)-1], base: cl.base, path: cl.path, site: "slot set in " + enclosing(in), pos: c.P.instrPos(in), val: v, ok: true}
			if v.Typ != nil {
				if p, ok := v.Typ.(*types.Pointer); ok && isNamed(p.Elem(), modPath+"/pkg/apk.Package") {
					s.Mark("stored", v)
					s.Mark("storedany")
					if s.HasMark("unpacked") && s.HasMark("unpackedpkg", v) {
						s.Mark("storedunpacked")
					}
				}
			}
			if s.HasMark("closedslot", cl.idx) {
				a.ok, a.why = false, "a slot is set after it was announced as ready"
			}
			if sinkSpawn[a.spawn] && !v.isNil() {
				own := v.contains(func(t *Term) bool { return t.Op == "iaddr" && t.Args[1] == cl.idx })
				chk(rec, own, "kept-under-own-index", a.site, a.pos, "what an iteration of the installer keeps is not stored under the index of its package; path: "+s.TraceString())
			}
			// what is stored stems from the element of the request with the same index
			other := v.contains(func(t *Term) bool {
				return t.Op == "iaddr" && t.Args[0].Op == "param" && t.Args[1] != cl.idx
			})
			same := v.contains(func(t *Term) bool {
				return t.Op == "iaddr" && t.Args[0].Op == "param" && t.Args[1] == cl.idx
			})
			if same && !other && !v.isNil() && noOutstanding(s, e, v) {
				s.Mark("slotset", cl.base, e.T.mk("const", cl.path, nil, nil), cl.idx)
			}
			stores[keyOf(cl)] = append(stores[keyOf(cl)], a)
		}
		e.OnCall = func(s *State, ev *CallEvent) {
			pos := c.P.instrPos(ev.Instr)
			switch {
			case ev.Name == "builtin.close":
				ch := ev.Args[0]
				if ch.Op != "load" {
					return
				}
				cl, ok := slotOf(ch.Args[0])
				if !ok {
					return
				}
				sites, _ := spawns(s)
				if len(sites) == 0 {
					return
				}
				site := "close in " + enclosing(ev.Instr)
				good := false
				slots := map[string]bool{}
				for _, m := range s.MarksOf("slotset") {
					if m.Args[2] == cl.idx {
						good = true
						slots[itoa(m.Args[0].id)+m.Args[1].Fn] = true
					}
				}
				chk(order, good, "published-before-announced", site, pos, "a package is announced as ready before the slot of the same index was set to it without error; path: "+s.TraceString())
				k := keyOf(cl)
				if old := paired[k]; old == nil {
					paired[k] = slots
				} else {
					for b := range old {
						if !slots[b] {
							delete(old, b)
						}
					}
				}
				s.Mark("closedslot", cl.idx)
				s.Mark("announced")
				return
			case ev.Name == "builtin.append":
				if s.HasMark("fileiter") && len(ev.Args) > 0 && ev.Args[0].Typ != nil && strings.HasSuffix(ev.Args[0].Typ.String(), "[]archive/tar.Header") || s.HasMark("fileiter") && strings.HasSuffix(ev.Instr.Value().Type().String(), "[]archive/tar.Header") {
					s.Mark("filekept")
					if known, same := s.ownerMarks(); known != 0 && same != 1 {
						s.Mark("filebad")
					}
				}
			case strings.HasSuffix(ev.Name, "errgroup.Group).Wait"):
				s.Mark("waited")
			case strings.HasSuffix(ev.Name, "errgroup.Group).Go"), strings.HasSuffix(ev.Name, "errgroup.Group).TryGo"):
				s.Unmark("announced")
				if fn, ok := ev.Args[1].Obj.(*ssa.Function); ok && !c.P.inModule(fn) {
					c.Undecided("anchor", "goroutine", pos, "a goroutine's function is not known")
				}
			case ev.Name == addInst:
				if !final {
					markLoops(s, dbLoops)
				}
				site := "AddInstalledPackage called in " + enclosing(ev.Instr)
				sites, _ := spawns(s)
				chk(rec, len(sites) == 0 && s.HasMark("waited"), "recorded-after-all", site, pos, "a package is recorded before every goroutine of the request was waited for; path: "+s.TraceString())
				gerr := len(s.MarksOf("grouperr")) > 0
				chk(rec, !gerr && !s.HasMark("failed"), "recorded-after-all", site+" (success)", pos, "a package is recorded although part of the request failed; path: "+s.TraceString())
				pkg, files := ev.Args[1], ev.Args[2]
				ok := false
				var idx *Term
				if pkg.Op == "load" {
					if cl, k := slotOf(pkg.Args[0]); k {
						ok = len(stores[keyOf(cl)]) > 0
						idx = cl.idx
					}
				}
				chk(rec, ok, "recorded-what-was-unpacked", site, pos, "the recorded package is not one kept by the installer; path: "+s.TraceString())
				filtered := false
				if files.isCall("slices.DeleteFunc") && files.Args[0].Op == "load" {
					if cl, k := slotOf(files.Args[0].Args[0]); k && cl.idx == idx && len(stores[keyOf(cl)]) > 0 {
						filtered = files.Args[1].Op == "closure" || files.Args[1].Op == "func"
						if fn, ok := files.Args[1].Obj.(*ssa.Function); ok {
							filters[fn] = true
						}
					}
				}
				if idx != nil && s.HasMark("filterdone", idx) && !(files.Op == "load" && files.Args[0].Op == "iaddr") {
					filtered = true
				}
				chk(rec, filtered, "files-filtered", site, pos, "the files recorded are not those of the package minus the ones another package owns; path: "+s.TraceString())
			case units[ev.Static]:
				if !final {
					markLoops(s, headers)
				}
				site := shortFn(ev.Static.String()) + " called in " + enclosing(ev.Instr)
				sites, calls := spawns(s)
				once := true
				for _, in := range calls {
					once = once && !inLoop(in.Block())
				}
				for _, in := range sites {
					once = once && !inLoop(in.Block())
				}
				if len(sites) > 0 {
					sinkSpawn[sites[len(sites)-1]] = true
				} else {
					sinkSpawn[nil] = true
				}
				chk(order, once && len(sites) <= 1, "one-installer", site, pos, "packages are unpacked by goroutines started repeatedly; path: "+s.TraceString())
				// the slot the package comes from
				var idx []*Term
				seen := map[*Term]bool{}
				for _, a := range ev.Args[1:] {
					a.contains(func(t *Term) bool {
						if t.Op == "iaddr" && !seen[t.Args[1]] {
							if _, k := t.Args[1].intConst(); !k {
								seen[t.Args[1]] = true
								idx = append(idx, t.Args[1])
							}
						}
						return false
					})
				}
				chk(order, len(idx) == 1 && fromZero(idx[0]), "in-given-order", site, pos, "the unpacked package is not taken from a single slot counted up from the first; path: "+s.TraceString())
				chk(rec, !s.HasMark("present"), "not-unpacked-again", site, pos, "a package that was found installed is unpacked again; path: "+s.TraceString())
				chk(rec, x.complete(s), "absence-established", site, pos, "a package is unpacked without its name having been compared with every installed package; path: "+s.TraceString())
			}
		}
		e.OnPost = func(s *State, ev *CallEvent) {
			if ev.Final == nil {
				return
			}
			if units[ev.Static] {
				s.Mark("unpacked")
				for _, a := range ev.Args {
					if a.Typ != nil && isPkgPtr(a.Typ) {
						s.Mark("unpackedpkg", a)
						if s.HasMark("stored", a) {
							s.Mark("storedunpacked")
						}
					}
				}
				s.Mark("unpackerr", e.Extract(ev.Final, 1, nil))
			}
			if ev.Name == addInst {
				s.Mark("adderr", ev.Final)
			}
		}
		e.OnReturn = func(s *State, fr *Frame, rets []*Term, in *ssa.Return) {
			pos := c.P.instrPos(in)
			if filters[fr.fn] && len(rets) == 1 {
				ownerRet(s, chk, e, rets[0], ownF, rec, "filter "+shortFn(fr.fn.String()), pos)
				return
			}
			spawned := fr.mode == 2
			if !spawned && len(s.frames) > 1 {
				return
			}
			if len(rets) == 0 {
				return
			}
			if r := rets[len(rets)-1]; isMethod(r, "Err") {
				// a context's error once its Done channel delivered
				for _, m := range s.MarksOf("recv") {
					if ch := m.Args[0]; isMethod(ch, "Done") && ch.Args[0] == r.Args[0] {
						s.Assume(e.EqTerm(r, e.Nil()), false)
						break
					}
				}
			}
			isNil := s.IsNil(rets[len(rets)-1])
			if isNil == 0 {
				return
			}
			site := "success of " + shortFn(fr.fn.String())
			if spawned {
				if sinkSpawn[fr.call] {
					// a goroutine that unpacks
					settle(s, site, pos)
					chk(rec, s.HasMark("listdone"), "every-package-handled", site, pos, "the installer reports success before the end of its list; path: "+s.TraceString())
				}
				if closesIn(fr.fn) {
					chk(order, s.HasMark("announced"), "success-announced", site, pos, "a download reports success without announcing its package; the installer would wait for it forever; path: "+s.TraceString())
				}
				chk(rec, !sinkSpawn[fr.call] || !s.HasMark("failed"), "failure-stops", site, pos, "a goroutine reports success although unpacking failed; path: "+s.TraceString())
				return
			}
			settleDB(s, site, pos)
			gerr := len(s.MarksOf("grouperr")) > 0
			chk(rec, !gerr && !s.HasMark("failed"), "failure-reported", site, pos, "InstallPackages reports success although part of the request failed; path: "+s.TraceString())
			chk(rec, s.HasMark("dblistdone") && s.HasMark("listdone"), "all-recorded", site, pos, "InstallPackages reports success before every unpacked package was recorded; path: "+s.TraceString())
		}
		e.Run(entry, nil)
		if final {
			c.Engine(entry.Name(), e)
		}
	}
	run(false)
	run(false)
	run(true)
	if order {
		c.Check(len(sinkSpawn) == 1, "one-installer", "installer goroutines of "+shortFn(entry.String()), c.P.pos(entry.Pos()), "packages are unpacked from more than one goroutine")
		slots := map[string]bool{}
		for _, m := range paired {
			for b := range m {
				slots[b] = true
			}
		}
		var keys []string
		for k := range stores {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, st := range stores[k] {
				c.Check(st.ok, "set-before-announced", st.site, st.pos, st.why)
				for _, ld := range loads[k] {
					if ld.spawn == st.spawn {
						continue
					}
					c.Check(ld.ready, "read-after-ready", ld.site, ld.pos, "a slot set by another goroutine is read before its package was announced as ready")
					if ld.spawn != nil {
						c.Check(slots[k], "read-after-ready", ld.site+" (slot)", ld.pos, "the slot read is not the one set before the channel is closed")
					}
				}
			}
		}
		c.AtLeast("one-installer", 1, "calls that unpack a package")
		c.AtLeast("published-before-announced", 1, "announcements")
		c.AtLeast("read-after-ready", 1, "reads of slots")
		c.AtLeast("in-given-order", 1, "calls that unpack a package")
	} else {
		c.AtLeast("recorded-after-all", 1, "recordings")
		c.AtLeast("absence-established", 1, "calls that unpack a package")
		c.AtLeast("recorded-iff-unpacked", 1, "iterations of the installer")
		c.AtLeast("all-recorded", 1, "records")
		c.AtLeast("files-filtered", 1, "recordings")
	}
}

func isPkgPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), modPath+"/pkg/apk.Package")
}

// noOutstanding: v is not the result of a call whose error may be non-nil.
func noOutstanding(s *State, e *Engine, v *Term) bool {
	if v.Op == "extract" && v.Args[0].Op == "inst" {
		c := v.Args[0]
		if t, ok := c.Typ.(*types.Tuple); ok && t.Len() > 1 && isErrType(t.At(t.Len()-1).Type()) {
			return s.IsNil(e.Extract(c, t.Len()-1, nil)) == 1
		}
	}
	return true
}

// markLoops: headers of the loops the current call sits in, in the innermost frame that has any.
func markLoops(s *State, out map[*ssa.BasicBlock]bool) {
	for i := len(s.frames) - 1; i >= 0; i-- {
		b := s.frames[i].block
		found := false
		var best *ssa.BasicBlock
		for _, h := range s.frames[i].fn.Blocks {
			if isLoopHeader(h) && loopBlocks(h)[b] {
				if best == nil || best.Dominates(h) {
					best = h
				}
				found = true
			}
		}
		if found {
			out[best] = true
			return
		}
	}
}

func closesIn(f *ssa.Function) bool {
	for _, in := range callsIn(f) {
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return true
		}
		if g := in.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg && g != f && instrCount(g) < 200 {
			for _, in2 := range callsIn(g) {
				if b, ok := in2.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					return true
				}
			}
		}
	}
	return false
}

// ownerFact: what the path knows about the recorded owner of the file at hand.
func ownerFact(s *State, t *Term, val bool, ownF *types.Var) {
	isOwner := func(t *Term) bool {
		if t.Op == "extract" {
			t = t.Args[0]
		}
		return t.Op == "mapget" && fieldBase(t.Args[0], ownF) != nil
	}
	if t.Op == "mapok" && fieldBase(t.Args[0], ownF) != nil {
		s.Mark("ownerknown" + itoa(b2i(val)))
	}
	if t.Op == "bin" && t.Fn == "==" {
		for i := 0; i < 2; i++ {
			if isOwner(t.Args[i]) {
				if t.Args[1-i].isNil() {
					s.Mark("ownerknown" + itoa(b2i(!val)))
				} else if isPkgPtr(t.Args[1-i].Typ) {
					s.Mark("ownersame" + itoa(b2i(val)))
				}
			}
		}
	}
}

func (s *State) ownerMarks() (known, same int) {
	known, same = -1, -1
	for i := 0; i < 2; i++ {
		if s.HasMark("ownerknown" + itoa(i)) {
			known = i
		}
		if s.HasMark("ownersame" + itoa(i)) {
			same = i
		}
	}
	return
}

func (s *State) clearOwnerMarks() {
	for _, n := range []string{"ownerknown0", "ownerknown1", "ownersame0", "ownersame1"} {
		s.Unmark(n)
	}
}

// ownerRet: the predicate drops a file exactly if its recorded owner is another package.
func ownerRet(s *State, chk func(bool, bool, string, string, string, string), e *Engine, r *Term, ownF *types.Var, want bool, site, pos string) {
	isOwner := func(t *Term) bool {
		if t.Op == "extract" {
			t = t.Args[0]
		}
		return t.Op == "mapget" && fieldBase(t.Args[0], ownF) != nil
	}
	known, same := s.ownerMarks()
	s.clearOwnerMarks()
	if v, ok := r.isBoolConst(); ok {
		switch {
		case v:
			chk(want, known == 1 && same == 0, "files-filtered", site, pos, "a file is dropped from the record although it was not established that another package owns it; path: "+s.TraceString())
		default:
			chk(want, known == 0 || same == 1, "files-filtered", site, pos, "a file is recorded although another package may own it; path: "+s.TraceString())
		}
		return
	}
	t, neg := e.norm(r)
	ok := false
	if a, b, k := eqPair(t, true); k && neg && known == 1 {
		ok = isOwner(a) && isPkgPtr(b.Typ) || isOwner(b) && isPkgPtr(a.Typ)
	}
	chk(want, ok, "files-filtered", site, pos, "the predicate does not compare the recorded owner of the file with the package; path: "+s.TraceString())
}

// staticReachName: functions that reach the named one.
func (p *Prog) staticReachName(n string) map[*ssa.Function]bool {
	to := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.String() == n {
			to[f] = true
		}
	}
	return p.staticReach(to)
}
