package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", checkC26, "net/http delivers the status, the headers and the body of the same response; io.CopyN discards exactly the number of bytes asked for or fails")
}

// linear flattens a sum into coefficients of its non-arithmetic terms.
func linear(t *Term) (map[*Term]int64, int64) {
	m := map[*Term]int64{}
	var k int64
	var add func(t *Term, c int64)
	add = func(t *Term, c int64) {
		if n, ok := t.intConst(); ok {
			k += c * n
			return
		}
		switch {
		case t.Op == "conv":
			add(t.Args[0], c)
		case t.Op == "bin" && t.Fn == "+" && len(t.Args) == 2:
			add(t.Args[0], c)
			add(t.Args[1], c)
		case t.Op == "bin" && t.Fn == "-" && len(t.Args) == 2:
			add(t.Args[0], c)
			add(t.Args[1], -c)
		default:
			m[t] += c
			if m[t] == 0 {
				delete(m, t)
			}
		}
	}
	add(t, 1)
	return m, k
}

func sameLinear(a, b *Term, extra ...*Term) bool {
	ma, ka := linear(a)
	mb, kb := linear(b)
	for _, x := range extra {
		mx, kx := linear(x)
		kb += kx
		for t, c := range mx {
			mb[t] += c
			if mb[t] == 0 {
				delete(mb, t)
			}
		}
	}
	if ka != kb || len(ma) != len(mb) {
		return false
	}
	for t, c := range ma {
		if mb[t] != c {
			return false
		}
	}
	return true
}

// rangeStart: v is the text of a Range header that starts at the returned number.
func rangeStart(v *Term) *Term {
	if v.isCall("fmt.Sprintf") && len(v.Args) == 2 {
		if f, ok := v.Args[0].strConst(); ok && (f == "bytes=%d-" || f == "bytes=%v-") {
			return v.Args[1]
		}
	}
	// "bytes=" + strconv.FormatInt(x, 10) + "-"
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "bin" && t.Fn == "+" && len(t.Args) == 2 {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		parts = append(parts, t)
	}
	flat(v)
	if len(parts) == 3 {
		a, _ := parts[0].strConst()
		b, _ := parts[2].strConst()
		m := parts[1]
		if a == "bytes=" && b == "-" {
			if m.isCall("strconv.Itoa") {
				return m.Args[0]
			}
			if m.isCall("strconv.FormatInt") {
				if n, ok := m.Args[1].intConst(); ok && n == 10 {
					return m.Args[0]
				}
			}
			if m.isCall("fmt.Sprint") && len(m.Args) == 1 {
				return m.Args[0]
			}
		}
	}
	return nil
}

func checkC26(c *Ctx) {
	c.Rule("typestate of the retrying reader: a request is sent either with no bytes delivered so far, or with a Range header starting at exactly the delivered count")
	c.Rule("a response body becomes the source of further reads only after status 206, or status 200 with nothing delivered, or status 200 and a successfully tested discard of exactly the delivered count")
	c.Rule("at every return of Read the delivered count has grown by exactly the number of bytes returned, which were read into the start of the caller's buffer by the last read of the current body")
	// the type: its Read method reaches a request with a Range header
	isRange := func(in ssa.CallInstruction) bool {
		switch staticName(in) {
		case "(net/http.Header).Set", "(net/http.Header).Add", "(net/textproto.MIMEHeader).Set":
			if k, ok := in.Common().Args[1].(*ssa.Const); ok && k.Value != nil {
				return strings.EqualFold(strings.Trim(k.Value.ExactString(), `"`), "Range")
			}
		}
		return false
	}
	var readers []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Signature.Recv() == nil || f.Name() != "Read" || f.Signature.Params().Len() != 1 {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var reach func(g *ssa.Function) bool
		reach = func(g *ssa.Function) bool {
			if seen[g] {
				return false
			}
			seen[g] = true
			for _, in := range callsIn(g) {
				if isRange(in) {
					return true
				}
				if h := in.Common().StaticCallee(); h != nil && c.P.inModule(h) && reach(h) {
					return true
				}
			}
			for _, h := range g.AnonFuncs {
				if reach(h) {
					return true
				}
			}
			return false
		}
		if reach(f) {
			readers = append(readers, f)
		}
	}
	if len(readers) == 0 {
		c.Undecided("anchor", "resuming reader", "-", "no Read method that asks for a byte range was found")
		return
	}
	for _, rd := range readers {
		recv := namedOf(rd.Signature.Recv().Type())
		if recv == nil {
			c.Undecided("anchor", shortFn(rd.String()), c.P.pos(rd.Pos()), "receiver type not found")
			continue
		}
		checkResume(c, rd, recv)
	}
}

func checkResume(c *Ctx, rd *ssa.Function, recv *types.Named) {
	pkg := rd.Pkg
	sends := 0
	// progress field: found from the Range header on the way
	var progress *types.Var
	run := func(entry *ssa.Function, isRead bool) {
		e := NewEngine(c.P)
		e.Inline = func(g *ssa.Function) bool { return g.Pkg == pkg && instrCount(g) < 300 }
		name := shortFn(entry.String())
		var recvT, bufT *Term
		own := func(s *State) *Term { // the reader object
			if isRead {
				return recvT
			}
			for _, m := range s.MarksOf("reader") {
				return m.Args[0]
			}
			return nil
		}
		bodyOf := func(t *Term) *Term { // response whose body t is
			if t.Op == "load" && t.Args[0].Op == "faddr" {
				if fv, ok := t.Args[0].Obj.(*types.Var); ok && fv.Name() == "Body" && isNamed(t.Args[0].Args[0].Typ, "net/http.Response") {
					return t.Args[0].Args[0]
				}
			}
			return nil
		}
		e.KeepSumMark = func(tag string) bool { return tag == "added" }
		e.OnCall = func(s *State, ev *CallEvent) {
			switch {
			case (ev.Name == "(net/http.Header).Set" || ev.Name == "(net/http.Header).Add") && len(ev.Args) == 3:
				if k, ok := ev.Args[1].strConst(); ok && strings.EqualFold(k, "Range") {
					from := rangeStart(ev.Args[2])
					if from == nil {
						c.Bad("range-starts-at-delivered", "Range header in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the Range header is not \"bytes=N-\": "+ev.Args[2].String())
						return
					}
					// the field it was read from
					from.walk(func(x *Term) bool {
						if x.Op == "load" {
							if fv := fieldOfTerm(x); fv != nil && progress == nil {
								progress = fv
							}
						}
						return true
					})
					if strings.HasSuffix(ev.Name, "Add") {
						c.Bad("range-starts-at-delivered", "Range header in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the Range header is added to, not set: earlier retries' values stay")
						return
					}
					for _, m := range s.MarksOf("ranged") {
						s.Unmark("ranged", m.Args...)
					}
					s.Mark("ranged", from)
				}
			case ev.Name == "(*net/http.Client).Do" || ev.Name == "(net/http.RoundTripper).RoundTrip" || ev.Name == "(net/http.Header).Del":
				if ev.Name == "(net/http.Header).Del" {
					if k, ok := ev.Args[1].strConst(); ok && strings.EqualFold(k, "Range") {
						for _, m := range s.MarksOf("ranged") {
							s.Unmark("ranged", m.Args...)
						}
					}
					return
				}
				sends++
				r := own(s)
				if r == nil || progress == nil {
					if !isRead {
						return
					}
					c.Undecided("range-starts-at-delivered", "request in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "the delivered count was not identified")
					return
				}
				p := s.Load(e.faddr(r, progress), progress.Type())
				if s.Truth(e.EqTerm(p, e.Int(0))) == 1 {
					c.OK("range-starts-at-delivered", "request in "+enclosing(ev.Instr)+" (first)", c.P.instrPos(ev.Instr), "nothing delivered yet")
					return
				}
				ok := false
				for _, m := range s.MarksOf("ranged") {
					ok = ok || sameLinear(m.Args[0], p)
				}
				c.Check(ok, "range-starts-at-delivered", "request in "+enclosing(ev.Instr), c.P.instrPos(ev.Instr), "a request is sent after bytes were delivered without asking for exactly the rest (delivered: "+p.String()+"); path: "+s.TraceString())
			}
		}
		e.OnPost = func(s *State, ev *CallEvent) {
			if ev.Final == nil {
				return
			}
			for _, a := range ev.Args {
				if resp := bodyOf(a); resp != nil && !strings.HasSuffix(ev.Name, ").Close") {
					s.Mark("consumed", resp)
				}
			}
			switch ev.Name {
			case "io.CopyN":
				if resp := bodyOf(ev.Args[1]); resp != nil {
					s.Mark("discarding", resp, ev.Args[2], e.Extract(ev.Final, 1, nil))
				}
			}
		}
		e.OnFact = func(s *State, t *Term, val bool) {
			if a, b, ok := eqPair(t, val); ok {
				for i := 0; i < 2; i++ {
					if n, k := b.intConst(); k && a.Op == "load" {
						if fv := fieldOfTerm(a); fv != nil && fv.Name() == "StatusCode" {
							switch n {
							case 200:
								s.Mark("st200", a.Args[0].Args[0])
							case 206:
								s.Mark("st206", a.Args[0].Args[0])
							}
						}
					}
					a, b = b, a
				}
			}
			if x := eqNil(t); x != nil && val {
				for _, m := range s.MarksOf("discarding") {
					if m.Args[2] == x {
						s.Mark("skipped", m.Args[0], m.Args[1])
					}
				}
			}
		}
		e.OnStore = func(s *State, addr, v *Term, in ssa.Instruction) {
			if addr.Op != "faddr" {
				return
			}
			if !isRead {
				if fv, ok := addr.Obj.(*types.Var); ok && fieldOwner(recv, fv) {
					s.Mark("reader", addr.Args[0])
				}
			}
			fv, ok := addr.Obj.(*types.Var)
			if !ok || !fieldOwner(recv, fv) {
				return
			}
			if isRead && progress != nil && fv == progress && addr.Args[0] == recvT {
				// what this store adds
				m, k := linear(v)
				o, ko := linear(s.Load(addr, progress.Type()))
				for t, n := range o {
					m[t] -= n
					if m[t] == 0 {
						delete(m, t)
					}
				}
				if len(m) > 0 || k != ko {
					if len(m) == 1 && k == ko {
						for t, n := range m {
							if n == 1 && !s.HasMark("added", t) {
								s.Mark("added", t)
								return
							}
						}
					}
					s.Mark("addedother")
				}
				return
			}
			resp := bodyOf(v)
			if resp == nil {
				return
			}
			site := "body kept in " + enclosing(in)
			pos := c.P.instrPos(in)
			if s.HasMark("st206", resp) {
				c.Check(!s.HasMark("consumed", resp), "body-continues", site+" (206)", pos, "bytes of a partial response are skipped although it starts where delivery stopped; path: "+s.TraceString())
				return
			}
			if !s.HasMark("st200", resp) {
				c.Bad("body-continues", site, pos, "the body of a response that is neither 200 nor 206 becomes the source of further reads; path: "+s.TraceString())
				return
			}
			if progress == nil {
				c.Undecided("body-continues", site, pos, "the delivered count was not identified")
				return
			}
			p := s.Load(e.faddr(addr.Args[0], progress), progress.Type())
			if s.Truth(e.EqTerm(p, e.Int(0))) == 1 {
				c.OK("body-continues", site+" (200)", pos, "nothing delivered yet")
				return
			}
			ok = false
			for _, m := range s.MarksOf("skipped") {
				ok = ok || m.Args[0] == resp && sameLinear(m.Args[1], p)
			}
			c.Check(ok, "body-continues", site+" (200 after delivery)", pos, "the server ignored the range and the bytes already delivered are not (successfully) discarded before reading on; path: "+s.TraceString())
		}
		e.OnEnd = func(s *State, rets []*Term) {
			if !isRead || progress == nil || len(rets) != 2 {
				return
			}
			r := own(s)
			after := s.Load(e.faddr(r, progress), progress.Type())
			c.Check(grewBy(after, e.faddr(r, progress), rets[0]), "count-tracks-delivery", "return of "+name, c.P.pos(entry.Pos()), "the delivered count becomes "+after.String()+" although "+rets[0].String()+" bytes are returned; path: "+s.TraceString())
			ghost := !s.HasMark("addedother")
			added := s.MarksOf("added")
			if k, isK := rets[0].intConst(); isK && k == 0 {
				ghost = ghost && len(added) == 0
			} else if len(added) > 0 {
				mn, _ := linear(rets[0])
				ghost = ghost && len(added) == 1 && mn[added[0].Args[0]] == 1
			}
			c.Check(ghost, "count-tracks-delivery", "additions in "+name, c.P.pos(entry.Pos()), "during one read the delivered count grows by something other than the count returned; path: "+s.TraceString())
			// what is returned was read into the caller's buffer from its start
			n := rets[0]
			for n.Op == "conv" {
				n = n.Args[0]
			}
			if k, ok := n.intConst(); ok {
				c.Check(k == 0, "bytes-are-the-last-read", "return of "+name, c.P.pos(entry.Pos()), "a constant byte count is returned")
				return
			}
			buf := bufT
			ok := n.Op == "extract" && n.Fn == "0" && n.Args[0].Op == "inst" && isMethod(n.Args[0], "Read") && len(n.Args[0].Args) == 2 && n.Args[0].Args[1] == buf
			c.Check(ok, "bytes-are-the-last-read", "return of "+name, c.P.pos(entry.Pos()), "the count returned is not that of a read into the caller's buffer: "+n.String())
		}
		e.Run(entry, func(s *State) {
			if isRead {
				recvT, bufT = s.Val(entry.Params[0]), s.Val(entry.Params[1])
			}
		})
		c.Engine(name, e)
	}
	run(rd, true)
	if progress != nil {
		run(rd, true) // now that the count is known
	}
	if progress == nil {
		c.Undecided("anchor", "delivered count of "+recv.Obj().Name(), c.P.pos(rd.Pos()), "the Range header is not computed from a field of the reader")
		return
	}
	// where readers are made
	made := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && al.Type() != nil && namedOf(al.Type()) == recv {
					made[outermost(f)] = true
				}
			}
		}
	}
	for f := range made {
		run(f, false)
	}
	// the count changes nowhere else
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == progress {
					o := outermost(f)
					n := namedOf2(o)
					c.Check(n == recv || made[o], "count-owner", "store in "+shortFn(f.String()), c.P.instrPos(in), "the delivered count is changed outside its reader")
				}
			}
		}
	}
	if sends == 0 {
		c.Undecided("anchor", "requests of "+recv.Obj().Name(), c.P.pos(rd.Pos()), "no request seen")
	}
	c.AtLeast("range-starts-at-delivered", 1, "requests of the resuming reader")
	c.AtLeast("body-continues", 1, "bodies taken over")
	c.AtLeast("count-tracks-delivery", 1, "returns of Read")
}

// grewBy: after is the value at addr on entry plus n.
func grewBy(after, addr, n *Term) bool {
	m, k := linear(after)
	mn, kn := linear(n)
	for t, c := range mn {
		m[t] -= c
		if m[t] == 0 {
			delete(m, t)
		}
	}
	if k != kn || len(m) != 1 {
		return false
	}
	for t, c := range m {
		return c == 1 && t.Op == "load" && t.Args[0] == addr
	}
	return false
}

// namedOf2: the receiver's named type, if f is a method.
func namedOf2(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

func fieldOwner(n *types.Named, fv *types.Var) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fv {
			return true
		}
	}
	return false
}
