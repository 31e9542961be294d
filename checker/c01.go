package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nHashData  = modPath + "/pkg/signature.HashData"
	nRSAVerify = modPath + "/pkg/signature.RSAVerifySHA1Digest"
	nFromArch  = modPath + "/pkg/apk.IndexFromArchive"
	nParseIdx  = modPath + "/pkg/apk.ParsePackageIndex"
)

// optionField finds the struct field an option constructor stores its parameter into.
func optionField(p *Prog, ctor *ssa.Function) *types.Var {
	if ctor == nil {
		return nil
	}
	for _, an := range ownBody(ctor) {
		for _, b := range an.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						return fieldVar(fa.X.Type(), fa.Field)
					}
				}
			}
		}
	}
	return nil
}

func isFieldLoad(t *Term, fv *types.Var) bool {
	return t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Obj == any(fv) || t.Op == "field" && t.Obj == any(fv)
}

// bytesSource unwraps readers over an in-memory byte slice.
func bytesSource(t *Term) *Term {
	for i := 0; i < 6; i++ {
		switch {
		case t.isCall("io.NopCloser") || t.isCall("bufio.NewReader") || t.isCall("bufio.NewReaderSize"):
			t = t.Args[0]
		case t.isCall("bytes.NewReader") || t.isCall("bytes.NewBuffer"):
			return t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// sliceSuffix matches b[len(b)-buf.Len():] and returns b and buf.
func sliceSuffix(t *Term) (b, buf *Term) {
	if t.Op != "slice" || len(t.Args) != 3 || t.Args[2].Op != "nil" {
		return nil, nil
	}
	lo := t.Args[1]
	if lo.Op != "bin" || lo.Fn != "-" {
		return nil, nil
	}
	l, r := lo.Args[0], lo.Args[1]
	if !(l.Op == "pure" && l.Fn == "len" && l.Args[0] == t.Args[0]) {
		return nil, nil
	}
	if r.isCall("(*bytes.Reader).Len") || r.isCall("(*bytes.Buffer).Len") {
		return t.Args[0], r.Args[0]
	}
	return nil, nil
}

// sameShape reports whether x equals y except for subterms of x satisfying hole.
func sameShape(x, y *Term, hole func(*Term) bool) bool {
	if x == y {
		return true
	}
	if hole(x) {
		return true
	}
	if x.Op != y.Op || x.Fn != y.Fn || len(x.Args) != len(y.Args) || len(x.Args) == 0 {
		return false
	}
	for i := range x.Args {
		if !sameShape(x.Args[i], y.Args[i], hole) {
			return false
		}
	}
	return true
}

func init() {
	register("C01", checkC01, "crypto/rsa, gzip and tar behave as documented", "an index enters the process only through IndexFromArchive/ParsePackageIndex, which are the exported parsers")
}

func checkC01(c *Ctx) {
	c.Rule("typestate: at every call that parses repository-index bytes B, on every path: (a) the caller-supplied ignore option was tested true, or (b) an exact equality between an exemption list entry's index URL and the URL being read was tested true, or (c) RSAVerifySHA1Digest(HashData(B), _, key from the caller's key map) returned nil, where B is exactly the suffix of the fetched bytes that the signature segment's reader left unread")
	c.Rule("RSAVerifySHA1Digest returns nil only when rsa.VerifyPKCS1v15 over its digest, signature and key did; HashData returns the digest of exactly its argument")
	c.Rule("the ignore/exemption option fields are written only from the option constructors' own arguments")
	entry := c.Fn("pkg/apk.GetRepositoryIndexes")
	from := c.Fn("pkg/apk.IndexFromArchive")
	ver := c.Fn("pkg/signature.RSAVerifySHA1Digest")
	hash := c.Fn("pkg/signature.HashData")
	ign := optionField(c.P, c.Fn("pkg/apk.WithIgnoreSignatures"))
	exempt := optionField(c.P, c.Fn("pkg/apk.WithIgnoreSignatureForIndexes"))
	if entry == nil || from == nil || ver == nil || hash == nil {
		return
	}
	if ign == nil || exempt == nil {
		c.Undecided("anchor", "option fields", "?", "cannot find the fields set by WithIgnoreSignatures / WithIgnoreSignatureForIndexes")
		return
	}
	sinks := map[string]bool{nFromArch: true, nParseIdx: true}
	visited := map[ssa.Instruction]bool{}

	e := NewEngine(c.P)
	e.Boundary[nFromArch] = true
	e.Boundary[nParseIdx] = true
	e.Boundary[nRSAVerify] = true
	e.Boundary[nHashData] = true
	e.Inline = relevantInline(c.P, func(n string) bool {
		return sinks[n] || n == nRSAVerify || n == nHashData
	}, 60)
	e.PruneMark = func(string) bool { return true }
	var keysT *Term
	fromKeys := func(t *Term) bool {
		return keysT != nil && t.contains(func(x *Term) bool {
			return (x.Op == "mapget" || x.Op == "inst" && x.Fn == "next") && len(x.Args) > 0 && x.Args[0] == keysT
		})
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if val && isFieldLoad(t, ign) {
			s.Mark("ignored")
		}
		if val && t.Op == "bin" && t.Fn == "==" {
			a, b := t.Args[0], t.Args[1]
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				hole := func(x *Term) bool {
					return x.Op == "load" && x.Args[0].Op == "iaddr" && isFieldLoad(x.Args[0].Args[0], exempt)
				}
				if p[0].contains(hole) && !p[1].contains(hole) && !p[1].sum && sameShape(p[0], p[1], hole) {
					s.Mark("exempt", p[1])
				}
			}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[1].isNil() && p[0].isCall(nRSAVerify) && len(p[0].Args) == 3 {
					d, k := p[0].Args[0], p[0].Args[2]
					if !fromKeys(k) {
						s.Mark("weak", e.T.mk("const", "key not taken from the caller's key set", nil, nil))
						continue
					}
					if d.Op == "extract" && d.Fn == "0" && d.Args[0].isCall(nHashData) {
						data := d.Args[0].Args[0]
						B, buf := sliceSuffix(data)
						if B != nil && bytesSource(buf) == B {
							s.Mark("verified", data)
						} else {
							s.Mark("weak", e.T.mk("const", "digest is not over the bytes following the signature segment: "+data.String(), nil, nil))
						}
					}
				}
			}
		}
	}
	e.OnCall = func(s *State, ev *CallEvent) {
		switch {
		case ev.Name == "os.ReadFile" || ev.Name == "os.Open":
			s.Mark("fetched", ev.Args[0])
		case ev.Name == "net/http.NewRequestWithContext":
			s.Mark("fetched", ev.Args[2])
		case ev.Name == "net/http.NewRequest":
			s.Mark("fetched", ev.Args[1])
		case sinks[ev.Name]:
			visited[ev.Instr] = true
			site := "call of " + shortFn(ev.Name) + " in " + shortFn(ev.Instr.Parent().String())
			pos := c.P.instrPos(ev.Instr)
			if s.HasMark("ignored") {
				c.OK("index-authenticated", site, pos, "ignore option")
				return
			}
			B := bytesSource(ev.Args[0])
			if B != nil && s.HasMark("verified", B) {
				c.OK("index-authenticated", site, pos, "verified")
				return
			}
			for _, m := range s.MarksOf("exempt") {
				f := s.MarksOf("fetched")
				ok := len(f) > 0
				for _, x := range f {
					if !x.sum && !x.contains(func(y *Term) bool { return y == m.Args[0] }) {
						ok = false
					}
				}
				if ok {
					c.OK("index-authenticated", site, pos, "exempt")
					return
				}
			}
			why := "no signature verification of exactly the parsed bytes on this path"
			for _, m := range s.MarksOf("weak") {
				why += "; " + m.Args[0].Fn
			}
			if dumpViol {
				s.dump()
			}
			c.Bad("index-authenticated", site, pos, why+"; path: "+s.TraceString())
		}
	}
	e.Run(entry, func(s *State) {
		for _, p := range entry.Params {
			if types.TypeString(p.Type(), nil) == "map[string][]byte" {
				keysT = s.frames[0].env[p]
			}
		}
	})
	if keysT == nil {
		c.Undecided("anchor", "keys parameter", c.P.pos(entry.Pos()), "no map[string][]byte parameter")
	}
	c.Engine("GetRepositoryIndexes", e)
	// every in-module call of an index parser is one of those analysed
	n := 0
	inFrom := map[*ssa.Function]bool{from: true}
	for _, f := range ownBody(from) {
		only := f != from
		for _, g := range c.P.callersOf(f) {
			only = only && inFrom[g]
		}
		if only {
			inFrom[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		if inFrom[f] {
			continue
		}
		for _, in := range callsIn(f) {
			cal := in.Common().StaticCallee()
			if cal == nil || !sinks[cal.String()] {
				continue
			}
			n++
			site := "call of " + shortFn(cal.String()) + " in " + shortFn(f.String())
			if visited[in] {
				c.OK("parser-call-covered", site, c.P.instrPos(in), "")
			} else {
				c.Undecided("parser-call-covered", site, c.P.instrPos(in), "index bytes are parsed outside the analysed request path")
			}
		}
	}
	if n == 0 {
		c.Undecided("anchor", "index parser calls", "?", "no call of IndexFromArchive found")
	}

	// verification primitive
	v := NewEngine(c.P)
	v.OnEnd = func(s *State, rets []*Term) {
		if s.IsNil(rets[0]) == 0 {
			return
		}
		pos := c.P.pos(ver.Pos())
		good := func(t *Term) bool {
			return t.isCall("crypto/rsa.VerifyPKCS1v15") && len(t.Args) == 4 && strings.HasPrefix(t.Args[2].Fn, ver.Params[0].Name()+":") && strings.HasPrefix(t.Args[3].Fn, ver.Params[1].Name()+":") && isCryptoSHA1(t.Args[1]) && t.Args[0].contains(func(x *Term) bool { return x.Op == "param" && strings.HasPrefix(x.Fn, ver.Params[2].Name()+":") })
		}
		if good(rets[0]) {
			c.OK("verify-primitive", "RSAVerifySHA1Digest", pos, "")
			return
		}
		for _, m := range s.MarksOf("pkcs") {
			if good(m.Args[0]) {
				c.OK("verify-primitive", "RSAVerifySHA1Digest", pos, "")
				return
			}
		}
		c.Bad("verify-primitive", "RSAVerifySHA1Digest", pos, "returns nil without rsa.VerifyPKCS1v15(key, SHA1, digest, signature) having returned nil; path: "+s.TraceString())
	}
	v.OnFact = func(s *State, t *Term, val bool) {
		if x := eqNil(t); val && x != nil && x.isCall("crypto/rsa.VerifyPKCS1v15") {
			s.Mark("pkcs", x)
		}
	}
	v.Run(ver, nil)
	c.Engine("RSAVerifySHA1Digest", v)
	c.AtLeast("verify-primitive", 1, "success return of RSAVerifySHA1Digest")
	h := NewEngine(c.P)
	h.OnCall = func(s *State, ev *CallEvent) {
		switch {
		case ev.Name == "(hash.Hash).Write" || ev.Name == "(io.Writer).Write":
			s.Mark("wrote", ev.Args[0], ev.Args[1])
		case ev.Name == "(hash.Hash).Sum":
			s.Mark("sum", ev.Args[0])
		case ev.Name == "io.Copy":
			if b := bytesSource(ev.Args[1]); b != nil {
				s.Mark("wrote", ev.Args[0], b)
			}
		}
	}
	h.OnEnd = func(s *State, rets []*Term) {
		if len(rets) != 2 || s.IsNil(rets[1]) == 0 || rets[0].isNil() {
			return
		}
		pos := c.P.pos(hash.Pos())
		ok := false
		for _, m := range s.MarksOf("sum") {
			w := 0
			for _, x := range s.MarksOf("wrote") {
				if x.Args[0] == m.Args[0] {
					w++
					ok = x.Args[1].Op == "param"
				}
			}
			ok = ok && w == 1 && m.Args[0].contains(func(t *Term) bool { return t.isCall("crypto/sha1.New") })
		}
		if rets[0].contains(func(t *Term) bool {
			return t.isCall("crypto/sha1.Sum") && t.Args[0].Op == "param"
		}) {
			ok = true
		}
		c.Check(ok, "hash-primitive", "HashData", pos, "the digest returned is not the SHA-1 of exactly the argument")
	}
	h.Run(hash, nil)
	c.Engine("HashData", h)
	c.AtLeast("hash-primitive", 1, "success return of HashData")

	// option fields are written only by their constructors, from their own argument
	for _, fv := range []*types.Var{ign, exempt} {
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
						continue
					}
					site := fmt.Sprintf("%s in %s", fv.Name(), shortFn(f.String()))
					good := onlyFromParams(st.Val, fv, map[ssa.Value]bool{})
					c.Check(good, "option-field-write", site, c.P.instrPos(in), "the field is given a value that does not come from the option's argument")
				}
			}
		}
	}
	c.AtLeast("option-field-write", 1, "writes of the ignore/exempt option fields")
}

func isCryptoSHA1(t *Term) bool {
	i, ok := t.intConst()
	return ok && i == 3
}

func eqNil(t *Term) *Term {
	if t.Op == "bin" && t.Fn == "==" {
		if t.Args[0].isNil() {
			return t.Args[1]
		}
		if t.Args[1].isNil() {
			return t.Args[0]
		}
	}
	return nil
}

// onlyFromParams: v is built only from parameters/captured parameters and the field itself.
func onlyFromParams(v ssa.Value, fv *types.Var, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldVar(fa.X.Type(), fa.Field) == fv
		}
		return x.Op.String() == "*" && onlyFromParams(x.X, fv, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if !onlyFromParams(a, fv, seen) {
					return false
				}
			}
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && (strings.HasPrefix(calleeName(g), "slices.") || calleeName(g) == "append") {
			for _, a := range x.Call.Args {
				if !onlyFromParams(a, fv, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !onlyFromParams(ed, fv, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return onlyFromParams(x.X, fv, seen)
	case *ssa.ChangeType:
		return onlyFromParams(x.X, fv, seen)
	}
	return false
}
