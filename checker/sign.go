package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", checkC30, "tarball.WriteTargz writes one gzip member holding the files of the filesystem it is given", "a write that returns a nil error wrote everything", "crypto/rsa and crypto/sha1 implement their specifications")
}

func (t *Term) underConv() *Term { return stripConv(t) }

// sprintfArg: t is prefix+x+suffix (Sprintf or concatenation); returns the parts.
func affixed(t *Term) (pre string, x *Term, post string, ok bool) {
	if t.isCall("fmt.Sprintf") && len(t.Args) == 2 {
		f, k := t.Args[0].strConst()
		if !k {
			return
		}
		for _, v := range []string{"%s", "%v"} {
			if i := strings.Index(f, v); i >= 0 && strings.Count(f, "%") == 1 {
				return f[:i], stripConv(t.Args[1]), f[i+2:], true
			}
		}
		return
	}
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "bin" && t.Fn == "+" {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		parts = append(parts, t)
	}
	flat(t)
	for _, p := range parts {
		if k, isC := p.strConst(); isC {
			if x == nil {
				pre += k
			} else {
				post += k
			}
			continue
		}
		if x != nil {
			return "", nil, "", false
		}
		x = p
	}
	return pre, x, post, x != nil
}

func checkC30(c *Ctx) {
	c.Rule("typestate from SignIndex: the digest that is signed is the SHA-1 of exactly the bytes D read from the index file, signed with the key file given by the caller")
	c.Rule("the signature is the only file of the filesystem archived in front, named .SIGN.RSA.<base name of the key>.pub, archived without end-of-archive marker; the output receives exactly that archive and then exactly D, each write tested")
	c.Rule("the output replaces the index by a rename after it was closed; nothing else touches the index file; success is returned only after the rename, or with nothing written when an entry with the signature prefix was found")
	c.Rule("the output is written only after every entry of the index was found not to have the signature prefix")
	entry := c.Fn("pkg/signature.SignIndex")
	signer := c.Fn("pkg/signature.RSASignSHA1Digest")
	if entry == nil || signer == nil {
		return
	}
	c.checkSigner(signer)
	e := NewEngine(c.P)
	e.Inline = func(f *ssa.Function) bool {
		return f != signer && f.Pkg == entry.Pkg || f.Pkg != nil && f.Pkg == entry.Pkg && f.Parent() != nil
	}
	e.Boundary[signer.String()] = true
	var keyT, fileT *Term
	isFile := func(t *Term) bool { return stripConv(t) == fileT }
	dataOf := func(t *Term) *Term {
		t = stripConv(t)
		for t.isCall("bytes.NewReader") || t.isCall("bytes.NewBuffer") {
			t = stripConv(t.Args[0])
		}
		return t
	}
	isData := func(t *Term) bool {
		d := dataOf(t)
		if d.Op != "extract" || d.Fn != "0" {
			return false
		}
		r := d.Args[0]
		if r.isCall("os.ReadFile") && isFile(r.Args[0]) {
			return true
		}
		if r.isCall("io.ReadAll") {
			f := stripConv(r.Args[0])
			return f.Op == "extract" && f.Fn == "0" && f.Args[0].isCall("os.Open") && isFile(f.Args[0].Args[0])
		}
		return false
	}
	kind := func(k string) *Term { return e.T.mk("const", k, nil, nil) }
	bufOf := func(t *Term) *Term {
		t = stripConv(t)
		if t.isCall("(*bytes.Buffer).Bytes") || t.isCall("bytes.NewReader") {
			return stripConv(t.Args[0])
		}
		return t
	}
	outs := func(s *State, h *Term) bool {
		for _, m := range s.MarksOf("out") {
			if m.Args[0] == h {
				return true
			}
		}
		return false
	}
	sigPrefix := ".SIGN.RSA."
	var prefixes []string
	e.OnCall = func(s *State, ev *CallEvent) {
		pos := c.P.instrPos(ev.Instr)
		site := shortFn(ev.Name) + " in " + enclosing(ev.Instr)
		// touching the index file
		switch ev.Name {
		case "os.WriteFile", "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod", "os.Symlink", "os.Link":
			for _, a := range ev.Args {
				if isFile(a) {
					if ev.Name == "os.OpenFile" {
						if n, ok := ev.Args[1].intConst(); ok && n&3 == 0 && n&0x240 == 0 {
							continue
						}
					}
					c.Bad("original-kept", site, pos, "the index file itself is opened for writing, changed or removed before the signed index is complete; path: "+s.TraceString())
				}
			}
		}
		wr := func(h, src *Term) {
			if !outs(s, h) {
				return
			}
			c.Check(s.HasMark("scanned") && len(s.MarksOf("pending")) == 0, "already-signed-untouched", site, pos, "a signed index is written without having looked at every entry for an existing signature; path: "+s.TraceString())
			k := "other"
			if isData(src) && s.HasMark("signed", dataOf(src)) {
				k = "data"
			} else {
				for _, m := range s.MarksOf("targz") {
					if m.Args[0] == bufOf(src) {
						k = "sig"
					}
				}
			}
			n := len(s.MarksOf("wrote"))
			ok := k == "sig" && n == 0 || k == "data" && n == 1 && s.HasMark("wrote", h, kind("sig"))
			c.Check(ok, "output-exact", site, pos, "writes "+src.String()+" as part "+itoa(n+1)+" of the signed index, which must be the signature archive followed by exactly the original bytes; path: "+s.TraceString())
			s.Mark("wrote", h, kind(k))
		}
		switch {
		case ev.Name == "(*os.File).Write" || ev.Name == "(*os.File).ReadFrom" || ev.Name == "(*os.File).WriteString":
			wr(stripConv(ev.Args[0]), ev.Args[1])
		case ev.Name == "io.Copy" || ev.Name == "io.CopyBuffer":
			wr(stripConv(ev.Args[0]), ev.Args[1])
		case ev.Name == "(*bytes.Buffer).WriteTo" || ev.Name == "(*bytes.Reader).WriteTo":
			wr(stripConv(ev.Args[1]), ev.Args[0])
		case ev.Name == "(*os.File).Truncate" || ev.Name == "(*os.File).Seek" || ev.Name == "(*os.File).WriteAt":
			if outs(s, stripConv(ev.Args[0])) {
				c.Undecided("output-exact", site, pos, "positioned write to the signed index")
			}
		case ev.Static == signer:
			d := stripConv(ev.Args[0])
			ok := false
			if d.Op == "slice" && len(d.Args) > 0 && d.Args[0].Op == "alloc" {
				if pt, isP := d.Args[0].Typ.Underlying().(*types.Pointer); isP {
					d = s.Load(d.Args[0], pt.Elem())
				}
			}
			d.walk(func(x *Term) bool {
				if x.isCall("crypto/sha1.Sum") && isData(x.Args[0]) {
					ok = true
					s.Mark("signed", dataOf(x.Args[0]))
				}
				if x.isCall("(hash.Hash).Sum") && stripConv(x.Args[0]).isCall("crypto/sha1.New") && s.IsNil(x.Args[1]) == 1 {
					n, good := 0, false
					for _, m := range s.MarksOf("hashed") {
						if m.Args[0] == stripConv(x.Args[0]) {
							n++
							good = isData(m.Args[1])
							s.Mark("signed", dataOf(m.Args[1]))
						}
					}
					ok = n == 1 && good
				}
				return true
			})
			c.Check(ok, "signs-index", site, pos, "the signed digest "+d.String()+" is not the SHA-1 of exactly the bytes read from the index; path: "+s.TraceString())
			c.Check(stripConv(ev.Args[1]) == keyT, "signs-with-key", site, pos, "signed with "+ev.Args[1].String())
		case strings.HasSuffix(ev.Name, ").Write") && strings.HasPrefix(ev.Name, "(hash.Hash)"), strings.HasSuffix(ev.Name, "io.Writer).Write"):
			if h := stripConv(ev.Args[0]); outs(s, h) {
				wr(h, ev.Args[1])
			} else {
				s.Mark("hashed", h, dataOf(ev.Args[1]))
			}
		case strings.HasSuffix(ev.Name, ").WriteFile") && len(ev.Args) >= 3:
			pre, x, post, ok := affixed(ev.Args[1])
			ok = ok && pre == sigPrefix && post == ".pub" && x.isCall("path/filepath.Base") && stripConv(x.Args[0]) == keyT
			c.Check(ok, "signature-name", site, pos, "the signature is stored as "+ev.Args[1].String()+", not .SIGN.RSA.<key name>.pub; path: "+s.TraceString())
			v := stripConv(ev.Args[2])
			ok = v.Op == "extract" && v.Fn == "0" && v.Args[0].isCall(signer.String())
			if !ok {
				ok = v.contains(func(y *Term) bool { return y.Op == "extract" && y.Fn == "0" && y.Args[0].isCall(signer.String()) }) && v.Op == "slice"
			}
			c.Check(ok, "signature-stored", site, pos, "the signature file contains "+v.String()+", not the signature made; path: "+s.TraceString())
			s.Mark("sigfs", stripConv(ev.Args[0]))
		case strings.HasSuffix(ev.Name, ").WriteTargz"):
			skip := false
			for _, m := range s.MarksOf("skipctx") {
				if ev.Args[0].contains(func(y *Term) bool { return y == m.Args[0] }) {
					skip = true
				}
			}
			c.Check(skip, "one-archive", site, pos, "the signature archive is written with an end-of-archive marker (or an unknown context), which hides the index behind it; path: "+s.TraceString())
			n := len(s.MarksOf("sigfs"))
			ok := n == 1
			for _, m := range s.MarksOf("sigfs") {
				for _, a := range ev.Args[3:] {
					ok = ok && stripConv(a) == m.Args[0]
				}
			}
			c.Check(ok, "one-archive", site, pos, "the archive written in front is not the filesystem holding exactly the signature; path: "+s.TraceString())
			dst := stripConv(ev.Args[2])
			s.Mark("targz", dst)
			if outs(s, dst) {
				wr(dst, dst)
			}
		case ev.Name == "os.Rename":
			if isFile(ev.Args[0]) {
				c.Bad("original-kept", site, pos, "the index file is moved away; path: "+s.TraceString())
			}
			if !isFile(ev.Args[1]) {
				return
			}
			var h *Term
			for _, m := range s.MarksOf("out") {
				if ev.Args[0].contains(func(y *Term) bool { return y == m.Args[0] }) {
					h = m.Args[0]
				}
			}
			ok := h != nil && s.HasMark("wrote", h, kind("sig")) && s.HasMark("wrote", h, kind("data")) && s.HasMark("closed", h)
			for _, m := range s.MarksOf("step") {
				ok = ok && s.IsNil(m.Args[0]) == 1
			}
			c.Check(ok, "replace-complete", site, pos, "the index is replaced before the signature and the original bytes were written and the file closed, all successfully; path: "+s.TraceString())
		case ev.Name == "(*archive/tar.Reader).Next":
			if p := s.MarksOf("pending"); len(p) > 0 {
				// an entry that was not compared
				for _, m := range p {
					if s.IsNil(e.Extract(m.Args[0], 1, types.Universe.Lookup("error").Type())) == 1 {
						c.Bad("already-signed-untouched", site, pos, "an entry of the index is skipped without looking for a signature; path: "+s.TraceString())
					}
					s.Unmark("pending", m.Args...)
				}
			}
		}
	}
	e.OnPost = func(s *State, ev *CallEvent) {
		r := ev.Final
		er := types.Universe.Lookup("error").Type()
		switch {
		case ev.Name == "os.CreateTemp" || ev.Name == "os.Create" || ev.Name == "os.OpenFile":
			s.Mark("out", e.Extract(r, 0, nil))
			s.Mark("step", e.Extract(r, 1, er))
		case ev.Name == "(*os.File).Write" || strings.HasSuffix(ev.Name, "io.Writer).Write") || ev.Name == "io.Copy" || ev.Name == "(*bytes.Buffer).WriteTo" || ev.Name == "(*bytes.Reader).WriteTo":
			s.Mark("step", e.Extract(r, 1, er))
		case ev.Name == "(*os.File).Close":
			if h := stripConv(ev.Args[0]); outs(s, h) && !ev.Deferred {
				s.Mark("closed", h)
				s.Mark("step", r)
			}
		case strings.HasSuffix(ev.Name, ").WriteTargz"), strings.HasSuffix(ev.Name, ").WriteFile"):
			s.Mark("step", r)
		case ev.Static == signer:
			s.Mark("step", e.Extract(r, 1, er))
		case ev.Name == "os.ReadFile" || ev.Name == "io.ReadAll":
			s.Mark("step", e.Extract(r, 1, er))
		case ev.Name == "os.Rename":
			if isFile(ev.Args[1]) {
				s.Mark("renamed", r)
			}
		case strings.HasSuffix(ev.Name, "pkg/tarball.WithSkipClose"):
			if v, ok := ev.Args[0].isBoolConst(); ok && v {
				s.Mark("skipopt", r)
			}
		case strings.HasSuffix(ev.Name, "pkg/tarball.NewContext"):
			for _, m := range s.MarksOf("skipopt") {
				if r.contains(func(y *Term) bool { return y == m.Args[0] }) {
					s.Mark("skipctx", r)
				}
			}
			for _, a := range variadics(s, ev.Args) {
				if s.HasMark("skipopt", stripConv(a)) {
					s.Mark("skipctx", r)
				}
			}
			s.Mark("step", e.Extract(r, 1, er))
		case ev.Name == "(*archive/tar.Reader).Next":
			s.Mark("pending", r)
		}
	}
	e.OnFact = func(s *State, t *Term, val bool) {
		if val && t.isCall("errors.Is") && isGlobalNamed(t.Args[1], "EOF") || eofPair(t, val) {
			er := t.Args[0]
			if !t.isCall("errors.Is") {
				a, b, _ := eqPair(t, val)
				er = a
				if isGlobalNamed(a, "EOF") {
					er = b
				}
			}
			if er.Op == "extract" && er.Args[0].isCall("(*archive/tar.Reader).Next") {
				for _, m := range s.MarksOf("pending") {
					s.Unmark("pending", m.Args...)
				}
				rd := er.Args[0].Args[0]
				if rd.contains(func(y *Term) bool { return y.isCall("os.Open") && isFile(y.Args[0]) }) || rd.contains(isData) {
					s.Mark("scanned")
				}
			}
		}
		if t.isCall("strings.HasPrefix") {
			p, ok := t.Args[1].strConst()
			if ok && strings.HasPrefix(sigPrefix, p) && len(p) >= len(".SIGN.") && t.Args[0].contains(func(y *Term) bool { return y.isCall("(*archive/tar.Reader).Next") }) {
				prefixes = append(prefixes, p)
				for _, m := range s.MarksOf("pending") {
					s.Unmark("pending", m.Args...)
				}
				if val {
					s.Mark("issigned")
				}
			}
		}
	}
	e.OnEnd = func(s *State, rets []*Term) {
		site := "return of SignIndex"
		pos := c.P.pos(entry.Pos())
		ren := s.MarksOf("renamed")
		switch {
		case s.IsNil(rets[0]) == 1:
			if s.HasMark("issigned") {
				c.Check(len(ren) == 0 && len(s.MarksOf("wrote")) == 0, "already-signed-untouched", site, pos, "an index that already carries a signature is signed again; path: "+s.TraceString())
				return
			}
			ok := len(ren) == 1 && s.IsNil(ren[0].Args[0]) == 1
			c.Check(ok, "success-means-signed", site, pos, "success is reported although the index was not replaced by the signed one; path: "+s.TraceString())
		default:
			ok := len(ren) == 0 || s.IsNil(ren[0].Args[0]) != 1
			if !ok && len(ren) == 1 && s.IsNil(rets[0]) == -1 {
				ok = rets[0].contains(func(y *Term) bool { return y == ren[0].Args[0] })
			}
			if len(ren) == 1 && rets[0] == ren[0].Args[0] {
				ok = true
			}
			c.Check(ok, "failure-keeps-original", site, pos, "an error is returned although the index was already replaced; path: "+s.TraceString())
		}
	}
	e.Run(entry, func(s *State) {
		for _, p := range entry.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				if keyT == nil {
					keyT = s.Val(p)
				} else if fileT == nil {
					fileT = s.Val(p)
				}
			}
		}
	})
	c.Engine("SignIndex", e)
	for r, n := range map[string]int{"signs-index": 1, "signature-name": 1, "signature-stored": 1, "output-exact": 2, "replace-complete": 1, "already-signed-untouched": 2, "success-means-signed": 1, "failure-keeps-original": 1, "one-archive": 2} {
		_ = n
		c.AtLeast(r, 1, r)
	}
}

func eofPair(t *Term, val bool) bool {
	a, b, ok := eqPair(t, val)
	return ok && (isGlobalNamed(a, "EOF") || isGlobalNamed(b, "EOF"))
}

// checkSigner: the signature returned is one over the digest given.
func (c *Ctx) checkSigner(f *ssa.Function) {
	e := NewEngine(c.P)
	e.Inline = func(g *ssa.Function) bool { return g.Pkg == f.Pkg }
	var dig, key *Term
	e.OnEnd = func(s *State, rets []*Term) {
		if s.IsNil(rets[1]) != 1 {
			return
		}
		sig := stripConv(rets[0])
		ok, why := false, sig.String()
		if sig.Op == "extract" && sig.Fn == "0" {
			k := sig.Args[0]
			// Sign(rand, digest, opts) or rsa.SignPKCS1v15(rand, priv, hash, digest)
			hasD, hasH, hasK := false, false, false
			for _, a := range k.Args {
				x := stripConv(a)
				if x == dig {
					hasD = true
				}
				if n, isC := x.intConst(); isC && n == 3 {
					hasH = true
				}
				if x.contains(func(y *Term) bool { return y.isCall("os.ReadFile") && y.Args[0] == key }) {
					hasK = true
				}
			}
			named := k.isCall("(*crypto/rsa.PrivateKey).Sign") || k.isCall("crypto/rsa.SignPKCS1v15")
			ok = named && hasD && hasH && hasK
			if ok && s.IsNil(e.Extract(k, 1, types.Universe.Lookup("error").Type())) != 1 {
				ok = false
				why = "signing may have failed"
			}
		}
		c.Check(ok, "signer", "return of "+shortFn(f.String()), c.P.pos(f.Pos()), "the value returned as a signature is "+why+", not a SHA-1 RSA signature over the digest with the key read from the key file; path: "+s.TraceString())
	}
	e.Run(f, func(s *State) {
		for _, p := range f.Params {
			if types.TypeString(p.Type(), nil) == "[]byte" {
				dig = s.Val(p)
			} else if key == nil {
				key = s.Val(p)
			}
		}
	})
	c.Engine("RSASignSHA1Digest", e)
	c.AtLeast("signer", 1, "signer returns")
}
