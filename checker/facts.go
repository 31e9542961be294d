package main

import (
	"go/types"
	"strings"
)

// isMethod: t is a call of a method with this name, on any receiver type.
func isMethod(t *Term, name string) bool {
	return (t.Op == "inst" || t.Op == "pure") && strings.HasSuffix(t.Fn, ")."+name)
}

// eqPair extracts the two values a fact states to be equal.
func eqPair(t *Term, val bool) (a, b *Term, ok bool) {
	if val {
		if t.Op == "bin" && t.Fn == "==" {
			x, y := t.Args[0], t.Args[1]
			for i := 0; i < 2; i++ {
				if n, isInt := y.intConst(); isInt {
					switch {
					case n == 1 && x.isCall("crypto/subtle.ConstantTimeCompare"):
						return x.Args[0], x.Args[1], true
					case n == 0 && (x.isCall("strings.Compare") || x.isCall("bytes.Compare") || x.isCall("cmp.Compare")):
						return x.Args[0], x.Args[1], true
					}
				}
				x, y = y, x
			}
			return t.Args[0], t.Args[1], true
		}
		for _, n := range []string{"bytes.Equal", "slices.Equal", "reflect.DeepEqual", "crypto/hmac.Equal"} {
			if t.isCall(n) && len(t.Args) >= 2 {
				return t.Args[0], t.Args[1], true
			}
		}
	}
	return nil, nil, false
}

// neqPair extracts two values a fact states to be different.
func neqPair(t *Term, val bool) (a, b *Term, ok bool) {
	if val {
		return nil, nil, false
	}
	return eqPair(t, true)
}

// emptyFact: the fact states that the string or slice x is empty (or nil).
func emptyFact(t *Term, val bool) *Term {
	isLen := func(x *Term) *Term {
		if x.Op == "pure" && x.Fn == "len" {
			return x.Args[0]
		}
		return nil
	}
	if a, b, ok := eqPair(t, val); ok {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if s, k := p[1].strConst(); k && s == "" {
				return p[0]
			}
			if p[1].isNil() {
				return p[0]
			}
			if n, k := p[1].intConst(); k && n == 0 {
				if x := isLen(p[0]); x != nil {
					return x
				}
			}
		}
	}
	if !val && t.Op == "bin" && t.Fn == "<" {
		if n, k := t.Args[0].intConst(); k && n == 0 {
			return isLen(t.Args[1])
		}
	}
	return nil
}

// leafThrough follows value-preserving encodings down to a single leaf
// satisfying pred; nil when the value is cut, mixed with other data, or absent.
func leafThrough(t *Term, pred func(*Term) bool) *Term {
	for i := 0; i < 40; i++ {
		if pred(t) {
			return t
		}
		switch {
		case t.Op == "conv":
			t = t.Args[0]
		case t.Op == "extract" && t.Fn == "0":
			c := t.Args[0]
			if (isMethod(c, "DecodeString") || c.isCall("encoding/hex.DecodeString")) && len(c.Args) > 0 {
				t = c.Args[len(c.Args)-1]
			} else if c.isCall("strings.CutPrefix") {
				if _, k := c.Args[1].strConst(); !k {
					return nil
				}
				t = c.Args[0]
			} else {
				return nil
			}
		case isMethod(t, "EncodeToString") || t.isCall("encoding/hex.EncodeToString"):
			t = t.Args[len(t.Args)-1]
		case t.isCall("strings.TrimPrefix") || t.isCall("strings.TrimSuffix"):
			if _, k := t.Args[1].strConst(); !k {
				return nil
			}
			t = t.Args[0]
		case t.isCall("strings.ToLower") || t.isCall("strings.ToUpper"):
			t = t.Args[0]
		case t.Op == "slice" && len(t.Args) == 3 && t.Args[2].Op == "nil":
			if t.Args[1].Op == "nil" {
				t = t.Args[0]
			} else if _, k := t.Args[1].intConst(); k {
				t = t.Args[0]
			} else {
				return nil
			}
		case t.Op == "bin" && t.Fn == "+":
			if _, k := t.Args[0].strConst(); k {
				t = t.Args[1]
			} else if _, k := t.Args[1].strConst(); k {
				t = t.Args[0]
			} else {
				return nil
			}
		case t.isCall("fmt.Sprintf") && len(t.Args) == 2:
			if f, k := t.Args[0].strConst(); k && (strings.Contains(f, "%x") || strings.Contains(f, "%s") || strings.Contains(f, "%v")) && !strings.Contains(f, "%.") {
				t = t.Args[1]
			} else {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// namedField finds a field of a named struct type of the module.
func namedField(p *Prog, pkg, typ, field string) *types.Var {
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		o := f.Pkg.Pkg.Scope().Lookup(typ)
		if o == nil {
			return nil
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return st.Field(i)
			}
		}
		return nil
	}
	return nil
}
