package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: every path that the caching layers hand to the operating system lies inside the cache
// directory. The code that computes such paths is run by the abstract interpreter with the cache
// directory, and everything else, as names; paths are kept as terms. At every call into package
// os the term is judged: how many proper elements below the cache directory it is known to be,
// from its form and from the tests on it that the path taken has passed.

func init() {
	register("C09", runContain,
		"Symbolic links inside of the cache directory are not followed by the judgement: it is about the path that is given to the operating system.",
		"url.QueryEscape and url.PathEscape leave no slash in a text and hex.EncodeToString only hexadecimal digits; names of directory entries and of files made by os.CreateTemp and os.MkdirTemp are single path elements.",
		"A result kept for the process by sync.Once and sync.Map was computed by the code that is analysed here, possibly for another client and so below that client's cache directory.")
}

type contain struct {
	c     *Ctx
	p     *Prog
	a     *absint
	t     *textio
	root  map[string]bool // struct fields that hold the cache directory
	seen  map[ssa.Instruction]bool
	bad   map[ssa.Instruction]string
	maps  map[string]*av
	fresh int
	rel   map[*ssa.Function]bool
	errs  map[string]bool

	expand, entry *ssa.Function
	dir           int // its parameter
}

// osPaths: which arguments of functions of package os are paths.
var osPaths = map[string][]int{
	"Open": {0}, "OpenFile": {0}, "Create": {0}, "CreateTemp": {0}, "MkdirTemp": {0}, "Mkdir": {0}, "MkdirAll": {0},
	"ReadDir": {0}, "ReadFile": {0}, "WriteFile": {0}, "Remove": {0}, "RemoveAll": {0}, "Rename": {0, 1}, "Link": {0, 1},
	"Symlink": {1}, "Readlink": {0}, "Stat": {0}, "Lstat": {0}, "Chmod": {0}, "Chown": {0}, "Lchown": {0}, "Chtimes": {0},
	"Truncate": {0}, "DirFS": {0}, "CopyFS": {0}, "Chdir": {0},
}

func osSink(in ssa.CallInstruction) (string, []int) {
	n := staticName(in)
	if !strings.HasPrefix(n, "os.") {
		return "", nil
	}
	n = n[3:]
	return n, osPaths[n]
}

// symStruct: a struct of names; fields that hold the cache directory hold it.
func (x *contain) symStruct(t types.Type, key string, depth int) *av {
	st := t.Underlying().(*types.Struct)
	v := &av{k: 'a'}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k := key + "." + itoa(i)
		ft := f.Type()
		switch {
		case x.root[fieldKey(t, i)]:
			v.el = append(v.el, x.a.name("ROOT"))
		case depth > 0 && isStruct(deref(ft)) && !isStruct(ft):
			v.el = append(v.el, &av{k: 'p', cell: &acell{v: x.symStruct(deref(ft), k, depth-1), name: k}})
		case isStruct(ft) && depth > 0:
			v.el = append(v.el, x.symStruct(ft, k, depth-1))
		default:
			v.el = append(v.el, x.a.name(k))
		}
	}
	return v
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func fieldKey(t types.Type, i int) string { return types.TypeString(t, nil) + "." + itoa(i) }

// rootFields: the string fields that only ever hold the cache directory.
func (x *contain) rootFields(seed *ssa.Function) {
	type st struct {
		fn  *ssa.Function
		val ssa.Value
	}
	stores := map[string][]st{}
	for _, f := range x.p.Funcs {
		if !x.p.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if bt, ok := s.Val.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
					continue
				}
				k := fieldKey(deref(fa.X.Type()), fa.Field)
				stores[k] = append(stores[k], st{f, s.Val})
			}
		}
	}
	own := map[*ssa.Function]bool{}
	for _, f := range ownBody(seed) {
		own[outermost(f)] = true
	}
	// helpers that others use as well may be given anything
	for ch := true; ch; {
		ch = false
		for _, f := range x.p.Funcs {
			if own[outermost(f)] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && g != seed && own[g] {
							delete(own, g)
							ch = true
						}
					}
				}
			}
		}
	}
	isRoot := func(s st) bool {
		if own[outermost(s.fn)] {
			return true
		}
		v := s.val
		for {
			switch y := v.(type) {
			case *ssa.UnOp:
				if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
					return x.root[fieldKey(deref(fa.X.Type()), fa.Field)]
				}
				return false
			case *ssa.Field:
				return x.root[fieldKey(y.X.Type(), y.Field)]
			case *ssa.ChangeType:
				v = y.X
				continue
			}
			return false
		}
	}
	for k, l := range stores {
		for _, s := range l {
			if own[outermost(s.fn)] {
				x.root[k] = true
			}
		}
	}
	for n := 0; n < 4; n++ {
		for k, l := range stores {
			if x.root[k] {
				continue
			}
			ok := true
			for _, s := range l {
				ok = ok && isRoot(s)
			}
			if ok {
				x.root[k] = true
			}
		}
	}
	var ks []string
	for k := range x.root {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, s := range stores[k] {
			x.c.Check(isRoot(s), "cache-root", "store to "+shortType(k)+" in "+shortFn(s.fn.String()), x.p.pos(s.fn.Pos()), "a field that holds the cache directory is given it and nothing else")
		}
	}
}

func shortType(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// known: what the path taken has found out about a condition; -1 is nothing.
func (x *contain) known(key string) int {
	if r, ok := x.a.ival["?"+key]; ok && r[0] == r[1] {
		return int(r[0])
	}
	return -1
}

func cond(key string) *av { return &av{k: 's', key: key} }

// norm: paths as sequences of elements where that is their form.
func (x *contain) norm(v *av) *av {
	if v.k == 't' {
		switch v.key {
		case "clean":
			return x.norm(v.el[0])
		case "cat":
			return x.normCat(v)
		}
	}
	return v
}

// normCat: a concatenation with slashes in it is a path of elements.
func (x *contain) normCat(v *av) *av {
	ps := parts(v)
	var els []*av
	cur := []*av{}
	slash := false
	for i, p := range ps {
		if i == 0 {
			p = x.norm(p)
		}
		if !isStr(p) {
			cur = append(cur, p)
			continue
		}
		s := strings.Split(p.str(), "/")
		for j, e := range s {
			if j > 0 {
				slash = true
				els = append(els, cat(cur...))
				cur = nil
			}
			if e != "" {
				cur = append(cur, konstStr(e))
			}
		}
	}
	if !slash {
		if j := x.norm(ps[0]); j.k == 't' && j.key == "join" {
			n := len(j.el) - 1
			els := append([]*av{}, j.el[:n]...)
			return term("join", append(els, cat(append([]*av{j.el[n]}, ps[1:]...)...))...)
		}
		return v
	}
	if len(cur) > 0 {
		els = append(els, cat(cur...))
	}
	if len(els) > 0 && isStr(els[0]) && els[0].str() == "" {
		return v
	}
	return x.join(els)
}

func (x *contain) join(l []*av) *av {
	var els []*av
	for _, e := range l {
		if isStr(e) && e.str() == "" {
			continue
		}
		if len(els) == 0 {
			e = x.norm(e)
		}
		if e.k == 't' && e.key == "join" {
			els = append(els, e.el...)
			continue
		}
		if isStr(e) && len(els) > 0 {
			for _, s := range strings.Split(path.Clean("/" + e.str())[1:], "/") {
				if strings.Contains("/"+e.str()+"/", "/../") {
					els = append(els, e)
					break
				}
				if s != "" {
					els = append(els, konstStr(s))
				}
			}
			continue
		}
		els = append(els, e)
	}
	switch len(els) {
	case 0:
		return konstStr("")
	case 1:
		return term("clean", els[0])
	}
	return term("join", els...)
}

// noSlash: a text without a slash.
func (x *contain) noSlash(v *av) bool {
	switch {
	case isStr(v):
		return !strings.Contains(v.str(), "/")
	case v.k == 't':
		switch v.key {
		case "qe", "hex", "name", "dec", "oct", "b64url":
			return true
		case "cat":
			for _, p := range v.el {
				if !x.noSlash(p) {
					return false
				}
			}
			return true
		case "trimsuf", "trimpre", "lower":
			return x.noSlash(v.el[0])
		case "replace":
			return isStr(v.el[1]) && v.el[1].str() == "/" && x.noSlash(v.el[2])
		case "base":
			return x.within(v.el[0]) >= 1 && clean(v.el[0])
		}
	}
	if x.known("hexdigits "+v.text()) == 1 {
		return true
	}
	return x.known("contains "+v.text()+"|/") == 0 || x.known("local "+v.text()) == 1 && x.known("base "+v.text()) == 1
}

// element: 1 a proper path element, 0 one or nothing or ".", -1 perhaps "..", -9 anything.
func (x *contain) element(v *av) int {
	if isStr(v) {
		s := path.Clean("/" + v.str())
		if strings.Contains("/"+v.str()+"/", "/../") {
			return -9
		}
		return strings.Count(strings.TrimSuffix(s, "/"), "/")
	}
	if v.k == 't' {
		switch v.key {
		case "name":
			return 1
		case "hex", "dec":
			return 0
		case "base":
			if w := x.within(v.el[0]); w >= 1 && clean(v.el[0]) {
				return 1
			}
			return x.notDots(v, -1)
		case "cat":
			// a base is a slash or without one
			solid := false
			for i, p := range v.el {
				if i == 0 && p.k == 't' && p.key == "base" {
					continue
				}
				if !x.noSlash(p) {
					return -9
				}
				if isStr(p) && strings.Trim(p.str(), ".") != "" {
					solid = true
				}
				if p.k == 't' && (p.key == "name" || p.key == "dec") {
					solid = true
				}
			}
			if solid {
				return 1
			}
			return x.notDots(v, -1)
		}
	}
	if x.known("hexdigits "+v.text()) == 1 {
		return 0
	}
	if x.noSlash(v) {
		return x.notDots(v, -1)
	}
	if x.known("local "+v.text()) == 1 {
		return 0
	}
	return -9
}

func (x *contain) notDots(v *av, def int) int {
	if x.known("eq "+v.text()+"|..") == 0 {
		if x.known("eq "+v.text()+"|.") == 0 && v.key == "base" {
			return 0
		}
		return 0
	}
	return def
}

// clean: a path in its shortest form.
func clean(v *av) bool {
	return v.k == 't' && (v.key == "join" || v.key == "clean" || v.key == "dir" || v.key == "file") || v.k == 's' && (v.key == "ROOT" || v.key == "TEMP")
}

// within: the number of elements the path is at least below the cache directory, -1 if it is not known to be there.
func (x *contain) within(v *av) int {
	d := -1
	up := func(n int) {
		if n > d {
			d = n
		}
	}
	v = x.norm(v)
	switch {
	case v.k == 's' && (v.key == "ROOT" || v.key == "TEMP"):
		up(0)
	case v.k == 't':
		switch v.key {
		case "file":
			up(x.within(v.el[0]))
		case "join":
			n := x.within(v.el[0])
			for _, e := range v.el[1:] {
				if n < 0 {
					break
				}
				n += x.element(e)
			}
			up(n)
		case "dir":
			y := x.norm(v.el[0])
			for y.k == 't' && y.key == "trimsuf" && isStr(y.el[1]) && !strings.Contains(y.el[1].str(), "/") {
				y = x.norm(y.el[0])
			}
			if y.k == 't' && y.key == "join" && x.element(y.el[len(y.el)-1]) == 1 {
				up(x.within(x.join(y.el[:len(y.el)-1])))
			}
			if n := x.within(y); n >= 1 && clean(y) {
				up(n - 1)
			}
		case "trimsuf":
			if n := x.within(v.el[0]); n >= 0 && clean(v.el[0]) && isStr(v.el[1]) && !strings.Contains(v.el[1].str(), "/") {
				b := term("base", v).text()
				if x.known("eq "+b+"|..") == 0 || x.known("suffix "+v.text()+"|/..") == 0 {
					up(max(n-1, 0))
				} else {
					up(n - 2)
				}
			}
		case "cat":
			// an element made longer
			if n := x.within(v.el[0]); n >= 1 && clean(x.norm(v.el[0])) {
				solid, ok := false, true
				for _, p := range v.el[1:] {
					ok = ok && x.noSlash(p)
					solid = solid || isStr(p) && strings.Trim(p.str(), ".") != ""
				}
				if ok && solid {
					up(n)
				}
			}
		case "lookup":
			up(x.within(v.el[0]))
		}
	}
	// tests that were passed
	t := v.text()
	r := term("rel", v)
	if x.known("relok "+t) == 1 {
		inside := x.known("prefix "+r.text()+"|..") == 0 || x.known("local "+r.text()) == 1 ||
			x.known("eq "+r.text()+"|..") == 0 && x.known("prefix "+r.text()+"|../") == 0
		if inside {
			up(0)
			if x.known("eq "+r.text()+"|.") == 0 {
				up(1)
			}
		}
	}
	if x.known("prefix "+t+"|ROOT/") == 1 && clean(v) {
		up(1)
	}
	return d
}

func (x *contain) symbol(prefix string) *av {
	x.fresh++
	return &av{k: 's', key: prefix + " " + itoa(x.fresh)}
}

func used(call *ssa.Call) bool { return call.Referrers() != nil && len(*call.Referrers()) > 0 }

// outcome: a call that succeeds with a value or fails.
func (x *contain) outcome(call *ssa.Call, val *av) *av {
	res := call.Call.Signature().Results()
	fails := used(call) && x.a.choose(2) == 1
	one := func(i int) *av {
		switch {
		case isErrorType(res.At(i).Type()):
			if fails {
				return x.symbol("error " + call.Name())
			}
			return nilAV
		case i == 0 && !fails && val != nil:
			return val
		case i == 0 && fails:
			return x.a.zero(res.At(i).Type())
		}
		return x.symbol("result")
	}
	if res.Len() == 1 {
		return one(0)
	}
	r := &av{k: 'a'}
	for i := 0; i < res.Len(); i++ {
		r.el = append(r.el, one(i))
	}
	return r
}

func (x *contain) sink(call ssa.CallInstruction, name string, idx []int, args []*av) {
	x.seen[call] = true
	for _, i := range idx {
		if i >= len(args) {
			continue
		}
		v := args[i]
		if (name == "CreateTemp" || name == "MkdirTemp") && isStr(v) && v.str() == "" {
			continue
		}
		if x.within(v) < 0 {
			x.bad[call] = "the path is not known to be inside of the cache directory: " + v.text()
		}
	}
	if name == "CreateTemp" || name == "MkdirTemp" {
		if len(args) < 2 || !isStr(args[1]) || strings.Contains(args[1].str(), "/") {
			if len(args) < 2 || !x.noSlash(args[1]) {
				x.bad[call] = "the pattern of a temporary name is not a single path element"
			}
		}
	}
}

// relevant: whether a function has to be looked into, for what it does to files and paths or
// because it turns texts into texts.
func (x *contain) relevant(fn *ssa.Function) bool {
	texts := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if textual(t.At(i).Type()) || holdsText(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	if x.elsewhere(fn) {
		return false
	}
	return texts(fn.Signature.Params()) && texts(fn.Signature.Results()) || x.touches(fn)
}

// elsewhere: archives and file systems, which know nothing of the cache.
func (x *contain) elsewhere(fn *ssa.Function) bool {
	for _, s := range []string{"internal/tarfs.", "pkg/fs.", "pkg/tarball.", "pkg/signature."} {
		if strings.Contains(fn.String(), s) {
			return true
		}
	}
	return false
}

func (x *contain) touches(fn *ssa.Function) bool {
	if r, ok := x.rel[fn]; ok {
		return r
	}
	x.rel[fn] = false
	if x.elsewhere(fn) || x.fetches(fn) {
		return false
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && x.touches(mc.Fn.(*ssa.Function)) {
				r = true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := staticName(ci)
			if _, idx := osSink(ci); idx != nil || strings.HasPrefix(n, "path/filepath.") || n == "net/url.QueryEscape" || n == "(*os.File).Name" {
				r = true
			}
			if g := ci.Common().StaticCallee(); g != nil && x.p.inModule(g) && len(g.Blocks) > 0 && x.touches(g) {
				r = true
			}
		}
	}
	x.rel[fn] = r
	return r
}

func (x *contain) rules(call *ssa.Call, name string, args []*av) (*av, bool) {
	str := func(i int) (string, bool) {
		if i < len(args) && isStr(args[i]) {
			return args[i].str(), true
		}
		return "", false
	}
	if n, idx := osSink(call); n != "" {
		if idx == nil {
			switch n {
			case "IsNotExist", "IsExist", "Getenv":
				return x.symbol("result"), true
			case "TempDir":
				return x.a.name("TEMP"), true
			}
			for i, v := range args {
				if textual(call.Call.Args[i].Type()) {
					x.sink(call, n, []int{i}, []*av{v})
				}
			}
			return x.outcome(call, nil), true
		}
		x.sink(call, n, idx, args)
		switch n {
		case "CreateTemp", "MkdirTemp":
			d := args[0]
			if isStr(d) && d.str() == "" {
				d = x.a.name("TEMP")
			}
			x.fresh++
			f := x.join([]*av{d, term("name", konstInt(int64(x.fresh)))})
			if n == "CreateTemp" {
				return x.outcome(call, term("file", f)), true
			}
			return x.outcome(call, f), true
		case "Open", "OpenFile", "Create":
			return x.outcome(call, term("file", args[0])), true
		}
		return x.outcome(call, nil), true
	}
	switch name {
	case "(*os.File).Name":
		if args[0].k == 't' && args[0].key == "file" {
			return args[0].el[0], true
		}
		return x.symbol("file name"), true
	case "(io/fs.DirEntry).Name", "(io/fs.FileInfo).Name", "(os.FileInfo).Name", "(os.DirEntry).Name":
		return term("name", args[0]), true
	case "path/filepath.Join", "path.Join":
		return x.join(items(args[0])), true
	case "path/filepath.Clean", "path.Clean":
		if s, ok := str(0); ok {
			return konstStr(path.Clean(s)), true
		}
		if args[0].k == 's' && args[0].key == "ROOT" {
			return args[0], true
		}
		if clean(args[0]) {
			return args[0], true
		}
		return term("clean", args[0]), true
	case "path/filepath.Dir", "path.Dir":
		y := x.norm(args[0])
		if y.k == 't' && y.key == "join" && x.element(y.el[len(y.el)-1]) == 1 {
			return x.join(y.el[:len(y.el)-1]), true
		}
		return term("dir", args[0]), true
	case "path/filepath.Base", "path.Base":
		y := x.norm(args[0])
		if y.k == 't' && y.key == "join" && x.element(y.el[len(y.el)-1]) == 1 {
			return y.el[len(y.el)-1], true
		}
		return term("base", args[0]), true
	case "path/filepath.Split", "path.Split":
		return tup(term("dir", args[0]), term("base", args[0])), true
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return args[0], true
	case "path/filepath.Rel":
		if args[0].k == 's' && args[0].key == "ROOT" {
			y := x.norm(args[1])
			if x.a.truth(cond("relok " + y.text())) {
				return tup(term("rel", y), nilAV), true
			}
			return tup(konstStr(""), x.symbol("error rel")), true
		}
		return x.outcome(call, x.symbol("result")), true
	case "path/filepath.IsLocal":
		if _, ok := str(0); !ok {
			return konstBool(x.a.truth(cond("local " + x.norm(args[0]).text()))), true
		}
	case "net/url.QueryEscape", "net/url.PathEscape":
		return term("qe", args[0]), true
	case "encoding/hex.EncodeToString":
		return term("hex", args[0]), true
	case "encoding/hex.DecodeString":
		if x.a.truth(cond("hexdigits " + args[0].text())) {
			return tup(term("unhex", args[0]), nilAV), true
		}
		return tup(nilAV, x.symbol("error hex")), true
	case "(*encoding/base64.Encoding).EncodeToString":
		return x.symbol("base64"), true
	case "strconv.Itoa", "strconv.FormatInt":
		return term("dec", args[0]), true
	case "fmt.Sprintf":
		if isStr(args[0]) {
			return x.t.format(args[0], items(args[1])), true
		}
		return x.symbol("text"), true
	case "strings.ToLower":
		return term("lower", args[0]), true
	case "strings.ReplaceAll":
		return term("replace", args...), true
	case "strings.Join":
		if s, ok := str(1); ok && args[0].k == 'l' {
			var ps []*av
			for i, e := range items(args[0]) {
				if i > 0 {
					ps = append(ps, konstStr(s))
				}
				ps = append(ps, e)
			}
			return cat(ps...), true
		}
		return x.symbol("text"), true
	case "strings.TrimSuffix", "strings.CutSuffix":
		if s, ok := str(1); ok && !isStr(args[0]) {
			ret := func(v *av, found bool) (*av, bool) {
				if name == "strings.CutSuffix" {
					return tup(v, konstBool(found)), true
				}
				return v, true
			}
			v := args[0]
			last := v
			if v.k == 't' && v.key == "join" {
				last = v.el[len(v.el)-1]
			}
			if ps := parts(last); len(ps) > 0 && isStr(ps[len(ps)-1]) && last.k != 's' {
				e := ps[len(ps)-1].str()
				if strings.HasSuffix(e, s) {
					w := cat(append(append([]*av{}, ps[:len(ps)-1]...), konstStr(strings.TrimSuffix(e, s)))...)
					if last == v {
						return ret(w, true)
					}
					if x.element(w) == 1 {
						return ret(x.join(append(append([]*av{}, v.el[:len(v.el)-1]...), w)), true)
					}
				} else if len(e) >= len(s) {
					return ret(v, false)
				}
			}
			if name == "strings.CutSuffix" && !x.a.truth(cond("suffix "+v.text()+"|"+s)) {
				return ret(v, false)
			}
			return ret(term("trimsuf", v, args[1]), true)
		}
		if !isStr(args[0]) {
			return x.symbol("text"), true
		}
	case "strings.HasSuffix":
		if s, ok := str(1); ok && !isStr(args[0]) {
			return konstBool(x.a.truth(cond("suffix " + x.norm(args[0]).text() + "|" + s))), true
		}
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		s, ok := str(1)
		if args[1].isInt() {
			s, ok = string(rune(args[1].i64())), true
		}
		if ok && !isStr(args[0]) {
			if name == "strings.ContainsAny" && strings.Contains(s, "/") {
				s = "/"
			}
			return konstBool(x.a.truth(cond("contains " + args[0].text() + "|" + s))), true
		}
	case "strings.HasPrefix":
		if isStr(args[0]) && isStr(args[1]) {
			return nil, false
		}
		w := args[1]
		k := w.text()
		if s, ok := str(1); ok {
			k = s
		} else if w.k == 't' && w.key == "cat" && len(w.el) == 2 && w.el[0].k == 's' && w.el[0].key == "ROOT" && isStr(w.el[1]) && w.el[1].str() == "/" {
			k = "ROOT/"
		}
		y := x.norm(args[0])
		if p := prefixOf(y); p != "" && isStr(w) && len(p) >= len(k) {
			return konstBool(strings.HasPrefix(p, k)), true
		}
		return konstBool(x.a.truth(cond("prefix " + y.text() + "|" + k))), true
	case "(*sync.Once).Do":
		if args[1].k == 'f' {
			x.a.call(args[1].fn, nil, args[1].el)
		}
		return &av{k: 'n'}, true
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Load", "(*sync.Map).LoadAndDelete":
		k := x.mapOf(args[0]) + "|" + args[1].text()
		switch name {
		case "(*sync.Map).Store":
			x.maps[k] = args[2]
			return &av{k: 'n'}, true
		case "(*sync.Map).LoadOrStore":
			if v := x.maps[k]; v != nil {
				return tup(v, konstBool(true)), true
			}
			x.maps[k] = args[2]
			return tup(args[2], konstBool(false)), true
		}
		if v := x.maps[k]; v != nil {
			return tup(v, konstBool(true)), true
		}
		return tup(nilAV, konstBool(false)), true
	case "net/url.Parse":
		x.fresh++
		t := deref(call.Call.Signature().Results().At(0).Type())
		return x.outcome(call, &av{k: 'p', cell: &acell{v: x.symStruct(t, "url "+itoa(x.fresh), 0), name: "url"}}), true
	case "golang.org/x/exp/slices.DeleteFunc", "slices.DeleteFunc", "golang.org/x/exp/slices.Clone", "slices.Clone":
		return args[0], true
	}
	cm := call.Common()
	g := cm.StaticCallee()
	if g != nil && g == x.expand && x.entry != g {
		return x.expanded(call, args), true
	}
	if g == nil && !cm.IsInvoke() {
		return nil, false // a function value
	}
	if g != nil && x.p.inModule(g) && len(g.Blocks) > 0 && !x.fetches(g) {
		if x.relevant(g) || g.Parent() != nil || plainHelper(g) {
			return nil, false
		}
	}
	if strings.HasPrefix(name, "strings.") && len(args) > 0 {
		all := true
		for _, v := range args {
			all = all && v.k == 'k'
		}
		if all {
			return nil, false
		}
	}
	if !strings.HasPrefix(name, "(*sync.") {
		for i, v := range args {
			if v.k != 'p' || i >= len(cm.Args) {
				continue
			}
			if it, ok := cm.Args[i].Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				continue
			}
			if argHoldsText(cm.Args[i]) {
				x.a.store(v, x.symbol("after "+call.Name()))
			}
		}
	}
	res := cm.Signature().Results()
	switch {
	case res.Len() == 0:
		return &av{k: 'n'}, true
	case res.Len() > 1 && isErrorType(res.At(res.Len()-1).Type()), res.Len() == 1 && isErrorType(res.At(0).Type()) && name != "fmt.Errorf" && name != "errors.New" && name != "errors.Join":
		return x.outcome(call, nil), true
	case name == "fmt.Errorf" || name == "errors.New":
		return x.symbol("error new " + call.Name()), true
	}
	var ks []string
	for _, v := range args {
		ks = append(ks, v.text())
		if v.k == 'p' {
			x.fresh++
			name += " " + itoa(x.fresh)
		}
	}
	r := &av{k: 's', key: name + "(" + strings.Join(ks, ",") + ")"}
	if res.Len() > 1 {
		t := &av{k: 'a'}
		for i := 0; i < res.Len(); i++ {
			t.el = append(t.el, &av{k: 's', key: r.key + "#" + itoa(i)})
		}
		return t, true
	}
	return r, true
}

// expanded: what ExpandApk leaves behind in the directory it is given, which is decided for it alone.
func (x *contain) expanded(call *ssa.Call, args []*av) *av {
	d := args[x.dir]
	x.seen[call] = true
	if isStr(d) && d.str() == "" {
		d = x.a.name("TEMP")
	} else if x.within(d) < 0 {
		x.bad[call] = "the directory is not known to be inside of the cache directory: " + d.text()
	}
	t := deref(x.expand.Signature.Results().At(0).Type())
	st := t.Underlying().(*types.Struct)
	v := &av{k: 'a'}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			x.fresh++
			v.el = append(v.el, x.join([]*av{d, term("name", konstInt(int64(x.fresh)))}))
			continue
		}
		v.el = append(v.el, x.symbol("expanded"))
	}
	return x.outcome(call, &av{k: 'p', cell: &acell{v: v, name: "expanded"}})
}

// argHoldsText: whether what an argument points to has texts that code elsewhere may change.
func argHoldsText(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return textual(deref(v.Type())) || holdsText(v.Type())
}

func holdsText(t types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if textual(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (x *contain) mapOf(v *av) string {
	if v.k == 'p' {
		k := v.cell.name
		if v.cell.v.k == 's' {
			k = v.cell.v.key
		}
		for _, i := range v.path {
			k += "." + itoa(i)
		}
		return k
	}
	return v.text()
}

// fetches: packages are fetched from their repository there, not from the cache.
func (x *contain) fetches(g *ssa.Function) bool {
	return strings.HasSuffix(g.String(), "pkg/apk.APK).FetchPackage")
}

// cutEnd: a path or text without its last n bytes, where they are known and leave a proper element.
func (x *contain) cutEnd(v *av, n int) *av {
	v = x.norm(v)
	last := v
	if v.k == 't' && v.key == "join" {
		last = v.el[len(v.el)-1]
	}
	ps := parts(last)
	if len(ps) == 0 || !isStr(ps[len(ps)-1]) || len(ps[len(ps)-1].str()) < n {
		return nil
	}
	e := ps[len(ps)-1].str()
	w := cat(append(append([]*av{}, ps[:len(ps)-1]...), konstStr(e[:len(e)-n]))...)
	if last == v {
		return w
	}
	if x.element(w) != 1 {
		return nil
	}
	return x.join(append(append([]*av{}, v.el[:len(v.el)-1]...), w))
}

func (x *contain) equal(p, q *av) *av {
	if p.k == 't' && isStr(q) {
		p, q = q, p
	}
	if !isStr(p) || q.k != 't' {
		if p.text() == q.text() {
			return konstBool(true)
		}
		return cond("eq " + p.text() + "|" + q.text())
	}
	if p.str() == "" && x.norm(q).k == 't' && x.norm(q).key == "join" {
		return konstBool(false)
	}
	if pre := prefixOf(q); !strings.HasPrefix(p.str(), pre) && len(p.str()) <= len(pre) {
		return konstBool(false)
	}
	return cond("eq " + x.norm(q).text() + "|" + p.str())
}

// args: names for the parameters of an entry.
func (x *contain) args(fn *ssa.Function, roots bool) []*av {
	var out []*av
	for i, p := range fn.Params {
		t := p.Type()
		k := "arg" + itoa(i)
		switch {
		case roots && textual(t):
			out = append(out, x.a.name("ROOT"))
		case isStruct(deref(t)) && !isStruct(t):
			v := x.symStruct(deref(t), k, 1)
			out = append(out, &av{k: 'p', cell: &acell{v: v, name: k}})
		case isStruct(t):
			out = append(out, x.symStruct(t, k, 1))
		default:
			out = append(out, x.a.name(k))
		}
	}
	return out
}

// results: path fields of what an entry returns are judged, and its methods run.
func (x *contain) results(entry *ssa.Function, res []*av, after []*ssa.Function) {
	for i, r := range res {
		if r.k != 'p' {
			continue
		}
		t := deref(entry.Signature.Results().At(i).Type())
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if n := len(after); n > 0 {
			if m := after[x.a.choose(n)]; types.Identical(deref(m.Params[0].Type()), t) {
				args := x.args(m, false)
				args[0] = r
				x.a.call(m, args, nil)
			}
		}
		for j := 0; j < st.NumFields(); j++ {
			if !textual(st.Field(j).Type()) || !strings.Contains(types.TypeString(t, nil), "expandapk") {
				continue
			}
			if b, ok := st.Field(j).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			v := getPath(r.cell.v, append(append([]int{}, r.path...), j))
			if v == nil || isStr(v) && v.str() == "" {
				continue
			}
			k := shortFn(entry.String()) + ": " + st.Field(j).Name()
			if x.within(v) < 0 {
				x.errs["-"+k] = true
			} else {
				x.errs["+"+k] = true
			}
		}
	}
}

func (x *contain) run(rule string, entry *ssa.Function, roots bool, after []*ssa.Function) {
	c, p := x.c, x.p
	x.entry = entry
	n := 0
	cuts := map[string]int{}
	var res []*av
	paths, complete := x.a.paths(func() {
		x.maps, x.fresh = map[string]*av{}, 0
		res = x.a.call(entry, x.args(entry, roots), nil)
		x.results(entry, res, after)
	}, func() {
		n++
		if os.Getenv("CHK_DEBUG") == "2" && n > 5000 {
			var l []string
			for k, v := range x.a.ival {
				l = append(l, fmt.Sprint(k, v))
			}
			sort.Strings(l)
			fmt.Println(strings.Join(l, "\n"))
			fmt.Println(x.a.trace)
			os.Exit(1)
		}
	}, func(why string) {
		if why != "panic" && why != "bound" {
			cuts[why]++
		}
	})
	var why []string
	for w := range cuts {
		why = append(why, w)
	}
	sort.Strings(why)
	name := shortFn(entry.String())
	switch {
	case len(why) > 0:
		c.Undecided(rule, "paths of "+name, p.pos(entry.Pos()), strings.Join(why, "; "))
	case !complete:
		c.Undecided(rule, "paths of "+name, p.pos(entry.Pos()), "too many paths")
	case os.Getenv("CHK_DEBUG") != "":
		fmt.Println("paths", name, paths, n)
	default:
		c.OK(rule, "paths of "+name, p.pos(entry.Pos()), itoa(paths)+" paths run, "+itoa(n)+" to the end")
	}
}

func runContain(c *Ctx) {
	p := c.P
	x := &contain{c: c, p: p, root: map[string]bool{}, seen: map[ssa.Instruction]bool{}, bad: map[ssa.Instruction]string{}, rel: map[*ssa.Function]bool{}, errs: map[string]bool{}}
	x.t = newTextIO(p)
	x.a = x.t.a
	x.a.limit = 20000
	x.a.rules = x.rules
	x.a.equal = x.equal
	x.a.lens, x.a.least = nil, nil
	x.a.open, x.a.defers = true, true
	x.a.cutEnd = x.cutEnd
	c.Rule("cache-root: the fields that hold the cache directory are only given it; entry: every entry into the caching layers is followed along all of its paths; inside: at every call into package os the path is the cache directory or below it; kept: the paths kept in an expanded package are inside, too.")
	for _, f := range p.Funcs {
		if f.Pkg == nil || !p.inModule(f) {
			continue
		}
		for _, m := range f.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && isErrorType(deref(g.Type())) && x.a.globals[g] == nil {
				x.a.globals[g] = &acell{v: &av{k: 's', key: "error global " + g.Name()}, name: g.Name()}
			}
		}
	}
	seed := c.Fn("pkg/apk.WithCache")
	if seed == nil {
		return
	}
	x.rootFields(seed)
	c.AtLeast("cache-root", 1, "fields that hold the cache directory")
	var entries []*ssa.Function
	// the round trippers that touch files
	for _, f := range p.Funcs {
		if f.Name() == "RoundTrip" && f.Signature.Recv() != nil && f.Parent() == nil && x.touches(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			entries = append(entries, f)
		}
	}
	if len(entries) == 0 {
		c.Bad("entry", "round trippers", p.pos(seed.Pos()), "no round tripper that keeps files was found")
	}
	expand := c.Fn("pkg/expandapk.ExpandApk")
	if expand == nil {
		return
	}
	x.expand = expand
	var after []*ssa.Function
	exp := expand.Signature.Results().At(0).Type()
	for _, f := range p.Funcs {
		if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), exp) && isExportedFn(f) && x.touches(f) && f.Synthetic == "" {
			after = append(after, f)
		}
	}
	sort.Slice(after, func(i, j int) bool { return after[i].Pos() < after[j].Pos() })
	// the callers of ExpandApk, up to where the directory no longer comes from the caller
	outer := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function, idx int, depth int)
	climb = func(f *ssa.Function, idx int, depth int) {
		for _, g := range p.callersOf(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f || idx >= len(ci.Common().Args) {
						continue
					}
					if v, ok := ci.Common().Args[idx].(*ssa.Parameter); ok && depth < 5 && v.Parent() == g {
						for j, q := range g.Params {
							if q == v {
								climb(g, j, depth+1)
							}
						}
						continue
					}
					if len(p.callersOf(g)) == 0 && !isExportedFn(g) && g.Parent() == nil {
						continue
					}
					outer[outermost(g)] = true
				}
			}
		}
	}
	dir := -1
	for i, q := range expand.Params {
		if textual(q.Type()) {
			dir = i
		}
	}
	if dir < 0 {
		c.Bad("entry", "directory of ExpandApk", p.pos(expand.Pos()), "ExpandApk no longer takes a directory")
		return
	}
	x.dir = dir
	climb(expand, dir, 0)
	var outs []*ssa.Function
	for f := range outer {
		if strings.Contains(f.String(), "pkg/apk.") {
			outs = append(outs, f)
		}
	}
	sort.Slice(outs, func(i, j int) bool { return outs[i].Pos() < outs[j].Pos() })
	if len(outs) == 0 {
		c.Bad("entry", "callers of ExpandApk", p.pos(expand.Pos()), "no caller of ExpandApk chooses its directory")
	}
	for _, f := range entries {
		x.run("entry", f, false, nil)
	}
	x.run("entry", expand, true, after)
	for _, f := range outs {
		x.run("entry", f, false, nil)
	}
	// every call into package os that the entries reach
	all := append(append(append([]*ssa.Function{}, entries...), outs...), after...)
	all = append(all, expand)
	reach := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if reach[f] || x.fetches(f) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) && len(g.Blocks) > 0 {
						rec(g)
					}
				}
			}
		}
	}
	for _, f := range all {
		rec(f)
	}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
		c.Funcs[f] = true
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		k := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n, idx := osSink(ci)
				n = "os." + n
				if g := ci.Common().StaticCallee(); g != nil && g == expand {
					n, idx = "ExpandApk", []int{dir}
				}
				if idx == nil {
					continue
				}
				k[n]++
				site := n + " " + itoa(k[n]) + " in " + shortFn(f.String())
				switch {
				case x.bad[ci] != "":
					c.Bad("inside", site, p.pos(ci.Pos()), x.bad[ci])
				case !x.seen[ci]:
					c.Undecided("inside", site, p.pos(ci.Pos()), "no path of the analysis comes here")
				default:
					c.OK("inside", site, p.pos(ci.Pos()), "the path is inside of the cache directory on every path")
				}
			}
		}
	}
	c.AtLeast("inside", 4, "calls into package os")
	var ks []string
	for k := range x.errs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k[0] == '-' {
			c.Bad("kept", k[1:], p.pos(expand.Pos()), "a path kept in the result is not known to be inside of the cache directory")
		} else if !x.errs["-"+k[1:]] {
			c.OK("kept", k[1:], p.pos(expand.Pos()), "inside of the cache directory on every path")
		}
	}
	c.AtLeast("kept", 1, "paths kept in expanded packages")
}

// plainHelper: a short unexported function without loops that only changes what it is handed.
func plainHelper(g *ssa.Function) bool {
	if isExportedFn(g) || instrCount(g) > 60 {
		return false
	}
	stores := false
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				stores = true
			case ssa.CallInstruction:
				if c := y.Common().StaticCallee(); c != nil && len(c.Blocks) > 0 && c != g {
					return false
				}
			}
		}
	}
	return stores
}
