package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"path"
	"regexp"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// What library calls do to texts whose pieces are known by their origin: formatting, joining,
// encoding and their inverses; and the streams such texts are written to and read from.

type strm struct {
	kind    byte // b buffer or file, w buffered writer, z gzip, t tar, l scanner, T template
	text    *av
	under   *strm
	inner   *strm
	closed  bool
	entries []*tarEnt
	cur     int
	lines   []*av
	li      int
	tmpl    string
	parsed  bool
	funcs   *av
}

type tarEnt struct {
	hdr  *av
	typ  types.Type
	text *av
}

type textio struct {
	a      *absint
	p      *Prog
	files  map[string]*strm
	parent map[string]string // the directory a name is in
	faults []string          // writer mistakes seen on the path
}

func newTextIO(p *Prog) *textio {
	t := &textio{a: newAbsint(p), p: p}
	t.a.limit = 3000
	t.a.types = map[string]types.Type{}
	t.a.rules = t.rules
	t.a.lens = t.length
	t.a.equal = t.equal
	t.a.least = func(key string) int64 {
		if elementName.MatchString(key) {
			return 1
		}
		return 0
	}
	return t
}

// the elements of lists are not empty texts
var elementName = regexp.MustCompile(`\[[0-9]+\]$`)

func (t *textio) reset() {
	t.files = map[string]*strm{}
	t.faults = nil
}

func newStrm(kind byte, text *av) *strm { return &strm{kind: kind, text: text, cur: -1} }
func streamAV(s *strm) *av              { return &av{k: 'w', w: s} }

var eofAV = &av{k: 's', key: "global EOF"}
var nilAV = &av{k: 'n'}

func tup(vs ...*av) *av { return &av{k: 'a', el: vs} }

func listAV(vs ...*av) *av {
	return &av{k: 'l', cell: &acell{v: &av{k: 'a', el: vs}, name: "list"}, n: len(vs)}
}

func items(v *av) []*av {
	var out []*av
	if v.k == 'l' {
		for i := 0; i < v.n; i++ {
			out = append(out, v.cell.v.el[v.lo+i])
		}
	}
	return out
}

// stream: the stream a value stands for.
func (t *textio) stream(v *av) *strm {
	switch v.k {
	case 'w':
		return v.w
	case 'p':
		x := getPath(v.cell.v, v.path)
		if x == nil {
			return nil
		}
		if x.k == 'w' {
			return x.w
		}
	}
	return nil
}

// buffer: the same, for a buffer that has not been used yet.
func (t *textio) buffer(v *av) *strm {
	if s := t.stream(v); s != nil {
		return s
	}
	if v.k == 'p' {
		if x := getPath(v.cell.v, v.path); x != nil && x.k == 'a' {
			s := newStrm('b', konstStr(""))
			v.cell.v = setPath(v.cell.v, v.path, streamAV(s))
			return s
		}
	}
	return nil
}

func (s *strm) write(x *av) {
	if s.kind == 't' {
		if s.cur < 0 {
			stop("data outside of an archive entry")
		}
		e := s.entries[s.cur]
		e.text = cat(e.text, x)
		return
	}
	s.text = cat(s.text, x)
}

// content: what is left to read.
func (s *strm) content() *av {
	if s.kind == 't' {
		if s.cur < 0 || s.cur >= len(s.entries) {
			return konstStr("")
		}
		return s.entries[s.cur].text
	}
	return s.text
}

func (s *strm) drop() {
	if s.kind == 't' {
		if s.cur >= 0 && s.cur < len(s.entries) {
			s.entries[s.cur].text = konstStr("")
		}
		return
	}
	s.text = konstStr("")
}

// lists of unknown length are followed for small lengths where their elements matter.
func (t *textio) expand(v *av, sep string) *av {
	var out []*av
	for _, p := range parts(v) {
		if p.k == 't' && p.key == "join" && isStr(p.el[1]) && p.el[1].str() == sep {
			n := t.a.length(p.el[0])
			done := false
			for i := int64(0); i < 3; i++ {
				if t.a.truth(t.a.compare(eqOp, n, konstInt(i))) {
					for j := int64(0); j < i; j++ {
						if j > 0 {
							out = append(out, konstStr(sep))
						}
						out = append(out, t.a.elem(p.el[0], konstInt(j)))
					}
					done = true
					break
				}
			}
			if !done {
				stop("bound")
			}
			continue
		}
		out = append(out, p)
	}
	return cat(out...)
}

// cut splits at the first separator; the pieces of unknown content are taken not to contain it.
func (t *textio) cut(v *av, sep string) (before, after *av, ok bool) {
	if sep == "" {
		stop("an empty separator")
	}
	v = t.expand(v, sep)
	ps := parts(v)
	for i, p := range ps {
		if isStr(p) {
			if j := strings.Index(p.str(), sep); j >= 0 {
				b := append(append([]*av{}, ps[:i]...), konstStr(p.str()[:j]))
				c := append([]*av{konstStr(p.str()[j+len(sep):])}, ps[i+1:]...)
				return cat(b...), cat(c...), true
			}
		}
	}
	return v, konstStr(""), false
}

func (t *textio) split(v *av, sep string, n int) *av {
	if v.k == 't' && v.key == "join" && isStr(v.el[1]) && v.el[1].str() == sep && n < 0 {
		if t.a.truth(t.a.compare(eqOp, t.a.length(v.el[0]), konstInt(0))) {
			return listAV(konstStr(""))
		}
		return v.el[0]
	}
	var out []*av
	for n < 0 || len(out) < n-1 {
		b, c, ok := t.cut(v, sep)
		if !ok {
			break
		}
		out = append(out, b)
		v = c
	}
	return listAV(append(out, t.expand(v, sep))...)
}

const blanks = " \t\n\r\v\f"

func (t *textio) fields(v *av) *av {
	ps := parts(v)
	var list *av
	plain := true
	for _, p := range ps {
		switch {
		case isStr(p) && strings.Trim(p.str(), blanks) == "":
		case p.k == 't' && p.key == "join" && isStr(p.el[1]) && p.el[1].str() != "" && strings.Trim(p.el[1].str(), blanks) == "" && list == nil:
			list = p.el[0]
		default:
			plain = false
		}
	}
	if plain && list != nil {
		return list
	}
	var out []*av
	cur := konstStr("")
	flush := func() {
		if !(isStr(cur) && cur.str() == "") {
			out = append(out, cur)
		}
		cur = konstStr("")
	}
	for _, p := range ps {
		if !isStr(p) {
			if p.k == 't' && p.key == "join" {
				stop("a list inside of a text that is split")
			}
			cur = cat(cur, p)
			continue
		}
		for _, r := range p.str() {
			if strings.ContainsRune(blanks, r) {
				flush()
			} else {
				cur = cat(cur, konstStr(string(r)))
			}
		}
	}
	flush()
	return listAV(out...)
}

func (t *textio) trim(v *av, cutset string, left, right bool) *av {
	ps := append([]*av{}, parts(v)...)
	if left && len(ps) > 0 && isStr(ps[0]) {
		ps[0] = konstStr(strings.TrimLeft(ps[0].str(), cutset))
	}
	if n := len(ps); right && n > 0 && isStr(ps[n-1]) {
		ps[n-1] = konstStr(strings.TrimRight(ps[n-1].str(), cutset))
	}
	return cat(ps...)
}

func (t *textio) setLo(key string, lo int64) {
	if r, ok := t.a.ival[key]; !ok {
		t.a.ival[key] = [2]int64{lo, math.MaxInt64}
	} else if r[0] < lo {
		t.a.ival[key] = [2]int64{lo, r[1]}
	}
}

func (t *textio) length(v *av) *av {
	key := "len(" + v.text() + ")"
	lo := int64(0)
	switch v.key {
	case "cat":
		for _, p := range v.el {
			if isStr(p) {
				lo += int64(len(p.str()))
			}
		}
	case "dec", "oct":
		lo = 1
	case "join", "b64", "hex", "unhex":
		if t.a.truth(t.a.compare(eqOp, t.a.length(v.el[0]), konstInt(0))) {
			return konstInt(0)
		}
		lo = 1
	}
	t.setLo(key, lo)
	return &av{k: 's', key: key}
}

func (t *textio) equal(x, y *av) *av {
	if y.k == 't' && x.k == 'k' {
		x, y = y, x
	}
	if x.k == 't' && y.k == 't' && x.text() == y.text() {
		return konstBool(true)
	}
	if x.k == 't' && isStr(y) {
		if y.str() == "" {
			return t.a.compare(eqOp, t.a.length(x), konstInt(0))
		}
		pre := prefixOf(x)
		if !strings.HasPrefix(y.str(), pre) {
			return konstBool(false)
		}
		ps := parts(x)
		if l := ps[len(ps)-1]; isStr(l) && !strings.HasSuffix(y.str(), l.str()) {
			return konstBool(false)
		}
	}
	return nil
}

// number: a value known to be a whole number.
func (t *textio) number(v *av) (types.Type, bool) {
	switch {
	case v.isInt():
		return types.Typ[types.UntypedInt], true
	case v.k == 't' && v.key == "unix":
		return types.Typ[types.Int64], true
	}
	ty := t.a.types[v.text()]
	if ty == nil {
		return nil, false
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ty, ok && b.Info()&types.IsInteger != 0
}

func (t *textio) format(f *av, args []*av) *av {
	if !isStr(f) {
		stop("a format that is not constant")
	}
	s := f.str()
	var out []*av
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			out = append(out, konstStr(s[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("0123456789.+-# ", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			stop("a format that ends within a verb")
		}
		flags, verb := s[i+1:j], s[j]
		i = j
		if verb == '%' {
			out = append(out, konstStr("%"))
			continue
		}
		if n >= len(args) {
			out = append(out, konstStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = append(out, t.verb(flags, verb, args[n]))
		n++
	}
	if n < len(args) {
		out = append(out, konstStr("%!(EXTRA)"))
	}
	return cat(out...)
}

func (t *textio) verb(flags string, verb byte, x *av) *av {
	_, num := t.number(x)
	text := isStr(x) || (x.k == 't' && !num) || (x.k == 's' && !num)
	zeros := flags == "" || (flags[0] == '0' && strings.Trim(flags, "0123456789") == "")
	switch {
	case verb == 's' && flags == "" && text:
		return x
	case verb == 'v' && flags == "" && text:
		return x
	case (verb == 'd' || verb == 'v') && flags == "" && num:
		return decimal(x)
	case verb == 'o' && zeros && num:
		return term("oct", x)
	case verb == 'x' && flags == "" && text:
		return term("hex", x)
	case verb == 'c' && x.isInt():
		return konstStr(string(rune(x.i64())))
	case verb == 'd' && flags == "":
		return term("dec", x)
	}
	return term("%"+flags+string(verb), x)
}

func decimal(x *av) *av {
	if x.isInt() {
		return konstStr(x.c.ExactString())
	}
	return term("dec", x)
}

// printed: what a value looks like without a format.
func (t *textio) printed(x *av) *av {
	if _, num := t.number(x); num {
		return decimal(x)
	}
	return x
}

// parsed: the number a text stands for, and the error of reading it.
func (t *textio) parsed(text *av, base, bits int64, signed bool) (*av, *av) {
	if isStr(text) {
		if n, err := strconv.ParseInt(text.str(), int(base), 64); err == nil {
			return konstInt(n), nilAV
		}
	}
	key := "parse" + strconv.FormatInt(base, 10) + "(" + text.text() + ")"
	op := map[int64]string{10: "dec", 8: "oct"}[base]
	if text.k == 't' && text.key == op && op != "" {
		x := text.el[0]
		if ty, ok := t.number(x); ok {
			r, known := typeRange(ty)
			hi := new(big.Int).Lsh(big.NewInt(1), uint(bits))
			d := irange{new(big.Int), hi}
			if signed {
				hi.Rsh(hi, 1)
				d.lo.Neg(hi)
			}
			hi.Sub(hi, big.NewInt(1))
			if known && r.within(d) {
				return x, nilAV
			}
		}
	}
	t.a.types[key] = types.Typ[types.Int64]
	if !signed {
		t.a.types[key] = types.Typ[types.Uint64]
	}
	if t.a.truth(&av{k: 's', key: key + " fails"}) {
		return konstInt(0), &av{k: 's', key: "error " + key}
	}
	return &av{k: 's', key: key}, nilAV
}

func (t *textio) decoded(enc string, text *av, op, inverse string) (*av, *av) {
	if text.k == 't' && text.key == op && (len(text.el) == 1 || text.el[1].text() == enc) {
		return text.el[0], nilAV
	}
	if isStr(text) && text.str() == "" {
		return konstStr(""), nilAV
	}
	r := term(inverse, text)
	if enc != "" {
		r.el = append(r.el, &av{k: 's', key: enc})
	}
	if t.a.truth(&av{k: 's', key: r.text() + " fails"}) {
		return konstStr(""), &av{k: 's', key: "error " + r.text()}
	}
	return r, nilAV
}

func undent(raw string) string {
	skip := true
	if strings.HasPrefix(raw, "\n") {
		raw, skip = raw[1:], false
	}
	lines := strings.Split(raw, "\n")
	least := math.MaxInt
	for i, l := range lines {
		if i == 0 && skip {
			continue
		}
		n := len(l) - len(strings.TrimLeft(l, " \t"))
		if n == len(l) {
			if i == len(lines)-1 && n < least {
				lines[i] = ""
			}
		} else if n < least {
			least = n
		}
	}
	for i, l := range lines {
		if !(i == 0 && skip) && len(l) >= least {
			lines[i] = l[least:]
		}
	}
	return strings.Join(lines, "\n")
}

// success: the results of a call that does not fail.
func success(call *ssa.Call, first *av) *av {
	res := call.Call.Signature().Results()
	one := func(i int) *av {
		if isErrorType(res.At(i).Type()) {
			return nilAV
		}
		if i == 0 && first != nil {
			return first
		}
		return &av{k: 's', key: "count of " + call.Name()}
	}
	if res.Len() == 1 {
		return one(0)
	}
	r := &av{k: 'a'}
	for i := 0; i < res.Len(); i++ {
		r.el = append(r.el, one(i))
	}
	return r
}

func (t *textio) bare(v *av) string {
	for v.k == 't' && v.key == "trimslash" {
		v = v.el[0]
	}
	return v.text()
}

func (t *textio) rules(call *ssa.Call, name string, args []*av) (*av, bool) {
	name = strings.Replace(name, "github.com/klauspost/compress/gzip", "compress/gzip", 1)
	sarg := func(i int) string {
		if i >= len(args) || !isStr(args[i]) {
			stop("an argument of " + name + " that is not constant")
		}
		return args[i].str()
	}
	known := func(i int) bool { return i < len(args) && isStr(args[i]) }
	all := func() bool {
		for i := range args {
			if !isStr(args[i]) {
				return false
			}
		}
		return true
	}
	switch name {
	case "fmt.Sprintf":
		return t.format(args[0], items(args[1])), true
	case "fmt.Appendf":
		return cat(textOf(args[0]), t.format(args[1], items(args[2]))), true
	case "fmt.Sprint":
		var ps []*av
		for _, x := range items(args[0]) {
			if len(ps) > 0 {
				stop("fmt.Sprint of several values")
			}
			ps = append(ps, t.printed(x))
		}
		return cat(ps...), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		s := t.buffer(args[0])
		if s == nil {
			return nil, false
		}
		if name == "fmt.Fprintf" {
			s.write(t.format(args[1], items(args[2])))
		} else {
			l := items(args[1])
			if len(l) > 1 && name == "fmt.Fprint" {
				stop("fmt.Fprint of several values")
			}
			for i, x := range l {
				if i > 0 {
					s.write(konstStr(" "))
				}
				s.write(t.printed(x))
			}
			if name == "fmt.Fprintln" {
				s.write(konstStr("\n"))
			}
		}
		return success(call, nil), true
	case "io.WriteString":
		if s := t.buffer(args[0]); s != nil {
			s.write(args[1])
			return success(call, nil), true
		}
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		d, s := t.buffer(args[0]), t.stream(args[1])
		if d != nil && s != nil {
			d.write(s.content())
			s.drop()
			return success(call, nil), true
		}
	case "io.ReadAll":
		if s := t.stream(args[0]); s != nil {
			x := s.content()
			s.drop()
			return tup(x, nilAV), true
		}
	case "io.NopCloser", "bufio.NewReader", "bufio.NewReaderSize":
		if s := t.buffer(args[0]); s != nil {
			return streamAV(s), true
		}
	case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		return streamAV(newStrm('b', textOf(args[0]))), true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if u := t.buffer(args[0]); u != nil {
			s := newStrm('w', konstStr(""))
			s.under = u
			return streamAV(s), true
		}
	case "bufio.NewScanner":
		if u := t.buffer(args[0]); u != nil {
			s := newStrm('l', konstStr(""))
			rest := t.expand(u.content(), "\n")
			u.drop()
			for {
				b, c, ok := t.cut(rest, "\n")
				if !ok {
					if !(isStr(b) && b.str() == "") {
						s.lines = append(s.lines, b)
					}
					break
				}
				s.lines = append(s.lines, b)
				rest = c
			}
			return streamAV(s), true
		}
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
		if u := t.buffer(args[0]); u != nil {
			s := newStrm('z', konstStr(""))
			u.inner = s
			return success(call, streamAV(s)), true
		}
	case "archive/tar.NewWriter":
		if u := t.buffer(args[0]); u != nil {
			s := newStrm('t', konstStr(""))
			u.inner = s
			return streamAV(s), true
		}
	case "compress/gzip.NewReader":
		if u := t.stream(args[0]); u != nil && u.inner != nil && u.inner.kind == 'z' {
			if !u.inner.closed {
				t.faults = append(t.faults, "the compressed stream is not finished")
			}
			return success(call, streamAV(u.inner)), true
		}
	case "archive/tar.NewReader":
		if u := t.stream(args[0]); u != nil && u.inner != nil && u.inner.kind == 't' {
			if !u.inner.closed {
				t.faults = append(t.faults, "the archive is not finished")
			}
			u.inner.cur = -1
			return streamAV(u.inner), true
		}
	case "archive/tar.FileInfoHeader":
		ty := deref(call.Call.Signature().Results().At(0).Type())
		h := t.a.zero(ty)
		nm := t.a.name("name of the file")
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			if m := t.p.method(mi.X.Type(), "Name"); m != nil {
				nm = t.a.call(m, []*av{args[0]}, nil)[0]
			}
		}
		h = setPath(h, []int{fieldIndex(ty, "Name")}, nm)
		return success(call, &av{k: 'p', cell: &acell{v: h, name: "header"}}), true
	case "path/filepath.Join", "path.Join":
		l := items(args[0])
		var ss []string
		for _, x := range l {
			if !isStr(x) {
				break
			}
			ss = append(ss, x.str())
		}
		if len(ss) == len(l) {
			return konstStr(path.Join(ss...)), true
		}
		if n := len(l); n == 2 && l[1].k == 't' && l[1].key == "base" && t.parent[l[1].el[0].text()] == t.bare(l[0]) {
			return l[1].el[0], true
		}
		return term("pathjoin", l...), true
	case "path/filepath.Base", "path.Base":
		if known(0) {
			return konstStr(path.Base(args[0].str())), true
		}
		return term("base", args[0]), true
	case "path/filepath.Split", "path.Split":
		return tup(term("dir", args[0]), term("base", args[0])), true
	case "path/filepath.Clean", "path.Clean", "path/filepath.ToSlash":
		if known(0) {
			return konstStr(path.Clean(args[0].str())), true
		}
		return args[0], true
	case "strings.Join":
		if args[0].k == 'l' || args[0].k == 'n' {
			var ps []*av
			for i, x := range items(args[0]) {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, x)
			}
			return cat(ps...), true
		}
		return term("join", args[0], konstStr(sarg(1))), true
	case "strings.Split", "bytes.Split":
		return t.split(args[0], sarg(1), -1), true
	case "strings.SplitN", "bytes.SplitN":
		if args[2].isInt() {
			return t.split(args[0], sarg(1), int(args[2].i64())), true
		}
	case "strings.Fields":
		return t.fields(args[0]), true
	case "strings.Cut", "bytes.Cut":
		b, c, ok := t.cut(args[0], sarg(1))
		return tup(b, c, konstBool(ok)), true
	case "strings.Count":
		if !all() && sarg(1) != "" {
			return konstInt(t.a.length(t.split(args[0], sarg(1), -1)).i64() - 1), true
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		sep := ""
		if args[1].isInt() {
			sep = string(rune(args[1].i64()))
		} else {
			sep = sarg(1)
		}
		if i := strings.Index(prefixOf(args[0]), sep); i >= 0 {
			return konstInt(int64(i)), true
		}
		if _, _, ok := t.cut(args[0], sep); !ok {
			return konstInt(-1), true
		}
	case "strings.Contains":
		if !all() {
			_, _, ok := t.cut(args[0], sarg(1))
			return konstBool(ok), true
		}
	case "strings.HasPrefix", "strings.CutPrefix", "strings.TrimPrefix":
		if all() && name != "strings.CutPrefix" {
			return nil, false
		}
		if !known(1) {
			if d := t.parent[args[0].text()]; d != "" && d == t.bare(args[1]) && name == "strings.HasPrefix" {
				return konstBool(true), true
			}
			return nil, false
		}
		pre, want := prefixOf(args[0]), sarg(1)
		var has bool
		switch {
		case strings.HasPrefix(pre, want):
			has = true
		case !strings.HasPrefix(want, pre) || isStr(args[0]):
		default:
			if pre == "" && args[0].k == 't' && len(parts(args[0])) == 1 {
				switch args[0].key { // neither digits nor encoded data are told from a prefix, others are opaque
				case "dec", "oct":
					has = false
				default:
					has = t.a.truth(&av{k: 's', key: args[0].text() + " has prefix " + want})
				}
			} else {
				has = t.a.truth(&av{k: 's', key: args[0].text() + " has prefix " + want})
			}
		}
		rest := args[0]
		if has {
			ps := parts(args[0])
			if strings.HasPrefix(pre, want) {
				rest = cat(append([]*av{konstStr(pre[len(want):])}, ps[1:]...)...)
			} else {
				rest = term("after "+want, args[0])
			}
		}
		switch name {
		case "strings.HasPrefix":
			return konstBool(has), true
		case "strings.TrimPrefix":
			return rest, true
		}
		return tup(rest, konstBool(has)), true
	case "strings.TrimSuffix", "strings.TrimRight":
		if all() {
			return nil, false
		}
		if sarg(1) == "/" {
			if l := parts(args[0]); !isStr(l[len(l)-1]) {
				return term("trimslash", args[0]), true
			}
		}
		return t.trim(args[0], sarg(1), false, true), true
	case "strings.TrimSpace", "bytes.TrimSpace":
		return t.trim(args[0], blanks, true, true), true
	case "strings.Trim":
		return t.trim(args[0], sarg(1), true, true), true
	case "strings.TrimLeft":
		return t.trim(args[0], sarg(1), true, false), true
	case "strings.Clone":
		return args[0], true
	case "sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Slice":
		return nilAV, true
	case "slices.Clone", "slices.Sorted":
		return args[0], true
	case "strconv.Itoa":
		return decimal(args[0]), true
	case "strconv.FormatInt", "strconv.FormatUint":
		switch {
		case args[1].isInt() && args[1].i64() == 10:
			return decimal(args[0]), true
		case args[1].isInt() && args[1].i64() == 8:
			return term("oct", args[0]), true
		}
		return term("digits", args...), true
	case "strconv.Atoi":
		x, err := t.parsed(args[0], 10, 64, true)
		return tup(x, err), true
	case "strconv.ParseInt", "strconv.ParseUint":
		if args[1].isInt() && args[2].isInt() {
			bits := args[2].i64()
			if bits == 0 {
				bits = 64
			}
			x, err := t.parsed(args[0], args[1].i64(), bits, name == "strconv.ParseInt")
			return tup(x, err), true
		}
	case "time.Unix":
		if args[1].isInt() && args[1].i64() == 0 {
			if args[0].k == 't' && args[0].key == "unix" {
				return args[0].el[0], true
			}
			return term("time", args[0]), true
		}
	case "(time.Time).UTC", "(time.Time).Local":
		return args[0], true
	case "(time.Time).Unix":
		return term("unix", args[0]), true
	case "(time.Time).IsZero":
		return &av{k: 's', key: args[0].text() + " is zero"}, true
	case "(*encoding/base64.Encoding).EncodeToString":
		return term("b64", textOf(args[1]), &av{k: 's', key: args[0].text()}), true
	case "(*encoding/base64.Encoding).DecodeString":
		x, err := t.decoded(args[0].text(), args[1], "b64", "unb64")
		return tup(x, err), true
	case "encoding/hex.EncodeToString":
		return term("hex", textOf(args[0])), true
	case "encoding/hex.DecodeString":
		if args[0].k == 't' && args[0].key == "hex" {
			return tup(args[0].el[0], nilAV), true
		}
		return tup(term("unhex", args[0]), nilAV), true
	case "errors.Is":
		return t.a.compare(eqOp, args[0], args[1]), true
	case "github.com/MakeNowJust/heredoc/v2.Doc", "github.com/MakeNowJust/heredoc.Doc":
		return konstStr(undent(sarg(0))), true
	case "text/template.New":
		return streamAV(newStrm('T', konstStr(""))), true
	case "text/template.Must":
		return args[0], true
	case "(*text/template.Template).Funcs":
		if s := t.stream(args[0]); s != nil {
			s.funcs = args[1]
			return args[0], true
		}
	case "(*text/template.Template).Parse":
		if s := t.stream(args[0]); s != nil {
			s.tmpl, s.parsed = sarg(1), true
			return tup(args[0], nilAV), true
		}
	case "(*text/template.Template).Execute":
		s, w := t.stream(args[0]), t.buffer(args[1])
		if s == nil || w == nil || !s.parsed {
			stop("a template the analysis does not follow")
		}
		mi, ok := call.Call.Args[2].(*ssa.MakeInterface)
		if !ok {
			stop("a template the analysis does not follow")
		}
		t.execute(s, w, args[2], mi.X.Type())
		return nilAV, true
	}
	if g := call.Call.StaticCallee(); g != nil && t.p.inModule(g) {
		// an ordering of archive headers
		sig := g.Signature
		if sig.Params().Len() == 1 && sig.Results().Len() == 1 && sig.Recv() == nil {
			if s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok && isTarHeader(s.Elem()) && types.Identical(sig.Params().At(0).Type(), sig.Results().At(0).Type()) {
				return args[0], true
			}
		}
		return nil, false
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 && len(args) > 0 && strings.HasPrefix(name, "(") || call.Call.IsInvoke() {
		return t.methodRule(call, name[i+1:], args)
	}
	if (name == "io/fs.ReadFile" || name == "os.ReadFile") && len(args) > 0 && known(len(args)-1) {
		if s := t.files[args[len(args)-1].str()]; s != nil {
			return tup(s.text, nilAV), true
		}
	}
	return nil, false
}

func textOf(v *av) *av {
	if v.k == 'n' {
		return konstStr("")
	}
	return v
}

func isTarHeader(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "Header" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "archive/tar"
}

func fieldIndex(t types.Type, name string) int {
	st, ok := deref(t).Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

// methodRule: calls on streams and filesystems.
func (t *textio) methodRule(call *ssa.Call, m string, args []*av) (*av, bool) {
	switch m {
	case "Open", "OpenFile", "Create", "ReadFile", "WriteFile":
		if len(args) < 2 || args[0].k == 'w' {
			return nil, false
		}
		if !isStr(args[1]) {
			stop("a file whose path is not constant")
		}
		p := path.Clean("/" + args[1].str())
		s := t.files[p]
		if s == nil {
			if m == "Open" || m == "ReadFile" {
				t.faults = append(t.faults, "the reader opens "+p+", which the writer does not write")
			}
			s = newStrm('b', konstStr(""))
			t.files[p] = s
		}
		if flags := len(args) > 2 && args[2].isInt(); m == "OpenFile" && flags && args[2].i64()&3 != 0 && args[2].i64()&0x400 == 0 || m == "Create" {
			s.text = konstStr("") // written from the start
		}
		switch m {
		case "WriteFile":
			s.text = textOf(args[2])
			return nilAV, true
		case "ReadFile":
			return tup(s.text, nilAV), true
		}
		return success(call, streamAV(s)), true
	}
	s := t.stream(args[0])
	if s == nil {
		switch m {
		case "Write", "WriteString", "WriteByte", "WriteRune", "Bytes", "String", "Len", "Reset":
			if n := bufferType(call); n {
				s = t.buffer(args[0])
			}
		}
	}
	if s == nil {
		return nil, false
	}
	switch m {
	case "Write", "WriteString":
		if s.kind == 'l' || s.kind == 'T' {
			break
		}
		s.write(textOf(args[1]))
		return success(call, nil), true
	case "WriteByte", "WriteRune":
		if args[1].isInt() {
			s.write(konstStr(string(rune(args[1].i64()))))
			return success(call, nil), true
		}
	case "WriteHeader":
		if s.kind == 't' && args[1].k == 'p' {
			h := getPath(args[1].cell.v, args[1].path)
			ty := deref(call.Call.Args[len(call.Call.Args)-1].Type())
			s.entries = append(s.entries, &tarEnt{hdr: h, typ: ty, text: konstStr("")})
			s.cur = len(s.entries) - 1
			return nilAV, true
		}
	case "Next":
		if s.kind == 't' {
			s.cur++
			if s.cur >= len(s.entries) {
				return tup(nilAV, eofAV), true
			}
			return tup(&av{k: 'p', cell: &acell{v: s.entries[s.cur].hdr, name: "entry"}}, nilAV), true
		}
	case "WriteTo":
		if d := t.buffer(args[1]); d != nil {
			d.write(s.content())
			s.drop()
			return success(call, nil), true
		}
	case "ReadFrom":
		if r := t.stream(args[1]); r != nil {
			s.write(r.content())
			r.drop()
			return success(call, nil), true
		}
	case "Close":
		s.closed = true
		return success(call, nil), true
	case "Flush", "Sync":
		if s.kind == 'w' {
			s.under.write(s.text)
			s.text = konstStr("")
		}
		return success(call, nil), true
	case "Bytes", "String":
		if s.kind == 'l' {
			return s.lines[s.li-1], true
		}
		return s.content(), true
	case "Text":
		if s.kind == 'l' && s.li > 0 && s.li <= len(s.lines) {
			return s.lines[s.li-1], true
		}
	case "Len":
		return t.a.length(s.content()), true
	case "Reset", "Grow", "Buffer":
		if m == "Reset" {
			s.text = konstStr("")
		}
		return nilAV, true
	case "Scan":
		if s.kind == 'l' {
			s.li++
			return konstBool(s.li <= len(s.lines)), true
		}
	case "Err":
		return nilAV, true
	case "Split":
		if f := args[1]; f.k == 'f' && f.fn.String() == "bufio.ScanLines" {
			return nilAV, true
		}
	case "ReadString", "ReadBytes":
		if args[1].isInt() {
			sep := string(rune(args[1].i64()))
			b, c, ok := t.cut(s.content(), sep)
			s.drop()
			if !ok {
				return tup(b, eofAV), true
			}
			s.write(c)
			return tup(cat(b, konstStr(sep)), nilAV), true
		}
	}
	stop("a use of a stream the analysis does not follow: " + m)
	return nil, false
}

// bufferType: the receiver of the call is a buffer.
func bufferType(call *ssa.Call) bool {
	if call.Call.IsInvoke() {
		return true
	}
	n, ok := deref(call.Call.Args[0].Type()).(*types.Named)
	if !ok {
		return false
	}
	s := n.String()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// templates

type typed struct {
	v *av
	t types.Type
}

func (t *textio) execute(s *strm, w *strm, data *av, ty types.Type) {
	funcs := map[string]any{}
	if s.funcs != nil && s.funcs.k == 'm' {
		for k := range s.funcs.mp.vals {
			n, err := strconv.Unquote(k)
			if err == nil {
				funcs[n] = true
			}
		}
	}
	builtin := map[string]any{"and": true, "or": true, "not": true, "len": true, "eq": true, "ne": true, "gt": true, "lt": true, "ge": true, "le": true, "printf": true, "print": true, "index": true}
	trees, err := parse.Parse("t", s.tmpl, "", "", builtin, funcs)
	if err != nil || trees["t"] == nil {
		stop("a template that cannot be parsed")
	}
	if data.k == 'p' && types.Identical(deref(ty), ty) {
		stop("a template the analysis does not follow")
	}
	t.node(s, w, trees["t"].Root, typed{data, ty})
}

func (t *textio) node(s *strm, w *strm, n parse.Node, dot typed) {
	switch x := n.(type) {
	case *parse.ListNode:
		if x != nil {
			for _, y := range x.Nodes {
				t.node(s, w, y, dot)
			}
		}
	case *parse.TextNode:
		w.write(konstStr(string(x.Text)))
	case *parse.CommentNode:
	case *parse.ActionNode:
		r := t.pipe(s, x.Pipe, dot)
		if b, ok := r.t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				w.write(r.v)
				return
			case b.Info()&types.IsInteger != 0:
				w.write(decimal(r.v))
				return
			}
		}
		w.write(term("printed", r.v))
	case *parse.IfNode:
		if t.truthy(t.pipe(s, x.Pipe, dot)) {
			t.node(s, w, x.List, dot)
		} else {
			t.node(s, w, x.ElseList, dot)
		}
	case *parse.WithNode:
		if r := t.pipe(s, x.Pipe, dot); t.truthy(r) {
			t.node(s, w, x.List, r)
		} else {
			t.node(s, w, x.ElseList, dot)
		}
	default:
		stop("a template construct the analysis does not follow: " + n.String())
	}
}

func (t *textio) truthy(x typed) bool {
	switch u := x.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return t.a.truth(x.v)
		case u.Info()&types.IsString != 0:
			return !t.a.truth(t.a.compare(eqOp, x.v, konstStr("")))
		case u.Info()&types.IsNumeric != 0:
			return !t.a.truth(t.a.compare(eqOp, x.v, konstInt(0)))
		}
	case *types.Slice, *types.Map:
		return !t.a.truth(t.a.compare(eqOp, t.a.length(x.v), konstInt(0)))
	case *types.Struct:
		return true
	case *types.Pointer:
		return x.v.k != 'n'
	}
	stop("a template condition the analysis does not follow")
	return false
}

func (t *textio) pipe(s *strm, p *parse.PipeNode, dot typed) typed {
	if len(p.Decl) > 0 {
		stop("a template variable")
	}
	var last *typed
	for _, c := range p.Cmds {
		r := t.command(s, c, dot, last)
		last = &r
	}
	return *last
}

func (t *textio) command(s *strm, c *parse.CommandNode, dot typed, final *typed) typed {
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		var args []typed
		lazy := id.Ident == "and" || id.Ident == "or"
		for _, x := range c.Args[1:] {
			r := t.operand(s, x, dot)
			args = append(args, r)
			if lazy {
				if b := t.truthy(r); b == (id.Ident == "or") {
					return r
				}
			}
		}
		if final != nil {
			args = append(args, *final)
		}
		boolT := types.Typ[types.Bool]
		switch id.Ident {
		case "and", "or":
			return args[len(args)-1]
		case "not":
			return typed{konstBool(!t.truthy(args[0])), boolT}
		case "len":
			return typed{t.a.length(args[0].v), types.Typ[types.Int]}
		case "eq", "ne", "gt", "lt", "ge", "le":
			op := cmpOps[id.Ident]
			if len(args) == 2 {
				return typed{t.a.compare(op, args[0].v, args[1].v), boolT}
			}
		case "printf":
			var l []*av
			for _, x := range args[1:] {
				if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					t.a.types[x.v.text()] = x.t
				}
				l = append(l, x.v)
			}
			return typed{t.format(args[0].v, l), types.Typ[types.String]}
		}
		if s.funcs != nil && s.funcs.k == 'm' {
			if f := s.funcs.mp.vals[strconv.Quote(id.Ident)]; f != nil && f.k == 'f' {
				var l []*av
				for _, x := range args {
					l = append(l, x.v)
				}
				rt := f.fn.Signature.Results().At(0).Type()
				if !t.p.inModule(f.fn) {
					if f.fn.String() == "strings.Join" && len(l) == 2 && isStr(l[1]) {
						return typed{term("join", l[0], l[1]), rt}
					}
					stop("a template function the analysis does not follow: " + id.Ident)
				}
				return typed{t.a.call(f.fn, l, f.el)[0], rt}
			}
		}
		stop("a template function the analysis does not follow: " + id.Ident)
	}
	if len(c.Args) > 1 {
		stop("a template call the analysis does not follow")
	}
	return t.operand(s, c.Args[0], dot)
}

func (t *textio) operand(s *strm, n parse.Node, dot typed) typed {
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		for _, f := range x.Ident {
			dot = t.member(dot, f)
		}
		return dot
	case *parse.ChainNode:
		r := t.operand(s, x.Node, dot)
		for _, f := range x.Field {
			r = t.member(r, f)
		}
		return r
	case *parse.PipeNode:
		return t.pipe(s, x, dot)
	case *parse.StringNode:
		return typed{konstStr(x.Text), types.Typ[types.String]}
	case *parse.NumberNode:
		if x.IsInt {
			return typed{konstInt(x.Int64), types.Typ[types.Int]}
		}
	case *parse.BoolNode:
		return typed{konstBool(x.True), types.Typ[types.Bool]}
	}
	stop("a template operand the analysis does not follow: " + n.String())
	return typed{}
}

// member: a method or field of a value.
func (t *textio) member(x typed, name string) typed {
	if m := t.p.method(x.t, name); m != nil {
		rt := m.Signature.Results().At(0).Type()
		recv := x.v
		_, ptr := m.Signature.Recv().Type().(*types.Pointer)
		if _, isPtr := x.t.Underlying().(*types.Pointer); isPtr && !ptr {
			recv = t.a.load(recv)
		} else if !isPtr && ptr {
			recv = &av{k: 'p', cell: &acell{v: recv, name: "copy"}}
		}
		if t.p.inModule(m) {
			return typed{t.a.call(m, []*av{recv}, nil)[0], rt}
		}
		switch m.String() {
		case "(time.Time).Unix":
			return typed{term("unix", recv), rt}
		case "(time.Time).IsZero":
			return typed{&av{k: 's', key: recv.text() + " is zero"}, rt}
		case "(time.Time).UTC":
			return typed{recv, rt}
		}
		stop("a template method the analysis does not follow: " + m.String())
	}
	v := x.v
	if _, ok := x.t.Underlying().(*types.Pointer); ok {
		v = t.a.load(v)
	}
	st, ok := deref(x.t).Underlying().(*types.Struct)
	if !ok {
		stop("a template field the analysis does not follow: " + name)
	}
	i := fieldIndex(x.t, name)
	if i < 0 {
		for j := 0; j < st.NumFields(); j++ { // promoted
			if st.Field(j).Embedded() && fieldIndex(st.Field(j).Type(), name) >= 0 {
				return t.member(t.member(x, st.Field(j).Name()), name)
			}
		}
		stop("a template names a field that does not exist: " + name)
	}
	if v.k == 'a' {
		return typed{v.el[i], st.Field(i).Type()}
	}
	return typed{t.a.named(v.text() + "." + itoa(i)), st.Field(i).Type()}
}

var cmpOps = map[string]token.Token{"eq": token.EQL, "ne": token.NEQ, "gt": token.GTR, "lt": token.LSS, "ge": token.GEQ, "le": token.LEQ}

const eqOp = token.EQL

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// method: the declared method of a type, for a value or a pointer.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && len(ms.At(i).Index()) == 1 {
			return p.SSA.FuncValue(f)
		}
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return p.methodOf(types.NewPointer(t), name)
	}
	return nil
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && len(ms.At(i).Index()) == 1 {
			return p.SSA.FuncValue(f)
		}
	}
	return nil
}
