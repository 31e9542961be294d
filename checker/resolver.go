package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: the resolver never selects a package it must not. The resolver is run by the abstract
// interpreter on small families of packages. How packages hang together (names, what they
// provide, depend on and come from) is given; whether a version can be parsed and whether it
// satisfies a constraint is not: both are followed each way, and so are the choice of the best
// candidate and the order of every map. On every path that ends without an error, each selected
// package is compared with what the relations chosen on that path permit; a relation that the
// code never asked about counts against it.

func init() {
	register("C21", runResolver,
		"A constraint is split into name, operator, version and pin as its format says; whether one version satisfies another is property C19.",
		"The families have at most four packages, two constraints per package and two provided names per package; the code does not treat longer lists or other names differently.",
		"RepositoryPackage.URL is different for different packages.")
}

type rpkg struct {
	name, version             string
	provides, deps, installIf []string
	index                     string // "" not pinned, "?" any of the three
	dq                        bool   // may be disqualified from the start
}

type rworld struct {
	name     string
	roots    []string
	entry    string // offer, one, all
	pkgs     []rpkg
	existing string // "?name=i": package i may already be selected under the name
	mayFail  bool   // there need not be a way to satisfy it
	before   [][2]int
	applies  [][2]int // the constraints of package i (-1: of the request) hold when package j is selected
}

type resolverRun struct {
	c      *Ctx
	p      *Prog
	a      *absint
	pkg    *types.Package
	w      *rworld
	dep    map[string]int64
	cells  []*acell // RepositoryPackage
	pins   []string
	dqed   []bool
	exist  map[string]int
	nextIs int
}

var rconstraint = regexp.MustCompile(`^([a-z0-9]+)(([<>=~]+)([a-z0-9.]+))?(@([a-z0-9]+))?$`)

type rcon struct {
	name, op, version, pin string
}

func parseRcon(s string) rcon {
	m := rconstraint.FindStringSubmatch(s)
	if m == nil {
		return rcon{name: s}
	}
	return rcon{m[1], m[3], m[4], m[6]}
}

// structOf: a struct with the given fields, the others zero.
func (r *resolverRun) structOf(t types.Type, fields map[string]*av) *av {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		stop("a struct the analysis does not know")
	}
	v := &av{k: 'a'}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if f, ok := fields[st.Field(i).Name()]; ok {
			v.el = append(v.el, f)
			n++
			continue
		}
		v.el = append(v.el, r.a.zero(st.Field(i).Type()))
	}
	if n != len(fields) {
		stop("a struct the analysis does not know")
	}
	return v
}

func (r *resolverRun) typ(name string) types.Type {
	o := r.pkg.Scope().Lookup(name)
	if o == nil {
		stop("type " + name + " is gone")
	}
	return o.Type()
}

func listOf(name string, vs ...*av) *av {
	if len(vs) == 0 {
		return &av{k: 'n'}
	}
	return &av{k: 'l', cell: &acell{v: &av{k: 'a', el: vs}, name: name}, n: len(vs)}
}

func strList(name string, ss []string) *av {
	var vs []*av
	for _, s := range ss {
		vs = append(vs, konstStr(s))
	}
	return listOf(name, vs...)
}

func (r *resolverRun) build() []*av {
	r.cells, r.pins, r.dqed, r.exist = nil, nil, nil, map[string]int{}
	var idx []*av
	for i, p := range r.w.pkgs {
		body := r.structOf(r.typ("Package"), map[string]*av{
			"Name": konstStr(p.name), "Version": konstStr(p.version), "Origin": konstStr(""),
			"Provides":     strList("provides "+itoa(i), p.provides),
			"Dependencies": strList("deps "+itoa(i), p.deps),
			"InstallIf":    strList("if "+itoa(i), p.installIf),
		})
		rp := r.structOf(r.typ("RepositoryPackage"), map[string]*av{
			"Package": {k: 'p', cell: &acell{v: body, name: "package " + itoa(i)}},
		})
		r.cells = append(r.cells, &acell{v: rp, name: "repository package " + itoa(i)})
		pin := p.index
		if pin == "?" {
			pin = []string{"", "p1", "p2"}[r.a.choose(3)]
		}
		r.pins = append(r.pins, pin)
		r.dqed = append(r.dqed, p.dq && r.a.choose(2) == 1)
		idx = append(idx, &av{k: 's', key: "index " + itoa(i)})
	}
	if e := r.w.existing; e != "" && r.a.choose(2) == 1 {
		n, i, _ := strings.Cut(e[1:], "=")
		r.exist[n] = int(i[0] - '0')
	}
	return idx
}

func (r *resolverRun) ptr(i int) *av { return &av{k: 'p', cell: r.cells[i]} }

func (r *resolverRun) which(v *av) int {
	if v.k == 'p' {
		for i, c := range r.cells {
			if c == v.cell && len(v.path) == 0 {
				return i
			}
		}
	}
	return -1
}

func (r *resolverRun) mapOf(elem types.Type, keys []*av, vals []*av) *av {
	m := &amap{vals: map[string]*av{}, elem: elem}
	for i, k := range keys {
		m.keys = append(m.keys, k.text())
		m.kv = append(m.kv, k)
		m.vals[k.text()] = vals[i]
	}
	return &av{k: 'm', mp: m}
}

func (r *resolverRun) answer(key string) bool { return r.a.truth(&av{k: 's', key: key}) }

func (r *resolverRun) parse(v *av) *av {
	if !isStr(v) {
		stop("a version the analysis does not follow")
	}
	z := r.structOf(r.typ("Version"), nil)
	if v.str() == "" || r.answer("bad version "+v.str()) {
		return &av{k: 'a', el: []*av{z, {k: 's', key: "error version"}}}
	}
	return &av{k: 'a', el: []*av{term("version", v), {k: 'n'}}}
}

func versionText(v *av) string {
	if v.k == 't' && v.key == "version" {
		return v.el[0].str()
	}
	return "none"
}

func (r *resolverRun) rules(call *ssa.Call, name string, args []*av) (*av, bool) {
	cm := call.Common()
	if cm.IsInvoke() {
		if i := args[0]; i.k == 's' && strings.HasPrefix(i.key, "index ") {
			n := int(i.key[len("index ")] - '0')
			switch cm.Method.Name() {
			case "Name":
				return konstStr(r.pins[n]), true
			case "Count":
				return konstInt(1), true
			case "Packages":
				return listOf("packages", r.ptr(n)), true
			case "Source":
				return konstStr("source"), true
			}
		}
	}
	g := cm.StaticCallee()
	if g != nil && g.Pkg != nil && g.Pkg.Pkg == r.pkg {
		recv := ""
		if rv := g.Signature.Recv(); rv != nil {
			if n, ok := deref(rv.Type()).(*types.Named); ok {
				recv = n.Obj().Name()
			}
		}
		switch recv + "." + g.Name() {
		case ".resolvePackageNameVersionPin":
			if !isStr(args[0]) {
				stop("a constraint the analysis does not follow")
			}
			k := parseRcon(args[0].str())
			return r.structOf(r.typ("parsedConstraint"), map[string]*av{
				"name": konstStr(k.name), "version": konstStr(k.version), "pin": konstStr(k.pin), "dep": konstInt(r.dep[k.op]),
			}), true
		case ".ParseVersion":
			return r.parse(args[0]), true
		case "versionDependency.satisfies":
			if !args[0].isInt() {
				stop("an operator the analysis does not follow")
			}
			if args[0].i64() == r.dep[""] {
				return konstBool(true), true
			}
			return konstBool(r.answer(fmt.Sprintf("sat %d %s %s", args[0].i64(), versionText(args[1]), versionText(args[2])))), true
		case "RepositoryPackage.URL":
			return konstStr("url of " + args[0].text()), true
		case "RepositoryPackage.Filename", "Package.Filename":
			return konstStr("file"), true
		case ".CompareVersions":
			stop("a comparison of versions outside of satisfies")
		}
		if g.Signature.Recv() != nil && g.Signature.Results().Len() == 0 && strings.HasPrefix(g.Name(), "Set") {
			return &av{k: 'n'}, true
		}
	}
	// how two candidates compare
	if res := cm.Signature(); res.Results().Len() == 1 && res.Params().Len() == 2 && !isStr(args[0]) && g == nil && !cm.IsInvoke() &&
		types.Identical(res.Params().At(0).Type(), res.Params().At(1).Type()) && types.Identical(res.Results().At(0).Type(), types.Typ[types.Int]) {
		r.nextIs++
		return &av{k: 's', key: fmt.Sprintf("comparison %d", r.nextIs)}, true
	}
	short := strings.TrimPrefix(name, "golang.org/x/exp/")
	switch short {
	case "slices.MinFunc", "slices.MaxFunc":
		if args[0].k != 'l' || args[0].n == 0 {
			stop("panic")
		}
		if r.texts(args[0]) {
			best := r.a.elem(args[0], konstInt(0))
			for i := 1; i < args[0].n; i++ {
				e := r.a.elem(args[0], konstInt(int64(i)))
				x, y := e, best
				if short == "slices.MaxFunc" {
					x, y = best, e
				}
				res := r.a.call(args[1].fn, []*av{x, y}, args[1].el)
				if r.a.truth(r.a.compare(token.LSS, res[0], konstInt(0))) {
					best = e
				}
			}
			return best, true
		}
		return r.a.elem(args[0], konstInt(int64(r.a.choose(args[0].n)))), true
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		if args[0].k != 'l' || args[0].n < 2 {
			return &av{k: 'n'}, true
		}
		el := args[0].cell.v.el[args[0].lo : args[0].lo+args[0].n]
		if !r.texts(args[0]) {
			// any of them may come first
			if i := r.a.choose(len(el)); i > 0 {
				e := el[i]
				copy(el[1:i+1], el[:i])
				el[0] = e
			}
			return &av{k: 'n'}, true
		}
		for i := 1; i < len(el); i++ {
			for j := i; j > 0; j-- {
				var less bool
				if strings.HasPrefix(short, "sort.") {
					res := r.a.call(args[1].fn, []*av{konstInt(int64(j)), konstInt(int64(j - 1))}, args[1].el)
					less = r.a.truth(res[0])
				} else {
					res := r.a.call(args[1].fn, []*av{el[j], el[j-1]}, args[1].el)
					less = r.a.truth(r.a.compare(token.LSS, res[0], konstInt(0)))
				}
				if !less {
					break
				}
				el[j], el[j-1] = el[j-1], el[j]
			}
		}
		return &av{k: 'n'}, true
	case "slices.Sort", "sort.Strings":
		if args[0].k == 'l' {
			el := args[0].cell.v.el[args[0].lo : args[0].lo+args[0].n]
			for _, e := range el {
				if !isStr(e) {
					stop("a list the analysis does not follow")
				}
			}
			slices.SortStableFunc(el, func(a, b *av) int { return strings.Compare(a.str(), b.str()) })
		}
		return &av{k: 'n'}, true
	case "slices.Clone":
		return r.copyList(args[0], nil), true
	case "slices.DeleteFunc":
		return r.copyList(args[0], func(e *av) bool {
			res := r.a.call(args[1].fn, []*av{e}, args[1].el)
			return !r.a.truth(res[0])
		}), true
	case "slices.ContainsFunc", "slices.IndexFunc":
		for i := 0; i < args[0].n; i++ {
			res := r.a.call(args[1].fn, []*av{r.a.elem(args[0], konstInt(int64(i)))}, args[1].el)
			if r.a.truth(res[0]) {
				if short == "slices.ContainsFunc" {
					return konstBool(true), true
				}
				return konstInt(int64(i)), true
			}
		}
		if short == "slices.ContainsFunc" {
			return konstBool(false), true
		}
		return konstInt(-1), true
	case "maps.Clone", "maps.Copy":
		if short == "maps.Copy" {
			if args[0].k == 'm' && args[1].k == 'm' {
				for i, k := range args[1].mp.keys {
					if args[0].mp.vals[k] == nil {
						args[0].mp.keys = append(args[0].mp.keys, k)
						args[0].mp.kv = append(args[0].mp.kv, args[1].mp.kv[i])
					}
					args[0].mp.vals[k] = args[1].mp.vals[k]
				}
			}
			return &av{k: 'n'}, true
		}
		if args[0].k == 'm' {
			var vs []*av
			for _, k := range args[0].mp.keys {
				vs = append(vs, args[0].mp.vals[k])
			}
			return r.mapOf(args[0].mp.elem, args[0].mp.kv, vs), true
		}
		return args[0], true
	case "maps.Keys", "maps.Values":
		if call.Call.Signature().Results().Len() == 1 {
			if _, ok := call.Type().Underlying().(*types.Slice); ok && args[0].k == 'm' {
				it := &av{k: 'a', el: []*av{args[0], {k: 'p', cell: &acell{v: konstInt(0), name: "keys"}}}}
				var out []*av
				for {
					e := r.a.nextEntry(it)
					if !e.el[0].boolv() {
						break
					}
					if short == "maps.Keys" {
						out = append(out, e.el[1])
					} else {
						out = append(out, e.el[2])
					}
				}
				return listOf("keys", out...), true
			}
		}
	case "fmt.Sprintf":
		if len(args) == 2 && isStr(args[0]) && args[1].k == 'l' {
			var vs []any
			for i := 0; i < args[1].n; i++ {
				e := r.a.elem(args[1], konstInt(int64(i)))
				switch {
				case isStr(e):
					vs = append(vs, e.str())
				case e.isInt():
					vs = append(vs, e.i64())
				default:
					vs = append(vs, e.text())
				}
			}
			return konstStr(fmt.Sprintf(args[0].str(), vs...)), true
		}
	case "errors.Join":
		return &av{k: 's', key: "error joined"}, true
	case "strings.CutPrefix":
		if isStr(args[0]) && isStr(args[1]) {
			s, ok := strings.CutPrefix(args[0].str(), args[1].str())
			return &av{k: 'a', el: []*av{konstStr(s), konstBool(ok)}}, true
		}
	}
	return nil, false
}

func (r *resolverRun) copyList(l *av, keep func(*av) bool) *av {
	if l.k == 'n' {
		return l
	}
	if l.k != 'l' {
		stop("a list the analysis does not follow")
	}
	out := &av{k: 'a'}
	for i := 0; i < l.n; i++ {
		e := l.cell.v.el[l.lo+i]
		if keep == nil || keep(e) {
			out.el = append(out.el, e)
		}
	}
	return &av{k: 'l', cell: &acell{v: out, name: "copy"}, n: len(out.el)}
}

// knownAs: an answer the path depends on is what is needed.
func (r *resolverRun) knownAs(key string, want bool) bool {
	lo, hi := r.a.bounds("?" + key)
	if lo == math.MinInt64 || lo != hi {
		return false
	}
	return (lo == 1) == want
}

// surely: version a parses and satisfies the constraint.
func (r *resolverRun) surely(k rcon, a string, want bool) bool {
	if a == "" {
		return !want
	}
	key := fmt.Sprintf("sat %d %s %s", r.dep[k.op], a, k.version)
	if want {
		return r.knownAs("bad version "+a, false) && r.knownAs("bad version "+k.version, false) && r.knownAs(key, true)
	}
	return r.knownAs("bad version "+a, true) || r.knownAs("bad version "+k.version, true) || r.knownAs(key, false)
}

func (r *resolverRun) provides(i int, name string) bool {
	if r.w.pkgs[i].name == name {
		return true
	}
	for _, s := range r.w.pkgs[i].provides {
		if parseRcon(s).name == name {
			return true
		}
	}
	return false
}

// acceptable: package i may be selected for the constraint.
func (r *resolverRun) acceptable(i int, con string, pin string) string {
	k := parseRcon(con)
	p := r.w.pkgs[i]
	if !r.provides(i, k.name) {
		return "it is neither named " + k.name + " nor provides it"
	}
	if at := r.pins[i]; at != "" && at != k.pin && at != pin {
		if j, ok := r.exist[k.name]; !ok || j != i {
			return "its repository is pinned as " + at
		}
	}
	if k.op == "" || r.surely(k, p.version, true) {
		return ""
	}
	for _, s := range p.provides {
		if v := parseRcon(s).version; v != "" && r.surely(k, v, true) {
			return ""
		}
	}
	return "no version of it is known to satisfy " + con
}

// excluded: the constraints rule package i out.
func (r *resolverRun) excluded(i int, cons []string) string {
	p := r.w.pkgs[i]
	for _, con := range cons {
		if x, ok := strings.CutPrefix(con, "!"); ok {
			k := parseRcon(x)
			if !r.provides(i, k.name) || r.pins[i] != "" && r.pins[i] != k.pin {
				continue
			}
			if k.op != "" && r.knownAs("bad version "+p.version, true) {
				continue // a package without a proper version cannot be compared
			}
			out := r.surely(k, p.version, false)
			for _, s := range p.provides {
				if v := parseRcon(s).version; v != "" && !r.surely(k, v, false) {
					out = false
				}
			}
			if k.op == "" || !out {
				return "it is excluded by " + con
			}
			continue
		}
		k := parseRcon(con)
		if k.op == "" {
			continue
		}
		if p.name == k.name {
			if !r.surely(k, p.version, true) {
				return "its version is not known to satisfy " + con
			}
			continue
		}
		for _, s := range p.provides {
			if q := parseRcon(s); q.name == k.name && !r.surely(k, q.version, true) {
				return "what it provides is not known to satisfy " + con
			}
		}
	}
	return ""
}

// conflicts: once package i is selected package j must not be.
func (r *resolverRun) conflicts(i, j int) bool {
	if i == j {
		return false
	}
	for _, s := range r.w.pkgs[i].provides {
		k := parseRcon(s)
		if !r.provides(j, k.name) {
			continue
		}
		if k.version != "" {
			return true
		}
		q := r.w.pkgs[j]
		if q.name == k.name {
			if q.version != "" {
				return true
			}
			continue
		}
		for _, t := range q.provides {
			if o := parseRcon(t); o.name == k.name {
				if o.version != "" {
					return true
				}
				break
			}
		}
	}
	return false
}

func (r *resolverRun) judge(roots []int, deps []int) string {
	w := r.w
	label := func(i int) string { return "package " + itoa(i) + " (" + w.pkgs[i].name + ")" }
	all := append(append([]int{}, roots...), deps...)
	rootPin := ""
	var wanted []string
	for _, c := range w.roots {
		if !strings.HasPrefix(c, "!") {
			wanted = append(wanted, c)
			if p := parseRcon(c).pin; p != "" {
				rootPin = p
			}
		}
	}
	for _, i := range all {
		if r.dqed[i] {
			return label(i) + " is selected although it was disqualified from the start"
		}
	}
	if w.entry == "offer" {
		for _, i := range roots {
			if why := r.acceptable(i, w.roots[0], ""); why != "" {
				return label(i) + " is offered although " + why
			}
		}
		return ""
	}
	for _, i := range all {
		why := ""
		ok := false
		for _, c := range wanted {
			if slices.Contains(deps, i) && w.entry == "one" {
				continue
			}
			if s := r.acceptable(i, c, ""); s == "" {
				ok = true
			} else if why == "" || strings.Contains(why, "neither") {
				why = s
			}
		}
		if slices.Contains(deps, i) {
			for _, j := range all {
				for _, c := range w.pkgs[j].deps {
					if strings.HasPrefix(c, "!") {
						continue
					}
					if s := r.acceptable(i, c, rootPin); s == "" {
						ok = true
					} else if why == "" || strings.Contains(why, "neither") {
						why = s
					}
				}
			}
			if len(w.pkgs[i].installIf) > 0 {
				ok = true
			}
		}
		if !ok {
			return label(i) + " is selected although " + why
		}
	}
	for _, ap := range w.applies {
		if !slices.Contains(all, ap[1]) || ap[0] >= 0 && !slices.Contains(all, ap[0]) {
			continue
		}
		cons, of := w.roots, "the request"
		if ap[0] >= 0 {
			cons, of = w.pkgs[ap[0]].deps, label(ap[0])
		}
		if why := r.excluded(ap[1], cons); why != "" {
			return label(ap[1]) + " is selected after the constraints of " + of + " although " + why
		}
	}
	for _, i := range all {
		for _, j := range all {
			if r.conflicts(i, j) && (r.conflicts(j, i) || slices.Contains(w.before, [2]int{i, j})) {
				return label(j) + " and " + label(i) + " are both selected although they conflict"
			}
		}
	}
	return ""
}

func (r *resolverRun) world(w *rworld) {
	c, p := r.c, r.p
	r.w = w
	a := newAbsint(p)
	r.a = a
	a.ptrs = true
	a.limit = 60000
	a.rules = r.rules
	prefix := "(*pkg/apk.PkgResolver)."
	newFn := c.Fn("pkg/apk.NewPkgResolver")
	var fn *ssa.Function
	switch w.entry {
	case "offer":
		fn = c.Fn(prefix + "ResolvePackage")
	case "one":
		fn = c.Fn(prefix + "GetPackageWithDependencies")
	case "all":
		fn = c.Fn(prefix + "GetPackagesWithDependencies")
	}
	if fn == nil || newFn == nil {
		return
	}
	good, bad := 0, ""
	why := map[string]int{}
	var res []*av
	paths, complete := a.paths(func() {
		r.nextIs = 0
		idx := r.build()
		resolver := a.call(newFn, []*av{{k: 's', key: "context"}, listOf("indexes", idx...)}, nil)[0]
		var dk, dv, ek, ev []*av
		for i, d := range r.dqed {
			if d {
				dk, dv = append(dk, r.ptr(i)), append(dv, konstStr("reason"))
			}
		}
		for n, i := range r.exist {
			ek, ev = append(ek, konstStr(n)), append(ev, r.ptr(i))
		}
		str := types.Typ[types.String]
		dq := r.mapOf(str, dk, dv)
		ex := r.mapOf(types.NewPointer(r.typ("RepositoryPackage")), ek, ev)
		switch w.entry {
		case "offer":
			res = a.call(fn, []*av{resolver, konstStr(w.roots[0]), dq}, nil)
		case "one":
			res = a.call(fn, []*av{resolver, konstStr(w.roots[0]), ex, dq}, nil)
		case "all":
			res = a.call(fn, []*av{resolver, {k: 's', key: "context"}, strList("roots", w.roots)}, nil)
		}
	}, func() {
		if res[len(res)-1].k != 'n' {
			return
		}
		good++
		var roots, deps []int
		take := func(l *av, to *[]int) {
			if l.k == 'n' {
				return
			}
			if l.k != 'l' {
				why["a list the analysis does not follow: "+l.text()]++
				return
			}
			for i := 0; i < l.n; i++ {
				n := r.which(l.cell.v.el[l.lo+i])
				if n < 0 {
					why["a package the analysis does not know: "+l.text()]++
					return
				}
				*to = append(*to, n)
			}
		}
		switch w.entry {
		case "offer":
			take(res[0], &roots)
		case "one":
			take(listOf("root", res[0]), &roots)
			take(res[1], &deps)
		case "all":
			take(res[0], &deps)
		}
		if bad == "" {
			if s := r.judge(roots, deps); s != "" {
				bad = s + r.given()
			}
		}
	}, func(s string) {
		if s != "panic" {
			why[s]++
		}
	})
	for f := range a.fn {
		c.Funcs[f] = true
	}
	pos := p.pos(fn.Pos())
	rule := map[string]string{"offer": "only acceptable candidates are offered", "one": "only acceptable packages are selected", "all": "only acceptable packages are selected"}[w.entry]
	detail := fmt.Sprintf("%d paths, %d without an error", paths, good)
	if os.Getenv("CHK_DEBUG") != "" {
		fmt.Println("DBG", w.name, detail, why)
	}
	switch {
	case bad != "":
		c.Bad(rule, w.name, pos, bad)
	case len(why) > 0 || !complete:
		for s := range why {
			detail += "; " + s
		}
		c.Undecided(rule, w.name, pos, detail)
	case good == 0 && !w.mayFail:
		c.Undecided(rule, w.name, pos, "no path ends without an error")
	default:
		c.OK(rule, w.name, pos, detail)
	}
}

func (r *resolverRun) given() string {
	var s []string
	for i, p := range r.pins {
		if r.w.pkgs[i].index == "?" {
			s = append(s, fmt.Sprintf("package %d comes from %q", i, p))
		}
	}
	for k, v := range r.a.ival {
		if strings.HasPrefix(k, "?") && v[0] == v[1] {
			s = append(s, fmt.Sprintf("%s: %v", k[1:], v[0] == 1))
		}
	}
	slices.Sort(s)
	if len(s) > 8 {
		s = s[:8]
	}
	if len(s) == 0 {
		return ""
	}
	return " [" + strings.Join(s, ", ") + "]"
}

func runResolver(c *Ctx) {
	p := c.P
	r := &resolverRun{c: c, p: p, dep: map[string]int64{}}
	anchor := c.Fn("pkg/apk.NewPkgResolver")
	if anchor == nil {
		return
	}
	r.pkg = anchor.Pkg.Pkg
	for op, n := range map[string]string{"": "versionAny", "=": "versionEqual", ">": "versionGreater", "<": "versionLess"} {
		o, ok := r.pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.Undecided("operators", n, "", "the constant is gone")
			return
		}
		r.dep[op], _ = constant.Int64Val(o.Val())
	}
	c.Rule("R1 offered: whatever ResolvePackage returns is not disqualified, has the wanted name or provides it, comes from a pinned repository only when the constraint has that pin, and has a version (its own, or a provided one) that parses and satisfies a versioned constraint")
	c.Rule("R2 selected: the same for every package that GetPackageWithDependencies and GetPackagesWithDependencies select for a constraint of the request or of a selected package; dependencies may also come from the repository the request is pinned to, or be the package already selected under that name")
	c.Rule("R3 constrained: the versioned and the excluding constraints of the request and of every package on the way to it rule out a package before it is selected")
	c.Rule("R4 conflicts: once a package is selected, none that conflicts with what it provides is selected after it")
	for i := range resolverWorlds {
		r.world(&resolverWorlds[i])
	}
	for _, n := range []string{"only acceptable candidates are offered", "only acceptable packages are selected"} {
		c.AtLeast(n, 4, "families")
	}
}

// texts reports whether the list holds known texts only.
func (r *resolverRun) texts(l *av) bool {
	if l.k != 'l' {
		return false
	}
	for i := 0; i < l.n; i++ {
		if !isStr(r.a.elem(l, konstInt(int64(i)))) {
			return false
		}
	}
	return true
}
