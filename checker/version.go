package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", checkC19,
		"regexp matches a group that takes part in the match against the language of that group")
}

var preOrder = []string{"_alpha", "_beta", "_pre", "_rc", ""}
var postOrder = []string{"", "_cvs", "_svn", "_git", "_hg", "_p"}

// language: the texts a small regular expression matches; nil if there are too many.
func language(re *syntax.Regexp) []string {
	switch re.Op {
	case syntax.OpEmptyMatch:
		return []string{""}
	case syntax.OpLiteral:
		return []string{string(re.Rune)}
	case syntax.OpCapture:
		return language(re.Sub[0])
	case syntax.OpQuest:
		l := language(re.Sub[0])
		if l == nil {
			return nil
		}
		return append([]string{""}, l...)
	case syntax.OpCharClass:
		var out []string
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
				out = append(out, string(r))
				if len(out) > 30 {
					return nil
				}
			}
		}
		return out
	case syntax.OpAlternate:
		var out []string
		for _, s := range re.Sub {
			l := language(s)
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
		return out
	case syntax.OpConcat:
		out := []string{""}
		for _, s := range re.Sub {
			l := language(s)
			if l == nil || len(l)*len(out) > 100 {
				return nil
			}
			var n []string
			for _, a := range out {
				for _, b := range l {
					n = append(n, a+b)
				}
			}
			out = n
		}
		return out
	}
	return nil
}

type reGroup struct {
	idx  int
	re   *syntax.Regexp
	lang map[string]bool
}

func groupsOf(src string) []reGroup {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil
	}
	var out []reGroup
	var rec func(r *syntax.Regexp)
	rec = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture {
			g := reGroup{idx: r.Cap, re: r.Sub[0]}
			if l := language(r.Sub[0]); l != nil {
				g.lang = map[string]bool{}
				for _, s := range l {
					g.lang[s] = true
				}
			}
			out = append(out, g)
		}
		for _, s := range r.Sub {
			rec(s)
		}
	}
	rec(re)
	sort.Slice(out, func(i, j int) bool { return out[i].idx < out[j].idx })
	return out
}

// matchRules: the outcome of matching a text against a known expression.
func matchRules(used map[string]bool) func(call *ssa.Call, name string, args []*av) (*av, bool) {
	return func(call *ssa.Call, name string, args []*av) (*av, bool) {
		if !strings.HasPrefix(name, "(*regexp.Regexp).") || len(args) == 0 || args[0].k != 's' || !strings.HasPrefix(args[0].key, "regexp:") {
			return nil, false
		}
		used[strings.TrimPrefix(args[0].key, "regexp:")] = true
		switch strings.TrimPrefix(name, "(*regexp.Regexp).") {
		case "FindAllStringSubmatch":
			return &av{k: 's', key: "matches"}, true
		case "FindStringSubmatch":
			return &av{k: 's', key: "matches[0]"}, true
		case "NumSubexp":
			return konstInt(int64(len(groupsOf(strings.TrimPrefix(args[0].key, "regexp:"))))), true
		case "SubexpIndex":
			if re, err := syntax.Parse(strings.TrimPrefix(args[0].key, "regexp:"), syntax.Perl); err == nil && args[1].k == 'k' {
				for i, n := range re.CapNames() {
					if n == args[1].str() {
						return konstInt(int64(i)), true
					}
				}
			}
		}
		return nil, false
	}
}

type verCheck struct {
	c       *Ctx
	p       *Prog
	a       *absint
	ver     *types.Named
	st      *types.Struct
	numbers int
	letter  int
	pre     int
	preNum  int
	post    int
	postNum int
	rev     int
	preVal  map[string]constant.Value
	postVal map[string]constant.Value
	ret     map[int64]constant.Value // -1, 0, 1: what the comparison returns
}

func group(i int) string { return "matches[0][" + itoa(i) + "]" }

func checkC19(c *Ctx) {
	c.Rule("every suffix spelling the version grammar accepts is given a constant rank by the parser, each numeric field is the number matched after it, and the components are kept in the order in which they are written")
	c.Rule("on every path of the comparison, for every combination of suffix ranks, the sign of the result is the one the first differing component requires, in the order: numeric components, their count, letter, pre-release suffix (none last), its number, post-release suffix (none first), its number, revision; and the result is zero only if every component is known to be equal")
	c.Rule("every spelling of a relational operator, through the operator it is parsed to, accepts exactly the outcomes of the comparison that it names; the spellings of the fuzzy operator share one operator of their own")
	c.Rule("no round of a loop over the components is treated differently from the others")
	v := &verCheck{c: c, p: c.P, numbers: -1, letter: -1, pre: -1, preNum: -1, post: -1, postNum: -1, rev: -1,
		preVal: map[string]constant.Value{}, postVal: map[string]constant.Value{}, ret: map[int64]constant.Value{}}
	parse, cmp := c.Fn("pkg/apk.ParseVersion"), c.Fn("pkg/apk.CompareVersions")
	if parse == nil || cmp == nil {
		return
	}
	v.a = newAbsint(c.P)
	v.a.initGlobals(parse.Pkg)
	if len(cmp.Params) == 2 {
		v.ver, _ = deref(cmp.Params[0].Type()).(*types.Named)
	}
	if v.ver == nil {
		c.Undecided("compare", "CompareVersions", c.P.pos(cmp.Pos()), "its arguments are not versions")
		return
	}
	v.st, _ = v.ver.Underlying().(*types.Struct)
	if v.st == nil || !v.parser(parse) {
		return
	}
	v.comparison(cmp)
	v.operators(cmp)
	for f := range v.a.fn {
		c.Funcs[f] = true
	}
	c.AtLeast("rank", 9, "suffix spellings")
	c.AtLeast("compare", 900, "combinations of suffixes")
	c.AtLeast("operator", 9, "operator spellings")
}

// parser: what each field of a parsed version is.
func (v *verCheck) parser(fn *ssa.Function) bool {
	c := v.c
	pos := c.P.pos(fn.Pos())
	used := map[string]bool{}
	v.a.rules = matchRules(used)
	// which expression
	v.a.explore(fn, func() []*av { return []*av{v.a.name("text")} }, func([]*av) {}, func(string) {})
	var src string
	for s := range used {
		for _, g := range groupsOf(s) {
			if g.lang["_alpha"] {
				src = s
			}
		}
	}
	if src == "" {
		c.Undecided("rank", "version grammar", pos, "no regular expression with the suffixes is matched")
		return false
	}
	gs := groupsOf(src)
	pg, qg, lg := -1, -1, -1
	for _, g := range gs {
		switch {
		case g.lang["_alpha"]:
			pg = g.idx
		case g.lang["_p"]:
			qg = g.idx
		case g.lang != nil && g.lang["a"] && g.lang["z"]:
			lg = g.idx
		}
	}
	if pg < 0 || qg < 0 || lg < 0 {
		c.Undecided("rank", "version grammar", pos, "the groups of the suffixes and the letter are not found")
		return false
	}
	for _, w := range []struct {
		g    int
		want []string
		what string
	}{{pg, preOrder, "pre-release"}, {qg, postOrder, "post-release"}} {
		var extra []string
		have := gs[w.g-1].lang
		known := map[string]bool{"": true}
		for _, s := range w.want {
			known[s] = true
			c.Check(s == "" || have[s], "rank", "grammar accepts "+w.what+" suffix "+s, pos, "it does not")
		}
		for s := range have {
			if !known[s] {
				extra = append(extra, s)
			}
		}
		sort.Strings(extra)
		c.Check(len(extra) == 0, "rank", "grammar of "+w.what+" suffixes", pos, "accepts suffixes without a documented order: "+strings.Join(extra, " "))
	}
	v.a.conc["len(matches[0])"] = constant.MakeInt64(int64(len(gs) + 1))
	type seenT map[string]bool
	seen := make([]seenT, v.st.NumFields())
	for i := range seen {
		seen[i] = seenT{}
	}
	preSeen, postSeen := make([]map[string]string, len(seen)), make([]map[string]string, len(seen))
	for i := range seen {
		preSeen[i], postSeen[i] = map[string]string{}, map[string]string{}
	}
	accepted := map[string]bool{}
	bad := ""
	for _, ps := range preOrder {
		for _, qs := range postOrder {
			v.a.conc[group(pg)] = constant.MakeString(ps)
			v.a.conc[group(qg)] = constant.MakeString(qs)
			_, complete := v.a.explore(fn, func() []*av { return []*av{v.a.name("text")} }, func(res []*av) {
				if len(res) != 2 || res[1].k != 'n' {
					return
				}
				if res[0].k == 'p' {
					res[0] = v.a.load(res[0])
				}
				if res[0].k != 'a' || len(res[0].el) != len(seen) {
					bad = "the parsed version is not followed"
					return
				}
				accepted[ps+"|"+qs] = true
				for i, e := range res[0].el {
					t := e.text()
					seen[i][t] = true
					if o, ok := preSeen[i][ps]; ok && o != t {
						t = "?"
					}
					preSeen[i][ps] = t
					t = e.text()
					if o, ok := postSeen[i][qs]; ok && o != t {
						t = "?"
					}
					postSeen[i][qs] = t
					if e.k == 'l' {
						v.inOrder(e, pos)
					}
				}
			}, func(string) {})
			if !complete {
				bad = "too many paths"
			}
		}
	}
	delete(v.a.conc, group(pg))
	delete(v.a.conc, group(qg))
	if bad != "" {
		c.Undecided("rank", "ParseVersion", pos, bad)
		return false
	}
	atoi := func(i int, g int) bool {
		for t := range seen[i] {
			if t != "0" && !(strings.HasPrefix(t, "strconv.") && strings.Contains(t, "("+group(g))) {
				return false
			}
		}
		return len(seen[i]) == 2
	}
	last := gs[len(gs)-1].idx
	for i := range seen {
		if _, ok := v.st.Field(i).Type().Underlying().(*types.Slice); ok {
			v.numbers = i
			continue
		}
		switch {
		case atoi(i, pg+1):
			v.preNum = i
		case atoi(i, qg+1):
			v.postNum = i
		case atoi(i, last):
			v.rev = i
		case seen[i]["0"] && seen[i][group(lg)+"[0]"] && v.letterOnly(seen[i], group(lg)):
			v.letter = i
		default:
			ranks := func(m map[string]string, order []string) map[string]constant.Value {
				out := map[string]constant.Value{}
				for _, s := range order {
					t, ok := m[s]
					if !ok {
						return nil
					}
					k := constant.MakeFromLiteral(strings.TrimPrefix(t, "-"), 5, 0)
					if k.Kind() != constant.Int {
						return nil
					}
					if strings.HasPrefix(t, "-") {
						k = constant.UnaryOp(13, k, 0)
					}
					out[s] = k
				}
				return out
			}
			if r := ranks(preSeen[i], preOrder); r != nil && len(seen[i]) > 1 {
				v.pre, v.preVal = i, r
			} else if r := ranks(postSeen[i], postOrder); r != nil && len(seen[i]) > 1 {
				v.post, v.postVal = i, r
			}
		}
	}
	for _, w := range []struct {
		i    int
		what string
	}{{v.numbers, "list of numeric components"}, {v.letter, "letter"}, {v.pre, "rank of the pre-release suffix"}, {v.preNum, "number of the pre-release suffix"}, {v.post, "rank of the post-release suffix"}, {v.postNum, "number of the post-release suffix"}, {v.rev, "revision"}} {
		c.Check(w.i >= 0, "parse", "field for the "+w.what, pos, "no field of the parsed version holds it")
		if w.i < 0 {
			bad = "x"
		}
	}
	if bad != "" {
		return false
	}
	for _, ps := range preOrder {
		c.Check(v.preVal[ps] != nil, "rank", "pre-release suffix "+ps, pos, "no constant rank")
	}
	for _, qs := range postOrder {
		c.Check(v.postVal[qs] != nil, "rank", "post-release suffix "+qs, pos, "no constant rank")
	}
	for _, ps := range preOrder {
		for _, qs := range postOrder {
			c.Check(accepted[ps+"|"+qs], "rank", "suffixes "+ps+" "+qs, pos, "the grammar accepts them but the parser never does")
		}
	}
	return true
}

// letterOnly: nothing but characters of the group, of which it has at most one.
func (v *verCheck) letterOnly(seen map[string]bool, g string) bool {
	for t := range seen {
		if t != "0" && !strings.HasPrefix(t, g+"[") {
			return false
		}
	}
	return true
}

// inOrder: the components appear in the list as they are written.
func (v *verCheck) inOrder(e *av, pos string) {
	prev := map[string]string{}
	ok := true
	seen := map[string]bool{}
	for i := 0; i < e.n; i++ {
		t := e.cell.v.el[e.lo+i].text()
		if seen[t] {
			ok = false
		}
		seen[t] = true
		j := strings.LastIndex(t, "[")
		if j < 0 {
			continue
		}
		base, idx := t[:j], t[j:]
		if k := strings.Index(idx, "]"); k > 0 {
			idx = idx[1:k]
		}
		if o, has := prev[base]; has && (len(idx) < len(o) || len(idx) == len(o) && idx <= o) {
			ok = false
		}
		prev[base] = idx
	}
	if e.n > 0 {
		first := e.cell.v.el[e.lo].text()
		for i := 1; i < e.n; i++ {
			if strings.Contains(e.cell.v.el[e.lo+i].text(), "("+group(1)+")") && !strings.Contains(first, "("+group(1)+")") {
				ok = false
			}
		}
	}
	v.c.Check(ok, "parse", "order of the numeric components", pos, "they are not kept in the order in which they are written: "+e.text())
}

func (v *verCheck) version(name string) *av {
	o := &av{k: 'a'}
	for i := 0; i < v.st.NumFields(); i++ {
		o.el = append(o.el, v.a.named(name+"."+itoa(i)))
	}
	return o
}

func (v *verCheck) arg(p *ssa.Parameter, name string) *av {
	o := v.version(name)
	if _, ok := p.Type().Underlying().(*types.Pointer); ok {
		return &av{k: 'p', cell: &acell{v: o, name: name}}
	}
	return o
}

func (v *verCheck) field(name string, i int) *av { return v.a.named(name + "." + itoa(i)) }

// required: the outcomes the components allow, given what is known of them: 1 less, 2 equal, 4 greater.
func (v *verCheck) required(ps1, ps2, qs1, qs2 string) uint8 {
	a := v.a
	out := uint8(0)
	cont := func(m uint8) bool {
		out |= m &^ 2
		return m&2 != 0
	}
	na, nb := v.field("A", v.numbers), v.field("B", v.numbers)
	la, lb := a.length(na), a.length(nb)
	lenRel := a.relation(la, lb)
	al, ah := a.bounds(la.key)
	bl, bh := a.bounds(lb.key)
	more := true
	for i := int64(0); ; i++ {
		if ah <= i || bh <= i {
			break // one list has certainly ended
		}
		if al <= i || bl <= i {
			// one may have ended: the relation of the counts decides in that case
			m := lenRel
			if al > i {
				m &^= 1
			}
			if bl > i {
				m &^= 4
			}
			out |= m &^ 2
			if i > 8 {
				return 7
			}
		}
		ka, kb := v.a.named(na.key+"["+itoa(int(i))+"]"), v.a.named(nb.key+"["+itoa(int(i))+"]")
		if !cont(a.relation(ka, kb)) {
			more = false
			break
		}
		if i > 8 {
			return 7
		}
	}
	if !more {
		return out
	}
	if !cont(lenRel) {
		return out
	}
	rank := func(order []string, s string) int {
		for i, o := range order {
			if o == s {
				return i
			}
		}
		return -1
	}
	cmp := func(x, y int) uint8 {
		switch {
		case x < y:
			return 1
		case x > y:
			return 4
		}
		return 2
	}
	steps := []func() uint8{
		func() uint8 { return a.relation(v.field("A", v.letter), v.field("B", v.letter)) },
		func() uint8 { return cmp(rank(preOrder, ps1), rank(preOrder, ps2)) },
		func() uint8 { return a.relation(v.field("A", v.preNum), v.field("B", v.preNum)) },
		func() uint8 { return cmp(rank(postOrder, qs1), rank(postOrder, qs2)) },
		func() uint8 { return a.relation(v.field("A", v.postNum), v.field("B", v.postNum)) },
		func() uint8 { return a.relation(v.field("A", v.rev), v.field("B", v.rev)) },
	}
	for _, s := range steps {
		if !cont(s()) {
			return out
		}
	}
	return out | 2
}

func (v *verCheck) fix(ps1, ps2, qs1, qs2 string) {
	v.a.conc["A."+itoa(v.pre)] = v.preVal[ps1]
	v.a.conc["B."+itoa(v.pre)] = v.preVal[ps2]
	v.a.conc["A."+itoa(v.post)] = v.postVal[qs1]
	v.a.conc["B."+itoa(v.post)] = v.postVal[qs2]
}

func (v *verCheck) comparison(fn *ssa.Function) {
	c := v.c
	pos := c.P.pos(fn.Pos())
	v.a.rules = nil
	names := map[uint8]string{1: "less", 2: "equal", 4: "greater"}
	total := 0
	for _, ps1 := range preOrder {
		for _, ps2 := range preOrder {
			for _, qs1 := range postOrder {
				for _, qs2 := range postOrder {
					v.fix(ps1, ps2, qs1, qs2)
					what := "[" + ps1 + qs1 + "] against [" + ps2 + qs2 + "]"
					bad, und := "", ""
					n, complete := v.a.explore(fn, func() []*av { return []*av{v.arg(fn.Params[0], "A"), v.arg(fn.Params[1], "B")} },
						func(res []*av) {
							if len(res) != 1 || !res[0].isInt() {
								und = "the result is not a constant: " + res[0].text()
								return
							}
							var got uint8 = 2
							s := int64(constant.Sign(res[0].c))
							if s < 0 {
								got = 1
							} else if s > 0 {
								got = 4
							}
							if o := v.ret[s]; o != nil && !constant.Compare(o, 39, res[0].c) {
								und = "several results mean the same"
							}
							v.ret[s] = res[0].c
							if want := v.required(ps1, ps2, qs1, qs2); want != got {
								var w []string
								for _, m := range []uint8{1, 2, 4} {
									if want&m != 0 {
										w = append(w, names[m])
									}
								}
								if bad == "" {
									bad = "answers " + names[got] + " where the components allow " + strings.Join(w, ", ") + " (" + v.known() + ")"
								}
							}
						}, func(why string) {
							if why != "panic" && why != "bound" {
								und = why
							}
						})
					total += n
					if !complete {
						und = "too many paths"
					}
					switch {
					case und != "":
						c.Undecided("compare", what, pos, und)
					default:
						c.Check(bad == "", "compare", what, pos, bad)
					}
					if und != "" {
						return
					}
				}
			}
		}
	}
	c.OK("paths", "CompareVersions", pos, itoa(total)+" paths")
}

func (v *verCheck) known() string {
	var out []string
	for k, m := range v.a.rel {
		p := strings.SplitN(k, "|", 2)
		out = append(out, p[0]+[]string{"?", "<", "=", "<=", ">", "!=", ">=", "?"}[m&7]+p[1])
	}
	sort.Strings(out)
	s := strings.Join(out, ", ")
	for i := 0; i < v.st.NumFields(); i++ {
		for _, n := range []string{"A", "B"} {
			s = strings.ReplaceAll(s, n+"."+itoa(i), n+"."+v.st.Field(i).Name())
		}
	}
	return s
}

var operatorTable = []struct {
	text string
	acc  uint8
}{
	{"=", 2}, {">", 4}, {"<", 1}, {">=", 6}, {"=>", 6}, {"<=", 3}, {"=<", 3}, {"~", 8}, {"~=", 8}, {"=~", 8},
}

// operators: spelling, parsed operator and accepted outcomes.
func (v *verCheck) operators(cmp *ssa.Function) {
	c := v.c
	// the functions that decide whether a version satisfies a constraint
	type dec struct {
		fn       *ssa.Function
		op       int
		vers     []int
		outcome  int
		operator *types.Named
	}
	var decs []dec
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Results().Len() != 1 {
			continue
		}
		if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		d := dec{fn: f, op: -1, outcome: -1}
		for i, p := range f.Params {
			if n, ok := deref(p.Type()).(*types.Named); ok && n == v.ver {
				d.vers = append(d.vers, i)
				continue
			}
			if n, ok := p.Type().(*types.Named); ok {
				if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.p.inModule(f) && n.Obj().Pkg() == v.ver.Obj().Pkg() {
					d.op, d.operator = i, n
					continue
				}
			}
			if b, ok := p.Type().(*types.Basic); ok && b.Kind() == types.Int {
				d.outcome = i
			}
		}
		if d.op >= 0 && len(f.Params) == 3 && len(d.vers) == 2 || d.op >= 0 && len(f.Params) == 2 && d.outcome >= 0 {
			decs = append(decs, d)
		}
	}
	if len(decs) == 0 {
		c.Undecided("operator", "satisfies", "", "no function decides whether a version satisfies an operator")
		return
	}
	opT := decs[0].operator
	// the functions that parse an operator
	var parsers []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Params) == 0 {
			continue
		}
		str := false
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				str = true
			}
		}
		if !str {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := deref(f.Signature.Results().At(i).Type())
			has := types.Identical(t, opT)
			if st, ok := t.Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if types.Identical(st.Field(j).Type(), opT) {
						has = true
					}
				}
			}
			if has {
				parsers = append(parsers, f)
				break
			}
		}
	}
	found := 0
	for _, f := range parsers {
		ops := v.spellings(f, opT)
		if ops == nil {
			continue
		}
		found++
		fuzzy := ""
		for _, w := range operatorTable {
			got := ops[w.text]
			what := "operator " + w.text
			pos := c.P.pos(f.Pos())
			if len(got) != 1 {
				c.Bad("operator", what, pos, itoa(len(got))+" meanings are possible for this spelling")
				continue
			}
			val := got[0]
			if w.acc == 8 {
				if fuzzy == "" {
					fuzzy = val.ExactString()
				}
				own := fuzzy == val.ExactString()
				for _, o := range operatorTable {
					if o.acc != 8 && len(ops[o.text]) == 1 && ops[o.text][0].ExactString() == val.ExactString() {
						own = false
					}
				}
				c.Check(own, "operator", what, pos, "not the fuzzy operator")
				continue
			}
			for _, d := range decs {
				if d.operator != opT {
					continue
				}
				acc, und := v.accepts(d.fn, d.op, d.vers, d.outcome, val, cmp)
				if und != "" {
					c.Undecided("operator", what, c.P.pos(d.fn.Pos()), und)
					continue
				}
				c.Check(acc == w.acc, "operator", what, c.P.pos(d.fn.Pos()), "accepts"+relText(acc)+" instead of"+relText(w.acc))
			}
		}
	}
	if found == 0 {
		c.Undecided("operator", "spelling", "", "no function maps operator spellings")
	}
}

func relText(m uint8) string {
	s := ""
	for i, n := range []string{" lower", " equal", " greater"} {
		if m&(1<<i) != 0 {
			s += n
		}
	}
	if s == "" {
		return " nothing"
	}
	return s
}

// spellings: the operators each spelling may be parsed to; nil if the function does not look at spellings.
func (v *verCheck) spellings(f *ssa.Function, opT types.Type) map[string][]constant.Value {
	used := map[string]bool{}
	v.a.conc = map[string]constant.Value{}
	v.a.rules = matchRules(used)
	args := func() []*av {
		var out []*av
		for i := range f.Params {
			out = append(out, v.a.name("p"+itoa(i)))
		}
		return out
	}
	v.a.explore(f, args, func([]*av) {}, func(string) {})
	og, ng := -1, 0
	for s := range used {
		for _, g := range groupsOf(s) {
			if g.re.Op == syntax.OpPlus || g.re.Op == syntax.OpStar || g.re.Op == syntax.OpCharClass {
				sub := g.re
				if sub.Op != syntax.OpCharClass {
					sub = sub.Sub[0]
				}
				l := language(sub)
				isOp := len(l) > 0
				for _, x := range l {
					if !strings.Contains("=<>~!", x) {
						isOp = false
					}
				}
				if isOp {
					og, ng = g.idx, len(groupsOf(s))
				}
			}
		}
	}
	key := group(og)
	if og < 0 {
		// a function of the spelling alone
		if len(f.Params) != 1 {
			return nil
		}
		key = "p0"
	} else {
		v.a.conc["len(matches[0])"] = constant.MakeInt64(int64(ng + 1))
		v.a.conc["len(matches)"] = constant.MakeInt64(1)
	}
	out := map[string][]constant.Value{}
	consts := map[string]bool{}
	for _, w := range operatorTable {
		v.a.conc[key] = constant.MakeString(w.text)
		have := map[string]bool{}
		v.a.explore(f, args, func(res []*av) {
			for i, r := range res {
				t := deref(f.Signature.Results().At(i).Type())
				if r.k == 'p' {
					r = v.a.load(r)
				}
				var o *av
				if types.Identical(t, opT) {
					o = r
				} else if st, ok := t.Underlying().(*types.Struct); ok && r.k == 'a' {
					for j := 0; j < st.NumFields(); j++ {
						if types.Identical(st.Field(j).Type(), opT) {
							o = r.el[j]
						}
					}
				}
				if o == nil {
					continue
				}
				c := constant.MakeString("?")
				if o.isInt() {
					c = o.c
				}
				if !have[c.ExactString()] {
					have[c.ExactString()] = true
					consts[c.ExactString()] = true
					out[w.text] = append(out[w.text], c)
				}
			}
		}, func(string) {})
	}
	v.a.conc = map[string]constant.Value{}
	if og < 0 && len(consts) < 3 {
		return nil // not a function of the spelling
	}
	return out
}

// accepts: the outcomes of the comparison with which the operator is satisfied.
func (v *verCheck) accepts(f *ssa.Function, op int, vers []int, outcome int, val constant.Value, cmp *ssa.Function) (uint8, string) {
	und := ""
	var yes, no uint8
	var chosen int
	v.a.conc = map[string]constant.Value{}
	pick := func() *av {
		chosen = v.a.choose(3)
		r := v.ret[int64(chosen-1)]
		if r == nil {
			return konstInt(int64(chosen - 1))
		}
		return konst(r)
	}
	decided := false
	v.a.rules = func(call *ssa.Call, name string, args []*av) (*av, bool) {
		if call.Call.StaticCallee() != cmp {
			return nil, false
		}
		text := func(x *av) string {
			if x.k == 'p' {
				x = v.a.load(x)
			}
			return x.text()
		}
		a, b := text(args[0]), text(args[1])
		if decided {
			stop("compared twice")
		}
		decided = true
		r := pick()
		switch {
		case a == v.version("A").text() && b == v.version("B").text():
		case b == v.version("A").text() && a == v.version("B").text():
			chosen = 2 - chosen
		default:
			stop("other versions are compared")
		}
		return r, true
	}
	v.a.explore(f, func() []*av {
		decided = false
		chosen = -1
		out := make([]*av, len(f.Params))
		out[op] = konst(val)
		if len(vers) == 2 {
			out[vers[0]], out[vers[1]] = v.arg(f.Params[vers[0]], "A"), v.arg(f.Params[vers[1]], "B")
		} else {
			out[outcome] = pick()
		}
		return out
	}, func(res []*av) {
		if len(res) != 1 || res[0].k != 'k' {
			und = "the answer is not followed: " + res[0].text()
			return
		}
		m := uint8(7)
		if chosen >= 0 {
			m = 1 << chosen
		}
		if res[0].boolv() {
			yes |= m
		} else {
			no |= m
		}
	}, func(why string) {
		if why != "panic" {
			und = why
		}
	})
	if und == "" && yes&no != 0 {
		und = "the answer depends on more than the comparison"
	}
	v.a.rules = nil
	return yes, und
}
