package main

import (
	"go/types"
	"math"
	"sort"
	"strings"
)

func init() {
	register("C16", checkC16,
		"the texts written (names, descriptions and so on) do not contain the line break or separator of the format, nor surrounding blanks",
		"the entries of a package are ordered so that a file follows its directory (C20 covers the ordering)",
		"library encoders and decoders are inverse to each other; reads and writes of streams succeed")
}

// A writer is interpreted with values known by name only; what it emits is handed to the reader of
// the format, and each field must come back as the value it was written from.

type formats struct {
	c *Ctx
	t *textio
}

// named: an unknown value of a type. how: 0 anything, 1 not empty, 2 the zero value.
func (f *formats) value(ty types.Type, key string, how int) *av {
	t := f.t
	if how == 2 {
		if _, ok := ty.Underlying().(*types.Struct); ok {
			v := &av{k: 's', key: key}
			t.a.ival["?"+key+" is zero"] = [2]int64{1, 1}
			return v
		}
		return t.a.zero(ty)
	}
	t.a.types[key] = ty
	v := &av{k: 's', key: key}
	if how == 1 {
		switch u := ty.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				t.setLo("len("+key+")", 1)
			} else if u.Info()&types.IsInteger != 0 {
				t.a.ival[key] = [2]int64{1, math.MaxInt64}
			}
		case *types.Slice, *types.Map:
			t.setLo("len("+key+")", 1)
			t.a.ival["?"+key+" is nil"] = [2]int64{0, 0}
		case *types.Struct:
			t.a.ival["?"+key+" is zero"] = [2]int64{0, 0}
		}
	} else if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		t.a.ival[key] = [2]int64{0, math.MaxInt64}
	}
	return v
}

func (f *formats) record(ty types.Type, prefix string, how func(field string) int) *av {
	st := deref(ty).Underlying().(*types.Struct)
	v := &av{k: 'a'}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		v.el = append(v.el, f.value(fl.Type(), prefix+fl.Name(), how(fl.Name())))
	}
	return v
}

func pointerTo(v *av, name string) *av { return &av{k: 'p', cell: &acell{v: v, name: name}} }

// same: whether the value read is the one written, on the current path.
func (f *formats) same(want, got *av) bool {
	t := f.t
	if t.bare(want) == t.bare(got) {
		return true
	}
	void := func(v *av) bool { return v.k == 'n' || v.k == 'l' && v.n == 0 || isStr(v) && v.str() == "" }
	if void(want) && void(got) {
		return true
	}
	if want.k == 'l' || got.k == 'l' {
		w, g := items(want), items(got)
		if want.k == 'k' || got.k == 'k' || want.k == 'a' || got.k == 'a' {
			return false
		}
		if want.k == 's' {
			lo, hi := t.a.bounds("len(" + want.key + ")")
			if lo != hi || int(lo) != len(g) {
				return false
			}
			for i := range g {
				if g[i].text() != want.key+"["+itoa(i)+"]" {
					return false
				}
			}
			return true
		}
		if len(w) != len(g) {
			return false
		}
		for i := range g {
			if !f.same(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	if want.k == 's' {
		_, hi := t.a.bounds("len(" + want.key + ")")
		lo0, hi0 := t.a.bounds(want.key)
		_, zero := t.a.bounds("?" + want.key + " is zero")
		switch {
		case (got.k == 'n' || isStr(got) && got.str() == "") && hi == 0:
			return true
		case got.isInt() && lo0 == hi0 && got.i64() == lo0:
			return true
		case got.k == 'a' && zero == 1 && zeroValue(got):
			return true
		}
	}
	return false
}

func zeroValue(v *av) bool {
	switch v.k {
	case 'n':
		return true
	case 'k':
		return v.isInt() && v.i64() == 0 || isStr(v) && v.str() == "" || v.c.ExactString() == "false"
	case 'a':
		for _, e := range v.el {
			if !zeroValue(e) {
				return false
			}
		}
		return true
	}
	return false
}

// letter: the line of the text that mentions a value.
func letter(text *av, key string) string {
	line := ""
	for _, p := range parts(text) {
		if isStr(p) {
			s := p.str()
			if i := strings.LastIndexByte(s, '\n'); i >= 0 {
				line = s[i+1:]
			} else {
				line += s
			}
			continue
		}
		if strings.Contains(p.text(), key) {
			if i := strings.IndexByte(line, ':'); i >= 0 {
				return line[:i]
			}
			return "?"
		}
	}
	return ""
}

// run interprets f on every path; what it reports as failed is a violation, what cannot be followed is undecided.
func (f *formats) run(rule, construct, pos string, setup func(), body func() string) int {
	done := 0
	msgs := map[string]bool{}
	undecided := map[string]bool{}
	n, complete := f.t.a.paths(func() {
		f.t.reset()
		setup()
		if m := body(); m != "" {
			msgs[m] = true
		}
		for _, m := range f.t.faults {
			msgs[m] = true
		}
		done++
	}, func() {}, func(why string) {
		switch why {
		case "bound", "skip", "a loop that does not treat all rounds alike":
		default:
			undecided[why] = true
		}
	})
	_ = n
	list := func(m map[string]bool) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		if len(l) > 3 {
			l = l[:3]
		}
		return strings.Join(l, "; ")
	}
	switch {
	case len(msgs) > 0:
		f.c.Bad(rule, construct, pos, list(msgs))
	case len(undecided) > 0:
		f.c.Undecided(rule, construct, pos, "a path is not followed: "+list(undecided))
	case !complete || done == 0:
		f.c.Undecided(rule, construct, pos, "no path is followed to its end")
	default:
		f.c.OK(rule, construct, pos, itoa(done)+" paths")
	}
	return done
}

func failed(res []*av) bool {
	return len(res) > 0 && res[len(res)-1].k == 's' && (strings.HasPrefix(res[len(res)-1].key, "error ") || res[len(res)-1].key == "global EOF")
}

func checkC16(c *Ctx) {
	c.Rule("for each package field a writer emits: interpreting the reader of the same format on the emitted lines gives back the value of that field, whether the other fields are present or empty; a line that is left out stands for the reader's default")
	c.Rule("every line the reader stores into a field is one the writer emits")
	c.Rule("owner, group, mode and checksum lines come back on the entry they were written for, and only there")
	c.Rule("passwd and group entries and the world and repository lists come back field by field, entry by entry")
	f := &formats{c: c, t: newTextIO(c.P)}
	for _, n := range []string{"pkg/apk.ParseInstalled", "(*pkg/passwd.UserFile).Write"} {
		if fn := c.Fn(n); fn != nil {
			f.t.a.initGlobals(fn.Pkg)
		}
	}
	f.installed()
	f.index()
	f.entries("passwd", "(*pkg/passwd.UserFile).Write", "(*pkg/passwd.UserFile).Load")
	f.entries("group", "(*pkg/passwd.GroupFile).Write", "(*pkg/passwd.GroupFile).Load")
	f.list("world", "(*pkg/apk.APK).SetWorld", "(*pkg/apk.APK).GetWorld")
	f.list("repositories", "(*pkg/apk.APK).SetRepositories", "(*pkg/apk.APK).GetRepositories")
	for fn := range f.t.a.fn {
		c.Funcs[fn] = true
	}
	c.AtLeast("field", 30, "package fields")
	c.AtLeast("entry", 8, "entry kinds")
}

// packages checks the package fields of a format: write interprets the writer and returns what it
// emitted, read interprets the reader on it and returns the packages.
func (f *formats) packages(format string, pos string, pkgT types.Type, write func(pkg *av) *av, read func() ([]*av, bool)) (emitted map[string]string) {
	st := deref(pkgT).Underlying().(*types.Struct)
	emitted = map[string]string{}
	// what is emitted when every field is present
	f.run("field", format+": all fields present", pos, func() {}, func() string {
		pkg := f.record(pkgT, "pkg.", func(string) int { return 1 })
		out := write(pkg)
		for i := 0; i < st.NumFields(); i++ {
			if l := letter(out, "pkg."+st.Field(i).Name()); l != "" && strings.Contains(out.text(), "pkg."+st.Field(i).Name()) {
				emitted[st.Field(i).Name()] = l
			}
		}
		return ""
	})
	var names []string
	for n := range emitted {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, others := range []int{1, 2} {
			what := "the others present"
			if others == 2 {
				what = "the others empty"
			}
			f.run("field", format+": "+emitted[n]+" "+n+", "+what, pos, func() {}, func() string {
				pkg := f.record(pkgT, "pkg.", func(x string) int {
					switch {
					case x == "Name":
						return 1
					case x == n:
						return 0
					}
					return others
				})
				write(pkg)
				got, ok := read()
				if !ok {
					return "the reader rejects what the writer emits for " + n
				}
				if len(got) != 1 || got[0].k != 'a' {
					return "the reader finds " + itoa(len(got)) + " packages where one was written"
				}
				for _, m := range names {
					i := fieldIndex(pkgT, m)
					g := memberOf(got[0], pkgT, m)
					if g == nil {
						return "no field " + m + " in what is read"
					}
					if !f.same(pkg.el[i], g) {
						return "line " + emitted[m] + " is written from " + m + " (" + pkg.el[i].text() + ") and read as " + clip(g.text())
					}
				}
				return ""
			})
		}
	}
	return emitted
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// memberOf: a field of the package part of what was read.
func memberOf(v *av, pkgT types.Type, name string) *av {
	i := fieldIndex(pkgT, name)
	st := deref(pkgT).Underlying().(*types.Struct)
	if v.k != 'a' || i < 0 {
		return nil
	}
	if len(v.el) == st.NumFields() {
		return v.el[i]
	}
	if len(v.el) > 0 && v.el[0].k == 'a' && i < len(v.el[0].el) && len(v.el[0].el) == st.NumFields() {
		return v.el[0].el[i]
	}
	return nil
}

// deepRead: pointers to packages, loaded.
func (f *formats) loadAll(v *av) []*av {
	var out []*av
	for _, x := range items(v) {
		if x.k == 'p' {
			x = f.t.a.load(x)
		}
		out = append(out, x)
	}
	return out
}

// letters: every line the reader stores is one the writer emits.
func (f *formats) letters(format, pos string, written map[string]bool, read func(content *av) ([]*av, bool)) {
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	for _, r := range letters {
		l := string(r)
		if written[l] {
			continue
		}
		f.run("letter", format+": "+l, pos, func() {}, func() string {
			got, ok := read(cat(konstStr("P:name\nF:dir\nR:file\n"+l+":"), &av{k: 's', key: "unwritten"}, konstStr("\n\n")))
			if !ok {
				return ""
			}
			for _, g := range got {
				if strings.Contains(g.text(), "unwritten") {
					return "the reader takes line " + l + ", which the writer never emits"
				}
			}
			return ""
		})
	}
}

func (f *formats) installed() {
	c := f.c
	w, r := c.Fn("(*pkg/apk.APK).AddInstalledPackage"), c.Fn("pkg/apk.ParseInstalled")
	if w == nil || r == nil || len(w.Params) != 3 {
		return
	}
	pos := c.P.pos(w.Pos())
	pkgT := w.Params[1].Type()
	hdrT := w.Params[2].Type().Underlying().(*types.Slice).Elem()
	var dbs *strm
	write := func(pkg *av, files *av) *av {
		res := f.t.a.call(w, []*av{{k: 's', key: "a"}, pointerTo(pkg, "pkg"), files}, nil)
		if failed(res) {
			stop("skip")
		}
		dbs = nil
		for _, s := range f.t.files {
			dbs = s
		}
		if dbs == nil || len(f.t.files) != 1 {
			stop("the database is not written to one file")
		}
		return dbs.text
	}
	parse := func(content *av) ([]*av, bool) {
		res := f.t.a.call(r, []*av{streamAV(newStrm('b', content))}, nil)
		if failed(res) {
			return nil, false
		}
		return f.loadAll(res[0]), true
	}
	read := func() ([]*av, bool) { return parse(dbs.text) }
	emitted := f.packages("installed database", pos, pkgT, func(pkg *av) *av { return write(pkg, nilAV) }, read)
	written := map[string]bool{}
	for _, l := range emitted {
		written[l] = true
	}
	// the files
	type ent struct {
		dir  bool
		free bool
		in   string // its directory
	}
	header := func(i int, e ent) *av {
		key := "file" + itoa(i) + "."
		v := f.t.a.zero(hdrT)
		set := func(n string, x *av) { v = setPath(v, []int{fieldIndex(hdrT, n)}, x) }
		set("Name", f.value(types.Typ[types.String], key+"Name", 1))
		flag, mode := int64('0'), int64(0o644)
		if e.dir {
			flag, mode = '5', 0o755
		}
		set("Typeflag", konstInt(flag))
		if e.free {
			for _, n := range []string{"Mode", "Uid", "Gid"} {
				st := deref(hdrT).Underlying().(*types.Struct)
				set(n, f.value(st.Field(fieldIndex(hdrT, n)).Type(), key+n, 0))
			}
			if !e.dir {
				set("PAXRecords", &av{k: 's', key: key + "PAXRecords"})
			}
		} else {
			set("Mode", konstInt(mode))
		}
		return v
	}
	get := func(v *av, n string) *av { return v.el[fieldIndex(hdrT, n)] }
	scen := []struct {
		name string
		ents []ent
	}{
		{"a directory", []ent{{dir: true, free: true}}},
		{"a file at the root", []ent{{free: true, in: ""}}},
		{"a file of a directory", []ent{{dir: true}, {free: true, in: "0"}}},
		{"a directory with a file", []ent{{dir: true, free: true}, {in: "0"}}},
		{"the second of three files", []ent{{dir: true}, {in: "0"}, {free: true, in: "0"}, {in: "0"}}},
		{"a second directory", []ent{{dir: true}, {in: "0"}, {dir: true, free: true}, {in: "2"}, {dir: true}}},
		{"a file of a second directory", []ent{{dir: true}, {in: "0"}, {dir: true}, {free: true, in: "2"}, {dir: true}, {in: "4"}}},
		{"a third directory", []ent{{dir: true}, {in: "0"}, {dir: true}, {in: "2"}, {dir: true, free: true}, {in: "4"}}},
		{"two directories without files", []ent{{dir: true}, {dir: true, free: true}, {dir: true}}},
	}
	var lines []string
	for _, sc := range scen {
		sc := sc
		f.run("entry", "installed database: "+sc.name, pos, func() {
			f.t.parent = map[string]string{}
			for i, e := range sc.ents {
				if e.in != "" {
					f.t.parent["file"+itoa(i)+".Name"] = "file" + e.in + ".Name"
				}
			}
		}, func() string {
			var hs []*av
			for i, e := range sc.ents {
				hs = append(hs, header(i, e))
			}
			pkg := f.record(pkgT, "pkg.", func(x string) int {
				if x == "Name" {
					return 1
				}
				return 2
			})
			out := write(pkg, listAV(hs...))
			for _, p := range parts(out) {
				if isStr(p) {
					for _, l := range strings.Split(p.str(), "\n") {
						if i := strings.IndexByte(l, ':'); i == 1 {
							lines = append(lines, l[:1])
						}
					}
				}
			}
			got, ok := read()
			if !ok {
				return "the reader rejects the lines written for the entries"
			}
			if len(got) != 1 || got[0].k != 'a' || len(got[0].el) < 2 {
				return "the reader finds " + itoa(len(got)) + " packages where one was written"
			}
			fs := f.loadAll(got[0].el[len(got[0].el)-1])
			if len(fs) != len(hs) {
				return itoa(len(hs)) + " entries are written and " + itoa(len(fs)) + " are read"
			}
			for i, h := range hs {
				g := fs[i]
				if g.k != 'a' {
					return "an entry that is not followed"
				}
				dir := get(g, "Typeflag").isInt() && get(g, "Typeflag").i64() == '5'
				if dir != sc.ents[i].dir {
					return "entry " + itoa(i) + " is read as another kind of entry"
				}
				nm := get(g, "Name")
				if nm.k == 't' && nm.key == "base" && sc.ents[i].in == "" {
					nm = nm.el[0]
				}
				if f.t.bare(nm) != get(h, "Name").text() {
					return "the name of entry " + itoa(i) + " is read as " + clip(nm.text())
				}
				for _, n := range []string{"Uid", "Gid"} {
					if !f.same(get(h, n), get(g, n)) {
						return n + " of entry " + itoa(i) + " is read as " + clip(get(g, n).text())
					}
				}
				if m := get(g, "Mode"); !f.permission(get(h, "Mode"), m) {
					return "the permissions of entry " + itoa(i) + " are read as " + clip(m.text())
				}
				if why := f.checksum(out, get(h, "PAXRecords"), get(g, "PAXRecords")); why != "" {
					return "entry " + itoa(i) + ": " + why
				}
			}
			return ""
		})
	}
	f.run("entry", "installed database: two packages", pos, func() { f.t.parent = map[string]string{"file1.Name": "file0.Name"} }, func() string {
		var pkgs []*av
		for i, n := range []string{"one.", "two."} {
			pkgs = append(pkgs, f.record(pkgT, n, func(string) int { return 1 }))
			hs := listAV(header(0, ent{dir: true}), header(1, ent{in: "0"}))
			if i == 1 {
				hs = listAV(header(2, ent{dir: true}))
			}
			write(pkgs[i], hs)
		}
		got, ok := read()
		if !ok {
			return "the reader rejects a database of two packages"
		}
		if len(got) != 2 {
			return "two packages are written and " + itoa(len(got)) + " are read"
		}
		for i, p := range pkgs {
			for n := range emitted {
				g := memberOf(got[i], pkgT, n)
				if g == nil || !f.same(p.el[fieldIndex(pkgT, n)], g) {
					return n + " of package " + itoa(i) + " is not read back"
				}
			}
			fs := f.loadAll(got[i].el[len(got[i].el)-1])
			if len(fs) != 2-i {
				return "the files of one package are read as another's"
			}
		}
		return ""
	})
	for _, l := range lines {
		written[l] = true
	}
	rpos := c.P.pos(r.Pos())
	f.letters("installed database", rpos, written, parse)
}

// permission: the bits of the mode that the database keeps.
func (f *formats) permission(want, got *av) bool {
	if f.same(want, got) {
		return true
	}
	if want.k != 's' {
		return false
	}
	for _, m := range []string{"4095"} {
		k := "(" + want.key + "&" + m + ")"
		if got.text() == k {
			return true
		}
		lo, hi := f.t.a.bounds(k)
		if lo == hi && got.isInt() && got.i64() == lo {
			return true
		}
	}
	return false
}

// checksum: the record read is the one the line was written from.
func (f *formats) checksum(out, want, got *av) string {
	var sums []string
	if got.k == 'm' {
		for _, k := range got.mp.keys {
			sums = append(sums, k)
		}
	}
	if want.k != 's' {
		if len(sums) > 0 {
			return "a checksum is read that was not written for it"
		}
		return ""
	}
	src := want.key + "["
	if !strings.Contains(out.text(), src) {
		if len(sums) > 0 {
			return "a checksum is read that was not written for it"
		}
		return ""
	}
	for _, k := range sums {
		g := got.mp.vals[k]
		if t := g.text(); t == src+k+"]" {
			return ""
		}
		ps := parts(g)
		if len(ps) == 2 && isStr(ps[0]) && ps[0].str() == "Q1" && ps[1].k == 't' && ps[1].key == "b64" && strings.Contains(ps[1].text(), "unhex("+src+k+"]") && strings.Contains(out.text(), ps[1].text()) {
			return ""
		}
	}
	return "its checksum is written and not read back"
}

func (f *formats) index() {
	c := f.c
	w, r, rp := c.Fn("pkg/apk.ArchiveFromIndex"), c.Fn("pkg/apk.IndexFromArchive"), c.Fn("pkg/apk.ParsePackageIndex")
	if w == nil || r == nil || rp == nil || len(w.Params) != 1 {
		return
	}
	pos := c.P.pos(w.Pos())
	idxT := deref(w.Params[0].Type())
	st, ok := idxT.Underlying().(*types.Struct)
	pi := fieldIndex(idxT, "Packages")
	if !ok || pi < 0 {
		c.Undecided("anchor", "index", pos, "the index has no list of packages")
		return
	}
	pkgT := st.Field(pi).Type().Underlying().(*types.Slice).Elem()
	var archive *strm
	index := func(pkgs ...*av) *av {
		v := f.record(idxT, "index.", func(string) int { return 0 })
		var ps []*av
		for i, p := range pkgs {
			ps = append(ps, pointerTo(p, "package "+itoa(i)))
		}
		return setPath(v, []int{pi}, listAV(ps...))
	}
	write := func(idx *av) *av {
		res := f.t.a.call(w, []*av{pointerTo(idx, "index")}, nil)
		if failed(res) {
			stop("skip")
		}
		archive = f.t.stream(res[0])
		if archive == nil {
			stop("the archive is not a stream")
		}
		s := archive
		for s != nil && s.kind != 't' {
			s = s.inner
		}
		if s == nil {
			stop("the index is not an archive")
		}
		var all []*av
		for _, e := range s.entries {
			all = append(all, e.text)
		}
		return cat(all...)
	}
	readAll := func() (*av, bool) {
		res := f.t.a.call(r, []*av{streamAV(archive)}, nil)
		if failed(res) {
			return nil, false
		}
		v := res[0]
		if v.k == 'p' {
			v = f.t.a.load(v)
		}
		return v, v.k == 'a'
	}
	read := func() ([]*av, bool) {
		v, ok := readAll()
		if !ok {
			return nil, false
		}
		return f.loadAll(v.el[pi]), true
	}
	emitted := f.packages("index", pos, pkgT, func(pkg *av) *av { return write(index(pkg)) }, read)
	written := map[string]bool{}
	for _, l := range emitted {
		written[l] = true
	}
	f.letters("index", c.P.pos(rp.Pos()), written, func(content *av) ([]*av, bool) {
		res := f.t.a.call(rp, []*av{streamAV(newStrm('b', content))}, nil)
		if failed(res) {
			return nil, false
		}
		return f.loadAll(res[0]), true
	})
	f.run("entry", "index: several packages and the description", pos, func() {}, func() string {
		how := func(x string) int {
			if x == "Name" || x == "Version" {
				return 1
			}
			return 2
		}
		pkgs := []*av{f.record(pkgT, "one.", func(string) int { return 1 }), f.record(pkgT, "two.", how), f.record(pkgT, "three.", func(string) int { return 1 })}
		idx := index(pkgs...)
		write(idx)
		v, ok := readAll()
		if !ok {
			return "the reader rejects an index of three packages"
		}
		got := f.loadAll(v.el[pi])
		if len(got) != 3 {
			return "three packages are written and " + itoa(len(got)) + " are read"
		}
		for i, p := range pkgs {
			for n := range emitted {
				g := memberOf(got[i], pkgT, n)
				if g == nil || !f.same(p.el[fieldIndex(pkgT, n)], g) {
					return n + " of package " + itoa(i) + " is not read back"
				}
			}
		}
		if d := fieldIndex(idxT, "Description"); d >= 0 && !f.same(idx.el[d], v.el[d]) {
			return "the description is read as " + clip(v.el[d].text())
		}
		return ""
	})
}

// entries: a file of entries that a type writes and loads.
func (f *formats) entries(format, wn, rn string) {
	c := f.c
	w, r := c.Fn(wn), c.Fn(rn)
	if w == nil || r == nil {
		return
	}
	pos := c.P.pos(w.Pos())
	fileT := deref(w.Signature.Recv().Type())
	ei := fieldIndex(fileT, "Entries")
	if ei < 0 {
		c.Undecided("anchor", format, pos, "no list of entries")
		return
	}
	entT := fileT.Underlying().(*types.Struct).Field(ei).Type().Underlying().(*types.Slice).Elem()
	if _, ok := deref(entT).Underlying().(*types.Struct); !ok {
		c.Undecided("anchor", format, pos, "the entries are not structures")
		return
	}
	st := deref(entT).Underlying().(*types.Struct)
	body := func(free int) func() string {
		return func() string {
			var es []*av
			for i := 0; i < 2; i++ {
				es = append(es, f.record(entT, "entry"+itoa(i)+".", func(x string) int {
					if free >= 0 && st.Field(free).Name() == x && i == 0 {
						return 0
					}
					return 1
				}))
			}
			src := setPath(f.t.a.zero(fileT), []int{ei}, listAV(es...))
			out := newStrm('b', konstStr(""))
			if failed(f.t.a.call(w, []*av{pointerTo(src, "file"), streamAV(out)}, nil)) {
				stop("skip")
			}
			dst := pointerTo(f.t.a.zero(fileT), "loaded")
			if failed(f.t.a.call(r, []*av{dst, streamAV(out)}, nil)) {
				return "the reader rejects what the writer emits"
			}
			got := f.loadAll(f.t.a.load(dst).el[ei])
			if len(got) != 2 {
				return "two entries are written and " + itoa(len(got)) + " are read"
			}
			for i := range es {
				for j := 0; j < st.NumFields(); j++ {
					if got[i].k != 'a' || !f.same(es[i].el[j], got[i].el[j]) {
						return st.Field(j).Name() + " of entry " + itoa(i) + " is read as " + clip(got[i].el[j].text())
					}
				}
			}
			return ""
		}
	}
	for j := 0; j < st.NumFields(); j++ {
		f.run("entry", format+": "+st.Field(j).Name(), pos, func() {}, body(j))
	}
}

// list: a list of texts kept in a file.
func (f *formats) list(format, wn, rn string) {
	c := f.c
	w, r := c.Fn(wn), c.Fn(rn)
	if w == nil || r == nil {
		return
	}
	pos := c.P.pos(w.Pos())
	f.run("entry", format+" list", pos, func() {}, func() string {
		var args []*av
		for _, p := range w.Params {
			args = append(args, &av{k: 's', key: p.Name()})
		}
		in := args[len(args)-1]
		f.t.a.types[in.key] = w.Params[len(w.Params)-1].Type()
		if failed(f.t.a.call(w, args, nil)) {
			stop("skip")
		}
		if len(f.t.files) != 1 {
			return "the list is not written to one file"
		}
		res := f.t.a.call(r, args[:len(r.Params)], nil)
		if failed(res) {
			return "the reader rejects what the writer emits"
		}
		if !f.same(in, res[0]) {
			return "the list is read as " + clip(res[0].text())
		}
		return ""
	})
}
