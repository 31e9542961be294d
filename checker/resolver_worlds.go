package main

var resolverWorlds = func() []rworld {
	var ws []rworld
	offer := func(name, con string) {
		ws = append(ws, rworld{name: name, entry: "offer", roots: []string{con}, pkgs: []rpkg{
			{name: "n0", version: "va", index: "?", dq: true},
			{name: "n1", version: "vb", provides: []string{"n0=vc", "n3"}, index: "?", dq: true},
		}})
		ws = append(ws, rworld{name: name + ", selected", entry: "one", roots: []string{con}, pkgs: []rpkg{
			{name: "n0", version: "va", index: "?", dq: true},
			{name: "n1", version: "vb", provides: []string{"n0=vc"}, index: "?", dq: true},
		}})
	}
	offer("name", "n0")
	offer("name and version", "n0>v1")
	offer("name and pin", "n0@p1")
	offer("name, version and pin", "n0=v1@p1")
	one := func(name string, root string, before, applies [][2]int, pkgs ...rpkg) {
		w := rworld{name: name, entry: "one", roots: []string{root}, pkgs: pkgs, before: before, applies: applies}
		ws = append(ws, w)
		w.entry = "all"
		w.name += ", from a list"
		w.pkgs = append([]rpkg{}, pkgs...)
		for i := range w.pkgs {
			w.pkgs[i].dq = false
		}
		ws = append(ws, w)
	}
	// a dependency with and without a version and a pinned request
	for _, d := range []string{"n1", "n1>v1", "n1@p2"} {
		for _, root := range []string{"n0", "n0@p1"} {
			ws = append(ws, rworld{name: "dependency " + d + " of " + root, entry: "one", roots: []string{root}, existing: "?n1=1",
				applies: [][2]int{{0, 1}, {0, 2}}, pkgs: []rpkg{
					{name: "n0", version: "va", deps: []string{d}},
					{name: "n1", version: "vb", index: "?", dq: true},
					{name: "n2", version: "vc", provides: []string{"n1=vd"}, index: "?", dq: true},
				}})
		}
	}
	// only the installed package itself may come from a foreign pinned repository
	ws = append(ws, rworld{name: "another version of an installed package", entry: "one", roots: []string{"n0@p1"}, existing: "?n1=1",
		pkgs: []rpkg{
			{name: "n0", version: "va", index: "p1", deps: []string{"n1"}},
			{name: "n1", version: "vb", index: "?"},
			{name: "n1", version: "vc", index: "?"},
		}})
	// conflicts of the root with what its dependency needs
	one("a candidate is named like what the root provides without a version", "n0", [][2]int{{0, 1}, {0, 2}}, nil,
		rpkg{name: "n0", version: "va", provides: []string{"n2"}, deps: []string{"n1"}},
		rpkg{name: "n2", version: "vb", provides: []string{"n1"}},
		rpkg{name: "n1", version: "vc"})
	one("a conflict behind a disqualified and a harmless provider", "n0", [][2]int{{0, 4}, {0, 5}}, nil,
		rpkg{name: "n0", version: "va", provides: []string{"x", "y"}, deps: []string{"n1"}},
		rpkg{name: "n2", version: "vb", provides: []string{"x=v2"}, dq: true},
		rpkg{name: "n3", version: "vb", provides: []string{"x"}},
		rpkg{name: "n3", version: "vc", provides: []string{"y"}},
		rpkg{name: "n1", version: "vd", provides: []string{"x=v1"}},
		rpkg{name: "n1", version: "ve", provides: []string{"y=v1"}},
		rpkg{name: "n1", version: "vf"})
	for _, x := range [][2]string{{"x=v1", "x=v2"}, {"x=v1", "x"}, {"x", "x=v2"}, {"x", "x"}, {"x=v1", "x=v1"}} {
		one("the root provides "+x[0]+", a candidate "+x[1], "n0", [][2]int{{0, 1}, {0, 2}}, nil,
			rpkg{name: "n0", version: "va", provides: []string{x[0]}, deps: []string{"n1"}},
			rpkg{name: "n1", version: "vb", provides: []string{x[1]}},
			rpkg{name: "n1", version: "vc"})
	}
	one("a candidate is named like what the root provides", "n0", [][2]int{{0, 1}, {0, 2}}, nil,
		rpkg{name: "n0", version: "va", provides: []string{"n2=v1", "n3"}, deps: []string{"n1"}},
		rpkg{name: "n2", version: "vb", provides: []string{"n1"}},
		rpkg{name: "n1", version: "vc", provides: []string{"n3=v2"}},
		rpkg{name: "n1", version: "vd"})
	one("two dependencies conflict", "n0", nil, nil,
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n2"}},
		rpkg{name: "n1", version: "vb", provides: []string{"x=v1"}},
		rpkg{name: "n2", version: "vc", provides: []string{"x=v2"}},
		rpkg{name: "n2", version: "vd"})
	one("one dependency provides the other", "n0", [][2]int{{1, 2}, {1, 3}}, nil,
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n2"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n2=v1"}},
		rpkg{name: "n2", version: "vc"},
		rpkg{name: "n2", version: "vd"})
	one("a dependency conflicts with what its own dependency needs", "n0", [][2]int{{1, 2}, {1, 3}}, nil,
		rpkg{name: "n0", version: "va", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"x=v1"}, deps: []string{"n2"}},
		rpkg{name: "n2", version: "vc", provides: []string{"x=v2"}},
		rpkg{name: "n2", version: "vd"})
	// exclusions
	one("a dependency excludes a provider", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "!n2"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n2"}},
		rpkg{name: "n1", version: "vc"})
	one("a dependency excludes some versions of a provider", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "!n2>v1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n2=vd"}},
		rpkg{name: "n1", version: "vc"})
	one("a dependency excludes some versions of its name", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"!n1=v1", "n1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n1", version: "vc"})
	one("an exclusion holds for dependencies of dependencies", "n0", nil, [][2]int{{0, 2}, {0, 3}, {1, 2}, {1, 3}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "!x"}},
		rpkg{name: "n1", version: "vb", deps: []string{"n2", "!y"}},
		rpkg{name: "n2", version: "vc", provides: []string{"x"}},
		rpkg{name: "n2", version: "vd", provides: []string{"y"}},
		rpkg{name: "n2", version: "ve"})
	one("a pinned repository's package is excluded only with its pin", "n0@p1", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", index: "p1", deps: []string{"n1", "!n2@p1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n2"}, index: "?"},
		rpkg{name: "n1", version: "vc"})
	// versions
	one("two constraints on one name", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n1>v1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n1", version: "vc"})
	one("a lower and an upper bound", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1>v1", "n1<v2"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n1", version: "vc"})
	one("a constraint on what another candidate provides", "n0", nil, [][2]int{{0, 1}, {0, 2}, {0, 3}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n2>v1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n2=vf"}},
		rpkg{name: "n1", version: "vc"},
		rpkg{name: "n2", version: "vd"})
	one("a constraint after an exclusion and one on an unknown name", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", provides: []string{"z=v3"}, deps: []string{"!y", "z=v3", "!w", "n1", "n0>v1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n0=vf"}},
		rpkg{name: "n1", version: "vc"})
	one("a constraint on the second provided name", "n0", nil, [][2]int{{0, 1}, {0, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n0>v1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"x=v3", "n0=vf"}},
		rpkg{name: "n1", version: "vc"})
	one("a constraint holds for dependencies of dependencies", "n0", nil, [][2]int{{0, 2}, {0, 3}},
		rpkg{name: "n0", version: "va", deps: []string{"n1", "n2<v1"}},
		rpkg{name: "n1", version: "vb", deps: []string{"n2"}},
		rpkg{name: "n2", version: "vc"},
		rpkg{name: "n2", version: "vd"})
	one("a constraint of a dependency", "n0", nil, [][2]int{{1, 2}, {1, 3}},
		rpkg{name: "n0", version: "va", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb", deps: []string{"n2", "n2=v1"}},
		rpkg{name: "n2", version: "vc"},
		rpkg{name: "n3", version: "vd", provides: []string{"n2=ve"}})
	one("dependencies in a cycle", "n0", nil, [][2]int{{0, 1}, {0, 2}, {1, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1>v1"}},
		rpkg{name: "n1", version: "vb", deps: []string{"n0", "n2"}},
		rpkg{name: "n2", version: "vc", deps: []string{"n1"}})
	one("a package that provides what it needs", "n0", nil, nil,
		rpkg{name: "n0", version: "va", provides: []string{"x=v1"}, deps: []string{"x", "n0", "n1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n2", version: "vc", provides: []string{"x=v2"}})
	one("added when another is installed", "n0", [][2]int{{0, 2}}, [][2]int{{0, 2}},
		rpkg{name: "n0", version: "va", provides: []string{"y=v1"}, deps: []string{"n1", "!n4>v1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n2", version: "vc", provides: []string{"n4"}, installIf: []string{"n1"}, dq: true},
		rpkg{name: "n3", version: "vd", installIf: []string{"n1=vb"}, dq: true})
	// requests of several packages
	all := func(name string, roots []string, before, applies [][2]int, pkgs ...rpkg) {
		ws = append(ws, rworld{name: name, entry: "all", roots: roots, pkgs: pkgs, before: before, applies: applies})
	}
	all("the request excludes a name", []string{"n0", "!n1"}, nil, [][2]int{{-1, 0}, {-1, 1}, {-1, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n2"}},
		rpkg{name: "n2", version: "vb", provides: []string{"n1"}},
		rpkg{name: "n2", version: "vc"})
	ws[len(ws)-1].mayFail = true
	all("the request bounds a dependency", []string{"n0", "n1>v1"}, nil, [][2]int{{-1, 0}, {-1, 1}, {-1, 2}},
		rpkg{name: "n0", version: "va", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n1", version: "vc"})
	all("the request bounds what a dependency provides", []string{"n0", "n3>v1"}, nil, [][2]int{{-1, 0}, {-1, 1}, {-1, 2}, {-1, 3}},
		rpkg{name: "n0", version: "va", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"n3=vf"}},
		rpkg{name: "n1", version: "vc"},
		rpkg{name: "n3", version: "vd"})
	all("two requested packages conflict", []string{"n0", "n1"}, nil, nil,
		rpkg{name: "n0", version: "va", provides: []string{"x=v1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"x=v2"}},
		rpkg{name: "n1", version: "vc"})
	all("one requested package provides the other", []string{"n0", "n1"}, [][2]int{{0, 1}, {0, 2}}, nil,
		rpkg{name: "n0", version: "va", provides: []string{"n1=v1"}},
		rpkg{name: "n1", version: "vb"},
		rpkg{name: "n1", version: "vc"})
	all("a requested package conflicts with a candidate for another's dependency", []string{"n0", "n2"}, [][2]int{{2, 1}, {0, 1}}, nil,
		rpkg{name: "n0", version: "va", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb", provides: []string{"x=v2"}},
		rpkg{name: "n2", version: "vc", provides: []string{"x=v1"}},
		rpkg{name: "n1", version: "vd"})
	all("a pinned request", []string{"n0@p1"}, nil, [][2]int{{0, 1}},
		rpkg{name: "n0", version: "va", index: "?", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vb", index: "?"})
	all("a pin reaches only the dependencies of its own request", []string{"n0@p1", "n2"}, nil, nil,
		rpkg{name: "n0", version: "va", index: "p1"},
		rpkg{name: "n2", version: "vb", deps: []string{"n1"}},
		rpkg{name: "n1", version: "vc", index: "p1"},
		rpkg{name: "n1", version: "vd"})
	return ws
}()
