from m import *
R='pkg/apk/repo.go'; MF='pkg/fs/memfs.go'; T='internal/tarfs/tarfs.go'; I='pkg/apk/installed.go'
M('parents not added','C22',[(R,'		childParents[pkg.Name] = true\n','')])
M('parents depPkg','C22',[(R,'childParents[pkg.Name] = true','childParents[pkg.Origin] = true')])
M('parents not copied','C22',[(R,'''		for k := range parents {
			childParents[k] = true
		}
''','')])
M('parents partial copy','C22',[(R,'''		for k := range parents {
			childParents[k] = true
		}
''','''		for k := range parents {
			if !strings.HasPrefix(k, "so:") {
				continue
			}
			childParents[k] = true
		}
''')])
M('pass nil parents','C22',[(R,'allowPin, true, childParents, existing','allowPin, true, map[string]bool{pkg.Name: true}, existing'),(R,'		childParents[pkg.Name] = true\n','		childParents[pkg.Name] = true\n		_ = childParents\n')])
M('guard self only','C22',[(R,'if _, ok := parents[pkg.Name]; ok {','if _, ok := parents[pkg.Name]; ok && len(pkg.Provides) == 0 {')])
M('tarfs abs','C22',[(T,'return fsys.open(link, hops+1)','return fsys.open(link, hops)')])
M('tarfs nolimit','C22',[(T,'''	if hops > maxHops {
		return nil, fmt.Errorf("Open(%q): chased too many (%d) symlinks", name, maxHops)
	}
''','''	if hops > maxHops && fsys.index == nil {
		return nil, fmt.Errorf("Open(%q): chased too many (%d) symlinks", name, maxHops)
	}
''')])
M('memfs node depth','C22',[(MF,'m.getNodeCountLinks(linkTarget, newDepth)','m.getNodeCountLinks(linkTarget, 0)')])
M('memfs getNode','C22',[(MF,'m.getNodeCountLinks(linkTarget, newDepth)','m.getNode(linkTarget)'),(MF,'if newDepth > maxLinks','if newDepth := newDepth; newDepth > maxLinks')])
M('openfile','C22',[(MF,'m.openFile(linkTarget, flag, perm, localCount)','m.OpenFile(linkTarget, flag, perm)'),])
M('openfile limit rel only','C22',[(MF,'if localCount > maxLinks {','if localCount > maxLinks && !filepath.IsAbs(anode.linkTarget) {')])
M('root entry','C22',[(I,'''		if dir == cleanedName {
			// The root directory is its own parent, and is not recorded.
			continue
		}
''','')])
M('root entry2','C22',[(I,'''		if dir == cleanedName {''','''		if cleanedName == "." {''')])
M('link dir','C22',[(MF,'''	if target.dir {
		// A''','''	if target.dir && target == anode {
		// A''')])
M('tarfs loop unbounded','C22',[(T,'''	switch e.Header.Typeflag {
	case tar.TypeSymlink, tar.TypeLink:
		link := e.Header.Linkname
		if path.IsAbs(link) {
			return fsys.open(link, hops+1)
		}

		return fsys.open(path.Join(e.dir, link), hops+1)
	}

	f :=''','''	for e.Header.Typeflag == tar.TypeSymlink || e.Header.Typeflag == tar.TypeLink {
		link := e.Header.Linkname
		if !path.IsAbs(link) {
			link = path.Join(e.dir, link)
		}
		i, ok = fsys.index[link]
		if !ok {
			return nil, fs.ErrNotExist
		}
		e = fsys.files[i]
	}

	f :=''')])
M('R tarfs loop','C22',[(T,'''	switch e.Header.Typeflag {
	case tar.TypeSymlink, tar.TypeLink:
		link := e.Header.Linkname
		if path.IsAbs(link) {
			return fsys.open(link, hops+1)
		}

		return fsys.open(path.Join(e.dir, link), hops+1)
	}

	f :=''','''	for e.Header.Typeflag == tar.TypeSymlink || e.Header.Typeflag == tar.TypeLink {
		if hops > maxHops {
			return nil, fs.ErrInvalid
		}
		hops++
		link := e.Header.Linkname
		if !path.IsAbs(link) {
			link = path.Join(e.dir, link)
		}
		i, ok = fsys.index[link]
		if !ok {
			return nil, fs.ErrNotExist
		}
		e = fsys.files[i]
	}

	f :=''')],0)
M('R tarfs helper','C22',[(T,'''		link := e.Header.Linkname
		if path.IsAbs(link) {
			return fsys.open(link, hops+1)
		}

		return fsys.open(path.Join(e.dir, link), hops+1)
	}
''','''		return fsys.follow(e, hops+1)
	}
'''),(T,'// Open implements','''func (fsys *FS) follow(e *Entry, hops int) (fs.File, error) {
	link := e.Header.Linkname
	if !path.IsAbs(link) {
		link = path.Join(e.dir, link)
	}
	return fsys.open(link, hops)
}

// Open implements''')],0)
M('R parents helper','C22',[(R,'''		childParents := map[string]bool{}
		for k := range parents {
			childParents[k] = true
		}
		childParents[pkg.Name] = true
''','''		childParents := withParent(parents, pkg.Name)
'''),(R,'func (p *PkgResolver) parseVersion','''func withParent(parents map[string]bool, name string) map[string]bool {
	out := make(map[string]bool, len(parents)+1)
	for k, v := range parents {
		out[k] = v
	}
	out[name] = true
	return out
}

func (p *PkgResolver) parseVersion''')],0)
M('R parents clone','C22',[(R,'''		childParents := map[string]bool{}
		for k := range parents {
			childParents[k] = true
		}
		childParents[pkg.Name] = true
''','''		childParents := maps.Clone(parents)
		childParents[pkg.Name] = true
''')],0)
M('R parents value','C22',[(R,'if _, ok := parents[pkg.Name]; ok {','if parents[pkg.Name] {')],0)
M('R shared visited','C22',[(R,'''		childParents := map[string]bool{}
		for k := range parents {
			childParents[k] = true
		}
		childParents[pkg.Name] = true
''','''		parents[pkg.Name] = true
'''),(R,'true, childParents, existing','true, parents, existing')],0)
M('R dep helper','C22',[(R,'''		childParents := map[string]bool{}
		for k := range parents {
			childParents[k] = true
		}
		childParents[pkg.Name] = true
		subDeps, confs, err := p.getPackageDependencies(depPkg, allowPin, true, childParents, existing, existingOrigins, dq)
''','''		subDeps, confs, err := p.descend(pkg, depPkg, allowPin, parents, existing, existingOrigins, dq)
'''),(R,'func (p *PkgResolver) parseVersion','''func (p *PkgResolver) descend(pkg, depPkg *RepositoryPackage, allowPin string, parents map[string]bool, existing map[string]*RepositoryPackage, existingOrigins map[string]bool, dq map[*RepositoryPackage]string) ([]*RepositoryPackage, []string, error) {
	childParents := map[string]bool{}
	for k := range parents {
		childParents[k] = true
	}
	childParents[pkg.Name] = true
	return p.getPackageDependencies(depPkg, allowPin, true, childParents, existing, existingOrigins, dq)
}

func (p *PkgResolver) parseVersion''')],0)
M('R openfile tail','C22',[(MF,'''		localCount := linkCount + 1
		if localCount > maxLinks {
			return nil, fmt.Errorf("too many links")
		}
''','''		if linkCount >= maxLinks {
			return nil, fmt.Errorf("too many links")
		}
'''),(MF,'perm, localCount)','perm, linkCount+1)')],0)
M('R link helper','C22',[(MF,'''	anode.children[base] = target
	target.linkCount++
	return nil
''','''	anode.attach(base, target)
	return nil
'''),(MF,'func (m *memFS) Readlink','''func (n *node) attach(base string, target *node) {
	n.children[base] = target
	target.linkCount++
}

func (m *memFS) Readlink''')],0)
M('R sort split','C22',[(I,'''			sortedChildren := sortChildrenTarHeaders(directoryChildren, all, children)
			sorted = append(sorted, sortedChildren...)
''','''			sorted = append(sorted, sortChildrenTarHeaders(directoryChildren, all, directoryChildren[child])...)
''')],0)
M('R dir extract','C22',[(I,'''		dir := filepath.Dir(cleanedName)
		if dir == cleanedName {
			// The root directory is its own parent, and is not recorded.
			continue
		}
		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
		all[cleanedName] = header
''','''		if dir := filepath.Dir(cleanedName); dir != cleanedName {
			all[cleanedName] = header
			addTo(directoryChildren, dir, cleanedName)
		}
'''),(I,'func sortChildrenTar','''func addTo(m map[string][]string, k, v string) { m[k] = append(m[k], v) }

func sortChildrenTar''')],0)
