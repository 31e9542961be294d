from m import *
R='pkg/apk/repo.go'; MF='pkg/fs/memfs.go'; AF='pkg/fs/apkfs.go'; T='internal/tarfs/tarfs.go'; I='pkg/apk/installed.go'; X='pkg/apk/index.go'; W='pkg/tarball/write.go'; IM='pkg/apk/implementation.go'
import sys
def g(f): return open('/repo/'+f).read()
SORTC='		slices.Sort(constraints)\n'
M('memfs readdir no sort','C20',[(MF,'''	sort.Slice(de, func(i, j int) bool {
		return de[i].Name() < de[j].Name()
	})
''','''	_ = sort.Strings
''')])
M('memfs readdir lossy','C20',[(MF,'return de[i].Name() < de[j].Name()','return strings.ToLower(de[i].Name()) < strings.ToLower(de[j].Name())')])
M('memfs readdir len','C20',[(MF,'return de[i].Name() < de[j].Name()','return len(de[i].Name()) < len(de[j].Name())')])
M('memfs readdir dirs','C20',[(MF,'return de[i].Name() < de[j].Name()','return de[i].IsDir() && !de[j].IsDir()')])
M('tie break dropped','C20',[(R,'} else if len(v) == len(options[lowest]) && k < lowest {','} else if len(v) == len(options[lowest]) && lowest == "" {')])
M('tie lte','C20',[(R,'if lowest == "" || len(v) < len(options[lowest]) {','if lowest == "" || len(v) <= len(options[lowest]) {')])
M('tie gone','C20',[(R,'''			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}''','''			}''')])
M('tie by len of name','C20',[(R,'len(v) == len(options[lowest]) && k < lowest {','len(v) == len(options[lowest]) && len(k) < len(lowest) {')])
M('R tie rewritten','C20',[(R,'''			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}''','''			switch {
			case lowest == "":
				lowest = k
			case len(options[lowest]) > len(v), len(options[lowest]) == len(v) && lowest > k:
				lowest = k
			}''')],0)
M('R sorted loop','C20',[(R,'''		for k, v := range options {
			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}''','''		for _, k := range constraints {
			if lowest == "" || len(options[k]) < len(options[lowest]) {
				lowest = k
			}''')],0)
M('unsorted loop','C20',[(R,'''		for k, v := range options {
			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}''','''		for _, k := range constraints {
			if lowest == "" || len(options[k]) < len(options[lowest]) {
				lowest = k
			}'''),(R,SORTC,'')])
M('R two vars','C20',[(R,'''		lowest := ""
		for k, v := range options {
			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}
		}
''','''		lowest := pickLowest(options)
'''),(R,'func (p *PkgResolver) parseVersion(','''func pickLowest(options map[string][]*repositoryPackage) string {
	lowest, n := "", 0
	for k, v := range options {
		if lowest == "" || len(v) < n || (len(v) == n && k < lowest) {
			lowest = k
			n = len(v)
		}
	}
	return lowest
}

func (p *PkgResolver) parseVersion(''')],0)
M('two vars no tie','C20',[(R,'''		lowest := ""
		for k, v := range options {
			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}
		}
''','''		lowest := pickLowest(options)
'''),(R,'func (p *PkgResolver) parseVersion(','''func pickLowest(options map[string][]*repositoryPackage) string {
	lowest, n := "", 0
	for k, v := range options {
		if lowest == "" || len(v) < n {
			lowest = k
			n = len(v)
		}
	}
	return lowest
}

func (p *PkgResolver) parseVersion(''')])
M('any of options','C20',[(R,'		lowest := ""\n','		lowest := ""\n		for k, v := range options {\n			if len(v) == 1 {\n				lowest = k\n				break\n			}\n		}\n')])
M('constraints unsorted recursion','C20',[(R,SORTC,''),(R,'		pkgs := options[lowest]\n','		for _, cname := range constraints {\n			if len(options[cname]) == 1 {\n				lowest = cname\n				break\n			}\n		}\n		pkgs := options[lowest]\n')])
M('sorttarheaders','C20',[(I,'func sortTarHeaders(','var _ = sort.Strings\n\nfunc sortTarHeaders('),(I,'	sort.Strings(dirEntries)\n',''),(I,'	sort.Strings(children)\n','')])
M('R sorttarheaders one sort','C20',[(I,'	sort.Strings(dirEntries)\n','')],0)
M('R sorttarheaders makes keys','C20',[(I,'''	var dirEntries = make([]string, 0, len(directoryChildren))
	for dir := range directoryChildren {
		dirEntries = append(dirEntries, dir)
	}
''','''	dirEntries := make([]string, len(directoryChildren))
	i := 0
	for dir := range directoryChildren {
		dirEntries[i] = dir
		i++
	}
''')],0)
M('fill unsorted','C20',[(I,'func sortTarHeaders(','var _ = sort.Strings\n\nfunc sortTarHeaders('),(I,'''	var dirEntries = make([]string, 0, len(directoryChildren))
	for dir := range directoryChildren {
		dirEntries = append(dirEntries, dir)
	}
	sort.Strings(dirEntries)
''','''	dirEntries := make([]string, len(directoryChildren))
	i := 0
	for dir := range directoryChildren {
		dirEntries[i] = dir
		i++
	}
'''),(I,'	sort.Strings(children)\n','')])
M('apkfs nosort','C20',[(AF,re.search(r'	sort\.Slice\(results.*?\n	\}\)\n|	slices\.SortFunc\(results.*?\n	\}\)\n',g(AF),re.S).group(0),'	_ = sort.Strings\n')])
M('NewPkgResolver unsorted','C20',[(R,re.search(r'	(sort\.Strings|slices\.Sort)\(\w+\)\n',g(R)[g(R).index('func NewPkgResolver'):]).group(0),'')])
M('tarfs dir sort by size','C20',[(T,'''	for _, f := range fsys.files {
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
	}
''','''	byName := map[string]*Entry{}
	for _, f := range fsys.files {
		byName[f.Header.Name] = f
	}
	for _, f := range byName {
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
		fsys.files = append(fsys.files, f)
	}
''')])
M('R tarfs build dirs from index','C20',[(T,'''	for _, f := range fsys.files {
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
	}
''','''	for _, i := range fsys.index {
		f := fsys.files[i]
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
	}
''')],0)
M('indexcachekey unsorted','C20',[(X,'func indexCacheKey(','var _ = sort.Strings\n\nfunc indexCacheKey('),(X,re.search(r'	(sort\.Strings|slices\.Sort)\(names\)\n',g(X)).group(0),'')])
M('R collect+sort helper','C20',[(MF,'''	sort.Slice(de, func(i, j int) bool {
		return de[i].Name() < de[j].Name()
	})
''','''	sortEntries(de)
'''),(MF,'func (m *memFS) OpenReaderAt(','''func sortEntries(de []fs.DirEntry) {
	sort.Slice(de, func(i, j int) bool {
		return de[i].Name() < de[j].Name()
	})
}

func (m *memFS) OpenReaderAt(''')],0)
M('R names first','C20',[(MF,'''	for name, node := range anode.children {
		de = append(de, fs.FileInfoToDirEntry(node.fileInfo(name)))
	}
	anode.mu.Unlock()
''','''	names := make([]string, 0, len(anode.children))
	for name := range anode.children {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		de = append(de, fs.FileInfoToDirEntry(anode.children[name].fileInfo(name)))
	}
	anode.mu.Unlock()
''')],0)
M('R break-less any','C20',[(X,'''			for _, keyData := range keys {
				if err := sign.RSAVerifySHA1Digest(indexDigest, signature, keyData); err == nil {
					verified = true
					break
				}
			}''','''			for _, keyData := range keys {
				if sign.RSAVerifySHA1Digest(indexDigest, signature, keyData) != nil {
					continue
				}
				verified = true
			}''')],0)
M('keys concat','C20',[(X,'''			for _, keyData := range keys {
				if err := sign''','''			for _, keyData := range keys {
				all = append(all, keyData...)
				if err := sign'''),(X,'		var verified bool\n','		var verified bool\n		var all []byte\n'),(X,'		if !verified {\n			return nil, fmt.Errorf("no key found','		if !verified || len(all) == 3 && all[0] == 1 {\n			return nil, fmt.Errorf("no key found')])
M('goroutine append','C20',[(IM,'''					keys''','''					keys''')]) if False else None
M('xattr writes ordered','C20',[(W,'''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
''','''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
						header.Xname = name
''')]) if False else None
M('xattr comment','C20',[(W,'''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
''','''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
						header.PAXRecords["comment"] = name
''')])
M('xattr concat','C20',[(W,'''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
''','''						header.PAXRecords[xattrTarPAXRecordsPrefix+name] = string(value)
						header.PAXRecords["all"] += name
''')])
M('existing origins as value','C20',[(R,'			existingOrigins[v.Origin] = true\n		}\n	}\n','			existingOrigins[v.Origin] = true\n			last = v.Origin\n		}\n	}\n	existingOrigins[last+"x"] = true\n'),(R,'	existingOrigins := map[string]bool{}\n	for k, v := range existing','	existingOrigins := map[string]bool{}\n	last := ""\n	for k, v := range existing')])
M('auth first','C20',[(R,'GetRepositoryIndexes(ctx','GetRepositoryIndexes(ctx')],0)

M('group by dir','C20',[(T,"""	for _, f := range fsys.files {
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
	}

	for _, files := range fsys.dirs {
		slices.SortFunc(files, func(a, b fs.DirEntry) int {
			return cmp.Compare(a.Name(), b.Name())
		})
	}
""","""	for name, i := range fsys.index {
		dir := path.Dir(name)
		fsys.dirs[dir] = append(fsys.dirs[dir], fsys.files[i])
	}
	_, _ = cmp.Compare("", ""), slices.Sort[[]string]
""")])

M('R group by dir then sort','C20',[(T,"""	for _, f := range fsys.files {
		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
	}
""","""	for name, i := range fsys.index {
		dir := path.Dir(name)
		fsys.dirs[dir] = append(fsys.dirs[dir], fsys.files[i])
	}
""")],0)
