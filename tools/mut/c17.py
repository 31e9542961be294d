from m import *
V='pkg/apk/version.go'; U='pkg/apk/util.go'; IX='pkg/apk/index.go'; AX='pkg/apk/apkindex.go'; D='pkg/apk/installed.go'; G='pkg/passwd/group.go'; P='pkg/passwd/passwd.go'; RY='pkg/apk/repository.go'; C='pkg/apk/cache.go'; RS='pkg/apk/resolveapk.go'; I='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'; R='pkg/apk/repo.go'; T='pkg/apk/transport.go'
p='C17'
M('index guard 1',p,[(AX,'if len(line) < 2 || line[1:2] != ":"','if len(line) < 1 || line[1:2] != ":"')])
M('index guard gone',p,[(AX,'if len(line) < 2 || line[1:2] != ":"','if line[1:2] != ":"')])
M('installed guard 1',p,[(D,'if len(line) < 2 || line[1:2] != ":"','if line[1:2] != ":"')])
M('perm parts >3',p,[(D,'if len(permParts) != 3','if len(permParts) > 3')])
M('perm parts <2',p,[(D,'if len(permParts) != 3','if len(permParts) < 2')])
M('controlvalue <2 as !=1',p,[(U,'if len(parts) != 2 {','if len(parts) == 1 && line == "" {')])
M('version groups 13',p,[(V,'if len(actuals) != 14','if len(actuals) != 15')],expect=0)
M('version regexp fewer groups',p,[(V,'if len(actuals) != 14 {\n\t\treturn Version{}, fmt.Errorf("invalid version %s, could not find enough components", version)\n\t}\n',''),(V,'(_p)?','_p')],expect=None) if 0 else None
M('letter guard',p,[(V,'if len(actuals[4]) > 0 {','if actuals[3] != "" {')])
M('compare loop or',p,[(V,'i < len(actual.numbers) && i < len(required.numbers)','i < len(actual.numbers) || i < len(required.numbers)')])
M('includes no guard',p,[(V,'''	if len(actual.numbers) < len(required.numbers) {
		return false
	}
	for i := 0; i < len(req''','''	for i := 0; i < len(req''')])
M('includes <=',p,[(V,'for i := 0; i < len(required.numbers); i++ {\n\t\tif actual.numbers[i] != req','for i := 0; i <= len(required.numbers); i++ {\n\t\tif actual.numbers[i] != req')])
M('pkgname no guard',p,[(V,'if len(parts) == 0 || len(parts[0]) < 2 {','if parts == nil && pkgName == "" {')])
M('pkgname no guard',p,[(V,'if len(parts) == 0 || len(parts[0]) < 2 {','if len(parts) == 0 {')],expect=0)
M('pin split',p,[(IX,'''			if len(parts) < 2 {
				return nil, fmt.Errorf("invalid repository line: %q", repo)
			}
''','')])
M('sig matches',p,[(IX,'if len(matches) != 2 {','if len(matches) > 2 {')])
M('group parts 3',p,[(G,'if len(parts) != 4 {','if len(parts) < 3 {')])
M('passwd parts 6',p,[(P,'if len(parts) != 7 {','if len(parts) > 7 {')])
M('repoabbr',p,[(RY,'if len(parts) < 2 {','if len(parts) < 1 {')])
M('cache des',p,[(C,'if len(des) == 0 {','if des == nil {')])
M('etag first',p,[(C,'if !ok || len(remoteEtag) == 0 || ','if !ok || ')])
M('sizes',p,[(RS,'} else if len(sizes) != 1 {','} else if len(sizes) > 1 {')])
M('datahash values',p,[(I,'if len(values) != 1 {','if len(values) > 1 {')])
M('last perms file',p,[(D,'''			if lastFile == nil {
				return nil, fmt.Errorf("cannot parse line %d: no file specified when setting permissions", linenr)
			}
''','')])
M('lastdir not reset',p,[(D,'''			lastDir = nil
			lastFile = nil
			continue''','''			lastFile = nil
			continue''')])
M('lastfile not reset',p,[(D,'''			lastDir = nil
			lastFile = nil
			continue''','''			lastDir = nil
			continue''')])
M('lastdiridx after append',p,[(D,'''			lastDirIdx = len(pkg.Files)
			pkg.Files = append(pkg.Files, *lastDir)''','''			pkg.Files = append(pkg.Files, *lastDir)
			lastDirIdx = len(pkg.Files)''')])
M('empty read resolve',p,[(RS,'''	if len(b) == 0 {
		return 0, nil
	}
''','')],expect=None) if 0 else None
M('val slice 3',p,[(AX,'val := line[2:]','val := line[3:]')])
M('checksum slice',p,[(AX,'strings.HasPrefix(val, "Q1")','len(val) > 0')])
# refactors
M('R cut',p,[(AX,'''		if len(line) < 2 || line[1:2] != ":" {
			return nil, fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)
		}

		token := line[:1]
		val := line[2:]
''','''		token, val, ok := strings.Cut(line, ":")
		if !ok || len(token) != 1 {
			return nil, fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)
		}
''')],expect=0)
M('R helper line',p,[(AX,'''		if len(line) < 2 || line[1:2] != ":" {
			return nil, fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)
		}

		token := line[:1]
		val := line[2:]
''','''		token, val, err := splitLine(line, linenr)
		if err != nil {
			return nil, err
		}
'''),(AX,'func ParsePackageIndex(','''func splitLine(line string, linenr int) (string, string, error) {
	if len(line) < 2 || line[1] != ':' {
		return "", "", fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)
	}
	return line[:1], line[2:], nil
}

func ParsePackageIndex(''')],expect=0)
M('R guard helper bool',p,[(AX,'if len(line) < 2 || line[1:2] != ":" {','if !wellFormed(line) {'),(AX,'func ParsePackageIndex(','''func wellFormed(line string) bool {
	return len(line) >= 2 && line[1:2] == ":"
}

func ParsePackageIndex(''')],expect=0)
M('R const',p,[(D,'func parseInstalledPerms','const permFields = 3\n\nfunc parseInstalledPerms'),(D,'len(permParts) != 3','len(permParts) != permFields')],expect=0)
M('R <3',p,[(D,'if len(permParts) != 3 {','if n := len(permParts); n < 3 || n > 3 {')],expect=0)
M('R range',p,[(V,'for i := 0; i < len(required.numbers); i++ {\n\t\tif actual.numbers[i] != required.numbers[i] {','for i, n := range required.numbers {\n\t\tif actual.numbers[i] != n {')],expect=0)
M('R min',p,[(V,'for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {','n := min(len(actual.numbers), len(required.numbers))\n\tfor i := 0; i < n; i++ {')],expect=0)
M('R compare range break',p,[(V,'for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {','for i := range actual.numbers {\n\t\tif i >= len(required.numbers) {\n\t\t\tbreak\n\t\t}')],expect=0)
M('R splitn',p,[(U,'parts := strings.Split(line, "=")','parts := strings.SplitN(line, "=", 2)')],expect=0)
M('R parts helper',p,[(G,'''	if len(parts) != 4 {
		return''','''	if want := 4; len(parts) != want {
		return''')],expect=0)
M('R switch',p,[(G,'''	if len(parts) != 4 {
		return fmt.Errorf("malformed line, contains %d parts, expecting 4", len(parts))
	}
''','''	switch len(parts) {
	case 4:
	default:
		return fmt.Errorf("malformed line, contains %d parts, expecting 4", len(parts))
	}
''')],expect=0)
M('R reorder lastdir',p,[(D,'''			lastDirIdx = len(pkg.Files)
			pkg.Files = append(pkg.Files, *lastDir)''','''			pkg.Files = append(pkg.Files, *lastDir)
			lastDirIdx = len(pkg.Files) - 1''')],expect=0)
M('R first pkg',p,[(I,'''	if len(values) != 1 {
		return "", fmt.Errorf("saw %d datahash values", len(values))
	}

	return values[0], nil''','''	if len(values) == 1 {
		return values[0], nil
	}

	return "", fmt.Errorf("saw %d datahash values", len(values))''')],expect=0)
M('R letter',p,[(V,'''	if len(actuals[4]) > 0 {
		letter = rune(actuals[4][0])''','''	if actuals[4] != "" {
		letter = rune(actuals[4][0])''')],expect=0)
M('R letter var',p,[(V,'''	if len(actuals[4]) > 0 {
		letter = rune(actuals[4][0])''','''	if l := actuals[4]; l != "" {
		letter = rune(l[0])''')],expect=0)
M('R des loop',p,[(C,'for _, de := range des[1:] {','for i := 1; i < len(des); i++ {\n\t\t\tde := des[i]')],expect=0)
M('R repo trim',p,[(IX,'repoName = parts[0][1:]','repoName = strings.TrimPrefix(parts[0], "@")')],expect=0)
M('R etag',p,[(C,'if !ok || len(remoteEtag) == 0 || remoteEtag[0] == "" {','if !ok {\n\t\treturn "", false\n\t}\n\tif len(remoteEtag) < 1 || remoteEtag[0] == "" {')],expect=0)
M('R fields destructure',p,[(P,'if len(parts) != 7 {','const fields = 7\n\tif got := len(parts); got != fields {')],expect=0)
M('counter every other',p,[(D,'''	var dirEntries = make([]string, 0, len(directoryChildren))
	for dir := range directoryChildren {
		dirEntries = append(dirEntries, dir)
	}
''','''	dirEntries := make([]string, len(directoryChildren))
	i := 1
	for dir := range directoryChildren {
		dirEntries[i] = dir
		i++
	}
''')])
M('R fill counter',p,[(R,'''	for i, ''','''	for i, ''')],expect=0)
M('R names counter',p,[(I,'''	for i, pkg := range pkgs {
		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, pkg.URL())
	}
	return names''','''	i := 0
	for _, pkg := range pkgs {
		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, pkg.URL())
		i++
	}
	return names''')],expect=0)
M('names counter two',p,[(I,'''	for i, pkg := range pkgs {
		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, pkg.URL())
	}
	return names''','''	i := 0
	for _, pkg := range pkgs {
		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, pkg.URL())
		i++
		if pkg.Name == "" {
			i++
		}
	}
	return names''')])
