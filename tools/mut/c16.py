from m import *
D='pkg/apk/installed.go'; G='pkg/passwd/group.go'; P='pkg/passwd/passwd.go'; AX='pkg/apk/apkindex.go'; K='pkg/apk/package.go'; W='pkg/apk/world.go'; RP='pkg/apk/repo.go'
p='C16'
M('reader letter case',p,[(D,'case "L":','case "l":')])
M('reader drops repo commit',p,[(D,'		case "c":\n			pkg.RepoCommit = val\n','')])
M('reader swaps',p,[(D,'pkg.Origin = val','pkg.Maintainer = val')])
M('replaces separator',p,[(K,'strings.Join(pkg.Replaces, " ")','strings.Join(pkg.Replaces, ",")')])
M('replaces line dropped',p,[(K,'r:%s','q:%s')])
M('not emptied list',p,[(AX,'	if val == "" {\n		return nil\n	}\n','')])
M('uid hex',p,[(D,'strconv.Atoi(permParts[0])','func() (int, error) { n, err := strconv.ParseInt(permParts[0], 8, 64); return int(n), err }()')])
M('perm decimal',p,[(D,'M:%d:%d:%04o','M:%d:%d:%d')])
M('perm read decimal',p,[(D,'strconv.ParseInt(permParts[2], 8, 64)','strconv.ParseInt(permParts[2], 10, 64)')])
M('uid gid swapped in writer',p,[(D,'"a:%d:%d:%04o", user, group','"a:%d:%d:%04o", group, user')])
M('uid gid swapped in reader',p,[(D,'lastFile.Uid = uid\n			lastFile.Gid = gid','lastFile.Uid = gid\n			lastFile.Gid = uid')])
M('M of a copy',p,[(D,'			// pkg.Files holds copies, so record the permissions there too.\n			pkg.Files[lastDirIdx] = *lastDir\n','			_ = lastDirIdx\n')])
M('M on last file',p,[(D,'pkg.Files[lastDirIdx] = *lastDir','pkg.Files[len(pkg.Files)-1-0*lastDirIdx] = *lastDir\n			lastDirIdx = 0')],expect=0)
M('dir idx once',p,[(D,'lastDirIdx = len(pkg.Files)','if lastDirIdx == 0 {\n				lastDirIdx = len(pkg.Files)\n			}')])
M('dir default perm',p,[(D,'if perm != 0o755 ||','if perm != 0o750 ||')])
M('file default perm',p,[(D,'if perm != 0o644 ||','if perm != 0o755 ||')])
M('group ignored',p,[(D,'if perm != 0o644 || user != 0 || group != 0 {','if perm != 0o644 || user != 0 {')])
M('perm lost bits',p,[(D,'f.Mode & 0o7777','f.Mode & 0o777')])
M('reader mask perms',p,[(D,'lastFile.Mode = perms','lastFile.Mode = perms & 0o777')])
M('checksum hex',p,[(K,'"Q1" + base64.StdEncoding.EncodeToString(p.Checksum)','"Q1" + base64.URLEncoding.EncodeToString(p.Checksum)')])
M('checksum prefix reader',p,[(D,'strings.HasPrefix(val, "Q1")','strings.HasPrefix(val, "Q2")')])
M('checksum slice',p,[(AX,'DecodeString(val[2:])','DecodeString(val[1:])')])
M('checksum double prefix',p,[(K,'"C:%s", pkg.ChecksumString()','"C:Q1%s", pkg.ChecksumString()')])
M('time millis',p,[(K,'pkg.BuildTime.Unix()','pkg.BuildTime.UnixMilli()')])
M('time millis read',p,[(D,'time.Unix(i, 0)','time.UnixMilli(i)')])
M('index t unix nano',p,[(AX,'t:{{.BuildTime.Unix}}','t:{{.BuildTime.UnixNano}}')])
M('index drop k',p,[(AX,'		{{- if .ProviderPriority}}\n		k:{{.ProviderPriority}}\n		{{- end}}\n','')])
M('index cond wrong field',p,[(AX,'{{- if .InstallIf}}','{{- if .Dependencies}}')])
M('index cond wrong field 2',p,[(AX,'{{- if .InstalledSize}}','{{- if .Size}}')])
M('index value wrong field',p,[(AX,'I:{{.InstalledSize}}','I:{{.Size}}')])
M('index join',p,[(AX,'return strings.Join(s, " ")','return strings.Join(s, "  ")')])
M('index no join',p,[(AX,'D:{{join .Dependencies}}','D:{{.Dependencies}}')])
M('index letter',p,[(AX,'o:{{.Origin}}','O:{{.Origin}}')])
M('index reader base',p,[(AX,'size, err := strconv.ParseUint(val, 10, 64)','size, err := strconv.ParseUint(val, 0, 64)')])
M('index blank line lost',p,[(AX,'{{- end}}\n\n	`)))','{{- end}}\n	`)))')])
M('index tar not closed',p,[(AX,'	if err := tw.Close(); err != nil {\n		return nil, fmt.Errorf("finishing tar: %w", err)\n	}\n','')])
M('index no description',p,[(AX,'apkindex.Description = string(description)','_ = description')])
M('index desc as index',p,[(AX,'{descriptionFilename, []byte(apkindex.Description)}','{descriptionFilename + ".txt", []byte(apkindex.Description)}')])
M('reader keeps package',p,[(AX,'			pkg = &Package{}\n			continue','			if len(pkg.Provides) > 0 {\n				pkg = &Package{}\n			}\n			continue')])
M('passwd order',p,[(P,'ue.UID, ue.GID, ue.Info','ue.GID, ue.UID, ue.Info')])
M('passwd shell home',p,[(P,'ue.HomeDir = parts[5]\n	ue.Shell = parts[6]','ue.HomeDir = parts[6]\n	ue.Shell = parts[5]')])
M('passwd octal',p,[(P,'%s:%s:%d:%d:%s:%s:%s','%s:%s:%d:%o:%s:%s:%s')])
M('passwd no newline',p,[(P,':%s:%s:%s\\n"',':%s:%s:%s"')])
M('passwd parse base 0',p,[(P,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 0, 32)')])
M('passwd parse 16 bits',p,[(P,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 16)')])
M('group separator',p,[(G,'strings.Split(parts[3], ",")','strings.Split(parts[3], " ")')])
M('group separator w',p,[(G,'strings.Join(ge.Members, ",")','strings.Join(ge.Members, ", ")')])
M('group empty',p,[(G,'	if parts[3] != "" {\n		ge.Members = strings.Split(parts[3], ",")\n	}','	ge.Members = strings.Split(parts[3], ",")')])
M('world sep',p,[(W,'strings.Join(copied, "\\n")','strings.Join(copied, ",")')])
M('world path',p,[(W,'filepath.Join("etc", "apk", "world")','filepath.Join("etc", "apk", "worlds")')])
M('repos sep',p,[(RP,'strings.Join(repos, "\\n")','strings.Join(repos, " ")')])
M('repos skip first',p,[(RP,'	for scanner.Scan() {\n		repos = append(repos, scanner.Text())','	scanner.Scan()\n	for scanner.Scan() {\n		repos = append(repos, scanner.Text())')])
M('Z not read',p,[(D,'lastFile.PAXRecords = map[string]string{paxRecordsChecksumKey: val}','lastFile.PAXRecords = nil')])
M('Z on all',p,[(D,'pkg.Files[len(pkg.Files)-1] = *lastFile\n			}','pkg.Files[0] = *lastFile\n			}')])
M('truncating db',p,[(D,'os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)','os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)')])
M('no blank line',p,[(D,'strings.Join(pkgLines, "\\n") + "\\n\\n"','strings.Join(pkgLines, "\\n") + "\\n"')])
M('file full name',p,[(D,'filepath.Base(f.Name)','f.Name')])
M('reader lastFile kept',p,[(D,'		case "R":\n			fullpath := val\n			if lastDir != nil {','		case "R":\n			fullpath := val\n			if lastDir != nil && lastFile == nil {')])
# refactors
M('R builder',p,[(K,'out = append(out, fmt.Sprintf("P:%s", pkg.Name))','out = append(out, "P:"+pkg.Name)'),(K,'out = append(out, fmt.Sprintf("S:%d", pkg.Size))','out = append(out, "S:"+strconv.FormatUint(pkg.Size, 10))'),(K,'"strings"','"strconv"\n	"strings"')],expect=0)
M('R add helper',p,[(K,'func PackageToInstalled(pkg *Package) (out []string) {\n','func PackageToInstalled(pkg *Package) (out []string) {\n	add := func(l string, v any) {\n		out = append(out, fmt.Sprintf("%s:%v", l, v))\n	}\n'),(K,'out = append(out, fmt.Sprintf("P:%s", pkg.Name))','add("P", pkg.Name)'),(K,'out = append(out, fmt.Sprintf("I:%d", pkg.InstalledSize))','add("I", pkg.InstalledSize)'),(K,'out = append(out, fmt.Sprintf("t:%d", pkg.BuildTime.Unix()))','add("t", pkg.BuildTime.Unix())'),(K,'out = append(out, fmt.Sprintf("D:%s", strings.Join(pkg.Dependencies, " ")))','add("D", strings.Join(pkg.Dependencies, " "))')],expect=0)
M('R table writer',p,[(K,'	out = append(out, fmt.Sprintf("P:%s", pkg.Name))\n	out = append(out, fmt.Sprintf("V:%s", pkg.Version))\n	out = append(out, fmt.Sprintf("A:%s", pkg.Arch))\n','	for _, f := range []struct{ letter, value string }{{"P", pkg.Name}, {"V", pkg.Version}, {"A", pkg.Arch}} {\n		out = append(out, f.letter+":"+f.value)\n	}\n')],expect=0)
M('R omit empty',p,[(K,'	out = append(out, fmt.Sprintf("U:%s", pkg.URL))\n','	if pkg.URL != "" {\n		out = append(out, fmt.Sprintf("U:%s", pkg.URL))\n	}\n'),(K,'	out = append(out, fmt.Sprintf("k:%d", pkg.ProviderPriority))\n','	if pkg.ProviderPriority > 0 {\n		out = append(out, fmt.Sprintf("k:%d", pkg.ProviderPriority))\n	}\n')],expect=0)
M('omit wrong',p,[(K,'	out = append(out, fmt.Sprintf("k:%d", pkg.ProviderPriority))\n','	if pkg.ProviderPriority > 1 {\n		out = append(out, fmt.Sprintf("k:%d", pkg.ProviderPriority))\n	}\n')])
M('R manual join',p,[(K,'	out = append(out, fmt.Sprintf("p:%s", strings.Join(pkg.Provides, " ")))\n','	var sb strings.Builder\n	sb.WriteString("p:")\n	for i, s := range pkg.Provides {\n		if i > 0 {\n			sb.WriteByte(\' \')\n		}\n		sb.WriteString(s)\n	}\n	out = append(out, sb.String())\n')],expect=0)
M('R reader cut',p,[(D,'		if len(line) < 2 || line[1:2] != ":" {\n			return nil, fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)\n		}\n\n		token := line[:1]\n		val := line[2:]\n','		token, val, ok := strings.Cut(line, ":")\n		if !ok || len(token) != 1 {\n			return nil, fmt.Errorf("cannot parse line %d: expected \\":\\" in not found", linenr)\n		}\n')],expect=0)
M('R reader byte',p,[(AX,'		token := line[:1]\n','		token := string(line[0])\n')],expect=0)
M('R reader fields',p,[(AX,'	return strings.Split(val, " ")','	return strings.Fields(val)')],expect=0)
M('R index reader map',p,[(AX,'		switch token {\n		case "P":\n			pkg.Name = val\n		case "V":\n			pkg.Version = val\n','		texts := map[string]*string{"P": &pkg.Name, "V": &pkg.Version}\n		if t, ok := texts[token]; ok {\n			*t = val\n		}\n		switch token {\n')],expect=0)
M('R passwd concat',p,[(P,'_, err := fmt.Fprintf(w, "%s:%s:%d:%d:%s:%s:%s\\n", ue.UserName, ue.Password, ue.UID, ue.GID, ue.Info, ue.HomeDir, ue.Shell)','line := strings.Join([]string{ue.UserName, ue.Password, strconv.FormatUint(uint64(ue.UID), 10), strconv.FormatUint(uint64(ue.GID), 10), ue.Info, ue.HomeDir, ue.Shell}, ":") + "\\n"\n	_, err := io.WriteString(w, line)')],expect=0)
M('R passwd bufio',p,[(P,'	for _, ue := range uf.Entries {\n		if err := ue.Write(w); err != nil {\n			return fmt.Errorf("unable to write passwd entry: %w", err)\n		}\n	}\n\n	return nil','	bw := bufio.NewWriter(w)\n	for i := range uf.Entries {\n		if err := uf.Entries[i].Write(bw); err != nil {\n			return fmt.Errorf("unable to write passwd entry: %w", err)\n		}\n	}\n	return bw.Flush()')],expect=0)
M('bufio no flush',p,[(P,'	for _, ue := range uf.Entries {\n		if err := ue.Write(w); err != nil {\n			return fmt.Errorf("unable to write passwd entry: %w", err)\n		}\n	}\n\n	return nil','	bw := bufio.NewWriter(w)\n	for i := range uf.Entries {\n		if err := uf.Entries[i].Write(bw); err != nil {\n			return fmt.Errorf("unable to write passwd entry: %w", err)\n		}\n	}\n	return nil')])
M('R perm helper',p,[(D,'				pkgLines = append(pkgLines, fmt.Sprintf("M:%d:%d:%04o", user, group, perm))','				pkgLines = append(pkgLines, permLine("M", user, group, perm))'),(D,'				pkgLines = append(pkgLines, fmt.Sprintf("a:%d:%d:%04o", user, group, perm))','				pkgLines = append(pkgLines, permLine("a", user, group, perm))'),(D,'// isInstalledPackage','func permLine(l string, u, g int, m int64) string {\n	return fmt.Sprintf("%s:%d:%d:%04o", l, u, g, m)\n}\n\n// isInstalledPackage')],expect=0)
M('R perm scan via index',p,[(D,'lastDirIdx = len(pkg.Files)\n			pkg.Files = append(pkg.Files, *lastDir)','pkg.Files = append(pkg.Files, *lastDir)\n			lastDirIdx = len(pkg.Files) - 1')],expect=0)
M('R buffer write',p,[(D,'	b := []byte(strings.Join(pkgLines, "\\n") + "\\n\\n")\n	if _, err := installedFile.Write(b); err != nil {','	var buf bytes.Buffer\n	for _, l := range pkgLines {\n		fmt.Fprintln(&buf, l)\n	}\n	buf.WriteByte(\'\\n\')\n	if _, err := buf.WriteTo(installedFile); err != nil {'),(D,'	"bufio"','	"bufio"\n	"bytes"')],expect=0)
M('R buffer write2',p,[(D,'	b := []byte(strings.Join(pkgLines, "\\n") + "\\n\\n")\n	if _, err := installedFile.Write(b); err != nil {','	if _, err := fmt.Fprintf(installedFile, "%s\\n\\n", strings.Join(pkgLines, "\\n")); err != nil {')],expect=0)
M('R world clone',p,[(W,'	copied := make([]string, len(packages))\n	copy(copied, packages)\n','	copied := append([]string(nil), packages...)\n')],expect=0)
M('R world lines',p,[(W,'	data := strings.Join(copied, "\\n") + "\\n"\n','	var data string\n	for _, p := range copied {\n		data += p + "\\n"\n	}\n')],expect=0)
M('R repos fields',p,[(RP,'	scanner := bufio.NewScanner(reposFile)\n	for scanner.Scan() {\n		repos = append(repos, scanner.Text())\n	}\n	if err := scanner.Err(); err != nil {\n		return nil, fmt.Errorf("failed to read repositories file: %w", err)\n	}\n	return repos, nil','	data, err := io.ReadAll(reposFile)\n	if err != nil {\n		return nil, fmt.Errorf("failed to read repositories file: %w", err)\n	}\n	return strings.Split(strings.TrimSuffix(string(data), "\\n"), "\\n"), nil'),(RP,'	"bufio"\n','')],expect=0)
M('R template cond order',p,[(AX,'{{- if and .BuildTime (not .BuildTime.IsZero)}}','{{- if not .BuildTime.IsZero}}')],expect=0)
M('R template with',p,[(AX,'{{- if .Origin}}\n		o:{{.Origin}}','{{- with .Origin}}\n		o:{{.}}')],expect=0)
M('R reader setField helper',p,[(AX,'		case "S":\n			size, err := strconv.ParseUint(val, 10, 64)\n			if err != nil {\n				return nil, fmt.Errorf("cannot parse size field %s: %w", val, err)\n			}\n			pkg.Size = size\n','		case "S":\n			if err := setSize(&pkg.Size, val); err != nil {\n				return nil, err\n			}\n'),(AX,'func IndexFromArchive','func setSize(to *uint64, val string) error {\n	size, err := strconv.ParseUint(val, 10, 64)\n	if err == nil {\n		*to = size\n	}\n	return err\n}\n\nfunc IndexFromArchive')],expect=0)
M('R reader parse func',p,[(AX,'	packages := []*Package{}\n','	packages := make([]*Package, 0, 100)\n')],expect=0)
M('R checksum append',p,[(K,'return "Q1" + base64.StdEncoding.EncodeToString(p.Checksum)','return fmt.Sprintf("Q1%s", base64.StdEncoding.EncodeToString(p.Checksum))')],expect=0)
M('R files ptr loop',p,[(D,'	for _, f := range sortedFiles {\n		perm','	for i := range sortedFiles {\n		f := &sortedFiles[i]\n		perm')],expect=0)
M('R sort inline name',p,[(D,'	sortedFiles := sortTarHeaders(files)\n','	var sortedFiles []tar.Header\n	sortedFiles = append(sortedFiles, sortTarHeaders(files)...)\n')],expect=0)
