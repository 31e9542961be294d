from m import M
C='pkg/apk/cache.go'; I='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'
def m(n,*e,**k): M(n,'C09',list(e),**k)
g='if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == "." || rel == ".." || strings.HasPrefix(rel, "../") {'
m('no guard',(C,g,'if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil && rel == "" {'))
m('no dot',(C,'rel == "." || ',''))
m('no dotdot',(C,'rel == ".." || ',''))
m('no prefix',(C,' || strings.HasPrefix(rel, "../")',''))
m('wrong prefix',(C,'strings.HasPrefix(rel, "../")','strings.HasPrefix(rel, "/..")'))
m('suffix instead',(C,'strings.HasPrefix(rel, "../")','strings.HasSuffix(rel, "../")'))
m('or to and',(C,'rel == ".." || strings','rel == ".." && strings'))
m('err ignored',(C,'err != nil || rel == "."','err == os.ErrClosed || rel == "."'))
m('string prefix',(C,g,'if !strings.HasPrefix(cacheFile, cleanroot) {'),)
m('raw return2',(C,'		return cacheFileFromEtag(cacheFile, finalEtag), nil','		return filepath.Join(cacheFileFromEtag(cacheFile, finalEtag), r.Header.Get("v")), nil'))
m('raw return',(C,'	return cacheFile, nil\n}\n\nfunc cacheDirF','	return filepath.Join(cacheFile, request.Header.Get("v")), nil\n}\n\nfunc cacheDirF'))
m('rel of other',(C,'filepath.Rel(cleanroot, cacheFile)','filepath.Rel(cleanroot, filepath.Join(root, repoDir))'))
m('check before join',(C,'cacheFile = filepath.Clean(cacheFile)\n','cacheFile = filepath.Clean(cacheFile)\n	defer func() { cacheFile = "" }()\n'),expect=0)
m('etag raw',(C,'url.QueryEscape(etag)+ext','etag+ext'))
m('etag raw idx',(C,'	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)','	if ext == ".tar.gz" {\n		return filepath.Join(cacheDir, etag+ext)\n	}\n	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)'))
m('etag unescape',(C,'url.QueryEscape(etag)+ext','func() string { s, _ := url.QueryUnescape(url.QueryEscape(etag)); return s }()+ext'))
m('etag no ext',(C,'url.QueryEscape(etag)+ext','url.QueryEscape(etag)+ext[:0]'),expect=1)
m('etag trim dots',(C,'url.QueryEscape(etag)+ext','strings.TrimSuffix(etag, "..")+ext'))
m('dir up',(C,'filepath.Join(filepath.Dir(cacheFile), "APKINDEX")','filepath.Join(filepath.Dir(filepath.Dir(cacheFile)), "..", "APKINDEX")'))
m('dir dir',(C,'	return filepath.Dir(cacheFile)\n}','	return filepath.Dir(filepath.Dir(cacheFile))\n}'))
m('tmp elsewhere',(C,'os.CreateTemp(cacheDir, "*.tmp")','os.CreateTemp(filepath.Dir(t.root), "*.tmp")'))
m('tmp pattern etag',(C,'os.CreateTemp(cacheDir, "*.tmp")','os.CreateTemp(cacheDir, resp.Header.Get("Etag")+"*.tmp")'),expect=1)
m('tmp by url',(C,'tmp, err := os.CreateTemp(cacheDir, "*.tmp")','tmp, err := os.Create(filepath.Join(cacheDir, request.URL.Path+".tmp"))'))
m('open header',(C,'filepath.Join(cacheDir, newest.Name())','filepath.Join(cacheDir, request.Header.Get("X-Name"))'))
m('pkg dir no check',(C,'if name := filepath.Base(dir); name == "." || name == ".." {','if name := filepath.Base(dir); name == "." {'))
m('pkg dir swapped',(C,'name == "." || name == ".." {','name == "." && name == ".." {'))
m('pkg dir name',(C,'	return dir, nil\n}','	return filepath.Join(dir, pkg.PackageName()), nil\n}'))
m('datahash raw',(I,'''	exp.PackageHash, err = hex.DecodeString(datahash)
	if err != nil {
		return nil, err
	}

	dat :=''','''	dat :='''))
m('datahash err ignored',(I,'''	exp.PackageHash, err = hex.DecodeString(datahash)
	if err != nil {
		return nil, err
	}

	dat :=''','''	exp.PackageHash, _ = hex.DecodeString(datahash)

	dat :='''))
m('chk raw',(I,'filepath.Join(cacheDir, pkgHexSum+".ctl.tar.gz")','filepath.Join(cacheDir, chk+".ctl.tar.gz")'))
m('chk b64',(I,'pkgHexSum := hex.EncodeToString(checksum)','pkgHexSum := base64.StdEncoding.EncodeToString(checksum)'))
m('sig by name',(I,'filepath.Join(cacheDir, ctlHex+".sig.tar.gz")','filepath.Join(cacheDir, pkg.PackageName()+".sig.tar.gz")'))
m('sig string',(I,'sigDst := filepath.Join(cacheDir, ctlHex+".sig.tar.gz")','sigDst := cacheDir + "/" + pkg.PackageName() + ".sig.tar.gz"'))
m('hash raw bytes',(I,'ctlHex := hex.EncodeToString(exp.ControlHash)','ctlHex := string(exp.ControlHash)'))
m('sibling',(I,'datDst := filepath.Join(cacheDir, datHex+".dat.tar.gz")','datDst := filepath.Join(cacheDir, "..", "..", "..", datHex+".dat.tar.gz")'))
m('mkdir unchecked',(I,'os.MkdirAll(cacheDir, 0o755)','os.MkdirAll(filepath.Join(a.cache.dir, pkg.PackageName()), 0o755)'))
m('expand elsewhere',(I,'expandapk.ExpandApk(ctx, rc, cacheDir)','expandapk.ExpandApk(ctx, rc, filepath.Join(cacheDir, pkg.PackageName()))'))
m('stream name',(X,'	p := fmt.Sprintf("%s-%d.%s", filepath.Join(w.parentDir, w.baseName), w.streamId, w.ext)','	p := fmt.Sprintf("%s-%d.%s", filepath.Join(w.parentDir, "..", "..", w.baseName), w.streamId, w.ext)'))
m('tar next to',(X,'os.CreateTemp(filepath.Dir(a.TarFile), "*.tar.tmp")','os.CreateTemp(filepath.Dir(filepath.Dir(filepath.Dir(a.TarFile))), "*.tar.tmp")'),)
m('root moved',(C,'root:         c.dir,','root:         filepath.Dir(c.dir),'))
m('root base',(C,'root:         c.dir,','root:         strings.TrimSuffix(c.dir, "/x"),'))
m('dir unescaped',(C,'repoDir = url.QueryEscape(u2.String())','repoDir = u2.String()'),expect=0)
# refactors
m('R within helper',(C,'''	cleanroot := filepath.Clean(root)
	'''+g+'''
		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
	}
	return cacheFile, nil
}''','''	if !within(root, cacheFile) {
		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, root)
	}
	return cacheFile, nil
}

func within(root, file string) bool {
	rel, err := filepath.Rel(filepath.Clean(root), file)
	if err != nil {
		return false
	}
	switch {
	case rel == ".", rel == "..":
		return false
	}
	return !strings.HasPrefix(rel, ".."+string(filepath.Separator))
}'''),expect=0)
m('R islocal',(C,g,'if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == "." || !filepath.IsLocal(rel) {'),expect=0)
m('R prefix',(C,g,'if !strings.HasPrefix(cacheFile, cleanroot+"/") {'),expect=0)
m('R switch rel',(C,g+'''
		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
	}
	return cacheFile, nil''','''rel, err := filepath.Rel(cleanroot, cacheFile)
	if err != nil {
		return "", fmt.Errorf("cache file %s: %w", cacheFile, err)
	}
	switch rel {
	case ".", "..":
	default:
		if !strings.HasPrefix(rel, "../") {
			return cacheFile, nil
		}
	}
	return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)'''),expect=0)
m('R etag name helper',(C,'	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)\n}','	return filepath.Join(cacheDir, etagName(etag, ext))\n}\n\nfunc etagName(etag, ext string) string { return url.QueryEscape(etag) + ext }'),expect=0)
m('R etag sprintf',(C,'	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)','	return filepath.Join(cacheDir, fmt.Sprintf("%s%s", url.QueryEscape(etag), ext))'),expect=0)
m('R pathescape',(C,'url.QueryEscape(etag)+ext','url.PathEscape(etag)+ext'),expect=0)
m('R etag if else',(C,'''	cacheDir := filepath.Dir(cacheFile)
	ext := ".etag"

	// Keep all the index files under APKINDEX/ with appropriate file extension.
	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
		cacheDir = filepath.Join(cacheDir, "APKINDEX")
		ext = ".tar.gz"
	}
''','''	cacheDir := cacheDirFromFile(cacheFile)
	ext := ".etag"
	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
		ext = ".tar.gz"
	}
'''),expect=0)
m('R cache name helper',(I,'''	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
''','''	ctlDst := cachedName(cacheDir, exp.ControlHash, "ctl")
'''),(I,'''	datDst := filepath.Join(cacheDir, datHex+".dat.tar.gz")
''','''	datDst := cachedName(cacheDir, exp.PackageHash, "dat")
'''),(I,'''	datHex := hex.EncodeToString(exp.PackageHash)
''',''),(I,'func (a *APK) cachedPackage(','''func cachedName(dir string, sum []byte, kind string) string {
	return filepath.Join(dir, hex.EncodeToString(sum)+"."+kind+".tar.gz")
}

func (a *APK) cachedPackage('''),expect=0)
m('R datahash encode',(I,'filepath.Join(cacheDir, datahash+".dat.tar.gz")','filepath.Join(cacheDir, hex.EncodeToString(exp.PackageHash)+".dat.tar.gz")'),expect=0)
m('R sprintf x',(I,'pkgHexSum := hex.EncodeToString(checksum)','pkgHexSum := fmt.Sprintf("%x", checksum)'),expect=0)
m('R move helper',(I,'''	if err := os.Rename(exp.ControlFile, ctlDst); err != nil {
		return nil, fmt.Errorf("renaming control file: %w", err)
	}

	exp.ControlFile = ctlDst
''','''	if err := moveInto(&exp.ControlFile, ctlDst); err != nil {
		return nil, err
	}
'''),(I,'func (a *APK) cachedPackage(','''func moveInto(file *string, dst string) error {
	if err := os.Rename(*file, dst); err != nil {
		return fmt.Errorf("renaming control file: %w", err)
	}
	*file = dst
	return nil
}

func (a *APK) cachedPackage('''),expect=0)
m('R loop moves',(I,'''	datHex := hex.EncodeToString(exp.PackageHash)
	datDst := filepath.Join(cacheDir, datHex+".dat.tar.gz")

	if err := os.Rename(exp.PackageFile, datDst); err != nil {
		return nil, fmt.Errorf("renaming control file: %w", err)
	}

	exp.PackageFile = datDst

	tarDst := strings.TrimSuffix(exp.PackageFile, ".gz")
	if err := os.Rename(exp.TarFile, tarDst); err != nil {
		return nil, fmt.Errorf("renaming control file: %w", err)
	}
	exp.TarFile = tarDst
''','''	datHex := hex.EncodeToString(exp.PackageHash)
	for _, mv := range []struct {
		file *string
		name string
	}{
		{&exp.PackageFile, datHex + ".dat.tar.gz"},
		{&exp.TarFile, datHex + ".dat.tar"},
	} {
		dst := filepath.Join(cacheDir, mv.name)
		if err := os.Rename(*mv.file, dst); err != nil {
			return nil, fmt.Errorf("renaming control file: %w", err)
		}
		*mv.file = dst
	}
'''),expect=0)
m('R prepare helper',(I,'''		if err := os.MkdirAll(cacheDir, 0o755); err != nil {
			return nil, fmt.Errorf("unable to create cache directory %q: %w", cacheDir, err)
		}
''','''		if err := ensureDir(cacheDir); err != nil {
			return nil, err
		}
'''),(I,'func packageAsURI(','''func ensureDir(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return fmt.Errorf("unable to create cache directory %q: %w", dir, err)
	}
	return nil
}

func packageAsURI('''),expect=0)
m('R fetchExpand helper',(I,'''	rc, err := a.FetchPackage(ctx, pkg)
	if err != nil {
		return nil, fmt.Errorf("fetching package %q: %w", pkg.PackageName(), err)
	}
	defer rc.Close()

	exp, err := expandapk.ExpandApk(ctx, rc, cacheDir)
	if err != nil {
		return nil, fmt.Errorf("expanding %s: %w", pkg.PackageName(), err)
	}
''','''	exp, err := fetchAndExpand(ctx, a, pkg, cacheDir)
	if err != nil {
		return nil, err
	}
'''),(I,'func packageAsURI(','''func fetchAndExpand(ctx context.Context, a *APK, pkg InstallablePackage, dir string) (*expandapk.APKExpanded, error) {
	rc, err := a.FetchPackage(ctx, pkg)
	if err != nil {
		return nil, fmt.Errorf("fetching package %q: %w", pkg.PackageName(), err)
	}
	defer rc.Close()

	exp, err := expandapk.ExpandApk(ctx, rc, dir)
	if err != nil {
		return nil, fmt.Errorf("expanding %s: %w", pkg.PackageName(), err)
	}
	return exp, nil
}

func packageAsURI('''),expect=0)
m('R offline helper',(C,'''		f, err := os.Open(filepath.Join(cacheDir, newest.Name()))
		if err != nil {
			return nil, err
		}
''','''		p := filepath.Join(cacheDir, newest.Name())
		f, err := os.Open(p)
		if err != nil {
			return nil, fmt.Errorf("opening %q: %w", p, err)
		}
'''),expect=0)
m('R retrieve tmpname',(C,'''		os.Remove(tmp.Name())
		return "", fmt.Errorf("unable to populate cache: %v", err)''','''		name := tmp.Name()
		_ = os.Remove(name)
		return "", fmt.Errorf("unable to populate cache: %v", err)'''),expect=0)
m('R pkg dir cut',(C,'''	if ext := filepath.Ext(p); ext != ".apk" {
		return "", fmt.Errorf("unexpected ext (%s) to cache dir: %q", ext, p)
	}

	dir := strings.TrimSuffix(p, ".apk")
''','''	dir, ok := strings.CutSuffix(p, ".apk")
	if !ok {
		return "", fmt.Errorf("unexpected ext (%s) to cache dir: %q", filepath.Ext(p), p)
	}
'''),expect=0)
m('R filename',(X,'''	p := fmt.Sprintf("%s-%d.%s", filepath.Join(w.parentDir, w.baseName), w.streamId, w.ext)''','''	p := filepath.Join(w.parentDir, fmt.Sprintf("%s-%d.%s", w.baseName, w.streamId, w.ext))'''),expect=0)
m('R tarfilename',(X,'tarfilename := strings.TrimSuffix(sw.CurrentName(), ".gz")','name := sw.CurrentName()\n			tarfilename := name[:len(name)-len(".gz")]'),expect=0)
m('R defer cleanup',(X,'''	uf, err = os.CreateTemp(filepath.Dir(a.TarFile), "*.tar.tmp")''','''	dir := filepath.Dir(a.TarFile)
	uf, err = os.CreateTemp(dir, "*.tar.tmp")'''),expect=0)
