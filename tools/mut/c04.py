import sys; sys.path.insert(0,'/tmp/mut')
from m import M
F='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'; C='pkg/apk/cache.go'
M('dat under ctl','C04',[(F,'datHex+".dat.tar.gz"','ctlHex+".dat.tar.gz"'),(F,'datHex := hex.EncodeToString(exp.PackageHash)\n','')])
M('ctl by name','C04',[(F,'ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")','ctlDst := filepath.Join(cacheDir, pkg.PackageName()+".ctl.tar.gz")')])
M('lookup by name','C04',[(F,'ctl := filepath.Join(cacheDir, pkgHexSum+".ctl.tar.gz")','ctl := filepath.Join(cacheDir, pkg.PackageName()+".ctl.tar.gz")')])
M('dat lookup by ctl','C04',[(F,'dat := filepath.Join(cacheDir, datahash+".dat.tar.gz")','dat := filepath.Join(cacheDir, pkgHexSum+".dat.tar.gz")')])
M('sig swapped','C04',[(F,'ctlHex+".sig.tar.gz"','ctlHex+".ctl.tar.gz"')])
M('tar from ctl','C04',[(F,'exp.TarFile = strings.TrimSuffix(exp.PackageFile, ".gz")\n	data','exp.TarFile = strings.TrimSuffix(exp.ControlFile, ".gz")\n	data')])
M('tar dst','C04',[(F,'tarDst := strings.TrimSuffix(exp.PackageFile, ".gz")','tarDst := strings.TrimSuffix(exp.ControlFile, ".gz")')])
M('hash of wrong','C04',[(F,'exp.PackageHash, err = hex.DecodeString(datahash)','exp.PackageHash, err = hex.DecodeString(pkgHexSum)')])
M('truncated sum','C04',[(F,'pkgHexSum := hex.EncodeToString(checksum)','pkgHexSum := hex.EncodeToString(checksum[:4])'),(F,'ctlHex := hex.EncodeToString(exp.ControlHash)','ctlHex := hex.EncodeToString(exp.ControlHash[:4])')])
M('R helper','C04',[(F,'''	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
''','''	ctlDst := ctlPath(cacheDir, ctlHex)
'''),(F,'ctl := filepath.Join(cacheDir, pkgHexSum+".ctl.tar.gz")','ctl := ctlPath(cacheDir, pkgHexSum)'),(F,'func (a *APK) cachePackage(','''func ctlPath(d, h string) string {
	return filepath.Join(d, fmt.Sprintf("%s.ctl.tar.gz", h))
}

func (a *APK) cachePackage(''')],0)
M('R loop','C04',[(F,'''	tarDst := strings.TrimSuffix(exp.PackageFile, ".gz")
	if err := os.Rename(exp.TarFile, tarDst); err != nil {
		return nil, fmt.Errorf("renaming control file: %w", err)
	}
	exp.TarFile = tarDst
''','''	mv := func(src, dst string) (string, error) {
		if err := os.Rename(src, dst); err != nil {
			return "", fmt.Errorf("renaming %q: %w", src, err)
		}
		return dst, nil
	}
	var err error
	exp.TarFile, err = mv(exp.TarFile, filepath.Join(cacheDir, datHex+".dat.tar"))
	if err != nil {
		return nil, err
	}
''')],0)
M('R loadData helper','C04',[(F,'''	data, err := exp.PackageData()
	if err != nil {
		return nil, err
	}
	info, err := data.Stat()
	if err != nil {
		return nil, err
	}
	exp.TarFS, err = tarfs.New(data, info.Size())
	if err != nil {
		return nil, err
	}

	return &exp, nil
}
''','''	if err := indexData(&exp); err != nil {
		return nil, err
	}
	return &exp, nil
}

func indexData(exp *expandapk.APKExpanded) error {
	data, err := exp.PackageData()
	if err != nil {
		return err
	}
	info, err := data.Stat()
	if err != nil {
		return err
	}
	exp.TarFS, err = tarfs.New(data, info.Size())
	return err
}
''')],0)
