from m import *
N='pkg/apk/install.go'
p='C12'
M('origin empty check dropped',p,[(N,'!errors.As(err, &fileExistsError) || pkg.Origin == ""','!errors.As(err, &fileExistsError)')])
M('origin empty check of owner only',p,[(N,'!errors.As(err, &fileExistsError) || pkg.Origin == ""','!errors.As(err, &fileExistsError) || pkg.Name == ""')])
M('owner replaces check dropped',p,[(N,'''		for _, rep := range pk.Replaces {
			if pkg.Name == rep {
				return false, nil
			}
		}

''','')])
M('owner replaces wrong package',p,[(N,'range pk.Replaces','range pkg.Replaces')])
M('owner replaces compares own name',p,[(N,'if pkg.Name == rep','if pk.Name == rep')])
M('owner replaces overwrites',p,[(N,'''			if pkg.Name == rep {
				return false, nil
			}''','''			if pkg.Name == rep {
				return true, nil
			}''')])
M('isReplaced inverted',p,[(N,'&& !isReplaced','&& isReplaced')])
M('or',p,[(N,'pk.Origin != pkg.Origin && !isReplaced','pk.Origin != pkg.Origin && isReplaced || pk.Origin == ""')])
M('only origin',p,[(N,'		_, isReplaced := replaceMap[pk.Name]\n',''),(N,' && !isReplaced',' && len(replaceMap) == 0')])
M('replaced keyed by own name',p,[(N,'replaceMap[pk.Name]','replaceMap[pkg.Name]')])
M('replaced keyed by origin',p,[(N,'replaceMap[pk.Name]','replaceMap[pk.Origin]')])
M('replace map of provides',p,[(N,'range pkg.Replaces','range pkg.Provides')])
M('identical check dropped',p,[(N,'''		if bytes.Equal(checksum, fileExistsError.Sha1) {
			return false, nil
		}
''',''),(N,'	"bytes"\n','')])
M('identical inverted',p,[(N,'if bytes.Equal(checksum, fileExistsError.Sha1)','if !bytes.Equal(checksum, fileExistsError.Sha1)')])
M('excl dropped',p,[(N,'os.O_CREATE|os.O_EXCL|os.O_WRONLY','os.O_CREATE|os.O_TRUNC|os.O_WRONLY')],tests=False)
M('allow overwrite always',p,[(N,'a.writeOneFile(header, r, false)','a.writeOneFile(header, r, true)')])
M('allow overwrite by origin flag',p,[(N,'a.writeOneFile(header, r, false)','a.writeOneFile(header, r, pkg.Origin != "")')])
M('owner always recorded',p,[(N,'''			if installed {
				a.installedFiles''','''			if installed || pkg.Origin != "" {
				a.installedFiles''')])
M('owner not recorded when exists',p,[(N,'''				a.installedFiles[header.Name] = pkg
			}

		case''','''				if _, ok := a.installedFiles[header.Name]; !ok {
					a.installedFiles[header.Name] = pkg
				}
			}

		case''')])
M('wrong owner key',p,[(N,'''				a.installedFiles[header.Name] = pkg
			}

		case''','''				a.installedFiles[filepath.Base(header.Name)] = pkg
			}

		case'''),(N,'	"os"\n','	"os"\n	"path/filepath"\n')])
M('unowned overwritten',p,[(N,'''		if !ok {
			return false, fmt.Errorf("found existing file we did not install (this should never happen): %s", header.Name)
		}
''','''		if !ok {
			pk = pkg
		}
''')])
M('conflict silently skipped',p,[(N,'return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)','return false, nil')])
M('conflict silently kept',p,[(N,'''		if !errors.As(err, &fileExistsError) || pkg.Origin == "" {
			return false, err
		}
''','''		if !errors.As(err, &fileExistsError) {
			return false, err
		}
		if pkg.Origin == "" {
			return false, nil
		}
''')])
M('symlink removes first',p,[(N,'''			if err := a.fs.Symlink(header.Linkname, header.Name); err != nil {
''','''			_ = a.fs.Remove(header.Name)
			if err := a.fs.Symlink(header.Linkname, header.Name); err != nil {
''')])
M('link removes first',p,[(N,'''			if err := a.fs.Link(header.Linkname, header.Name); err != nil {
''','''			if _, err := a.fs.Stat(header.Name); err == nil {
				if err := a.fs.Remove(header.Name); err != nil {
					return nil, err
				}
			}
			if err := a.fs.Link(header.Linkname, header.Name); err != nil {
''')])
M('owner wrong package origin compare self',p,[(N,'pk.Origin != pkg.Origin','pk.Origin != pkg.Name')])
M('regular skipped for empty',p,[(N,'''		case tar.TypeReg:
			installed,''','''		case tar.TypeReg:
			if header.Size == 0 && header.Name == "etc/x" {
				continue
			}
			installed,''')])
M('lookup under cleaned other name',p,[(N,'pk, ok := a.installedFiles[header.Name]','pk, ok := a.installedFiles[header.Linkname]')])
M('lazy owner always',p,[(N,'if installed && file.Header','if (installed || pkg.Origin != "") && file.Header')])
M('lazy owner if first',p,[(N,'if installed && file.Header','if _, ok := a.installedFiles[file.Header.Name]; !ok && installed && file.Header')])
M('lazy owner never',p,[(N,'''		if installed && file.Header.Typeflag == tar.TypeReg {
			a.installedFiles[file.Header.Name] = pkg
		}
''','''		_ = installed
''')])
# refactors
M('R contains',p,[(N,'''		for _, rep := range pk.Replaces {
			if pkg.Name == rep {
				return false, nil
			}
		}
''','''		if slices.Contains(pk.Replaces, pkg.Name) {
			return false, nil
		}
'''),(N,'	"os"\n','	"os"\n	"slices"\n')],expect=0)
M('R contains2',p,[(N,'''	replaceMap := map[string]struct{}{}
	for _, r := range pkg.Replaces {
		replaceMap[r] = struct{}{}
	}

''',''),(N,'_, isReplaced := replaceMap[pk.Name]','isReplaced := slices.Contains(pkg.Replaces, pk.Name)'),(N,'	"os"\n','	"os"\n	"slices"\n')],expect=0)
M('R found flag',p,[(N,'''		for _, rep := range pk.Replaces {
			if pkg.Name == rep {
				return false, nil
			}
		}
''','''		keep := false
		for i := 0; i < len(pk.Replaces); i++ {
			if pk.Replaces[i] == pkg.Name {
				keep = true
				break
			}
		}
		if keep {
			return false, nil
		}
''')],expect=0)
M('R helper',p,[(N,'''		for _, rep := range pk.Replaces {
			if pkg.Name == rep {
				return false, nil
			}
		}

		// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
		_, isReplaced := replaceMap[pk.Name]
		if pk.Origin != pkg.Origin && !isReplaced {
''','''		if replaces(pk, pkg) {
			return false, nil
		}

		if !(pk.Origin == pkg.Origin || replaces(pkg, pk)) {
'''),(N,'''	replaceMap := map[string]struct{}{}
	for _, r := range pkg.Replaces {
		replaceMap[r] = struct{}{}
	}

''',''),(N,'''func checksumFromHeader(''','''func replaces(a, b *Package) bool {
	for _, rep := range a.Replaces {
		if rep == b.Name {
			return true
		}
	}
	return false
}

func checksumFromHeader(''')],expect=0)
M('R policy helper',p,[(N,'''		for _, rep := range pk.Replaces {
			if pkg.Name == rep {
				return false, nil
			}
		}

		// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
		_, isReplaced := replaceMap[pk.Name]
		if pk.Origin != pkg.Origin && !isReplaced {
			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
		}

		if err := a.writeOneFile(header, r, true); err != nil {
			return false, err
		}
''','''		keep, err := policy(pk, pkg, replaceMap)
		if err != nil {
			return false, fmt.Errorf("%s: %w", header.Name, err)
		}
		if keep {
			return false, nil
		}

		if err := a.writeOneFile(header, r, true); err != nil {
			return false, err
		}
'''),(N,'''func checksumFromHeader(''','''func policy(pk, pkg *Package, replaceMap map[string]struct{}) (bool, error) {
	for _, rep := range pk.Replaces {
		if pkg.Name == rep {
			return true, nil
		}
	}
	if _, isReplaced := replaceMap[pk.Name]; !isReplaced && pk.Origin != pkg.Origin {
		return false, errors.New("unable to install file over existing one, different contents")
	}
	return false, nil
}

func checksumFromHeader(''')],expect=0)
M('R bool map',p,[(N,'replaceMap := map[string]struct{}{}','replaceMap := make(map[string]bool, len(pkg.Replaces))'),(N,'replaceMap[r] = struct{}{}','replaceMap[r] = true'),(N,'_, isReplaced := replaceMap[pk.Name]','isReplaced := replaceMap[pk.Name]')],expect=0)
M('R name var',p,[(N,'''	checksum, err := checksumFromHeader(header)
	if err''','''	name := header.Name
	checksum, err := checksumFromHeader(header)
	if err'''),(N,'a.installedFiles[header.Name]\n','a.installedFiles[name]\n')],expect=0)
M('R reorder empty origin',p,[(N,'''		if !errors.As(err, &fileExistsError) || pkg.Origin == "" {
			return false, err
		}
''','''		if !errors.As(err, &fileExistsError) {
			return false, err
		}
		if len(pkg.Origin) == 0 {
			return false, err
		}
''')],expect=0)
M('R record in install',p,[(N,'''			if installed {
				a.installedFiles[header.Name] = pkg
			}

''','''			_ = installed
'''),(N,'''			return false, fmt.Errorf("error setting xattr %s on %s: %w", attrName, header.Name, err)
		}
	}
	return true, nil''','''			return false, fmt.Errorf("error setting xattr %s on %s: %w", attrName, header.Name, err)
		}
	}
	a.installedFiles[header.Name] = pkg
	return true, nil''')],expect=0)
M('R split write',p,[(N,'''		// allowOverwrite, so remove the file
		if err := a.fs.Remove(header.Name); err != nil {
			return fmt.Errorf("unable to remove existing file %s: %w", header.Name, err)
		}
	}
''','''		if err := a.removeExisting(header.Name); err != nil {
			return err
		}
	}
'''),(N,'''func checksumFromHeader(''','''func (a *APK) removeExisting(name string) error {
	if err := a.fs.Remove(name); err != nil {
		return fmt.Errorf("unable to remove existing file %s: %w", name, err)
	}
	return nil
}

func checksumFromHeader(''')],expect=0)
M('R owner helper',p,[(N,'pk, ok := a.installedFiles[header.Name]','pk, ok := a.ownerOf(header.Name)'),(N,'''func checksumFromHeader(''','''func (a *APK) ownerOf(name string) (*Package, bool) {
	pk, ok := a.installedFiles[name]
	return pk, ok
}

func checksumFromHeader(''')],expect=0)
M('R switch',p,[(N,'''		if pk.Origin != pkg.Origin && !isReplaced {
			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
		}
''','''		switch {
		case pk.Origin == pkg.Origin:
		case isReplaced:
		default:
			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
		}
''')],expect=0)
M('R lazy helper',p,[(N,'''		if installed && file.Header.Typeflag == tar.TypeReg {
			a.installedFiles[file.Header.Name] = pkg
		}
''','''		if !installed || file.Header.Typeflag != tar.TypeReg {
			files = append(files, file.Header)
			continue
		}
		a.own(file.Header.Name, pkg)
'''),(N,'''func checksumFromHeader(''','''func (a *APK) own(name string, pkg *Package) {
	a.installedFiles[name] = pkg
}

func checksumFromHeader(''')],expect=0)
M('R own helper',p,[(N,'''				a.installedFiles[header.Name] = pkg
			}

''','''				a.own(header.Name, pkg)
			}

'''),(N,'''func checksumFromHeader(''','''func (a *APK) own(name string, pkg *Package) {
	a.installedFiles[name] = pkg
}

func checksumFromHeader(''')],expect=0)
M('R reg case extracted',p,[(N,'''			installed, err := a.installRegularFile(header, tr, tmpDir, pkg)
			if err != nil {
				return nil, err
			}

			if installed {
				a.installedFiles[header.Name] = pkg
			}
''','''			if err := a.installReg(header, tr, tmpDir, pkg); err != nil {
				return nil, err
			}
'''),(N,'''func checksumFromHeader(''','''func (a *APK) installReg(header *tar.Header, tr *tar.Reader, tmpDir string, pkg *Package) error {
	installed, err := a.installRegularFile(header, tr, tmpDir, pkg)
	if err != nil || !installed {
		return err
	}
	a.installedFiles[header.Name] = pkg
	return nil
}

func checksumFromHeader(''')],expect=0)
