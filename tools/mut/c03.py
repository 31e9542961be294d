import sys; sys.path.insert(0,'/tmp/mut')
from m import M
F='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'
M('no verify','C03',[(F,'''	if err := verifyPackage(pkg, exp); err != nil {
		return nil, errors.Join(err, exp.Close())
	}

	return exp''','''	return exp''')])
M('verify only cached','C03',[(F,'''	if err := verifyPackage(pkg, exp); err != nil {''','''	if a.cache != nil {
		return exp, nil
	}
	if err := verifyPackage(pkg, exp); err != nil {''')])
M('err dropped','C03',[(F,'''	if err := verifyPackage(pkg, exp); err != nil {
		return nil, errors.Join(err, exp.Close())''','''	if err := verifyPackage(pkg, exp); err != nil {
		clog.FromContext(ctx).Warnf("x %v", err)''')])
M('prefix','C03',[(F,'got := base64.StdEncoding.EncodeToString(exp.ControlHash); got != want','got := base64.StdEncoding.EncodeToString(exp.ControlHash); got[:10] != want[:10]')])
M('dat vs ctl','C03',[(F,'hex.EncodeToString(exp.PackageHash); info','hex.EncodeToString(exp.ControlHash); info')])
M('wrong pkg','C03',[(F,'a.expandPackage(gctx, pkg)\n','a.expandPackage(gctx, allpkgs[0])\n')])
M('datahash skip if chk','C03',[(F,'''	info, err := packageInfo(exp)
	if err != nil {
		return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg.PackageName()''','''	if pkg.ChecksumString() != "" {
		return nil
	}
	info, err := packageInfo(exp)
	if err != nil {
		return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg.PackageName()''')])
M('no checksum','C03',[(X,'''			if err := checkSums(ctx, tr); err != nil {
				return nil, fmt.Errorf("checking sums: %w", err)
			}
''','')])
M('checkSums err ignored','C03',[(X,'''				return nil, fmt.Errorf("checking sums: %w", err)
''','''				_ = err
''')])
M('sum skip large','C03',[(X,'''		if checksum == nil {
			continue''','''		if checksum == nil || header.Size > 1<<30 {
			continue''')])
M('sum typeflag','C03',[(X,'''header.Typeflag != tar.TypeReg {''','''header.Typeflag != tar.TypeReg || header.Linkname != "" {''')])
M('sum mismatch break','C03',[(X,'''			return fmt.Errorf("checksum mismatch: %s header was %x, computed %x", header.Name, want, got)''','''			break''')])
M('swap hashes','C03',[(X,'''ControlHash: hashes[controlDataIndex]''','''ControlHash: hashes[0]''')])
M('eof break','C03',[(X,'''			return nil, fmt.Errorf("invalid number of tar streams: %d", len(gzipStreams))
''','''			break
''')])
M('no drain','C03',[(X,'''			if _, err := io.Copy(io.Discard, gzi); err != nil {
				return nil, fmt.Errorf("expandApk error 3: %w", err)
			}

			hashes''','''			hashes''')])
M('sum early','C03',[(X,'''			if _, err := io.Copy(io.Discard, tr); err != nil {
				return nil, fmt.Errorf("expandApk error 3: %w", err)
			}
''',''''''),(X,'''			bw := bufio''','''			hashes = append(hashes, h.Sum(nil))
			bw := bufio'''),(X,'''			hashes = append(hashes, h.Sum(nil))
			break''','''			break''')])
M('publish before verify','C03',[(F,'''			exp, err := a.expandPackage(gctx, pkg)
			if err != nil {
				return fmt.Errorf("expanding %s: %w", pkg, err)
			}

			expanded[i] = exp
			close(done[i])
''','''			exp, err := a.getExpandedPackage(gctx, pkg)
			if err != nil {
				return fmt.Errorf("expanding %s: %w", pkg, err)
			}

			expanded[i] = exp
			close(done[i])
			if err := verifyPackage(pkg, exp); err != nil {
				return err
			}
''')])
M('R worker verify','C03',[(F,'''			exp, err := a.expandPackage(gctx, pkg)
''','''			exp, err := a.getExpandedPackage(gctx, pkg)
'''),(F,'''				pkg := allpkgs[i]
''','''				pkg := allpkgs[i]
				if err := verifyPackage(pkg, exp); err != nil {
					return err
				}
''')],0)
M('R bytes.Equal','C03',[(F,'''	if want := strings.TrimPrefix(pkg.ChecksumString(), "Q1"); want != "" {
		if got := base64.StdEncoding.EncodeToString(exp.ControlHash); got != want {
''','''	if want := pkg.ChecksumString(); len(want) > 0 {
		if got := "Q1" + base64.StdEncoding.EncodeToString(exp.ControlHash); want != got {
''')],0)
M('R split verify','C03',[(F,'''	info, err := packageInfo(exp)
	if err != nil {
		return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg.PackageName(), err)
	}
	if got''','''	return verifyData(pkg, exp)
}

func verifyData(pkg InstallablePackage, exp *expandapk.APKExpanded) error {
	info, err := packageInfo(exp)
	if err != nil {
		return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg.PackageName(), err)
	}
	if info.DataHash == "" {
		return nil
	}
	if got''')],0)
M('R checksum helper','C03',[(X,'''		if want, got := checksum, w.Sum(nil); !bytes.Equal(want, got) {
			return fmt.Errorf("checksum mismatch: %s header was %x, computed %x", header.Name, want, got)
		}
''','''		if err := cmpSum(header.Name, checksum, w.Sum(nil)); err != nil {
			return err
		}
'''),(X,'''func checkSums(''','''func cmpSum(n string, a, b []byte) error {
	if string(a) == string(b) {
		return nil
	}
	return fmt.Errorf("mismatch %s", n)
}

func checkSums(''')],0)
M('R one entry helper','C03',[(X,'''		if header.Typeflag != tar.TypeReg {
			continue
		}
''','''		if err := checkEntry(header, tr); err != nil {
			return err
		}
	}

	return nil
}

func checkEntry(header *tar.Header, tr io.Reader) error {
	switch header.Typeflag {
	case tar.TypeReg:
	default:
		return nil
	}
'''),(X,'''		if checksum == nil {
			continue
		}''','''		if checksum == nil {
			return nil
		}'''),(X,'''			return fmt.Errorf("checksum mismatch: %s header was %x, computed %x", header.Name, want, got)
		}
	}
''','''			return fmt.Errorf("checksum mismatch: %s header was %x, computed %x", header.Name, want, got)
		}
''')],0)
