from m import *
I='pkg/apk/implementation.go'; D='pkg/apk/installed.go'
B='C13 C14'
WORK=open('/repo/'+I).read(); a=WORK.index('	g.Go(func() error {\n		for i, ch := range done'); b=WORK.index('	// Meanwhile, concurrently fetch and expand all our APKs.\n	// We signal they are ready to be installed by closing done[i].\n	for i, pkg := range allpkgs {\n		i, pkg := i, pkg\n\n		g.Go(func() error {\n			exp'); WORK=WORK[a:b]
PROD='''			expanded[i] = exp
			close(done[i])
'''
# C14
M('close before publish','C14',[(I,PROD,'''			close(done[i])
			expanded[i] = exp
''')])
M('defer close','C14',[(I,PROD,'			expanded[i] = exp\n'),(I,'			exp, err := a.expandPackage(gctx, pkg)','			defer close(done[i])\n			exp, err := a.expandPackage(gctx, pkg)')])
M('close on error','C14',[(I,'''				return fmt.Errorf("expanding %s: %w", pkg, err)
''','''				close(done[i])
				return fmt.Errorf("expanding %s: %w", pkg, err)
''')])
M('not closed if nil','C14',[(I,PROD,'''			expanded[i] = exp
			if exp != nil && exp.Size > 0 {
				close(done[i])
			}
''')])
M('no wait','C14',[(I,'''			case <-ch:
				exp := expanded[i]''','''			default:
				exp := expanded[i]'''),(I,'for i, ch := range done {\n			select','for i := range done {\n			select')])
M('wait for the first only','C14',[(I,'case <-ch:\n				exp := exp','case <-done[0]:\n				exp := exp'),(I,'for i, ch := range done {\n			select','for i := range done {\n			select')])
M('wait for next','C14',[(I,'case <-ch:\n				exp := exp','case <-done[min(i+1, len(done)-1)]:\n				exp := exp'),(I,'for i, ch := range done {\n			select','for i := range done {\n			select')])
M('reverse','C14',[(I,'				exp := expanded[i]\n				pkg := allpkgs[i]','				i := len(expanded) - 1 - i\n				exp := expanded[i]\n				pkg := allpkgs[i]')])
M('shared var','C14',[(I,PROD,'''			expanded[0] = exp
			close(done[i])
''')])
M('wrong close index','C14',[(I,PROD,'''			expanded[i] = exp
			close(done[len(done)-1-i])
''')])
M('worker per package','C14',[(I,WORK,WORK.replace('	g.Go(func() error {\n		for i, ch := range done {','	for i, ch := range done {\n		i, ch := i, ch\n		g.Go(func() error {',1).replace('''		}

		return nil
	})
''','''			return nil
		})
	}
''').replace('				if isInstalled {\n					continue','				if isInstalled {\n					return nil'))])
M('two workers','C14',[(I,'	g.Go(func() error {\n		for i, ch := range done','	for range min(2, len(done)) {\n	g.Go(func() error {\n		for i, ch := range done'),(I,'''		return nil
	})

	// Meanwhile, concurrently fetch and expand all our APKs.
	// We signal they are ready to be installed by closing done[i].
	for i, pkg := range allpkgs {
		i, pkg := i, pkg

		g.Go(func() error {
			exp,''','''		return nil
	})
	}

	// Meanwhile, concurrently fetch and expand all our APKs.
	// We signal they are ready to be installed by closing done[i].
	for i, pkg := range allpkgs {
		i, pkg := i, pkg

		g.Go(func() error {
			exp,''')])
M('install in producer','C14',[(I,PROD,'''			expanded[i] = exp
			if info, err := packageInfo(exp); err == nil && len(allpkgs) > 3 {
				if _, err := a.installPackage(gctx, info, exp, sourceDateEpoch); err != nil {
					return err
				}
			}
			close(done[i])
''')])
M('go install in worker','C14',[(I,'''				installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
				if err != nil {
					return fmt.Errorf("installing %s: %w", pkg, err)
				}

				allFiles[i] = installedFiles
''','''				g.Go(func() error {
					installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
					if err != nil {
						return fmt.Errorf("installing %s: %w", pkg, err)
					}

					allFiles[i] = installedFiles
					return nil
				})
''')])
M('publish error swallowed','C14',[(I,'''				return fmt.Errorf("expanding %s: %w", pkg, err)
			}

			expanded''','''				return nil
			}

			expanded''')])
M('publish other package','C14',[(I,'a.expandPackage(gctx, pkg)\n			if','a.expandPackage(gctx, allpkgs[len(allpkgs)-1-i])\n			if')])
# C13
M('record before wait','C13',[(I,'				allFiles[i] = installedFiles\n','				allFiles[i] = installedFiles\n				if err := a.AddInstalledPackage(pkgInfo, installedFiles); err != nil {\n					return err\n				}\n')])
M('wait error ignored','C13',[(I,'''	if err := g.Wait(); err != nil {
		return fmt.Errorf("installing packages: %w", err)
	}

	// update''','''	werr := g.Wait()

	// update'''),(I,'''AddInstalledPackage(pkg, files); err != nil {
			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
	}

	return nil''','''AddInstalledPackage(pkg, files); err != nil {
			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
	}

	return werr''')])
M('worker swallows install error','C13',[(I,'					return fmt.Errorf("installing %s: %w", pkg, err)\n','					continue\n')])
M('worker stops silently','C13',[(I,'					return fmt.Errorf("installing %s: %w", pkg, err)\n','					return nil\n')])
M('worker breaks on info error','C13',[(I,'					return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg, err)\n','					continue\n')])
M('info stored before check','C13',[(I,'				infos[i] = pkgInfo\n',''),(I,'''				isInstalled, err := a.isInstalledPackage(pkg.PackageName())
				if err != nil {
					return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
				}

				if isInstalled {
					continue
				}

				// The data in .PKGINFO is more complete than what is in APKINDEX.
				pkgInfo, err := packageInfo(exp)
				if err != nil {
					return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg, err)
				}
''','''				// The data in .PKGINFO is more complete than what is in APKINDEX.
				pkgInfo, err := packageInfo(exp)
				if err != nil {
					return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg, err)
				}
				infos[i] = pkgInfo

				isInstalled, err := a.isInstalledPackage(pkg.PackageName())
				if err != nil {
					return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
				}

				if isInstalled {
					continue
				}
''')])
M('installed check dropped','C13',[(I,'''				if isInstalled {
					continue
				}

				// The data''','''				_ = isInstalled

				// The data''')])
M('installed reinstall','C13',[(I,'''				if isInstalled {
					continue
				}

				// The data''','''				if isInstalled && !allpkgs[i].(*RepositoryPackage).BuildTime.IsZero() {
					continue
				}

				// The data'''),])
M('installed check error ignored','C13',[(I,'''					return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
				}

				if isInstalled {''','''					isInstalled = false
				}

				if isInstalled {''')])
M('infos not stored','C13',[(I,'				infos[i] = pkgInfo\n','				if pkgInfo.Origin != "" || i > 0 {\n					infos[i] = pkgInfo\n				}\n')])
M('infos wrong slot','C13',[(I,'				infos[i] = pkgInfo\n','				infos[0] = pkgInfo\n')])
M('skip empty files','C13',[(I,'''		if pkg == nil {
			continue
		}
''','''		if pkg == nil || len(files) == 0 {
			continue
		}
''')])
M('filter dropped','C13',[(I,'''		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg
		})
''','		_ = slices.Contains[[]string]\n')])
M('filter drops dirs','C13',[(I,'''			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg''','''			return a.installedFiles[hdr.Name] != pkg''')])
M('filter inverted','C13',[(I,'			return owner != pkg','			return owner == pkg')])
M('filter by origin','C13',[(I,'			return owner != pkg','			return owner.Origin != pkg.Origin')])
M('record error ignored','C13',[(I,'''			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
	}
''','''			continue
		}
	}
''')])
M('stops after first record','C13',[(I,'''			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
	}
''','''			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
		if len(files) == 0 {
			break
		}
	}
''')])
M('ctx done returns nil','C13',[(I,'				return gctx.Err()\n			case <-ch','				return nil\n			case <-ch')])
M('partial record on failure','C13',[(I,'''	if err := g.Wait(); err != nil {
		return fmt.Errorf("installing packages: %w", err)
	}

	// update''','''	if err := g.Wait(); err != nil {
		for i, pkg := range infos {
			if pkg != nil {
				if err := a.AddInstalledPackage(pkg, allFiles[i]); err != nil {
					return err
				}
			}
		}
		return fmt.Errorf("installing packages: %w", err)
	}

	// update''')])
# refactors
M('R index loop',B,[(I,'for i, ch := range done {\n			select','for i := range done {\n			ch := done[i]\n			select')],expect=0)
M('R plain loop',B,[(I,'for i, ch := range done {\n			select','for i := 0; i < len(done); i++ {\n			ch := done[i]\n			select')],expect=0)
M('R pkg loop',B,[(I,'for i, ch := range done {\n			select','for i := range allpkgs {\n			select'),(I,'case <-ch:\n				exp','case <-done[i]:\n				exp')],expect=0)
M('R receive after select',B,[(I,'''			case <-ch:
				exp := expanded[i]
''','''			case <-ch:
			}
			{
				exp := expanded[i]
''')],expect=0)
M('R store late',B,[(I,'				infos[i] = pkgInfo\n\n',''),(I,'				allFiles[i] = installedFiles\n','				infos[i], allFiles[i] = pkgInfo, installedFiles\n')],expect=0)
M('R worker method',B,[(I,WORK,'''	g.Go(func() error {
		return a.installInOrder(gctx, allpkgs, expanded, done, infos, allFiles, sourceDateEpoch)
	})

'''),(I,'type NoKeysFoundError struct','''func (a *APK) installInOrder(gctx context.Context, allpkgs []InstallablePackage, expanded []*expandapk.APKExpanded, done []chan struct{}, infos []*Package, allFiles [][]tar.Header, sourceDateEpoch *time.Time) error {
'''+WORK[WORK.index('		for i, ch'):WORK.index('	})\n')]+'''}

type NoKeysFoundError struct''')],expect=0)
BODY='''				isInstalled, err := a.isInstalledPackage(pkg.PackageName())
				if err != nil {
					return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
				}

				if isInstalled {
					continue
				}

				// The data in .PKGINFO is more complete than what is in APKINDEX.
				pkgInfo, err := packageInfo(exp)
				if err != nil {
					return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg, err)
				}
				infos[i] = pkgInfo

				installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
				if err != nil {
					return fmt.Errorf("installing %s: %w", pkg, err)
				}

				allFiles[i] = installedFiles
'''
M('R installOne',B,[(I,BODY,'''				info, files, err := a.installOne(gctx, pkg, exp, sourceDateEpoch)
				if err != nil {
					return err
				}
				infos[i], allFiles[i] = info, files
'''),(I,'type NoKeysFoundError struct','''func (a *APK) installOne(gctx context.Context, pkg InstallablePackage, exp *expandapk.APKExpanded, sourceDateEpoch *time.Time) (*Package, []tar.Header, error) {
	isInstalled, err := a.isInstalledPackage(pkg.PackageName())
	if err != nil {
		return nil, nil, fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
	}

	if isInstalled {
		return nil, nil, nil
	}

	pkgInfo, err := packageInfo(exp)
	if err != nil {
		return nil, nil, fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg, err)
	}

	installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
	if err != nil {
		return nil, nil, fmt.Errorf("installing %s: %w", pkg, err)
	}
	return pkgInfo, installedFiles, nil
}

type NoKeysFoundError struct''')],expect=0)
M('R record helper',B,[(I,'''		if err := a.AddInstalledPackage(pkg, files); err != nil {
			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
		}
	}

	return nil''','''		if err := a.record(pkg, files); err != nil {
			return err
		}
	}

	return nil'''),(I,'type NoKeysFoundError struct','''func (a *APK) record(pkg *Package, files []tar.Header) error {
	if err := a.AddInstalledPackage(pkg, files); err != nil {
		return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
	}
	return nil
}

type NoKeysFoundError struct''')],expect=0)
M('R infos loop',B,[(I,'''	for i, files := range allFiles {
		pkg := infos[i]
''','''	for i, pkg := range infos {
		files := allFiles[i]
''')],expect=0)
M('R filter helper',B,[(I,'''		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg
		})
''','''		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
			return a.ownedByOther(hdr.Name, pkg)
		})
'''),(I,'type NoKeysFoundError struct','''func (a *APK) ownedByOther(name string, pkg *Package) bool {
	owner, ok := a.installedFiles[name]
	return ok && owner != pkg
}

type NoKeysFoundError struct''')],expect=0)
M('R filter short',B,[(I,'''			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg''','''			owner, ok := a.installedFiles[hdr.Name]
			return ok && owner != pkg''')],expect=0)
M('R filter nil',B,[(I,'''			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg''','''			if owner := a.installedFiles[hdr.Name]; owner != nil && owner != pkg {
				return true
			}
			return false''')],expect=0)
M('R filter manual',B,[(I,'''		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
			owner, ok := a.installedFiles[hdr.Name]
			if !ok {
				// Keep directories, which actually should be duplicated in the idb.
				return false
			}

			return owner != pkg
		})
''','''		var kept []tar.Header
		for _, hdr := range files {
			if owner, ok := a.installedFiles[hdr.Name]; ok && owner != pkg {
				continue
			}
			kept = append(kept, hdr)
		}
		files = kept
		_ = slices.Contains[[]string]
''')],expect=0)
M('R producer helper',B,[(I,'''			exp, err := a.expandPackage(gctx, pkg)
			if err != nil {
				return fmt.Errorf("expanding %s: %w", pkg, err)
			}

			expanded[i] = exp
			close(done[i])

			return nil
''','''			exp, err := a.expandPackage(gctx, pkg)
			if err == nil {
				expanded[i] = exp
				close(done[i])
				return nil
			}
			return fmt.Errorf("expanding %s: %w", pkg, err)
''')],expect=0)
M('R announce helper',B,[(I,PROD,'''			announce := func() { close(done[i]) }
			expanded[i] = exp
			announce()
''')],expect=0)
M('R struct promise',B,[(I,'done := make([]chan struct{}, len(allpkgs))\n	for i := range allpkgs {\n		done[i] = make(chan struct{})\n	}\n\n	// Kick','type promise struct{ ready chan struct{} }\n	done := make([]promise, len(allpkgs))\n	for i := range allpkgs {\n		done[i].ready = make(chan struct{})\n	}\n\n	// Kick'),(I,'for i, ch := range done {\n			select','for i := range done {\n			ch := done[i].ready\n			select'),(I,'close(done[i])\n\n			return nil\n		})\n	}\n\n	if err := g.Wait(); err != nil {\n		return fmt.Errorf("inst','close(done[i].ready)\n\n			return nil\n		})\n	}\n\n	if err := g.Wait(); err != nil {\n		return fmt.Errorf("inst')],expect=0)
M('R empty early',B,[(I,'	// TODO: Consider making this configurable option.\n	jobs := runtime.GOMAXPROCS(0)\n\n	g, gctx := errgroup.WithContext(ctx)\n	g.SetLimit(jobs + 1)\n\n	expanded','	if len(allpkgs) == 0 {\n		return nil\n	}\n	jobs := runtime.GOMAXPROCS(0)\n\n	g, gctx := errgroup.WithContext(ctx)\n	g.SetLimit(jobs + 1)\n\n	expanded')],expect=0)
M('R isinstalled early',B,[(I,'''				exp := expanded[i]
				pkg := allpkgs[i]

				isInst''','''				pkg := allpkgs[i]

				isInst'''),(I,'				pkgInfo, err := packageInfo(exp)','				exp := expanded[i]\n				pkgInfo, err := packageInfo(exp)')],expect=0)
