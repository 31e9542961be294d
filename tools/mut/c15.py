from m import *
I='pkg/apk/implementation.go'; D='pkg/apk/installed.go'
p='C15'
LOOP='''	for _, pkg := range conflicts {
		isInstalled, err := a.isInstalledPackage(pkg)
		if err != nil {
			return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
		}
		if isInstalled {
			return fmt.Errorf("cannot install due to conflict with %s", pkg)
		}
	}
'''
M('loop dropped',p,[(I,LOOP,'	_ = conflicts\n')])
M('error ignored',p,[(I,'''			return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
		}
		if isInstalled {
			return''','''			continue
		}
		if isInstalled {
			return''')])
M('warn only',p,[(I,'''			return fmt.Errorf("cannot install due to conflict with %s", pkg)
''','''			log.Warnf("cannot install due to conflict with %s", pkg)
''')])
M('only first',p,[(I,'range conflicts {','range conflicts[:min(1, len(conflicts))] {')])
M('break after first',p,[(I,'''			return fmt.Errorf("cannot install due to conflict with %s", pkg)
		}
''','''			return fmt.Errorf("cannot install due to conflict with %s", pkg)
		}
		break
''')])
M('skip some',p,[(I,'	for _, pkg := range conflicts {\n','	for _, pkg := range conflicts {\n		if strings.Contains(pkg, ":") {\n			continue\n		}\n')])
M('inverted',p,[(I,'if isInstalled {\n			return fmt','if !isInstalled {\n			return fmt')])
M('after install',p,[(I,LOOP,''),(I,'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)','	if err := a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs); err != nil {\n		return err\n	}\n'+LOOP+'	return nil')])
M('only when nothing to install',p,[(I,LOOP,'	if len(allpkgs) == 0 {\n'+LOOP+'	}\n')])
M('resolve error partial',p,[(I,'''		return fmt.Errorf("error getting package dependencies: %w", err)
	}

	// 3. For each''','''		if len(allpkgs) == 0 {
			return fmt.Errorf("error getting package dependencies: %w", err)
		}
	}

	// 3. For each''')])
M('resolveworld swallows',p,[(I,'''		return toInstall, conflicts, fmt.Errorf("error getting world packages: %w", err)
''','''		return toInstall, conflicts, nil
''')])
M('resolver error dropped',p,[(I,'''	if err != nil {
		return
	}
	log.Debugf("got %d packages to install''','''	if err != nil {
		return toInstall, conflicts, nil
	}
	log.Debugf("got %d packages to install''')])
M('conflicts dropped',p,[(I,'toInstall, conflicts, err = resolver.','toInstall, _, err = resolver.')])
M('compare versions',p,[(D,'if installedPkg.Name == pkg','if installedPkg.Version == pkg')])
M('compare name-version',p,[(D,'if installedPkg.Name == pkg','if installedPkg.Name+"-"+installedPkg.Version == pkg')])
M('installed skip first',p,[(D,'range installedPackages {\n		if installedPkg.Name','range installedPackages[1:] {\n		if installedPkg.Name')])
M('installed filter',p,[(D,'range installedPackages {\n		if installedPkg.Name','range installedPackages {\n		if installedPkg.Origin == "" {\n			continue\n		}\n		if installedPkg.Name')])
M('missing db ok',p,[(D,'''	installedPackages, err := a.GetInstalled()
	if err != nil {
		return false, err
	}
	for _,''','''	installedPackages, err := a.GetInstalled()
	if err != nil {
		return false, nil
	}
	for _,''')])
M('empty conflicts then else',p,[(I,LOOP,'	if installed, err := a.GetInstalled(); err == nil && len(installed) > 0 {\n'+LOOP+'	}\n')])
M('direct install path',p,[(I,'	// Cast []*RepositoryPackage into','''	if len(allpkgs) == 1 {
		return a.InstallPackages(ctx, sourceDateEpoch, []InstallablePackage{allpkgs[0]})
	}
	// Cast []*RepositoryPackage into'''),(I,LOOP,''),(I,'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)',LOOP+'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)')])
# refactors
M('R helper',p,[(I,LOOP,'''	if err := a.checkConflicts(conflicts); err != nil {
		return err
	}
'''),(I,'// FixateWorld force','func (a *APK) checkConflicts(conflicts []string) error {\n'+LOOP+'	return nil\n}\n\n// FixateWorld force')],expect=0)
M('R index loop',p,[(I,'	for _, pkg := range conflicts {\n','	for i := 0; i < len(conflicts); i++ {\n		pkg := conflicts[i]\n')],expect=0)
M('R containsfunc',p,[(D,'''	for _, installedPkg := range installedPackages {
		if installedPkg.Name == pkg {
			return true, nil
		}
	}
	return false, nil''','''	return slices.ContainsFunc(installedPackages, func(p *InstalledPackage) bool { return p.Name == pkg }), nil'''),(D,'	"sort"\n','	"slices"\n	"sort"\n')],expect=0)
M('R flag',p,[(D,'''	for _, installedPkg := range installedPackages {
		if installedPkg.Name == pkg {
			return true, nil
		}
	}
	return false, nil''','''	found := false
	for _, installedPkg := range installedPackages {
		if installedPkg.Name == pkg {
			found = true
			break
		}
	}
	return found, nil''')],expect=0)
M('R set',p,[(I,LOOP,'''	installed, err := a.GetInstalled()
	if err != nil {
		return fmt.Errorf("error reading installed packages: %w", err)
	}
	have := make(map[string]bool, len(installed))
	for _, p := range installed {
		have[p.Name] = true
	}
	for _, pkg := range conflicts {
		if have[pkg] {
			return fmt.Errorf("cannot install due to conflict with %s", pkg)
		}
	}
''')],expect=0)
M('R guard empty',p,[(I,LOOP,'	if len(conflicts) > 0 {\n'+LOOP+'	}\n')],expect=0)
M('R reverse nest',p,[(I,LOOP,'''	installed, err := a.GetInstalled()
	if err != nil {
		return fmt.Errorf("error reading installed packages: %w", err)
	}
	for _, p := range installed {
		if slices.Contains(conflicts, p.Name) {
			return fmt.Errorf("cannot install due to conflict with %s", p.Name)
		}
	}
''')],expect=0)
M('R after cast',p,[(I,LOOP,''),(I,'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)',LOOP+'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)')],expect=0)
M('R install helper',p,[(I,'	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)','	return a.installAll(ctx, sourceDateEpoch, allInstPkgs)'),(I,'// FixateWorld force','func (a *APK) installAll(ctx context.Context, e *time.Time, ps []InstallablePackage) error {\n	return a.InstallPackages(ctx, e, ps)\n}\n\n// FixateWorld force')],expect=0)
M('R collect errors',p,[(I,LOOP,'''	var bad []string
	for _, pkg := range conflicts {
		isInstalled, err := a.isInstalledPackage(pkg)
		if err != nil {
			return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
		}
		if isInstalled {
			bad = append(bad, pkg)
		}
	}
	if len(bad) > 0 {
		return fmt.Errorf("cannot install due to conflict with %s", strings.Join(bad, ", "))
	}
''')],expect=0)
M('R log loop',p,[(I,LOOP,'	for _, pkg := range conflicts {\n		log.Debugf("conflict %s", pkg)\n	}\n'+LOOP)],expect=0)
