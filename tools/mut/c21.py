from m import M
R='pkg/apk/repo.go'; V='pkg/apk/version.go'
def m(n,*e,**k): M(n,'C21',list(e),**k)
m('filter no dq',(V,'''		if _, dqed := dq[pkg.RepositoryPackage]; dqed {
			continue
		}
		// do we''','''		// do we'''))
m('pin ignored',(V,"pkg.pinnedName != \"\" && pkg.pinnedName != o.allowPin","pkg.pinnedName == \"zz\" && pkg.pinnedName != o.allowPin"))
m('pin installed any',(V,'''	if o.installed != nil {
		installedURL = o.installed.URL()
	}
''','''	_ = installedURL
'''),(V,'(o.installed == nil || installedURL != pkg.URL())','o.installed == nil'))
m('pin or and',(V,'pkg.pinnedName != o.allowPin && pkg.pinnedName != o.preferPin)','(o.preferPin == "" && pkg.pinnedName != o.allowPin))'))
m('req err ignored',(V,'''		if reqErr != nil {
			return nil
		}
''','''		_ = reqErr
'''))
m('actual err passes',(V,'''		// skip invalid ones
		if err != nil {
			continue
		}

		if o.compare.satisfies(actualVersion, requiredVersion) {
			passed = append(passed, pkg)
			continue
		}

		for''','''		if err != nil || o.compare.satisfies(actualVersion, requiredVersion) {
			passed = append(passed, pkg)
			continue
		}

		for'''))
m('sat swapped',(V,'''		if o.compare.satisfies(actualVersion, requiredVersion) {
			passed = append(passed, pkg)
			continue
		}

		for''','''		if o.compare.satisfies(requiredVersion, actualVersion) {
			passed = append(passed, pkg)
			continue
		}

		for'''))
m('prov unversioned passes',(V,'''			if version == "" {
				continue
			}
''','''			if version == "" {
				passed = append(passed, pkg)
				break
			}
'''))
m('prov err passes',(V,'''			// again, we skip invalid ones
			if err != nil {
				continue
			}

			if o''','''			if err != nil || o'''))
m('withVersion no compare',(V,'''	return func(o *filterOptions) {
		o.version = version
		o.compare = compare''','''	return func(o *filterOptions) {
		o.version = version'''))
m('pref sets allow',(V,'o.preferPin = pin','o.preferPin = pin; o.allowPin = pin'),expect=0)
m('bare exclusion skipped',(R,'''	if !ok {
		return
	}

	conflicting''','''	if !ok || parsed.dep == versionAny {
		return
	}

	conflicting'''))
m('exclusion without version',(R,'withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))','withVersion(parsed.version, versionEqual), withPreferPin(parsed.pin))'))
m('exclusion no pin',(R,'withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))','withVersion(parsed.version, parsed.dep))'))
m('exclusion first only',(R,'''"excluded by !"+constraint)
''','''"excluded by !"+constraint)
		break
'''))
m('conflict same name eq',(R,'return conflict.Version != constraint.version','return false'))
m('conflict inverted',(R,'''	if constraint.version != "" {
		return true
	}''','''	if constraint.version == "" {
		return true
	}'''),)
m('conflict equal version ok',(R,'''	if constraint.version != "" {
		return true
	}

	// From''','''	// From'''))
m('conflict dqed break',(R,'''				// Already disqualified, don't bother generating reason.
				continue''','''				// Already disqualified, don't bother generating reason.
				break'''),expect=1)
m('conflict self break',(R,'''			if conflict.RepositoryPackage == pkg {
				continue
			}''','''			if conflict.RepositoryPackage == pkg {
				break
			}'''))
m('conflict no map return',(R,'''		if !ok {
			continue
		}

		for _, conflict''','''		if !ok {
			return
		}

		for _, conflict'''),expect=0) # the name is always there
m('conflict same ver return',(R,'''				// The conflicting package provides the given name but the version is the same, so no conflict.
				continue''','''				// The conflicting package provides the given name but the version is the same, so no conflict.
				return'''))
m('first provide only',(R,'''already provides "+constraint.name)
		}
''','''already provides "+constraint.name)
		}
		break
'''))
m('constrain err skip own',(R,'''					p.disqualify(dq, provider.RepositoryPackage, fmt.Sprintf("parsing version %q failed: %v", provider.Version, err))
''',''))
m('constrain return early',(R,'''		if parsed.dep == versionAny {
			continue
		}

		providers''','''		if parsed.dep == versionAny {
			break
		}

		providers'''))
m('constrain exclusion returns',(R,'''constraint[1:], dq)
			continue''','''constraint[1:], dq)
			return nil'''))
m('constrain exclusion keeps !',(R,'p.disqualifyProviders(constraint[1:], dq)','p.disqualifyProviders(constraint, dq)'))
m('constrain providers skipped',(R,'''						dq[provider.RepositoryPackage] = fmt.Sprintf("%q provides''','''						_ = fmt.Sprintf("%q provides'''))
m('constrain prov parse ignored',(R,'''						dq[provider.RepositoryPackage] = fmt.Sprintf("parsing %q: %v", pp.version, err)
''',''))
m('constrain prov break at other',(R,'''					if pp.name != parsed.name {
						continue
					}''','''					if pp.name != parsed.name {
						break
					}'''))
m('constrain no initial',(R,'''	if err := p.constrain(constraints, dq); err != nil {
		return nil, nil, fmt.Errorf("constraining initial packages: %w", err)
	}
''',''))
m('constrain initial late',(R,'''	if err := p.constrain(constraints, dq); err != nil {
		return nil, nil, fmt.Errorf("constraining initial packages: %w", err)
	}

	for len(constraints) != 0 {''','''	for len(constraints) != 0 {'''),(R,'''	// now get the dependencies for each package
''','''	if err := p.constrain(constraints, dq); err != nil {
		return nil, nil, fmt.Errorf("constraining initial packages: %w", err)
	}
	// now get the dependencies for each package
'''))
m('constrain deps dropped',(R,'''	if err := p.constrain(constraints, dq); err != nil {
		return nil, nil, fmt.Errorf("constraining deps for %q: %w", pkg.Filename(), err)
	}
''',''))
m('constrain deps err ignored',(R,'''	if err := p.constrain(constraints, dq); err != nil {
		return nil, nil, fmt.Errorf("constraining deps for %q: %w", pkg.Filename(), err)
	}
''','''	_ = p.constrain(constraints, dq)
'''))
m('no root conflicts all',(R,'''		p.disqualifyConflicts(pkg, dq)
	}

	// now''','''	}

	// now'''))
m('no root conflicts one',(R,'''	// its dependencies must not bring in what conflicts with it
	p.disqualifyConflicts(pkg, dq)
''',''))
m('no dep conflicts',(R,'''		p.disqualifyConflicts(depPkg, dq)
''',''))
m('dep conflicts late',(R,'''		p.disqualifyConflicts(depPkg, dq)
''',''),(R,'''		conflicts = append(conflicts, confs...)
		for''','''		conflicts = append(conflicts, confs...)
		p.disqualifyConflicts(depPkg, dq)
		for'''))
m('fresh dq for children',(R,'childParents, existing, existingOrigins, dq)','childParents, existing, existingOrigins, map[*RepositoryPackage]string{})'))
m('copied dq for deps',(R,'''true, parents, localExisting, existingOrigins, dq)''','''true, parents, localExisting, existingOrigins, nil)'''))
m('resolve without version',(R,'''	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
	if len(packages) == 0 {
		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
	}
	return p.best''','''	_, _ = version, compare
	packages := p.filterPackages(pkgsWithVersions, dq, withPreferPin(pin))
	if len(packages) == 0 {
		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
	}
	return p.best'''))
m('best of unfiltered',(R,'return p.bestPackage(packages, nil, name, nil, nil, pin)','return p.bestPackage(pkgsWithVersions, nil, name, nil, nil, pin)'))
m('allow dep pin of any',(R,'withAllowPin(allowPin),','withAllowPin(depPkgWithVersions[0].pinnedName),'))
m('installed wrong name',(R,'withInstalledPackage(existing[name])','withInstalledPackage(existing[pkg.Name])'),expect=0)
m('options kept across rounds',(R,'''	for len(constraints) != 0 {
		options := map[string][]*repositoryPackage{}
''','''	options := map[string][]*repositoryPackage{}
	for len(constraints) != 0 {
'''),(R,'''			// this package might be pinned to a version
''','''			if _, ok := options[dep]; ok {
				continue
			}
			// this package might be pinned to a version
'''),(R,'''		best := p.bestPackage''','''		delete(options, lowest)
		best := p.bestPackage'''))
m('installif no dq',(R,'''			if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
				continue
			}
			var''','''			var'''))
m('self fulfil any',(R,'''					if compare.satisfies(actualVersion, requiredVersion) {
						// we''','''					if true {
						// we'''),expect=0)
# refactorings
m('R filter helper',(V,'''		if o.compare.satisfies(actualVersion, requiredVersion) {
			passed = append(passed, pkg)
			continue
		}

		for _, prov := range pkg.Provides {
			version := p.resolvePackageNameVersionPin(prov).version
			if version == "" {
				continue
			}

			actualVersion, err = p.parseVersion(version)
			// again, we skip invalid ones
			if err != nil {
				continue
			}

			if o.compare.satisfies(actualVersion, requiredVersion) {
				passed = append(passed, pkg)
				break
			}
		}
	}
	return passed
}''','''		if o.compare.satisfies(actualVersion, requiredVersion) || p.anyProvides(pkg, o, requiredVersion) {
			passed = append(passed, pkg)
		}
	}
	return passed
}

func (p *PkgResolver) anyProvides(pkg *repositoryPackage, o *filterOptions, requiredVersion Version) bool {
	return slices.ContainsFunc(pkg.Provides, func(prov string) bool {
		version := p.resolvePackageNameVersionPin(prov).version
		if version == "" {
			return false
		}
		actualVersion, err := p.parseVersion(version)
		return err == nil && o.compare.satisfies(actualVersion, requiredVersion)
	})
}'''),(V,'''	"fmt"
''','''	"fmt"
	"slices"
'''),expect=0)
m('R best loop',(R,'return slices.MinFunc(pkgs, p.comparePackages(compare, name, existing, existingOrigins, pin))','''less := p.comparePackages(compare, name, existing, existingOrigins, pin)
	best := pkgs[0]
	for _, pkg := range pkgs[1:] {
		if less(pkg, best) < 0 {
			best = pkg
		}
	}
	return best'''),expect=0)
m('R conflicts first',(R,'''			if _, dqed := dq[conflict.RepositoryPackage]; dqed {
				// Already disqualified, don't bother generating reason.
				continue
			}

			if !p.conf''','''			if !p.conf'''),expect=0)
m('R best inline filter',(R,'''		depPkg := best.RepositoryPackage
		p.disqualifyConflicts(depPkg, dq)
''','''		depPkg := best.RepositoryPackage
'''),(R,'''		// and then recurse to its children
''','''		p.disqualifyConflicts(depPkg, dq)
		// and then recurse to its children
'''),expect=0)
m('R constrain helper',(R,'''				actualVersion, err := p.parseVersion(provider.Version)
				// skip invalid ones
				if err != nil {
					p.disqualify(dq, provider.RepositoryPackage, fmt.Sprintf("parsing version %q failed: %v", provider.Version, err))
					continue
				}

				if !parsed.dep.satisfies(actualVersion, requiredVersion) {
					p.disqualify(dq, provider.RepositoryPackage, fmt.Sprintf("%q does not satisfy %q", provider.Version, constraint))
				}
''','''				if reason := p.whyNot(provider.Version, parsed, requiredVersion); reason != "" {
					p.disqualify(dq, provider.RepositoryPackage, reason)
				}
'''),(R,'''// GetPackagesWithDependencies get all''','''func (p *PkgResolver) whyNot(v string, parsed parsedConstraint, required Version) string {
	actual, err := p.parseVersion(v)
	switch {
	case err != nil:
		return fmt.Sprintf("parsing version %q failed: %v", v, err)
	case !parsed.dep.satisfies(actual, required):
		return fmt.Sprintf("%q does not satisfy", v)
	}
	return ""
}

// GetPackagesWithDependencies get all'''),expect=0)
m('R parents clone',(R,'''		childParents := map[string]bool{}
		for k := range parents {
			childParents[k] = true
		}
''','''		childParents := make(map[string]bool, len(parents)+1)
		for k, v := range parents {
			childParents[k] = v
		}
'''),expect=0)
m('R options sorted',(R,'''		lowest := ""
		for k, v := range options {
			if lowest == "" || len(v) < len(options[lowest]) {
				lowest = k
			} else if len(v) == len(options[lowest]) && k < lowest {
				// This is a little janky, but since map order is non-deterministic, we want to break ties.
				lowest = k
			}
		}
''','''		lowest := slices.MinFunc(constraints, func(a, b string) int {
			return cmp.Or(cmp.Compare(len(options[a]), len(options[b])), cmp.Compare(a, b))
		})
'''),expect=0)
m('R resolve via options list',(R,'''	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
	if len(packages) == 0 {
		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
	}
	p.sort''','''	opts := []filterOption{withVersion(version, compare)}
	if pin != "" {
		opts = append(opts, withPreferPin(pin))
	}
	packages := p.filterPackages(pkgsWithVersions, dq, opts...)
	if len(packages) == 0 {
		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
	}
	p.sort'''),expect=0)
m('R struct options',(R,'''	conflicting := p.filterPackages(providers, dq, withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))

	for _, conflict := range conflicting {
		if _, dqed := dq[conflict.RepositoryPackage]; dqed {
			// Already disqualified, don't bother generating reason.
			continue
		}

		p''','''	for _, conflict := range p.filterPackages(providers, dq, withPreferPin(parsed.pin), withVersion(parsed.version, parsed.dep)) {
		p'''),expect=0)
m('R delete by index',(R,'''		constraints = slices.DeleteFunc(constraints, func(s string) bool {
			return s == next
		})
''','''		var left []string
		for _, c := range constraints {
			if c != next {
				left = append(left, c)
			}
		}
		constraints = left
'''),expect=0)
m('R phases split',(R,'''	for len(constraints) != 0 {
		next, err := p.nextPackage(constraints, dq)
		if err != nil {
			return nil, nil, err
		}
''','''	for {
		if len(constraints) == 0 {
			break
		}
		next, err := p.nextPackage(constraints, dq)
		if err != nil {
			return nil, nil, err
		}
'''),expect=0)
