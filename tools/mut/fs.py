from m import *
F='pkg/fs/rwosfs.go'
M('prefix check','C08',[(F,'	rel, err := filepath.Rel(base, v)\n	if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {','	if strings.HasPrefix(v, filepath.Clean(base)) {')])
M('hardlink raw','C08',[(F,'	target, err := f.sanitizePath(oldname)\n	if err != nil {','	target := filepath.Join(f.base, oldname)\n	if oldname == "" {')])
M('readdir raw','C08',[(F,'onDisk, err = os.ReadDir(fullpath)','onDisk, err = os.ReadDir(filepath.Join(f.base, name))')])
M('abs accepted','C08',[(F,'	v = filepath.Join(base, p)\n','	if filepath.IsAbs(p) && filepath.Dir(p) == base {\n		return p, nil\n	}\n	v = filepath.Join(base, p)\n')])
M('fileimpl name','C08',[(F,'			name:  fullpath,\n			perms: &perms','			name:  baseName,\n			perms: &perms')])
M('R clamp','C08',[(F,'	v = filepath.Join(base, p)\n	// Compare','	v = filepath.Join(base, filepath.Clean("/"+p))\n	// Compare'),(F,'	rel, err := filepath.Rel(base, v)\n	if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {\n		return v, nil\n	}\n\n	return "", fmt.Errorf("%s: %s", "content filepath is tainted", p)','	return v, nil')],0)
M('R IsLocal','C08',[(F,'	rel, err := filepath.Rel(base, v)\n	if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {\n		return v, nil\n	}\n','	rel, err := filepath.Rel(base, v)\n	if err == nil && filepath.IsLocal(rel) {\n		return v, nil\n	}\n')],0)
M('R prefix sep','C08',[(F,'	rel, err := filepath.Rel(base, v)\n	if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {\n		return v, nil\n	}\n','	if v == base || strings.HasPrefix(v, base+"/") {\n		return v, nil\n	}\n')],0)
# C25
M('remove mem only if disk','C25',[(F,'''	if err := f.overrides.Remove(name); err != nil {
		return err
	}
	if f.removeOnDisk(name) {
		return os.Remove(fullpath)
	}
	return nil''','''	if f.removeOnDisk(name) {
		return os.Remove(fullpath)
	}
	return f.overrides.Remove(name)''')])
M('chmod early','C25',[(F,'''		_ = os.Chmod(fullpath, perm)
	}
	return f.overrides.Chmod(path, perm)''','''		if os.Chmod(fullpath, perm) == nil {
			return nil
		}
	}
	return f.overrides.Chmod(path, perm)''')])
M('chown swap','C25',[(F,'return f.overrides.Chown(path, uid, gid)','return f.overrides.Chown(path, uid, uid)')])
M('link err ignored','C25',[(F,'''		if err := os.Link(target, fullpath); err != nil {
			return err
		}''','''		_ = os.Link(target, fullpath)''')])
M('mkdir skip exists','C25',[(F,'''		if err := os.Mkdir(fullpath, fullPerm); err != nil {
			return err
		}''','''		if err := os.Mkdir(fullpath, fullPerm); err != nil && !os.IsExist(err) {
			return err
		}''')])
M('stat mode','C25',[(F,'''		file: fi,
		mem:  mi,''','''		file: fi,
		mem:  fi,''')])
M('mode from file','C25',[(F,'return f.mem.Mode()','return f.file.Mode()')])
M('readlink disk','C25',[(F,'target, err := f.overrides.Readlink(name)','target, err := os.Readlink(filepath.Join(f.base, name))')])
M('write mem only-if disk fails','C25',[(F,'''	return f.overrides.WriteFile(name, memContent, mode)''','''	if memContent == nil {
		if _, err := f.overrides.Stat(name); err == nil {
			return nil
		}
	}
	return f.overrides.WriteFile(name, memContent, mode)''')])
M('createOnDisk inverse','C25',[(F,'''		f.caseMap[key] = p
		return true
	}
	return result == p
}

// removeOnDisk''','''		f.caseMap[key] = p
		return false
	}
	return result == p
}

// removeOnDisk''')])
M('setxattr dropped','C25',[(F,'	return f.overrides.SetXattr(path, attr, data)','	if len(data) == 0 {\n		return nil\n	}\n	return f.overrides.SetXattr(path, attr, data)')])
M('R var err','C25',[(F,'''		if err := os.Mkdir(fullpath, fullPerm); err != nil {
			return err
		}
	}
	return f.overrides.Mkdir(name, fullPerm)''','''		err = os.Mkdir(fullpath, fullPerm)
	}
	if err != nil {
		return err
	}
	err = f.overrides.Mkdir(name, fullPerm)
	return err''')],0)
M('R helper','C25',[(F,'''		if err := os.Symlink(oldname, fullpath); err != nil {
			return err
		}''','''		if err := f.diskSymlink(oldname, fullpath); err != nil {
			return err
		}'''),(F,'func (f *dirFS) MkdirAll','func (f *dirFS) diskSymlink(a, b string) error { return os.Symlink(a, b) }\n\nfunc (f *dirFS) MkdirAll')],0)
