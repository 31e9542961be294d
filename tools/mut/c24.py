from m import *
W='pkg/tarball/write.go'; T='pkg/tarball/tarball.go'; D='pkg/apk/installed.go'; X='pkg/apk/apkindex.go'; I='pkg/apk/implementation.go'
p='C24'
TIMES='''		header.AccessTime = c.SourceDateEpoch
		header.ModTime = c.SourceDateEpoch
		header.ChangeTime = c.SourceDateEpoch
'''
OWN='''		if c.OverrideUIDGID {
			header.Uid = c.UID
			header.Gid = c.GID
		}
'''
PERM='''		// look for the override perms with or without the leading /
		if h, ok := c.overridePerms[header.Name]; ok {
			header.Mode = h.Mode
			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
		if h, ok := c.overridePerms["/"+header.Name]; ok {
			header.Mode = h.Mode
			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
'''
M('modtime kept',p,[(W,'		header.ModTime = c.SourceDateEpoch\n','')])
M('modtime only regular',p,[(W,TIMES,'		if info.Mode().IsRegular() {\n'+TIMES+'		}\n')])
M('modtime only later',p,[(W,'		header.ModTime = c.SourceDateEpoch\n','		if header.ModTime.After(c.SourceDateEpoch) {\n			header.ModTime = c.SourceDateEpoch\n		}\n')])
M('modtime unless zero',p,[(W,'		header.ModTime = c.SourceDateEpoch\n','		if !c.SourceDateEpoch.IsZero() {\n			header.ModTime = c.SourceDateEpoch\n		}\n')])
M('owner not on links',p,[(W,'		if c.OverrideUIDGID {\n','		if c.OverrideUIDGID && link == "" {\n')])
M('owner not on dirs',p,[(W,'		if c.OverrideUIDGID {\n','		if c.OverrideUIDGID && !info.IsDir() {\n')])
M('gid from uid',p,[(W,'header.Gid = c.GID','header.Gid = c.UID')])
M('root owner not overridden',p,[(W,'		if c.OverrideUIDGID {\n','		if c.OverrideUIDGID && header.Uid != 0 {\n')])
M('uname only if unset',p,[(W,'		if c.OverrideUname != "" {\n','		if c.OverrideUname != "" && header.Uname == "" {\n')])
M('gname guarded by uname',p,[(W,'		if c.OverrideGname != "" {\n','		if c.OverrideUname != "" {\n')])
M('perm slash dropped',p,[(W,'c.overridePerms["/"+header.Name]','c.overridePerms[header.Name]')])
M('perm mode lost',p,[(W,'''			header.Mode = h.Mode
			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
		if h''','''			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
		if h''')])
M('perm before owner',p,[(W,PERM,''),(W,OWN,PERM+OWN)])
M('perm not for links',p,[(W,PERM,'		if link == "" {\n'+PERM+'		}\n')])
M('perm only regular cooperating',p,[(W,'c.overridePerms["/"+header.Name]; ok {','c.overridePerms["/"+header.Name]; ok && h.Typeflag != tar.TypeDir {')])
M('remap dropped',p,[(W,'''		if gid, ok := c.remapGIDs[header.Gid]; ok {
			header.Gid = gid
		}
''','')])
M('remap zero skipped',p,[(W,'if gid, ok := c.remapGIDs[header.Gid]; ok {','if gid, ok := c.remapGIDs[header.Gid]; ok && gid != 0 {')])
M('remap uses wrong table',p,[(W,'c.remapGIDs[header.Gid]','c.remapUIDs[header.Gid]')])
M('hardlink early write',p,[(W,'				header.Typeflag = tar.TypeLink\n','				header.Typeflag = tar.TypeLink\n				if info.Mode().IsRegular() {\n					hh := *header\n					hh.ModTime = info.ModTime()\n					hh.Linkname = oldpath\n					hh.Size = 0\n					return tw.WriteHeader(&hh)\n				}\n')])
M('option wrong field',p,[(T,'ctx.GID = gid','ctx.GID = uid')])
M('option epoch rounding lost',p,[(T,'ctx.SourceDateEpoch = t','ctx.SourceDateEpoch = time.Now()')])
M('option perms skip dirs',p,[(T,'			overrides[f.Name] = f\n','			if f.Typeflag == tar.TypeDir {\n				continue\n			}\n			overrides[f.Name] = f\n')])
M('option flag only nonzero',p,[(T,'		ctx.OverrideUIDGID = true\n','		ctx.OverrideUIDGID = uid != 0 || gid != 0\n')])
M('scripts modtime dropped',p,[(D,'			header.ModTime = *sourceDateEpoch\n','')])
M('scripts access kept',p,[(D,'			header.AccessTime = time.Time{}\n','')])
M('scripts only install scripts',p,[(D,'		if sourceDateEpoch != nil {\n			header','		if sourceDateEpoch != nil && !strings.Contains(header.Name, "trigger") {\n			header')])
M('scripts unless zero',p,[(D,'		if sourceDateEpoch != nil {\n			header','		if sourceDateEpoch != nil && !sourceDateEpoch.IsZero() {\n			header')])
M('scripts nil passed',p,[(I,'a.updateScriptsTar(pkg, controlData, sourceDateEpoch)','a.updateScriptsTar(pkg, controlData, nil)')])
M('index modtime now',p,[(X,'		header.Name = item.filename\n','		header.Name = item.filename\n		header.ModTime = time.Now()\n'),(X,'	"strings"\n','	"strings"\n	"time"\n') if False else (X,'return time.Time{}','return time.Now()')] )
M('gzip header now',p,[(W,'	gzw := gzip.NewWriter(dst)\n','	gzw := gzip.NewWriter(dst)\n	gzw.ModTime = time.Now()\n'),(W,'	"syscall"\n','	"syscall"\n	"time"\n')])
# refactors
M('R helper for perms',p,[(W,PERM,'''		// look for the override perms with or without the leading /
		if h, ok := c.overridePerms[header.Name]; ok {
			applyPerms(header, h)
		}
		if h, ok := c.overridePerms["/"+header.Name]; ok {
			applyPerms(header, h)
		}
'''),(W,'// WriteArchive writes','''func applyPerms(header *tar.Header, h tar.Header) {
	header.Mode = h.Mode
	header.Uid, header.Gid = h.Uid, h.Gid
	header.Uname, header.Gname = h.Uname, h.Gname
}

// WriteArchive writes''')],0)
M('R loop over names',p,[(W,PERM,'''		for _, n := range []string{header.Name, "/" + header.Name} {
			if h, ok := c.overridePerms[n]; ok {
				header.Mode = h.Mode
				header.Uid = h.Uid
				header.Gid = h.Gid
				header.Uname = h.Uname
				header.Gname = h.Gname
			}
		}
''')],0)
M('R normalise helper',p,[(W,TIMES,'		c.zeroTimes(header)\n'),(W,'// WriteArchive writes','''func (c *Context) zeroTimes(header *tar.Header) {
	header.AccessTime = c.SourceDateEpoch
	header.ModTime = c.SourceDateEpoch
	header.ChangeTime = c.SourceDateEpoch
}

// WriteArchive writes''')],0)
M('R perm lookup else',p,[(W,PERM,'''		h, ok := c.overridePerms["/"+header.Name]
		if !ok {
			h, ok = c.overridePerms[header.Name]
		}
		if ok {
			header.Mode = h.Mode
			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
''')],0)
M('R perm helper lookup',p,[(W,PERM,'''		if h, ok := c.permsFor(path); ok {
			header.Mode = h.Mode
			header.Uid = h.Uid
			header.Gid = h.Gid
			header.Uname = h.Uname
			header.Gname = h.Gname
		}
'''),(W,'// WriteArchive writes','''func (c *Context) permsFor(name string) (tar.Header, bool) {
	if h, ok := c.overridePerms["/"+name]; ok {
		return h, true
	}
	h, ok := c.overridePerms[name]
	return h, ok
}

// WriteArchive writes''')],0)
M('R owner switch',p,[(W,OWN,''),(W,'''		if uid, ok := c.remapUIDs[header.Uid]; ok {
			header.Uid = uid
		}

		if gid, ok := c.remapGIDs[header.Gid]; ok {
			header.Gid = gid
		}
''','''		header.Uid, header.Gid = c.owner(header)
''') ,(W,'''		if name, ok := users[header.Uid]; ok {
			header.Uname = name
		}
		if name, ok := groups[header.Gid]; ok {
			header.Gname = name
		}
''','''		if name, ok := users[header.Uid]; ok {
			header.Uname = name
		}
		if name, ok := groups[header.Gid]; ok {
			header.Gname = name
		}
		if c.OverrideUIDGID {
			header.Uid, header.Gid = c.UID, c.GID
		}
'''),(W,'// WriteArchive writes','''func (c *Context) owner(h *tar.Header) (int, int) {
	uid, gid := h.Uid, h.Gid
	if u, ok := c.remapUIDs[uid]; ok {
		uid = u
	}
	if g, ok := c.remapGIDs[gid]; ok {
		gid = g
	}
	return uid, gid
}

// WriteArchive writes''')],0)
M('R method for entry',p,[(W,'	if err := fs.WalkDir(fsys, ".", func(path string, d fs.DirEntry, err error) error {\n		if err := ctx.Err()','	add := func(path string, d fs.DirEntry, err error) error {\n		if err := ctx.Err()'),(W,'''		return nil
	}); err != nil {
		return err
	}

	return nil
}
''','''		return nil
	}

	return fs.WalkDir(fsys, ".", add)
}
''')],0)
M('R scripts helper',p,[(D,'''		if sourceDateEpoch != nil {
			header.ModTime = *sourceDateEpoch
''','''		if epoch := sourceDateEpoch; epoch != nil {
			header.ModTime = *epoch
''')],0)
M('R scripts fn',p,[(D,'''		if sourceDateEpoch != nil {
			header.ModTime = *sourceDateEpoch
			// we do not use AccessTime or ChangeTime because these are incompatible with USTar, which is required for apk.
			// See https://pkg.go.dev/archive/tar#Format for the capabilities of each format.
			// Setting them to time.Time{} or the epoch will cause them to be ignored.
			header.AccessTime = time.Time{}
			header.ChangeTime = time.Time{}
		}
''','''		fixTimes(header, sourceDateEpoch)
'''),(D,'// updateScriptsTar insert','''func fixTimes(h *tar.Header, t *time.Time) {
	if t == nil {
		return
	}
	h.ModTime, h.AccessTime, h.ChangeTime = *t, time.Time{}, time.Time{}
}

// updateScriptsTar insert''')],0)
M('R index header literal',p,[(X,'''		var info os.FileInfo = &tarballItemFileInfo{item.filename, int64(len(item.contents))}
		header, err := tar.FileInfoHeader(info, item.filename)
		if err != nil {
			return nil, fmt.Errorf("creating tar header for %s: %w", item.filename, err)
		}
		header.Name = item.filename
''','''		info := &tarballItemFileInfo{item.filename, int64(len(item.contents))}
		header := &tar.Header{Typeflag: tar.TypeReg, Name: item.filename, Size: info.Size(), Mode: int64(info.Mode().Perm())}
''')],0)
