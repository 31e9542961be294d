from m import *
D='pkg/apk/installed.go'; G='pkg/passwd/group.go'; P='pkg/passwd/passwd.go'; AX='pkg/apk/apkindex.go'; RS='pkg/apk/resolveapk.go'; K='pkg/apk/package.go'; AF='pkg/fs/apkfs.go'; W='pkg/tarball/write.go'; IN='pkg/apk/install.go'; I='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'
p='C28'
M('passwd 64 bits',p,[(P,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 64)')])
M('passwd gid 64 bits',p,[(P,'strconv.ParseUint(parts[3], 10, 32)','strconv.ParseUint(parts[3], 10, 64)')])
M('group 64 bits',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 64)')])
M('group atoi',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.Atoi(parts[2])')])
M('group parseint 32',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseInt(parts[2], 10, 33)')])
M('group guard high only',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.Atoi(parts[2])'),(G,'ge.GID = uint32(gid)','if gid > 4294967295 {\n\t\treturn fmt.Errorf("bad gid")\n\t}\n\tge.GID = uint32(gid)')])
M('group guard off by one',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.Atoi(parts[2])'),(G,'ge.GID = uint32(gid)','if gid < 0 || gid > 4294967296 {\n\t\treturn fmt.Errorf("bad gid")\n\t}\n\tge.GID = uint32(gid)')])
M('R group guard',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.Atoi(parts[2])'),(G,'ge.GID = uint32(gid)','if gid < 0 || gid > 4294967295 {\n\t\treturn fmt.Errorf("bad gid")\n\t}\n\tge.GID = uint32(gid)')],expect=0)
M('R group guard split',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseInt(parts[2], 10, 64)'),(G,'ge.GID = uint32(gid)','if gid < 0 {\n\t\treturn fmt.Errorf("negative gid")\n\t}\n\tif gid >= 1<<32 {\n\t\treturn fmt.Errorf("bad gid")\n\t}\n\tge.GID = uint32(gid)')],expect=0)
M('R group helper',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','parseID(parts[2])'),(G,'ge.GID = uint32(gid)','ge.GID = gid'),(G,'// Parse parses','func parseID(s string) (uint32, error) {\n\tn, err := strconv.ParseUint(s, 10, 32)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn uint32(n), nil\n}\n\n// Parse parses')],expect=0)
M('helper 64',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','parseID(parts[2])'),(G,'ge.GID = uint32(gid)','ge.GID = gid'),(G,'// Parse parses','func parseID(s string) (uint32, error) {\n\tn, err := strconv.ParseUint(s, 10, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn uint32(n), nil\n}\n\n// Parse parses')])
M('helper clamp',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','parseID(parts[2])'),(G,'ge.GID = uint32(gid)','ge.GID = gid'),(G,'// Parse parses','func parseID(s string) (uint32, error) {\n\tn, err := strconv.ParseUint(s, 10, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tif n > 4294967295 {\n\t\treturn 65534, nil\n\t}\n\treturn uint32(n), nil\n}\n\n// Parse parses')])
M('clamp in place',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 64)'),(G,'ge.GID = uint32(gid)','if gid > 4294967295 {\n\t\tgid = 4294967295\n\t}\n\tge.GID = uint32(gid)')])
M('min',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 64)'),(G,'ge.GID = uint32(gid)','ge.GID = uint32(min(gid, 4294967295))')])
M('mask',p,[(G,'strconv.ParseUint(parts[2], 10, 32)','strconv.ParseUint(parts[2], 10, 64)'),(G,'ge.GID = uint32(gid)','ge.GID = uint32(gid & 0xffffffff)')])
M('err dropped',p,[(G,'gid, err := strconv.ParseUint(parts[2], 10, 32)\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to parse UID %s", parts[2])\n\t}','gid, _ := strconv.ParseUint(parts[2], 10, 32)')])
M('err range tolerated',p,[(P,'uid, err := strconv.ParseUint(parts[2], 10, 32)\n\tif err != nil {','uid, err := strconv.ParseUint(parts[2], 10, 32)\n\tif err != nil && !errors.Is(err, strconv.ErrRange) {'),(P,'"bufio"','"bufio"\n\t"errors"')])
M('perms int32 conv',p,[(D,'uid, err = strconv.Atoi(permParts[0])','var u int64\n\tu, err = strconv.ParseInt(permParts[0], 10, 64)\n\tuid = int(int32(u))')])
M('perms uint conv',p,[(D,'uid, err = strconv.Atoi(permParts[0])','var u uint64\n\tu, err = strconv.ParseUint(permParts[0], 10, 64)\n\tuid = int(u)')])
M('R perms 32',p,[(D,'uid, err = strconv.Atoi(permParts[0])','var u uint64\n\tu, err = strconv.ParseUint(permParts[0], 10, 32)\n\tuid = int(u)')],expect=0)
M('perms masked',p,[(D,'	perms, err = strconv.ParseInt(permParts[2], 8, 64)\n\tif err != nil {\n\t\treturn 0, 0, 0, fmt.Errorf("invalid permission string perms was not an int64 %s", permString)\n\t}\n','	perms, err = strconv.ParseInt(permParts[2], 8, 64)\n\tif err != nil {\n\t\treturn 0, 0, 0, fmt.Errorf("invalid permission string perms was not an int64 %s", permString)\n\t}\n\tperms &= 0o777\n')])
M('db mode masked',p,[(D,'f.Mode & 0o7777','f.Mode & 0o777')])
M('R db mode unmasked',p,[(D,'f.Mode & 0o7777','f.Mode')],expect=0)
M('dir perm',p,[(IN,'header.FileInfo().Mode()&^os.ModeType)','header.FileInfo().Mode().Perm())')])
M('R dir mode var',p,[(IN,'			if err := a.fs.MkdirAll(header.Name, header.FileInfo().Mode()&^os.ModeType)','			mode := header.FileInfo().Mode()\n\t\t\tif err := a.fs.MkdirAll(header.Name, mode)')],expect=0)
M('index size err skipped',p,[(AX,'size, err := strconv.ParseUint(val, 10, 64)\n','size, err := strconv.ParseUint(val, 10, 64)\n\t\t\tif errors.Is(err, strconv.ErrRange) {\n\t\t\t\terr = nil\n\t\t\t}\n'),(AX,'"bufio"','"bufio"\n\t"errors"')])
M('index size 32',p,[(AX,'pkg.Size = size','pkg.Size = uint64(uint32(size))')])
M('index size float',p,[(AX,'size, err := strconv.ParseUint(val, 10, 64)','sizef, err := strconv.ParseFloat(val, 64)\n\t\t\tsize := uint64(sizef)')])
M('resolve size 32',p,[(RS,'gzipStreamSizes[maxStreams-1] = size','gzipStreamSizes[maxStreams-1] = int(int32(size))')])
M('mapto',p,[(K,'return cfg.StrictMapTo(pkg)','return cfg.MapTo(pkg)')])
M('mapto err ignored',p,[(K,'return cfg.StrictMapTo(pkg)','_ = cfg.StrictMapTo(pkg)\n\treturn nil')])
M('map err ignored outside',p,[(I,'if err := mapPackageInfo(cfg, pkg); err != nil {','if err := mapPackageInfo(cfg, pkg); err != nil && pkg.Name == "" {')],expect=None) if 0 else None
M('apkfs guard gone',p,[(AF,'if header.Mode < 0 || header.Mode > math.MaxUint32 {','if header.Mode < 0 && header.Mode > math.MaxUint32 {')])
M('apkfs guard neg gone',p,[(AF,'if header.Mode < 0 || header.Mode > math.MaxUint32 {','if header.Mode > math.MaxUint32 {')])
M('R apkfs guard helper',p,[(AF,'		if header.Mode < 0 || header.Mode > math.MaxUint32 {\n','		if m := header.Mode; m < 0 || m > math.MaxUint32 {\n')],expect=0)
M('apkfs uid field 16',p,[(AF,'uid: header.Uid, gid: header.Gid,','uid: int(uint16(header.Uid)), gid: header.Gid,')])
M('write uid mask',p,[(W,'header.Uid = h.Uid','header.Uid = h.Uid & 0x1fffff')])
M('write uid mod',p,[(W,'header.Uid = h.Uid','header.Uid = h.Uid % 65536')])
M('write dev 8bit',p,[(W,'header.Devmajor = int64(major)','header.Devmajor = int64(uint8(major))')])
M('expanded neg',p,[(X,'totalSize += info.Size()','totalSize += info.Size() - 1')])
M('R expanded closure',p,[(X,'totalSize += info.Size()','sz := info.Size()\n\t\ttotalSize = totalSize + sz')],expect=0)
M('R index helper',p,[(AX,'size, err := strconv.ParseUint(val, 10, 64)','size, err := parseSize(val)'),(AX,'// ParsePackageIndex parses','func parseSize(s string) (uint64, error) {\n\treturn strconv.ParseUint(s, 10, 64)\n}\n\n// ParsePackageIndex parses')],expect=0)
M('index helper bad',p,[(AX,'size, err := strconv.ParseUint(val, 10, 64)','size, err := parseSize(val), error(nil)'),(AX,'// ParsePackageIndex parses','func parseSize(s string) uint64 {\n\tn, _ := strconv.ParseUint(s, 10, 64)\n\treturn n\n}\n\n// ParsePackageIndex parses')])
M('R perms early',p,[(D,'''	if err != nil {
		return 0, 0, 0, fmt.Errorf("invalid permission string uid was not an integer %s", permString)
	}
''','''	if err != nil {
		err = fmt.Errorf("invalid permission string uid was not an integer %s", permString)
		return
	}
''')],expect=0)
