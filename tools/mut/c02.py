import sys; sys.path.insert(0,'/tmp/mut')
from m import M
F='pkg/apk/index.go'
M('key=u','C02',[(F,'key := indexCacheKey(u, keys, arch, opts)','key := u; _ = indexCacheKey')])
M('names only','C02',[(F,'		h.Write(keys[name])\n','')])
M('count only','C02',[(F,'return fmt.Sprintf("%s %x", u, h.Sum(nil))','return fmt.Sprintf("%s %d", u, len(keys))')])
M('ign only','C02',[(F,'	if !shouldCheckSignatureForIndex(u, arch, opts) {\n		return u\n	}\n	names','	if opts.ignoreSignatures {\n		return u\n	}\n	names')])
M('local u','C02',[(F,'''		i.Lock()
		defer i.Unlock()
''','''		i.Lock()
		defer i.Unlock()
		key = u
''')])
M('load by u','C02',[(F,'v, ok := i.indexes.Load(key)','v, ok := i.indexes.Load(u)')])
M('always keyed','C02',[(F,'	if !shouldCheckSignatureForIndex(u, arch, opts) {\n		return u\n	}\n	names','	names')])
M('prefix of key','C02',[(F,'h.Write(keys[name])','h.Write(keys[name][:0])')])
M('fast path by url','C02',[(F,'	key := indexCacheKey(u, keys, arch, opts)\n','''	if v, ok := i.indexes.Load(u); ok {
		r := v.(indexResult)
		return r.idx, r.err
	}
	key := indexCacheKey(u, keys, arch, opts)
''')])
M('R flag','C02',[(F,'''	if !shouldCheckSignatureForIndex(u, arch, opts) {
		return u
	}
	names''','''	verify := shouldCheckSignatureForIndex(u, arch, opts)
	names'''),(F,'return fmt.Sprintf("%s %x", u, h.Sum(nil))','return fmt.Sprintf("%s %t %x", u, verify, h.Sum(nil))')],0)
M('R digest helper','C02',[(F,'''	names := make([]string, 0, len(keys))
	for name := range keys {
		names = append(names, name)
	}
	sort.Strings(names)
	h := sha256.New()
	for _, name := range names {
		fmt.Fprintf(h, "%d %d %s", len(name), len(keys[name]), name)
		h.Write(keys[name])
	}
	return fmt.Sprintf("%s %x", u, h.Sum(nil))
''','''	return u + " " + keysDigest(keys)
'''),(F,'func (i *indexCache) get','''func keysDigest(keys map[string][]byte) string {
	names := make([]string, 0, len(keys))
	for name := range keys {
		names = append(names, name)
	}
	sort.Strings(names)
	h := sha256.New()
	for _, name := range names {
		key := keys[name]
		fmt.Fprintf(h, "%d %d %s%s", len(name), len(key), name, key)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

func (i *indexCache) get''')],0)
M('R split','C02',[(F,'''	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
		// We''','''	if isRemote(u) {
		// We'''),(F,'func (i *indexCache) get','''func isRemote(u string) bool {
	return strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://")
}

func (i *indexCache) get'''),(F,'''			i.indexes.Store(key, indexResult{
				idx: idx,
				err: err,
			})
		})''','''			i.put(key, idx, err)
		})'''),(F,'func isRemote','''func (i *indexCache) put(key string, idx *APKIndex, err error) {
	i.indexes.Store(key, indexResult{idx: idx, err: err})
}

func isRemote''')],0)
M('R fields','C02',[(F,'''	key := indexCacheKey(u, keys, arch, opts)
	if''','''	key := indexCacheKey(u, keys, arch, opts)
	if false {
		return nil, nil
	}
	if''')],0)
M('R containsfunc','C02',[(F,'''	for _, ignoredIndex := range opts.noSignatureIndexes {
		if IndexURL(ignoredIndex, arch) == index {
			return false
		}
	}
	return true
''','''	return !slices.ContainsFunc(opts.noSignatureIndexes, func(r string) bool {
		return IndexURL(r, arch) == index
	})
'''),(F,'import (','import (\n\t"slices"')],0)
