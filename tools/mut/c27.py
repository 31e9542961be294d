from m import *
I='pkg/apk/index.go'; C='pkg/apk/cache.go'; M_='pkg/apk/implementation.go'
M('apk fresh once','C27',[(M_,'once, _ := c.onces.LoadOrStore(u, &sync.Once{})\n	once.(*sync.Once).Do','c.onces.LoadOrStore(u, &sync.Once{})\n	new(sync.Once).Do')])
M('apk key name','C27',[(M_,'	u := pkg.URL()\n	// Do all','	u := pkg.PackageName()\n	// Do all')])
M('apk drop err','C27',[(M_,'''			exp: exp,
			err: err,
		})
	})''','''			exp: exp,
		})
		_ = err
	})''')])
M('apk store only success','C27',[(M_,'''		exp, err := expandPackage(ctx, a, pkg)
		c.resps.Store''','''		exp, err := expandPackage(ctx, a, pkg)
		if err != nil {
			return
		}
		c.resps.Store''')])
M('apk bypass','C27',[(M_,'''	if a.cache == nil {
		// If we don't have''','''	if a.cache == nil || a.arch == "" {
		// If we don't have''')])
M('apk bypass inverted','C27',[(M_,'''	if a.cache == nil {
		// If we don't have''','''	if a.cache != nil {
		// If we don't have''')])
M('apk per instance','C27',[(M_,'return globalApkCache.get(','return (&apkCache{}).get(')])
M('apk refetch on err','C27',[(M_,'''	result := v.(apkResult)
	return''','''	result := v.(apkResult)
	if result.err != nil {
		exp, err := expandPackage(ctx, a, pkg)
		return exp, err
	}
	return''')])
M('apk delete','C27',[(M_,'''	result := v.(apkResult)
	return''','''	result := v.(apkResult)
	if result.err != nil {
		c.onces.Delete(u)
	}
	return''')])
M('idx no modtime record','C27',[(I,'			i.modtimes[key] = mod\n','')])
M('idx always','C27',[(I,'''		if !ok || mod.After(before) {''','''		_, _ = ok, before
		if mod.Unix() > 0 {''')])
M('idx stored under u','C27',[(I,'''			i.indexes.Store(key, indexResult{
				idx: idx,
				err: err,
			})
		})''','''			i.indexes.Store(u, indexResult{
				idx: idx,
				err: err,
			})
		})''')])
M('idx outside once','C27',[(I,'''		once.(*sync.Once).Do(func() {
			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
''','''		idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
		once.(*sync.Once).Do(func() {
''')])
M('etag no store on head err','C27',[(C,'''			e.resps.Store(url, etagResp{
				resp: resp,
				err:  rerr,
			})
			return
''','''			if rerr != nil {
				return
			}
			e.resps.Store(url, etagResp{
				resp: resp,
				err:  rerr,
			})
			return
''')])
M('etag no store after get err','C27',[(C,'''		e.resps.Store(url, etagResp{
			err:       err,
			cacheFile: etagFile,
		})
	})''','''		if err != nil {
			return
		}
		e.resps.Store(url, etagResp{
			err:       err,
			cacheFile: etagFile,
		})
	})''')])
M('etag key path','C27',[(C,'url := request.URL.String()','url := request.URL.Path')])
M('etag err dropped','C27',[(C,'''		return resp.resp, resp.err
''','''		return resp.resp, nil
''')])
M('etag panic','C27',[(C,'''		return t.wrapped.Do(request)
	}
	resp := v''','''		panic("no etag")
	}
	resp := v''')])
M('R apk extracted','C27',[(M_,'''		exp, err := expandPackage(ctx, a, pkg)
		c.resps.Store(u, apkResult{
			exp: exp,
			err: err,
		})
	})

	v, ok := c.resps.Load(u)
	if !ok {
		panic(fmt.Errorf("did not see apk of %q after writing it", pkg.PackageName()))
	}

	result := v.(apkResult)
	return result.exp, result.err
}''','''		c.fill(ctx, u, a, pkg)
	})
	return c.lookup(u, pkg)
}

func (c *apkCache) fill(ctx context.Context, u string, a *APK, pkg InstallablePackage) {
	var r apkResult
	r.exp, r.err = expandPackage(ctx, a, pkg)
	c.resps.Store(u, r)
}

func (c *apkCache) lookup(u string, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
	if v, ok := c.resps.Load(u); ok {
		result := v.(apkResult)
		return result.exp, result.err
	}
	panic(fmt.Errorf("did not see apk of %q after writing it", pkg.PackageName()))
}''')],0)
M('R apk once helper','C27',[(M_,'''	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
	once.(*sync.Once).Do(func() {''','''	c.onceFor(u).Do(func() {'''),(M_,'''func (c *apkCache) get(''','''func (c *apkCache) onceFor(u string) *sync.Once {
	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
	return once.(*sync.Once)
}

func (c *apkCache) get(''')],0)
M('R expanded inverted','C27',[(M_,'''	if a.cache == nil {
		// If we don't have a cache configured, don't use the global cache.
		// Calling APKExpanded.Close() will clean up a tempdir.
		// This is fine when we have a cache because we move all the backing files into the cache.
		// This is not fine when we don't have a cache because the tempdir contains all our state.
		return expandPackage(ctx, a, pkg)
	}

	return globalApkCache.get(ctx, a, pkg)''','''	if a.cache != nil {
		return globalApkCache.get(ctx, a, pkg)
	}

	return expandPackage(ctx, a, pkg)''')],0)
M('R idx remote extract','C27',[(I,'''		once, _ := i.onces.LoadOrStore(key, &sync.Once{})
		once.(*sync.Once).Do(func() {
			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
			i.indexes.Store(key, indexResult{
				idx: idx,
				err: err,
			})
		})
''','''		i.remote(key, func() (*APKIndex, error) {
			return getRepositoryIndex(ctx, u, keys, arch, opts)
		})
'''),(I,'''func (i *indexCache) get(''','''func (i *indexCache) remote(key string, load func() (*APKIndex, error)) {
	once, _ := i.onces.LoadOrStore(key, &sync.Once{})
	once.(*sync.Once).Do(func() {
		idx, err := load()
		i.indexes.Store(key, indexResult{idx: idx, err: err})
	})
}

func (i *indexCache) get(''')],0)
M('R idx local extract','C27',[(I,'''		i.Lock()
		defer i.Unlock()

		// We do expect local indexes to change, so we check modtimes.
		stat, err := os.Stat(u)
		if err != nil {
			return nil, nil
		}

		mod := stat.ModTime()
		before, ok := i.modtimes[key]
		if !ok || mod.After(before) {
			// If this is the first time or it has changed since the last time...
			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
			i.indexes.Store(key, indexResult{
				idx: idx,
				err: err,
			})
			i.modtimes[key] = mod
		}
''','''		i.Lock()
		defer i.Unlock()

		// We do expect local indexes to change, so we check modtimes.
		stat, err := os.Stat(u)
		if err != nil {
			return nil, nil
		}

		i.refresh(ctx, stat.ModTime(), key, u, keys, arch, opts)
'''),(I,'''func (i *indexCache) get(''','''func (i *indexCache) refresh(ctx context.Context, mod time.Time, key, u string, keys map[string][]byte, arch string, opts *indexOpts) {
	if before, ok := i.modtimes[key]; ok && !mod.After(before) {
		return
	}
	i.modtimes[key] = mod
	idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
	i.indexes.Store(key, indexResult{idx: idx, err: err})
}

func (i *indexCache) get(''')],0)
M('R etag head extract','C27',[(C,'''		req := request.Clone(request.Context())
		req.Method = http.MethodHead
		resp, rerr := t.wrapped.Do(req)
		if resp != nil {
			// We don't expect any body from a HEAD so just always close it to appease the linter.
			resp.Body.Close()
		}
''','''		resp, rerr := t.head(request)
'''),(C,'''func (e *etagCache) get(''','''func (t *cacheTransport) head(request *http.Request) (*http.Response, error) {
	req := request.Clone(request.Context())
	req.Method = http.MethodHead
	resp, rerr := t.wrapped.Do(req)
	if resp != nil {
		resp.Body.Close()
	}
	return resp, rerr
}

func (e *etagCache) get(''')],0)
M('R etag open extract','C27',[(C,'''	f, err := os.Open(resp.cacheFile)
	if err != nil {
		return nil, fmt.Errorf("open(%q): %w", resp.cacheFile, err)
	}

	fi, err := f.Stat()
	if err != nil {
		return nil, fmt.Errorf("stat(%q): %w", resp.cacheFile, err)
	}

	return &http.Response{
		StatusCode:    http.StatusOK,
		Body:          f,
		ContentLength: fi.Size(),
	}, nil
''','''	return respFromFile(resp.cacheFile)
'''),(C,'''func (e *etagCache) get(''','''func respFromFile(name string) (*http.Response, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, fmt.Errorf("open(%q): %w", name, err)
	}

	fi, err := f.Stat()
	if err != nil {
		return nil, fmt.Errorf("stat(%q): %w", name, err)
	}

	return &http.Response{
		StatusCode:    http.StatusOK,
		Body:          f,
		ContentLength: fi.Size(),
	}, nil
}

func (e *etagCache) get(''')],0)
