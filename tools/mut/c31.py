from m import *
C='pkg/apk/cache.go'; I='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'; T='pkg/apk/transport.go'; N='pkg/apk/install.go'; S='pkg/signature/sign.go'; D='pkg/apk/installed.go'; IX='pkg/apk/index.go'; P='pkg/apk/package.go'; FS='pkg/fs/rwosfs.go'
M('no remove on copy failure','C31',[(C,'''	}(); err != nil {
		os.Remove(tmp.Name())
''','''	}(); err != nil {
''')])
M('no remove on rename failure','C31',[(C,'''cacheFile); err != nil {
		os.Remove(tmp.Name())
''','''cacheFile); err != nil {
''')])
M('no close on copy failure','C31',[(C,'''			tmp.Close()
			return fmt''','''			return fmt''')])
M('body leaks in retrieve','C31',[(C,'''	defer resp.Body.Close()
	if resp.StatusCode != http.StatusOK {
		return "",''','''	if resp.StatusCode != http.StatusOK {
		return "",'''),(C,'''	cacheDir := filepath.Dir(cacheFile)
''','''	defer resp.Body.Close()
	cacheDir := filepath.Dir(cacheFile)
''')])
M('index body','C31',[(IX,'''		defer res.Body.Close()
''','')])
M('fetch status','C31',[(I,'''			res.Body.Close()
			return nil, fmt.Errorf("unable to get package apk''','''			return nil, fmt.Errorf("unable to get package apk''')])
M('expand temp dir','C31',[(X,'''		if err != nil {
			os.RemoveAll(dir)
		}
''','''		if err == nil {
			span.End()
		}
''')])
M('cachePackage failure','C31',[(I,'''		return nil, errors.Join(err, exp.Close())
	}

	return cached''','''		return nil, err
	}

	return cached''')])
M('verify failure','C31',[(I,'''verifyPackage(pkg, exp); err != nil {
		return nil, errors.Join(err, exp.Close())''','''verifyPackage(pkg, exp); err != nil {
		return nil, err''')])
M('expanded not closed','C31',[(I,'''			if exp != nil {
				exp.Close()
			}
''','''			_ = exp
''')])
M('ParsePackage','C31',[(P,'''	defer expanded.Close()

''',''),(P,'''	cfg, err := ini''','''	defer expanded.Close()
	cfg, err := ini''')])
M('tmpdir','C31',[(N,'''	defer os.RemoveAll(tmpDir)
''','')])
M('sign tmp','C31',[(S,'''	defer os.Remove(idx.Name())
''','')])
M('reset forgets','C31',[(T,'''	if r.body != nil {
		// Intentionally ignoring this because we no longer care about the previous body.
		_ = r.body.Close()
	}
''','')])
M('rrr close','C31',[(T,'''		resp.Body.Close()
		if oerr''','''		if oerr''')])
M('keyring body','C31',[(I,'''	defer res.Body.Close()
''','')])
M('keyring body 2','C31',[(I,'''		defer res.Body.Close()
''','')])
M('packageData','C31',[(X,'''		uf.Close()
		os.Remove''','''		os.Remove''')])
M('packageData tmp','C31',[(X,'''	if err := uf.Close(); err != nil {
		os.Remove(uf.Name())
''','''	if err := uf.Close(); err != nil {
''')])
M('exists file','C31',[('pkg/apk/install.go','''			defer f.Close()
''','''			_ = f
''')])
M('installPackage','C31',[(I,'''		defer packageData.Close()
''','')])
M('R helper close','C31',[(I,'''	defer rc.Close()

	exp, err := exp''','''	defer quiet(rc)

	exp, err := exp'''),(I,'''func expandPackage(''','''func quiet(c io.Closer) {
	if err := c.Close(); err != nil {
		_ = err
	}
}

func expandPackage(''')],0)
M('R helper opens','C31',[(IX,'''		rrt := newRangeRetryTransport(ctx, client)
		res, err := rrt.RoundTrip(req)
''','''		res, err := doRetry(ctx, client, req)
'''),(IX,'''func getRepositoryIndex(''','''func doRetry(ctx context.Context, client *http.Client, req *http.Request) (*http.Response, error) {
	rrt := newRangeRetryTransport(ctx, client)
	return rrt.RoundTrip(req)
}

func getRepositoryIndex(''')],0)
M('R save helper','C31',[(C,'''	if err := func() error {
		if _, err := io.Copy(tmp, resp.Body); err != nil {
			tmp.Close()
			return fmt.Errorf("unable to write to cache file: %w", err)
		}
		return tmp.Close()
	}(); err != nil {
		os.Remove(tmp.Name())
		return "", err
	}
''','''	if err := spool(tmp, resp.Body); err != nil {
		os.Remove(tmp.Name())
		return "", err
	}
'''),(C,'''func cacheDirForPackage(''','''func spool(tmp *os.File, r io.Reader) error {
	if _, err := io.Copy(tmp, r); err != nil {
		tmp.Close()
		return fmt.Errorf("unable to write to cache file: %w", err)
	}
	return tmp.Close()
}

func cacheDirForPackage(''')],0)
M('R write all helper','C31',[(C,'''	tmp, err := os.CreateTemp(cacheDir, "*.tmp")
	if err != nil {
		return "", fmt.Errorf("unable to create a temporary cache file: %w", err)
	}
	if err := func() error {
		if _, err := io.Copy(tmp, resp.Body); err != nil {
			tmp.Close()
			return fmt.Errorf("unable to write to cache file: %w", err)
		}
		return tmp.Close()
	}(); err != nil {
		os.Remove(tmp.Name())
		return "", err
	}

	// Now that we have the file has been written, rename to atomically populate
	// the cache
	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
		os.Remove(tmp.Name())
''','''	name, err := spool(cacheDir, resp.Body)
	if err != nil {
		return "", err
	}

	// Now that we have the file has been written, rename to atomically populate
	// the cache
	if err := os.Rename(name, cacheFile); err != nil {
		os.Remove(name)
'''),(C,'''func cacheDirForPackage(''','''func spool(dir string, r io.Reader) (_ string, err error) {
	tmp, err := os.CreateTemp(dir, "*.tmp")
	if err != nil {
		return "", fmt.Errorf("unable to create a temporary cache file: %w", err)
	}
	defer func() {
		if err != nil {
			os.Remove(tmp.Name())
		}
	}()
	if _, err := io.Copy(tmp, r); err != nil {
		tmp.Close()
		return "", fmt.Errorf("unable to write to cache file: %w", err)
	}
	return tmp.Name(), tmp.Close()
}

func cacheDirForPackage(''')],0)
M('R close by func var','C31',[(N,'''	defer os.RemoveAll(tmpDir)
''','''	cleanup := func() { os.RemoveAll(tmpDir) }
	defer cleanup()
''')],0)
M('R expanded helper','C31',[(I,'''	defer func() {
		// installPackage closes what it installs; packages that we skip or do not get to need closing too.
		for _, exp := range expanded {
			if exp != nil {
				exp.Close()
			}
		}
	}()
''','''	defer closeAll(expanded)
'''),(I,'''type NoKeysFoundError struct''','''func closeAll(expanded []*expandapk.APKExpanded) {
	for _, exp := range expanded {
		if exp != nil {
			exp.Close()
		}
	}
}

type NoKeysFoundError struct''')],0)
M('R switch err','C31',[(I,'''		res, err := rrt.RoundTrip(req)
		if err != nil {
			return nil, fmt.Errorf("unable to get package apk at %s: %w", asURL.Redacted(), err)
		}
		if res.StatusCode != http.StatusOK {
			res.Body.Close()
			return nil, fmt.Errorf("unable to get package apk at %s: %v", asURL.Redacted(), res.Status)
		}
		return res.Body, nil
''','''		res, err := rrt.RoundTrip(req)
		switch {
		case err != nil:
			return nil, fmt.Errorf("unable to get package apk at %s: %w", asURL.Redacted(), err)
		case res.StatusCode == http.StatusOK:
			return res.Body, nil
		}
		body := res.Body
		defer body.Close()
		return nil, fmt.Errorf("unable to get package apk at %s: %v", asURL.Redacted(), res.Status)
''')],0)
