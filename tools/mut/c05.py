import sys; sys.path.insert(0,'/tmp/mut')
from m import M
F='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'; C='pkg/apk/cache.go'
M('final name pd','C05',[(X,'uf, err = os.CreateTemp(filepath.Dir(a.TarFile), "*.tar.tmp")','uf, err = os.Create(a.TarFile)'),(X,'''	if err := os.Rename(uf.Name(), a.TarFile); err != nil {
		os.Remove(uf.Name())
		return nil, fmt.Errorf("renaming tar file to %q: %w", a.TarFile, err)
	}

''','')])
M('final name http','C05',[(C,'tmp, err := os.CreateTemp(cacheDir, "*.tmp")','tmp, err := os.Create(cacheFile)'),(C,'if err := os.Rename(tmp.Name(), cacheFile); err != nil {','if err := os.Chmod(cacheFile, 0o644); err != nil {')])
M('tmpdir','C05',[(C,'os.CreateTemp(cacheDir, "*.tmp")','os.CreateTemp("", "*.tmp")')])
M('copy err','C05',[(C,'''		if _, err := io.Copy(tmp, resp.Body); err != nil {
			tmp.Close()
			return fmt.Errorf("unable to write to cache file: %w", err)
		}
''','''		_, _ = io.Copy(tmp, resp.Body)
''')])
M('copy eof tolerated','C05',[(C,'''io.Copy(tmp, resp.Body); err != nil {''','''io.Copy(tmp, resp.Body); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {'''),(C,'import (','import (\n\t"errors"')])
M('close unchecked','C05',[(X,'''	if err := uf.Close(); err != nil {
		os.Remove(uf.Name())
		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
	}
''','''	defer uf.Close()
''')])
M('no flush','C05',[(X,'''			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}
''','')])
M('flush ignored','C05',[(X,'''			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}
''','''			bw.Flush()
''')])
M('flush after close','C05',[(X,'''			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}

			if err := tarfile.Close(); err != nil {
				return nil, fmt.Errorf("closing tarfile: %w", err)
			}
''','''			if err := tarfile.Close(); err != nil {
				return nil, fmt.Errorf("closing tarfile: %w", err)
			}

			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}
''')])
M('sw no close','C05',[(X,'''	if err := sw.CloseFile(); err != nil {
		return nil, fmt.Errorf("expandApk error 7: %w", err)
	}
''','''	defer sw.CloseFile() //nolint:errcheck
''')])
M('io.copy rest','C05',[(X,'''			if _, err := io.Copy(io.Discard, tr); err != nil {
				return nil, fmt.Errorf("expandApk error 3: %w", err)
			}

			if err := bw''','''			_, _ = io.Copy(io.Discard, tr)

			if err := bw''')])
M('R helper','C05',[(C,'''	if err := func() error {
		if _, err := io.Copy(tmp, resp.Body); err != nil {
			tmp.Close()
			return fmt.Errorf("unable to write to cache file: %w", err)
		}
		return tmp.Close()
	}(); err != nil {
''','''	if err := drainTo(tmp, resp.Body); err != nil {
'''),(C,'func cacheDirForPackage','''func drainTo(f *os.File, r io.Reader) error {
	_, err := io.Copy(f, r)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return fmt.Errorf("unable to write to cache file: %w", err)
	}
	return nil
}

func cacheDirForPackage''')],0)
M('R join','C05',[(X,'''	buf := make([]byte, bufSize)
	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
		uf.Close()
		os.Remove(uf.Name())
		return nil, fmt.Errorf("decompressing %q: %w", a.PackageFile, err)
	}

	if err := uf.Close(); err != nil {
''','''	buf := make([]byte, bufSize)
	_, cperr := io.CopyBuffer(uf, zr, buf)
	if err := errors.Join(cperr, uf.Close()); err != nil {
''')],0)
M('R tarfile helper','C05',[(X,'''			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}

			if err := tarfile.Close(); err != nil {
				return nil, fmt.Errorf("closing tarfile: %w", err)
			}
''','''			if err := finish(bw, tarfile); err != nil {
				return nil, err
			}
'''),(X,'func checkSums(','''func finish(bw *bufio.Writer, f *os.File) error {
	if err := bw.Flush(); err != nil {
		return fmt.Errorf("flushing: %w", err)
	}
	return f.Close()
}

func checkSums(''')],0)
