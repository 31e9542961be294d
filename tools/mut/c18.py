from m import *
C='pkg/apk/cache.go'; I='pkg/apk/implementation.go'; X='pkg/expandapk/expandapk.go'; T='pkg/apk/transport.go'; N='pkg/apk/install.go'; S='pkg/signature/sign.go'; D='pkg/apk/installed.go'; IX='pkg/apk/index.go'; AX='pkg/apk/apkindex.go'; W='pkg/tarball/write.go'; P='pkg/passwd/passwd.go'; R='pkg/apk/repo.go'; RS='pkg/apk/resolveapk.go'; FS='pkg/fs/rwosfs.go'
p='C18'
M('copy err discarded index',p,[(AX,'''		if _, err = io.Copy(tw, bytes.NewReader(item.contents)); err != nil {
			return nil, fmt.Errorf("copying tar contents for %s: %w", item.filename, err)
		}
''','''		io.Copy(tw, bytes.NewReader(item.contents)) //nolint
''')])
M('gw close unchecked',p,[(AX,'''	if err := gw.Close(); err != nil {
		return nil, fmt.Errorf("finishing gzip: %w", err)
	}
''','''	defer gw.Close()
''')])
M('no flush',p,[(X,'''			if err := bw.Flush(); err != nil {
				return nil, fmt.Errorf("flushing tarfile: %w", err)
			}
''','')])
M('scanner err',p,[(AX,'return packages, indexScanner.Err()','return packages, nil')])
M('scanner err repos',p,[(R,'''	if err := scanner.Err(); err != nil {
		return nil, fmt.Errorf("failed to read repositories file: %w", err)
	}
''','')])
M('unexpected eof in write',p,[(N,'''	if _, err := io.CopyN(f, r, header.Size); err != nil {
''','''	if _, err := io.CopyN(f, r, header.Size); err != nil && !errors.Is(err, io.EOF) {
'''),(N,'import (','import (\n\t"errors"') if 'errors"' not in open('/repo/'+N).read() else (N,'import (','import (')])
M('tar next unexpected eof in scripts',p,[(D,'\t"errors"\n',''),(D,'''		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}

		// ignore''','''		if err != nil {
			break
		}

		// ignore''')])
M('gzip eof as end',p,[(X,'''			return nil, fmt.Errorf("invalid number of tar streams: %d", len(gzipStreams))
		} else if err''','''			break
		} else if err''')])
M('rename err logged',p,[(C,'''		return "", fmt.Errorf("unable to populate cache: %v", err)
''','''		_ = err
''')])
M('tmp close ignored',p,[(C,'''		return tmp.Close()
	}()''','''		tmp.Close()
		return nil
	}()''')])
M('checksum walk err',p,[(W,'''		if err != nil {
			return err
		}

		// skip the root''','''		if err != nil {
			return nil
		}

		// skip the root''')])
M('copybuffer ignored in tar',p,[(W,'''			if _, err := io.CopyBuffer(tw, data, buf); err != nil {
				return err
			}
''','''			_, _ = io.CopyBuffer(tw, data, buf)
''')])
M('wrong err returned',p,[(W,'''			data, err := fsys.Open(path)
			if err != nil {
				return err
			}

			defer data.Close()

			if _, err := io.CopyBuffer(tw, data, buf); err != nil {
				return err
			}
''','''			data, err := fsys.Open(path)
			if err != nil {
				return err
			}

			defer data.Close()

			if _, cerr := io.CopyBuffer(tw, data, buf); cerr != nil {
				return err
			}
''')])
M('targz close',p,[(W,'''	return gzw.Close()
''','''	gzw.Close()
	return nil
''')])
M('installed write err',p,[(D,'''	if _, err := installedFile.Write(b); err != nil {
		return err
	}
''','''	if _, err := installedFile.Write(b); err != nil {
		fmt.Println(err)
	}
''')])
M('scripts swallowed',p,[(I,'''		return nil, fmt.Errorf("unable to update scripts.tar for pkg %s: %w", pkg.Name, err)
''','''		log.Warnf("unable to update scripts.tar for pkg %s: %v", pkg.Name, err)
''')])
M('group wait ignored',p,[(I,'''	if err := g.Wait(); err != nil {
''','''	if err := g.Wait(); err != nil && ctx.Err() != nil {
''')])
M('datahash hex err',p,[(D,'''						hexsum, err := hex.DecodeString(checksum)
						if err != nil {
							return err
						}
''','''						hexsum, _ := hex.DecodeString(checksum)
''')])
M('checkSums swallowed',p,[(X,'''			if err := checkSums(ctx, tr); err != nil {
				return nil, fmt.Errorf("checking sums: %w", err)
			}
''','''			if err := checkSums(ctx, tr); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
				return nil, fmt.Errorf("checking sums: %w", err)
			}
''')])
M('stat any error absent',p,[(IX,'''		if errors.Is(err, fs.ErrNotExist) {
			return nil, nil
		}
		if err != nil {
			return nil, fmt.Errorf("failed to stat repository index %s: %w", u, err)
		}
''','''		if err != nil {
			return nil, nil
		}
''')])
M('shadowed err',p,[(X,'''		a.controlData, err = io.ReadAll(zr)
		if err != nil {
			return nil, err
		}
''','''		data, rerr := io.ReadAll(zr)
		a.controlData = data
		if rerr != nil {
			return nil, err
		}
''')])
M('sign write',p,[(S,'''	if _, err := idx.Write(indexData); err != nil {
		return fmt.Errorf("unable to write index data: %w", err)
	}
''','''	idx.Write(indexData) //nolint
''')])
M('sign close late',p,[(S,'''	if err := idx.Close(); err != nil {
		return fmt.Errorf("unable to write signed index: %w", err)
	}
''','')])
M('fileImpl close',p,[(FS,'''	if err := f.file.Close(); err != nil {
		return err
	}
	if f.perms''','''	if err := f.file.Close(); err != nil && f.perms == nil {
		return err
	}
	if f.perms''')])
M('passwd close',p,[(P,'''	if err := file.Close(); err != nil {
		return fmt.Errorf("unable to finish writing %s: %w", filePath, err)
	}
''','')])
M('apkindex template err',p,[(AX,'tw.WriteHeader(header); err != nil {\n\t\t\treturn nil, fmt.Errorf("writing tar header','tw.WriteHeader(header); err != nil && item.filename != descriptionFilename {\n\t\t\treturn nil, fmt.Errorf("writing tar header')])
# refactors
M('R named result deferred close',p,[(D,'''func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
''','''func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) (err error) {
'''),(D,'''	defer triggers.Close()
''','''	defer func() {
		if cerr := triggers.Close(); cerr != nil && err == nil {
			err = cerr
		}
	}()
'''),(D,'''	if err := triggers.Close(); err != nil {
		return fmt.Errorf("unable to finish writing triggers file %s: %w", triggersFilePath, err)
	}
''','')],expect=0)
M('R errors.Join deferred',p,[(P,'''func (uf *UserFile) WriteFile(filePath string) error {
''','''func (uf *UserFile) WriteFile(filePath string) (err error) {
'''),(P,'''	defer file.Close()

	if err := uf.Write(file); err != nil {
		return err
	}

	if err := file.Close(); err != nil {
		return fmt.Errorf("unable to finish writing %s: %w", filePath, err)
	}

	return nil
''','''	defer func() { err = errors.Join(err, file.Close()) }()

	return uf.Write(file)
'''),(P,'import (','import (\n\t"errors"')],expect=0)
M('R helper writes',p,[(N,'''	if _, err := io.CopyN(f, r, header.Size); err != nil {
		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
	}
	if err := f.Close(); err != nil {
		return fmt.Errorf("unable to finish writing %s: %w", header.Name, err)
	}
	// override one of the
	return nil
}
''','''	return copyAndClose(f, r, header)
}

func copyAndClose(f io.WriteCloser, r io.Reader, header *tar.Header) error {
	if _, err := io.CopyN(f, r, header.Size); err != nil {
		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
	}
	if err := f.Close(); err != nil {
		return fmt.Errorf("unable to finish writing %s: %w", header.Name, err)
	}
	return nil
}
''')],expect=0)
M('R switch err',p,[(D,'''		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}

		// ignore''','''		done := false
		switch {
		case err == nil:
		case errors.Is(err, io.EOF):
			done = true
		default:
			return err
		}
		if done {
			break
		}

		// ignore''')],expect=0)
M('R loop over closers',p,[(AX,'''	if err := tw.Close(); err != nil {
		return nil, fmt.Errorf("finishing tar: %w", err)
	}
	if err := gw.Close(); err != nil {
		return nil, fmt.Errorf("finishing gzip: %w", err)
	}
''','''	for _, closer := range []io.Closer{tw, gw} {
		if err := closer.Close(); err != nil {
			return nil, fmt.Errorf("finishing archive: %w", err)
		}
	}
''')],expect=0)
M('R err var wrapped',p,[(C,'''	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
		os.Remove(tmp.Name())
		return "", fmt.Errorf("unable to populate cache: %v", err)
	}

	return cacheFile, nil
''','''	err = os.Rename(tmp.Name(), cacheFile)
	if err == nil {
		return cacheFile, nil
	}
	os.Remove(tmp.Name())
	return "", fmt.Errorf("unable to populate cache: %v", err)
''')],expect=0)
M('R item writer helper',p,[(AX,'''		if err := tw.WriteHeader(header); err != nil {
			return nil, fmt.Errorf("writing tar header for %s: %w", item.filename, err)
		}
		if _, err = io.Copy(tw, bytes.NewReader(item.contents)); err != nil {
			return nil, fmt.Errorf("copying tar contents for %s: %w", item.filename, err)
		}
''','''		if err := writeItem(tw, header, item.contents); err != nil {
			return nil, fmt.Errorf("writing %s: %w", item.filename, err)
		}
'''),(AX,'''// This type implements os.FileInfo''','''func writeItem(tw *tar.Writer, header *tar.Header, contents []byte) error {
	if err := tw.WriteHeader(header); err != nil {
		return err
	}
	_, err := io.Copy(tw, bytes.NewReader(contents))
	return err
}

// This type implements os.FileInfo''')],expect=0)
M('R scanner err var',p,[(AX,'return packages, indexScanner.Err()','''err := indexScanner.Err()
	if err != nil {
		return packages, fmt.Errorf("scanning: %w", err)
	}
	return packages, nil''')],expect=0)
M('R scanner helper',p,[(R,'''	scanner := bufio.NewScanner(reposFile)
	for scanner.Scan() {
		repos = append(repos, scanner.Text())
	}
	if err := scanner.Err(); err != nil {
		return nil, fmt.Errorf("failed to read repositories file: %w", err)
	}
	return repos, nil
}
''','''	repos, err = readLines(reposFile)
	if err != nil {
		return nil, fmt.Errorf("failed to read repositories file: %w", err)
	}
	return repos, nil
}

func readLines(r io.Reader) ([]string, error) {
	var out []string
	s := bufio.NewScanner(r)
	for s.Scan() {
		out = append(out, s.Text())
	}
	return out, s.Err()
}
'''),(R,'import (','import (\n\t"io"') if '"io"\n' not in open('/repo/'+R).read() else (R,'import (','import (')],expect=0)
M('R io.Writer var for targz',p,[(W,'''	return gzw.Close()
''','''	err := gzw.Close()
	if err != nil {
		return fmt.Errorf("finishing gzip: %w", err)
	}
	return err
''')],expect=0)
M('R walk fn extracted',p,[(N,'''	f, err := a.fs.OpenFile(header.Name, os.O_CREATE|os.O_EXCL|os.O_WRONLY, header.FileInfo().Mode())
	if err != nil {
		return fmt.Errorf("error creating file %s: %w", header.Name, err)
	}
	defer f.Close()

	if _, err''','''	f, err := a.create(header)
	if err != nil {
		return err
	}
	defer f.Close()

	if _, err'''),(N,'''// installRegularFile handles''','''func (a *APK) create(header *tar.Header) (io.WriteCloser, error) {
	f, err := a.fs.OpenFile(header.Name, os.O_CREATE|os.O_EXCL|os.O_WRONLY, header.FileInfo().Mode())
	if err != nil {
		return nil, fmt.Errorf("error creating file %s: %w", header.Name, err)
	}
	return f, nil
}

// installRegularFile handles''')],expect=0)
M('create helper, close lost',p,[(N,'''	f, err := a.fs.OpenFile(header.Name, os.O_CREATE|os.O_EXCL|os.O_WRONLY, header.FileInfo().Mode())
	if err != nil {
		return fmt.Errorf("error creating file %s: %w", header.Name, err)
	}
	defer f.Close()

	if _, err''','''	f, err := a.create(header)
	if err != nil {
		return err
	}
	defer f.Close()

	if _, err'''),(N,'''	if err := f.Close(); err != nil {
		return fmt.Errorf("unable to finish writing %s: %w", header.Name, err)
	}
''',''),(N,'''// installRegularFile handles''','''func (a *APK) create(header *tar.Header) (io.WriteCloser, error) {
	f, err := a.fs.OpenFile(header.Name, os.O_CREATE|os.O_EXCL|os.O_WRONLY, header.FileInfo().Mode())
	if err != nil {
		return nil, fmt.Errorf("error creating file %s: %w", header.Name, err)
	}
	return f, nil
}

// installRegularFile handles''')])
M('R backoff: collect errors',p,[(AX,'''	if err := tw.Close(); err != nil {
		return nil, fmt.Errorf("finishing tar: %w", err)
	}
	if err := gw.Close(); err != nil {
		return nil, fmt.Errorf("finishing gzip: %w", err)
	}
''','''	if err := errors.Join(tw.Close(), gw.Close()); err != nil {
		return nil, fmt.Errorf("finishing: %w", err)
	}
'''),(AX,'import (','import (\n\t"errors"')],expect=0)
M('R goto-less single exit',p,[(I,'''	if _, err := controlData.Seek(0, 0); err != nil {
		return nil, fmt.Errorf("unable to seek to start of control data for pkg %s: %w", pkg.Name, err)
	}
	if err := a.updateTriggers(pkg, controlData); err != nil {
		return nil, fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
	}

	return installedFiles, nil
''','''	if _, err = controlData.Seek(0, 0); err == nil {
		err = a.updateTriggers(pkg, controlData)
	}
	if err != nil {
		return nil, fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
	}

	return installedFiles, nil
''')],expect=0)
M('R control helper fn',p,[(I,'''	controlData, err := os.Open(expanded.ControlFile)
	if err != nil {
		return nil, fmt.Errorf("opening control file %q: %w", expanded.ControlFile, err)
	}
	defer controlData.Close()

	if err := a.updateScriptsTar''','''	if err := a.updateDB(pkg, expanded, sourceDateEpoch); err != nil {
		return nil, err
	}
	return installedFiles, nil
}

func (a *APK) updateDB(pkg *Package, expanded *expandapk.APKExpanded, sourceDateEpoch *time.Time) error {
	controlData, err := os.Open(expanded.ControlFile)
	if err != nil {
		return fmt.Errorf("opening control file %q: %w", expanded.ControlFile, err)
	}
	defer controlData.Close()

	if err := a.updateScriptsTar'''),(I,'''		return nil, fmt.Errorf("unable to update scripts''','''		return fmt.Errorf("unable to update scripts'''),(I,'''		return nil, fmt.Errorf("unable to seek to start of control''','''		return fmt.Errorf("unable to seek to start of control'''),(I,'''		return nil, fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
	}

	return installedFiles, nil
''','''		return fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
	}

	return nil
''')],expect=0)
