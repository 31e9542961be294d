from m import *
F='pkg/signature/sign.go'; R='pkg/signature/rsa.go'
M('reread','C30',[(F,'''	if _, err := idx.Write(indexData); err''','''	again, err := os.ReadFile(indexFile)
	if err != nil {
		return err
	}
	_ = indexData
	if _, err := idx.Write(again); err''')])
M('trim data','C30',[(F,'idx.Write(indexData)','idx.Write(bytes.TrimRight(indexData, "\\x00"))')])
M('swap order','C30',[(F,'''	if _, err := io.Copy(idx, &sigBuffer); err != nil {
		return fmt.Errorf("unable to write index signature: %w", err)
	}

	if _, err := idx.Write(indexData); err != nil {
		return fmt.Errorf("unable to write index data: %w", err)
	}
''','''	if _, err := idx.Write(indexData); err != nil {
		return fmt.Errorf("unable to write index data: %w", err)
	}
	if _, err := io.Copy(idx, &sigBuffer); err != nil {
		return fmt.Errorf("unable to write index signature: %w", err)
	}
''')])
M('in place','C30',[(F,'idx, err := os.CreateTemp(filepath.Dir(indexFile), filepath.Base(indexFile)+".*.tmp")','idx, err := os.OpenFile(indexFile, os.O_WRONLY|os.O_TRUNC, 0644)')])
M('no skipclose','C30',[(F,'tarball.WithSkipClose(true)','tarball.WithSkipClose(false)')])
M('name','C30',[(F,'filepath.Base(signingKey)), sigData','signingKey), sigData')])
M('name2','C30',[(F,'".SIGN.RSA.%s.pub", filepath.Base(signingKey)','".SIGN.RSA.%s.pub", strings.TrimSuffix(filepath.Base(signingKey), ".rsa")')])
M('digest of other','C30',[(F,'digest.Write(data)','digest.Write(data[:len(data):len(data)/2])')],expect=1) if False else None
M('digest part','C30',[(F,'if n, err := digest.Write(data); err != nil || n != len(data)','if n, err := digest.Write(data[4:]); err != nil || n != len(data)-4')])
M('close unchecked','C30',[(F,'''	if err := idx.Close(); err != nil {
		return fmt.Errorf("unable to write signed index: %w", err)
	}
''','''	idx.Close()
''')])
M('first entry only','C30',[(F,'''			return true, nil
		}
	}

	return false, nil''','''			return true, nil
		}
		break
	}

	return false, nil''')])
M('prefix','C30',[(F,'strings.HasPrefix(hdr.Name, ".SIGN.RSA")','strings.HasPrefix(hdr.Name, ".SIGN.RSA256")')])
M('skip dirs','C30',[(F,'		if strings.HasPrefix(hdr.Name, ".SIGN','''		if hdr.Size > 512 {
			continue
		}

		if strings.HasPrefix(hdr.Name, ".SIGN''')])
M('ignore err','C30',[(F,'''	if err != nil {
		return err
	}
	if is {''','''	if err == nil && is {''')])
M('post chmod fail','C30',[(F,'''	log.Infof("signed index %s with''','''	if err := os.Chmod(idx.Name(), fi.Mode().Perm()); err != nil {
		return err
	}

	log.Infof("signed index %s with''')])
M('sig err','C30',[(F,'''	if err != nil {
		return fmt.Errorf("unable to sign index: %w", err)
	}
''','''	if err != nil {
		log.Warnf("unable to sign index: %v", err)
	}
''')])
M('signer sha256','C30',[(R,'sha1Digest, crypto.SHA1)\n	if','sha1Digest, crypto.SHA256)\n	if')])
M('R helper','C30',[(F,'''	if _, err := io.Copy(idx, &sigBuffer); err != nil {
		return fmt.Errorf("unable to write index signature: %w", err)
	}

	if _, err := idx.Write(indexData); err != nil {
		return fmt.Errorf("unable to write index data: %w", err)
	}
''','''	if err := writeSigned(idx, &sigBuffer, indexData); err != nil {
		return err
	}
'''),(F,'func indexIsAlready','''func writeSigned(w io.Writer, sig io.Reader, data []byte) error {
	if _, err := io.Copy(w, sig); err != nil {
		return fmt.Errorf("unable to write index signature: %w", err)
	}

	if _, err := w.Write(data); err != nil {
		return fmt.Errorf("unable to write index data: %w", err)
	}
	return nil
}

func indexIsAlready''')],0)
M('R name concat','C30',[(F,'fmt.Sprintf(".SIGN.RSA.%s.pub", filepath.Base(signingKey))','".SIGN.RSA." + filepath.Base(signingKey) + ".pub"')],0)
M('R sum','C30',[(F,'''	digest := sha1.New() //nolint:gosec
	if n, err := digest.Write(data); err != nil || n != len(data) {
		return nil, fmt.Errorf("unable to hash data: %w", err)
	}
	return digest.Sum(nil), nil''','''	digest := sha1.Sum(data)
	return digest[:], nil''')],0)
M('R bytes','C30',[(F,'io.Copy(idx, &sigBuffer)','idx.Write(sigBuffer.Bytes())')],0)
M('R loop','C30',[(F,'''	for {
		hdr, err := tari.Next()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return false, fmt.Errorf("cannot read tar index %s: %w", indexFile, err)
		}

		if strings.HasPrefix(hdr.Name, ".SIGN.RSA") {
			return true, nil
		}
	}

	return false, nil''','''	hdr, err := tari.Next()
	for ; err == nil; hdr, err = tari.Next() {
		if isSigName(hdr.Name) {
			return true, nil
		}
	}
	if err != io.EOF {
		return false, fmt.Errorf("cannot read tar index %s: %w", indexFile, err)
	}

	return false, nil'''),(F,'func indexIsAlready','''func isSigName(n string) bool { return strings.HasPrefix(n, ".SIGN.RSA") }

func indexIsAlready'''),(F,'	"errors"\n','')],0)
M('R direct','C30',[(F,'''	var sigBuffer bytes.Buffer
	if err := multitarctx''','''	sigBuffer := new(bytes.Buffer)
	if err := multitarctx'''),(F,'WriteTargz(ctx, &sigBuffer','WriteTargz(ctx, sigBuffer'),(F,'io.Copy(idx, &sigBuffer)','sigBuffer.WriteTo(idx)')],0)
M('R finish helper','C30',[(F,'''	if err := idx.Close(); err != nil {
		return fmt.Errorf("unable to write signed index: %w", err)
	}
	if err := os.Rename(idx.Name(), indexFile); err != nil {
		return fmt.Errorf("unable to replace index: %w", err)
	}

	log.Infof("signed index %s with key %s", indexFile, signingKey)

	return nil
}
''','''	return finish(idx, indexFile)
}

func finish(f *os.File, name string) error {
	tmp := f.Name()
	if err := f.Close(); err != nil {
		return fmt.Errorf("unable to write signed index: %w", err)
	}
	if err := os.Rename(tmp, name); err != nil {
		return fmt.Errorf("unable to replace index: %w", err)
	}
	return nil
}
''')],0)
