from m import *
I='pkg/apk/index.go'
M('skip if no keys','C01',[(I,'return nil, fmt.Errorf("no keys provided to verify signature")','verifiedSkip = true'),(I,'		var verified bool\n','		var verified bool\n		if verifiedSkip { verified = true }\n'),(I,'	// validate the signature\n','	verifiedSkip := false\n')])
M('exempt by prefix','C01',[(I,'if IndexURL(ignoredIndex, arch) == index {','if strings.HasPrefix(index, ignoredIndex) {')])
M('digest whole','C01',[(I,'indexData := b[readBytes:]','indexData := b[readBytes:len(b)-1]')])
M('verified init true when named key','C01',[(I,'				verified = false\n			}','				verified = false\n			}\n			verified = true')])
M('err ignored','C01',[(I,'signature, keyData); err == nil {\n					verified = true','signature, keyData); err == nil || len(keys) == 1 {\n					verified = true')])
M('parse other','C01',[(I,'IndexFromArchive(io.NopCloser(bytes.NewReader(b)))','IndexFromArchive(io.NopCloser(bytes.NewReader(b[1:])))')])
M('file scheme unsigned','C01',[(I,'if shouldCheckSignatureForIndex(u, arch, opts) {','if asURL.Scheme != "file" && shouldCheckSignatureForIndex(u, arch, opts) {')])
# refactors
M('R helper','C01',[(I,'		indexDigest, err := sign.HashData(indexData)','		indexDigest, err := hh(indexData)'),(I,'type indexOpts struct','func hh(x []byte) ([]byte, error) {\n	return sign.HashData(x)\n}\n\ntype indexOpts struct')],0)
M('R ContainsFunc','C01',[(I,'''	for _, ignoredIndex := range opts.noSignatureIndexes {
		if IndexURL(ignoredIndex, arch) == index {
			return false
		}
	}
	return true''','''	return !slices.ContainsFunc(opts.noSignatureIndexes, func(ig string) bool {
		return index == IndexURL(ig, arch)
	})'''),(I,'"regexp"','"regexp"\n	"slices"')],0)
M('R verify helper','C01',[(I,'''		if !verified {
			for _, keyData := range keys {
				if err := sign.RSAVerifySHA1Digest(indexDigest, signature, keyData); err == nil {
					verified = true
					break
				}
			}
		}
''','''		if !verified {
			verified = anyKey(indexDigest, signature, keys)
		}
'''),(I,'type indexOpts struct','''func anyKey(d, s []byte, keys map[string][]byte) bool {
	for _, k := range keys {
		err := sign.RSAVerifySHA1Digest(d, s, k)
		if err != nil {
			continue
		}
		return true
	}
	return false
}

type indexOpts struct''')],0)
M('R switch reorder','C01',[(I,'		allBytes := len(b)\n		unreadBytes := buf.Len()\n		readBytes := allBytes - unreadBytes\n		indexData := b[readBytes:]','		rest := buf.Len()\n		indexData := b[len(b)-rest:]')],0)
